#!/bin/bash
# Nothing is compiled: shows that the interpreter and the code under test load.
cd "$(dirname "$0")" || exit 1
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1
export PYTHONPYCACHEPREFIX=$(mktemp -d /tmp/vp.XXXXXX)
PYTHONPATH="$PWD:/repo/src" python -c 'import sys; assert hasattr(sys, "monitoring"); import mon.sut, mon.checks_make, mon.checks_match, mon.checks_parse, mon.checks_cli, mon.checks_run'
rc=$?
rm -rf "$PYTHONPYCACHEPREFIX"
exit $rc
