"""Writes MANIFEST.json."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': 'runtime monitor: conservation checker over recorded load/make events',
    'C02': 'runtime monitor: regex and strict-reading oracle on every member',
    'C03': 'runtime monitor: round-trip oracle on observed patterns',
    'C04': 'runtime monitor: history comparison (orders, duplicates, hash seeds)',
    'C05': 'runtime monitor: sharded versus whole runs, digest oracle',
    'C06': 'runtime monitor: invariant on every reported cluster',
    'C07': 'runtime monitor: idempotence of observed clusters',
    'C08': 'runtime monitor: constructed families with known outcome',
    'C09': 'runtime monitor: reference matcher on every reported match',
    'C10': 'runtime monitor: reference matcher, expected matches by construction',
    'C11': 'runtime monitor: compositionality over load/match histories',
    'C12': 'runtime monitor: inclusion-order oracle on sorted matches',
    'C13': 'runtime monitor: reference URL parser, small-scope sweep and random',
    'C14': 'runtime monitor: reference splitter, small-scope sweep and random',
    'C15': 'runtime monitor: reference grammar, small-scope sweep and random',
    'C16': 'runtime monitor: exception classes and trace-freeness under bad input',
    'C17': 'runtime monitor: offline checker of pattern-match input and output',
    'C18': 'runtime monitor: offline checker of pattern-make input and output',
    'C19': 'runtime monitor: tree checker against the separate clusters',
    'C20': 'runtime monitor: interpreter step counter against a budget',
    'C21': 'runtime monitor: seeded thread scheduler, sequential oracle',
    'C22': 'runtime monitor: offline checker of the log against a recount',
    'C23': 'runtime monitor: interleaved histories against a fresh process',
    'C24': 'runtime monitor: fault injection, comparison with undisturbed runs',
    'C25': 'runtime monitor: traced memory before and after many calls',
    'C26': 'runtime monitor: observed clusters against a reference model',
    'C27': 'runtime monitor: tree checker against the recorded loads',
}
NOTE = ('Held on all executions of the run; the workload is sampled from '
        'VERIF_SEED (see the evidence file for what was observed). Trusts the '
        'reference models in mon/ref.py and the generators in mon/gen.py.')


def main():
    sys.path.insert(0, ROOT)
    checks = []
    for pid in sorted(TECH):
        checks.append({
            'property': pid,
            'quick_cmd': './check.sh %s quick' % pid,
            'thorough_cmd': './check.sh %s thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': TECH[pid],
            'level': 'exploration',
            'level_note': NOTE,
        })
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump({
            'version': 1,
            'setup_cmd': './setup.sh',
            'checks': checks,
            'not_applicable': [],
            'notes': 'No hooks in /repo: everything is observed at the public '
                     'API, at the command line and through sys.monitoring. '
                     'See DESIGN.md.'}, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
