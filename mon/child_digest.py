import json
import sys

from . import sut

json.dump([sut.fuzzy_digest(u) for u in json.load(sys.stdin)], sys.stdout)
