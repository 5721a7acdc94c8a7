import json
import sys

from . import sut

cases = json.load(sys.stdin)
json.dump([sut.canon(sut.cluster_urls(c['urls'], c['mcn'])[1])
           for c in cases], sys.stdout)
