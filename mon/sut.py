"""The boundary to the code under test, and what is recorded there.

Only the documented API is used (README 'APIs', the formatters, the command
line entry points and what the repository's own tests import).
"""
import os
import sys
import warnings

SRC = os.environ.get('VP_SRC', '/repo/src')
if SRC not in sys.path:
    sys.path.insert(0, SRC)
warnings.simplefilter('ignore')

import os_urlpattern  # noqa: E402

if not os.path.abspath(os_urlpattern.__file__).startswith(SRC + '/'):
    raise ImportError('os_urlpattern is not the one in %s' % SRC)

from os_urlpattern.config import get_default_config  # noqa: E402
from os_urlpattern.exceptions import (InvalidCharException,  # noqa: E402
                                      InvalidPatternException,
                                      IrregularURLException)
from os_urlpattern.formatter import pformat  # noqa: E402
from os_urlpattern.parser import fuzzy_digest, parse  # noqa: E402
from os_urlpattern.pattern_maker import Maker, PatternMaker  # noqa: E402
from os_urlpattern.pattern_matcher import (Matcher,  # noqa: E402
                                           PatternMatcher)
from os_urlpattern.utils import dump_tree  # noqa: E402

DOCUMENTED = (InvalidCharException, InvalidPatternException,
              IrregularURLException, ValueError)


def config(mcn):
    c = get_default_config()
    c.set('make', 'min_cluster_num', str(mcn))
    return c


DEFAULT = 3  # what the default configuration says


def pattern_maker(mcn):
    """A maker; the default configuration is used where it says the same."""
    return PatternMaker() if mcn == DEFAULT else PatternMaker(config(mcn))


def low_maker(url_meta, mcn):
    return Maker(url_meta) if mcn == DEFAULT \
        else Maker(url_meta, config(mcn))


class Cluster(object):
    """One observed cluster."""
    __slots__ = ('pattern', 'count', 'members', 'paths', 'meta', 'tree')

    def key(self):
        return (self.pattern, self.count,
                tuple(sorted(map(repr, self.members))))


def observe(url_meta, root):
    """Everything a client can see of a clustered tree."""
    c = Cluster()
    c.meta = url_meta
    c.tree = root
    pats = list(pformat('pattern', url_meta, root))
    c.pattern = pats[0] if len(pats) == 1 else pats
    c.count = root.count
    c.members = []
    c.paths = []
    for nodes in dump_tree(root):
        leaf = nodes[-1]
        metas = list(leaf.meta) if leaf.meta is not None else []
        c.members.extend(metas)
        c.paths.append((tuple(str(n.pattern) for n in nodes[1:]),
                        tuple(n.piece for n in nodes[1:]), metas,
                        leaf.count))
    return c


class MakerLog(object):
    """A PatternMaker with every load recorded at the boundary."""

    def __init__(self, mcn, maker=None):
        self.maker = pattern_maker(mcn) if maker is None else maker
        self.events = []

    def load(self, url, meta):
        try:
            _, is_new = self.maker.load(url, meta=meta)
        except DOCUMENTED as e:
            self.events.append(('reject', url, type(e).__name__))
            return None
        self.events.append(('load', url, meta, is_new))
        return is_new

    def clusters(self):
        out = [observe(m, c) for m, c in self.maker.make()]
        self.events.append(('make', len(out)))
        return out


def cluster_urls(urls, mcn):
    """Load and make; the meta of a URL is the URL itself."""
    log = MakerLog(mcn)
    for u in urls:
        log.load(u, u)
    return log, log.clusters()


def canon(clusters):
    """A clustering as a value."""
    return sorted(c.key() for c in clusters)


def matcher(patterns):
    m = PatternMatcher()
    for p in patterns:
        m.load(p, meta=p)
    return m


def match_metas(m, url):
    return [n.meta for n in m.match(url)]
