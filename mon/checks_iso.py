"""C23: makers and matchers in one process do not influence each other."""
from . import gen, pristine, ref, sut
from .base import Check
from .checks_match import gen_patterns, gen_pool, near_pattern


def canon_tree(root):
    return sorted((tuple(str(n.value) for n in nodes[1:]), nodes[-1].count)
                  for nodes in sut.dump_tree(root))


class Player(object):
    """Carries out calls on named objects and records what they return."""

    def __init__(self, specs):
        self.o = {}
        self.c = {}
        self.held = {}
        self.out = []
        for name, kind, mcn in specs:
            if kind == 'maker':
                if mcn is None:
                    self.o[name] = sut.PatternMaker()
                else:
                    self.c[name] = sut.config(mcn)
                    self.o[name] = sut.PatternMaker(self.c[name])
            elif kind == 'matcher':
                self.o[name] = sut.PatternMatcher()

    def play(self, ops):
        for op in ops:
            try:
                r = getattr(self, op[1])(*([op[0]] + op[2:]))
            except sut.DOCUMENTED as e:
                r = type(e).__name__
            self.out.append((op[0], r))
        return self.out

    def load(self, name, url, meta):
        return self.o[name].load(url, meta=meta)[1]

    def make(self, name):
        return sut.canon([sut.observe(m, c) for m, c in self.o[name].make()])

    def combine(self, name):
        return sorted((tuple(m), t.count, canon_tree(t))
                      for m, t in self.o[name].make(combine=True))

    def peek(self, name):
        """An iteration that is never finished."""
        it = self.held[name] = self.o[name].make()
        return next(it, None) is None

    def conf(self, name, mcn):
        if name in self.c:
            self.c[name].set('make', 'min_cluster_num', str(mcn))

    def formats(self, name):
        out = []
        for m, c in self.o[name].make():
            for f in ('cluster', 'inline', 'json'):
                out.append(tuple(sorted(sut.pformat(f, m, c))))
        return sorted(out)

    def pload(self, name, pattern, meta):
        return self.o[name].load(pattern, meta=meta)[1]

    def match(self, name, url):
        return sorted(repr(n.meta) for n in self.o[name].match(url))

    def parse(self, name, text):
        m, ps = sut.parse(text)
        return (tuple(m), [str(getattr(p, 'piece', p)) for p in ps],
                [p.fuzzy_rule for p in ps], sut.fuzzy_digest(text))


def alone(spec, ops):
    return Player([spec]).play(ops)


class C23(Check):
    id = 'C23'
    n_quick = 1200
    n_thorough = 30000
    chunk = 10
    shrinkable = ('ops',)
    rule = ('random calls on two to six makers and matchers with different '
            'configurations over the same URLs and patterns, mixed in one '
            'process that has run many cases; what each returns compared with a '
            'fresh process in which only its own calls are made; distinct by '
            'sequence of calls')
    need = {'calls': 20000, 'objects': 3000, 'fresh_processes': 3000,
            'makes': 3000, 'matches': 4000, 'parses': 1000}

    def gen(self, r, idx, tier):
        fam = gen.gen_urls(r, 3, messy=0.1, hosts=r.random() < 0.3,
                           big=False)[:30]
        pool = gen_pool(r, 5) or ['http://h/a']
        pats = gen_patterns(r, pool, 6)
        pats += [near_pattern(r, p) for p in pats[:2]]
        # the same component text in other positions
        for p in pats[:2]:
            pats.append(p.split('[\\?]')[0].split('#')[0].rstrip('/') + '/x')
        fam += pool[:2]
        objs, ops = [], []
        for i in range(r.randint(2, 6)):
            kind = r.choice(['maker', 'maker', 'matcher', 'parse'])
            name = '%s%d' % (kind, i)
            mcn = r.choice([None, 2, 3, 4, 6]) if kind == 'maker' else 0
            objs.append([name, kind, mcn])
            mine = []
            for _ in range(r.choice([4, 8, 16])):
                if kind == 'maker':
                    k = r.random()
                    if k < 0.7:
                        u = r.choice(fam)
                        mine.append([name, 'load', u, r.choice([u, name])])
                    elif k < 0.8:
                        mine.append([name, 'make'])
                    elif k < 0.85:
                        mine.append([name, 'combine'])
                    elif k < 0.9:
                        mine.append([name, 'peek'])
                    elif k < 0.95:
                        mine.append([name, 'load', gen.gen_garbage(r), name])
                    else:
                        mine.append([name, 'conf', r.choice([2, 3, 5])])
                elif kind == 'matcher':
                    if r.random() < 0.45:
                        p = r.choice(pats)
                        mine.append([name, 'pload', p, r.choice([p, name])])
                    else:
                        u = r.choice(pool)
                        mine.append([name, 'match', u if r.random() < 0.7
                                     else gen.mutate(r, u)])
                else:
                    mine.append([name, 'parse', r.choice(
                        [r.choice(pats), r.choice(fam), r.choice(pool),
                         gen.mutate(r, r.choice(fam))])])
            if kind == 'maker':
                # the rest of the family, so that something is generalised
                if r.random() < 0.7:
                    mine += [[name, 'load', u, u] for u in fam]
                mine.append([name, r.choice(['make', 'make', 'formats'])])
            elif kind == 'matcher':
                mine += [[name, 'match', u] for u in pool[:3]]
            ops.append(mine)
        mixed = []
        while ops:
            m = r.choice(ops)
            for _ in range(r.choice([1, 1, 3, 10])):
                if m:
                    mixed.append(m.pop(0))
            if not m:
                ops.remove(m)
        return {'objs': objs, 'ops': mixed}

    def run(self, case, obs):
        pristine.start()
        got = Player(case['objs']).play(case['ops'])
        obs.count('calls', len(case['ops']))
        obs.count('objects', len(case['objs']))
        obs.sig([o[:2] for o in case['ops']])
        for op in case['ops']:
            obs.count({'make': 'makes', 'combine': 'makes', 'formats': 'makes',
                       'match': 'matches', 'parse': 'parses'}.get(
                           op[1], 'loads'))
        for spec in case['objs']:
            ops = [o for o in case['ops'] if o[0] == spec[0]]
            mine = [x for x in got if x[0] == spec[0]]
            try:
                want = pristine.call(alone, spec, ops)
            except pristine.Failed as e:
                if sut.SRC + '/' not in str(e):
                    raise
                obs.viol('a call fails when only one object is used in the '
                         'process', object=spec, error=str(e)[-1500:])
                return
            obs.count('fresh_processes')
            for op, w, g in zip(ops, want, mine):
                if w != g:
                    obs.viol('a call returns something else when other objects '
                             'are used in the process', call=op,
                             alone=repr(w[1])[:500], together=repr(g[1])[:500])
                    return
        obs.sample = {'objects': case['objs'],
                      'calls': [o[:2] for o in case['ops'][:8]]}
