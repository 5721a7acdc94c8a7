"""The clustering decision against its reference model: C26."""
from . import gen, ref, refcluster, sut
from .base import Check
from .checks_make import parse_or_none

SEP = '-_.%~+='


def values(r, ctx, n, m):
    """About n different component texts whose cuts and lengths collide."""
    signs = [c for c in SEP if c not in gen.FORBID[ctx]]
    alph = {k: gen.word(r, v, r.choice([2, 4])) if r.random() < 0.6 else v
            for k, v in gen._ALPH.items()}
    shapes = []
    for _ in range(r.choice([1, 1, 1, 2, 2, 3, 5])):
        if shapes and r.random() < 0.5:
            # a relative of an earlier shape: same character spaces
            s = list(r.choice(shapes))
            i = r.randrange(len(s))
            k = r.random()
            if k < 0.4:
                s[i] = (s[i][0], r.choice(['fix', 'len', 'any']), s[i][2])
            elif k < 0.6:
                # a run or a pair of runs repeated inside
                s = s[:i + 1] + s[max(0, i - 1):]
            elif k < 0.8:
                s = s + [s[i]] if s[-1][0] != s[i][0] else s + s[:1]
            else:
                s = s[i:] + s[:i]
            shapes.append(s)
            continue
        s = []
        for _ in range(r.choice([1, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8])):
            kind = r.choice(['l', 'l', 'd', 'd', 'u', 's', 's'])
            text = r.choice(signs) * r.choice([1, 1, 1, 2]) if kind == 's' \
                else gen.word(r, alph[kind], r.choice([1, 1, 2, 3, 5]))
            s.append((kind, r.choice(['fix', 'len', 'any', 'any']), text))
        if r.random() < (0.4 if ctx == 'last' else 0.2):
            s.append(('s', 'fix', '.'))
            for kind in r.choice(['l', 'l', 'l', 'ld', 'd', 'u', 'ldl', '']):
                s.append((kind, r.choice(['fix', 'fix', 'len']),
                          gen.word(r, alph[kind], r.choice([1, 3]))))
        shapes.append(s)
    longest = r.choice([1, 2, 3, 6])
    out = []
    for _ in range(n * 3):
        t = ''
        for kind, mode, text in r.choice(shapes):
            if kind == 's':
                t += text[0] * r.randint(1, 3) if mode == 'any' and \
                    r.random() < 0.5 else text
            elif mode == 'fix':
                t += text
            elif mode == 'len':
                t += gen.word(r, alph[kind], len(text))
            else:
                t += gen.word(r, alph[kind], r.randint(1, longest))
        if t and t not in out:
            out.append(t)
        if len(out) >= n:
            break
    return out


def pick_weighted(r, vs, skew):
    """Uniform, or with one value far more frequent than the others."""
    if skew and r.random() < skew:
        return vs[0]
    return r.choice(vs)


def family(r, m, big=False):
    depth = r.choice([1, 1, 2, 2, 2, 3])
    ctxs = ['path'] * (depth - 1) + ['last']
    q = r.choice([0, 0, 0, 1, 2])
    ctxs += ['value'] * q
    frag = r.random() < 0.15
    if frag:
        ctxs.append('frag')
    cols = []
    for ctx in ctxs:
        n = r.choice([1, 1, 2, 2, 3, m - 1, m, m + 1, 2 * m, 3 * m])
        if big and r.random() < 0.5:
            n = r.choice([40, 150, 400])
        vs = values(r, ctx, max(1, n), m)
        cols.append((vs, r.choice([0, 0, 0, 0.5, 0.8, 0.9])))
    keys = r.sample(['a', 'b', 'id', 'k-1'], q)
    size = r.choice([m, m + 1, 2 * m - 1, 2 * m, 2 * m + 1, 3 * m, 4 * m, 30])
    if big:
        size = r.choice([100, 300, 700, 1500])
    urls = []
    for _ in range(size):
        cs = [pick_weighted(r, vs, skew) for vs, skew in cols]
        u = gen.HOSTS[0] + '/' + '/'.join(cs[:depth])
        if q:
            u += '?' + '&'.join('%s=%s' % x for x in
                                zip(keys, cs[depth:depth + q]))
        if frag:
            u += '#' + cs[-1]
        urls.append(u)
    return urls


def balanced(r):
    """A large min_cluster_num and few values with counts around it."""
    m = r.choice([12, 20, 33, 50, 70, 100, 130, 180, 260])
    k = r.choice([1, 2, 2, 2, 3, 4])
    first = r.choice([1, m // 2, m - 1, m, m + 1, m + m // 2])
    counts = [first]
    for _ in range(k - 1):
        counts.append(max(1, r.choice([
            1, 2, m // 2, m - 1, m, first, first - m + 1, first - m + 2,
            first - m, first + m - 1, first + m - 2, m - first,
            first - r.randint(0, m)])))
    a = r.choice([ref.LOWER, ref.LOWER, ref.DIGIT])
    n = r.choice([3, 4])
    same = r.random() < 0.5      # one length at the varying level, or several
    urls = []
    for i, c in enumerate(counts):
        v = 'v' * (i + 1) if r.random() < 0.5 else 'abcd'[i] * 3
        for w in set(gen.word(r, a, n if same else r.randint(2, 6))
                     for _ in range(c)):
            urls.append((v, w))
    if r.random() < 0.4:
        # many more values, seen once or twice each
        for w in set(gen.word(r, ref.LOWER, r.choice([3, 3, 4]))
                     for _ in range(r.choice([m // 2, m - 1, m, m + 5]))):
            urls += [(w, x[1]) for x in r.sample(urls, min(
                len(urls), r.choice([1, 1, 2])))]
    shape = r.choice(['http://h/%s/%s', 'http://h/%s/x/%s', 'http://h/%s?k=%s',
                      'http://h/%s-1/%s.html', 'http://h/p?a=%s&b=%s'])
    if r.random() < 0.3:
        urls = [(w, v) for v, w in urls]
    return {'mcn': m, 'urls': [shape % x for x in urls]}


class C26(Check):
    id = 'C26'
    n_quick = 16000
    n_thorough = 250000
    rule = ('families with chosen numbers of distinct values per component, '
            'skewed and even counts, colliding cuts and lengths around '
            'min_cluster_num, and the general URL families; the clusters '
            '(pattern, number of paths, members) are compared with the '
            'reference model; distinct by the set of patterns, non-trivial '
            'when some cluster generalises and some decision went against it')
    need = {'clusters': 20000, 'generalised_clusters': 5000,
            'fixed_length': 1500, 'any_length': 1500, 'several_classes': 800,
            'kept_literal_beside': 1500}
    assumptions = ['min_cluster_num is at least 2']

    def gen(self, r, idx, tier):
        m = r.choice([2, 2, 3, 3, 3, 4, 5, 6, 10])
        if idx == 0:
            return gen.singles(r)
        if r.random() < 0.012:
            if r.random() < 0.5:
                return balanced(r)
            m, urls = gen.scaled(r, m)
            return {'mcn': m, 'urls': urls}
        urls = family(r, m, r.random() < 0.003) if r.random() < 0.75 else gen.gen_urls(r, m)
        if r.random() < 0.2:
            urls += family(r, m)
        r.shuffle(urls)
        return {'mcn': m, 'urls': urls}

    def run(self, case, obs):
        parsed, urls = [], []
        for u in case['urls']:
            p = parse_or_none(u)
            if p is not None:
                parsed.append(p)
                urls.append(u)
        if not urls:
            return
        _, clusters = sut.cluster_urls(urls, case['mcn'])
        ident = dict((u, repr(p.identity)) for u, p in zip(urls, parsed))
        got = sorted((str(c.pattern), c.count,
                      sorted(set(ident.get(u, '?') for u in c.members)))
                     for c in clusters)
        want = refcluster.clusters(parsed, case['mcn'])
        obs.count('clusters', len(got))
        gen_ = [g for g in got if g[1] > 1]
        obs.count('generalised_clusters', len(gen_))
        for p, _, _ in gen_:
            if ']{' in p:
                obs.count('fixed_length')
            if ']+' in p:
                obs.count('any_length')
            if any(x in p for x in ('9a-z', '9A-Z', 'Za-z')):
                obs.count('several_classes')
        if gen_ and len(gen_) < len(got):
            obs.count('kept_literal_beside')
        if gen_:
            obs.sig(tuple(g[:2] for g in got))
        if got != want:
            w = [x for x in want if x not in got]
            g = [x for x in got if x not in want]
            obs.viol('the clusters are not those of the decision rule',
                     min_cluster_num=case['mcn'],
                     missing=[x[:2] for x in w][:6],
                     unexpected=[x[:2] for x in g][:6],
                     urls=sorted(set(urls))[:12])
        elif len(urls) < 10 and gen_ and len(gen_) < len(got):
            obs.sample = {'urls': urls, 'min_cluster_num': case['mcn'],
                          'clusters': [g[:2] for g in got]}
