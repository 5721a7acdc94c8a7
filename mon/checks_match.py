"""Matching properties C09-C12."""
import random

from . import gen, ref, sut
from .base import Check
from .checks_make import parse_or_none

ALPH = {'a-z': ref.LOWER, 'A-Z': ref.UPPER, '0-9': ref.DIGIT}


def gen_pool(r, n):
    """URLs that are close to each other, all in the reference's domain."""
    out = []
    if r.random() < 0.01:
        # one dimension far larger than usual
        out = gen.scaled(r, 3, r.choice(['keys', 'levels', 'runs', 'long']),
                         0.5)[1][:3]
    while len(out) < n:
        sh = gen.gen_shape(r)
        pool = {'n': r.choice([1, 2, 3]), 'v': {}} if r.random() < 0.5 \
            else None
        for _ in range(r.randint(1, 4)):
            u = gen.url_of(r, sh, pool)
            out.append(u)
            for _ in range(r.randint(0, 3)):
                out.append(gen.mutate(r, u))
    return [u for u in out if parse_or_none(u) is not None][:n]


def gen_patterns(r, urls, n, readings=False):
    out = []
    for _ in range(n):
        out.append(gen.gen_abstraction(r, ref.parse_url(r.choice(urls)))[0])
    return list(dict.fromkeys(out))


def odd_pattern(r, url):
    """A pattern with components cut where no reading of them is cut."""
    p = ref.parse_url(url)
    n = len(p.path)
    odd = r.randrange(len(p.components))
    comps = []
    for i, piece in enumerate(p.components):
        cuts = r.choice(ref.views(piece, i == n - 1))
        dot = ref.cut_last_dot(piece)
        if (i == odd or r.random() < 0.2) and piece:
            if dot is not None and r.random() < 0.5:
                cuts = dot
            else:
                ends = [0]
                for a, b in ref.cut_runs(piece):
                    if r.random() < 0.5 or b == len(piece):
                        ends.append(b)
                cuts = list(zip(ends, ends[1:]))
        comps.append(ref.render(piece, cuts, [r.choice([0, 1, 2, 2])
                                              for _ in cuts]))
    return ref.pattern_text(p, comps)


def crowd(r, urls, pats):
    """Hundreds of patterns, many of them brothers in one component."""
    if r.random() < 0.4:
        # each of another structure
        us = [u for u in gen.scaled(r, 2, 'digests')[1]
              if parse_or_none(u) is not None]
        pats = pats + [gen.gen_abstraction(r, ref.parse_url(u))[0] for u in us]
        urls += r.sample(us, 12)
        return list(dict.fromkeys(pats))
    pats = pats + gen_patterns(r, urls, r.choice([50, 200]))
    for u in r.sample(urls, min(2, len(urls))):
        p = ref.parse_url(u)
        i = r.randrange(len(p.components))
        for _ in range(r.choice([50, 150, 400])):
            cs = list(p.components)
            cs[i] = ''.join(gen.word(r, ALPH.get(ref.RULE_OF.get(c), c), 1)
                            for c in cs[i])
            n, k = len(p.path), len(p.keys or ())
            q = ref.Parsed(tuple(cs[:n]), p.keys, tuple(cs[n:n + k]),
                           cs[-1] if p.fragment is not None else None)
            if r.random() < 0.1:
                urls.append(gen.HOSTS[0] + q.text)
            pats.append(gen.gen_abstraction(r, q)[0])
    r.shuffle(pats)
    return list(dict.fromkeys(pats))


def near_pattern(r, p):
    """Another spelling close to a pattern, still canonical most times."""
    k = r.random()
    if k < 0.4:
        i = p.rfind('+')
        if i > 0:
            return p[:i] + r.choice(['', '{2}', '{3}', '{11}']) + p[i + 1:]
    elif k < 0.7:
        i = p.find('}')
        if i > 0 and p[i - 1].isdigit():
            return p[:i - 1] + r.choice('123456789') + p[i:]
    i = r.randrange(1, len(p)) if len(p) > 1 else 0
    if p[i:i + 1].isalnum():
        return p[:i] + r.choice('abz019Z') + p[i + 1:]
    return p


def canonical(p):
    """Does the reference matcher cover this pattern text?

    Sorted, duplicate free classes, no {1}, nothing a URL could not read as.
    """
    if '//' in p:
        return False
    if not all(ref.well_formed(c) for c in ref.PatternText(p).components):
        return False
    i = 0
    while True:
        i = p.find('[', i)
        if i < 0:
            return '{1}' not in p and '{0' not in p
        j = i + 1
        rules = []
        while j < len(p) and p[j] != ']':
            w = 2 if p[j] == '\\' else 3 if p[j].isalnum() else 1
            rules.append(p[j:j + w])
            j += w
        if rules != sorted(set(rules)):
            return False
        i = j


class MatchCheck(Check):
    shrinkable = ('urls', 'patterns')


class C09(MatchCheck):
    id = 'C09'
    n_quick = 12000
    n_thorough = 150000
    rule = ('matchers loaded with abstractions of URLs at every view and level '
            'of generality (and slightly altered ones), matched with the URLs '
            'and near misses; every reported match is checked with a reference '
            'for strict reading; distinct by (pattern, URL) reported')
    need = {'matches_reported': 20000, 'non_matches': 100000}

    def gen(self, r, idx, tier):
        urls = gen_pool(r, r.randint(3, 12))
        pats = gen_patterns(r, urls, r.randint(3, 14))
        if r.random() < 0.002:
            pats = crowd(r, urls, pats)
        for _ in range(r.choice([0, 0, 2, 5])):
            q = near_pattern(r, r.choice(pats))
            if canonical(q):
                pats.append(q)
        for _ in range(r.choice([0, 0, 3, 6])):
            q = odd_pattern(r, r.choice(urls))
            if canonical(q):
                pats.append(q)
        probes = list(urls)
        for _ in range(r.randint(5, 25)):
            u = gen.mutate(r, r.choice(urls))
            if r.random() < 0.3:
                u = gen.mutate(r, u)
            probes.append(u)
        return {'urls': probes, 'patterns': list(dict.fromkeys(pats))}

    def run(self, case, obs):
        loaded = []
        m = sut.PatternMatcher()
        for p in case['patterns']:
            try:
                m.load(p, meta=p)
            except sut.DOCUMENTED:
                continue
            loaded.append((p, ref.PatternText(p)))
        for u in case['urls']:
            p = parse_or_none(u)
            if p is None:
                continue
            got = sut.match_metas(m, u)
            obs.count('matches_reported', len(got))
            obs.count('non_matches', len(loaded) - len(got))
            for g in got:
                obs.sig((g, p.text))
                if not ref.url_matches(g, p):
                    obs.viol('a pattern matches a URL that does not read as '
                             'it', url=u, pattern=g)
            if got and obs.sample is None:
                obs.sample = {'url': u, 'matched': got,
                              'loaded': case['patterns'][:6]}


class C10(MatchCheck):
    id = 'C10'
    n_quick = 12000
    n_thorough = 150000
    rule = ('URLs abstracted at random (literal, fixed length or any length per '
            'unit of every view), all abstractions loaded together with others, '
            'every URL matched; a case is a (URL, abstraction) pair, distinct by '
            'pattern')
    need = {'expected_matches': 50000, 'single_pattern_matchers': 10000}

    def gen(self, r, idx, tier):
        urls = gen_pool(r, r.randint(2, 8))
        pats = gen_patterns(r, urls, r.randint(6, 30))
        if r.random() < 0.002:
            pats = crowd(r, urls, pats)
        other = {}
        for p in pats:
            q = respell(r, p, False)
            if q != p and q not in pats:
                other[q] = p
        return {'urls': urls, 'patterns': pats, 'alone': r.random() < 0.4,
                'respelled': other}

    def run(self, case, obs):
        m = sut.PatternMatcher()
        texts = []
        for p in case['patterns']:
            try:
                m.load(p, meta=p)
                texts.append((p, ref.PatternText(p)))
            except sut.DOCUMENTED as e:
                obs.viol('a pattern of a URL is refused', pattern=p,
                         error=repr(e))
        for q in case['respelled']:
            m.load(q, meta=q)
        for u in case['urls']:
            p = parse_or_none(u)
            if p is None:
                continue
            got = set(sut.match_metas(m, u))
            for q, t in case['respelled'].items():
                obs.count('respelled_patterns')
                if (q in got) != ref.url_matches(t, p):
                    obs.viol('the order of the character spaces in a class '
                             'matters', url=u, pattern=q, canonical=t,
                             matched=q in got)
            for t, pt in texts:
                if not ref.url_matches(pt, p):
                    continue
                obs.count('expected_matches')
                obs.sig(t)
                if t not in got:
                    obs.viol('a pattern does not match a URL that reads as '
                             'it', url=u, pattern=t, got=sorted(got))
                if case['alone']:
                    obs.count('single_pattern_matchers')
                    if sut.match_metas(sut.matcher([t]), u) != [t]:
                        obs.viol('a pattern loaded alone does not match a URL '
                                 'that reads as it', url=u, pattern=t)
                obs.sample = {'url': u, 'pattern': t}


def respell(r, p, odd=True):
    """The same pattern in a spelling the generator never writes.

    Without `odd` only the order of the character spaces of a class changes.
    """
    out, i = '', 0
    while i < len(p):
        if p[i] != '[' or p[i:i + 4] == '[\\?]':
            out += p[i]
            i += 1
            continue
        j, rules = i + 1, []
        while p[j] != ']':
            w = 2 if p[j] == '\\' else 3 if p[j].isalnum() else 1
            rules.append(p[j:j + w])
            j += w
        if r.random() < 0.6:
            r.shuffle(rules)
        if odd and r.random() < 0.1:
            rules.append(r.choice(rules))
        out += '[' + ''.join(rules) + ']'
        if odd and len(set(rules)) == 1 and p[j + 1:j + 2] not in ('+', '{') \
                and r.random() < 0.3:
            out += '{1}'
        i = j + 1
    return out


class C11(MatchCheck):
    id = 'C11'
    n_quick = 8000
    n_thorough = 100000
    rule = ('a list of patterns (also spelled unusually, also repeated with '
            'other metas) loaded in several orders, interleaved with matches, '
            'and each one alone; what the matchers report is compared; distinct '
            'by (URL, reported patterns), non-trivial with two or more')
    need = {'urls_compared': 40000, 'multi_pattern_matches': 8000,
            'reloads': 5000}

    METAS = [0, '', False, 1.5, 'm', (1, 2), 'n', 7]

    def gen(self, r, idx, tier):
        urls = gen_pool(r, r.randint(2, 7))
        pats = gen_patterns(r, urls, r.randint(3, 16))
        if r.random() < 0.002:
            pats = crowd(r, urls, pats)
        for _ in range(r.choice([0, 3, 6])):
            pats.append(respell(r, r.choice(pats)))
        pats = list(dict.fromkeys(pats))
        for _ in range(r.randint(0, 4)):
            urls.append(gen.mutate(r, r.choice(urls)))
        plan = list(pats)
        for _ in range(r.choice([0, 1, 4])):
            plan.append(r.choice(pats))
        r.shuffle(plan)
        return {'urls': urls, 'patterns': pats, 'plan': plan,
                'shuffle': r.randrange(10 ** 6)}

    def run(self, case, obs):
        r = random.Random(case['shuffle'])
        pats = case['patterns']
        urls = [u for u in dict.fromkeys(case['urls'])
                if parse_or_none(u) is not None]
        single = {}
        ok = []
        for p in pats:
            try:
                m = sut.matcher([p])
            except sut.DOCUMENTED:
                continue        # a respelling may be refused
            ok.append(p)
            for u in urls:
                got = sut.match_metas(m, u)
                if got not in ([], [p]):
                    obs.viol('one pattern is reported several times',
                             pattern=p, url=u, got=got)
                if got:
                    single.setdefault(u, []).append(p)
        want = {u: sorted(single.get(u, [])) for u in urls}

        def compare(name, m, only=None):
            for u in urls:
                got = sorted(sut.match_metas(m, u))
                exp = want[u] if only is None else \
                    [p for p in want[u] if p in only]
                obs.count('urls_compared')
                if len(exp) > 1:
                    obs.count('multi_pattern_matches')
                    obs.sig((u, exp))
                if got != exp:
                    obs.viol('%s changes what is matched' % name, url=u,
                             alone=exp, together=got, patterns=pats)
        compare('loading patterns together', sut.matcher(ok))
        order = list(ok)
        r.shuffle(order)
        m = sut.PatternMatcher()
        seen = set()
        for p in order:
            m.load(p, meta=p)
            seen.add(p)
            if r.random() < 0.3:
                compare('matching between loads', m, seen)
        compare('the load order', m)
        compare('an earlier match', m)
        # repeated loads: one result per pattern, with the latest meta
        m, other = sut.PatternMatcher(), sut.PatternMatcher()
        meta = {}
        for i, p in enumerate(case['plan']):
            if p not in ok:
                continue
            v = r.choice(self.METAS)
            tag = (i, v) if r.random() < 0.7 else v
            _, is_new = m.load(p, meta=tag)
            if is_new != (p not in meta):
                obs.viol('is_new of a pattern reported wrongly', pattern=p,
                         is_new=is_new)
            if p in meta:
                obs.count('reloads')
            meta[p] = tag
            other.load(p, meta='other')
        for u in urls:
            got = sorted(map(repr, sut.match_metas(m, u)))
            exp = sorted(repr(meta[p]) for p in want[u] if p in meta)
            if got != exp:
                obs.viol('the metas of the matched patterns are wrong', url=u,
                         expected=exp, got=got)
        obs.sample = {'patterns': ok[:5], 'urls': urls[:3]}


def normal(piece, reading):
    """The same reading with literals cut into runs."""
    cuts, choice = [], []
    for (a, b), k in zip(*reading):
        sub = piece[a:b]
        rules = set(ref.RULE_OF[c] for c in sub)
        if k == 1 and len(rules) == 1 and not rules & set(ref.ALNUM):
            k = 0
        if k == 0:
            for x, y in ref.cut_runs(sub):
                cuts.append((a + x, a + y))
                choice.append(0)
        else:
            cuts.append((a, b))
            choice.append(k)
    return cuts, choice


class C12(MatchCheck):
    id = 'C12'
    n_quick = 10000
    n_thorough = 120000
    shrinkable = ()
    rule = ('many abstractions of one URL with a known inclusion order, loaded '
            'in different orders, matched and sorted; every pair in the '
            'inclusion order is an observation; distinct by (specific, general) '
            'pattern pair')
    need = {'ordered_pairs': 50000, 'sorts': 20000}

    def gen(self, r, idx, tier):
        while True:
            u = gen.url_of(r, gen.gen_shape(r))
            p = parse_or_none(u)
            if p is not None and len(p.components) <= 10:
                break
        items = {}
        for _ in range(r.randint(4, 24)):
            t, rd = gen.gen_abstraction(r, p)
            items.setdefault(t, rd)
        # one step more general in one component
        for t in list(items)[:8]:
            rd = [([tuple(x) for x in c], list(k)) for c, k in items[t]]
            i = r.randrange(len(rd))
            piece = p.components[i]
            if not piece:
                continue
            vs = ref.views(piece, i + 1 == len(p.path))
            if r.random() < 0.5:
                cuts, ks = rd[i]
                j = r.randrange(len(cuts))
                ks[j] = min(2, ks[j] + 1)
            else:
                rd[i] = (ref.cut_whole(piece), [r.choice([1, 2])])
            comps = [ref.render(x, c, k) for x, (c, k) in
                     zip(p.components, rd)]
            items.setdefault(ref.pattern_text(p, comps), rd)
            del vs
        return {'url': u, 'items': sorted(items.items()),
                'noise': gen_patterns(r, gen_pool(r, 2), 3),
                'shuffle': r.randrange(10 ** 6)}

    def run(self, case, obs):
        r = random.Random(case['shuffle'])
        u = case['url']
        p = ref.parse_url(u)
        items = [(t, [normal(x, (list(map(tuple, c)), k)) for x, (c, k) in
                      zip(p.components, rd)]) for t, rd in case['items']]
        order = [t for t, _ in items] + case['noise']
        first = None
        for k in range(3):
            r.shuffle(order)
            nodes = sut.matcher(order).match(u)
            if k == 1:
                r.shuffle(nodes)
            ranked = [n.meta for n in sorted(nodes, reverse=True)]
            obs.count('sorts')
            if first is None:
                first = ranked
            elif ranked != first:
                obs.viol('the order of the matches depends on the load order',
                         url=u, a=first, b=ranked)
                return
            if nodes and max(nodes).meta != ranked[0]:
                obs.viol('the greatest match is not the first', url=u)
            if [n.meta for n in sorted(nodes)] != ranked[::-1]:
                obs.viol('sorting up and down disagree', url=u)
        pos = {t: i for i, t in enumerate(first)}
        for ta, ra in items:
            if ta not in pos:
                continue        # C10's concern
            for tb, rb in items:
                if tb == ta or tb not in pos:
                    continue
                if all(a == b or ref.refines(x, a, b) for x, a, b in
                       zip(p.components, ra, rb)):
                    obs.count('ordered_pairs')
                    obs.sig((ta, tb))
                    if pos[ta] > pos[tb]:
                        obs.viol('a more general pattern ranks before a more '
                                 'specific one', url=u, specific=ta,
                                 general=tb)
        obs.sample = {'url': u, 'ranked': first[:6]}
