"""Parsing properties C13-C16."""
import itertools
import random

from . import gen, ref, sut
from .base import Check
from .checks_make import parse_or_none
from .checks_match import gen_patterns, gen_pool, near_pattern, respell


def words(alphabet, n, lo, hi):
    """Words number lo..hi-1 of all words up to length n, shortest first."""
    k = len(alphabet)
    out = []
    for i in range(lo, hi):
        m, L, size = i, 0, 1
        while m >= size:
            m -= size
            L += 1
            size *= k
        s = ''
        for _ in range(L):
            s = alphabet[m % k] + s
            m //= k
        out.append(s)
    return out


def n_words(k, n):
    return sum(k ** i for i in range(n + 1))


class C13(Check):
    id = 'C13'
    ALPH = 'a1-/?#&=;'
    BATCH = 500
    n_random = 20000
    shrinkable = ('rests',)
    rule = ('every string up to length 6 (thorough: 7) over a1-/?#&=; behind the '
            'host, and random URLs with local edits; structure and components '
            'compared with a reference; distinct by (structure, components) '
            'accepted')
    need = {'accepted': 50000, 'rejected': 10000, 'hosts_compared': 2000}
    assumptions = ['http and https URLs without TAB, CR and LF; the host holds '
                   'no bracket']

    def setup(self, tier, seed):
        self.maxlen = 7 if tier == "thorough" else 6
        self.words = n_words(len(self.ALPH), self.maxlen)
        self.exh = -(-self.words // self.BATCH)
        n = self.n_random * (8 if tier == 'thorough' else 1)
        self.n_quick = self.n_thorough = self.exh + n

    def gen(self, r, idx, tier):
        if idx < self.exh:
            lo = idx * self.BATCH
            return {'rests': words(self.ALPH, self.maxlen, lo,
                                   min(lo + self.BATCH, self.words)),
                    'hosts': r.sample(gen.HOSTS, 2), 'few': True}
        rests = []
        if r.random() < 0.015:
            # one dimension far larger than usual
            rests = [u[len(gen.HOSTS[0]):] for u in gen.scaled(
                r, 3, r.choice(['keys', 'levels', 'runs', 'long']))[1]]
            rests += [gen.rearrange(r, 'http://h' + s)[8:] for s in rests[:3]]
            for s in rests[:2]:
                # one fault in, or behind, all that
                i = r.randrange(len(s) + 1)
                x = r.choice(['&', '&&', '?a&', '#', '?', '=', '`', '\u00e9',
                              '//', '&&b'])
                rests += [s + x, s[:i] + x + s[i:]]
        for _ in range(max(2, 12 - len(rests))):
            k = r.random()
            if k < 0.25:
                s = gen.word(r, 'ab1-_.%/?#&=;!', r.randint(0, 20))
                if r.random() < 0.7:
                    s = '/' + s
            else:
                s = gen.url_of(r, gen.gen_shape(r), messy=0.3,
                               host='http://h')[8:]
                for _ in range(r.choice([0, 1, 1, 3])):
                    i = r.randrange(len(s) + 1)
                    s = s[:i] + r.choice([
                        '/', '//', '?', '#', '&', '=', ';', ' ', '`', '\u00e9',
                        '\x7f', '%', '\\', '\u2028', '&&', '?#', '/./', '..',
                        '\U0001F600', '\x00', '[', '\u0660']) + s[i:]
            rests.append(s)
        return {'rests': rests, 'hosts': r.sample(gen.HOSTS, 2),
                'odd': r.random() < 0.25, 'few': False}

    ODD_HOSTS = ['HTTP://H', 'hTTps://[::1]:80', 'ftp://h', 'ws://h', 'file://',
                 'http://', 'x-y+z.1://h:1', 'http://%41', 'http://h;p',
                 'http://\u4f8b.jp', 'http://u:p%40@h:', 'http://&=+$,!*']

    def look(self, url):
        try:
            meta, pieces = sut.parse(url)
        except sut.DOCUMENTED as e:
            return ('reject', type(e).__name__)
        return ('ok', meta.path_depth, tuple(meta.query_keys),
                bool(meta.has_fragment), tuple(p.piece for p in pieces))

    def run(self, case, obs):
        for s in case['rests']:
            if s[:1] not in ('/', '?', '#', ''):
                s = '/' + s
            url = case['hosts'][0] + s
            if '\t' in s or '\n' in s or '\r' in s:
                continue
            p = parse_or_none(url)
            got = self.look(url)
            if p is None:
                obs.count('rejected')
                if got[0] != 'reject':
                    obs.viol('an unacceptable URL is accepted', url=url,
                             got=got)
            else:
                obs.count('accepted')
                exp = ('ok', len(p.path), tuple(ref.lit_key(k)
                                                for k in p.keys),
                       p.fragment is not None,
                       tuple(ref.lit(c) for c in p.components))
                obs.sig(exp)
                if got != exp:
                    obs.viol('the URL is taken apart wrongly', url=url,
                             got=got, expected=exp)
                elif len(p.path) > 1 and obs.sample is None:
                    obs.sample = {'url': url, 'structure': exp[1:4],
                                  'components': exp[4]}
            if not case['few']:
                obs.count('hosts_compared')
                for h in [case['hosts'][1]] + (
                        self.ODD_HOSTS if s.startswith('/') and ';' not in s
                        and case['odd'] else []):
                    if self.look(h + s) != got:
                        obs.viol('scheme or host matter', a=url, b=h + s)
                i = s.find('?') if '?' in s else len(s)
                j = s.find('#') if '#' in s else len(s)
                i = min(i, j)
                if s.startswith('/') and ';' not in s:
                    w = case['hosts'][0] + s[:i] + ';v=1;x' + s[i:]
                    if self.look(w) != got:
                        obs.viol('path parameters matter', a=url, b=w)


class C14(Check):
    id = 'C14'
    LEG = ''.join(sorted(ref.LEGAL))
    SMALL = 'aZ0-\\[]{'
    BATCH = 500
    n_random = 20000
    shrinkable = ('pieces',)
    rule = ('all one and two character strings over the legal characters, all '
            'strings up to length 6 over aZ0-\\[]{ and random long ones, parsed '
            'as fragment, query value and path level and with one reused parser; '
            'distinct by sequence of character spaces')
    need = {'pieces': 50000, 'illegal_pieces': 1000, 'parser_reuses': 50000,
            'comparisons': 10000}

    def setup(self, tier, seed):
        self.a = n_words(len(self.LEG), 3 if tier == 'thorough' else 2)
        self.b = n_words(len(self.SMALL), 7 if tier == "thorough" else 6)
        self.ca = -(-self.a // self.BATCH)
        self.cb = -(-self.b // self.BATCH)
        self.n_quick = self.n_thorough = self.ca + self.cb + \
            self.n_random * (6 if tier == 'thorough' else 1)

    def gen(self, r, idx, tier):
        if idx < self.ca:
            lo = idx * self.BATCH
            return {'pieces': words(self.LEG, 9, lo,
                                    min(lo + self.BATCH, self.a))}
        idx -= self.ca
        if idx < self.cb:
            lo = idx * self.BATCH
            return {'pieces': words(self.SMALL, 9, lo,
                                    min(lo + self.BATCH, self.b))}
        out = []
        for _ in range(12):
            k = r.random()
            if k < 0.5:
                s = gen.instance(r, gen.gen_template(r, 'frag'), 'frag')
            elif k < 0.75:
                s = ''.join(r.choice(self.LEG) * r.choice([1, 1, 2, 3, 11])
                            for _ in range(r.randint(0, 12)))
            elif k < 0.83:
                s = ''.join(r.choice(self.LEG) * r.choice(
                    [1, 2, 9, 10, 11, 99, 100, 101, 256, 999, 1000, 1024])
                            for _ in range(r.randint(1, 4)))
            else:
                s = gen.word(r, r.choice(['ab', 'A-', '[]{}\\', '%aZ1', '.-_']),
                             r.choice([9, 10, 11, 99, 100, 101, 300]))
            if r.random() < 0.12:
                i = r.randrange(len(s) + 1)
                s = s[:i] + r.choice([' ', '`', '\x00', '\x7f', '\u00e9',
                                      '\u4f60', '\u0660', '\u212a', '\u017f',
                                      chr(r.randrange(128, 0x3000)),
                                      '\U0001F600']) + s[i:]
            out.append(s)
        return {'pieces': out}

    def again(self, held, obs):
        """Results stay what they were, and compare as their texts do."""
        last = None
        for s, pp, exp in held[-60:]:
            if self.look(pp) != exp:
                obs.viol('a result changes when other strings are parsed',
                         piece=s, got=self.look(pp), expected=exp)
                return
            if last is not None:
                obs.count('comparisons')
                same = last[0] == s
                if (pp == last[1]) != same or \
                        same and hash(pp) != hash(last[1]):
                    obs.viol('parsed components do not compare as their texts',
                             pieces=[last[0], s])
                    return
            last = (s, pp)

    def look(self, pp):
        return (tuple(pp.pieces), tuple(pp.rules), pp.piece, pp.piece_length,
                pp.fuzzy_rule)

    def run(self, case, obs):
        from os_urlpattern.parse_utils import PieceParser
        reused = PieceParser()
        held = []
        for s in case['pieces']:
            ok = ref.legal(s)
            forms = [lambda: sut.parse('http://h/#' + s)[1][-1]]
            if not set(s) & set('&#'):
                forms.append(lambda: sut.parse('http://h/?k=' + s)[1][-1])
            if s and not set(s) & set('/?#;'):
                forms.append(lambda: sut.parse('http://h/%s/x' % s)[1][0])
            forms.append(lambda: reused.parse(s))
            if ok:
                rs = ref.runs(s)
                exp = (tuple(ref.lit(t) for t, _ in rs),
                       tuple(x for _, x in rs), ref.lit(s), len(s),
                       ref.space(s))
            for f in forms:
                obs.count('pieces')
                try:
                    pp = f()
                except sut.DOCUMENTED as e:
                    if ok:
                        obs.viol('a legal string is refused', piece=s,
                                 error=repr(e))
                    else:
                        obs.count('illegal_pieces')
                    continue
                if not ok:
                    obs.viol('an illegal character is accepted', piece=s,
                             got=repr(self.look(pp)))
                    continue
                if len(held) % 2:
                    # the values must not depend on which is asked for first
                    pp.fuzzy_rule, pp.piece_length, pp.piece
                got = self.look(pp)
                if got != exp:
                    obs.viol('wrong split into character spaces', piece=s,
                             got=got, expected=exp)
                held.append((s, pp, exp))
            obs.count('parser_reuses')
            if ok and len(rs) > 1:
                obs.sig(exp[1])
                obs.sample = {'string': s, 'split': exp[0], 'spaces': exp[1]}
        self.again(held, obs)


class C15(Check):
    id = 'C15'
    TOK = ['a', 'Z', '0-9', '[', ']', '{', '}', '+', '2', '\\', '\\-', '.',
           'a-z']
    BATCH = 500
    n_random = 20000
    shrinkable = ('texts',)
    rule = ('every sequence of up to 5 (thorough: 6) pattern tokens as a path '
            'level, and random patterns, altered patterns and token soup in '
            'every position; acceptance and structure compared with a '
            'reference grammar; distinct by accepted text')
    need = {'accepted': 10000, 'refused': 20000}
    assumptions = []
    ODD = ['\u0663', '\u00b2', '\uff13', '\u00e9', '\u2028', ' ', '\t', '_',
           '\U0001d7d9']

    def setup(self, tier, seed):
        self.w = n_words(len(self.TOK), 6 if tier == "thorough" else 5)
        self.exh = -(-self.w // self.BATCH)
        self.n_quick = self.n_thorough = self.exh + \
            self.n_random * (8 if tier == 'thorough' else 1)

    def comp(self, r):
        k = r.random()
        if k < 0.5:
            s = ''
            for _ in range(r.randint(0, 4)):
                if r.random() < 0.4:
                    s += gen.word(r, 'abAZ019', r.randint(1, 5))
                else:
                    rules = [r.choice(sorted(ref.RULES - set('#&/=')))
                             if r.random() < 0.4 else r.choice(ref.ALNUM)
                             for _ in range(r.choice([1, 1, 2, 2, 3, 4, 6, 9]))]
                    s += '[%s]' % ''.join(rules) + r.choice(
                        ['', '+', '{%s}' % r.choice(
                            ['0', '1', '2', '3', '4', '5', '7', '10', '007', '',
                             '99', '1000', '4096', '65536', '',
                             r.choice(self.ODD), '1' + r.choice(self.ODD)])])
            return s
        return ''.join(r.choice(self.TOK) for _ in range(r.randint(0, 7)))

    def gen(self, r, idx, tier):
        if idx < self.exh:
            lo = idx * self.BATCH
            ws = words([chr(65 + i) for i in range(len(self.TOK))], 9, lo,
                       min(lo + self.BATCH, self.w))
            return {'texts': ['/' + ''.join(self.TOK[ord(c) - 65]
                                            for c in w) for w in ws]}
        out = []
        for _ in range(12):
            k = r.random()
            if k < 0.5:
                t = '/' + '/'.join(self.comp(r) for _ in range(
                    r.randint(1, 3)))
                if r.random() < 0.4:
                    t += '[\\?]' + '&'.join(
                        r.choice(['k=', 'a', 'x[\\-]y=', ''])
                        + self.comp(r) for _ in range(r.randint(1, 3)))
                if r.random() < 0.3:
                    t += '#' + self.comp(r)
            else:
                t = gen_patterns(r, gen_pool(r, 1) or ['http://h/a'], 1)[0]
                if k < 0.7:
                    t = near_pattern(r, t)
                elif k < 0.8:
                    t = respell(r, t)
                elif k < 0.95:
                    i = r.randrange(1, len(t) + 1)
                    t = t[:i] + r.choice(self.TOK + ['', '&', '=', '#', '-',
                                                     '[\\?]'] + self.ODD) + \
                        t[i + r.choice([0, 1]):]
            out.append(t)
        return {'texts': out}

    def run(self, case, obs):
        from os_urlpattern.parse_utils import pack
        for t in case['texts']:
            exp = None
            try:
                pt = ref.PatternText(t)
                if pt.path and all(ref.well_formed(c)
                                   for c in pt.components):
                    exp = pt
            except ref.Reject:
                pass
            try:
                m = sut.PatternMatcher()
                m.load(t, meta=t)
                meta, pats = sut.parse(t)
                sut.fuzzy_digest(t)
                got = True
            except sut.DOCUMENTED:
                got = False
            if got != (exp is not None):
                obs.viol('%s pattern is %s' % (
                    'a well-formed' if exp else 'an ill-formed',
                    'accepted' if got else 'refused'), pattern=t)
                continue
            if not got:
                obs.count('refused')
                continue
            obs.count('accepted')
            obs.sig(t)
            g = (meta.path_depth, tuple(meta.query_keys),
                 bool(meta.has_fragment))
            comps = tuple(str(p) for p in pats)
            if g != exp.shape or comps != exp.components:
                obs.viol('a pattern is taken apart wrongly', pattern=t,
                         got=(g, comps), expected=(exp.shape,
                                                   exp.components))
            elif '//' not in t and pack(meta, pats) != t:
                obs.viol('a pattern does not print as it was', pattern=t,
                         got=pack(meta, pats))
            else:
                obs.sample = {'pattern': t, 'structure': g,
                              'components': comps}


class C16(Check):
    id = 'C16'
    n_quick = 8000
    n_thorough = 100000
    shrinkable = ('plan', 'urls', 'patterns')
    rule = ('makers and matchers fed with good and bad strings mixed; exceptions '
            'classified, results compared with makers and matchers that saw only '
            'the accepted ones; distinct by (entry point, refused string)')
    need = {'refused': 50000, 'makers_compared': 5000,
            'matchers_compared': 5000}
    assumptions = ['inputs are text strings']

    def gen(self, r, idx, tier):
        mcn = gen.gen_mcn(r)
        urls = gen.gen_urls(r, mcn, big=False)[:30]
        if r.random() < 0.01:
            mcn, urls = gen.scaled(r, mcn, top=0.3)
            urls = urls[:400]
        pats = gen_patterns(r, [u for u in urls
                                if parse_or_none(u)] or ['http://h/a'], 5)
        plan = [['u', u] for u in urls] + [['p', p] for p in pats]
        for _ in range(r.randint(5, 25)):
            k = r.random()
            g = gen.gen_garbage(r)
            if k < 0.2:
                u = r.choice(urls)
                i = r.randrange(len(u) + 1)
                g = u[:i] + r.choice([' ', '\u00e9', '\ud800', '`', '&&',
                                      '\u2028']) + u[i:]
            elif k < 0.4:
                p = r.choice(pats)
                i = r.randrange(1, len(p) + 1)
                g = p[:i] + r.choice(['[', '{0}', '\u00e9', '!', '[]', '[z-a]',
                                      '{', '[0-9a-z]', '\ud800', '}']) + p[i:]
            elif k < 0.5:
                g = r.choice(urls)[r.randrange(12):]
            plan.append([r.choice('up'), g])
        r.shuffle(plan)
        return {'mcn': mcn, 'plan': plan}

    def attempt(self, obs, name, f, s):
        try:
            return True, f()
        except sut.DOCUMENTED as e:
            obs.count('refused')
            obs.sig((name, s))
            obs.sample = {'entry': name, 'input': s, 'error': repr(e)}
            return False, None
        except Exception as e:
            obs.viol('%s fails with an undocumented %s' % (
                name, type(e).__name__), input=s, error=repr(e))
            return False, None

    def run(self, case, obs):
        mk = sut.PatternMaker(sut.config(case['mcn']))
        mt = sut.PatternMatcher()
        good_u, good_p = [], []
        for kind, s in case['plan']:
            if kind == 'u':
                ok, _ = self.attempt(obs, 'PatternMaker.load',
                                     lambda: mk.load(s, meta=s), s)
                if ok:
                    good_u.append(s)
            else:
                ok, _ = self.attempt(obs, 'PatternMatcher.load',
                                     lambda: mt.load(s, meta=s), s)
                if ok:
                    good_p.append(s)
            self.attempt(obs, 'parse', lambda: sut.parse(s), s)
            self.attempt(obs, 'fuzzy_digest', lambda: sut.fuzzy_digest(s), s)
            self.attempt(obs, 'PatternMatcher.match', lambda: mt.match(s), s)
        log = sut.MakerLog(case['mcn'], mk)
        a = log.clusters()
        clean, b = sut.cluster_urls(good_u, case['mcn'])
        obs.count('makers_compared')
        if sut.canon(a) != sut.canon(b):
            obs.viol('a refused URL changed the clusters', got=sut.canon(a)[:6],
                     expected=sut.canon(b)[:6])
        if len(list(mk.makers)) != len(list(clean.maker.makers)):
            obs.viol('a refused URL left a maker behind')
        if any(not list(m.make()) for m in mk.makers):
            obs.viol('a refused URL left an empty maker behind')
        ref_mt = sut.matcher(good_p)
        obs.count('matchers_compared')
        for u in good_u:
            ok, nodes = self.attempt(obs, 'PatternMatcher.match',
                                     lambda: mt.match(u), u)
            if not ok:
                obs.viol('a loadable URL cannot be matched', url=u)
                continue
            if sorted(str(n.meta) for n in nodes) != sorted(
                    sut.match_metas(ref_mt, u)):
                obs.viol('a refused pattern changed the matches', url=u,
                         got=[n.meta for n in nodes])
