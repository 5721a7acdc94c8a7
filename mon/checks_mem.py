"""C25: memory that calls leave behind."""
import gc
import string
import tracemalloc

from . import sut
from .base import Check
from .checks_match import gen_patterns, gen_pool

LEFT = 40        # bytes a call may leave on average (measured: below 10)
SLACK = 20000    # bytes of tables, free lists and bounded caches


def tag(k):
    """A word of lower-case letters that belongs to k."""
    s = ''
    while True:
        s += string.ascii_lowercase[k % 26]
        k //= 26
        if not k:
            return 'q' + s


def fresh(r, url, k):
    """A URL like this one with text that was never seen before; sometimes a
    structure that was never seen before."""
    t = tag(k)
    head, sep, tail = url.partition('://')
    if not sep:
        return url + t
    host, slash, rest = tail.partition('/')
    x = r.random()
    if x < 0.2:
        path, h, frag = rest.partition('#')
        q = '&' if '?' in path else '?'
        if path.endswith(('?', '&')):
            q = ''
        return head + sep + host + '/' + path + q + t + '=1' + h + frag
    if x < 0.3:
        return head + sep + t + host + '/' + t + '/' + rest
    if x < 0.5:
        return head + sep + host + '/' + rest + t
    i = r.randrange(len(rest) + 1)
    return head + sep + host + '/' + rest[:i] + t + rest[i:]


def reroll(r, url):
    """Other letters and digits in the same places behind the host."""
    i = url.find('/', 8)
    if i < 0:
        return url
    out = []
    for c in url[i:].partition('?')[0]:
        if c in string.ascii_lowercase:
            c = r.choice(string.ascii_lowercase)
        elif c in string.ascii_uppercase:
            c = r.choice(string.ascii_uppercase)
        elif c in string.digits:
            c = r.choice(string.digits)
        out.append(c)
    return url[:i] + ''.join(out) + url[i + len(out):]


def bad_pattern(r, u, k):
    """A text that a matcher refuses to load."""
    t = tag(k)
    if r.random() < 0.3:
        return r.choice(['http://h/a?%s=1', 'http://h/%s', 'http://%s/a/b#c',
                         'http://h/-%s-1.html?a=1&%s=2']).replace('%s', t)
    return r.choice([
        '/[a-z' + u, u, '/%s/[0-9a-z]' % t, '/%s\xe9' % t, '/[%s]' % t,
        '/%s/[a-z]{0}' % t, '/%s[\\?]k=[a-z]{x}' % t, '/%s#[a-z]{' % t,
        '/%s[\\?]a&&%s' % (t, t), '/%s/-' % t, '/%s[\\?]%s=[]+' % (t, t)])


class C25(Check):
    id = 'C25'
    n_quick = 320
    n_thorough = 8000
    chunk = 2
    case_timeout = 300
    shrinkable = ()
    rule = ('thousands of calls of one kind (parse, digest, match, refused '
            'input, repeated loads, repeated clustering, makers and matchers '
            'made and dropped) on ever new or repeated strings; traced memory '
            'after a collection compared between the middle and the end; '
            'distinct by kind and input')
    need = {'measurements': 300, 'calls': 120000, 'fresh_strings': 80000,
            'dropped_objects': 2000, 'repeated_makes': 300,
            'matches': 5000}
    assumptions = ['caches, if any, hold no more than some thousand entries']
    KINDS = ['parse', 'parse-bad', 'match', 'match-bad', 'reload-url',
             'reload-pattern', 'remake', 'drop-maker', 'drop-matcher',
             'load-bad', 'drop-part', 'parse-pattern', 'match']

    def gen(self, r, idx, tier):
        urls = [u for u in gen_pool(r, r.randint(2, 6))
                if len(u) < 120 and u.count('/') < 12] or ['http://h/a']
        return {'urls': urls, 'kind': self.KINDS[idx % len(self.KINDS)],
                'pats': gen_patterns(r, urls, r.randint(1, 8)),
                'seed': r.randrange(10 ** 9),
                'n': r.choice([400, 1200, 2000])}

    def run(self, case, obs):
        import random
        r = random.Random(case['seed'])
        kind, n, urls = case['kind'], case['n'], case['urls']
        new = kind.startswith(('parse', 'match', 'drop', 'load'))
        if kind in ('remake', 'drop-maker', 'drop-matcher', 'drop-part'):
            n = max(30, n // 25)
            if kind == 'remake':
                n = 12
        elif kind == 'reload-pattern':
            n //= 5
        bad = kind.endswith('bad')

        def text(k):
            u = r.choice(urls)
            if kind == 'parse-pattern':
                t = tag(k)
                return r.choice(case['pats']) + r.choice(
                    [t, t + '/x', '[\\-]' + t, '[' + '\\-' + 'a-z]{%d}' % k,
                     '/' + t + '[0-9]+' + t, '/[a-z]{%d}' % k, '[a-z', '=',
                     '#' + t, '[\\?]' + t + '='])
            if kind == 'match' and r.random() < 0.5:
                return reroll(r, u)
            if new:
                u = fresh(r, u, k)
            if bad:
                i = r.randrange(len(u) + 1)
                if kind == 'match-bad' and r.random() < 0.2:
                    return r.choice(case['pats']) + tag(k)
                u = r.choice([u[:i] + r.choice('\xe9 \u4f60\x00`') + u[i:],
                              u.partition('?')[0] + '?a&&' + tag(k),
                              tag(k), 'http://[' + tag(k), u + '?a&'])
            return u
        per = 8 if kind.startswith('drop') else 1
        self.k = 0

        def batch(m):
            out = []
            for _ in range(m):
                out.append([text(self.k + j) for j in range(per)])
                self.k += per
            if kind == 'load-bad':
                first = self.k - m
                out = [[y for u in x for y in (
                    ('maker', u), ('maker', '/%s/[a-z]+' % tag(first + j)),
                    ('matcher', bad_pattern(r, u, first + j)))
                    if self.refused(*y)] for j, x in enumerate(out)]
            return out
        first, second = batch(n), batch(n)
        for k in range(400):     # fill the bounded caches of the library
            try:
                sut.parse('http://%s/%s' % (tag(k), tag(k)))
                sut.parse('/%s/[a-z]+' % tag(k))
            except sut.DOCUMENTED:
                pass
        state = {}
        if kind == 'remake':
            m = state['maker'] = sut.PatternMaker(sut.config(3))
            for u in urls:
                for j in range(6):
                    try:
                        m.load(fresh(r, u, j), meta=j)
                    except sut.DOCUMENTED:
                        pass
        elif kind in ('reload-url', 'load-bad'):
            state['maker'] = sut.PatternMaker()
            state['matcher'] = sut.PatternMatcher()
        elif kind in ('reload-pattern', 'match', 'match-bad'):
            m = state['matcher'] = sut.PatternMatcher()
            for p in case['pats']:
                m.load(p, meta=p)
        call = getattr(self, '_' + kind.replace('-', '_'))
        gc.collect()
        tracemalloc.start()
        try:
            used = [self.used(call, state, x, case) for x in (first, second)]
            left = used[1] - used[0]
            where = None
            if left > SLACK + LEFT * n * per:
                # more calls: it may be a cache that is not full yet
                m = 60 if kind == 'remake' else 8000 // per
                long = [batch(m), batch(m)]
                used += [self.used(call, state, x, case) for x in long]
                more = used[3] - used[2]
                obs.count('confirmations')
                if more > SLACK + LEFT * m * per:
                    snap = tracemalloc.take_snapshot()
                    where = [str(s) for s in snap.statistics('lineno')[:4]]
        finally:
            tracemalloc.stop()
        obs.count('measurements')
        obs.count('matches', state.get('hits', 0))
        obs.count('calls', 2 * n * per)
        if new:
            obs.count('fresh_strings', 2 * n * per)
        if kind.startswith('drop'):
            obs.count('dropped_objects', 2 * n)
        if kind == 'remake':
            obs.count('repeated_makes', 2 * n)
        obs.high('bytes_per_call_' + kind.replace('-', '_'),
                 round(max(0, left) / (n * per), 1))
        obs.sig((kind, n, urls[0]))
        obs.sample = {'kind': kind, 'calls': 2 * n, 'left_bytes': left}
        if where:
            obs.viol('calls leave memory behind', kind=kind, calls=n * per,
                     left_bytes=left, used=used, where=where)

    @staticmethod
    def used(call, state, data, case):
        for item in data:
            call(state, item, case)
        item = None
        gc.collect()
        return tracemalloc.get_traced_memory()[0]

    @staticmethod
    def refused(o, x):
        try:
            (sut.PatternMaker if o == 'maker' else sut.PatternMatcher)(
                ).load(x)
            return False
        except sut.DOCUMENTED:
            return True

    @staticmethod
    def _parse(state, item, case):
        for u in item:
            try:
                a, b = sut.parse(u)
                sut.fuzzy_digest(a, b)
            except sut.DOCUMENTED:
                pass
    _parse_bad = _parse
    _parse_pattern = _parse

    @staticmethod
    def _match(state, item, case):
        for u in item:
            try:
                for n in state['matcher'].match(u):
                    state['hits'] = state.get('hits', 0) + 1
            except sut.DOCUMENTED:
                pass
    _match_bad = _match

    @staticmethod
    def _reload_url(state, item, case):
        for u in item:
            state['maker'].load(u, meta=u)

    @staticmethod
    def _load_bad(state, item, case):
        for o, u in item:
            try:
                state[o].load(u, meta=u)
            except sut.DOCUMENTED:
                pass

    @staticmethod
    def _reload_pattern(state, item, case):
        for p in case['pats']:
            state['matcher'].load(p, meta=p)

    @staticmethod
    def _remake(state, item, case):
        for m, c in state['maker'].make():
            for f in ('cluster', 'inline', 'json', 'pattern'):
                for line in sut.pformat(f, m, c):
                    pass
        for m, c in state['maker'].make(combine=True):
            pass

    @staticmethod
    def _drop_maker(state, item, case):
        m = sut.PatternMaker(sut.config(2))
        for u in item:
            try:
                m.load(u, meta=u)
            except sut.DOCUMENTED:
                pass
        for x in m.make():
            pass

    @staticmethod
    def _drop_part(state, item, case):
        m = sut.PatternMaker(sut.config(2))
        for u in item:
            try:
                m.load(u, meta=u)
            except sut.DOCUMENTED:
                pass
        next(iter(m.make(combine=len(item[0]) % 2 == 0)), None)

    @staticmethod
    def _drop_matcher(state, item, case):
        m = sut.PatternMatcher()
        for u in item:
            try:
                m.load('/' + tag(len(u)) + '/[a-z]+', meta=u)
                m.load('/' + u.rpartition('/')[2], meta=u)
            except sut.DOCUMENTED:
                pass
            try:
                m.match(u)
            except sut.DOCUMENTED:
                pass
