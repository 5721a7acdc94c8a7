"""Run-time behaviour: C20 (bounded progress) and C21 (concurrent use)."""
import itertools
import os
import random
import signal
import sys
import threading
from collections import Counter

from . import gen, pristine, ref, sut
from .base import Check
from .checks_make import parse_or_none
from .checks_match import gen_patterns, gen_pool

HERE = os.path.dirname(os.path.abspath(__file__)) + os.sep
TOOL = 3
MON = sys.monitoring


class OverBudget(BaseException):
    pass


class Steps(object):
    """Counts calls, generator resumptions and loop turns in the interpreter.

    Raises OverBudget inside the running code when the budget is used up, so
    that a loop without end is an observation and not a timeout.
    """

    def __init__(self, budget):
        self.limit = budget
        self.over = False
        self.n = 0

    def _tick(self, code, *a):
        self.n += 1
        if self.n > self.limit and not code.co_filename.startswith(HERE):
            self.over = True
            self.limit += 1000000
            raise OverBudget()

    def __enter__(self):
        E = MON.events
        MON.use_tool_id(TOOL, 'steps')
        for e in (E.PY_START, E.PY_RESUME, E.JUMP):
            MON.register_callback(TOOL, e, self._tick)
        MON.set_events(TOOL, E.PY_START | E.PY_RESUME | E.JUMP)
        return self

    def __exit__(self, *a):
        MON.set_events(TOOL, 0)
        for e in (MON.events.PY_START, MON.events.PY_RESUME,
                  MON.events.JUMP):
            MON.register_callback(TOOL, e, None)
        MON.free_tool_id(TOOL)
        return False


H = 'http://h/'


def distinct(r, n, length=6):
    s = set()
    while len(s) < n:
        s.add(gen.word(r, ref.LOWER, length))
    return sorted(s)


def loaded(urls, mcn=3):
    m = sut.pattern_maker(mcn)
    for u in urls:
        m.load(u, meta=u)
    return m


def consume(m, combine=False):
    for me, c in m.make(combine):
        if not combine:
            for f in ('pattern', 'cluster', 'inline', 'json'):
                for _ in sut.pformat(f, me, c):
                    pass


def load_urls(urls):
    m = sut.PatternMaker()
    return lambda: [m.load(u, meta=u) for u in urls]


def load_patterns(pats):
    m = sut.PatternMatcher()
    return lambda: [m.load(p, meta=p) for p in pats]


def match_urls(pats, urls):
    m = sut.PatternMatcher()
    for p in pats:
        m.load(p, meta=p)
    return lambda: [sorted(m.match(u)) for u in urls]


def make_of(urls, combine=False, mcn=3):
    m = loaded(urls, mcn)
    return lambda: consume(m, combine)


def words(r, n, sep):
    return sep.join(gen.word(r, ref.LOWER, 1) for _ in range(n))


def many_metas(n):
    m = sut.PatternMaker()
    for i in range(n):
        for j in range(3):
            m.load(H + 'abc'[j], meta=(i, j))
    return lambda: consume(m)


def nested(n):
    out = []
    for x in itertools.product(['a', '[a-z]', '[a-z]+'], repeat=12):
        out.append('/' + '/'.join(x))
        if len(out) >= n:
            break
    return out


GROWTH = {
    'load long': (4000, lambda r, n: load_urls(
        [H + gen.word(r, ref.LOWER, n)])),
    'load escapes': (1000, lambda r, n: load_urls(
        [H + '%41%20-' * n])),
    'load runs': (1000, lambda r, n: load_urls([H + words(r, n, '-')])),
    'load levels': (1000, lambda r, n: load_urls([H + words(r, n, '/')])),
    'load keys': (1000, lambda r, n: load_urls(
        [H + '?' + '&'.join('k%d=1' % i for i in range(n))])),
    'load many': (500, lambda r, n: load_urls(
        [H + x for x in distinct(r, n)])),
    'load same': (500, lambda r, n: load_urls(
        ['http://h%d/a/b' % i for i in range(n)])),
    'load structures': (500, lambda r, n: load_urls(
        [H + '?k%d=1' % i for i in range(n)])),
    'make siblings': (400, lambda r, n: make_of(
        [H + x for x in distinct(r, n)])),
    'make lengths': (400, lambda r, n: make_of(
        [H + gen.word(r, ref.LOWER, r.randint(3, 9)) for _ in range(n)])),
    'make numbers': (400, lambda r, n: make_of(
        [H + 'a/%d.html' % i for i in range(n)])),
    'make dash': (400, lambda r, n: make_of(
        [H + 'a/%s-%d' % (x, i % 7)
         for i, x in enumerate(distinct(r, n))])),
    'make two levels': (400, lambda r, n: make_of(
        [H + '%s/%d' % (x, i % 2) for i, x in enumerate(distinct(r, n))])),
    'make query': (400, lambda r, n: make_of(
        [H + 'a?id=%d&t=%s' % (i, x)
         for i, x in enumerate(distinct(r, n))])),
    'make structures': (300, lambda r, n: make_of(
        [H + '?k%d=1' % i for i in range(n)])),
    'make singles': (300, lambda r, n: make_of(
        [H + x for x in distinct(r, n)], mcn=10 ** 6)),
    'make mixed': (400, lambda r, n: make_of(
        [H + gen.word(r, 'ab12', 12) for _ in range(n)])),
    'make metas': (400, lambda r, n: many_metas(n)),
    'combine': (400, lambda r, n: make_of(
        [H + gen.word(r, ref.LOWER, r.randint(3, 9)) for _ in range(n)],
        True)),
    'combine structures': (300, lambda r, n: make_of(
        [H + '?k%d=1' % i for i in range(n)], True)),
    'combine singles': (300, lambda r, n: make_of(
        [H + x for x in distinct(r, n)], True, 10 ** 6)),
    'patterns literal': (500, lambda r, n: load_patterns(
        ['/' + x for x in distinct(r, n)])),
    'patterns lengths': (500, lambda r, n: load_patterns(
        ['/[a-z]{%d}' % (i + 1) for i in range(n)])),
    'patterns multi': (500, lambda r, n: load_patterns(
        ['/%s[\\-][0-9]+' % x for x in distinct(r, n)])),
    'patterns structures': (500, lambda r, n: load_patterns(
        ['/a[\\?]k%d=[a-z]+' % i for i in range(n)])),
    'pattern long': (4000, lambda r, n: load_patterns(
        ['/' + gen.word(r, ref.LOWER, n)])),
    'pattern runs': (500, lambda r, n: load_patterns(
        ['/' + '[\\-]'.join(['[a-z]+'] * n)])),
    'pattern levels': (500, lambda r, n: load_patterns(
        ['/' + '/'.join(['[a-z]+'] * n)])),
    'match many': (500, lambda r, n: match_urls(
        ['/[a-z]+', '/[a-z]{6}'], [H + x for x in distinct(r, n)])),
    'match literals': (500, lambda r, n: match_urls(
        ['/' + x for x in distinct(r, n)], [H + 'abcdef'])),
    'match long': (4000, lambda r, n: match_urls(
        ['/[a-z]+', '/[a-z]{6}'], [H + gen.word(r, ref.LOWER, n)])),
    'match runs': (500, lambda r, n: match_urls(
        ['/' + '[\\-]'.join(['[a-z]+'] * n)], [H + words(r, n, '-')])),
    'match levels': (500, lambda r, n: match_urls(
        ['/' + '/'.join(['[a-z]+'] * n)], [H + words(r, n, '/')])),
    'sort': (300, lambda r, n: match_urls(nested(n), [H + '/'.join('a' * 12)])),
}


class C20(Check):
    id = 'C20'
    n_quick = 476
    n_thorough = 12000
    chunk = 5
    case_timeout = 500
    rule = ('ordinary, adversarial and extreme inputs (thousands of levels, '
            'runs, keys, siblings, patterns) processed while calls and loop '
            'turns of the interpreter are counted against a budget that is '
            'polynomial in the input; distinct by (kind, operation, magnitude '
            'of steps)')
    need = {'loads': 3000, 'makes': 300, 'matches': 2000, 'deep_inputs': 60,
            'steps': 1000000, 'growths': 30}
    assumptions = ['the budgets are several times what the present code uses; '
                   'a change that makes it moderately slower is not reported']

    # steps per unit of input; see DESIGN.md for the measured maxima
    LOAD, MATCH, MAKE = 120, 60, 800
    # seconds of processor time; the present code needs less than 2
    CPU = 90

    KINDS = ['plain', 'plain', 'plain', 'plain', 'levels', 'runs', 'runs_path',
             'keys', 'siblings', 'wide', 'patterns', 'twins', 'long', 'growth']
    # eight times the input may cost at most this many times the steps; the
    # present code needs 8.4 (14 for sorting), a quadratic one up to 64
    GROWTH = 24

    def gen(self, r, idx, tier):
        kind = self.KINDS[idx % len(self.KINDS)]
        if kind == 'growth':
            names = sorted(GROWTH)
            i = idx // len(self.KINDS)
            return {'kind': kind, 'name': names[i % len(names)],
                    'size': r.uniform(0.9, 1.6), 'seed': r.randrange(10 ** 9)}
        big = 3 if tier == 'thorough' else 1
        mcn = gen.gen_mcn(r)
        host = 'http://h'
        urls = []
        if kind == 'plain':
            urls = gen.gen_urls(r, mcn, messy=0.1)
        elif kind == 'levels':
            n = r.choice([300, 1100, 1100 + 500 * big])
            base = [gen.word(r, 'ab', 1) for _ in range(n)]
            for i in range(r.choice([1, mcn, mcn + 1])):
                b = list(base)
                b[r.randrange(n)] = 'v' + str(i)
                urls.append(host + '/' + '/'.join(b))
        elif kind in ('runs', 'runs_path'):
            n = r.choice([300, 1100, 2000 * big])
            for i in range(r.choice([1, mcn, mcn + 2])):
                s = ''.join(gen.word(r, ref.LOWER, 1) + r.choice('0-._9')
                            for _ in range(n // 2))
                urls.append(host + ('/#' if kind == 'runs' else '/') + s)
            if r.random() < 0.5:
                urls = [urls[0][:-2] + '%02d' % i for i in range(mcn + 1)]
        elif kind == 'keys':
            n = r.choice([200, 1100])
            for i in range(r.choice([1, mcn + 1])):
                urls.append(host + '/?' + '&'.join(
                    'k%d=%d' % (j, i if j % 50 == 0 else 7)
                    for j in range(n)))
        elif kind == 'siblings':
            n = r.choice([200, 600, 1500])
            urls = [host + '/' + gen.word(r, 'abcdef', r.randint(3, 9))
                    + r.choice(['', '.html', '-%d' % i])
                    for i in range(n)]
        elif kind == 'wide':
            n = r.choice([3, 4, 6, 8])
            for _ in range(r.choice([60, 200])):
                urls.append(host + '/' + '/'.join(
                    gen.word(r, 'ab1', r.randint(1, 2)) for _ in range(n)))
        elif kind == 'patterns':
            # many patterns that all agree with many prefixes of one URL
            n = r.choice([4, 6, 8])
            urls = [host + '/' + '/'.join(
                gen.word(r, 'abc', r.randint(1, 4)) + str(r.randrange(99))
                for _ in range(n)) for _ in range(3)]
        elif kind == 'twins':
            n = r.choice([50, 300])
            s = gen.word(r, 'aB1-', n)
            urls = [host + '/' + s[:k] + r.choice('aB1-') + s[k + 1:]
                    for k in r.sample(range(n), 30)]
        else:
            L = r.choice([1000, 5000, 20000])
            urls = [host + '/' + gen.word(r, r.choice(['a', 'ab', '-', 'a1']),
                                          L + i % 3) for i in range(mcn + 2)]
        good = [u for u in urls if parse_or_none(u) is not None]
        pats = []
        if good:
            for _ in range(r.choice([3, 10, 60 if kind == 'patterns' else 10])):
                u = r.choice(good)
                pats.append(gen.gen_abstraction(r, ref.parse_url(u))[0])
        return {'kind': kind, 'mcn': mcn, 'urls': urls,
                'patterns': list(dict.fromkeys(pats))}

    def within(self, obs, name, units, per, f, extra=0):
        budget = 20000 + per * units + extra
        steps = Steps(budget)
        cpu = []

        def late(*a):
            # work inside one step, in regular expressions for one
            cpu.append(1)
            raise OverBudget()
        signal.signal(signal.SIGVTALRM, late)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.CPU)
        try:
            with steps:
                out = f()
        except OverBudget:
            out = None
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if steps.over or cpu:
            obs.viol('%s does not finish within its %s budget' % (
                name, 'step' if steps.over else 'processor time'),
                budget=budget, units=units)
            return None
        obs.count('steps', steps.n)
        obs.sig((self.kind, name, units.bit_length(), steps.n.bit_length()))
        obs.ratio = max(getattr(obs, 'ratio', 0), steps.n / float(units))
        if os.environ.get('VP_RATIO'):
            sys.stderr.write('%s %s %.2f %d %d\n' % (
                self.kind, name, steps.n / float(units), units, steps.n))
        return out

    def grow(self, case, obs):
        n, f = GROWTH[case['name']]
        n = int(n * case['size'])
        seen = []
        for k in (n, 8 * n):
            budget = 10 ** 9
            if seen:
                budget = self.GROWTH * seen[0] + 20000 + 50 * k
            r = random.Random(case['seed'])
            op = f(r, k)
            steps = Steps(budget)
            try:
                with steps:
                    op()
            except OverBudget:
                pass
            if steps.over:
                obs.viol('%s: eight times the input takes more than %d times '
                         'the steps' % (case['name'], self.GROWTH),
                         n=n, steps=seen)
                return
            seen.append(steps.n)
        obs.count('growths')
        obs.count('steps', sum(seen))
        obs.sig(('growth', case['name'], n.bit_length(),
                 int(seen[1] / float(seen[0] + 1))))
        obs.sample = {'growth': case['name'], 'n': n, 'steps': seen}

    def run(self, case, obs):
        self.kind = case['kind']
        if self.kind == 'growth':
            return self.grow(case, obs)
        mcn = case['mcn']
        maker = sut.PatternMaker(sut.config(mcn))
        size = 0
        ok = []
        if self.kind in ('levels', 'runs', 'runs_path', 'keys', 'long'):
            obs.count('deep_inputs')
        for u in case['urls']:
            def load():
                try:
                    maker.load(u, meta=u)
                    return True
                except sut.DOCUMENTED:
                    return False
            r = self.within(obs, 'load', len(u), self.LOAD, load)
            obs.count('loads')
            if r is None:
                return
            if r:
                ok.append(u)
                size += len(u)

        def make():
            out = []
            for m, c in maker.make():
                for f in ('pattern', 'cluster', 'inline', 'json'):
                    out.append((f, list(sut.pformat(f, m, c))))
                list(sut.dump_tree(c))
            return out
        n = len(set(ok)) + 1
        # the tree walks are quadratic in the depth of one URL
        k = 0
        for u in ok:
            p = parse_or_none(u)
            if p is not None:
                k = max(k, len(p.components) + max(
                    len(ref.runs(c)) for c in p.components))
        extra = 20 * n * k * k
        out = self.within(obs, 'make', size * n.bit_length() + 50,
                          self.MAKE, make, extra)
        obs.count('makes')
        if out is None:
            return
        comb = self.within(obs, 'make(combine)', size * n.bit_length() + 50,
                           self.MAKE, lambda: [
                               sum(1 for _ in sut.dump_tree(t)) for _, t in
                               maker.make(True)], extra)
        if comb is None:
            return
        pats = list(case['patterns'])
        pats += [x[1][0] for x in out if x[0] == 'pattern'][:20]
        pats = list(dict.fromkeys(pats))
        m = sut.PatternMatcher()
        psize = 0
        for p in pats:
            psize += len(p)
            r = self.within(obs, 'load pattern', len(p), self.LOAD,
                            lambda: m.load(p, meta=p))
            if r is None:
                return
        for u in ok[:25]:
            def match():
                return [x.meta for x in sorted(m.match(u), reverse=True)]
            r = self.within(obs, 'match', len(u) + psize * 2
                            * len(pats).bit_length(), self.MATCH, match)
            obs.count('matches')
            if r is None:
                return
        obs.sample = {'kind': self.kind, 'urls': len(ok),
                      'max_len': max(map(len, ok)) if ok else 0,
                      'patterns': len(pats)}


class Scheduler(object):
    """Runs threads one at a time and switches at source lines of the code
    under test, driven by a seeded generator.

    A thread that is not handed the turn in time goes on by itself, so that
    locks in the code under test cannot block the run.
    """

    def __init__(self, seed, p):
        self.r = random.Random(seed)
        self.p = p
        self.sem = {}
        self.live = []
        self.trace = []
        self.free = False
        self.lines = 0

    def _line(self, code, line):
        if not code.co_filename.startswith(sut.SRC + '/'):
            return MON.DISABLE
        me = threading.get_ident()
        if me not in self.sem or self.free:
            return
        self.lines += 1
        if self.r.random() >= self.p or len(self.live) < 2:
            return
        nxt = self.r.choice(self.live)
        if nxt == me:
            return
        self.trace.append((self.names[me], self.names[nxt], line))
        self.sem[nxt].release()
        if not self.sem[me].acquire(timeout=2.0):
            self.free = True
            for s in self.sem.values():
                s.release()

    def run(self, funcs):
        results = [None] * len(funcs)
        self.names = {}
        ready = threading.Barrier(len(funcs) + 1)

        def body(i, f):
            me = threading.get_ident()
            self.names[me] = i
            self.sem[me] = threading.Semaphore(0)
            ready.wait()
            self.sem[me].acquire(timeout=2.0)
            try:
                results[i] = ('ok', f())
            except Exception as e:
                results[i] = ('error', e)
            finally:
                if me in self.live:
                    self.live.remove(me)
                if self.live:
                    self.sem[self.live[0]].release()
        ts = [threading.Thread(target=body, args=(i, f), daemon=True)
              for i, f in enumerate(funcs)]
        for t in ts:
            t.start()
        ready.wait()
        self.live = sorted(self.sem, key=lambda k: self.names[k])
        MON.use_tool_id(TOOL, 'sched')
        MON.register_callback(TOOL, MON.events.LINE, self._line)
        MON.set_events(TOOL, MON.events.LINE)
        try:
            self.sem[self.live[0]].release()
            for t in ts:
                t.join(60)
        finally:
            MON.set_events(TOOL, 0)
            MON.register_callback(TOOL, MON.events.LINE, None)
            MON.free_tool_id(TOOL)
            MON.restart_events()
        if any(t.is_alive() for t in ts):
            return None
        return results


def cold_alone(case, i):
    c = C21()
    return c.job(case['jobs'][i], sut.matcher(case['patterns'])
                 if case['jobs'][i]['kind'] == 'match' else None, case)()


def cold_together(case):
    c = C21()
    shared = sut.matcher(case['patterns']) if any(
        j['kind'] == 'match' for j in case['jobs']) else None
    funcs = [c.job(j, shared, case) for j in case['jobs']]
    s = Scheduler(case['seed'], case['p'])
    got = s.run(funcs)
    if got is not None:
        got = [g if g[0] == 'ok' else (g[0], repr(g[1])) for g in got]
    return got, s.trace, s.lines, s.free


class C21(Check):
    id = 'C21'
    n_quick = 1500
    n_thorough = 20000
    chunk = 10
    case_timeout = 150
    shrinkable = ()
    rule = ('two to four threads clustering, parsing, formatting with their own '
            'objects and matching with a shared matcher, switched at source '
            'lines by a seeded scheduler or freely with a tiny switch interval, '
            'and generators advanced alternately; results compared with '
            'sequential runs; distinct by observed sequence of switches')
    need = {'threads': 3000, 'switches': 20000, 'jobs_compared': 3000,
            'interleaved_generators': 200, 'cold_runs': 100}
    assumptions = ['loading and matching on one object at the same time is not '
                   'part of the property']

    def gen(self, r, idx, tier):
        jobs = []
        n = r.choice([2, 2, 3, 4])
        urls = gen_pool(r, 6)
        fam = gen.gen_urls(r, 3, big=False)[:20]
        for i in range(n):
            k = r.choice(['make', 'match', 'parse', 'matcher', 'digest'])
            own = list(fam if r.random() < 0.5 else gen.gen_urls(
                r, 3, big=False))[:20]
            r.shuffle(own)
            jobs.append({'kind': k, 'urls': own if k in ('make', 'parse',
                                                         'digest')
                         else [r.choice(urls) for _ in range(8)]})
        return {'jobs': jobs, 'seed': r.randrange(10 ** 9),
                'patterns': gen_patterns(r, urls, 8),
                'p': r.choice([0.02, 0.1, 0.3]),
                'mode': ['sched', 'sched', 'cold', 'sched', 'free',
                         'gen'][idx % 6],
                'mcn': r.choice([2, 3])}

    def job(self, j, shared, case):
        kind, urls = j['kind'], j['urls']

        def make():
            return sut.canon(sut.cluster_urls(urls, case['mcn'])[1]), \
                self.formats(urls, case['mcn'])

        def match():
            return [[n.meta for n in sorted(shared.match(u), reverse=True)]
                    for u in urls]

        def matcher():
            m = sut.matcher(case['patterns'])
            return [[n.meta for n in sorted(m.match(u), reverse=True)]
                    for u in urls]

        def parse():
            out = []
            for u in urls:
                try:
                    m, ps = sut.parse(u)
                    out.append((tuple(m), [(p.piece, p.rules, p.piece_length)
                                           for p in ps]))
                except sut.DOCUMENTED as e:
                    out.append(type(e).__name__)
            return out

        def digest():
            out = []
            for u in urls + case['patterns']:
                try:
                    out.append(sut.fuzzy_digest(u))
                except sut.DOCUMENTED as e:
                    out.append(type(e).__name__)
            return out
        return {'make': make, 'match': match, 'parse': parse,
                'matcher': matcher, 'digest': digest}[kind]

    def formats(self, urls, mcn):
        log = sut.MakerLog(mcn)
        for u in urls:
            log.load(u, u)
        out = []
        for m, c in log.maker.make():
            for f in ('cluster', 'inline', 'json'):
                out.append(tuple(sorted(sut.pformat(f, m, c))))
        return sorted(out)

    def run(self, case, obs):
        pristine.start()
        if case['mode'] == 'cold':
            return self.cold(case, obs)
        # the shared matcher is fresh: its lazy parts are filled concurrently
        want = [self.job(j, sut.matcher(case['patterns']), case)()
                for j in case['jobs']]
        if case['mode'] == 'gen':
            return self.generators(case, obs)
        shared = sut.matcher(case['patterns'])
        funcs = [self.job(j, shared, case) for j in case['jobs']]
        if case['mode'] == 'sched':
            s = Scheduler(case['seed'], case['p'])
            got = s.run(funcs)
            obs.count('switches', len(s.trace))
            obs.count('lines_seen', s.lines)
            obs.count('schedules_broken_by_blocking', int(s.free))
            obs.sig(s.trace)
        else:
            old = sys.getswitchinterval()
            sys.setswitchinterval(1e-6)
            try:
                s = Scheduler(case['seed'], 0.0)
                got = self.free_run(funcs)
            finally:
                sys.setswitchinterval(old)
            obs.count('free_runs')
        self.judge(case, want, got, obs)

    def cold(self, case, obs):
        """First use of the code in a process is the concurrent one."""
        try:
            got, trace, lines, free = pristine.call(cold_together, case)
            want = [pristine.call(cold_alone, case, i)
                    for i in range(len(case['jobs']))]
        except pristine.Failed as e:
            if sut.SRC + '/' not in str(e):
                raise
            obs.viol('a job fails in a fresh process', error=str(e)[-1500:])
            return
        obs.count('switches', len(trace))
        obs.count('lines_seen', lines)
        obs.count('schedules_broken_by_blocking', int(free))
        obs.count('cold_runs')
        obs.sig(trace)
        self.judge(case, want, got, obs)

    def judge(self, case, want, got, obs):
        obs.count('threads', len(case['jobs']))
        if got is None:
            obs.viol('the threads do not finish', jobs=[
                j['kind'] for j in case['jobs']])
            return
        for j, w, g in zip(case['jobs'], want, got):
            obs.count('jobs_compared')
            if g[0] != 'ok':
                obs.viol('%s fails when run with other threads' % j['kind'],
                         error=repr(g[1]), jobs=[
                             x['kind'] for x in case['jobs']])
            elif g[1] != w:
                obs.viol('%s gives another result when run with other '
                         'threads' % j['kind'], alone=repr(w)[:600],
                         together=repr(g[1])[:600])
        obs.sample = {'jobs': [j['kind'] for j in case['jobs']],
                      'mode': case['mode']}

    def free_run(self, funcs):
        results = [None] * len(funcs)
        bar = threading.Barrier(len(funcs))

        def body(i, f):
            bar.wait()
            try:
                results[i] = ('ok', f())
            except Exception as e:
                results[i] = ('error', e)
        ts = [threading.Thread(target=body, args=(i, f), daemon=True)
              for i, f in enumerate(funcs)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
        return None if any(t.is_alive() for t in ts) else results

    def generators(self, case, obs):
        """Lazy results of several makers consumed alternately."""
        r = random.Random(case['seed'])
        logs, want = [], []
        for j in case['jobs']:
            want.append(sut.canon(sut.cluster_urls(j['urls'],
                                                   case['mcn'])[1]))
            log = sut.MakerLog(case['mcn'])
            for u in j['urls']:
                log.load(u, u)
            logs.append(log)
        gens = [log.maker.make() for log in logs]
        trees = [[] for _ in logs]
        live = list(range(len(gens)))
        steps = []
        while live:
            i = r.choice(live)
            steps.append(i)
            x = next(gens[i], None)
            if x is None:
                live.remove(i)
            else:
                trees[i].append(x)
        # format alternately as well
        fs = [(i, sut.pformat('cluster', m, c), []) for i, ts in
              enumerate(trees) for m, c in ts]
        live = list(fs)
        while live:
            k = r.choice(live)
            x = next(k[1], None)
            if x is None:
                live.remove(k)
            else:
                k[2].append(x)
        obs.count('interleaved_generators', len(gens))
        obs.sig(steps)
        for i, w in enumerate(want):
            got = sut.canon([sut.observe(m, c) for m, c in trees[i]])
            if got != w:
                obs.viol('advancing several makers alternately changes the '
                         'result', expected=w[:4], got=got[:4])
            shown = sorted((f[2][0], len(f[2]) - 1, tuple(sorted(
                repr(x[1:]) for x in f[2][1:]))) for f in fs if f[0] == i)
            exp = sorted((a, len(m), tuple(m)) for a, _, m in w)
            if shown != exp:
                obs.viol('formatting several clusters alternately changes the '
                         'result', expected=exp[:3], got=shown[:3])
