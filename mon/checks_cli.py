"""The command line tools: C17, C18, C22."""
import json
import re
from collections import Counter

from . import gen, ref, sut
from .base import Check
from .checks_make import parse_or_none
from .checks_match import canonical, crowd, gen_patterns, gen_pool
from .cli import Dir

BAD_BYTES = [b'\xff\xfe', b'http://h/\xe9', b'\x80', b'http://h/a\xc3(',
             b'http://h/a\xc3\xa9', b'\x00', b'http://h/?a&&b', b'http://h',
             b'#', b'http://[::1/x', b'http://h/a b', b'E', b'N', b'/a',
             b'/[a-z]+', b'http://h/\x0bx', b'http://h/a\rb', b'abc',
             b'\xef\xbb\xbfhttp://h/a', b'http://h/?\xe4\xbd\xa0=1']


def noise_lines(r, n):
    return [r.choice(BAD_BYTES) if r.random() < 0.7 else
            gen.gen_garbage(r).replace('\n', '').encode(
                'utf-8', 'surrogatepass') for _ in range(n)]


def with_siblings(r, lines):
    """Puts lines behind some lines that look almost like them."""
    if r.random() < 0.5:
        return lines
    out = []
    for s in lines:
        out.append(s)
        while r.random() < 0.3:
            try:
                u = out[-1].decode('utf-8')
            except UnicodeDecodeError:
                break
            out.append(gen.sibling(r, u).replace('\n', '').encode('utf-8'))
    return out


def layout(r, lines):
    """Bytes of a file: line endings, padding, blank lines, no final newline."""
    out = b''
    crlf = r.random() < 0.3
    for s in lines:
        if r.random() < 0.06:
            out += r.choice([b'\n', b'  \n', b'\r\n', b'\t\n', b'\n\n'])
        if r.random() < 0.08:
            s = r.choice([b' ', b'\t', b'  ']) + s
        if r.random() < 0.08:
            s = s + r.choice([b' ', b'\t', b'\r', b' \t '])
        out += s + (b'\r\n' if crlf else b'\n')
    if r.random() < 0.3 and out.endswith(b'\n'):
        out = out[:-1]
    return out


def cut_files(r, lines):
    n = r.choice([1, 1, 1, 2, 3]) if r.random() < 0.96 else \
        r.randint(4, 14)
    cuts = sorted(r.randrange(len(lines) + 1) for _ in range(n - 1))
    parts, a = [], 0
    for c in cuts + [len(lines)]:
        parts.append(lines[a:c])
        a = c
    return [layout(r, p) for p in parts]


def lines_of(data):
    """Lines as a binary file yields them."""
    out = data.split(b'\n')
    if out[-1] == b'':
        out.pop()
    return out


def b2s(b):
    return b.decode('latin-1')


def s2b(s):
    return s.encode('latin-1')


def classify(line):
    """(text, None) or (None, why) of a stripped input line."""
    try:
        return line.decode('utf-8'), None
    except UnicodeDecodeError:
        return None, 'encoding'


def heavy(r, lines):
    """Very long lines, lines around the sizes of buffers, very many lines."""
    lines = list(lines)
    if r.random() < 0.6:
        for _ in range(r.randint(1, 3)):
            n = r.choice([255, 1023, 4095, 8191, 16384, 65535, 131072]) \
                + r.choice([-2, -1, 0, 1])
            u = r.choice([b'http://h/', b'http://h/a?k=', b'http://h/a#'])
            lines.insert(r.randrange(len(lines) + 1),
                         u + r.choice([b'a', b'7', b'-']) * (n - len(u)))
    if r.random() < 0.6:
        some = [x for x in lines if len(x) < 200] or [b'http://h/a']
        lines += [r.choice(some) if r.random() < 0.6 else
                  b'http://h/n/%d' % r.randrange(100000)
                  for _ in range(r.choice([1001, 4999, 5000, 5001, 10001]))]
    return lines


class CliCheck(Check):
    shrinkable = ()
    case_timeout = 120
    assumptions = ['standard output is UTF-8']

    def args_in(self, d, case):
        data = [s2b(x) for x in case['inputs']]
        if case['stdin']:
            return [], b''.join(data[:1])
        return ['-i'] + [d.file(x) for x in data], b''

    def input_lines(self, case):
        data = [s2b(x) for x in case['inputs']]
        if case['stdin']:
            data = data[:1]
        return [x.strip() for f in data for x in lines_of(f)]


class C17(CliCheck):
    id = 'C17'
    n_quick = 2500
    n_thorough = 60000
    chunk = 20
    rule = ('pattern-match run on generated pattern files (with noise, CRLF, '
            'several files, output of pattern-make) and URL files or stdin with '
            'noise; every output line compared with its input line and with the '
            'matching API; distinct by output line')
    need = {'output_lines': 20000, 'matched_lines': 5000,
            'unmatched_lines': 3000, 'error_lines': 3000, 'all_matched': 1500,
            'real_processes': 5}

    def gen(self, r, idx, tier):
        urls = gen_pool(r, r.randint(2, 10))
        if not urls:
            urls = ['http://h/a']
        pats = gen_patterns(r, urls, r.randint(1, 12))
        many = r.random() < 0.01
        if many:
            # a URL that matches very many patterns
            pats = gen_patterns(r, [max(urls, key=lambda u: len(ref.runs(
                u)))], 150) + pats
        elif r.random() < 0.005:
            pats = crowd(r, urls, pats)
        probes = list(urls)
        for _ in range(r.randint(2, 15)):
            probes.append(gen.mutate(r, r.choice(urls)))
        for _ in range(r.choice([0, 2])):
            probes.append(r.choice(probes))
        plines = [p.encode() for p in pats]
        for _ in range(r.choice([0, 2, 6])):
            plines.insert(r.randrange(len(plines) + 1), r.choice(
                [b'# comment', b'\thttp://h/a', b'', b'[a-z]', b'/[a-z', b'//',
                 b'/[0-9a-z]', b'/a[\\?]&', b'\xff', b'/\xff', b'/ x', b'abc',
                 b'/[]+', b' /lead', b'http://h/1', r.choice(plines)]))
        lines = [u.encode() for u in probes] + noise_lines(
            r, r.choice([0, 2, 8]))
        r.shuffle(lines)
        lines = with_siblings(r, lines)
        if idx % 60 == 31:
            lines = heavy(r, lines)
        return {'patterns': [b2s(x) for x in cut_files(r, plines)],
                'inputs': [b2s(x) for x in cut_files(r, lines)],
                'stdin': r.random() < 0.4, 'all': many or r.random() < 0.4,
                'level': r.choice([None] * 6 + ['debug', 'WARN', 'Error']),
                'real': idx % 250 == 11,
                'make': idx % 5 == 2 and [u for u in urls],
                'fmt': r.choice(['cluster', 'pattern'])}

    def run(self, case, obs):
        with Dir() as d:
            pfiles = [s2b(x) for x in case['patterns']]
            if case['make']:
                code, out, err = d.run('make', ['-f', case['fmt']], '\n'.join(
                    case['make']).encode())
                if code != 0:
                    obs.viol('pattern-make fails', code=code,
                             stderr=b2s(err)[-800:])
                pfiles.append(out)
            args, stdin = self.args_in(d, case)
            args += ['-p'] + [d.file(x) for x in pfiles]
            if case['all']:
                args.append('-a')
            if case['level']:
                args += ['-l', case['level']]
            code, out, err = d.run('match', args, stdin, case['real'])
        if case['real']:
            obs.count('real_processes')
        if code != 0:
            obs.viol('pattern-match fails', code=code, stderr=b2s(err)[-1500:])
            return
        m = sut.PatternMatcher()
        loaded = []
        for f in pfiles:
            for line in lines_of(f):
                line = line.rstrip()
                if not line.startswith(b'/'):
                    continue
                try:
                    p = line.decode('utf-8')
                    m.load(p, meta=p)
                except sut.DOCUMENTED:
                    continue
                loaded.append(p)
        canon = [(p, ref.PatternText(p)) for p in dict.fromkeys(loaded)
                 if canonical(p)]
        only_canon = len(canon) == len(set(loaded))
        want = self.input_lines(case)
        got = lines_of(out)
        if len(want) != len(got):
            obs.viol('not one output line per input line', lines=len(want),
                     output=len(got), tail=[b2s(x) for x in got[-3:]])
            return
        for w, g in zip(want, got):
            obs.count('output_lines')
            if g != b'\t' + w and not g.endswith(b'\t' + w):
                obs.viol('an output line does not carry its input line',
                         input=b2s(w), output=b2s(g))
                continue
            res = b2s(g[:len(g) - len(w) - 1])
            obs.sig((res, w))
            text, bad = classify(w)
            nodes = None
            if bad is None:
                try:
                    nodes = m.match(text)
                except sut.DOCUMENTED:
                    pass
            if nodes is None:
                obs.count('error_lines')
                if res != 'E':
                    obs.viol('an invalid line is not reported as E',
                             input=b2s(w), output=b2s(g))
                continue
            if not nodes:
                exp = [['N']]
                obs.count('unmatched_lines')
            elif case['all']:
                obs.count('all_matched')
                exp = [sorted(n.meta for n in nodes)]
            else:
                exp = [[n.meta for n in sorted(nodes, reverse=True)][:1]]
                # patterns spelled in two ways may tie
                if not only_canon:
                    exp = [[n.meta] for n in nodes if not any(
                        n < k for k in nodes)]
            if nodes:
                obs.count('matched_lines')
            shown = sorted(res.split('\t')) if case['all'] else [res]
            if shown not in exp:
                obs.viol('wrong result for a line', input=b2s(w), output=res,
                         expected=exp)
            p = parse_or_none(text)
            if p is not None and only_canon:
                t = [a for a, b in canon if ref.url_matches(b, p)]
                ok = (sorted(t) or ['N']) == shown if case['all'] else \
                    res in (t or ['N'])
                if not ok:
                    obs.viol('wrong result for a line (reference matcher)',
                             input=b2s(w), output=res, expected=t)
            if nodes and obs.sample is None:
                obs.sample = {'line': b2s(w), 'result': res}
        if case['make']:
            self.covered(case, loaded, m, obs)

    def covered(self, case, loaded, m, obs):
        for u in case['make']:
            obs.count('pipeline_urls')
            if not m.match(u):
                obs.viol('pattern-make | pattern-match misses a URL', url=u)


LABEL = re.compile(r' \S*\(\d+\) ')


def make_args(fmt, cfg_path, level):
    args = []
    if fmt:
        args += ['-f', fmt]
    if cfg_path:
        args += ['-c', cfg_path]
    if level:
        args += ['-l', level]
    return args


class C18(CliCheck):
    id = 'C18'
    n_quick = 2400
    n_thorough = 50000
    chunk = 20
    rule = ('pattern-make run with every formatter on generated URL files or '
            'stdin with noise, CRLF, blank lines and invalid UTF-8, with and '
            'without a config file and log level; output compared as a set of '
            'clusters with the API on the same valid lines; distinct by output')
    need = {'runs': 2000, 'clusters': 5000, 'invalid_lines': 3000,
            'config_files': 500, 'real_processes': 5, 'cluster_runs': 300,
            'inline_runs': 150, 'json_runs': 150, 'pattern_runs': 150,
            'ete_runs': 80, 'null_runs': 50}

    FMTS = ['cluster', 'cluster', 'CLUSTER', None, 'inline', 'Inline',
            'pattern', 'PATTERN', 'json', 'JSON', 'ete', 'null']

    def gen(self, r, idx, tier):
        mcn = gen.gen_mcn(r)
        cfg = None
        use = 3
        k = r.random()
        if k < 0.35:
            use = mcn
            cfg = r.choice(['[make]\nmin_cluster_num = %d\n',
                            '[make]\nmin_cluster_num=%d',
                            '# c\n\n[make]\nmin_cluster_num: %d\nother = x\n',
                            '[other]\na=1\n[make]\nmin_cluster_num = %d\n']
                           ) % mcn
        elif k < 0.4:
            cfg = r.choice(['', '[other]\nmin_cluster_num = 9\n',
                            '[make]\n'])
        urls = gen.gen_urls(r, use, messy=0.1, hosts=r.random() < 0.3,
                            big=False)
        if r.random() < 0.01:
            use, urls = gen.scaled(r, use, top=0.3)
            cfg = '[make]\nmin_cluster_num = %d\n' % use
        for _ in range(r.choice([0, 3])):
            urls.append(r.choice(urls))
        lines = [u.encode() for u in urls] + noise_lines(
            r, r.choice([0, 2, 8]))
        r.shuffle(lines)
        lines = with_siblings(r, lines)
        if idx % 80 == 31:
            lines = heavy(r, lines)
        return {'mcn': use, 'cfg': cfg,
                'inputs': [b2s(x) for x in cut_files(r, lines)],
                'stdin': r.random() < 0.4, 'fmt': r.choice(self.FMTS),
                'level': r.choice([None] * 6 + ['debug', 'INFO', 'Warn']),
                'real': idx % 200 == 13}

    def run(self, case, obs):
        with Dir() as d:
            cfg = d.file(case['cfg'].encode()) if case['cfg'] is not None \
                else None
            a, stdin = self.args_in(d, case)
            code, out, err = d.run('make', a + make_args(
                case['fmt'], cfg, case['level']), stdin, case['real'])
        obs.count('runs')
        obs.count('config_files', int(cfg is not None))
        obs.count('real_processes', int(case['real']))
        if code != 0:
            obs.viol('pattern-make fails', code=code, stderr=b2s(err)[-1500:])
            return
        fmt = (case['fmt'] or 'cluster').lower()
        obs.count(fmt + '_runs')
        maker = sut.PatternMaker(sut.config(case['mcn']))
        for w in self.input_lines(case):
            if not w:
                continue
            text, bad = classify(w)
            if bad is None:
                try:
                    maker.load(text, meta=text)
                    continue
                except sut.DOCUMENTED:
                    pass
            obs.count('invalid_lines')
        text = out.decode('utf-8')
        rows = text.split('\n')
        if rows[-1] != '':
            obs.viol('the output does not end with a newline', tail=rows[-1])
        rows = rows[:-1]
        want = [sut.observe(m, c) for m, c in maker.make()]
        obs.count('clusters', len(want))
        if want:
            obs.sig((fmt, sorted(rows)))
            obs.sample = {'format': fmt, 'output': rows[:6]}
        if fmt == 'pattern':
            exp, got = sorted(str(c.pattern) for c in want), sorted(rows)
        elif fmt == 'null':
            exp, got = [], rows
        elif fmt == 'json':
            exp = sorted([c.pattern, c.count] for c in want)
            got = sorted([x['ptn'], x['cnt']] for x in map(json.loads, rows))
        elif fmt == 'inline':
            exp = sorted('%s\t%s' % (c.pattern, u) for c in want
                         for u in c.members)
            got = sorted(rows)
        elif fmt == 'cluster':
            exp = sorted([c.pattern] + sorted('\t' + u for u in c.members)
                         for c in want)
            got = []
            for x in rows:
                if x.startswith('\t'):
                    if not got:
                        obs.viol('URLs before the first pattern', row=x)
                        return
                    got[-1].append(x)
                else:
                    got.append([x])
            got = sorted(g[:1] + sorted(g[1:]) for g in got)
        else:
            exp = Counter()
            for m in maker.makers:
                for root in m.make(combine=True):
                    for part in sut.pformat('ete', m.url_meta, root):
                        exp.update(LABEL.findall(part))
            exp, got = sorted(exp.items()), sorted(Counter(
                LABEL.findall(text)).items())
        if exp != got:
            obs.viol('the output is not the clustering of the valid lines',
                     format=fmt, expected=[x for x in exp
                                           if x not in got][:4],
                     got=[x for x in got if x not in exp][:4],
                     min_cluster_num=case['mcn'], config=case['cfg'])


RECORD = re.compile(
    r'^\[[^\]]*\] \[(\w+)\] \[([A-Z]+)\] \[[^\]]*\] (.*)$', re.S)
LEVELS = {'NOTSET': 99, 'DEBUG': 10, 'INFO': 20, 'WARN': 30, 'WARNING': 30,
          'ERROR': 40, 'FATAL': 50, 'CRITICAL': 50}


def records(err):
    out = []
    for line in err.decode('utf-8', 'replace').split('\n'):
        m = RECORD.match(line)
        if m:
            out.append((LEVELS[m.group(2)], m.group(3)))
    return out


def stats_of(recs, head):
    hits = [t[len(head):] for _, t in recs if t.startswith(head)]
    if len(hits) != 1:
        return None
    try:
        return {k: int(v) for k, v in (
            x.split(':') for x in hits[0].strip().split(', ') if x)}
    except ValueError:
        return None


class C22(CliCheck):
    id = 'C22'
    n_quick = 900
    n_thorough = 30000
    chunk = 10
    rule = ('both tools run with every log level on generated input with noise '
            '(some above the reporting interval); counters of the log compared '
            'with a recount of the input, standard output compared between '
            'levels; distinct by set of counters')
    need = {'make_stats': 400, 'match_stats': 200, 'level_runs': 2000,
            'speed_records': 40, 'odd_clock_runs': 100}

    def gen(self, r, idx, tier):
        tool = 'make' if idx % 3 else 'match'
        mcn = 3
        urls = gen.gen_urls(r, mcn, messy=0.1, hosts=r.random() < 0.5,
                            big=False)[:40]
        for _ in range(r.choice([0, 3, 9])):
            urls.append(r.choice(urls))
        lines = [u.encode() for u in urls] + noise_lines(
            r, r.choice([0, 1, 5]))
        r.shuffle(lines)
        lines = with_siblings(r, lines)
        case = {'tool': tool, 'stdin': r.random() < 0.4,
                'inputs': [b2s(x) for x in cut_files(r, lines)],
                'level': r.choice(['NOTSET', 'INFO', 'WARN', 'ERROR', 'FATAL',
                                   'warn', 'Debug']),
                'pad': 0, 'all': r.random() < 0.3}
        good = [u for u in urls if parse_or_none(u)] or ['http://h/a']
        pl = [p.encode() for p in gen_patterns(r, good, r.randint(1, 9))]
        for _ in range(r.choice([0, 2, 6])):
            pl.insert(r.randrange(len(pl) + 1), r.choice(
                [b'# comment', b'\thttp://h/a', b'', b'[a-z]', b'/[a-z', b'x',
                 b'/[0-9a-z]', b'\xff', b'/\xff', r.choice(pl), b'/[z-a]+']))
        case['patterns'] = [b2s(x) for x in cut_files(r, pl)]
        case['ppad'] = 0
        if idx % 50 in (5, 6):
            case['pad'] = r.choice([4990, 5000, 5001, 10010, 26000])
            case['ppad'] = r.choice([0, 990, 1000, 2500, 7100])
        if idx in (5, 6):
            case['pad'], case['ppad'] = 61000, 13000
        if r.random() < (0.4 if case['pad'] else 0.1):
            case['clock'] = r.choice(['frozen', 'back'])
        return case

    def run(self, case, obs):
        data = [s2b(x) for x in case['inputs']]
        if case['stdin']:
            data = data[:1]
        pfiles = [s2b(x) for x in case['patterns']]
        for files, row, n in ((data, b'http://pad/0\n', case['pad']),
                              (pfiles, b'/pad\n# pad\n', case['ppad'] // 2)):
            if n:
                if files[-1] and not files[-1].endswith(b'\n'):
                    files[-1] += b'\n'
                files[-1] += row * n
        outs = {}
        with Dir() as d:
            base = []
            stdin = b''
            if case['stdin']:
                stdin = data[0]
            else:
                base += ['-i'] + [d.file(x) for x in data]
            if case['tool'] == 'match':
                base += ['-p'] + [d.file(x) for x in pfiles]
                if case['all']:
                    base.append('-a')
            else:
                base += ['-f', 'inline' if case['all'] else 'pattern']
            for level in (None, 'DEBUG', case['level']):
                args = list(base) + (['-l', level] if level else [])
                code, out, err = d.run(case['tool'], args, stdin,
                                       clock=case.get('clock'))
                if case.get('clock'):
                    obs.count('odd_clock_runs')
                if code != 0:
                    obs.viol('the tool fails', code=code, args=args,
                             clock=case.get('clock'),
                             stderr=b2s(err)[-1000:])
                    return
                obs.count('level_runs')
                outs[level] = sorted(lines_of(out)) \
                    if case['tool'] == 'make' else out
                if outs[level] != outs[None]:
                    obs.viol('the log level changes the output',
                             level=level)
                recs = records(err)
                lim = LEVELS[(level or 'NOTSET').upper()]
                low = [t for v, t in recs if v < lim]
                if low:
                    obs.viol('records below the log level are shown',
                             level=level, records=low[:3])
                if level == 'DEBUG':
                    self.stats(case, data, pfiles, recs, obs)

    def stats(self, case, data, pfiles, recs, obs):
        warned = sum(1 for v, _ in recs if v >= 30)
        if case['tool'] == 'make':
            want = Counter()
            maker = sut.PatternMaker(sut.config(3))
            seen, known = set(), True
            for line in [x for f in data for x in lines_of(f)]:
                want['ALL'] += 1
                line = line.strip()
                if not line:
                    want['EMPTY'] += 1
                    continue
                text, bad = classify(line)
                try:
                    if bad:
                        raise ValueError(bad)
                    _, is_new = maker.load(text)
                    want['VALID'] += 1
                    p = parse_or_none(text)
                    new = is_new
                    if p is None or '\t' in text or '\r' in text:
                        known = False   # outside the reference's domain
                    elif known:
                        new = p.identity not in seen
                        seen.add(p.identity)
                    want['UNIQ'] += int(new)
                except sut.DOCUMENTED:
                    want['INVALID'] += 1
            got = stats_of(recs, '[LOADED]')
            obs.count('make_stats')
            every = 5000
            if warned != want['INVALID']:
                obs.viol('not one warning per invalid line', warned=warned,
                         invalid=want['INVALID'])
            done = [int(t.split()[1]) for _, t in recs
                    if t.startswith('[CLUSTER]')]
            if sum(done) != want['UNIQ']:
                obs.viol('the clusters reported in the log do not add up',
                         clusters=done, uniq=want['UNIQ'])
        else:
            want = Counter()
            m = sut.PatternMatcher()
            for line in [x for f in pfiles for x in lines_of(f)]:
                want['ALL'] += 1
                line = line.rstrip()
                if not line.startswith(b'/'):
                    want['UNKNOW'] += 1
                    continue
                try:
                    p = line.decode('utf-8')
                    m.load(p, meta=p)
                    want['VALID'] += 1
                except sut.DOCUMENTED:
                    want['INVALID'] += 1
            got = stats_of(recs, '[LOAD] Finished')
            obs.count('match_stats')
            every = 1000
            bad = 0
            lines = [x.strip() for f in data for x in lines_of(f)]
            self.progress('[MATCHING]', 5000, len(lines), recs, obs)
            for line in lines:
                text, why = classify(line)
                try:
                    if why:
                        raise ValueError(why)
                    m.match(text)
                except sut.DOCUMENTED:
                    bad += 1
            if warned != want['INVALID'] + bad:
                obs.viol('not one warning per invalid line', warned=warned,
                         invalid=want['INVALID'] + bad)
        want = {k: v for k, v in want.items() if v}
        if got is None or {k: v for k, v in got.items() if v} != want:
            obs.viol('the reported counters are wrong', got=got,
                     expected=want)
        obs.sig((case['tool'], sorted(want.items())))
        obs.sample = {'tool': case['tool'], 'counters': want}
        self.progress('[LOADING]', every, want.get('ALL', 0), recs, obs)

    def progress(self, head, every, lines, recs, obs):
        speed = [t for _, t in recs if t.startswith(head)]
        obs.count('speed_records', len(speed))
        try:
            got = [int(t.split()[1]) for t in speed]
        except (IndexError, ValueError):
            got = None
        if got != list(range(every, lines + 1, every)):
            obs.viol('progress records are wrong', records=speed[:9],
                     lines=lines)
