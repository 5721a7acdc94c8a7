"""The command line tools when something goes wrong: C24."""
import os

from .checks_cli import CliCheck, b2s, cut_files, lines_of, noise_lines, s2b
from .checks_match import gen_patterns, gen_pool
from .cli import Dir

BAD_CONFIG = ['abc', '[make]\nmin_cluster_num=x\n', '[make]\nmin_cluster_num=\n',
              '[make\nmin_cluster_num=3\n', 'min_cluster_num=3\n',
              '[make]\nmin_cluster_num=3.5\n', '[make]\nmin_cluster_num=3 4\n',
              '[make]\nmin_cluster_num=%(x)s\n']
USAGE = ['missing-input', 'missing-second-input', 'directory', 'bad-level',
         'bad-option', 'no-value', 'stray']
USAGE_MAKE = USAGE + ['bad-format', 'missing-config', 'config-directory',
                      'bad-config', 'bad-config', 'bad-config', 'foreign-a',
                      'foreign-p']
USAGE_MATCH = USAGE + ['missing-pattern', 'missing-second-pattern',
                       'pattern-directory', 'no-patterns', 'foreign-f',
                       'foreign-c']


def snapshot(path):
    out = {}
    for base, _, files in os.walk(path):
        for f in files:
            p = os.path.join(base, f)
            with open(p, 'rb') as h:
                out[os.path.relpath(p, path)] = h.read()
    return out


class C24(CliCheck):
    id = 'C24'
    n_quick = 1200
    n_thorough = 30000
    chunk = 5
    case_timeout = 240
    rule = ('both tools run (some as separate processes) with wrong arguments, unreadable or '
            'malformed files, read errors, and standard outputs that fail '
            'after some bytes (file size limit, full device, closed pipe); '
            'exit status, output and files compared with those of an '
            'undisturbed run; distinct by kind, tool and output')
    need = {'usage_errors': 250, 'write_faults': 120, 'read_faults': 80,
            'files_checked': 1500, 'undisturbed': 100, 'prefixes': 60, 'real_processes': 8}
    assumptions = ['standard output is UTF-8',
                   '/proc/self/mem gives a read error at its start']

    def gen(self, r, idx, tier):
        tool = r.choice(['make', 'match'])
        urls = gen_pool(r, r.randint(3, 12)) or ['http://h/a']
        lines = [u.encode() for u in urls] + noise_lines(r, r.choice([0, 3]))
        r.shuffle(lines)
        pats = [p.encode() for p in gen_patterns(r, urls, r.randint(1, 6))]
        mode = r.choice(['usage', 'usage', 'write', 'read', 'info'])
        if idx % 9 == 4:
            mode = 'write'
        case = {'tool': tool, 'mode': mode, 'stdin': r.random() < 0.4,
                'inputs': [b2s(x) for x in cut_files(r, lines)],
                'patterns': [b2s(x) for x in cut_files(r, pats)],
                'all': r.random() < 0.3,
                'fmt': r.choice(['cluster', 'inline', 'pattern', 'json']),
                'level': r.choice([None] * 4 + ['debug', 'error']),
                'kind': None, 'repeat': 1, 'real': idx % 60 == 7}
        if mode == 'usage':
            case['kind'] = r.choice(
                USAGE_MAKE if tool == 'make' else USAGE_MATCH)
            case['cfg'] = r.choice(BAD_CONFIG)
        elif mode == 'write':
            case['kind'] = r.choice(['limit', 'limit', 'limit', 'full', 'pipe',
                                     'enough'])
            case['cut'] = r.random()
            case['level'] = None   # the limit would hold for the log too
            case['repeat'] = r.choice([1, 1, 60, 600]) if tool == 'match' \
                else 1
        elif mode == 'read':
            case['kind'] = r.choice(['input', 'pattern']) \
                if tool == 'match' else 'input'
            case['repeat'] = r.choice([1, 1, 60]) if tool == 'match' else 1
        else:
            case['kind'] = r.choice(['-v', '--version', '-h', '--help'])
        return case

    def command(self, d, case):
        """([argument groups], stdin)"""
        data = [s2b(x) for x in case['inputs']]
        if case['repeat'] > 1:
            data = [(x if x.endswith(b'\n') or not x else x + b'\n')
                    * case['repeat'] for x in data]
        g = {}
        stdin = b''
        if case['stdin']:
            stdin = data[0]
        else:
            g['-i'] = [d.file(x) for x in data]
        if case['tool'] == 'match':
            g['-p'] = [d.file(s2b(x)) for x in case['patterns']]
            if case['all']:
                g['-a'] = []
        else:
            g['-f'] = [case['fmt']]
        if case['level']:
            g['-l'] = [case['level']]
        return g, stdin

    def start(self, d, case, g, stdin, out=None, limit=None):
        args = [x for k, v in g.items() for x in [k] + v]
        real = case['real'] and out is None and limit is None
        self.obs.count('real_processes', int(real))
        with Dir() as side:
            return d.run(case['tool'], args, stdin, real=real, stdout=out,
                         limit=limit, side=side)

    def run(self, case, obs):
        self.obs = obs
        with Dir() as d:
            g, stdin = self.command(d, case)
            getattr(self, case['mode'])(case, obs, d, g, stdin)

    def same_files(self, d, before, obs):
        after = snapshot(d.path)
        obs.count('files_checked', len(before))
        if after != before:
            obs.viol('a run changes files', changed=[
                f for f in set(before) | set(after)
                if before.get(f) != after.get(f)][:5])

    def usage(self, case, obs, d, g, stdin):
        k = case['kind']
        missing = os.path.join(d.path, 'missing')
        first = d.file(b'http://h/a\n')
        g.setdefault('-i', [first])
        if k == 'missing-input':
            g['-i'] = [missing]
        elif k == 'missing-second-input':
            g['-i'].append(missing)
        elif k == 'directory':
            g['-i'].append(d.path)
        elif k == 'bad-level':
            g['-l'] = ['verbose']
        elif k == 'bad-option':
            g['--bogus'] = []
        elif k == 'no-value':
            g.pop('-l', None)
            g['-l'] = []
        elif k == 'stray':
            g['-l'] = ['error', 'stray']
        elif k == 'bad-format':
            g['-f'] = ['xml']
        elif k == 'missing-config':
            g['-c'] = [missing]
        elif k == 'config-directory':
            g['-c'] = [d.path]
        elif k == 'bad-config':
            g['-c'] = [d.file(case['cfg'].encode())]
        elif k == 'foreign-a':
            g['-a'] = []
        elif k == 'foreign-p':
            g['-p'] = [first]
        elif k == 'foreign-f':
            g['-f'] = ['json']
        elif k == 'foreign-c':
            g['-c'] = [first]
        elif k == 'missing-pattern':
            g['-p'] = [missing]
        elif k == 'missing-second-pattern':
            g['-p'].append(missing)
        elif k == 'pattern-directory':
            g['-p'].append(d.path)
        elif k == 'no-patterns':
            del g['-p']
        before = snapshot(d.path)
        code, out, err = self.start(d, case, g, stdin)
        obs.count('usage_errors')
        obs.sig((k, case['tool'], case.get('cfg') if 'bad-config' == k else 0))
        obs.sample = {'kind': k, 'tool': case['tool'], 'exit': code}
        if code == 0:
            obs.viol('a run with a wrong argument succeeds', kind=k, args=g,
                     output=b2s(out)[:300])
        if out:
            obs.viol('a run with a wrong argument writes output', kind=k,
                     output=b2s(out)[:300])
        if not err.strip():
            obs.viol('a run with a wrong argument gives no message', kind=k)
        self.same_files(d, before, obs)

    def info(self, case, obs, d, g, stdin):
        before = snapshot(d.path)
        code, out, err = self.start(d, case, {case['kind']: []}, stdin)
        obs.count('usage_errors')
        obs.sig((case['kind'], case['tool']))
        if code != 0 or not out.strip():
            obs.viol('help or version fails', option=case['kind'], code=code,
                     stderr=b2s(err)[-500:])
        self.same_files(d, before, obs)

    def whole(self, case, obs, d, g, stdin):
        code, out, err = self.start(d, case, g, stdin)
        obs.count('undisturbed')
        if code != 0:
            obs.viol('a run without faults fails', code=code,
                     stderr=b2s(err)[-800:])
        return out

    def judge(self, case, obs, full, code, out, what):
        obs.count('prefixes', int(bool(out)))
        obs.sig((case['mode'], case['kind'], case['tool'], len(full), out))
        obs.sample = {'kind': case['kind'], 'tool': case['tool'],
                      'exit': code, 'written': len(out), 'of': len(full)}
        if code == 0:
            obs.viol('%s is not reported' % what, kind=case['kind'],
                     written=len(out), expected=len(full))
        if case['tool'] == 'match':
            if not full.startswith(out):
                obs.viol('the output before a fault is not a part of the '
                         'undisturbed output', got=b2s(out)[-300:])
        else:
            rows = set(lines_of(full))
            for x in lines_of(out)[:-1] if out else []:
                if x not in rows:
                    obs.viol('the output before a fault is not a part of the '
                             'undisturbed output', got=b2s(x))
                    break

    def write(self, case, obs, d, g, stdin):
        before = snapshot(d.path)
        full = self.whole(case, obs, d, g, stdin)
        obs.count('write_faults')
        k = case['kind']
        if not full:
            return
        if k == 'enough':
            code, out, _ = self.start(d, case, g, stdin, None, len(full))
            if code != 0 or len(out) != len(full):
                obs.viol('a run fails though its output fits', code=code,
                         written=len(out), expected=len(full))
        elif k == 'limit':
            cut = int(len(full) * case['cut'])
            code, out, _ = self.start(d, case, g, stdin, None, cut)
            self.judge(case, obs, full, code, out, 'a failed write')
        elif k == 'full':
            code, out, _ = self.start(d, case, g, stdin, '/dev/full')
            self.judge(case, obs, full, code, b'', 'a failed write')
        else:
            code, out, _ = self.start(d, case, g, stdin, 'CLOSED PIPE')
            self.judge(case, obs, full, code, b'', 'a closed output')
        self.same_files(d, before, obs)

    def read(self, case, obs, d, g, stdin):
        before = snapshot(d.path)
        full = self.whole(case, obs, d, g, stdin)
        obs.count('read_faults')
        bad = '/proc/self/mem'
        if case['kind'] == 'pattern':
            g['-p'].append(bad)
        else:
            g['-i'] = g.get('-i', []) + [bad]
            if case['stdin']:
                full = b''
        code, out, _ = self.start(d, case, g, stdin)
        if case['kind'] == 'pattern' and out:
            obs.viol('output though the patterns could not be read',
                     output=b2s(out)[:300])
        self.judge(case, obs, full, code, out, 'a read error')
        self.same_files(d, before, obs)
