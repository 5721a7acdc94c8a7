#!/usr/bin/env python3
"""Systematic mutation testing of the checks (not a check itself).

mutate.py list DIR            writes every mutant of /repo/src to DIR/mutants.json
mutate.py tests DIR           keeps those that pass the stable tests (tests.json)
mutate.py checks DIR SCALE    runs the checks on them, first catch wins (checks.json)
Scratch copies live in DIR and are removed."""
import ast, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = '/repo/src/os_urlpattern'
FILES = ['definition.py', 'parse_utils.py', 'config/__init__.py', 'piece_pattern_node.py', 'cmdline.py', 'pattern_matcher.py', 'pattern.py', 'pattern_cluster.py', 'parser.py', 'parsed_piece_view.py', 'pattern_maker.py', 'compat.py', 'formatter.py', 'utils.py']
CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
UNWRAP = {'sorted', 'set', 'list', 'tuple', 'reversed', 'frozenset', 'str'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = span(n)
        return b[s:e].decode()
    out = []

    def rep(n, new, what):
        s, e = span(n)
        out.append((s, e, new, n.lineno, what))
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0]); doc.add(n.body[0].value)
    for n in ast.walk(tree):
        if n in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in CMP[type(n.ops[0])]:
                rep(n, '%s %s %s' % (text(n.left), op, text(n.comparators[0])), 'cmp ' + op)
        elif isinstance(n, ast.BoolOp):
            op = 'or' if isinstance(n.op, ast.And) else 'and'
            same = 'and' if op == 'or' else 'or'
            rep(n, '(' + (' %s ' % op).join('(%s)' % text(v) for v in n.values) + ')', 'bool ' + op)
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                rep(n, '(' + (' %s ' % same).join('(%s)' % text(v) for v in rest) + ')', 'drop operand %d' % i)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, '(%s)' % text(n.operand), 'drop not')
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                rep(n, str(not n.value), 'bool const')
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), 'const +1')
                rep(n, '(%d)' % (n.value - 1), 'const -1')
            elif isinstance(n.value, str) and len(n.value) <= 3 and n.lineno == n.end_lineno:
                rep(n, repr(n.value + '_') if n.value in ('', ' ') else "''", 'str const')
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            rep(n, '%s %s %s' % (text(n.left), '-' if isinstance(n.op, ast.Add) else '+', text(n.right)), 'arith')
        elif isinstance(n, ast.AugAssign):
            rep(n, '%s = %s' % (text(n.target), text(n.value)), 'aug to assign')
        if isinstance(n, (ast.If, ast.While)) and not (isinstance(n.test, ast.Constant)):
            if isinstance(n, ast.If):
                rep(n.test, 'True', 'if True')
            rep(n.test, 'False', 'if False')
        if isinstance(n, ast.IfExp):
            rep(n, text(n.body), 'ifexp body'); rep(n, text(n.orelse), 'ifexp else')
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.Continue, ast.Break, ast.Raise, ast.Delete)):
            rep(n, 'pass', 'delete stmt')
        if isinstance(n, ast.Break):
            rep(n, 'continue', 'break to continue')
        if isinstance(n, ast.Continue):
            rep(n, 'break', 'continue to break')
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in UNWRAP and len(n.args) == 1:
                rep(n, text(n.args[0]), 'unwrap ' + f.id)
                if f.id == 'set':
                    rep(n, 'list(%s)' % text(n.args[0]), 'set to list')
            if isinstance(f, ast.Name) and f.id in ('max', 'min'):
                rep(f, 'min' if f.id == 'max' else 'max', 'min/max')
            if isinstance(f, ast.Attribute) and f.attr in ('strip', 'rstrip', 'upper', 'lower', 'read', 'seek'):
                rep(n, text(f.value), 'drop .' + f.attr)
                if f.attr in ('strip', 'rstrip'):
                    rep(n, text(f.value) + ".strip(b'\\n')" if 'line' in text(f.value) else text(n), 'strip nl')
            if isinstance(f, ast.Attribute) and f.attr in ('find', 'rfind', 'extend', 'append', 'add', 'update'):
                alt = {'find': 'rfind', 'rfind': 'find'}.get(f.attr)
                if alt:
                    rep(n, text(n).replace('.' + f.attr, '.' + alt, 1), alt)
            for i, k in enumerate(n.keywords):
                pass
            if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                rep(n, '%s(%s, %s)' % (text(f), text(n.args[1]), text(n.args[0])), 'swap args')
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            rep(n, text(n.value), 'drop slice')
    seen = set()
    for s, e, new, line, what in out:
        m = (b[:s] + new.encode() + b[e:]).decode()
        if m == src or m in seen:
            continue
        seen.add(m)
        try:
            compile(m, 'x', 'exec')
        except SyntaxError:
            continue
        yield line, what, m


ORDER = {
    'parse_utils.py': 'C15 C05 C16 C03 C09 C10 C02 C13 C14',
    'definition.py': 'C15 C12 C03 C10 C02 C06 C13 C14',
    'piece_pattern_node.py': 'C01 C06 C19 C04', 'cmdline.py': 'C17 C18 C22 C24',
    'pattern_matcher.py': 'C10 C09 C11 C12 C16 C20',
    'pattern.py': 'C15 C26 C02 C10 C12 C05',
    'pattern_cluster.py': 'C26 C01 C04',
    'parser.py': 'C05 C13 C16', 'parsed_piece_view.py': 'C26 C03 C10 C12',
    'pattern_maker.py': 'C01 C26 C19 C16 C05', 'formatter.py': 'C18 C19 C01',
    'utils.py': 'C26 C11 C01 C22 C19', 'config/__init__.py': 'C18 C23',
    'compat.py': 'C17 C18 C24'}
REPO = os.environ.get('MUT_REPO', '/repo')   # a snapshot
ALL = ['C%02d' % i for i in range(1, 27)]


def copy(d, m):
    t = os.path.join(d, 'w%d' % m['id'])
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(REPO, t, ignore=shutil.ignore_patterns('.git', '__pycache__', '*.pyc'))
    with open(os.path.join(t, 'src/os_urlpattern', m['file']), 'w') as f:
        f.write(m['text'])
    return t


def env(t):
    e = dict(os.environ, PATH='/opt/venv/bin:' + os.environ['PATH'], PYTHONPATH=t + '/src', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', COVERAGE_FILE=t + '/cov', VP_SRC=t + '/src')
    return e


def run_tests(d, m):
    t = copy(d, m)
    try:
        p = subprocess.run(['bash', '-c', 'ulimit -v 8000000; timeout 40 python -m pytest -x -q -p no:cacheprovider --basetemp=%s/t --timeout=30 $(ls -r tests/test_*.py)' % t], cwd=t, env=env(t), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        return p.returncode == 0
    except subprocess.TimeoutExpired:
        return False
    finally:
        shutil.rmtree(t, ignore_errors=True)


def run_checks(d, m, scale, only=None):
    t = copy(d, m)
    res = {}
    first = ORDER.get(m['file'], '').split()
    todo = only or first or ALL
    if os.environ.get('MUT_ALL'):
        todo = first + [c for c in ALL if c not in first]
    try:
        for c in todo:
            e = env(t)
            e.update(VP_SCALE=str(scale), VP_PROCS='1', VP_OUT=t + '/out')
            try:
                p = subprocess.run(['timeout', '-k', '5', '600', os.path.join(V, 'check.sh'), c, 'quick'], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                rc = p.returncode
                txt = p.stdout.decode('utf-8', 'replace')
            except Exception as ex:
                rc, txt = -1, str(ex)
            if rc == 1 and 'VIOLATION property=%s' % c in txt:
                v = [l for l in txt.split('\n') if l.startswith('violated')]
                return {'caught': c, 'why': (v or [''])[0][:300]}
            if rc not in (0, 2) or (rc == 2 and 'need' not in txt.split('INCONCLUSIVE')[-1]):
                res[c] = (rc, txt[-300:])
        return {'caught': None, 'odd': res}
    finally:
        shutil.rmtree(t, ignore_errors=True)


def main():
    cmd, d = sys.argv[1:3]
    os.makedirs(d, exist_ok=True)
    if cmd == 'list':
        out = []
        for f in FILES:
            src = open(os.path.join(PKG, f)).read()
            for line, what, m in mutants(src):
                out.append({'id': len(out), 'file': f, 'line': line, 'what': what, 'text': m})
        json.dump(out, open(d + '/mutants.json', 'w'))
        print(len(out), 'mutants')
        return
    ms = json.load(open(d + '/mutants.json'))
    if cmd == 'tests':
        with ThreadPoolExecutor(int(os.environ.get('MUT_PAR', '8'))) as ex:
            r = []
            for ok in ex.map(lambda m: run_tests(d, m), ms):
                r.append(ok)
                if len(r) % 50 == 0:
                    print(len(r), sum(r), flush=True)
        keep = [m['id'] for m, ok in zip(ms, r) if ok]
        json.dump(keep, open(d + '/tests.json', 'w'))
        print(len(keep), 'pass the tests')
    elif cmd == 'checks':
        keep = set(json.load(open(d + '/tests.json')))
        path = d + '/checks.json'
        done = json.load(open(path)) if os.path.exists(path) else {}
        todo = [m for m in ms if m['id'] in keep and str(m['id']) not in done
                and m['file'] not in os.environ.get('MUT_SKIP', '').split()]
        def one(m):
            s = time.time()
            r = run_checks(d, m, float(sys.argv[3]))
            r['t'] = round(time.time() - s)
            done[str(m['id'])] = r
            print(m['id'], m['file'], m['line'], m['what'], r['caught'], r['t'], r.get('odd') or '', flush=True)
            json.dump(dict(done), open(path + '.tmp', 'w')); os.replace(path + '.tmp', path)
        with ThreadPoolExecutor(int(os.environ.get('MUT_PAR', '8'))) as ex:
            list(ex.map(one, todo))
    elif cmd == 'show':
        for i in sys.argv[3:]:
            m = ms[int(i)]
            a = open(os.path.join(PKG, m['file'])).read().splitlines(); b = m['text'].splitlines()
            import difflib
            print('#%d %s:%d %s' % (m['id'], m['file'], m['line'], m['what']))
            print('\n'.join(x for x in difflib.unified_diff(a, b, lineterm='', n=1) if x[:3] not in ('---', '+++')))


main()
