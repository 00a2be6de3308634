#!/usr/bin/env python3
"""Mutation campaign over the library, to find places the checks do not watch. Not a check: nothing registered uses it.

usage: mutate.py OUT.jsonl COVERDIR [--every N --offset K] [--file NAME] [--jobs J]
For every selected mutant: stable tests in a scratch copy, then the relevant checks (quick) until one reports a violation.
"""
import ast, concurrent.futures as cf, glob, json, os, shutil, subprocess, sys, tempfile

REPO, VERIF = os.environ.get('MUT_REPO', '/repo'), os.environ.get('MC_VERIF', '/verif')
PY = '/opt/venv/bin/python'
FILES = ['sunspec/core/client.py', 'sunspec/core/device.py', 'sunspec/core/modbus/client.py', 'sunspec/core/modbus/mbmap.py', 'sunspec/core/data.py',
         'sunspec/core/pics.py', 'sunspec/core/smdx.py', 'sunspec/core/suns.py', 'sunspec/core/util.py', 'scripts/suns.py']
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '//', ast.Div: '*', ast.Mod: '*', ast.LShift: '>>', ast.RShift: '<<', ast.BitAnd: '|', ast.BitOr: '&', ast.BitXor: '&'}


COST = dict(C01=10, C02=6, C03=5, C04=9, C05=40, C06=19, C07=39, C08=1, C09=2, C10=43, C11=25, C12=48, C13=65, C14=29, C15=18, C16=12, C17=12, C18=7,
            C19=20, C20=8, C21=15, C22=7, C23=30, C24=5, C25=31, C26=70, C27=13, C28=4, C29=25, C30=3, C31=40, C33=34, C34=26, C35=50, C36=9)
COVER = {}
LIMIT = 110


def load_cover(d):
    """Coverage data of linecov.py: which checks execute a line."""
    for g in glob.glob(d + '/*.json'):
        prop = os.path.basename(g)[:3]
        for f, l in json.load(open(g)):
            COVER.setdefault((os.path.relpath(f, REPO), l), set()).add(prop)


def relevant(m):
    """The checks that execute the mutated line, cheapest first."""
    fallback = {'C24'} if m['file'].startswith('scripts') else set()
    checks = sorted(fallback.union(*(COVER.get((m['file'], l), set()) for l in range(m['line'], m['end'] + 1))), key=lambda c: COST.get(c, 99))
    if not m['file'].startswith('scripts'):
        checks = sorted(set(checks) | {"C33", "C34", "C35", "C36"}, key=lambda c: COST.get(c, 99))
    # about two minutes of checks; the survivors are run against the rest by hand
    out, cost = [], 0
    for c in checks:
        cost += COST.get(c, 99)
        if cost <= LIMIT or not out:
            out.append(c)
    return out


def span(src_lines, n):
    """Character offsets of a node."""
    starts = [0]
    for l in src_lines:
        starts.append(starts[-1] + len(l.encode()))
    return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset


def mutants(file):
    src = open(os.path.join(REPO, file), encoding='utf-8').read()
    lines = src.splitlines(True)
    tree = ast.parse(src)
    out = []
    raw = src.encode()

    def add(n, new, what, qual):
        a, b = span(lines, n)
        if raw[a:b].decode() != new:
            out.append({'file': file, 'line': n.lineno, 'end': n.end_lineno, 'a': a, 'b': b, 'new': new, 'what': what, 'qual': qual, 'old': raw[a:b].decode()[:120]})

    def text(n):
        a, b = span(lines, n)
        return raw[a:b].decode()

    def walk(n, qual, instr=False):
        for field, child in ast.iter_fields(n):
            for c in (child if isinstance(child, list) else [child]):
                if isinstance(c, ast.AST):
                    visit(c, qual, n, field)

    def visit(n, qual, parent, field):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            q = (qual + '.' if qual else '') + n.name
            if n.name in ('__str__', '__repr__'):
                return
            for d in n.body:
                if isinstance(d, ast.Expr) and isinstance(d.value, ast.Constant) and isinstance(d.value.value, str):
                    continue
                visit(d, q, n, 'body')
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults:
                    visit(d, q, n, 'default')
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and text(n.test).startswith('__name__'):
            for d in n.body:
                visit(d, qual, n, 'body')
            return
        if isinstance(n, ast.Raise):
            add(n, 'pass', 'raise deleted', qual)
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = type(n.ops[0])
            if op in CMP:
                add(n, '%s %s %s' % (text(n.left), CMP[op], text(n.comparators[0])), 'comparison', qual)
        if isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + op.join('(%s)' % text(v) for v in n.values) + ')', 'and/or', qual)
            for i in range(len(n.values)):
                vs = [v for j, v in enumerate(n.values) if j != i]
                add(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % text(v) for v in vs) + ')', 'operand dropped', qual)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, '(%s)' % text(n.operand), 'not dropped', qual)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            add(n, '(%s %s %s)' % (text(n.left), BIN[type(n.op)], text(n.right)), 'operator', qual)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) and ' ' in n.left.value:
            return
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add(n, str(not v), 'constant', qual)
            elif isinstance(v, (int, float)):
                add(n, repr(v + 1), 'constant', qual)
                if v:
                    add(n, repr(v - 1), 'constant', qual)
            elif isinstance(v, str) and v and len(v) < 16 and not (isinstance(parent, ast.Call) and isinstance(parent.func, ast.Name) and parent.func.id == 'print'):
                add(n, repr(v + 'Q'), 'string', qual)
            elif isinstance(v, bytes):
                add(n, repr(v + b'Q'), 'bytes', qual)
            return
        if isinstance(n, ast.If):
            add(n.test, 'True', 'if True', qual)
            add(n.test, 'False', 'if False', qual)
        if isinstance(n, ast.While):
            add(n.test, 'False', 'while False', qual)
        if isinstance(n, (ast.Assign, ast.AugAssign)) and qual:
            add(n, 'pass', 'assignment deleted', qual)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            if text(n.value.func) in ('print',) and 'scripts' not in file:
                return
            add(n, 'pass', 'call deleted', qual)
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            add(n, 'return None', 'return None', qual)
            if not isinstance(n.value, ast.Constant):
                add(n, 'return False', 'return False', qual)
        if isinstance(n, ast.Break):
            add(n, 'pass', 'break deleted', qual)
        if isinstance(n, ast.Continue):
            add(n, 'pass', 'continue deleted', qual)
        if isinstance(n, ast.Try):
            for h in n.handlers:
                if not any(isinstance(x, ast.Raise) for x in h.body):
                    add(h.body[0], 'raise', 'handler raises', qual)
            if n.finalbody:
                pass
        if isinstance(n, ast.Call):
            for kw in n.keywords:
                pass
            if len(n.args) >= 2 and all(isinstance(x, (ast.Name, ast.Attribute)) for x in n.args[:2]) and text(n.args[0]) != text(n.args[1]):
                a1, b1 = span(lines, n.args[0])
                a2, b2 = span(lines, n.args[1])
                a, b = span(lines, n)
                s = raw[a:a1] + raw[a2:b2] + raw[b1:a2] + raw[a1:b1] + raw[b2:b]
                add(n, s.decode(), 'arguments swapped', qual)
        walk(n, qual)

    for d in tree.body:
        visit(d, '', tree, 'body')
    return out


def sh(cmd, cwd, env, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 'timeout', ''


STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def stable_nodes():
    out = []
    for s in STABLE:
        mod, test = s.split('::')
        parts = mod.split('.')
        cls = parts[-1]
        out.append('/'.join(parts[:-1]) + '.py::' + cls + '::' + test)
    return out


def evaluate(m):
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp/w')
    try:
        r = os.path.join(d, 'repo')
        shutil.copytree(REPO, r, ignore=shutil.ignore_patterns('.git', '__pycache__', 'doc'))
        f = os.path.join(r, m['file'])
        raw = open(f, 'rb').read()
        raw = raw[:m['a']] + m['new'].encode() + raw[m['b']:]
        try:
            compile(raw, f, 'exec')
        except SyntaxError:
            return dict(m, result='syntax')
        open(f, 'wb').write(raw)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/opt/vp/no-pycache', PYTHONHASHSEED='0', TMPDIR=d, MC_NOREPLAY='1')
        env.pop('PYTHONPATH', None)
        code, out = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60'] + stable_nodes(), r, env, 120)
        if code != 0:
            return dict(m, result='tests')
        env['MC_REPO'] = r
        env['MC_WORKERS'] = '2'
        notes = []
        for c in relevant(m):
            code, out = sh([VERIF + '/run.sh', c, '--tier', 'quick'], VERIF, env, 900)
            if code == 1 and 'VIOLATION property=%s' % c in out:
                msg = [l for l in out.splitlines() if l.startswith('violated')]
                return dict(m, result='caught', by=c, msg=(msg or [''])[0][:200], notes=notes)
            if code != 0:
                notes.append('%s: exit %s %s' % (c, code, out[-200:]))
        return dict(m, result='survived', notes=notes)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    out = sys.argv[1]
    load_cover(sys.argv[2])

    def opt(name, default):
        return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else default
    files = [f for f in FILES if opt('--file', '') in f]
    ms = [m for f in files for m in mutants(f)]
    ms = ms[int(opt('--offset', 0))::int(opt('--every', 1))]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            x = json.loads(l)
            done.add((x['file'], x['a'], x['b'], x['new']))
    ms = [m for m in ms if (m['file'], m['a'], m['b'], m['new']) not in done]
    print(len(ms), 'mutants', flush=True)
    if '--list' in sys.argv:
        return
    with cf.ThreadPoolExecutor(int(opt('--jobs', 6))) as ex, open(out, 'a') as f:
        for x in cf.as_completed([ex.submit(evaluate, m) for m in ms]):
            r = x.result()
            f.write(json.dumps(r) + '\n')
            f.flush()


if __name__ == '__main__':
    main()
