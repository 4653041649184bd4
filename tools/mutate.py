#!/opt/venv/bin/python
"""Bulk mutation: which small edits pass the tests, and which of those do the checks report?

  mutate.py tests OUT.json [FILE..]      generate mutants of /repo, run the tests on each, write the survivors
  mutate.py checks IN.json OUT.json      run the quick checks on the survivors until one reports a violation

Works in scratch copies under /tmp; not part of any check.
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
FILES = ['pympc/geometry/polyhedron.py', 'pympc/geometry/utils.py', 'pympc/optimization/programs.py', 'pympc/optimization/solvers/pnnls.py',
         'pympc/optimization/solvers/gurobi.py', 'pympc/optimization/parametric_programs.py', 'pympc/dynamics/discrete_time_systems.py',
         'pympc/dynamics/discretization_methods.py', 'pympc/dynamics/utils.py', 'pympc/control/controllers.py']
SKIP = ('plot', 'verbose')
PROPS = {
    'pympc/geometry/polyhedron.py': 'C07 C08 C09 C10 C11 C12 C13 C15 C16 C04 C30 C02 C27 C29',
    'pympc/geometry/utils.py': 'C28 C12 C16 C09 C15',
    'pympc/optimization/programs.py': 'C19 C22',
    'pympc/optimization/solvers/pnnls.py': 'C17 C18',
    'pympc/optimization/solvers/gurobi.py': 'C19',
    'pympc/optimization/parametric_programs.py': 'C22 C23 C30 C25 C26 C24',
    'pympc/dynamics/discrete_time_systems.py': 'C01 C02 C03 C04 C27 C29 C06 C05',
    'pympc/dynamics/discretization_methods.py': 'C03 C27',
    'pympc/dynamics/utils.py': 'C27 C03',
    'pympc/control/controllers.py': 'C21 C22 C25 C26 C24',
}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'],
       ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*']}


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def pos(n, end=False):
        return off[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

    def seg(n):
        return raw[pos(n):pos(n, True)].decode()
    out = []

    def emit(a, b, new, what, n):
        old = raw[a:b].decode()
        out.append({'file': path, 'a': a, 'b': b, 'new': new, 'what': '%s: %r -> %r' % (what, old[:80], new[:80]), 'line': n.lineno, 'fn': '.'.join(stack)})
    stack = []

    def visit(n):
        named = isinstance(n, (ast.FunctionDef, ast.ClassDef))
        if named:
            if any(s in n.name for s in SKIP):
                return
            stack.append(n.name)
        body = getattr(n, 'body', None)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = n.left, n.comparators[0]
            for op in CMP.get(type(n.ops[0]), []):
                emit(pos(l, True), pos(r), ' %s ' % op, 'cmp', n)
        if isinstance(n, ast.BinOp):
            for op in BIN.get(type(n.op), []):
                if not isinstance(n.left, ast.Constant) or not isinstance(n.left.value, str):
                    emit(pos(n.left, True), pos(n.right), mid(raw[pos(n.left, True):pos(n.right)].decode(), op), 'op', n)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            emit(pos(n), pos(n.operand), '', 'unary', n)
        if isinstance(n, ast.BoolOp):
            for a, b in zip(n.values, n.values[1:]):
                emit(pos(a, True), pos(b), ' or ' if isinstance(n.op, ast.And) else ' and ', 'bool', n)
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bool)) and n.value is not None:
            v = n.value
            for w in ([v + 1] if v != 1 else [0, 2]) if isinstance(v, int) else [0.0 if v >= 1e-3 else 0.0, v * 2 if v else 1.0]:
                emit(pos(n), pos(n, True), repr(w), 'const', n)
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            emit(pos(n), pos(n, True), repr(not n.value), 'const', n)
        if isinstance(n, ast.Attribute) and n.attr == 'T':
            emit(pos(n), pos(n, True), seg(n.value), 'transpose', n)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('vstack', 'hstack', 'concatenate', 'sorted') and n.args and isinstance(n.args[0], ast.Tuple) and len(n.args[0].elts) == 2:
            a, b = n.args[0].elts
            emit(pos(a), pos(b, True), seg(b) + ', ' + seg(a), 'swap', n)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('min', 'max', 'copy', 'sorted') and n.args:
            emit(pos(n.func), pos(n.func, True), {'min': 'max', 'max': 'min', 'copy': '', 'sorted': 'list'}[n.func.id], 'fn', n)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('abs', 'absolute') and n.args:
            emit(pos(n), pos(n, True), '(' + seg(n.args[0]) + ')', 'fn', n)
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            for a, b in zip(n.args, n.args[1:]):
                if seg(a) != seg(b) and not any(isinstance(t, ast.Starred) for t in (a, b)):
                    emit(pos(a), pos(b, True), seg(b) + ', ' + seg(a), 'args', n)
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            emit(pos(n.args[-2], True), pos(n.args[-1], True), '', 'droparg', n)
        if isinstance(n, ast.Call) and n.keywords and n.args:
            k = n.keywords[-1]
            emit(pos(n.args[-1], True), k.value.end_col_offset + off[k.value.end_lineno - 1], '', 'dropkw', n)
        if isinstance(n, (ast.If, ast.While)):
            emit(pos(n.test), pos(n.test, True), 'not (' + seg(n.test) + ')', 'negate', n)
            emit(pos(n.test), pos(n.test, True), 'False', 'never', n)
        if isinstance(n, ast.IfExp):
            emit(pos(n.test), pos(n.test, True), 'not (' + seg(n.test) + ')', 'negate', n)
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise)) or isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
            emit(pos(n), pos(n, True), 'pass', 'delete', n)
        if isinstance(n, ast.comprehension):
            for t in n.ifs:
                emit(pos(t), pos(t, True), 'True', 'nofilter', t)
        if isinstance(n, ast.Return) and n.value is not None:
            emit(pos(n.value), pos(n.value, True), 'None', 'return', n)
        if isinstance(n, (ast.Continue, ast.Break)):
            emit(pos(n), pos(n, True), 'pass', 'jump', n)
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, ast.Expr) and isinstance(ch.value, ast.Constant):
                continue
            visit(ch)
        if named:
            stack.pop()

    def mid(s, op):
        for o in ('+', '-', '*', '/'):
            if o in s:
                return s.replace(o, op, 1)
        return ' %s ' % op
    visit(ast.parse(src))
    good = []
    seen = set()
    for m in out:
        new = (raw[:m['a']] + m['new'].encode() + raw[m['b']:]).decode()
        if new in seen or new == src:
            continue
        seen.add(new)
        try:
            compile(new, path, 'exec')
        except SyntaxError:
            continue
        good.append(m)
    return good


def apply(m, root):
    p = os.path.join(root, m['file'])
    raw = open(os.path.join(REPO, m['file']), 'rb').read()
    with open(p, 'wb') as f:
        f.write(raw[:m['a']] + m['new'].encode() + raw[m['b']:])


def scratch():
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    subprocess.check_call(['cp', '-a', REPO + '/.', d])
    return d


ENV = dict(os.environ, LC_ALL='C.UTF-8', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH='/opt/vp/plugins')


def tests(root):
    """do the tests pass?"""
    try:
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'vp_seed', '--timeout=120', 'pympc'], cwd=root, env=ENV,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=240)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0


def main():
    cmd = sys.argv[1]
    if cmd == 'tests':
        out = sys.argv[2]
        ms = [m for f in (sys.argv[3:] or FILES) for m in mutants(f)]
        print(len(ms), 'mutants', flush=True)
        roots = [scratch() for _ in range(8)]
        surv = []
        free = list(roots)

        def job(m):
            r = free.pop()
            try:
                apply(m, r)
                return m, tests(r)
            finally:
                shutil.copy(os.path.join(REPO, m['file']), os.path.join(r, m['file']))
                free.append(r)
        with ThreadPoolExecutor(8) as ex:
            for k, (m, ok) in enumerate(ex.map(job, ms)):
                if ok:
                    surv.append(m)
                    json.dump(surv, open(out, 'w'), indent=1)
                if k % 100 == 0:
                    print(k, len(surv), flush=True)
        for r in roots:
            shutil.rmtree(r)
    if cmd == 'checks':
        surv = json.load(open(sys.argv[2]))
        out = sys.argv[3]
        done = json.load(open(out)) if os.path.exists(out) else []
        have = {(m['file'], m['a'], m['b'], m['new']) for m in done}
        par = int(os.environ.get('PAR', '4'))
        roots = [scratch() for _ in range(par)]
        free = list(roots)

        def job(m):
            r = free.pop()
            try:
                apply(m, r)
                res = {}
                for p in PROPS[m['file']].split():
                    t = time.time()
                    try:
                        q = subprocess.run([V + '/run.py', p, '--tier', 'quick', '--procs', '3'], cwd=V, env=dict(os.environ, VP_REPO=r, VP_EVIDENCE=r + '/.ev'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
                        res[p] = q.returncode
                        tail = q.stdout.decode(errors='replace').strip().split('\n')
                        if q.returncode not in (0, 1):
                            res[p + '_why'] = next((l for l in tail if l.startswith('INCONCLUSIVE')), tail[-1])[:300]
                    except subprocess.TimeoutExpired:
                        res[p] = 'timeout'
                    if res[p] == 1:
                        break
                return dict(m, res=res)
            finally:
                shutil.copy(os.path.join(REPO, m['file']), os.path.join(r, m['file']))
                free.append(r)
        todo = [m for m in surv if (m['file'], m['a'], m['b'], m['new']) not in have]
        with ThreadPoolExecutor(par) as ex:
            for m in ex.map(job, todo):
                done.append(m)
                json.dump(done, open(out, 'w'), indent=1)
                caught = 1 in m['res'].values()
                print('%s %s:%d %s %s %s' % ('CAUGHT' if caught else 'MISSED', m['file'].split('/')[-1], m['line'], m['fn'], m['what'], '' if caught else {k: v for k, v in m['res'].items() if v}), flush=True)
        for r in roots:
            shutil.rmtree(r)


main()
