"""Mutation analysis of the checks: tools/mutate.py [-j N] [--max N] [--seed S] --checks C02,C03 file...   (files relative to /repo/src/quanguru)

Small changes are made one at a time in scratch copies of /repo; each is run against short versions of the checks (stopping at the
first violation) and, when these stay quiet, against the repository's tests. What survives is listed in OUT (json lines) for review.
A tool for building the checks; no check uses it. Needs a root shell that may mount."""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = os.environ.get('MUT_SCR', '/tmp/mut')
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Pow: '*'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    offs, o = [], 0
    for l in lines:
        offs.append(o)
        o += len(l.encode()) + 1
    b = src.encode()

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        a, e = pos(n)
        return b[a:e].decode()
    out = []

    def add(n, new, what):
        a, e = pos(n)
        out.append((a, e, new, what, n.lineno))

    def doc(parent, n):
        return isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str)

    def visit(n, infunc):
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.JoinedStr)):
            return
        if isinstance(n, ast.Call) and getattr(n.func, 'attr', getattr(n.func, 'id', '')) in ('warn', 'print', 'TypeVar', 'checkVal', 'checkNotVal', 'checkCorType', 'setAttr', 'attrNotTypeWarn'):
            pass
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                pass
            infunc = True
        if infunc:
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                add(n, f'{seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])}', 'compare')
            if isinstance(n, ast.BinOp):
                if type(n.op) in BIN:
                    add(n, f'({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})', 'operator')
                if isinstance(n.op, (ast.MatMult, ast.Sub, ast.Div)):
                    add(n, f'(({seg(n.right)}) {"@" if isinstance(n.op, ast.MatMult) else "-" if isinstance(n.op, ast.Sub) else "/"} ({seg(n.left)}))', 'swapped')
                if isinstance(n.op, (ast.Add, ast.Mult, ast.MatMult)) and not isinstance(n.left, ast.Constant):
                    add(n, f'({seg(n.left)})', 'left only')
            if isinstance(n, ast.BoolOp):
                op = ' or ' if isinstance(n.op, ast.And) else ' and '
                add(n, '(' + op.join(seg(v) for v in n.values) + ')', 'and/or')
                for i in range(len(n.values)):
                    rest = [seg(v) for j, v in enumerate(n.values) if j != i]
                    add(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(rest) + ')', f'drop condition {i}')
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
                add(n, f'({seg(n.operand)})', 'unary')
            if isinstance(n, ast.Constant) and not isinstance(n.value, str):
                if n.value is True or n.value is False:
                    add(n, str(not n.value), 'constant')
                elif isinstance(n.value, int):
                    add(n, str(n.value + 1), 'constant')
                    if n.value == 1:
                        add(n, '0', 'constant')
                elif isinstance(n.value, (float, complex)):
                    add(n, f'({n.value!r}*1.5)', 'constant')
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and n.slice.value == 0:
                add(n, f'{seg(n.value)}[-1]', 'index')
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg:
                        args = [seg(a) for a in n.args] + [f'{x.arg}={seg(x.value)}' if x.arg else f'**{seg(x.value)}' for x in n.keywords if x is not k]
                        add(n, f'{seg(n.func)}({", ".join(args)})', f'drop {k.arg}=')
                if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                    args = [seg(n.args[1]), seg(n.args[0])] + [seg(a) for a in n.args[2:]] + [f'{x.arg}={seg(x.value)}' if x.arg else f'**{seg(x.value)}' for x in n.keywords]
                    add(n, f'{seg(n.func)}({", ".join(args)})', 'swap arguments')
                if getattr(n.func, 'id', getattr(n.func, 'attr', '')) in ('reversed', 'sorted', 'list', 'int', 'abs', 'hc', 'float', 'sqrt', 'tuple', 'conj', 'transpose', 'copy', 'deepcopy') and len(n.args) == 1 and not n.keywords:
                    add(n, f'({seg(n.args[0])})', f'drop {seg(n.func)}()')
                if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords and n.func.attr in ('copy', 'conj', 'conjugate', 'transpose', 'lower', 'getH'):
                    add(n, f'{seg(n.func.value)}', f'drop .{n.func.attr}()')
            if isinstance(n, ast.IfExp):
                add(n, f'({seg(n.body)})', 'if-expression: body')
                add(n, f'({seg(n.orelse)})', 'if-expression: else')
            if isinstance(n, (ast.ListComp, ast.DictComp, ast.GeneratorExp)):
                for g in n.generators:
                    for c in g.ifs:
                        add(c, 'True', 'no filter')
            if isinstance(n, (ast.If, ast.While)):
                add(n.test, '(True)' if isinstance(n, ast.If) else '(False)', 'condition')
                if isinstance(n, ast.If):
                    add(n.test, '(False)', 'condition')
            if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not doc(None, n):
                if not (isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)):
                    add(n, 'pass', 'delete statement')
            if isinstance(n, ast.Break):
                add(n, 'pass', 'no break')
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.FunctionDef) and (c in n.decorator_list or c is n.returns or isinstance(c, ast.arguments) and False):
                continue
            if isinstance(n, ast.arg):
                continue
            if isinstance(n, ast.AnnAssign) and c is n.annotation:
                continue
            visit(c, infunc)
    visit(tree, False)
    seen, res = set(), []
    for a, e, new, what, line in out:
        t = (b[:a] + new.encode() + b[e:]).decode()
        if t in seen or t == src:
            continue
        try:
            if ast.dump(ast.parse(t)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        seen.add(t)
        res.append((line, what, b[a:e].decode(), new, t))
    return res


INNER = r'''
import sys, os, importlib, time, json, random, atexit, shutil
sys.path.insert(0, '/repo/src'); sys.path.insert(0, '/verif')
from qgmon import core
import tempfile
os.environ['QGMON_SCRATCH'] = tempfile.mkdtemp(prefix='qgmut-')
atexit.register(shutil.rmtree, os.environ['QGMON_SCRATCH'], True)
known = {k['mech'] for k in json.load(open('/verif/known_findings.json'))['findings']}
pids, budget, seed = sys.argv[1].split(','), float(sys.argv[2]), int(sys.argv[3])
for pid in pids:
    mod = importlib.import_module('checks.' + pid)
    t0 = time.time()
    fams = list(mod.FAMILIES)
    jobs = []
    for f in fams:
        jobs += [(i / f[2], f[0], f[1], i) for i in range(f[2])]
    jobs.sort(key=lambda j: j[0])
    mod_fams = set()
    for n, (_, name, func, i) in enumerate(jobs):
        if time.time() - t0 > budget:
            break
        # every case in a fork, as in the real runner's short-lived workers
        r, w = os.pipe()
        p = os.fork()
        if p == 0:
            os.close(r)
            out = core.run_case(pid, name, func, seed, i, case_timeout=40)
            v = [x for x in out['violations'] if x['mech'] not in known]
            s = 'V ' + name + ': ' + v[0]['what'] if v else 'E ' + out['error'][-200:] if out['error'] else ''
            os.write(w, s.encode()[:2000])
            os._exit(0)
        os.close(w)
        s = os.read(r, 4000).decode()
        os.close(r)
        os.waitpid(p, 0)
        if s:
            print('KILLED', pid, s.replace('\n', ' ')[:200])
            sys.exit(0)
print('QUIET')
'''

TESTS = ('cd /repo && export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/opt/vp/plugins; '
         '/opt/venv/bin/python -m pytest -q -x --rootdir=/repo -p no:cacheprovider -p vp_seed --timeout=120 tests --ignore=tests/classes/Integration >{o} 2>&1 && '
         '/opt/venv/bin/python -m pytest -q -x --rootdir=/repo -p no:cacheprovider -p vp_seed --timeout=200 tests/classes/Integration >>{o} 2>&1')


def work(job):
    n, f, line, what, old, new, text, a = job
    import multiprocessing
    d = f'{SCR}/w{os.getpid()}'
    if not os.path.exists(d + '/repo'):
        os.makedirs(d, exist_ok=True)
        subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
        open(d + '/inner.py', 'w').write(INNER)
        os.makedirs(d + '/verif/replays')
        subprocess.run(f'cp -a {ROOT}/checks {ROOT}/qgmon {ROOT}/known_findings.json {d}/verif/', shell=True, check=True)
    p = f'{d}/repo/src/quanguru/{f}'
    orig = open(p).read()
    r = {'n': n, 'file': f, 'line': line, 'what': what, 'old': old[:160], 'new': new[:160]}
    pre = f'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && '
    env = 'export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0; '
    try:
        open(p, 'w').write(text)
        try:
            s = subprocess.run(['unshare', '-m', 'bash', '-c', env + pre + f'cd {d} && exec /opt/venv/bin/python -W ignore inner.py {a.checks} {a.budget} {a.seed}'],
                               capture_output=True, text=True, timeout=a.budget * len(a.checks.split(',')) * 3 + 200)
            l = [x for x in s.stdout.splitlines() if x.startswith(('KILLED', 'QUIET'))]
            r['checks'] = l[-1] if l else 'KILLED crash ' + s.stderr[-200:].replace('\n', ' ')
        except subprocess.TimeoutExpired:
            r['checks'] = 'KILLED timeout'
        if r['checks'] == 'QUIET' and a.tests:
            try:
                s = subprocess.run(['unshare', '-m', 'bash', '-c', env + pre + TESTS.format(o=d + '/t.log')], timeout=500)
                r['tests'] = 'pass' if s.returncode == 0 else 'fail'
            except subprocess.TimeoutExpired:
                r['tests'] = 'timeout'
    finally:
        open(p, 'w').write(orig)
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-j', type=int, default=7)
    ap.add_argument('--max', type=int, default=0)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float, default=15)
    ap.add_argument('--checks', required=True)
    ap.add_argument('--tests', action='store_true')
    ap.add_argument('--out', default='/tmp/mut/out.jsonl')
    ap.add_argument('--lines', default='')
    ap.add_argument('--again', default='', help='only the mutants this earlier output lists as quiet')
    ap.add_argument('files', nargs='+')
    a = ap.parse_args()
    os.makedirs(SCR, exist_ok=True)
    jobs = []
    for f in a.files:
        ms = mutants(open('/repo/src/quanguru/' + f).read())
        if a.lines:
            lo, hi = map(int, a.lines.split('-'))
            ms = [m for m in ms if lo <= m[0] <= hi]
        if a.again:
            old = [r for r in map(json.loads, open(a.again)) if r['file'] == f and r['checks'] == 'QUIET']
            ms = [m for m in ms if any(r['what'] == m[1] and r['old'] == m[2][:160] and r['new'] == m[3][:160] and abs(r['line'] - m[0]) < 15 for r in old)]
        jobs += [(f,) + m for m in ms]
    random.Random(a.seed).shuffle(jobs)
    if a.max:
        jobs = jobs[:a.max]
    print(len(jobs), 'mutants')
    n = {'killed': 0, 'quiet': 0}
    with cf.ProcessPoolExecutor(a.j) as ex, open(a.out, 'a') as o:
        for t in cf.as_completed([ex.submit(work, (i,) + j + (a,)) for i, j in enumerate(jobs)]):
            r = t.result()
            k = 'quiet' if r['checks'] == 'QUIET' else 'killed'
            n[k] += 1
            o.write(json.dumps(r) + '\n')
            o.flush()
            if k == 'quiet':
                print(r['file'], r['line'], r['what'], '|', r['old'][:90].replace('\n', ' '), '->', r['new'][:90].replace('\n', ' '), '|', r.get('tests', ''), flush=True)
    print(n)
    for x in os.listdir(SCR):
        if x.startswith('w'):
            shutil.rmtree(f'{SCR}/{x}', ignore_errors=True)


main()
