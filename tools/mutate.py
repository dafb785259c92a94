"""python3 tools/mutate.py list|run [FILE...] [--seed N] [--jobs N]
python3 tools/mutate.py again LOG [FILE...]: survivors of a log, all tasks

Systematic mutation of the library: every mutant is a one-place change of the
syntax tree, run against a small share of the tasks of the relevant checks.
A development tool: survivors are read by hand (equivalent or blind spot).
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import warnings
from concurrent.futures import ThreadPoolExecutor

warnings.simplefilter('ignore')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = '/repo/robuststats'
TMP = '/tmp/w/mut'
MAP = {
    'estimation/covariance.py': 'C01 C03 C04 C09 C07 C08 C13 C22 C27 C28 C02 '
                                'C05 C06 C21 C29 C30',
    'estimation/base.py': 'C20 C21 C27 C28 C05 C22',
    'estimation/structured.py': 'C14 C15 C09 C22 C27 C28 C29 C30',
    'models/cost.py': 'C13 C08', 'models/manifolds.py':
    'C16 C17 C18 C19 C15 C23', 'models/mappings.py': 'C10 C11 C12 C08',
    'models/probability.py': 'C11 C12 C15 C03',
    'online/estimation.py': 'C23 C28 C27 C22',
    'utils/backend.py': 'C13 C24', 'utils/checking.py': 'C28 C20',
    'utils/generation_data.py': 'C25', 'utils/linalg.py': 'C24 C16 C01',
    'utils/montecarlo.py': 'C26', 'utils/verbose.py': 'C29'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in',
       ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*',
       ast.FloorDiv: '*', ast.Mod: '+'}
DROP = {'conj', 'conjugate', 'real', 'copy', 'deepcopy', 'transpose', 'sqrt',
        'abs', 'ravel', 'multiherm', 'multihconj', 'multitransp', 'astype',
        'squeeze', 'reshape', 'asarray', 'array', 'atleast_1d', 'atleast_2d',
        'inv', 'log', 'exp', 'sum', 'herm', 'clone', 'check_array'}


def mutants(rel):
    path = os.path.join(PKG, rel)
    src = open(path, encoding='utf8').read()
    lines = src.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1]+len(ln.encode()))
    raw = src.encode()

    def pos(n):
        return (starts[n.lineno-1]+n.col_offset,
                starts[n.end_lineno-1]+n.end_col_offset)

    def text(n):
        a, b = pos(n)
        return raw[a:b].decode()
    out = []

    def add(n, new, what):
        a, b = pos(n)
        if raw[a:b].decode() != new:
            out.append((n.lineno, what, a, b, new))
    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip |= set(ast.walk(n))
        if isinstance(n, ast.If) and 'verbos' in text(n.test):
            for b in n.body:
                skip |= set(ast.walk(b))
        if isinstance(n, ast.Call) and ('logging.' in text(n.func) or
                                        'tqdm' in text(n.func)):
            skip |= set(ast.walk(n)) - {n}
        if isinstance(n, (ast.Raise, ast.JoinedStr)):
            skip |= set(ast.walk(n)) - {n}
        if isinstance(n, ast.FunctionDef) and n.name in ('__str__',
                                                         '__repr__'):
            skip |= set(ast.walk(n))
    for n in ast.walk(tree):
        if n in skip or not hasattr(n, 'lineno'):
            continue
        t = text(n)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = CMP[type(n.ops[0])]
            add(n, f'{text(n.left)} {o} {text(n.comparators[0])}', 'cmp')
        elif isinstance(n, ast.BinOp):
            left, right = text(n.left), text(n.right)
            if type(n.op) in BIN:
                add(n, f'(({left}) {BIN[type(n.op)]} ({right}))', 'binop')
            elif isinstance(n.op, ast.MatMult):
                add(n, f'({right})@({left})', 'swap')
        elif isinstance(n, ast.UnaryOp):
            if not isinstance(n.operand, ast.Constant) or isinstance(
                    n.op, ast.USub):
                add(n, f'({text(n.operand)})', 'unary')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, o.join('('+text(v)+')' for v in n.values), 'bool')
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, str(not v), 'const')
            elif isinstance(v, int):
                add(n, str(v+1), 'const')
                if v > 0:
                    add(n, str(v-1), 'const')
            elif isinstance(v, (float, complex)):
                add(n, f'({t}*1.5+.01)', 'const')
        elif isinstance(n, ast.If):
            add(n.test, 'True', 'if')
            add(n.test, 'False', 'if')
        elif isinstance(n, ast.IfExp):
            add(n.test, 'True', 'if')
            add(n.test, 'False', 'if')
        elif isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(
                f, 'id', '')
            if name in DROP:
                mod = isinstance(f, ast.Attribute) and isinstance(
                    f.value, ast.Name) and f.value.id in (
                        'np', 'be', 'la', 'linalg', 'copy', 'autonp')
                if isinstance(f, ast.Attribute) and not mod:
                    add(n, f'({text(f.value)})', 'drop ' + name)
                elif n.args:
                    add(n, f'({text(n.args[0])})', 'drop ' + name)
            for k in n.keywords:
                if k.arg:
                    rest = [text(a) for a in n.args]
                    rest += [(f'{j.arg}=' if j.arg else '**')+text(j.value)
                             for j in n.keywords if j is not k]
                    add(n, f'{text(f)}({", ".join(rest)})', 'kw '+k.arg)
        elif isinstance(n, ast.Attribute) and n.attr in ('T', 'real', 'imag'):
            if isinstance(n.ctx, ast.Load):
                add(n, f'({text(n.value)})', 'drop .'+n.attr)
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            add(n, 'pass', 'delete')
        elif isinstance(n, ast.Return) and n.value is not None:
            pass
    res = []
    for i, (ln, what, a, b, new) in enumerate(out):
        m = raw[:a]+new.encode()+raw[b:]
        try:
            compile(m, 'x', 'exec')
        except SyntaxError:
            continue
        res.append(dict(id=f'{rel}:{ln}:{what}:{i}', rel=rel, line=ln,
                        what=what, a=a, b=b, new=new, old=raw[a:b].decode()))
    return res, raw


def one(props, seed, share, limit):
    """In the process of a mutant: first violation of the given checks."""
    import time
    import importlib
    import numpy as np
    from rv import core
    from rv.props import REGISTRY
    core._silence()
    core.CPU_LIMIT = 20
    t0 = time.time()
    for pid in props:
        prop = importlib.import_module(
            'rv.props.' + REGISTRY[pid]).PROPS[pid]
        for case in prop.cases.values():
            n = case.quick*prop.scale
            k = min(n, max(20, int(n*share)))
            idx = np.random.RandomState(seed).permutation(n)[:k]
            t1 = time.time()
            for i in idx:
                if time.time()-t1 > limit:
                    break
                r = core.run_task(prop, case, int(i), seed, 'quick')
                if r['status'] == 'violated':
                    print('KILLED', pid, case.name, int(i), r['msg'][:90])
                    return
    print('SURVIVED', round(time.time()-t0))


def run(m, raw, seed, share, limit):
    k = str(abs(hash(m['id'])) % 10**12)
    d = os.path.join(TMP, k)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(PKG, os.path.join(d, 'robuststats'),
                    ignore=shutil.ignore_patterns('__pycache__'))
    with open(os.path.join(d, 'robuststats', m['rel']), 'wb') as f:
        f.write(raw[:m['a']]+m['new'].encode()+raw[m['b']:])
    env = dict(os.environ, PYTHONPATH=f'{VERIF}:{d}', RV_REPO=d,
               PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1',
               OMP_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONHASHSEED='0')
    try:
        p = subprocess.run(
            ['/opt/venv/bin/python', '-W', 'ignore', __file__, 'one',
             json.dumps([MAP[m['rel']].split(), seed, share, limit])],
            env=env, cwd=d, capture_output=True, text=True, timeout=1500)
        out = [ln for ln in p.stdout.splitlines()
               if ln.startswith(('KILLED', 'SURVIVED'))]
        v = out[-1] if out else f'DIED {p.returncode} ' + \
            p.stderr.strip().splitlines()[-1][:100]
    except subprocess.TimeoutExpired:
        v = 'TIMEOUT'
    shutil.rmtree(d, ignore_errors=True)
    return v


def main():
    a = sys.argv[1:]
    if a[0] == 'one':
        return one(*json.loads(a[1]))
    opt = {'--seed': '1', '--jobs': '8', '--share': '.03', '--limit': '4'}
    for o in opt:
        if o in a:
            i = a.index(o)
            opt[o] = a[i+1]
            del a[i:i+2]
    todo, again = [], None
    if a[0] == 'again':
        again = {ln.split(" '")[0].split(' "')[0].split(' ', 1)[1]
                 for ln in open(a.pop(1)) if ln.startswith('SURVIVED')}
        again = {k.rsplit(':', 1)[0] for k in again}
        opt['--share'], opt['--limit'] = '1', '60'
    files = a[1:] or list(MAP)
    for rel in files:
        ms, raw = mutants(rel)
        todo += [(m, raw) for m in ms if again is None or
                 m['id'].rsplit(':', 1)[0] in again]
    if a[0] == 'list':
        for m, _ in todo:
            print(m['id'], repr(m['old'][:50]), '->', repr(m['new'][:50]))
        print(len(todo))
        return
    os.makedirs(TMP, exist_ok=True)

    def f(x):
        v = run(*x, int(opt['--seed']), float(opt['--share']),
                float(opt['--limit']))
        m = x[0]
        print(f'{v.split()[0]} {m["id"]} {m["old"][:60]!r} -> '
              f'{m["new"][:60]!r} {v}', flush=True)
    with ThreadPoolExecutor(int(opt['--jobs'])) as ex:
        list(ex.map(f, todo))


if __name__ == '__main__':
    main()
