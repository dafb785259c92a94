"""python3 tools/plant.py make|test|matrix [ids...]

make:   write seeded/<id>/ (patch.diff, demo.sh, demo.py, meta.json)
test:   in scratch copies: the demo passes without and fails with the patch,
        the stable tests pass, only original lines are changed
catch:  run the check of the property on the patched scratch copy
matrix: run every check on every patched copy
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs import BUGS  # noqa

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
TMP = '/tmp/w/plant'
BASE = 'dbb61bb'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
           MKL_NUM_THREADS='1', MPLBACKEND='Agg')
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 on the unchanged tree, 1 with the patch
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV,
                       capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def copy(name):
    d = os.path.join(TMP, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(TMP, exist_ok=True)
    sh(f'cp -a /repo {d}')
    return d


def make(id):
    b = BUGS[id]
    d = copy('make-' + id)
    path = os.path.join(d, b['file'])
    with open(path, encoding='utf8') as f:
        s = f.read()
    for old, new in b['edits']:
        n = s.count(old)
        if not n or (n > 1 and not b['all']):
            # several twin functions: take the first occurrence
            if not n:
                shutil.rmtree(d)
                return f'{id}: edit not found: {old[:60]!r}'
        s = s.replace(old, new) if b['all'] else s.replace(old, new, 1)
    with open(path, 'w', encoding='utf8') as f:
        f.write(s)
    _, diff = sh('git diff', cwd=d)
    out = os.path.join(SEEDED, id)
    os.makedirs(out, exist_ok=True)
    for name, text in (('patch.diff', diff), ('demo.sh', DEMO),
                       ('demo.py', b['demo'].lstrip()),
                       ('meta.json', json.dumps(
                           {'property': b['property'], 'needs': b['needs'],
                            'what_it_breaks': b['breaks']}, indent=1) + '\n')):
        with open(os.path.join(out, name), 'w', encoding='utf8') as f:
            f.write(text)
    # lines removed must be original
    msg = ''
    removed = [ln for ln in diff.splitlines()
               if ln.startswith('-') and not ln.startswith('---')]
    line, mine = None, []
    for ln in diff.splitlines():
        if ln.startswith('@@'):
            line = int(ln.split()[1][1:].split(',')[0])
        elif line is not None:
            if ln.startswith('-'):
                _, bl = sh(f'git blame -s -L{line},{line} HEAD -- '
                           f'{b["file"]}', cwd=d)
                rev = bl.split()[0]
                rc, _ = sh(f'git merge-base --is-ancestor '
                           f'{rev.lstrip("^")} {BASE}', cwd=d)
                if rc:
                    mine.append(bl.strip()[:100])
                line += 1
            elif not ln.startswith('+'):
                line += 1
    if mine:
        msg += f' changes lines of fix commits: {mine}'
    if not removed:
        msg += ' only adds lines'
    shutil.rmtree(d)
    return f'{id}: made{msg}'


def stable():
    with open('/opt/vp/BASELINE.json') as f:
        return json.load(f)['stable']


def test(id, tests=True):
    d = copy('test-' + id)
    try:
        demo = os.path.join(TMP, 'demo-' + id)
        shutil.rmtree(demo, ignore_errors=True)
        os.makedirs(demo)
        for f in ('demo.sh', 'demo.py'):
            shutil.copy(os.path.join(SEEDED, id, f), demo)
        r0, o0 = sh(f'bash {demo}/demo.sh', cwd=d)
        rc, o = sh(f'git apply {SEEDED}/{id}/patch.diff', cwd=d)
        if rc:
            return f'{id}: patch does not apply {o}'
        r1, o1 = sh(f'bash {demo}/demo.sh', cwd=d)
        shutil.rmtree(demo)
        bad = []
        if tests:
            env = dict(ENV, PYTHONPATH=d)
            xml = os.path.join(TMP, id + '.xml')
            sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider '
               f'--timeout=300 --junitxml={xml} -o junit_family=xunit2 tests',
               cwd=d, env=env)
            import xml.etree.ElementTree as ET
            ok = set()
            for c in ET.parse(xml).getroot().iter('testcase'):
                if not list(c):
                    ok.add(f'{c.get("classname")}::{c.get("name")}')
                elif all(x.tag not in ('failure', 'error', 'skipped')
                         for x in c):
                    ok.add(f'{c.get("classname")}::{c.get("name")}')
            bad = [t for t in stable() if t not in ok]
            os.remove(xml)
        v = 'GOOD' if r0 == 0 and r1 != 0 and not bad else 'BAD'
        return (f'{id}: {v} demo {r0}/{r1} stable failures {bad[:4]}'
                + (f' {o0[-300:]}' if r0 else '')
                + (f' :: {o1.strip().splitlines()[-1][:100]}' if r1 and o1.strip()
                   else ''))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def catch(id, props=None):
    d = copy('catch-' + id)
    try:
        rc, o = sh(f'git apply {SEEDED}/{id}/patch.diff', cwd=d)
        if rc:
            return f'{id}: patch does not apply {o}'
        with open(os.path.join(SEEDED, id, 'meta.json')) as f:
            own = json.load(f)['property']
        res = []
        first = ''
        for p in props or [own]:
            rc, o = sh(f'bash {VERIF}/run.sh {p} --tier quick --seed 1',
                       env=dict(ENV, RV_REPO=d), timeout=1200)
            hit = rc == 1 and f'VIOLATION property={p} ' in o
            if hit and p == own:
                first = [ln for ln in o.splitlines()
                         if ln.startswith('  case=')][0][:140]
            if hit:
                res.append(p)
            elif rc not in (0, 1):
                res.append(f'{p}?{rc}')
        return (f'{id}: {"CAUGHT" if own in res else "MISSED"} by {own}; '
                f'all hits: {" ".join(res)} {first}')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    cmd, ids = sys.argv[1], sys.argv[2:] or list(BUGS)
    if cmd == 'make':
        for i in ids:
            print(make(i), flush=True)
    elif cmd == 'test':
        with ThreadPoolExecutor(7) as ex:
            for m in ex.map(test, ids):
                print(m, flush=True)
    elif cmd == 'catch':
        for i in ids:
            print(catch(i), flush=True)
    elif cmd == 'matrix':
        props = [f'C{i:02d}' for i in range(1, 32)]
        for i in ids:
            print(catch(i, props), flush=True)


if __name__ == '__main__':
    main()
