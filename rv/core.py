"""Task runner, verdicts and evidence.

A property module registers *cases*; a case is a function of a Ctx that builds
a hostile workload, runs the real code and lets an oracle decide what was
observed.  A *task* is one case with one index: everything random in it comes
from (VERIF_SEED, property, case, index), so a task can be replayed alone.
"""
import hashlib
import json
import logging
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
REPO = os.environ.get('RV_REPO', '/repo')


class Violation(Exception):
    def __init__(self, msg, key=None, /, **details):
        super().__init__(msg)
        self.msg, self.key, self.details = msg, key, details


class Skip(Exception):
    """The generated input is outside the domain of the property."""


class TaskTimeout(BaseException):
    """The wall clock ran out: no verdict."""


class TaskRunaway(BaseException):
    """The processor time ran out: the code under test does not end (tasks
    normally take well under 5 s of processor time)."""


class Case:
    def __init__(self, fn, quick, thorough, timeout, min_decided):
        self.fn = fn
        self.name = fn.__name__
        self.quick, self.thorough = quick, thorough
        self.timeout = timeout
        self.min_decided = min_decided


class Prop:
    """A property: its cases and what makes one of them non trivial."""

    def __init__(self, pid, rule, assumptions=(), scale=1):
        self.id, self.rule, self.scale = pid, rule, scale
        self.assumptions = list(assumptions)
        self.cases = {}

    def case(self, quick, thorough=None, timeout=240, min_decided=0.5):
        def deco(fn):
            assert fn.__name__ not in self.cases, fn.__name__
            self.cases[fn.__name__] = Case(
                fn, quick, quick*12 if thorough is None else thorough,
                timeout, min_decided)
            return fn
        return deco


def jsonable(x, depth=0):
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, (float, np.floating)):
        return float(x) if np.isfinite(x) else repr(float(x))
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (complex, np.complexfloating)):
        return repr(complex(x))
    if isinstance(x, np.ndarray):
        if x.size <= 36:
            return jsonable(x.tolist(), depth+1)
        return {'shape': list(x.shape), 'dtype': str(x.dtype),
                'sha': hashlib.sha1(np.ascontiguousarray(x)).hexdigest()[:12]}
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth+1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth+1) for v in x]
    return repr(x)[:200]


BOUNDARIES = sorted({r+d for r in [2**k for k in range(4, 17)] +
                     [a*10**k for k in (2, 3, 4) for a in (1, 2, 5)] +
                     [1000*k for k in range(1, 10)] for d in (-1, 0, 1)})


class Ctx:
    """What a case sees: seeded randomness, and the recorders of the monitors."""

    def __init__(self, pid, case, index, seed, tier):
        self.pid, self.case, self.index = pid, case, index
        self.tier = tier
        self.thorough = tier == 'thorough'
        h = hashlib.sha256(
            f'{seed}/{pid}/{case}/{index}'.encode()).digest()
        self.seed = int.from_bytes(h[:4], 'big')
        self.rng = np.random.RandomState(self.seed)
        np.random.seed(int.from_bytes(h[4:8], 'big'))
        self.events = {}
        self.sigs = set()
        self.samples = []
        self.checks = 0
        self.maxima = {}

    # -- recording ---------------------------------------------------------
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def sig(self, *parts):
        """Signature of one distinct, non-trivial situation that was judged."""
        self.sigs.add(repr(tuple(jsonable(p) for p in parts)))

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(jsonable(kw))

    # -- generation --------------------------------------------------------
    def pick(self, seq):
        return seq[self.rng.randint(len(seq))]

    def cyc(self, *seqs):
        """Element of the cartesian product selected by the task index, so
        that the combinations are covered systematically."""
        i, out = self.index, []
        for s in seqs:
            out.append(s[i % len(s)])
            i //= len(s)
        return out if len(out) > 1 else out[0]

    def integers(self, lo, hi):
        """Uniform; among many, one in four is next to a round number, where
        code that works by blocks has its corner cases."""
        if 100 <= hi-lo <= 100000 and self.rng.rand() < .25:
            near = [k for k in BOUNDARIES if lo <= k <= hi]
            if near:
                return int(self.pick(near))
        return int(self.rng.randint(lo, hi+1))

    # -- verdicts ----------------------------------------------------------
    def check(self, cond, msg, /, finding=None, **details):
        self.checks += 1
        if not bool(cond):
            raise Violation(msg, finding, **jsonable(details))

    def small(self, value, tol, msg, /, finding=None, **details):
        """value (an error measure) is at most tol; NaN is a violation."""
        self.checks += 1
        if np.ndim(tol):
            value, tol = np.asarray(value)/tol, 1.
        value = float(np.max(np.abs(value))) if np.size(value) else 0.
        k = msg[:60]
        if np.isfinite(value):
            self.maxima[k] = max(self.maxima.get(k, 0.), value/tol)
        if not value <= tol:
            raise Violation(msg, finding, **{
                **jsonable(details), 'value': value, 'tol': tol})

    def equal(self, a, b, msg, /, **details):
        """Bit-identical arrays (same shape, dtype kind and values)."""
        a, b = np.asarray(a), np.asarray(b)
        self.check(a.shape == b.shape and a.dtype.kind == b.dtype.kind and
                   np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'),
                   msg, **{**details, 'left': a, 'right': b})

    def close(self, a, b, tol, msg, /, **details):
        """|a-b| <= tol * max|b| (shapes must agree)."""
        a, b = np.asarray(a), np.asarray(b)
        self.check(a.shape == b.shape, msg + ' (shape)',
                   **{**details, 'left': a.shape, 'right': b.shape})
        scale = np.max(np.abs(b)) if b.size else 1.
        scale = scale if scale > 0 else 1.
        self.small((a-b)/scale if a.size else 0., tol, msg, **details)

    def raises(self, exceptions, fn, msg, /, **details):
        self.checks += 1
        try:
            res = fn()
        except exceptions:
            self.event('rejections observed')
            return
        raise Violation(msg, **{**jsonable(details),
                                'result': jsonable(res)})

    def skip(self, why):
        raise Skip(why)


# ---------------------------------------------------------------------------
# line coverage of the library, at negligible cost (PEP 669)
# ---------------------------------------------------------------------------
LINES = set()
_TOOL = 4


def start_coverage():
    try:
        mon = sys.monitoring
        root = os.path.join(REPO, 'robuststats') + os.sep

        def on_line(code, line):
            if code.co_filename.startswith(root):
                LINES.add((code.co_filename[len(root):], line))
            return mon.DISABLE
        mon.use_tool_id(_TOOL, 'rv')
        mon.register_callback(_TOOL, mon.events.LINE, on_line)
        mon.set_events(_TOOL, mon.events.LINE)
    except Exception:
        pass


# ---------------------------------------------------------------------------
# workers
# ---------------------------------------------------------------------------
CPU_LIMIT = 80.


def _alarm(signum, frame):
    raise TaskTimeout()


def _runaway(signum, frame):
    raise TaskRunaway()


def run_task(prop, case, index, seed, tier):
    ctx = Ctx(prop.id, case.name, index, seed, tier)
    res = {'case': case.name, 'index': index, 'status': 'held'}
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _runaway)
    signal.setitimer(signal.ITIMER_REAL, case.timeout)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    t0 = time.time()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            case.fn(ctx)
        if ctx.checks == 0:
            res['status'] = 'unobserved'
    except Skip as e:
        res.update(status='skipped', msg=str(e))
    except Violation as e:
        res.update(status='violated', msg=e.msg, key=e.key,
                   details=e.details, tb=traceback.format_exc()[-3000:])
    except TaskTimeout:
        res.update(status='timeout', msg=f'no verdict in {case.timeout} s')
    except TaskRunaway:
        res.update(status='violated', key=None, details={}, runaway=True,
                   msg=f'no result after {CPU_LIMIT} s of processor time',
                   tb=traceback.format_exc()[-3000:])
    except MemoryError:
        res.update(status='timeout', msg='out of memory')
    except Exception as e:
        # inputs are in the domain of the property: an exception is a failure
        # of the code under test to produce the promised result.
        res.update(status='violated', key=None,
                   msg=f'unexpected {type(e).__name__}: {e}'[:500],
                   details={}, tb=traceback.format_exc()[-3000:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
    res.update(events=ctx.events, sigs=ctx.sigs, samples=ctx.samples,
               checks=ctx.checks, maxima=ctx.maxima, wall=time.time()-t0)
    return res


def _silence():
    logging.disable(logging.NOTSET)
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.addHandler(logging.NullHandler())
    root.setLevel(logging.WARNING)


def _worker(prop, tasks, seed, tier, deadline, conn, quiet=True):
    if quiet:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    _silence()
    start_coverage()
    out = []
    for name, index in tasks:
        if deadline and time.time() > deadline:
            break
        out.append(run_task(prop, prop.cases[name], index, seed, tier))
        if sum(r.get('runaway', False) for r in out) >= 2:
            break
    conn.send((out, LINES))
    conn.close()


def known_findings(pid):
    keys = {}
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding='utf8') as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: property=' + pid + ' '):
                    rest = line.split(' ', 2)[2]
                    key, what = rest.split(' ', 1)
                    keys[key[len('key='):]] = what
    return keys


def executable_lines(files):
    """Lines with code per file, from the compiled code objects."""
    total = {}
    for rel in files:
        path = os.path.join(REPO, 'robuststats', rel)
        with open(path, encoding='utf8') as f:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                stack = [compile(f.read(), path, 'exec')]
        lines = set()
        first = True
        while stack:
            co = stack.pop()
            if not first:   # module level lines run at import
                lines |= {ln for _, _, ln in co.co_lines() if ln}
                lines.discard(co.co_firstlineno)
            first = False
            stack += [c for c in co.co_consts if hasattr(c, 'co_code')]
        total[rel] = lines
    return total


def run_property(prop, tier, seed, jobs=None, only=None, quiet=True):
    t0 = time.time()
    jobs = jobs or min(8, os.cpu_count() or 1)
    budget = float(os.environ.get('RV_BUDGET',
                                  '600' if tier == 'quick' else '3000'))
    tasks = []
    for case in prop.cases.values():
        if only and case.name not in only:
            continue
        n = case.quick if tier == 'quick' else case.thorough
        n *= prop.scale
        tasks += [(case.name, i) for i in range(n)]
    # deterministic shuffle so that the workers get balanced shares
    order = np.random.RandomState(12345).permutation(len(tasks))
    tasks = [tasks[i] for i in order]
    shares = [tasks[w::jobs] for w in range(jobs)]
    deadline = t0 + budget
    ctxmp = mp.get_context('fork')
    procs = []
    for share in shares:
        if not share:
            continue
        a, b = ctxmp.Pipe(duplex=False)
        p = ctxmp.Process(target=_worker,
                          args=(prop, share, seed, tier, deadline, b, quiet))
        p.start()
        b.close()
        procs.append((p, a, share))
    results, lines, lost = [], set(), 0
    for p, a, share in procs:
        try:
            out, ln = a.recv()
            results += out
            lines |= ln
        except EOFError:
            lost += len(share)
        p.join()
    return summarise(prop, tier, seed, results, len(tasks), lost, lines,
                     time.time()-t0, partial=bool(only))


def summarise(prop, tier, seed, results, planned, lost, lines, wall,
              partial=False):
    order = list(prop.cases)
    results.sort(key=lambda r: (order.index(r['case']), r['index']))
    known = known_findings(prop.id)
    per_case, events, sigs, samples, maxima = {}, {}, set(), [], {}
    violations, known_hits, inconclusive = [], {}, []
    for r in results:
        c = per_case.setdefault(r['case'], {})
        c[r['status']] = c.get(r['status'], 0) + 1
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        for k, v in r['maxima'].items():
            maxima[k] = max(maxima.get(k, 0), v)
        sigs |= {(r['case'], s) for s in r['sigs']}
        if r['samples'] and c.get('sampled', 0) < 2 and len(samples) < 24:
            c['sampled'] = c.get('sampled', 0) + 1
            samples.append({'case': r['case'], 'index': r['index'],
                            **r['samples'][0]})
        if r['status'] == 'violated':
            if r.get('key') and r['key'] in known:
                known_hits[r['key']] = known[r['key']]
            else:
                violations.append(r)
        elif r['status'] in ('timeout', 'unobserved'):
            inconclusive.append(r)
    for c in per_case.values():
        c.pop('sampled', None)
    ran = len(results)
    missing = planned - ran
    for name, c in per_case.items():
        decided = c.get('held', 0) + c.get('violated', 0)
        total = sum(c.values())
        if decided < prop.cases[name].min_decided * total:
            inconclusive.append({'case': name, 'index': -1, 'msg':
                                 f'only {decided}/{total} tasks decided'})
    files = sorted({f for f, _ in lines})
    cov = {}
    try:
        for f, all_lines in executable_lines(files).items():
            hit = {n for g, n in lines if g == f} & all_lines
            cov[f] = f'{len(hit)}/{len(all_lines)}'
    except Exception:
        pass
    evidence = {
        'property': prop.id, 'tier': tier, 'seed': int(seed),
        'level': 'exploration',
        'coverage': {
            'evaluations': sum(r['checks'] for r in results),
            'distinct_nontrivial': len(sigs),
            'rule': prop.rule,
            'samples': samples or [{'note': 'no task completed'}],
            'tasks_run': ran,
            'tasks_not_run': missing,
            'tasks_by_case': per_case,
            'observed_events': events,
            'largest_error_over_tolerance': {
                k: float(f'{v:.3g}') for k, v in sorted(
                    maxima.items(), key=lambda kv: -kv[1])[:25]},
            'library_lines_executed_in_functions': cov,
        },
        'assumptions': prop.assumptions,
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    if known_hits:
        evidence['coverage']['known_findings_observed'] = known_hits
    if not partial:
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, prop.id + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1, sort_keys=True)
    for key, what in sorted(known_hits.items()):
        print(f'KNOWN-FINDING: property={prop.id} {what} (key={key})')
    code = 0
    if violations:
        code = 1
        shown = set()
        for r in violations:
            tag = (r['case'], r['msg'][:40])
            if tag in shown or len(shown) >= 8:
                continue
            shown.add(tag)
            path = write_replay(prop, tier, seed, r)
            print(f'VIOLATION property={prop.id} replay={path}')
            print(f'  case={r["case"]}[{r["index"]}]: {r["msg"]} '
                  f'{json.dumps(r.get("details"))[:300]}')
        print(f'  {len(violations)} violated tasks in all')
    elif inconclusive or lost or not sigs or (missing and tier == 'quick'):
        code = 2
        print(f'INCONCLUSIVE property={prop.id}: lost={lost} '
              f'not run={missing} distinct={len(sigs)}')
        for r in inconclusive[:10]:
            print(f'  {r["case"]}[{r["index"]}]: {r.get("msg")}')
    print(f'{prop.id} tier={tier} seed={seed}: {ran} tasks, '
          f'{evidence["coverage"]["evaluations"]} checks, '
          f'{len(sigs)} distinct non-trivial situations, '
          f'{len(violations)} violated, {wall:.1f} s -> exit {code}')
    return code, results


def write_replay(prop, tier, seed, r):
    d = os.path.join(EVIDENCE, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{prop.id}-{r["case"]}-{r["index"]}.json')
    with open(path, 'w') as f:
        json.dump({'property': prop.id, 'case': r['case'],
                   'index': r['index'], 'seed': int(seed), 'tier': tier,
                   'message': r['msg'], 'details': r.get('details'),
                   'traceback': r.get('tb'),
                   'how': f'bash run.sh {prop.id} --replay {path}'},
                  f, indent=1)
    return path


def replay(prop, path):
    with open(path) as f:
        d = json.load(f)
    _silence()
    r = run_task(prop, prop.cases[d['case']], d['index'], d['seed'],
                 d['tier'])
    print(json.dumps(jsonable({k: r.get(k) for k in (
        'case', 'index', 'status', 'msg', 'details')}), indent=1))
    if r.get('tb'):
        print(r['tb'])
    if r['status'] == 'violated':
        print(f'VIOLATION property={prop.id} replay={path}')
        return 1
    return 0 if r['status'] == 'held' else 2
