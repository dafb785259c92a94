"""C29: progress reports and printed matrices tell the truth.

The monitors parse what is written to the standard streams and to the log and
compare it with the run that was observed: the iterations done, the errors of
the same run stopped earlier, the samples consumed, the costs.
"""
import contextlib
import io
import logging
import re

import numpy as np

from .. import gen
from ..core import Prop
from ..lib import TYLER, STUDENT, HUBER, TYLER_FP, STUDENT_FP, HUBER_FP, \
    EMPIRICAL, structured, online, manifolds, verbose, log_records, frozen

C29 = Prop('C29', 'distinct (reporting code, field, number of reports) whose '
           'text was parsed and compared with the run it describes',
           assumptions=['a report drawn between two iterations may pair the '
                        'new count with the previous error; the last report '
                        'may not'], scale=8)

MM = structured.estimation_cov_kronecker_MM
REPORT = re.compile(r'err=([^)]*)\).*?(\d+)/(\d+)')
COUNT = re.compile(r'(\d+)/(\d+)')


@contextlib.contextmanager
def streams():
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        yield out, err


def reports(text):
    """(error, count, total) of every progress report in a text."""
    return [(float(e), int(k), int(n)) for e, k, n in REPORT.findall(
        text.replace('\r', '\n'))]


def judge(ctx, found, errors, total, what):
    """Reports of a run whose k-th iteration had the error errors[k-1]."""
    ctx.event('reports observed', len(found))
    last = len(errors)
    ctx.check(len(found) > 0, f'{what}: no report')
    counts = [k for _, k, _ in found]
    ctx.check(counts == sorted(counts) and counts[0] >= 1,
              f'{what}: iterations are not reported in order', counts=counts)
    ctx.check(counts[-1] == last, f'{what}: the last report is not the last '
              'iteration', got=counts[-1], want=last)
    for e, k, n in found:
        ctx.check(n == total, f'{what}: wrong total', got=n, want=total)
        ctx.check(k <= last, f'{what}: more iterations than done', k=k)
        near = errors[max(k-2, 0):k]
        ctx.check(any(abs(e-x) <= 1e-6*(abs(x)+1e-12) for x in near),
                  f'{what}: the error reported is not that of the iteration',
                  k=k, got=e, want=near)
    e = found[-1][0]
    ctx.check(abs(e-errors[-1]) <= 1e-6*(abs(errors[-1])+1e-12),
              f'{what}: the last error reported is not the final one', got=e,
              want=errors[-1])


FP = {'tyler': (TYLER, TYLER_FP), 'student': (STUDENT, STUDENT_FP),
      'huber': (HUBER, HUBER_FP)}


def parameters(ctx, kind):
    if kind == 'student':
        return {'df': ctx.pick((.5, 2., 10.))}
    return {'q': ctx.pick((.3, .8))} if kind == 'huber' else {}


@C29.case(quick=48)
def fixed_points(ctx):
    kind, cplx, iface = ctx.cyc(tuple(FP), (False, True),
                                ('class', 'function'))
    p = ctx.integers(1, 5)
    X = gen.samples(ctx.rng, 5*p+ctx.integers(6, 30), p, cplx,
                    ctx.pick(gen.LAWS))
    par = parameters(ctx, kind)
    tol, total = 10.**ctx.rng.uniform(-7, -1), ctx.integers(1, 40)

    def run(k, verb):
        if iface == 'class':
            e = FP[kind][0][cplx](tol=tol, iter_max=k, verbosity=verb, **par)
            e.fit(frozen(X))
            return e.err_, e.iteration_
        return FP[kind][1][cplx](frozen(X), tol=tol, iter_max=k,
                                 verbosity=verb, **par)[1:]
    with streams() as (out, err):
        e, it = run(total, True)
    found = reports(err.getvalue()+out.getvalue())
    errors = []
    with streams() as (out, err):
        for k in range(1, it+1):
            errors.append(run(k, False)[0])
    ctx.check(not out.getvalue().strip() and not err.getvalue().strip(),
              'a fit that is not verbose prints something', kind=kind)
    ctx.check(abs(errors[-1]-e) <= 1e-9*(abs(e)+1e-12),
              'verbosity changes the error')
    judge(ctx, found, errors, total, 'progress')
    ctx.sig(kind, cplx, iface, len(found), total)


@C29.case(quick=32)
def kronecker(ctx):
    """On the terminal when verbose, in the log otherwise."""
    cplx, verb, iface = ctx.cyc((True, False), (True, False),
                                ('class', 'function'))
    a, b = ctx.integers(1, 3), ctx.integers(1, 3)
    X = gen.samples(ctx.rng, 4*a*b+9, a*b, cplx, ctx.pick(gen.LAWS[:4]))
    tol, total = 10.**ctx.rng.uniform(-6, -1), ctx.integers(1, 30)
    with streams() as (out, err), log_records() as rec:
        if iface == 'class' and cplx:
            structured.KroneckerEllipticalMM(
                a, b, tol=tol, iter_max=total, verbosity=verb).fit(X)
        else:
            MM(X, a, b, tol=tol, iter_max=total, verbosity=verb)
    text = '\n'.join(r.getMessage() for r in rec if r.levelname == 'INFO')
    with streams(), log_records(logging.ERROR):
        it = MM(X, a, b, tol=tol, iter_max=total)[3]
        errors = [MM(X, a, b, tol=tol, iter_max=k)[2]
                  for k in range(1, it+1)]
    if verb:
        judge(ctx, reports(err.getvalue()), errors, total, 'progress')
    else:
        judge(ctx, reports(text), errors, total, 'logged progress')
        ctx.check(not out.getvalue().strip() and not err.getvalue().strip(),
                  'a fit that is not verbose prints something')
    ctx.sig('mm', cplx, verb, iface, len(errors), total)


@C29.case(quick=32)
def streaming(ctx):
    """Samples consumed, and the cost of the estimate after each."""
    with_cost, verb = ctx.cyc((True, False), (True, True, False))
    p, n = ctx.integers(1, 4), ctx.integers(1, 40)
    X = gen.randn(ctx.rng, (n, p), True)
    trace = []

    def cost(data, estimate):
        ctx.check(np.shape(data) == (n, p), 'cost of other data')
        ctx.equal(data, X, 'cost of other data')
        trace.append(float(np.real(np.trace(estimate))))
        return trace[-1]
    e = online.StochasticGradientCovarianceEstimator(
        manifolds.HermitianPositiveDefinite(p),
        lambda x, t: x.T@x.conj()/(1+np.sum(np.abs(x)**2))-.5*t, .3,
        cost=cost if with_cost else None, verbosity=verb)
    with streams() as (out, err):
        e.fit(X, init=np.eye(p, dtype=complex))
    text = err.getvalue().replace('\r', '\n')
    if not verb:
        ctx.check(not text.strip() and not out.getvalue().strip(),
                  'a fit that is not verbose prints something')
    else:
        counts = [int(k) for k, m in COUNT.findall(text) if int(m) == n]
        ctx.check(counts == sorted(counts) and counts and counts[-1] == n,
                  'samples reported', counts=counts, n=n)
        if with_cost:
            final = float(np.real(np.trace(e.estimate_)))
            ctx.small(trace[-1]-final, 1e-9*(1+abs(final)),
                      'the last cost is not that of the estimate')
            judge(ctx, reports(text), trace, n, 'cost')
        ctx.event('reports observed', len(counts))
    ctx.sig('online', with_cost, verb, n)


@C29.case(quick=24)
def silence(ctx):
    """Estimators print nothing unless asked to, and say when they
    overwrite a fit if asked to."""
    kind, cplx = ctx.cyc(('tyler', 'student', 'huber', 'empirical',
                          'natural gradient', 'kron student'), (False, True))
    cplx = cplx or kind == 'kron student'
    p = 4 if kind == 'kron student' else ctx.integers(2, 4)
    X = gen.samples(ctx.rng, 8*p, p, cplx)
    verb = {'kron student': {'verbosity': 0}, 'empirical': {}}.get(
        kind, {'verbosity': False})
    cls = {'tyler': TYLER, 'natural gradient': TYLER, 'student': STUDENT,
           'huber': HUBER, 'empirical': EMPIRICAL}.get(kind)
    if kind == 'kron student':
        e = structured.KroneckerStudent(2, 2, 3., **verb)
    elif kind == 'natural gradient':
        e = cls[cplx](method=kind, **verb)
    else:
        e = cls[cplx](**parameters(ctx, kind), **verb)
    with streams() as (out, err), log_records(logging.WARNING) as rec:
        e.fit(X)
        if kind != 'kron student':
            e.fit(X)
    ctx.check(not out.getvalue().strip() and not err.getvalue().strip(),
              'a fit that is not verbose prints something', kind=kind,
              text=(out.getvalue()+err.getvalue())[:200])
    ctx.check(not rec, 'a converged fit that is not verbose warns',
              kind=kind, text=[r.getMessage() for r in rec][:3])
    if kind in FP:
        v = cls[cplx](verbosity=True, **parameters(ctx, kind))
        with streams(), log_records(logging.WARNING) as rec:
            v.fit(X)
        ctx.check(not rec, 'a first fit warns', kind=kind)
        with streams(), log_records(logging.WARNING) as rec:
            v.fit(X)
        ctx.check(len(rec) == 1, 'a verbose fit does not say that it '
                  'overwrites another', kind=kind)
    ctx.sig('silence', kind, cplx, p)


class Records(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.records = []

    def emit(self, record):
        self.records.append(record)


@C29.case(quick=32)
def logged_bars(ctx):
    """A logged progress bar writes to its logger, as INFO, counts up, and
    yields the elements of what it wraps."""
    given, kind, level = ctx.cyc((True, False), ('iterable', 'manual'),
                                 (logging.INFO, logging.WARNING))
    n = ctx.integers(1, 12)
    log = logging.getLogger(f'rv.reports.{ctx.index}') if given else \
        verbose.LOGGER
    h = Records()
    old = log.level, log.propagate
    log.addHandler(h)
    log.setLevel(level)
    log.propagate = False
    kw = {'logger': log} if given else {}
    if ctx.integers(0, 1):
        kw['desc'] = 'stage: '
    items = [object() for _ in range(n)]
    try:
        with streams() as (out, err):
            if kind == 'iterable':
                bar = verbose.logging_tqdm(items, mininterval=0, miniters=1,
                                           **kw)
                ctx.check(bar.logger is log, 'logger of the bar')
                got = list(bar)
                ctx.check(len(got) == n and all(
                    a is b for a, b in zip(got, items)),
                    'elements of the iterable')
            else:
                bar = verbose.logging_tqdm(total=n, **kw)
                for k in range(n):
                    bar.update()
                    bar.refresh()
                ctx.check(bar.n == n, 'count of the bar')
            bar.close()
    finally:
        log.removeHandler(h)
        log.setLevel(old[0])
        log.propagate = old[1]
    ctx.check(not out.getvalue() and not err.getvalue().strip(),
              'a logged bar prints', text=err.getvalue()[:200])
    rec = h.records
    if level > logging.INFO:
        ctx.check(not rec, 'progress is logged above INFO')
    else:
        ctx.check(all(r.levelno == logging.INFO for r in rec), 'level')
        text = [r.getMessage() for r in rec]
        counts = [int(COUNT.search(t).group(1)) for t in text]
        ctx.check(bool(counts) and counts[-1] == n, 'the last message is not '
                  'the last step', counts=counts, n=n)
        ctx.check(counts == sorted(counts) and counts[0] > 0,
                  'messages are in order and start with progress',
                  counts=counts)
        ctx.check(all(t.startswith(kw.get('desc', 'progress: '))
                      for t in text), 'description of the bar', text=text[:2])
        ctx.check(f'{100*n//n}%' in text[-1], 'percentage', text=text[-1])
        ctx.event('reports observed', len(rec))
    ctx.sig('bar', given, kind, level, n)


def parse(word):
    return complex(word) if 'j' in word else float(word)


@C29.case(quick=48)
def printed_matrices(ctx):
    kind, fmt = ctx.cyc(('real', 'complex', 'integer', 'extreme', 'sparse'),
                        ('g', '.3f', '.12e', 'default'))
    m, n = ctx.integers(1, 7), ctx.integers(1, 7)
    r = ctx.rng
    A = gen.randn(r, (m, n), kind == 'complex')*10.**r.randint(-2, 3)
    if kind == 'integer':
        A = r.randint(-10**r.randint(1, 9), 10**6, (m, n))
    elif kind == 'extreme':
        A = A*10.**r.randint(-9, 10, (m, n))
    elif kind == 'sparse':
        A = np.where(r.rand(m, n) < .6, 0., A)
    if ctx.integers(0, 2) == 0:
        A = np.asfortranarray(A)
    keep = A.copy()
    with streams() as (out, err):
        if fmt == 'default':
            verbose.matprint(A)
        else:
            verbose.matprint(A, fmt)
    ctx.equal(A, keep, 'printing changes the matrix')
    fmt = 'g' if fmt == 'default' else fmt
    lines = out.getvalue().split('\n')
    ctx.check(lines[-1] == '' and len(lines) == m+1, 'one line per row',
              lines=len(lines), rows=m)
    for i in range(m):
        words = lines[i].split()
        ctx.check(len(words) == n, 'one word per entry', line=lines[i])
        for j in range(n):
            ctx.check(words[j] == ('{:'+fmt+'}').format(A[i, j]),
                      'entries are printed in place', i=i, j=j,
                      got=words[j], want=str(A[i, j]))
    ctx.check(len({len(x) for x in lines[:-1]}) == 1,
              'rows of different widths', text=lines[:3])
    # columns end at the same place in every row
    ends = [[w.end() for w in re.finditer(r'\S+', x)] for x in lines[:-1]]
    ctx.check(all(e == ends[0] for e in ends), 'columns are not aligned',
              text=lines[:3])
    ctx.event('printed entries observed', m*n)
    ctx.sig('matrix', kind, fmt, m, n)


PROPS = {'C29': C29}
