"""P15: the iterations of the second-order von Neumann approach keep their history and resume exactly."""
import copy

import numpy as np

from qmon import gen, sysutil, work
from qmon.mon import Inconclusive

RULE = ('A case counts when a sequence of resumed, interrupted, repeated or restarted solutions was compared with one '
        'uninterrupted solution of a fresh system, iteration by iteration.')
ASSUMPTIONS = ['the equations of every iteration have a unique solution (gap > 1e-9)',
               'parameters are changed only together with a restart']
KINDS = ['resume', 'history', 'restart', 'fault', 'resume', 'restart']
REQUIRED = {'quick': {'different-bands': 60, 'resumed': 120, 'faults': 60, 'restarted': 200, 'check:snapshot': 400, 'check:record': 1500,
                      'iterations': 2500, 'meanwhile': 40, 'changed': 150, 'one-edge': 15},
            'thorough': {'resumed': 1500}}
BUDGET = {'quick': 300, 'thorough': 5400}
FIELDS = ('phi0', 'phi1', 'current', 'energy_current', 'heat_current')


def cases(tier, seed):
    num = 1300 if tier == 'quick' else 9000
    return [dict(kind=KINDS[k % len(KINDS)], seed=seed*100003+k) for k in range(num)]


class Stop(Exception):
    pass


def state(x):
    return {f: np.array(getattr(x, f)) for f in FIELDS}


class Watch(object):
    """func_iter: what the solution looked like after every iteration."""

    def __init__(self, stop=None):
        self.seen, self.niter, self.stop = [], [], stop

    def __call__(self, appr):
        self.seen.append(state(appr))
        self.niter.append(appr.niter)
        if self.stop is not None and len(self.seen) == self.stop:
            raise Stop()


def run(s, niter, watch=None, **kw):
    with sysutil.quiet(), np.errstate(all='ignore'):
        s.solve(niter=niter, func_iter=watch, **kw)


def same(mon, kind, a, b, what, tol):
    for f in FIELDS:
        sc = max(1e-300, float(np.max(np.abs(b[f]), initial=0)))
        if f != 'phi0':
            # currents are integrals of the amplitudes: cancellation is relative to them
            sc = max(sc, float(np.max(np.abs(b['phi1']), initial=0))*what[1])
        mon.close(kind, a[f], b[f], rtol=0, atol=tol*sc, what='%s %s' % (what[0], f))


def check_record(mon, s, watch, total, tag):
    it = s.iters
    mon.true('record-length', len(it) == total and s.niter == total-1,
             lambda: '%s: %d entries, niter %r after %d iterations' % (tag, len(it), s.niter, total))
    mon.true('record-order', [x.niter for x in it] == list(range(total)), lambda: '%s %r' % (tag, [x.niter for x in it]))
    if watch is not None:
        mon.true('called', watch.niter == list(range(total)), lambda: '%s %r' % (tag, watch.niter))
        bad = []
        for k, (x, y) in enumerate(zip(it, watch.seen)):
            for f in FIELDS:
                if not np.array_equal(np.array(getattr(x, f)), y[f], equal_nan=True):
                    bad.append((k, f))
            mon.ev('check:snapshot')
        if bad:
            mon.bad('snapshot', '%s: entry differs from the solution it recorded: %r' % (tag, bad[:6]))
    last = state(s)
    bad = [f for f in FIELDS if not np.array_equal(np.array(getattr(it[-1], f)), last[f], equal_nan=True)] if it else []
    mon.true('last', not bad, lambda: '%s %r' % (tag, bad))
    mon.ev('iterations', total)


def reference(mon, w, total):
    """One uninterrupted solution of a fresh system."""
    s = w.build()
    if not w.kt.startswith('py'):
        s.make_kern_copy = True
    watch = Watch()
    run(s, total, watch)
    if not s.success:
        raise Inconclusive('solver failed')
    gap = sysutil.kern_gap(s)*1e-2
    if not gap > 1e-9:
        raise Inconclusive('stationary state not unique')
    if max(float(np.max(np.abs(x['phi0']))) for x in watch.seen) > 1e6:
        raise Inconclusive('stationary state not unique')
    check_record(mon, s, watch, total, 'reference')
    E = np.array(s.Ea)
    D = float(np.max(np.abs(w.spec.explicit().D_arr())))
    esc = float(np.max(np.abs(np.array(s.Tba))))*(1+np.ptp(E)+D)
    return watch.seen, 1e-13+1e-15/gap, esc


def check_all(mon, s, seen, tol, esc, tag):
    for k, x in enumerate(s.iters[:len(seen)]):
        same(mon, 'record', state(x), seen[k], ('%s iteration %d' % (tag, k), esc), tol)


def meanwhile(rng, mon, s, w, other):
    """Things that have nothing to do with the iteration."""
    n = int(s.si.nmany)
    r = rng.integers(5)
    if r == 0:
        s.get_phi0(0, n-1)
        s.get_phi1(0, 0, n-1)
    elif r == 1:
        s.sort_eigenstates([0])
        s.sort_eigenstates()
    elif r == 2 and other is not None:
        run(other, 2)
    elif r == 3:
        for x in s.iters:
            float(np.sum(x.current))
    else:
        copy.deepcopy([state(x) for x in s.iters])
    mon.ev('meanwhile')


def run_case(case, mon):
    rng = gen.rng_of('p15', case['seed'])
    w = work.draw(rng, '2vN', n=int(rng.choice([1, 1, 2, 2, 2])))
    total = int(rng.integers(2, 6)) if w.spec.n == 1 or not w.kt.startswith('py') else int(rng.integers(2, 4))
    if w.kt.startswith('py'):
        w.opts['kpnt'] = int(rng.choice([16, 24]))
    {'resume': resume, 'history': history, 'restart': restart, 'fault': fault}[case['kind']](rng, mon, w, total)
    mon.key(w.kt, case['kind'], w.spec.n, w.spec.nl, total, w.indexing, w.opts['kpnt'])


def resume(rng, mon, w, total):
    seen, tol, esc = reference(mon, w, total)
    other = None
    if rng.random() < 0.3:
        w2 = work.draw(rng, '2vN', n=1, py=False)
        other = w2.build()
    s = w.build()
    if w.spec.nl > 1 and rng.random() < 0.25:
        # leads with different bands are treated as leads with the band that holds them all
        sp = copy.copy(w.spec)
        ex = sp.explicit().D_arr()
        lo, hi = float(np.min(ex)), float(np.max(ex))
        if np.all(ex == ex[0]) and np.all(np.array(s.dlst) == [lo, hi]):
            mid = 0.5*(lo+hi)
            D = [[gen.r3(rng.uniform(lo, mid)), gen.r3(rng.uniform(mid+0.1*(hi-mid), hi))] for _ in range(sp.nl)]
            D[int(rng.integers(sp.nl))][0] = lo
            D[int(rng.integers(sp.nl))][1] = hi
            sp.D = {l: d for l, d in enumerate(D)}
            w = copy.copy(w)
            w.spec = sp
            s = w.build()
            mon.ev('different-bands')
    watch = Watch()
    left = total
    parts = []
    while left:
        k = int(rng.integers(1, left+1)) if parts else int(rng.integers(1, max(2, left)))
        kw = dict(restartq=bool(not parts and rng.random() < 0.7))
        if parts:
            if rng.random() < 0.4:
                kw['qdq'] = False
            elif rng.random() < 0.2:
                kw['rotateq'] = True
        run(s, k, watch, **kw)
        parts.append(k)
        left -= k
        if rng.random() < 0.15:
            run(s, 0, watch, restartq=False)
            parts.append(0)
        if left and rng.random() < 0.5:
            meanwhile(rng, mon, s, w, other)
    mon.ev('resumed')
    check_record(mon, s, watch, total, 'resumed %r' % parts)
    check_all(mon, s, seen, tol, esc, 'resumed %r' % parts)


def history(rng, mon, w, total):
    """The record of a longer run starts with the record of a shorter one, and nothing rewrites it afterwards."""
    seen, tol, esc = reference(mon, w, total)
    s = w.build()
    short = int(rng.integers(1, total))
    run(s, short)
    kept = s.iters
    copies = [state(x) for x in kept]
    same(mon, 'prefix', state(s), seen[short-1], ('shorter run', esc), tol)
    # the reported arrays are changed by the user, the record is not
    if rng.random() < 0.5:
        run(s, total-short, restartq=False)
        check_record(mon, s, None, total, 'continued')
        check_all(mon, s, seen, tol, esc, 'continued')
    else:
        run(s, total)
        check_record(mon, s, None, total, 'again')
        check_all(mon, s, seen, tol, esc, 'again')
    for x, y in zip(kept, copies):
        bad = [f for f in FIELDS if not np.array_equal(np.array(getattr(x, f)), y[f], equal_nan=True)]
        mon.true('kept', not bad, lambda: 'record of an earlier run changed: %r' % bad)


def fault(rng, mon, w, total):
    """The user's function fails after some iteration; the calculation goes on where it stopped."""
    seen, tol, esc = reference(mon, w, total)
    s = w.build()
    stop = int(rng.integers(1, total+1))
    watch = Watch(stop=stop)
    hit = False
    try:
        run(s, total, watch)
    except Stop:
        hit = True
    mon.true('fault-visible', hit, 'the exception of func_iter was swallowed')
    mon.ev('faults')
    check_record(mon, s, watch, stop, 'interrupted')
    same(mon, 'interrupted', state(s), seen[stop-1], ('interrupted', esc), tol)
    watch.stop = None
    if stop < total:
        run(s, total-stop, watch, restartq=False)
        check_record(mon, s, watch, total, 'after interruption')
        check_all(mon, s, seen, tol, esc, 'after interruption')
    if rng.random() < 0.5:
        watch = Watch()
        run(s, total, watch)
        check_record(mon, s, watch, total, 'restarted after interruption')
        check_all(mon, s, seen, tol, esc, 'restarted after interruption')


def dyadic(x):
    """Multiples of 2^-10: adding and subtracting them is exact."""
    x = complex(x)
    y = complex(round(x.real*1024)/1024, round(x.imag*1024)/1024)
    return y if y.imag else y.real


def change(rng, mon, w, s):
    """Changes the live system s and the description w alike."""
    sp = w.spec
    what = str(rng.choice(['mu', 'T', 'D', 'kpnt', 'level', 't', 'U', 'D+kpnt']))
    T0 = float(sp.T[0])
    if what == 'mu':
        l = int(rng.integers(sp.nl))
        sp.mu[l] = gen.r3(rng.uniform(-2, 2)*T0)
        s.change(mulst={l: sp.mu[l]})
    elif what == 'T':
        l = int(rng.integers(sp.nl))
        sp.T[l] = gen.r3(T0*rng.uniform(0.5, 2))
        s.change(tlst={l: sp.T[l]})
    if 'D' in what:
        D = gen.r3(T0*rng.uniform(20, 80))
        side = rng.random()
        if side < 0.5 and not np.isscalar(sp.D):
            side = 1.0
        if side < 0.5:
            # one edge stays where it was
            old = float(sp.D)
            band = [-old, D] if side < 0.25 else [-D, old]
            sp.D = {l: list(band) for l in range(sp.nl)}
            s.change(dlst={l: list(band) for l in range(sp.nl)})
            mon.ev('one-edge')
        else:
            sp.D = D
            s.change(dlst={l: D for l in range(sp.nl)})
    if 'kpnt' in what:
        w.opts['kpnt'] = int(rng.choice([20, 33, 48]))
        s.kpnt = w.opts['kpnt']
    elif what == 'level':
        i = int(rng.integers(sp.n))
        sp.hs[(i, i)] = dyadic(rng.uniform(-3, 3)*T0)
        s.change(hsingle={(i, i): sp.hs[(i, i)]})
    elif what == 't':
        k = list(sp.t)[int(rng.integers(len(sp.t)))]
        sp.t[k] = dyadic(sp.t[k]*rng.uniform(0.5, 1.5))
        s.change(tleads={k: sp.t[k]})
    elif what == 'U' and sp.U:
        k = (0, 1, 1, 0)
        if k in sp.U:
            sp.U[k] = dyadic(rng.uniform(0, 4)*T0)
            s.change(coulomb={k: sp.U[k]})
    mon.ev('changed')
    return what


def restart(rng, mon, w, total):
    w = copy.deepcopy(w)
    for d in (w.spec.hs, w.spec.U, w.spec.t):
        for k in d:
            d[k] = dyadic(d[k])
    s = w.build()
    hist = []
    for _ in range(int(rng.integers(1, 4))):
        run(s, int(rng.integers(1, 4)))
        hist.append('solve')
        r = rng.random()
        if r < 0.75:
            hist.append(change(rng, mon, w, s))
        if rng.random() < 0.15:
            run(s, 1)
            hist.append('solve')
    how = rng.random()
    watch = Watch()
    if how < 0.5:
        run(s, total, watch)
    elif how < 0.8:
        s.appr.restart()
        mon.true('forgotten', s.niter == -1 and s.iters == [] and s.appr.phi1k is None,
                 lambda: '%r %r' % (s.niter, len(s.iters)))
        run(s, total, watch, restartq=False)
        hist.append('restart()')
    else:
        k = int(rng.integers(1, total+1))
        run(s, k, watch)
        if total > k:
            run(s, total-k, watch, restartq=False)
        hist.append('in parts')
    mon.ev('restarted')
    seen, tol, esc = reference(mon, w, total)
    check_record(mon, s, watch, total, 'restarted %r' % hist)
    check_all(mon, s, seen, 10*tol, esc, 'restarted %r' % hist)
