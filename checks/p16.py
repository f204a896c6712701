"""P16: the RTD approach is the next order on top of the rate equation."""
import copy

import numpy as np

from qmon import gen, sysutil
from qmon.mon import Inconclusive

RULE = ('A case counts when an RTD solution of an interacting dot was compared with the rate equation, with the solutions '
        'of its uncoupled parts, with golden-rule cotunnelling rates, or with the same system stated in an equivalent way.')
ASSUMPTIONS = ['levels of one charge at least 0.2 T apart for extrapolations (no coherences of degenerate levels)',
               'cotunnelling: charging energy at least 40 T, so that thermally activated transport is below exp(-15)']
KINDS = ['leading', 'cotunnel', 'additive', 'zero-lead', 'cotunnel', 'rates', 'leading', 'columns']
REQUIRED = {'quick': {'leading': 150, 'cotunnel': 150, 'additive': 100, 'zero-lead': 100, 'rates': 100, 'columns': 100, 'anderson': 30,
                      'check:cot-current': 150, 'cot-strict': 120, 'check:first-current': 150, 'check:sum-current': 100, 'python': 20},
            'thorough': {'leading': 600, 'cotunnel': 600, 'additive': 400}}
BUDGET = {'quick': 300, 'thorough': 5400}


def cases(tier, seed):
    num = 1600 if tier == 'quick' else 8000
    out = [dict(kind='anderson', seed=seed*100003+k) for k in range(40 if tier == 'quick' else 600)]
    return out+[dict(kind=KINDS[k % len(KINDS)], seed=seed*100003+k, deep=tier != 'quick') for k in range(num)]


def scaled(spec, x):
    s = copy.deepcopy(spec)
    s.t = {k: v*np.sqrt(x) for k, v in spec.t.items()}
    return s


def solve(spec, kt, **kw):
    s = spec.build(kerntype=kt, itype=1, **kw)
    with sysutil.quiet(), np.errstate(all='ignore'):
        s.solve()
    if not s.success:
        raise Inconclusive('not solved')
    return s


def sizes(rng, case):
    """number of levels, Python or compiled"""
    py = bool(rng.random() < 0.12)
    n = int(rng.choice([1, 2])) if py else int(rng.choice([1, 2, 2, 3, 3]))
    if case['deep'] and not py and rng.random() < 0.05:
        n = 4
    return n, 'pyRTD' if py else 'RTD'


def draw(rng, n, nl=None, **kw):
    """Amplitudes such that Gamma ~ 1."""
    T0 = 1.0
    for _ in range(50):
        sp = gen.gen_sys(rng, n=n, nl=int(nl or rng.choice([1, 2, 2, 3])), degenerate=False, tscale=T0,
                         gamma=1.0, D=float(rng.choice([200, 500])), full_t=True, **kw)
        s = sp.build(kerntype='Pauli', itype=1)
        with sysutil.quiet():
            s.solve(masterq=False)
        if sysutil.min_split(s) > 0.2:
            return sp
    raise Inconclusive('levels too close')


def run_case(case, mon):
    rng = gen.rng_of('p16', case['seed'])
    mon.ev(case['kind'])
    globals()[case['kind'].replace('-', '_')](rng, case, mon)


def pops(s):
    return np.array([s.get_phi0(b, b).real for q in range(s.si.ncharge) for b in s.si.statesdm[q]])


def leading(rng, case, mon):
    """RTD - rate equation vanishes faster than the rates."""
    n, kt = sizes(rng, case)
    sp = draw(rng, n)
    real = not any(isinstance(x, complex) for x in sp.t.values())
    f = scaled(sp, 1e-3)
    p = f.build(kerntype='Pauli', itype=1)
    p.make_kern_copy = True
    with sysutil.quiet():
        p.solve()
    gap = sysutil.kern_gap(p)
    if gap < 0.02:
        raise Inconclusive('activated transport')
    out = []
    for x in (1e-3, 5e-4):
        s = solve(scaled(sp, x), kt)
        q = solve(scaled(sp, x), 'Pauli')
        mon.ev('python' if kt == 'pyRTD' else 'compiled')
        out.append([(np.array(s.current)-np.array(q.current))/x,
                    (np.array(s.energy_current)-np.array(q.energy_current))/x, pops(s)-pops(q)])
    E = np.array(p.Ea)
    sc = 1 + E.max()-E.min()
    k = 1/gap
    # proportional to the coupling: halving the coupling halves the deviation
    for i, name in ((0, 'current'), (1, 'energy'), (2, 'population')):
        if name == 'energy' and not real:
            continue
        a, b = out[0][i], out[1][i]
        u = sc if i == 1 else 1.0
        mon.close('first-'+name, 2*b-a, 0*a, rtol=0, atol=(1e-6*k**2*u+0.02*np.max(np.abs(a))), sig='',
                  what='%s at 1e-3, 5e-4: %r %r' % (kt, a[:4], b[:4]))
        mon.small('deviation-'+name, float(np.max(np.abs(a))), 1e-3*30*k*u)
    mon.key('leading', n, sp.nl, real, kt)


def cotunnel(rng, case, mon):
    """Deep in the Coulomb blockade."""
    n = int(rng.choice([1, 2, 2, 3, 3])) if rng.random() < 0.9 else 2
    py = n < 3 and rng.random() < 0.15
    kt = 'pyRTD' if py else 'RTD'
    U = float(rng.choice([100, 150, 250]))
    nl = int(rng.choice([1, 2, 2, 3]))
    cplx = bool(rng.random() < 0.2)
    N = int(rng.integers(0, n+1))
    T = np.full(nl, 1.0) if rng.random() < 0.8 else rng.uniform(0.7, 1.5, nl)
    mu = rng.uniform(-1, 1, nl)*float(rng.choice([1, 3]))
    # complex amplitudes or different temperatures: the frequency series grows with the bandwidth
    series = cplx or len(set(T)) > 1
    base = -U*(N-0.5) if 0 < N < n else (U/2 if N == 0 else -U*(N-0.5))
    for _ in range(50):
        e = rng.uniform(-1.5, 1.5, n)+base
        hs = {(i, i): gen.r3(e[i]) for i in range(n)}
        for i in range(n):
            for j in range(i+1, n):
                hs[(i, j)] = gen.cnum(rng, 0.8, cplx)
        Uc = {(i, j, j, i): gen.r3(U+rng.uniform(-2, 2)) for i in range(n) for j in range(i+1, n)}
        if n == 3 and rng.random() < 0.4:
            v = gen.cnum(rng, 0.8, cplx)
            gen.add_coulomb(Uc, (0, 2, 2, 1), v)
            gen.add_coulomb(Uc, (1, 2, 2, 0), np.conj(v) if cplx else v)
        t = {(l, i): gen.cnum(rng, np.sqrt(1/(2*np.pi)), cplx) for l in range(nl) for i in range(n)}
        sp = gen.Spec(n, nl, hs, Uc, t, {l: gen.r3(mu[l]) for l in range(nl)}, {l: gen.r3(T[l]) for l in range(nl)},
                      float(rng.choice([3e4, 1e5] if series else [1000, 3000])), set())
        p = sp.build(kerntype='Pauli', itype=1)
        with sysutil.quiet():
            p.solve(masterq=False)
        if sysutil.min_split(p) > 0.3:
            break
    else:
        raise Inconclusive('levels too close')
    out = []
    for x in (2e-3, 1e-3, 5e-4):
        s = solve(scaled(sp, x), kt)
        mon.ev('python' if py else 'compiled')
        st = s.si.statesdm[N]
        out.append((np.array(s.current)/x**2, np.array(s.energy_current)/x**2,
                    np.array([s.get_phi0(b, b).real for b in st])))
    E = np.array(s.Ea, dtype=float)
    q = np.zeros(len(E), dtype=int)
    for c in range(s.si.ncharge):
        q[s.si.statesdm[c]] = c
    A = np.array(s.Tba)/np.sqrt(x)
    p, I, J, mag, gap = golden(E, q, A, sp.mu_arr(), sp.T_arr(), N)
    # extrapolation by two steps of a polynomial
    def lim(i):
        a, b, c = (o[i] for o in out)
        return (8*c-6*b+a)/3, np.max(np.abs(2*c-b-(2*b-a)))
    noise = 1e-10
    if gap < 0.01*mag:
        raise Inconclusive('a state is nearly decoupled')
    if series:
        if gap < 0.02:
            raise Inconclusive('rates of cotunnelling comparable to the error of the frequency series')
        noise += 3e-4*(1+mag/gap)
    w = 'N=%d n=%d %s' % (N, n, kt)
    i0, di = lim(0)
    mon.close('cot-current', i0, I, rtol=0, atol=2e-3*mag+0.5*di+noise, sig='', what=w)
    if not cplx:
        j0, dj = lim(1)
        es = np.max(T)*4+np.max(np.abs(mu))
        mon.close('cot-energy', j0, J, rtol=0, atol=(4e-3*mag+0.5*di)*es+0.5*dj+noise*U, sig='', what=w)
    p0, dp = lim(2)
    if not series:
        mon.close('cot-population', p0, p, rtol=0, atol=2e-3+0.5*dp, sig='', what=w)
        mon.ev('cot-strict')
    if mag > 0:
        mon.small('uncertainty', float(di/mag), 1.0)
    mon.key('cotunnel', n, nl, N, cplx, kt)


def golden(E, q, A, mu, T, N):
    """Populations and currents from second-order golden-rule rates between the states of one charge."""
    st, up, dn = np.flatnonzero(q == N), np.flatnonzero(q == N+1), np.flatnonzero(q == N-1)
    nl, n = len(mu), len(st)
    x, w = np.polynomial.legendre.leggauss(24)
    R = np.zeros((nl, nl, n, n))
    RI, RO = R.copy(), R.copy()
    from scipy.special import expit
    for l in range(nl):
        for m in range(nl):
            for i, b in enumerate(st):
                for j, c in enumerate(st):
                    dE = E[b]-E[c]
                    g = np.arange(-16, 16.5, 1.0)
                    cut = np.unique(np.concatenate([mu[l]+T[l]*g, mu[m]-dE+T[m]*g]))
                    h, o = 0.5*np.diff(cut), 0.5*(cut[1:]+cut[:-1])
                    e = (o[:, None]+h[:, None]*x).ravel()
                    W = (h[:, None]*w).ravel()
                    M = np.zeros(len(e), complex)
                    for k in up:
                        M += A[m][c, k]*A[l][k, b]/(e+E[b]-E[k])
                    for k in dn:
                        M -= A[l][c, k]*A[m][k, b]/(E[b]-(e+dE)-E[k])
                    r = 2*np.pi*np.abs(M)**2*expit(-(e-mu[l])/T[l])*expit((e+dE-mu[m])/T[m])*W
                    R[l, m, j, i] = r.sum()
                    RI[l, m, j, i] = (r*e).sum()
                    RO[l, m, j, i] = (r*(e+dE)).sum()
    K = R.sum((0, 1))
    K = K-np.diag(K.sum(0))
    ev = np.sort(np.abs(np.linalg.eigvals(K)))
    K[0] = 1
    rhs = np.zeros(n)
    rhs[0] = 1
    p = np.linalg.solve(K, rhs)
    I, J = np.zeros(nl), np.zeros(nl)
    for l in range(nl):
        for m in range(nl):
            I[l] += (R[l, m] @ p).sum()
            I[m] -= (R[l, m] @ p).sum()
            J[l] += (RI[l, m] @ p).sum()
            J[m] -= (RO[l, m] @ p).sum()
    return p, I, J, float(np.max(R.sum((2,)) @ p)), float(ev[1]) if n > 1 else np.inf


def additive(rng, case, mon):
    """Two dots with leads of their own."""
    na, nb = (1, 1) if rng.random() < 0.4 else (2, 1)
    if case['deep'] and rng.random() < 0.1:
        na, nb = 2, 2
    py = na == nb == 1 and rng.random() < 0.3
    kt = 'pyRTD' if py else 'RTD'
    D = float(rng.choice([200, 500]))
    a = draw(rng, na, nl=int(rng.choice([1, 2])))
    b = draw(rng, nb, nl=int(rng.choice([1, 2])))
    a.D = b.D = D
    hs, U, t, mu, T = dict(a.hs), dict(a.U), dict(a.t), dict(a.mu), dict(a.T)
    hs.update({(i+na, j+na): v for (i, j), v in b.hs.items()})
    U.update({tuple(i+na for i in k): v for k, v in b.U.items()})
    t.update({(l+a.nl, i+na): v for (l, i), v in b.t.items()})
    mu.update({l+a.nl: v for l, v in b.mu.items()})
    T.update({l+a.nl: v for l, v in b.T.items()})
    c = gen.Spec(na+nb, a.nl+b.nl, hs, U, t, mu, T, D, a.tags | b.tags)
    real = not any(isinstance(x, complex) for x in t.values())
    p = c.build(kerntype='Pauli', itype=1)
    p.make_kern_copy = True
    with sysutil.quiet():
        p.solve()
    if sysutil.min_split(p) < 0.1:
        raise Inconclusive('levels too close')
    gap = sysutil.kern_gap(p)
    if gap < 0.02:
        raise Inconclusive('activated transport')
    k = 1/gap
    E = np.array(p.Ea)
    sc = 1+E.max()-E.min()
    out = []
    for x in (2e-3, 1e-3):
        s, sa, sb = [solve(scaled(y, x), kt) for y in (c, a, b)]
        mon.ev('python' if py else 'compiled', 3)
        out.append([(np.array(s.current)-np.concatenate([sa.current, sb.current]))/x**2,
                    (np.array(s.energy_current)-np.concatenate([sa.energy_current, sb.energy_current]))/x**2])
    for i, name in ((0, 'current'), (1, 'energy')):
        if i and not real:
            continue
        u = sc if i else 1.0
        v = 2*out[1][i]-out[0][i]
        mon.close('sum-'+name, v, 0*v, rtol=0, atol=(3e-5+1e-7*k**2)*u, sig='', what='%d+%d %s' % (na, nb, kt))
    mon.key('additive', na, nb, a.nl, b.nl, real, kt)


def zero_lead(rng, case, mon):
    """A lead which is not coupled changes nothing and carries nothing."""
    n, kt = sizes(rng, case)
    n = min(n, 2) if kt == 'pyRTD' else n
    sp = scaled(draw(rng, n), float(rng.choice([0.02, 0.1])))
    s = solve(sp, kt)
    new = copy.deepcopy(sp)
    new.nl = sp.nl+1
    how = int(rng.integers(3))
    if how == 0:
        new.t.update({(sp.nl, i): 0.0 for i in range(n)})
    elif how == 1:
        new.t[(sp.nl, int(rng.integers(n)))] = 0.0
    # temperature of the others (the length of the frequency series depends on it)
    new.mu[sp.nl], new.T[sp.nl] = gen.r3(rng.uniform(-5, 5)), sp.T[0]
    if not np.isscalar(sp.D):
        new.D = dict(sp.D)
        new.D[sp.nl] = sp.D[0]
    z = solve(new, kt)
    mon.ev('python' if kt == 'pyRTD' else 'compiled', 2)
    gam, es = sysutil.scales(s, sp)
    mon.close('zero-population', np.array(z.phi0), np.array(s.phi0), rtol=0, atol=1e-8, sig='', what=kt)
    for name in ('current', 'energy_current', 'heat_current'):
        a, b = np.array(getattr(z, name)), np.array(getattr(s, name))
        if np.all(np.isnan(a)) and np.all(np.isnan(b)):
            continue
        mon.close('zero-'+name, a[:-1], b, rtol=0, atol=1e-8*(gam if name == 'current' else es), sig='', what=kt)
        mon.small('zero-self-'+name, float(abs(a[-1])), 1e-13*(gam if name == 'current' else es)+1e-300)
    mon.key('zero-lead', n, sp.nl, how, kt)


def rates(rng, case, mon):
    """Signs and phases of the amplitudes of a level (with spin) do not matter."""
    spin = bool(rng.random() < 0.7)
    py = bool(rng.random() < 0.2)
    kt = 'pyRTD' if py else 'RTD'
    T0 = float(rng.choice([0.5, 1.0, 2.0]))
    nl = int(rng.choice([1, 2, 2, 3])) if not py else int(rng.choice([1, 2]))
    g = 2*np.pi*(0.02*T0*rng.uniform(0.5, 2, nl))/(2*np.pi)
    m = 2 if spin else 1
    e = gen.r3(rng.uniform(-5, 3)*T0)
    B = gen.r3(rng.choice([0.0, rng.uniform(0.1, 1)])*T0)
    hs = {(0, 0): e}
    U = {}
    if spin:
        hs[(1, 1)] = e+B
        U = {(0, 1, 1, 0): gen.r3(rng.uniform(0, 10)*T0)}
    mu, T = {}, {}
    amp = {}
    for l in range(nl):
        for sg in range(m):
            mu[l+sg*nl] = gen.r3((rng.uniform(-2, 2))*T0) if sg == 0 else mu[l]
            T[l+sg*nl] = gen.r3(T0*rng.uniform(0.7, 1.4)) if sg == 0 else T[l]
            amp[(l+sg*nl, sg)] = float(np.sqrt(g[l]/(2*np.pi)))
    if rng.random() < 0.6:
        T = {l: gen.r3(T0) for l in T}
    D = 300.0*T0

    def spec(f):
        return gen.Spec(m, m*nl, dict(hs), dict(U), {k: f(v) for k, v in amp.items()}, dict(mu), dict(T), D, set())
    a = solve(spec(lambda v: v), kt)
    b = solve(spec(lambda v: float(v*rng.choice([-1, 1]))), kt)
    c = solve(spec(lambda v: complex(v*np.exp(2j*np.pi*rng.random()))), kt)
    mon.ev('python' if py else 'compiled', 3)
    gam = float(np.max(g))
    es = gam*(abs(e)+5*T0+max(abs(x) for x in mu.values()))
    mon.close('signs-current', np.array(b.current), np.array(a.current), rtol=0, atol=1e-9*gam, sig='', what=kt)
    mon.close('signs-energy', np.array(b.energy_current), np.array(a.energy_current), rtol=0, atol=1e-9*es, sig='', what=kt)
    mon.close('signs-population', pops(b), pops(a), rtol=0, atol=1e-9, sig='', what=kt)
    loose = 2e-3*gam/T0
    mon.close('phases-current', np.array(c.current), np.array(a.current), rtol=0, atol=loose*gam, sig='', what=kt)
    mon.close('phases-population', pops(c), pops(a), rtol=0, atol=loose, sig='', what=kt)
    if spin and B == 0:
        I = np.array(a.current)
        mon.close('spin-current', I[:nl], I[nl:], rtol=0, atol=1e-9*gam, sig='', what=kt)
    mon.key('rates', spin, B == 0, nl, kt)


def anderson(rng, case, mon):
    """2vN and RTD agree to second order in the coupling for an interacting level with spin."""
    nl = int(rng.choice([1, 2, 2]))*2
    T0 = float(rng.choice([0.25, 1.0, 3.0]))
    g = T0*0.4*rng.uniform(0.5, 1, nl)/(nl/2)
    e = T0*rng.uniform(-4, 2, 2)
    D = 30.0*T0
    sp = gen.Spec(2, nl, {(0, 0): gen.r3(e[0]), (1, 1): gen.r3(e[1])}, {(0, 1, 1, 0): gen.r3(T0*rng.uniform(0.5, 6))},
                  {(l, l % 2): float(np.sqrt(g[l]/(2*np.pi)))*float(rng.choice([-1, 1])) for l in range(nl)},
                  {l: gen.r3(T0*rng.uniform(-3, 3)) for l in range(nl)},
                  {l: gen.r3(T0*rng.uniform(0.8, 1.3)) for l in range(nl)}, D, set())
    out = []
    X = [1, 0.5, 0.25]
    for x in X:
        f = scaled(sp, x)
        G = min(sum(g[i::2]) for i in (0, 1))*x
        a = f.build(kerntype='2vN', kpnt=int(6*D/G)+1)
        with sysutil.quiet(), np.errstate(all='ignore'):
            a.solve(niter=6)
        if not a.success:
            raise Inconclusive('not solved')
        r, p = solve(f, 'RTD'), solve(f, 'Pauli')
        v = [(np.array(s.current)/T0/x**2, np.array(s.energy_current)/T0**2/x**2, pops(s)/x) for s in (a, r, p)]
        out.append([v[0][i]-v[1][i] for i in range(3)]+[v[1][i]-v[2][i] for i in range(3)])
    w = np.linalg.inv(np.vander(X, 3, increasing=True))[0]
    # with halved couplings: the limit of zero coupling
    lim = [sum(w[k]*out[k][i] for k in range(3)) for i in range(6)]
    for i, (name, tol) in enumerate((('current', 2e-4), ('energy', 8e-4), ('population', 2e-3))):
        ref = float(np.max(np.abs(lim[i+3])))
        mon.close('second-'+name, lim[i], 0*lim[i], rtol=0, atol=tol+0.35*ref, sig='', what='2vN - RTD; RTD - Pauli %r' % ref)
    mon.key('anderson', nl)


def columns(rng, case, mon):
    """Every column of the kernel of the populations sums to zero, for the sum and for every order."""
    n, kt = sizes(rng, case)
    sp = scaled(draw(rng, n), float(rng.choice([0.01, 0.1, 0.5])))
    s = sp.build(kerntype=kt, itype=1, symq=False)         # keeps every equation
    s.make_kern_copy = True
    if rng.random() < 0.3:
        s.off_diag_corrections = False
    with sysutil.quiet(), np.errstate(all='ignore'):
        s.solve()
    mon.ev('python' if kt == 'pyRTD' else 'compiled')
    K = np.array(s.kern)[:-1]
    gam = sysutil.gamma_scale(s)
    mon.close('column-sum', np.sum(K, axis=0), np.zeros(K.shape[1]), rtol=0, atol=1e-9*max(gam, np.max(np.abs(K))),
              sig='', what='%s %r' % (kt, s.off_diag_corrections))
    if not any(isinstance(x, complex) for x in sp.t.values()):
        mon.small('energy-balance', float(abs(np.sum(s.energy_current))), 1e-4*sysutil.scales(s, sp)[1])
    mon.small('charge-balance', float(abs(np.sum(s.current))), 1e-10*gam)
    mon.key('columns', n, sp.nl, s.off_diag_corrections, kt)
