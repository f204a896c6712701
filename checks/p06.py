"""P06: second-order approaches against exactly solvable transport (Landauer, Caroli)."""
import numpy as np

import qmeq

from qmon import gen, sysutil
from qmon.mon import Inconclusive

RULE = ('A case counts when a dot without interaction was solved by a second-order approach and its currents, energy '
        'currents and occupation were compared with an exact energy integral.')
ASSUMPTIONS = ['2vN: common symmetric or asymmetric band on a grid which resolves the level width (step <= Gamma/6)',
               'dots whose levels share a lead deviate by the recorded 2vN finding; they are compared within 3% '
               '(real amplitudes 0.4%) of the level width',
               'RTD: the corrections of third order are at most 0.8*Gamma^3/T^2 (0.3 seen) and those of the finite band '
               'at most Gamma^2/D (0.3 seen)']
KINDS = ['rtd-single', '2vn-single', 'rtd-decoupled', '2vn-decoupled', 'rtd-coherent', '2vn-coherent']
REQUIRED = {'quick': {'rtd': 500, '2vn': 150, 'check:rtd-current': 200, 'check:rtd-order2': 150, 'check:current': 100, 'compiled': 200,
                      'python': 30},
            'thorough': {'rtd': 4000, '2vn': 1500}}
BUDGET = {'quick': 300, 'thorough': 5400}


def cases(tier, seed):
    num = 600 if tier == 'quick' else 6000
    return [dict(kind=KINDS[k % len(KINDS)], seed=seed*100003+k, deep=tier != 'quick') for k in range(num)]


# -- the exact solution ----------------------------------------------------------------------------------------

def exact(h, t, mu, T, D):
    """Particle and energy currents out of the leads and number of electrons; h: n x n, t: leads x n, D: leads x 2."""
    nl, n = t.shape
    G = np.array([2*np.pi*np.outer(t[l], t[l].conj()) for l in range(nl)])
    ev = np.linalg.eigvalsh(h)
    g = np.sum([np.trace(x).real for x in G])
    pts = [D.ravel()]
    for e in ev:
        pts.append(e + g*np.array([-50, -20, -10, -5, -3, -2, -1, -.5, -.25, 0, .25, .5, 1, 2, 3, 5, 10, 20, 50]))
    for m, tt in zip(mu, T):
        pts.append(m + tt*np.array([-40, -30, -20, -15, -10, -7, -5, -3, -2, -1, 0, 1, 2, 3, 5, 7, 10, 15, 20, 30, 40]))
    lo, hi = D.min(), D.max()
    pts = np.unique(np.concatenate(pts + [np.linspace(lo, hi, 41)]))
    pts = pts[(pts >= lo) & (pts <= hi)]
    x, w = np.polynomial.legendre.leggauss(24)
    a, b = pts[:-1, None], pts[1:, None]
    E = (0.5*(a+b)+0.5*(b-a)*x).ravel()
    W = (0.5*(b-a)*w).ravel()
    S = np.zeros((len(E), n, n), dtype=complex)
    inb = np.array([(E > D[l, 0]) & (E < D[l, 1]) for l in range(nl)])
    f = np.array([1/(np.exp(np.clip((E-mu[l])/T[l], -700, 700))+1) for l in range(nl)])
    for l in range(nl):
        lam = np.log(np.abs((E-D[l, 0])/(D[l, 1]-E)))/(2*np.pi)
        S += G[l]*(lam-0.5j*inb[l])[:, None, None]
    Gr = np.linalg.inv(E[:, None, None]*np.eye(n)-h-S)
    Ga = np.conj(np.transpose(Gr, (0, 2, 1)))
    I, J, N = np.zeros(nl), np.zeros(nl), 0.0
    for l in range(nl):
        A = np.einsum('eij,jk,ekl->eil', Gr, G[l], Ga)
        N += np.sum(W*np.trace(A, axis1=1, axis2=2).real*f[l]*inb[l])
        for m in range(nl):
            if m != l:
                tr = np.einsum('ij,eji->e', G[m], A).real*inb[l]*inb[m]/(2*np.pi)*W
                # from l to m
                I[l] += np.sum(tr*f[l])
                J[l] += np.sum(tr*f[l]*E)
                I[m] -= np.sum(tr*f[l])
                J[m] -= np.sum(tr*f[l]*E)
    return I, J, N/(2*np.pi)


def number(s):
    """Expectation value of the number of electrons."""
    si = s.si
    out = 0.0
    for q, states in enumerate(si.statesdm[:si.ncharge]):
        for b in states:
            out += q*s.get_phi0(b, b).real
    return out


def single(rng, nl, gam, cplx=False, equal_T=False, dyadic=False):
    T0 = float(rng.choice([0.5, 1.0, 2.0]))
    e = rng.uniform(-3, 3)*T0
    t = np.sqrt(gam/(2*np.pi))*rng.uniform(0.5, 1.2, (nl, 1))*rng.choice([-1, 1], (nl, 1))
    if cplx:
        t = t*np.exp(2j*np.pi*rng.random((nl, 1)))
    mu = rng.uniform(-1, 1, nl)*float(rng.choice([0.5, 2, 5]))*T0
    T = np.full(nl, T0) if equal_T else T0*rng.uniform(0.6, 1.6, nl)
    if nl > 1 and rng.random() < 0.1:
        mu[:] = mu[0]
    return T0, e, t, mu, T


def join(parts):
    """Uncoupled levels with leads of their own -> (h, t, mu, T)."""
    n = len(parts)
    nl = sum(len(p[3]) for p in parts)
    t = np.zeros((nl, n), dtype=complex)
    k = 0
    for i, p in enumerate(parts):
        m = len(p[3])
        t[k:k+m, i] = p[2][:, 0]
        k += m
    return (np.diag([p[1] for p in parts]).astype(complex), t, np.concatenate([p[3] for p in parts]),
            np.concatenate([p[4] for p in parts]))


def shuffle(rng, h, t, mu, T, rot, cplx):
    """Leads in any order; the levels in another single-particle basis."""
    p = rng.permutation(len(mu))
    t, mu, T = t[p], mu[p], T[p]
    n = len(h)
    if n > 1 and rot:
        x = rng.normal(size=(n, n)) + (1j*rng.normal(size=(n, n)) if cplx else 0)
        u = np.linalg.qr(x)[0].astype(complex)
        h, t = u.conj().T @ h @ u, t @ u.conj()
        h = 0.5*(h+h.conj().T)
    return h, t, mu, T


def build(kt, h, t, mu, T, D, cplx, **kw):
    """h is the matrix of the operator; t[l] the amplitudes of d+_i c_l (h[1, 0] belongs to the key (0, 1))."""
    n, nl = len(h), len(mu)
    num = complex if cplx else (lambda x: float(np.real(x)))
    hs = {(i, j): (float(h[i, i].real) if i == j else num(h[j, i])) for i in range(n) for j in range(i, n)
          if i == j or abs(h[j, i]) > 1e-15}
    td = {(l, i): num(t[l, i]) for l in range(nl) for i in range(n) if abs(t[l, i]) > 1e-15}
    return qmeq.Builder(nsingle=n, hsingle=hs, coulomb={}, nleads=nl, tleads=td, mulst=list(map(float, mu)),
                        tlst=list(map(float, T)), dband=D, kerntype=kt, **kw)


def run_case(case, mon):
    rng = gen.rng_of('p06', case['seed'])
    if case['kind'].startswith('rtd'):
        rtd(rng, case, mon)
    else:
        vn2(rng, case, mon)


def rtd(rng, case, mon):
    cplx = bool(rng.random() < 0.25)
    py = bool(rng.random() < 0.1)
    equal_T = bool(rng.random() < 0.6)
    single_ = case['kind'] == 'rtd-single'
    T0 = None
    if single_:
        parts = [single(rng, int(rng.choice([1, 2, 2, 3, 4])), 1.0, cplx, equal_T)]
    else:
        parts = [single(rng, int(rng.choice([1, 2, 2])), 1.0, cplx, equal_T) for _ in range(2)]
        if equal_T:
            T0 = parts[0][0]
            parts = [(T0, p[1], p[2], p[3], np.full(len(p[4]), T0)) for p in parts]
        if not py and case['deep'] and rng.random() < 0.3:
            parts.append(single(rng, 1, 1.0, cplx, equal_T))
    h, t1, mu, T = join(parts)
    if len(parts) == 1 or min(abs(a[1]-b[1]) for i, a in enumerate(parts) for b in parts[:i]) > 0.05:
        rot = bool(rng.random() < 0.5)
    else:
        rot = False
    h, t1, mu, T = shuffle(rng, h, t1, mu, T, rot, cplx)
    levels = np.diag(h).real if not rot else np.linalg.eigvalsh(h)
    if case['kind'] == 'rtd-coherent':
        n = int(rng.choice([2, 2, 3]))
        nl = int(rng.choice([1, 2, 2, 3]))
        T0 = float(rng.choice([0.5, 1.0, 2.0]))
        while True:
            levels = rng.uniform(-3, 3, n)*T0
            if np.min(np.diff(np.sort(levels))) > 0.4*T0:
                break
        py = py and n == 2
        t1 = rng.uniform(0.5, 1.2, (nl, n))*rng.choice([-1, 1], (nl, n))/np.sqrt(2*np.pi)
        if cplx:
            t1 = t1*np.exp(2j*np.pi*rng.random((nl, n)))
        mu = rng.uniform(-1, 1, nl)*float(rng.choice([0.5, 2, 5]))*T0
        T = np.full(nl, T0) if equal_T else T0*rng.uniform(0.6, 1.6, nl)
        rot = bool(rng.random() < 0.5)
        h, t1, mu, T = shuffle(rng, np.diag(levels).astype(complex), t1.astype(complex), mu, T, rot, cplx)
    Tm = float(np.min(T))
    D = float(rng.choice([200, 500, 1500]))*float(np.max(T))
    if case['kind'] == 'rtd-coherent':
        # small corrections from the band edges and from the length of the frequency series
        D *= 100 if not py else 20
    kt = 'pyRTD' if py else 'RTD'
    m = Tm
    # only levels with a common lead interfere
    lv = np.sort(levels)
    if case['kind'] == 'rtd-coherent':
        m = min(m, float(np.min(np.diff(lv))))
    sc = max(float(np.max(T)+np.max(np.abs(mu))+np.max(np.abs(levels)))/Tm, 1)*0.5
    rs = []
    gams = (0.2*Tm, 0.05*Tm, 0.01*m, 0.005*m)
    for gam in gams:
        t = np.sqrt(gam)*t1
        I, J, N = exact(h, t, mu, T, np.array([[-D, D]]*len(mu)))
        s = build(kt, h, t, mu, T, D, cplx, itype=1)
        with sysutil.quiet():
            s.solve()
        if not s.success:
            raise Inconclusive('not solved')
        dI, dJ, dN = np.array(s.current)-I, np.array(s.energy_current)-J, number(s)-N
        rs.append((dI/gam**2*Tm, dJ/gam**2, np.array([dN/gam*Tm])))
        mon.ev('rtd')
        mon.ev('python' if py else 'compiled')
        if case['kind'] != 'rtd-coherent' and len(rs) < 3:
            approx = 2e-3*gam**2/Tm if (cplx or not equal_T) else 1e-5*gam**2/Tm      # length of the frequency series
            tol = 0.8*gam**3/Tm**2 + 1.0*gam**2/D + approx + 1e-11*gam
            tag = dict(sig='', what='gam=%.4g %s' % (gam, kt))
            mon.close('rtd-current', np.array(s.current), I, rtol=0, atol=tol, **tag)
            if not cplx:
                mon.close('rtd-energy', np.array(s.energy_current), J, rtol=0, atol=tol*sc*Tm, **tag)
            pop = 3.0*(gam/Tm)**2*len(parts) + 3.0*gam/D*len(parts) + 2e-3*gam/Tm*(cplx or not equal_T) + 1e-11
            mon.close('rtd-number', number(s), N, rtol=0, atol=pop, **tag)
    # coefficient of Gamma^2 in the deviation, extrapolated to Gamma -> 0
    (i1, j1, n1), (i2, j2, n2) = rs[-2:]
    if case['kind'] == 'rtd-coherent':
        lim = 1.5*len(h)*Tm/D + 2e-4 + 1e-2*np.sqrt(Tm/D)*(cplx or not equal_T)
    else:
        lim = 1.5*len(h)*Tm/D + 1e-3 + 2e-3*(cplx or not equal_T)
    tag = dict(sig='', what='coefficients, m=%.3g %s' % (m/Tm, kt))
    mon.close('rtd-order2', 2*i2-i1, 0*i1, rtol=0, atol=lim, **tag)
    if not cplx:
        mon.close('rtd-order2-energy', 2*j2-j1, 0*j1, rtol=0, atol=lim*sc*2, **tag)
    if case['kind'] != 'rtd-coherent':
        mon.close('rtd-order1-number', 2*n2-n1, 0*n1, rtol=0, atol=3*lim, **tag)
    mon.key('rtd', len(h), len(mu), cplx, rot, equal_T, py)


def vn2(rng, case, mon):
    kind = case['kind']
    py = bool(rng.random() < 0.12)
    cplx = bool(rng.random() < 0.4)
    gam = float(rng.choice([0.3, 0.6, 1.0])) if py else float(rng.choice([0.12, 0.3, 1.0]))
    D = 16.0
    if kind == '2vn-single':
        parts = [single(rng, int(rng.choice([1, 2, 2, 3])), gam, cplx)]
    elif kind == '2vn-decoupled':
        if py:
            parts = [single(rng, 1, gam, cplx), single(rng, 1, gam, cplx)]
        else:
            parts = [single(rng, int(rng.choice([1, 1, 2])), gam, cplx) for _ in range(2)]
    else:
        parts = [single(rng, 2, gam, cplx)]
    h, t, mu, T = join(parts)
    rot = False
    if kind == '2vn-decoupled':
        rot = abs(parts[0][1]-parts[1][1]) > 0.05 and bool(rng.random() < 0.6)
    if kind == '2vn-coherent':
        py = False
        nl = 2
        h = np.diag(rng.uniform(-2, 2, 2)).astype(complex)
        t = np.sqrt(gam/(2*np.pi))*rng.uniform(0.5, 1.2, (nl, 2))*rng.choice([-1, 1], (nl, 2)).astype(complex)
        h[0, 1] = rng.uniform(-0.7, 0.7)
        if cplx:
            t = t*np.exp(2j*np.pi*rng.random((nl, 2)))
            h[0, 1] *= np.exp(2j*np.pi*rng.random())
        h[1, 0] = h[0, 1].conj()
    h, t, mu, T = shuffle(rng, h, t, mu, T, rot, cplx)
    # widths of the resonances
    gmin = float(np.min(-2*np.linalg.eigvals(h-1j*np.pi*np.einsum('li,lj->ij', t, t.conj())).imag))
    scale = float(np.max(np.abs(np.diag(h)))+5)/8
    D = 16.0*max(1.0, np.ceil(max(np.max(T)/2, np.max(np.abs(mu))/8, scale)))
    band = [-D, D] if rng.random() < 0.7 else ([-D, 1.5*D] if rng.random() < 0.5 else [-1.25*D, D])
    width = band[1]-band[0]
    if gmin < 0.02:
        raise Inconclusive('narrow resonance')
    kp = 2**int(np.ceil(np.log2(6*width/gmin)))+1
    kp = max(kp, 257)
    if py and (kp > 513 or kp > 257 and len(parts) > 1):
        py = False
    if kp > (4097 if len(parts) == 1 and kind != '2vn-coherent' else 2049):
        raise Inconclusive('grid too large')
    kt = 'py2vN' if py else '2vN'
    I, J, N = exact(h, t, mu, T, np.array([band]*len(mu)))
    s = build(kt, h, t, mu, T, D if band == [-D, D] else band and {l: band for l in range(len(mu))}, cplx, kpnt=kp)
    gt = 2*np.pi*float(np.sum(np.abs(t)**2))
    niter = 6 if gt < 1.5 else 9
    if kind == '2vn-coherent':
        niter = 8
    with sysutil.quiet():
        s.solve(niter=niter)
    if not s.success:
        raise Inconclusive('not solved')
    sc = float(np.max(T)+np.max(np.abs(mu))+np.max(np.abs(np.diag(h).real)))
    what = '%s %s gam=%g kpnt=%d' % (kt, kind, gam, kp)
    if kind == '2vn-coherent':
        ci, cj, cn = (5e-2, 6e-2, 5e-2) if cplx else (1.5e-2, 4e-2, 1.5e-2)
        kinds = ('coherent-current', 'coherent-energy', 'coherent-number')
    else:
        ci, cj, cn = 1e-4, 5e-5, 5e-4
        kinds = ('current', 'energy', 'number')
    mon.close(kinds[0], np.array(s.current), I, rtol=0, atol=ci*gam, sig='', what=what)
    mon.close(kinds[1], np.array(s.energy_current), J, rtol=0, atol=cj*gam*sc, sig='', what=what)
    mon.close(kinds[2], number(s), N, rtol=0, atol=cn, sig='', what=what)
    mon.ev('2vn')
    mon.ev('python' if py else 'compiled')
    mon.key('2vn', kind, len(parts), len(mu), cplx, rot, py, band[0] == -band[1], kp)
