"""P14: special functions (compiled and pure Python) against independent numerics."""
import math
import warnings

import numpy as np
from scipy import special

from qmon import gen, ref, sysutil
from qmon.mon import Inconclusive

RULE = ('A case counts when a batch of special function calls (both implementations) was compared with an independent '
        'evaluation: stable closed forms, adaptive/Gauss quadrature, direct convolution or an exact Matsubara sum.')
ASSUMPTIONS = ['scipy.special.psi and zeta are correct',
               'RTD integrals at unequal temperatures carry the truncation error of the Ozaki expansion, of the order '
               'of the thermal energy over the bandwidth']
REQUIRED = {'quick': {'call': 60000, 'check:fermi': 300, 'check:digamma': 300, 'check:polygamma': 1000,
                      'check:vn1-0': 1000, 'check:vn1-1': 500, 'check:hilbert': 60, 'check:intD-eq': 1500,
                      'check:intX-eq': 1500, 'check:intD-ozaki': 1500, 'check:intX-ozaki': 1500,
                      'check:ph-pauli': 400, 'check:ph-1vN': 400, 'check:ozaki': 40},
            'thorough': {'call': 900000}}
BUDGET = {'quick': 300, 'thorough': 5400}
KINDS = ['stat', 'gamma', 'phi', 'first', 'first0', 'hilbert', 'rtd', 'rtd', 'ozaki', 'phonon']


def cases(tier, seed):
    num = 3000 if tier == 'quick' else 20000
    out = [dict(kind=KINDS[k % len(KINDS)], seed=seed*100003+k) for k in range(num)]
    out.append(dict(kind='neardeg', seed=0))
    return out


# ------------------------------------------------------------------ independent evaluations
def psi_k(z, K):
    """Polygamma by shifted Euler-Maclaurin summation of the defining series."""
    z = complex(z)
    if K == 0:
        return complex(special.psi(z))
    p = K+1
    n0 = max(0, int(math.ceil(40-z.real)))
    s = 0j
    for n in range(n0):
        s += (z+n)**(-p)
    w = z+n0
    # tail sum_{n>=0} (w+n)^-p
    t = w**(1-p)/(p-1) + 0.5*w**(-p)
    B = [1/6., -1/30., 1/42., -1/30., 5/66., -691/2730.]
    c = p
    for j, b in enumerate(B):
        t += b/math.factorial(2*j+2)*c*w**(-p-2*j-1)
        c *= (p+2*j+1)*(p+2*j+2)
    return (-1)**(K+1)*math.factorial(K)*(s+t)


_N = 40000


def _mats_sum(fun):
    """sum_{n>=0} fun(x_n), x_n=(2n+1) pi, by direct summation and an Euler-Maclaurin tail (integral by quadrature)."""
    n = np.arange(_N)
    x = (2*n+1)*np.pi
    s = np.sum(fun(x))
    # tail: sum_{n>=N} g(x_n) = 1/(2pi) int_{2 pi N}^inf g(x) dx - midpoint correction (negligible)
    a = 2*np.pi*_N
    # substitution x = a/u, u in (0,1): log-type integrands, graded panels
    br = np.array([0]+[2.0**-k for k in range(30, -1, -1)])
    h = 0.5*np.diff(br)
    m = 0.5*(br[1:]+br[:-1])
    u = m[:, None]+h[:, None]*ref._GLX[None, :]
    g = fun((a/u).ravel()).reshape(u.shape)*a/u**2
    return s + np.sum(h[:, None]*ref._GLW[None, :]*g)/(2*np.pi)


def dig(z):
    return special.psi(np.asarray(z, dtype=complex))


def exactD(p1, eta1, E1, E2, E3, T1, T2, mu1, mu2, D):
    """Direct integral: all Matsubara poles of the first lead, wide band digamma for the second."""
    z1, z2, z3 = -E1, -E2, -E3
    m2 = eta1*mu2
    c1, c3 = (z1+mu1)/T1, (z3+mu1)/T1

    def f(x):
        A = np.log(D/2/(2*np.pi*T1)) - dig(0.5+x*T1/(2*np.pi*T2)-1j*(z2+mu1+m2)/(2*np.pi*T2))
        return A/(x-1j*c3)/(x-1j*c1)
    f1 = -8j*np.pi/T1*_mats_sum(f)
    if abs(c3-c1) > 1e-6:
        f2 = -2j*np.pi/T1*(dig(0.5-1j*c3/(2*np.pi))-dig(0.5-1j*c1/(2*np.pi)))/(c3-c1)
    else:
        f2 = -psi_k(0.5-1j*(c3+c1)/(4*np.pi), 1)/T1
    # the Keldysh indices enter as (p2, p1) = (p1, 1)
    return -1j*0.25*(p1*f1-1.0*f2)


def exactX(p1, eta1, E1, E2, E3, T1, T2, mu1, mu2, D):
    z1, z2, z3 = -E1, -E2, -E3
    m2 = eta1*mu2
    B = dig(0.5-1j*(z3+m2)/(2*np.pi*T2))

    def f(x):
        A = dig(0.5+x*T1/(2*np.pi*T2)-1j*(z2+mu1+m2)/(2*np.pi*T2))
        return (A-B)/(x+1j*(-z2+z3-mu1)/T1)/(x-1j*(z1+mu1)/T1)
    return -1j*(p1*0.25)*(-8j*np.pi/T1)*_mats_sum(f)


def extremes(rng, n):
    out = list(rng.uniform(-40, 40, n)) + list(10.0**rng.uniform(-12, 4, n)*rng.choice([-1, 1], n))
    out += [0.0, 709.0, -709.0, 709.9, -709.9, 745.2, -745.2, 354.0, -354.0, 356.0, -356.0, 1e6, -1e6, 1e-8, -1e-8]
    return [float(x) for x in out]


def run_case(case, mon):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _run(case, mon)


def _run(case, mon):
    import qmeq.specfunc as sf
    import qmeq.specfunc.specfunc as py
    rng = gen.rng_of('p14', case['seed'])
    kind = case['kind']
    if kind == 'stat':
        xs = extremes(rng, 20)
        mon.key('stat', len(xs), round(min(xs), 3), round(max(xs), 3))
        for x in xs:
            want = float(special.expit(-x))
            for f in (sf.fermi_func, sf.c_fermi_func):
                mon.ev('call')
                mon.close('fermi', float(f(x)), want, rtol=1e-13, atol=1e-305, what='x=%r' % x)
            for sign in (1, -1):
                d = -sign*math.exp(-abs(x))/(1+math.exp(-abs(x)))**2
                for f in (sf.diff_fermi, sf.c_diff_fermi):
                    mon.ev('call')
                    mon.close('diff_fermi', float(f(x, sign)), d, rtol=1e-12, atol=1e-140, what='x=%r s=%d' % (x, sign))
                if abs(x) > 1e-9:
                    b = 1/np.expm1(sign*x) if sign*x < 709 else 0.0
                    for f in (sf.bose, sf.c_bose):
                        mon.ev('call')
                        mon.close('bose', float(f(x, sign)), b, rtol=1e-13+5e-16/min(1, abs(x)), atol=1e-300,
                                  what='x=%r s=%d' % (x, sign))
    elif kind == 'gamma':
        mon.key('gamma', case['seed'])
        for _ in range(12):
            m = int(rng.integers(4))
            if m == 0:
                z = complex(0.5, rng.uniform(-60, 60))
            elif m == 1:
                z = complex(0.5+10**rng.uniform(-3, 4), rng.choice([-1, 1])*10**rng.uniform(-3, 5))
            elif m == 2:
                z = complex(rng.uniform(-12, 20), rng.choice([-1, 1])*10**rng.uniform(-2, 1.5))
            else:
                z = complex(rng.uniform(0.01, 30), 0.0)
            w = complex(special.psi(z))
            for f in (sf.digamma, sf.c_digamma, lambda q: sf.polygamma(q, 0), lambda q: sf.c_polygamma(q, 0)):
                mon.ev('call')
                mon.close('digamma', complex(f(z)), w, rtol=1e-11, atol=1e-12, what='z=%r' % z)
            for K in range(1, 5):
                w = psi_k(z, K)
                for f in (sf.polygamma, sf.c_polygamma):
                    mon.ev('call')
                    mon.close('polygamma', complex(f(z, K)), w, rtol=1e-9, what='z=%r K=%d' % (z, K))
    elif kind == 'phi':
        mon.key('phi', case['seed'])
        for _ in range(10):
            x = float(rng.choice([rng.uniform(-50, 50), rng.choice([-1, 1])*10**rng.uniform(-9, 4)]))
            x2 = float(rng.uniform(-30, 30))
            Dm, Dp = -10**rng.uniform(0.5, 4), 10**rng.uniform(0.5, 4)
            if rng.random() < 0.5:
                Dm = -Dp
            s = int(rng.choice([-1, 1]))
            Z = 0.5+1j*x/(2*np.pi)
            lg = math.log(0.5*(abs(Dm)+abs(Dp))/(2*np.pi))
            w = s*(-special.psi(Z).real+lg)
            w2 = s*(-special.psi(0.5+1j*x2/(2*np.pi)).real+lg)
            for a, b, c, d in ((sf.phi, sf.diff_phi, sf.diff2_phi, sf.delta_phi),
                               (sf.c_phi, sf.c_diff_phi, sf.c_diff2_phi, sf.c_delta_phi)):
                mon.ev('call', 4)
                mon.close('phi', a(x, Dp, Dm, s), w, rtol=1e-11, atol=1e-11)
                mon.close('diff_phi', b(x, s), s*psi_k(Z, 1).imag/(2*np.pi), rtol=1e-9, atol=1e-13)
                mon.close('diff2_phi', c(x, s), s*psi_k(Z, 2).real/(4*np.pi**2), rtol=1e-9, atol=1e-13)
                mon.close('delta_phi', d(x, x2, Dp, Dm, s), w-w2, rtol=0, atol=2e-11*(1+abs(w)+abs(w2)))
            # as the principal value it stands for, in a wide band
            Dw = 1e5
            xs = float(np.clip(x, -60, 60))
            pv = -ref.pv_fermi(xs, -Dw, Dw)
            for f in (sf.phi, sf.c_phi):
                mon.close('phi-pv', f(xs, Dw, -Dw), pv, rtol=0, atol=3e-3, what='x=%r' % xs)
    elif kind in ('first', 'first0'):
        its = (0,) if kind == 'first0' else (1, 2, 3)
        mon.key(kind, case['seed'])
        for _ in range(12 if kind == 'first' else 5):
            T = float(10**rng.uniform(-3, 2))
            mu = float(rng.uniform(-5, 5)*T)
            D = sorted([mu+T*rng.uniform(-90, -3), mu+T*rng.uniform(3, 90)])
            if rng.random() < 0.3:
                D = [-60*T, 60*T]
            elif rng.random() < 0.2:
                D = [mu+T*rng.uniform(1, 5), mu+T*rng.uniform(9, 60)]          # empty band
                if rng.random() < 0.5:
                    D = [2*mu-D[1], 2*mu-D[0]]                                   # full band
            E = float(mu + T*rng.choice([rng.uniform(-20, 20), rng.uniform(-150, 150), 0.0, rng.uniform(-800, 800)]))
            if kind == 'first0':
                E = float(mu+T*rng.uniform(-30, 30))
                if min(abs(E-D[0]), abs(E-D[1])) < 0.05*T:
                    E = 0.5*(D[0]+D[1])
            for it in its:
                if it == 1 and min(abs(D[0]), abs(D[1])) < 1e-9*T:
                    continue
                i, o = ref.pauli_rates(E, T, mu, D, it)
                for f in (sf.func_pauli, sf.c_func_pauli):
                    mon.ev('call')
                    mon.close('pauli', np.array(f(E, mu, T, D[0], D[1], it)), np.array([i, o]), rtol=0, atol=3e-15,
                              what='E=%r' % E)
                w = np.array(ref.w1(E, T, mu, D, it), dtype=complex)
                sc = np.array([1, 1, T+abs(E)+np.max(np.abs(D)), T+abs(E)+np.max(np.abs(D))])
                big = 1+np.max(np.abs(w[:2]))
                tol = 1e-6 if it == 0 else 1e-11
                for f in (sf.func_1vN, sf.c_func_1vN):
                    mon.ev('call')
                    mon.close('vn1-%d' % it, np.array(f(E, mu, T, D[0], D[1], it, 10000))/sc, w/sc, rtol=0, atol=tol*big,
                              what='E=%r mu=%r T=%r D=%r' % (E, mu, T, D))
                if it == 0 and D[0] < E < D[1]:
                    mon.ev('inside-band')
    elif kind == 'hilbert':
        n = int(rng.integers(4, 200))
        f = rng.normal(size=n)+1j*rng.normal(size=n)*int(rng.integers(2))
        k = np.arange(-(n-1), n)

        def xl(m):
            m = np.abs(m).astype(float)
            return np.where(m > 0, m*np.log(np.where(m > 0, m, 1)), 0)
        kk = np.abs(k)
        w = np.sign(k)*(xl(kk+1)-2*xl(kk)+xl(kk-1))/np.pi
        want = np.array([np.sum(w[(i-np.arange(n))+n-1]*f) for i in range(n)])
        ker = sf.kernel_fredriksen(n)
        mon.ev('call', 3)
        mon.close('hilbert', sf.hilbert_fredriksen(f, ker), want, rtol=0, atol=1e-11*np.sqrt(n)*np.max(np.abs(f)))
        mon.close('hilbert', sf.hilbert_fredriksen(f), want, rtol=0, atol=1e-11*np.sqrt(n)*np.max(np.abs(f)))
        # a known pair on a fine grid
        m = 4000
        x = np.linspace(-200, 200, m)
        c, g = rng.uniform(-3, 3), rng.uniform(1.0, 3)
        r = sf.hilbert_fredriksen(1/((x-c)**2+g**2)).real
        s = slice(m//4, 3*m//4)
        mon.close('hilbert-pair', r[s], ((x-c)/g/((x-c)**2+g**2))[s], rtol=0, atol=4e-3/g**2)
        mon.key('hilbert', n, bool(np.iscomplexobj(f)))
    elif kind == 'rtd':
        rtd(case, mon, rng, sf)
    elif kind == 'ozaki':
        D = float(rng.uniform(8, 150))
        for f in (sf.BW_Ozaki, sf.c_BW_Ozaki):
            bR = np.array(f(D))
            mon.ev('call')
            b, R = 1/bR[:, 0], bR[:, 1]
            mon.true('ozaki-poles', np.all(b > 0) and np.all(np.isfinite(R)) and np.all(R > 0), lambda: bR)
            mon.true('ozaki-range', 0.6*D < np.max(b) < 4*D+10, lambda: 'largest pole %g for D=%g' % (np.max(b), D))
            x = np.linspace(-1, 1, 81)*D/8
            got = np.array([np.sum(4*v*R/(v*v+b*b)) for v in x])
            acc = 1e-7 if D > 32 else 1e-3
            mon.close('ozaki', got, np.tanh(x/2), rtol=0, atol=acc, what='D=%g' % D)
            low = np.sort(b)[:max(1, len(b)//4)]
            mon.close('ozaki-matsubara', low, np.pi*(2*np.arange(len(low))+1), rtol=acc)
        mon.key('ozaki', round(D, 2))
    elif kind == 'neardeg':
        # fixed inputs: two denominators of 1e-7 at once (see known_findings.jsonl)
        lo = np.zeros((2, 2))
        a = (1, 1, 0.7, 0.5+1e-7, 0.7+1e-7, 1.0, 1.0, 0.2, 0.3, 200.0)
        b = (1, 1, 0.7, 0.5, 0.7, 1.0, 1.0, 0.2, 0.3, 200.0)
        w = exactD(*b).real
        mon.key('neardeg')
        for name, f in (('py', sf.integralD), ('c', sf.c_integralD)):
            mon.ev('call', 2)
            mon.close('degenerate-D', np.real(f(*b, lo, False)), w, rtol=1e-8, what=name)
            mon.close('near-degenerate-D', np.real(f(*a, lo, False)), w, rtol=1e-4, sig='1e-7/1e-7 ' + name, what=name)
    elif kind == 'phonon':
        phonon(case, mon, rng)


def rtd(case, mon, rng, sf):
    T1 = float(10**(rng.uniform(-2, 1.5) if rng.random() < 0.7 else rng.uniform(-6, -3)))
    mode = int(rng.integers(5))
    for _ in range(6):
        mu1, mu2 = [float(v) for v in rng.uniform(-3, 3, 2)*T1]
        eta = int(rng.choice([-1, 1]))
        p1 = int(rng.choice([-1, 1]))
        E1, E2, E3 = [float(v) for v in rng.uniform(-6, 6, 3)*T1]
        delta = 0.0
        if mode in (1, 3, 4):
            E3 = E1                                  # degenerate intermediate states (direct)
            tag = 'E1=E3'
        if mode in (2, 3):
            E2 = mu1+eta*mu2                         # bosonic argument zero
            tag = 'E2=0'
        if mode == 4:
            E3 = E2+mu1*0+eta*mu2*0-E1+mu1+eta*mu2-mu1-eta*mu2   # E2 = E1+E3 (exchange degenerate)
        if rng.random() < 0.3 and mode:
            delta = float(10**rng.uniform(-13, -4))*T1     # and nearly so
            E2 += delta*float(rng.uniform(-1, 1))
            E3 += delta
        gaps = [abs(E1-E3)/T1, abs(E2-mu1-eta*mu2)/T1, abs(E2-E1-E3)/T1]
        gaps = [g for g in gaps if g > 1e-11]
        sg = sorted(gaps+[1.0, 1.0])
        amp, amp2 = 1/min(1.0, sg[0]), 1/min(1.0, sg[1])
        if mode == 3 and delta and amp*amp2 > 1e9:
            continue
        amp13 = 1/min(1.0, abs(E1-E3)/T1) if abs(E1-E3) > 0 else 1.0
        D = 2*float(rng.uniform(60, 200))*T1
        want = [exactD(p1, eta, E1, E2, E3, T1, T1, mu1, mu2, D).real, exactX(p1, eta, E1, E2, E3, T1, T1, mu1, mu2, D).real]
        lo = np.zeros((2, 2))
        # two nearly degenerate denominators multiply the rounding error of the numerator (documented limit of the
        # closed forms, see DESIGN.md); the value itself is regular
        tol = (2e-9+2e-14*amp*amp2)/T1
        for name, w, fs in (('D', want[0], (sf.integralD, sf.c_integralD)), ('X', want[1], (sf.integralX, sf.c_integralX))):
            for f in fs:
                mon.ev('call')
                g = f(p1, eta, E1, E2, E3, T1, T1, mu1, mu2, D, lo, False)
                mon.true('int-real', abs(np.imag(g)) == 0, lambda: '%r' % g)
                mon.close('int%s-eq' % name, float(np.real(g)), w, rtol=0, atol=tol, what='mode %d delta %g amp %g' % (mode, delta, amp))
        # different temperatures, complex values
        T2 = T1 if rng.random() < 0.25 else float(T1*rng.uniform(0.4, 2.5))
        # the logarithmic band constant refers to the temperature of the first lead
        want = [exactD(p1, eta, E1, E2, E3, T1, T2, mu1, mu2, D), exactX(p1, eta, E1, E2, E3, T1, T2, mu1, mu2, D)]
        flag = bool(T2 == T1)
        for name, w, fs in (('D', want[0], (sf.integralD, sf.c_integralD)), ('X', want[1], (sf.integralX, sf.c_integralX))):
            vals = []
            for f, bw in zip(fs, (sf.BW_Ozaki, sf.c_BW_Ozaki)):
                bR = np.array(bw(D/2/min(T1, T2)))
                g = complex(f(p1, eta, E1, E2, E3, T1, T2, mu1, mu2, D, bR, flag))
                vals.append(g)
                mon.ev('call')
                # the sum is cut at D/2 (in units of T2 for the pole), tail ~ log/x
                xc = D/2/T2
                mon.close('int%s-ozaki' % name, np.array([g.real, g.imag]), np.array([w.real, w.imag]), rtol=0,
                          atol=(8*np.log(2+xc)/xc)/T1, what='mode %d T2/T1=%g' % (mode, T2/T1))
            mon.close('int%s-pyc' % name, vals[1], vals[0], rtol=1e-9, atol=(1e-10+1e-13*amp13)/T1)
    mon.key('rtd', mode, case['seed'])


def phonon(case, mon, rng):
    from qmeq.specfunc import specfunc_elph as p
    from qmeq.specfunc import c_specfunc_elph as c
    from qmeq.specfunc import Func
    nb = int(rng.integers(1, 4))
    T = 10**rng.uniform(-2, 1.5, nb)
    D = np.array([[t*rng.choice([1e-4, rng.uniform(0.05, 0.8)]), t*rng.uniform(2, 50)] for t in T])
    a, pw = float(rng.uniform(0.2, 2)), int(rng.integers(1, 3))
    use = rng.random() < 0.7

    class F(Func):
        def eval(self, x):
            return a*abs(x)**pw
    fn = [F() for _ in range(nb)] if use else None
    dos = (lambda w: a*abs(w)**pw) if use else (lambda w: 1.0+0*w)
    eps = 1e-6
    for mod, suf in ((p, 'py'), (c, 'c')):
        fp = mod.FuncPauliElPh(np.array(T), np.array(D), fn, eps)
        for _ in range(8):
            l = int(rng.integers(nb))
            E = float(T[l]*rng.choice([rng.uniform(-10, 10), rng.uniform(-60, 60), 0.0, rng.choice([-1, 1])*10**rng.uniform(-8, 0)]))
            al = max(abs(E)/T[l], eps)
            w = 0.0
            if max(D[l, 0]/T[l], 0.9*eps) < al < D[l, 1]/T[l]:
                nB = 1/np.expm1(al)
                w = 2*np.pi*dos(T[l]*al)*(nB if E >= 0 else 1+nB)
            fp.eval(E, l)
            mon.ev('call')
            mon.close('ph-pauli', fp.val, w, rtol=1e-9, atol=1e-300, what='%s E=%r' % (suf, E)) if al > 1e-3 else \
                mon.close('ph-pauli', fp.val, w, rtol=2e-9, atol=1e-300, what='%s E=%r' % (suf, E))
        for itype in (2, 0):
            f1 = mod.Func1vNElPh(np.array(T), np.array(D), itype, 10000, fn, eps)
            for _ in range(4 if itype == 2 else 2):
                l = int(rng.integers(nb))
                E = float(T[l]*rng.uniform(-12, 12))
                Rm, Rp = max(D[l, 0]/T[l], 0.9*eps), D[l, 1]/T[l]
                al = max(abs(E)/T[l], eps)*(1 if E >= 0 else -1)
                if itype == 0:
                    if min(abs(al-Rm), abs(al-Rp)) < 0.1 or Rm < 0.04:
                        continue
                ip = lambda x: dos(T[l]*x)/np.expm1(x)
                im = lambda x: -dos(T[l]*x)*(1+1/np.expm1(x))
                w = []
                for g in (ip, im):
                    v = -1j*np.pi*g(al) if Rm < al < Rp else 0j
                    if itype == 0:
                        v += pv(g, al, Rm, Rp)
                    w.append(v)
                f1.eval(E, l)
                mon.ev('call')
                sc = 1+np.max(np.abs(w))+(np.max(np.abs([ip(Rm), im(Rp), ip(Rp)])) if itype == 0 else 0)
                mon.close('ph-1vN' if itype == 2 else 'ph-1vN-pv', np.array([f1.val0, f1.val1]), np.array(w), rtol=0,
                          atol=(1e-11 if itype == 2 else 1e-5)*sc, what='%s E=%r T=%r D=%r' % (suf, E, T[l], D[l]))
    mon.key('phonon', nb, use, case['seed'])


def pv(g, al, Rm, Rp):
    if Rm < al < Rp:
        ga = g(al)
        h = 1e-4
        dg = (g(al+h)-g(al-h))/(2*h)
        br = ref._panels(Rm, Rp, [Rm, al], 0.3)

        def q(x):
            d = x-al
            s = np.abs(d) < 1e-5
            return np.where(s, dg, (g(x)-ga)/np.where(s, 1.0, d))
        return ref.integrate(q, br)+ga*np.log((Rp-al)/(al-Rm))
    br = ref._panels(Rm, Rp, [Rm, Rp], 0.05)
    return ref.integrate(lambda x: g(x)/(x-al), br)
