"""P02: the reported state is a normalised physical stationary state of a probability conserving generator."""
import numpy as np
from scipy.linalg import expm

from qmon import gen, sysutil, work
from qmon.mon import Inconclusive

RULE = ('A case counts when a random system (any approach, optionally with phonons or removed states/coherences) was '
        'solved and the trace, Hermiticity, stationarity, conservation and (where guaranteed) positivity of what it '
        'reported were evaluated.')
ASSUMPTIONS = ['stationary state unique (relative generator gap > 1e-8)']
NAMES = ['Pauli', 'Lindblad', 'Redfield', '1vN', 'elph-Pauli', 'elph-Lindblad', 'elph-Redfield', 'elph-1vN', 'RTD',
         'Lindblad', 'elph-Lindblad', '2vN', 'Pauli']
REQUIRED = {'quick': {'check:trace': 2500, 'check:psd': 400, 'check:dynamics-psd': 200, 'check:conserve': 2200,
                      'check:rates': 350, 'check:population-range': 350, 'check:stationary': 2200, 'restricted': 300, 'mfree': 300},
            'thorough': {'check:trace': 40000}}
BUDGET = {'quick': 400, 'thorough': 5400}


def cases(tier, seed):
    num = 9000 if tier == 'quick' else 52000
    return [dict(kind=NAMES[k % len(NAMES)], seed=seed*100003+k) for k in range(num)] + \
           [dict(kind='mfree', seed=seed*100003+60000+k) for k in range(num//10)]


def slots(si):
    """slot of every allowed pair, through the element numbering."""
    out = {}
    for c in range(si.ncharge):
        for b in si.statesdm[c]:
            for bp in si.statesdm[c]:
                k = si.get_ind_dm0(b, bp, c)
                if k >= 0:
                    out[(b, bp)] = (k, bool(si.get_ind_dm0(b, bp, c, maptype=3)))
    return out


def to_real(vec, si, nkern):
    """Reported vector -> real vector the generator acts on."""
    v = np.array(vec)
    if len(v) == nkern:
        return np.real(v)
    return np.concatenate([v.real, v.imag[si.npauli:]])


RESIDUAL = 1.2e-5       # tolerance of the root finders, for rates of order one


def matrix_free(rng, mon):
    """States found without the matrix of the generator."""
    name = str(rng.choice(['Pauli', '1vN', 'Redfield', 'Lindblad', 'elph-Pauli', 'elph-Lindblad', 'elph-Redfield', 'elph-1vN']))
    w = work.draw(rng, name, symq=True, nmax=2, spinful=True if rng.random() < 0.4 else None)
    if w.spec.n > (4 if name in ('Pauli', 'Lindblad') else 2):
        raise Inconclusive('too large')
    if w.elph:
        w.opts['itype_ph'] = 2
    mx = max([abs(v) for v in w.spec.t.values()]+[0.0])
    if mx < 1e-6:
        raise Inconclusive('no coupling')
    fac = 1.0/(mx*np.sqrt(2*np.pi))
    for sp in (w.spec, getattr(w.spec, 'full', None)):
        if sp is not None:
            sp.t = {k: complex(v*fac) if np.iscomplex(v) else float(np.real(v*fac)) for k, v in sp.t.items()}
    base = work.base_of(w.kt)
    s = w.build(mfreeq=True, solmethod=str(rng.choice(['krylov', 'krylov', 'hybr', 'lm', 'df-sane'])))
    hist = []
    for _ in range(int(rng.integers(1, 3))):
        if hist and w.spec.n > 1 and rng.random() < 0.5:
            win = work.states_window(rng, np.array(s.Ea))
            if win is not None and w.indexing != 'ssq':
                w.restrict(s, ('remove_states', win))
                hist.append(('remove_states', win))
        w.solve(s)
        hist.append('solve')
        if not s.success:
            mon.ev('mfree-not-converged')
            continue
        si = s.si
        p = {b: s.get_phi0(b, b) for c in range(si.ncharge) for b in si.statesdm[c]}
        size = max(1.0, max(abs(x) for x in p.values()))
        mon.close('mfree-trace', sum(p.values()), 1.0, rtol=0, atol=RESIDUAL*size, what=(w.name, hist))
        sl = slots(si)
        for (b, bp) in sl:
            if b < bp:
                mon.close('hermitian', s.get_phi0(b, bp), np.conj(s.get_phi0(bp, b)), rtol=0, atol=1e-13*size, what=w.name)
        # the explicit generator of the same object
        phi = np.array(s.phi0)
        g = w.build()
        for h in hist:
            if h != 'solve':
                w.restrict(g, h)
        if not w.kt.startswith('py'):
            g.make_kern_copy = True
        w.solve(g)
        K = np.array(g.kern)
        nk = K.shape[1]
        v = to_real(phi, g.si, nk)
        rows = [i for i in range(nk) if i != g.norm_row]
        kscale = max(np.max(np.abs(K)), 1.0)
        phs = 0.0
        if w.elph:
            phs = 1e6*2*np.pi*np.max(np.abs(np.array(g.baths.Vbbp)))**2*max(w.spec.elph['T'].values())
        # the phases of eigenvectors are the same: the same diagonalisation of the same matrices
        mon.small('mfree-stationary', K[rows] @ v, RESIDUAL*size+1e-11*kscale*nk*size+1e-14*phs*size, what=(w.name, hist))
        mon.ev('mfree')
    mon.key(*(w.key()+('mfree', w.kt, len(hist))))


def run_case(case, mon):
    rng = gen.rng_of('p02', case['seed'])
    if case['kind'] == 'mfree':
        matrix_free(rng, mon)
        return
    w = work.draw(rng, case['kind'])
    base = work.base_of(w.kt)
    s = w.build()
    r = rng.random()
    how = None
    if w.spec.n > 1 and base != '2vN' and r < 0.35:
        w.diag(s)
        win = work.states_window(rng, np.array(s.Ea))
        if win is not None and (r < 0.22 or base in ('Pauli', 'RTD')):
            how = ('remove_states', win)
        elif base in work.COH:
            how = ('remove_coherences', float(rng.uniform(0.05, 2)*w.spec.T[0]))
        if how:
            w.restrict(s, how)
            mon.ev('restricted')
    # the compiled solver overwrites what it solves; an overdetermined solve is given a copy
    full_kernel = True
    if not w.kt.startswith('py'):
        s.make_kern_copy = True
    w.solve(s)
    si = s.si
    N = si.nmany
    gam, es = sysutil.scales(s, w.spec)
    K = np.array(s.kern)
    nk = K.shape[1]
    if base != '2vN':
        body = K[:-1] if K.shape[0] > nk else np.delete(K, s.norm_row, 0) if not w.kt.startswith('py') else K
        sv = np.linalg.svd(body, compute_uv=False)
        if nk > 1:
            gap = sv[nk-2]/max(sv[0], 1e-300)
        else:
            gap = 1.0
        if gap < 1e-8:
            raise Inconclusive('stationary state not unique')
    else:
        body = np.delete(K, s.norm_row, 0)
        sv = np.linalg.svd(body, compute_uv=False)
        gap = sv[-1]/max(sv[0], 1e-300)*1e-2
        if gap < 1e-9:
            raise Inconclusive('stationary state not unique')
    if not s.success:
        if gap > 1e-6:
            mon.bad('failed', 'solver reported failure on a well posed problem, gap %.2e' % gap)
            return
        raise Inconclusive('solver reported failure')
    size = max(1.0, float(np.max(np.abs(np.array(s.phi0)))))
    tol = (1e-10 + 1e-13/gap)*size
    phs = 0.0
    if w.elph:
        # zero-frequency phonon terms are large and cancel
        phs = 1e6*2*np.pi*np.max(np.abs(np.array(s.baths.Vbbp)))**2*max(w.spec.elph['T'].values())
    sl = slots(si)
    # ---- trace and Hermiticity as seen through the public accessor
    kept = [b for c in range(si.ncharge) for b in si.statesdm[c]]
    p = {b: s.get_phi0(b, b) for b in kept}
    mon.close('trace', sum(p.values()), 1.0, rtol=0, atol=tol, what=w.name)
    for b in range(N):
        if b not in p:
            mon.true('removed-zero', s.get_phi0(b, b) == 0, lambda: 'population of removed state %d' % b)
    for b in p:
        mon.true('real-pop', abs(np.imag(p[b])) <= tol and np.isfinite(p[b]), lambda: 'complex population %r' % p[b])
    for (b, bp) in sl:
        if b < bp:
            x, y = s.get_phi0(b, bp), s.get_phi0(bp, b)
            mon.close('hermitian', x, np.conj(y), rtol=0, atol=tol if base == '2vN' else 1e-13, what=w.name)
    # ---- generator: conservation, stationarity
    v = to_real(s.phi0, si, nk)
    if base == 'RTD':
        v = np.real(np.array(s.phi0))
        v = v[:nk]
    if base != '2vN':
        mult = np.zeros(nk)
        for b in p:
            mult[sl[(b, b)][0]] += 1
        kscale = max(np.max(np.abs(K)) if K.size else 0.0, gam)
        mon.close('norm', mult @ v, 1.0, rtol=0, atol=tol)
        if K.shape[0] > nk:
            G = K[:-1]
        elif w.kt.startswith('py'):
            G = K
        else:
            G = None
        ktol = 1e-11
        if base == 'RTD':
            ktol = 1e-7
        elif w.opts.get('itype_ph') == 0 or (w.itype == 0 and base != 'Pauli'):
            ktol = 1e-8
        if G is not None:
            mon.small('conserve', mult @ G, ktol*kscale*max(1, nk)+1e-14*phs, what=w.name)
            mon.small('stationary', G @ v, (1e-11+ktol*1e-2)*kscale*nk*max(1.0, np.max(np.abs(v)))+1e-14*phs, what=w.name)
            mon.ev('generator-columns', nk)
        else:
            # the normalisation row was replaced: what is left must annihilate the state and, together with
            # conservation, fixes the missing row
            rows = [i for i in range(nk) if i != s.norm_row]
            mon.small('stationary', K[rows] @ v, (1e-11+ktol*1e-2)*kscale*nk*max(1.0, np.max(np.abs(v)))+1e-14*phs, what=w.name)
            if s.norm_row < si.npauli and mult[s.norm_row] > 0:
                mr = [mult[i] for i in rows]
                lost = -(np.array(mr) @ K[rows])/mult[s.norm_row]
                if base == 'Pauli':
                    off = np.delete(lost, s.norm_row)
                    mon.true('rates', off.size == 0 or np.min(off) >= -1e-12*kscale, lambda: 'negative rate %r' % np.min(off))
                mon.small('conserve', lost @ v, 1e-10*kscale*nk+1e-14*phs)
        np_ = si.npauli
        if base == 'Pauli' and G is not None:
            P = G[:np_, :np_]
            off = P[~np.eye(np_, dtype=bool)]
            mon.true('rates', off.size == 0 or np.min(off) >= -1e-13*kscale, lambda: 'negative rate %r' % np.min(off))
            mon.true('rates', np.max(np.diag(P)) <= 1e-13*kscale, 'positive diagonal')
        if base in ('Redfield', '1vN', 'Lindblad') and G is not None and nk > 1:
            # no mode grows for the rate equation and Lindblad
            if base == 'Lindblad' and (how is None or how[0] != 'remove_coherences'):
                mon.small('growing-mode', max(0.0, np.max(np.linalg.eigvals(G).real)), 1e-9*kscale+1e-14*phs)
    if base == 'Pauli':
        q = np.real(list(p.values()))
        mon.true('population-range', np.min(q) >= -tol and np.max(q) <= 1+tol, lambda: '%r' % q)
    # ---- positivity
    if base == 'Lindblad' and (how is None or how[0] != 'remove_coherences'):
        rho = sysutil.rho_full(s)
        ev = np.linalg.eigvalsh(0.5*(rho+rho.conj().T))
        mon.true('psd', ev[0] >= -10*tol, lambda: '%s smallest eigenvalue %.3e' % (w.name, ev[0]))
        if G is not None and si.indexing != 'ssq' and not w.sym:
            # the generator maps physical states to physical states at all times
            X = rng.normal(size=(N, N)) + 1j*rng.normal(size=(N, N))
            R = X @ X.conj().T
            M = np.zeros((N, N), dtype=bool)
            for (b, bp) in sl:
                M[b, bp] = True
            # random physical state compatible with the kept elements: direct sum over connected blocks
            R = np.where(M, R, 0)
            if np.linalg.eigvalsh(R)[0] > -1e-12:
                R = R/np.trace(R).real
                x = np.zeros(nk)
                for (b, bp), (k, same) in sl.items():
                    x[k] = R[b, bp].real
                    if k >= si.npauli:
                        x[si.ndm0+k-si.npauli] = R[b, bp].imag*(1 if same else -1)
                for tt in (0.1, 1.0, 10.0):
                    y = expm(G*(tt/gam)) @ x
                    S = np.zeros((N, N), dtype=complex)
                    for (b, bp), (k, same) in sl.items():
                        im = y[si.ndm0+k-si.npauli] if k >= si.npauli else 0.0
                        S[b, bp] = y[k]+1j*im*(1 if same else -1)
                    e = np.linalg.eigvalsh(S)[0]
                    mon.true('dynamics-psd', e >= -1e-9, lambda: '%s t=%g/Gamma smallest eigenvalue %.3e' % (w.name, tt, e))
                    mon.close('dynamics-trace', np.trace(S).real, 1.0, rtol=1e-9+1e-13*phs*tt/gam)
    mon.key(*(w.key()+(how and how[0], w.kt, s.symq)))
