"""P09: stationary observables do not depend on how the same system is described."""
import copy

import numpy as np

from qmon import gen, sysutil, work
from qmon.mon import Inconclusive

RULE = ('A case counts when a system and an equivalent description of it (other indexing, relabelled or rotated '
        'single-particle basis, gauge, split or mixed leads, shifted or rescaled energies, spin symmetry stated) were both '
        'solved and lead currents, energy and heat currents, energies and the spectrum of the state were compared.')
ASSUMPTIONS = ['unique stationary state (gap > 1e-8)', 'approaches without coherences and electron-phonon systems: no '
               'degenerate levels', 'rescaling: wide-band constants scale with the energies']
KINDS = ['indexing', 'basis', 'leads', 'shift', 'scale', 'symmetry', 'basis', 'gauge', 'indexing', 'scale', 'basis', 'leads']
NAMES = ['Pauli', 'Lindblad', 'Redfield', '1vN', 'elph-Pauli', 'elph-Lindblad', 'elph-Redfield', 'elph-1vN', 'RTD', '2vN',
         'Pauli', '1vN', 'Lindblad', 'RTD', 'Redfield']
REQUIRED = {'quick': {'check:current': 1800, 'check:spectrum': 1800, 'kind:basis': 400, 'kind:scale': 300, 'kind:shift': 150,
                      'kind:symmetry': 150, 'kind:leads': 300, 'kind:indexing': 250, 'kind:gauge': 150,
                      'current-flowing': 900, 'state-with-coherences': 200},
            'thorough': {'check:current': 30000}}
BUDGET = {'quick': 400, 'thorough': 5400}


def cases(tier, seed):
    num = 5400 if tier == 'quick' else 50000
    return [dict(kind=KINDS[k % len(KINDS)], seed=seed*100003+k, name=NAMES[(k//len(KINDS)) % len(NAMES)]) for k in range(num)]


# ------------------------------------------------------------------ transformations of a written-out spec
def matrices(sp):
    """Dense operators' coefficients: H = c+ M c + V c+c+cc, T_l = t_l c+ + h.c., X_b c+ c."""
    n = sp.n
    M = np.zeros((n, n), dtype=complex)
    for (i, j), h in sp.hs.items():
        M[j, i] += h
        if i != j:
            M[i, j] += np.conj(h)
    V = np.zeros((n,)*4, dtype=complex)
    for k, u in sp.U.items():
        V[k] += u
    t = np.zeros((sp.nl, n), dtype=complex)
    for (l, i), x in sp.t.items():
        t[l, i] += x
    X = None
    if sp.elph:
        X = np.zeros((sp.elph['nb'], n, n), dtype=complex)
        for (b, i, j), x in sp.elph['v'].items():
            X[b, i, j] += x
    return M, V, t, X


def num(x, cplx):
    return complex(x) if cplx else float(np.real(x))


def from_matrices(sp, M, V, t, X, cplx):
    n = sp.n
    s = copy.copy(sp)
    s.tags = set(sp.tags)
    s.tags.discard('real')
    s.tags.discard('complex')
    s.tags.add('complex' if cplx else 'real')
    s.hs = {(i, j): num(M[j, i], cplx if i != j else False) for i in range(n) for j in range(i, n) if M[j, i] != 0}
    U = {}
    sc = np.max(np.abs(V)) if V.size else 0
    for m in range(n):
        for k in range(m+1, n):
            for p in range(n):
                for q in range(p+1, n):
                    # antisymmetrise: d+_m d+_k d_q d_p collects four entries
                    u = V[m, k, q, p]-V[k, m, q, p]-V[m, k, p, q]+V[k, m, p, q]
                    if abs(u) > 1e-16*sc:
                        U[(m, k, q, p)] = num(u, cplx)
    s.U = U
    s.t = {(l, i): num(t[l, i], cplx) for l in range(t.shape[0]) for i in range(n) if t[l, i] != 0}
    if X is not None:
        s.elph = dict(sp.elph, v={(b, i, j): num(X[b, i, j], cplx) for b in range(len(X)) for i in range(n) for j in range(n)
                                  if X[b, i, j] != 0})
    return s


def rotate(sp, R, cplx):
    """New operators a with c_i = sum_a R_ia d_a."""
    M, V, t, X = matrices(sp)
    Rc = R.conj()
    M = R.conj().T @ M @ R
    V = np.einsum('mnkl,ma,nb,kc,ld->abcd', V, Rc, Rc, R, R)
    t = t @ Rc
    if X is not None:
        X = np.array([R.conj().T @ x @ R for x in X])
    return from_matrices(sp, M, V, t, X, cplx)


def random_unitary(rng, n, kind, cplx):
    if kind == 'perm':
        return np.eye(n)[rng.permutation(n)]
    if kind == 'phase':
        p = np.exp(2j*np.pi*rng.random(n)) if cplx else rng.choice([-1.0, 1.0], n)
        return np.diag(p)
    a = rng.normal(size=(n, n))+(1j*rng.normal(size=(n, n)) if cplx else 0)
    q, r = np.linalg.qr(a)
    if rng.random() < 0.3:
        return q @ np.eye(n)[rng.permutation(n)]
    return q


def lead_arrays(sp):
    mu, T, D = sp.mu_arr(), sp.T_arr(), sp.D_arr()
    return mu, T, D


def set_leads(sp, t, mu, T, D, cplx):
    s = copy.copy(sp)
    s.tags = set(sp.tags)
    s.nl = len(mu)
    s.t = {(l, i): num(t[l, i], cplx) for l in range(s.nl) for i in range(sp.n) if t[l, i] != 0}
    s.mu = {l: float(x) for l, x in enumerate(mu)}
    s.T = {l: float(x) for l, x in enumerate(T)}
    if not np.isscalar(sp.D):
        s.D = {l: [float(a) for a in d] for l, d in enumerate(D)}
    return s


# ------------------------------------------------------------------ the monitor
def solve_pair(mon, w, w2, what, lead_map=None, cur_scale=1.0, en_scale=1.0, en_shift=0.0, tol_extra=0.0, energies=None,
               energy_current=True):
    """lead_map[l'] = l: lead l' of the second description contributes to lead l of the first."""
    base = work.base_of(w.kt)
    f = w.build()
    if not w.kt.startswith('py'):
        f.make_kern_copy = True
    w.solve(f)
    s = w2.build()
    w2.solve(s)
    if not f.success:
        raise Inconclusive('solver failed')
    gap = sysutil.kern_gap(f)
    if base == '2vN':
        gap *= 1e-2
    if not gap > 1e-8:
        raise Inconclusive('stationary state not unique')
    split = min(level_split(f), level_split(s)*cur_scale**-1)/float(np.max(f.tlst))
    if (base in ('Pauli', 'RTD') or (w.elph and base != 'Lindblad')) and split < 1e-5:
        raise Inconclusive('nearly degenerate levels')
    tag = '%s %s' % (w.name, what)
    mon.true('success', bool(s.success), tag)
    a, b = sysutil.obs(f), sysutil.obs(s)
    nl = len(a['current'])
    if lead_map is None:
        lead_map = list(range(nl))

    def fold(x):
        out = np.zeros(nl)
        np.add.at(out, np.array(lead_map), x)
        return out
    cur = fold(b['current'])/cur_scale
    en = (fold(b['energy'])-en_shift*fold(b['current']))/en_scale
    heat = fold(b['heat'])/en_scale
    ex = w.spec.explicit()
    gam = sysutil.gamma_scale(f)
    E = np.array(f.Ea, dtype=float)
    es = gam*(np.ptp(E)+np.max(np.abs(ex.mu_arr()))+np.max(ex.T_arr())+abs(en_shift))
    if w.itype in (0, 1):
        es += gam*np.max(np.abs(ex.D_arr()))*1e-2
    amp = max(1.0, float(np.max(np.abs(a['phi0']))))
    tol = w.tol(gap)*amp*3+tol_extra
    if w.itype == 0 and base in ('Redfield', '1vN'):
        tol += 3e-6+1e-10/gap
    if w.elph and w.opts.get('itype_ph') == 0:
        tol += 1e-4
    if base in ('Pauli', 'RTD') and split < np.inf:
        tol += 1e-12/split
    if base == 'RTD':
        tol += 3e-7*amp
        if 'lead' in what and series(w.spec):
            # complex products and unequal temperatures use a truncated series, the rest a closed form
            tol += 1e-4*amp/min(1.0, split)
    if base == '2vN':
        tol += 1e-9*amp
        if (f.funcp.kpnt_left, f.funcp.kpnt_right) != (s.funcp.kpnt_left, s.funcp.kpnt_right):
            # the number of points outside the band follows from rounding
            raise Inconclusive('other energy grid')
        if split*float(np.max(f.tlst)) in (np.inf,) or split < 1e-6:
            # energies at the very edge of the grid: rounding decides whether they lie on it
            ea, eb = np.sort(np.array(f.Ea, dtype=float)), np.sort(np.array(s.Ea, dtype=float))/cur_scale
            if len(ea) != len(eb) or not np.array_equal(ea, eb):
                raise Inconclusive('edge of the energy grid')
    if not w.opts.get('symq', True):
        # the normalisation row (of order one) stands beside rows of the order of the rates
        tol += 1e-15*amp/(min(1.0, gam, sysutil.gamma_scale(s))*gap)
    if w.elph:
        phs = 1e6*2*np.pi*np.max(np.abs(np.array(f.baths.Vbbp)))**2*np.max(f.baths.tlst_ph)
        if w.spec.elph.get('f') is None:
            tol += 1e-13*phs/gam*amp
        else:
            tol += 1e-12*phs/gam*amp
    ra, rb = sysutil.rho_full(f), sysutil.rho_full(s)
    ea, eb = np.linalg.eigvalsh(0.5*(ra+ra.conj().T)), np.linalg.eigvalsh(0.5*(rb+rb.conj().T))
    off = len(ea) == len(eb) and np.max(np.abs(ea-eb)) > tol
    if base == '2vN' and w.sv.get('niter', 1) > 1 and (off or np.max(np.abs(cur-a['current'])) > tol*gam) and conj_order(w, w2, tol, gam, lead_map, f, s):
        mon.bad('2vN-conjugated-iteration', tag+' current %s vs %s' % (cur, a['current']), sig='phase-of-dot-states')
        return f, s
    mon.close('current', cur, a['current'], rtol=0, atol=tol*gam, what=tag)
    fin = np.isfinite(a['energy'])
    mon.true('energy-nan', bool(np.all(np.isfinite(en) == fin)), lambda: '%s %s %s' % (tag, a['energy'], en))
    if energy_current:
        mon.close('energy', en[fin], a['energy'][fin], rtol=0, atol=tol*es, what=tag)
        mon.close('heat', heat[fin], a['heat'][fin], rtol=0, atol=tol*es, what=tag)
    if len(ea) == len(eb):
        mon.close('spectrum', eb, ea, rtol=0, atol=tol, what=tag)
    # charge distribution and energy
    qa, qb = sysutil.charges(f), sysutil.charges(s)
    pa, pb = np.diag(ra).real, np.diag(rb).real
    n = w.spec.n
    mon.close('charge', np.bincount(qb, pb, minlength=n+1), np.bincount(qa, pa, minlength=n+1), rtol=0, atol=tol*3, what=tag)
    Es = np.array(s.Ea, dtype=float)/en_scale*cur_scale-en_shift*qb if energies is None else energies(np.array(s.Ea, dtype=float), qb)
    mon.close('energies', np.sort(Es), np.sort(E), rtol=0, atol=1e-11*max(np.max(np.abs(E)), 1e-300)+1e-11*abs(en_shift)*n,
              what=tag)
    if np.max(np.abs(a['current'])) > 1e-3*gam:
        mon.ev('current-flowing')
    if np.max(np.abs(ra-np.diag(np.diag(ra)))) > 1e-4:
        mon.ev('state-with-coherences')
    return f, s


def conj_order(w, w2, tol, gam, lead_map, f, s):
    """Is the disagreement the recorded 2vN finding?  The iteration conjugates Phi[1] expressed through Phi[0]_bb' and
    keeps the order b b'; with the order exchanged both descriptions must agree, and what was solved must be what the
    Python solver gives as it is."""
    from qmeq.approach.base import neumann2
    cls = getattr(neumann2, 'TermsCalculator2vN', None)
    if cls is None or not hasattr(cls, 'get_at_k1'):
        return True
    pys = []
    for x, done in ((w, f), (w2, s)):
        y = x.build(kerntype='py2vN')
        x.solve(y)
        if np.max(np.abs(np.array(y.current)-np.array(done.current))) > 1e-6*gam+10*tol*gam:
            return False
    orig = cls.get_at_k1

    def exchanged(self, Ek, l, cb, conj):
        hu, u = orig(self, Ek, l, cb, conj)
        if conj and not np.isscalar(u):
            si = self.si
            perm = np.arange(si.ndm0)
            for c in range(si.ncharge):
                for b in si.statesdm[c]:
                    for bp in si.statesdm[c]:
                        perm[si.get_ind_dm0(b, bp, c)] = si.get_ind_dm0(bp, b, c)
            hu, u = hu[perm], u[perm]
        return hu, u
    cls.get_at_k1 = exchanged
    try:
        for x in (w, w2):
            y = x.build(kerntype='py2vN')
            x.solve(y)
            pys.append(np.array(y.current))
    finally:
        cls.get_at_k1 = orig
    back = np.zeros(len(pys[0]))
    np.add.at(back, np.array(lead_map), pys[1])
    return bool(np.max(np.abs(back-pys[0])) <= 1e-6*gam+10*tol*gam)


def level_split(s):
    """Smallest distance of two levels that the eigenvectors could have mixed (same block of good quantum numbers)."""
    best = np.inf
    for b in sysutil.blocks(s):
        e = np.sort(np.array(b[4], dtype=float))
        if len(e) > 1:
            best = min(best, float(np.min(np.diff(e))))
    return best


def series(sp):
    return 'complex' in sp.tags or len(set(np.atleast_1d(sp.T_arr()).tolist())) > 1


def variant(w, spec, **over):
    w2 = copy.copy(w)
    w2.opts = dict(w.opts)
    w2.spec = spec
    for k, v in over.items():
        setattr(w2, k, v)
    return w2


def run_case(case, mon):
    rng = gen.rng_of('p09', case['seed'])
    name, kind = case['name'], case['kind']
    base = name.replace('elph-', '')
    nodeg = base in ('Pauli', 'RTD') or name.startswith('elph')
    deg = dict(degenerate=False) if nodeg else {}
    mon.ev('kind:' + kind)
    globals()['t_' + kind](case, mon, rng, name, base, deg)


def key(mon, w, *more):
    mon.key(*(w.key()+tuple(more)))


def t_indexing(case, mon, rng, name, base, deg):
    if base == 'RTD':
        name, base = 'Pauli', 'Pauli'
    spin = base != '2vN' and rng.random() < 0.75
    w = work.draw(rng, name, spinful=spin, sym=bool(rng.random() < 0.3) if spin else False, indexing='charge', n=None if spin else 2, **deg)
    opts = ['charge', 'Lin'] if not spin or 'spinful' not in w.spec.tags else (['charge', 'sz', 'ssq'] if w.sym else ['charge', 'Lin', 'sz', 'ssq'])
    a, b = [str(x) for x in rng.permutation(opts)[:2]]
    if spin and base == 'Pauli' and 'spinful' in w.spec.tags and rng.random() < 0.7:
        a, b = [str(x) for x in rng.permutation(['sz', 'ssq'])]
    w.indexing = a
    w2 = variant(w, w.spec, indexing=b)
    f, s = solve_pair(mon, w, w2, '%s -> %s' % (a, b))
    if a in ('charge', 'Lin') and b in ('charge', 'Lin') and not (base in ('Pauli',)):
        amp = 3e-6 if w.itype == 0 else 1e-8
        gap = sysutil.kern_gap(f)
        if sysutil.min_split(f) > 1e-4 and gap > 1e-5 and not w.elph and base != '2vN':
            mon.close('fock-state', sysutil.fock_rho(s), sysutil.fock_rho(f), rtol=0, atol=amp+1e-12/gap)
    key(mon, w, a, b)


def spin_rotation(rng, n, kind, cplx, same):
    h = n//2
    R = np.zeros((n, n), dtype=complex)
    up = random_unitary(rng, h, kind, cplx)
    dn = up if same else random_unitary(rng, h, kind, cplx)
    R[:h, :h], R[h:, h:] = up, dn
    return R


def t_basis(case, mon, rng, name, base, deg, kind=None):
    w = work.draw(rng, name, sym=False, **deg)
    sp = w.spec
    cplx0 = 'complex' in sp.tags
    kind = kind or str(rng.choice(['perm', 'unitary', 'unitary']))
    cplx = cplx0 or (rng.random() < 0.3 and kind != 'perm')
    if w.indexing in ('sz', 'ssq'):
        R = spin_rotation(rng, sp.n, kind, cplx, same=w.indexing == 'ssq')
    else:
        R = random_unitary(rng, sp.n, kind, cplx)
    # approaches without coherences depend on the levels only through the eigenstates
    s2 = rotate(sp, np.asarray(R), cplx)
    if kind == 'gauge-lead':
        pass
    f, s = solve_pair(mon, w, variant(w, s2), '%s %s' % (kind, 'complex' if cplx else 'real'))
    key(mon, w, kind, cplx)


def t_gauge(case, mon, rng, name, base, deg):
    w = work.draw(rng, name, sym=False, **deg)
    sp = w.spec
    cplx = True if rng.random() < 0.7 else 'complex' in sp.tags
    if w.indexing in ('sz', 'ssq'):
        R = spin_rotation(rng, sp.n, 'phase', cplx, same=w.indexing == 'ssq')
    else:
        R = random_unitary(rng, sp.n, 'phase', cplx)
    s2 = rotate(sp, R, cplx)
    M, V, t, X = matrices(s2)
    ph = np.exp(2j*np.pi*rng.random(sp.nl)) if cplx else rng.choice([-1.0, 1.0], sp.nl)
    if w.indexing == 'ssq':
        ph[sp.nl//2:] = ph[:sp.nl//2]
    s2 = set_leads(s2, t*ph[:, None], *lead_arrays(s2), cplx=cplx)
    solve_pair(mon, w, variant(w, s2), 'gauge')
    key(mon, w, 'gauge', cplx)


def t_leads(case, mon, rng, name, base, deg):
    kind = str(rng.choice(['perm', 'split', 'mix', 'add-zero']))
    spinful = False
    w = work.draw(rng, name, sym=False, spinful=spinful, nl=int(rng.integers(1, 4)) if base not in ('RTD', '2vN') else 2, **deg)
    sp = w.spec
    if base == 'RTD' and not np.isscalar(sp.D):
        # the wide-band constant of the series is taken from the first lead
        sp.D = float(np.max(np.abs(sp.D_arr())))
    cplx = 'complex' in sp.tags
    M, V, t, X = matrices(sp)
    mu, T, D = lead_arrays(sp)
    nl = sp.nl
    if kind == 'perm':
        p = rng.permutation(nl)
        s2 = set_leads(sp, t[p], mu[p], T[p], D[p], cplx)
        solve_pair(mon, w, variant(w, s2), 'lead perm %s' % p, lead_map=list(p))
    elif kind in ('split', 'add-zero'):
        l = int(rng.integers(nl))
        al = rng.uniform(0, np.pi/2) if kind == 'split' else 0.0
        if rng.random() < 0.2 and kind == 'split':
            al = np.pi/4
        t2 = np.concatenate([t, t[l:l+1]*np.sin(al)])
        t2[l] *= np.cos(al)
        idx = list(range(nl))+[l]
        p = rng.permutation(nl+1)
        s2 = set_leads(sp, t2[p], mu[idx][p], T[idx][p], D[idx][p], cplx)
        solve_pair(mon, w, variant(w, s2), 'split lead %d angle %.3f' % (l, al), lead_map=[idx[k] for k in p])
    else:
        # two leads in the same equilibrium: any unitary mixture is the same pair of reservoirs
        l = int(rng.integers(nl))
        t2 = np.concatenate([t, (t[l:l+1]*rng.uniform(0.3, 1.2)*rng.choice([-1, 1], sp.n)).astype(t.dtype)])
        idx = list(range(nl))+[l]
        first = set_leads(sp, t2, mu[idx], T[idx], D[idx], cplx)
        u = random_unitary(rng, 2, 'unitary', cplx)
        t3 = t2.copy()
        t3[[l, nl]] = u @ t2[[l, nl]]
        s2 = set_leads(sp, t3, mu[idx], T[idx], D[idx], cplx)
        w1 = variant(w, first)
        w1 = Folded(w1, idx, nl)
        solve_folded(mon, w1, variant(w, s2), idx, nl)
    key(mon, w, kind)


class Folded(object):
    def __init__(self, w, idx, nl):
        self.w, self.idx, self.nl = w, idx, nl


def solve_folded(mon, wf, w2, idx, nl):
    """Both descriptions have the extra lead: only the sums over the mixed pair are compared."""
    w = wf.w
    base = work.base_of(w.kt)
    f, s = w.build(), w2.build()
    if not w.kt.startswith('py'):
        f.make_kern_copy = True
    w.solve(f)
    w2.solve(s)
    if not f.success:
        raise Inconclusive('solver failed')
    gap = sysutil.kern_gap(f)*(1e-2 if base == '2vN' else 1)
    if not gap > 1e-8:
        raise Inconclusive('stationary state not unique')
    split = sysutil.min_split(f)/float(np.max(f.tlst))
    if (base in ('Pauli', 'RTD') or w.elph) and split < 1e-5:
        raise Inconclusive('nearly degenerate levels')
    a, b = sysutil.obs(f), sysutil.obs(s)

    def fold(x):
        out = np.zeros(nl)
        np.add.at(out, np.array(idx), x)
        return out
    gam = sysutil.gamma_scale(f)
    amp = max(1.0, float(np.max(np.abs(a['phi0']))))
    tol = w.tol(gap)*amp*3+(1e-9*amp if base == '2vN' else 0)
    if w.itype == 0 and base in ('Redfield', '1vN'):
        tol += 3e-6+1e-10/gap
    if w.elph:
        phs = 1e6*2*np.pi*np.max(np.abs(np.array(f.baths.Vbbp)))**2*np.max(f.baths.tlst_ph)
        tol += 1e-12*phs/gam*amp+(1e-4 if w.opts.get('itype_ph') == 0 else 0)
    if base in ('Pauli', 'RTD') and split < np.inf:
        tol += 1e-12/split+(1e-6*amp if base == 'RTD' else 0)
        if base == 'RTD' and series(w.spec):
            # complex products and unequal temperatures use a truncated series, the rest a closed form
            tol += 3e-4*amp/min(1.0, split)
    ex = w.spec
    es = gam*(np.ptp(np.array(f.Ea))+np.max(np.abs(ex.mu_arr()))+np.max(ex.T_arr()))
    if w.itype in (0, 1):
        es += gam*np.max(np.abs(ex.D_arr()))*1e-2
    mon.ev('mixed-leads')
    mon.close('current', fold(b['current']), fold(a['current']), rtol=0, atol=tol*gam, what=w.name)
    fin = np.isfinite(fold(a['energy'])) & np.isfinite(fold(b['energy']))
    mon.close('energy', fold(b['energy'])[fin], fold(a['energy'])[fin], rtol=0, atol=tol*es, what=w.name, sig='mix')
    mon.close('heat', fold(b['heat'])[fin], fold(a['heat'])[fin], rtol=0, atol=tol*es, what=w.name, sig='mix')
    ra, rb = sysutil.fock_rho(f), sysutil.fock_rho(s)
    mon.close('state', rb, ra, rtol=0, atol=tol, what=w.name)


def t_shift(case, mon, rng, name, base, deg):
    w = work.draw(rng, name, sym=False, **deg)
    sp = w.spec
    d = gen.r3(rng.uniform(-8, 8)*sp.T[0])
    s2 = copy.copy(sp)
    s2.hs = dict(sp.hs)
    for i in range(sp.n):
        s2.hs[(i, i)] = s2.hs.get((i, i), 0)+d
    s2.mu = {l: x+d for l, x in sp.mu.items()}
    if not (base == 'RTD' or (w.itype == 1 and base in ('Redfield', '1vN'))):
        # itype=1 and RTD know the band only as a wide-band constant
        D = sp.D_arr()
        s2.D = {l: [float(D[l, 0]+d), float(D[l, 1]+d)] for l in range(sp.nl)}
    solve_pair(mon, w, variant(w, s2), 'shift %g' % d, en_shift=d,
               tol_extra=1e-9 if base == '2vN' else 1e-12)
    key(mon, w, round(d, 1))


def t_scale(case, mon, rng, name, base, deg):
    w = work.draw(rng, name, sym=None, **deg)
    lam = float(10**rng.uniform(-4, 4)) if rng.random() < 0.7 else float(2.0**int(rng.integers(-12, 13)))
    if base == '2vN' and rng.random() < 0.7:
        lam = float(4.0**int(rng.integers(-7, 8)))

    def scaled(sp):
        s2 = copy.copy(sp)
        s2.hs = {k: v*lam for k, v in sp.hs.items()}
        s2.U = {k: v*lam for k, v in sp.U.items()}
        r = np.sqrt(lam)
        s2.t = {k: v*r for k, v in sp.t.items()}
        s2.mu = {k: v*lam for k, v in sp.mu.items()}
        s2.T = {k: v*lam for k, v in sp.T.items()}
        s2.D = sp.D*lam if np.isscalar(sp.D) else {k: ([x*lam for x in v] if not np.isscalar(v) else v*lam)
                                                   for k, v in sp.D.items()}
        if sp.elph:
            e = dict(sp.elph)
            fs = e.get('f')
            # rate 2 pi |V|^2 dos(w): the density of states carries an inverse energy
            e['v'] = {k: v*r for k, v in e['v'].items()}
            e['T'] = {k: v*lam for k, v in e['T'].items()}
            e['D'] = {k: [x*lam for x in v] for k, v in e['D'].items()}
            if fs is not None:
                e['f'] = [gen.BathF(f.a*lam**(-f.p), f.p) for f in fs]
            s2.elph = e
        if getattr(sp, 'full', None) is not None:
            s2.full = scaled(sp.full)
        return s2
    s2 = scaled(w.spec)
    solve_pair(mon, w, variant(w, s2), 'scale %g' % lam, cur_scale=lam, en_scale=lam**2, tol_extra=1e-10)
    key(mon, w, round(np.log10(lam)))


def t_symmetry(case, mon, rng, name, base, deg):
    if base in ('RTD', '2vN'):
        name, base = 'Redfield', 'Redfield'
        deg = {}
    elif name in ('elph-Redfield', 'elph-1vN'):
        name = str(rng.choice(['elph-Pauli', 'elph-Lindblad']))
    w = work.draw(rng, name, sym=True, spinful=True, indexing='charge', **deg)
    full = w.spec.full if w.spec.symmetry else w.spec
    if not w.spec.symmetry:
        raise Inconclusive('no spin symmetry drawn')
    if w.spec.elph and not full.elph:
        raise Inconclusive('no explicit phonons')
    ind = str(rng.choice(['charge', 'sz', 'ssq']))
    ind2 = str(rng.choice(['charge', 'Lin', 'sz', 'ssq']))
    if base == 'Pauli' or name == 'elph-Pauli':
        # without coherences degenerate partners must be told apart by their spin
        ind, ind2 = [str(x) for x in rng.choice(['sz', 'ssq'], 2)]
    w.indexing = ind2
    w1 = variant(w, full, indexing=ind2, sym=False)
    w2 = variant(w, w.spec, indexing=ind)
    solve_pair(mon, w1, w2, 'explicit %s -> symmetric %s' % (ind2, ind))
    key(mon, w, ind, ind2)
