"""P03: charge and energy balance over the leads; heat is energy minus work; spin halves agree."""
import numpy as np

from qmon import gen, sysutil, work
from qmon.mon import Inconclusive

RULE = ('A case counts when a random system was solved and the sums over leads of the reported particle and energy '
        'currents, and the lead-by-lead heat relation, were evaluated.')
ASSUMPTIONS = ['stationary state unique (generator gap > 1e-8)',
               'energy balance is only demanded where the approach guarantees it (see the property statement)']
NAMES = ['Pauli', 'Lindblad', 'Redfield', '1vN', 'RTD', 'elph-Pauli', 'elph-Lindblad', '1vN', 'Lindblad',
         'elph-Redfield', 'elph-1vN', '2vN', 'RTD', 'Pauli', '1vN']
REQUIRED = {'quick': {'check:charge': 3000, 'check:energy': 1500, 'check:heat': 3000, 'check:spin-halves': 150,
                      'check:energy-RTD': 100, 'check:energy-2vN': 40, 'restricted': 200},
            'thorough': {'check:charge': 40000}}
BUDGET = {'quick': 400, 'thorough': 5400}


def cases(tier, seed):
    num = 8000 if tier == 'quick' else 60000
    return [dict(kind=NAMES[k % len(NAMES)], seed=seed*100003+k) for k in range(num)]


def gap_of(s, norm_row, py):
    K = np.array(s.kern)
    n = K.shape[1]
    body = K[:-1] if K.shape[0] > n else np.delete(K, norm_row, 0)
    if n == 1:
        return 1.0
    v = np.linalg.svd(body, compute_uv=False)
    return v[n-2]/max(v[0], 1e-300)


def run_case(case, mon):
    rng = gen.rng_of('p03', case['seed'])
    spinful = True if rng.random() < 0.3 and case['kind'] != '2vN' else None
    w = work.draw(rng, case['kind'], spinful=spinful)
    base = work.base_of(w.kt)
    s = w.build()
    how = None
    if w.spec.n > 1 and base not in ('2vN',) and rng.random() < 0.2:
        w.diag(s)
        win = work.states_window(rng, np.array(s.Ea))
        if win is not None:
            how = ('remove_states', win)
            w.restrict(s, how)
            mon.ev('restricted')
    if not w.kt.startswith('py'):
        s.make_kern_copy = True
    w.solve(s)
    gap = gap_of(s, s.norm_row, w.kt.startswith('py'))
    if base == '2vN':
        gap *= 1e-2
    if gap < 1e-8 or (base == '2vN' and gap < 1e-7):
        raise Inconclusive('stationary state not unique')
    if not s.success:
        if gap > 1e-6:
            mon.bad('failed', 'solver failed on a well posed problem')
            return
        raise Inconclusive('solver failed')
    ex = w.spec.explicit()
    gam, es = sysutil.scales(s, w.spec)
    I, E, Q = np.array(s.current), np.array(s.energy_current), np.array(s.heat_current)
    T = np.array(s.Tba)
    real = not np.any(T.imag)
    mon.true('shape', len(I) == ex.nl and len(E) == ex.nl and len(Q) == ex.nl, lambda: '%r' % [I.shape, E.shape, Q.shape])
    mon.true('finite', bool(np.all(np.isfinite(I))), lambda: '%r' % I)
    amp = max(1.0, float(np.max(np.abs(np.array(s.phi0)))))
    tol = (1e-12+1e-14/gap)*amp
    nonconv = {'Lindblad': 0, 'Pauli': 0, 'Redfield': 1, '1vN': 1, 'RTD': 1, '2vN': 1}[base]
    ctol = tol + (1e-6 if base == 'RTD' else 0.0) + (1e-10*amp/gap*1e-2 if base == '2vN' else 0)
    if nonconv and w.itype == 0:
        ctol += 1e-10/gap*1e-2 + 1e-11
    phs = 0.0
    if w.elph:
        phs = 1e6*2*np.pi*np.max(np.abs(np.array(s.baths.Vbbp)))**2*max(w.spec.elph['T'].values())
        ctol += 1e-14*phs/gam + (1e-7 if w.opts.get('itype_ph') == 0 and nonconv else 0)
    mon.small('charge', np.sum(I), ctol*gam*len(I), what=w.name)
    mu = ex.mu_arr()
    want = E - mu*I
    if np.all(np.isfinite(E)):
        mon.close('heat', Q, want, rtol=0, atol=1e-13*(np.max(np.abs(E))+np.max(np.abs(mu*I)))+1e-300, what=w.name)
    else:
        # complex amplitudes: RTD states that it has no energy current
        mon.true('energy-nan', base == 'RTD' and not real and np.all(np.isnan(E)) and np.all(np.isnan(Q)), lambda: '%r %r' % (E, Q))
    cols = how is None
    if not w.elph and base in ('Pauli', 'Lindblad', '1vN') and cols:
        wide = np.max(np.abs(ex.D_arr())) if base == '1vN' and w.itype in (0, 1) else 0
        mon.small('energy', np.sum(E), ctol*(es+gam*wide)*len(I)*10, what='%s itype %d' % (w.name, w.itype))
    elif not w.elph and base == 'RTD' and real and np.all(np.isfinite(E)):
        mon.small('energy-RTD', np.sum(E), 1e-6*es*amp, what=w.name)
    elif base == '2vN':
        # only a converged iteration balances energy: continue, on a grid that resolves the levels
        if case['seed'] % 2 == 0:
            sp = gen.gen_sys(rng, n=int(rng.integers(1, 3)), nl=2, D=60.0*w.spec.T[0], gamma=0.2, tscale=w.spec.T[0],
                             degenerate=False, full_t=True)
            kp = 257
            s2 = sp.build(kerntype=w.kt if sp.n == 1 else '2vN', kpnt=kp)
            with sysutil.quiet():
                s2.solve(niter=6)
            g2, e2 = sysutil.scales(s2, sp)
            dE = np.array(s2.iters[-1].current)-np.array(s2.iters[-2].current)
            if np.max(np.abs(dE)) > 1e-4*g2:
                mon.ev('2vN-not-converged')
            else:
                I2, E2 = np.array(s2.current), np.array(s2.energy_current)
                mon.close('heat', np.array(s2.heat_current), E2-sp.mu_arr()*I2, rtol=0, atol=1e-12*e2)
                mon.small('energy-2vN', np.sum(E2), 1e-2*e2, what='%r %r' % (sp.text(), E2))
    elif not w.elph and base in ('Pauli', 'Lindblad'):
        mon.small('energy', np.sum(E), ctol*es*len(I)*10, what=w.name)
    if 'spinful' in w.spec.tags and (base in work.COH or w.spec.n == 2):
        h = ex.nl//2
        # both spin halves of the leads carry the same (no field, no spin-dependent parameter)
        mon.close('spin-halves', np.concatenate([I[:h], ]), I[h:], rtol=0, atol=(ctol*10+1e-10/gap*1e-3)*gam)
        if np.all(np.isfinite(E)):
            mon.close('spin-halves', E[:h], E[h:], rtol=0, atol=(ctol*10+1e-10/gap*1e-3+(1e-7 if base == 'RTD' else 0))*es)
    # stored series: energies follow the accounting at every iteration
    if base == '2vN':
        for it in s.iters:
            mon.true('iters-current', np.all(np.isfinite(np.array(it.current))))
    mon.key(*(w.key()+(how and how[0], w.kt, s.symq)))
