"""P01: compiled approaches and solvers against their pure-Python counterparts."""
import numpy as np

from qmon import gen, sysutil
from qmon.mon import Inconclusive

RULE = ('A case counts when the same random system was solved by a compiled approach and by its pure-Python '
        'counterpart with the same options and state, currents, energy and heat currents were compared.')
ASSUMPTIONS = ['the stationary state is unique (relative gap of the generator > 1e-8), else the case is inconclusive']
REQUIRED = {'quick': {'solve': 3000, 'check:Pauli-phi0': 150, 'check:Lindblad-phi0': 150, 'check:Redfield-phi0': 150,
                      'check:1vN-phi0': 150, 'check:RTD-phi0': 100, 'check:2vN-phi0': 60, 'check:elph-Pauli-phi0': 60,
                      'check:elph-Lindblad-phi0': 60, 'check:elph-Redfield-phi0': 60, 'check:elph-1vN-phi0': 60,
                      'check:kern': 800},
            'thorough': {'solve': 40000}}
BUDGET = {'quick': 400, 'thorough': 5400}
PLAN = ['Pauli', 'Lindblad', 'Redfield', '1vN', 'Lindblad', 'Redfield', '1vN', 'RTD', 'RTD', '2vN',
        'elph-Pauli', 'elph-Lindblad', 'elph-Redfield', 'elph-1vN', 'mfree', 'many', 'RTD', 'lead1']


def cases(tier, seed):
    num = 4200 if tier == 'quick' else 42000
    return [dict(kind=PLAN[k % len(PLAN)], seed=seed*100003+k, itype=[1, 2, 0, 3, 1, 2][(k//len(PLAN)) % 6])
            for k in range(num)]


def run_case(case, mon):
    rng = gen.rng_of('p01', case['seed'])
    kind, itype = case['kind'], case['itype']
    elph = kind.startswith('elph-')
    kt = kind.replace('elph-', '')
    opts = {}
    if kind == 'mfree':
        kt = str(rng.choice(['Pauli', 'Lindblad', 'Redfield', '1vN']))
        opts = dict(mfreeq=True, solmethod=str(rng.choice(['krylov', 'lm', 'hybr'])))
    if kind in ('many', 'lead1'):
        kt = str(rng.choice(['Pauli', 'Lindblad', 'Redfield', '1vN', 'RTD']))
    spinful = rng.random() < 0.25 and kt not in ('2vN',)
    n = {'RTD': 2, '2vN': 2}.get(kt, 3)
    n = int(rng.integers(1, n+1))
    if kt == 'RTD' and rng.random() < 0.1 and kind == 'RTD':
        n = 3
    if spinful:
        n = 2 if kt in ('RTD',) or kind == 'many' or rng.random() < 0.7 else 4
    nl = 1 if kind == 'lead1' else (int(rng.choice([2, 2, 3])) if kt in ('RTD', '2vN') else None)
    degenerate = False if elph and kt in ('Redfield', '1vN') else None
    spec = gen.gen_sys(rng, n=n, nl=nl, spinful=spinful, degenerate=degenerate)
    if itype == 0 and (n > 3):
        itype = 2
    if kt == 'RTD':
        itype = 1
    if elph and not opts.get('mfreeq'):
        if spinful and kt in ('Redfield', '1vN'):
            h = spec.n//2
            for i in range(h):
                spec.hs[(i, i)] = gen.r3(spec.hs[(i, i)]+0.17*spec.T[0])
            spinful = False
            spec.tags.discard('spinful')
        gen.gen_elph(rng, spec)
        opts['itype_ph'] = 2 if (n > 2 or rng.random() < 0.6) else 0
    indexing = None
    sym = False
    if spinful and kt != 'RTD':
        indexing = str(rng.choice(['charge', 'sz', 'ssq']))
        if rng.random() < 0.4:
            spec = gen.symmetric_half(spec)
            sym = True
        elif rng.random() < 0.3:
            indexing = 'Lin'
    elif kt != 'RTD' and rng.random() < 0.25:
        indexing = 'Lin'
    opts['symq'] = bool(rng.random() < 0.7)
    if opts.get('mfreeq'):
        opts['symq'] = True
    nd = {}
    if kt == '2vN':
        opts['kpnt'] = int(rng.choice([32, 50, 64]))
        if not np.isscalar(spec.D):
            spec.D = 60.0*spec.T[0]
        opts['symq'] = True
        itype = 0
    if kind == 'many':
        spec = spec.explicit()
        base = spec.build(kerntype='Pauli', itype=2)
        with sysutil.quiet():
            base.solve(masterq=False)
        import qmeq
        q = sysutil.charges(base)
        kw = dict(Ea=np.array(base.Ea), Na=[int(v) for v in q], Tba=np.array(base.Tba), mulst=dict(spec.mu),
                  tlst=dict(spec.T), dband=spec.kwargs()['dband'], itype=itype, **opts)

        def make(k):
            return qmeq.BuilderManyBody(kerntype=k, **kw)
        sv = dict(qdq=False)
    elif elph:
        def make(k):
            return sysutil.build_elph(spec, kerntype=k, itype=itype, indexing=indexing, **opts)
        sv = {}
    else:
        def make(k):
            return spec.build(kerntype=k, itype=itype, indexing=indexing, **opts)
        sv = {}
    if kt == '2vN':
        sv = dict(niter=int(rng.integers(1, 4)))
    a, b = make(kt), make('py'+kt)
    # options that exist on both sides
    restrict = None
    if kt in ('RTD',):
        od = bool(rng.integers(2))
        a.off_diag_corrections = od
        b.off_diag_corrections = od
    r = rng.random()
    if kind not in ('many', '2vN', 'mfree', 'lead1') and n > 1 and r < 0.25:
        restrict = 'remove_states' if (r < 0.15 or kt in ('Pauli', 'RTD')) else 'remove_coherences'
        for s in (a, b):
            with sysutil.quiet():
                s.solve(masterq=False)
            if restrict == 'remove_states':
                E = np.array(s.Ea)
                dE = float(np.sort(E-E.min())[len(E)//2])*1.0000001+1e-9
                s.remove_states(dE)
            else:
                s.remove_coherences(0.5*spec.T[0])
    nsolve = 1 if rng.random() < 0.7 else 2
    if not opts['symq'] or opts.get('mfreeq'):
        pass
    else:
        row = int(rng.integers(b.appr.get_kern_size())) if kt != '2vN' else 0
        if kt == 'RTD':
            row = int(rng.integers(b.si.npauli))
        if rng.random() < 0.3:
            # any row that is an equation of a population is redundant
            a.norm_row = b.norm_row = min(row, b.si.npauli-1) if not sym else 0
    a.make_kern_copy = True
    with sysutil.quiet(), np.errstate(all='ignore'):
        for _ in range(nsolve):
            a.solve(**sv)
            b.solve(**sv)
    mon.ev('solve', 2)
    if not b.success:
        raise Inconclusive('python solver failed')
    gam, es = sysutil.scales(a, spec)
    if kt in ('Redfield', '1vN') and itype in (0, 1) or kt in ('RTD', '2vN'):
        es += gam*np.max(np.abs(spec.explicit().D_arr()))*1e-2
    if opts.get('mfreeq'):
        gap, tol = 1.0, 2e-4
    else:
        gap = sysutil.gap_of(b)
        if gap < 1e-8:
            raise Inconclusive('stationary state not unique')
        mon.true('success', bool(a.success), 'compiled solver failed on a well posed problem')
        tol = 1e-11+1e-13/gap
    if kt in ('Pauli', 'Lindblad', 'Redfield', '1vN') and itype == 0:
        tol += 1e-10
    rnd = 0.0
    if elph and not opts.get('mfreeq'):
        # the normalisation, which is no rate, is the last row or takes the place of one
        rates = np.delete(np.array(b.kern), b.norm_row if opts['symq'] else -1, 0)
        rnd = 1e-15*sysutil.dephasing(b)/max(np.max(np.abs(rates), initial=0), 1e-300)
        tol += rnd/gap
    if kt == 'RTD':
        Ka, Kb = np.array(a.kern), np.array(b.kern)
        Ka, Kb = np.delete(Ka, a.norm_row, 0)[:len(Kb)-1], np.delete(Kb, a.norm_row if opts['symq'] else len(Kb)-1, 0)
        if not opts['symq']:
            Ka = np.array(a.kern)[:-1]
        tol += 1e-9+10*np.max(np.abs(Ka-Kb), initial=0)/max(np.max(np.abs(Kb), initial=0), 1e-300)/gap
    if kt == '2vN':
        tol += 1e-8
    if opts.get('itype_ph') == 0:
        tol += 1e-8/gap*1e-2
    mon.true('phi0-size', len(a.phi0) == len(b.phi0), lambda: '%d %d' % (len(a.phi0), len(b.phi0)))
    name = ('elph-' if elph else '') + kt
    if opts.get('mfreeq'):
        name = 'mfree'
        ka = kb = None
        # only decide when both root finders converged on a well conditioned problem
        c = make('py'+kt)
        c.mfreeq = False
        c.solmethod = None if False else 'solve'
        with sysutil.quiet():
            c.solve()
        if sysutil.gap_of(c) < 2e-3:
            raise Inconclusive('matrix-free problem too stiff')
        mon.true('success', bool(a.success) == bool(b.success), lambda: '%r %r' % (a.success, b.success))
    oa, ob = sysutil.obs(a), sysutil.obs(b)
    cplx = bool(np.any(np.abs(np.imag(np.array(a.Tba))) > 0))
    sysutil.compare(mon, name, oa, ob, gam, es, tol, nan_ok=(kt == 'RTD' and cplx))
    if kt == '2vN':
        mon.true('niter', a.niter == b.niter and len(a.iters) == len(b.iters))
        for x, y in zip(a.iters, b.iters):
            mon.close('2vN-iters', x.current, y.current, rtol=0, atol=tol*gam)
        mon.close('2vN-phi1k', np.array(a.appr.phi1k), np.array(b.appr.phi1k), rtol=1e-8)
    elif not opts.get('mfreeq'):
        # the generator itself, the normalisation row is replaced in the compiled copy
        Ka, Kb = np.array(a.kern), np.array(b.kern)
        if a.appr.funcp.symq and Ka.shape == Kb.shape:
            rows = [i for i in range(len(Ka)) if i != a.norm_row]
            Ka, Kb = Ka[rows], Kb[rows]
        if kt != 'RTD':
            mon.close('kern', Ka, Kb, rtol=(1e-6 if itype == 0 or opts.get('itype_ph') == 0 else 1e-11+rnd))
        else:
            mon.close('kern', Ka, Kb, rtol=1e-6)
        if restrict:
            mon.ev('restricted')
    mon.key(name, itype, indexing, sym, spec.n, spec.nl, restrict, opts['symq'], '+'.join(sorted(spec.tags)))
