"""P17: phonon baths: golden rule reference, thermalisation, zero coupling, charge conservation."""
import numpy as np

from qmon import gen, ref, sysutil
from qmon.mon import Inconclusive

RULE = ('A case counts when a random dot with leads and phonon baths was solved by a real approach and compared with '
        'the independent operator-form solution, with the bath-free solution, or with the equilibrium ensemble.')
ASSUMPTIONS = ['levels are not exactly degenerate for the coherent approaches (zero-frequency phonon regularisation '
               'is discontinuous there)', 'numpy.linalg and scipy.special are correct']
REQUIRED = {'quick': {'solve': 5000, 'check:current': 2500, 'check:thermal-populations': 80, 'check:free-current': 80,
                      'check:empty-bath-current': 80, 'only': 80},
            'thorough': {'solve': 60000}}
BUDGET = {'quick': 300, 'thorough': 5400}
KT = ['Pauli', 'Lindblad', 'Redfield', '1vN']


def cases(tier, seed):
    out = []
    num = 9000 if tier == 'quick' else 90000
    for k in range(num):
        mode = ['ref', 'ref', 'ref', 'ref', 'own', 'own', 'thermal', 'free', 'empty', 'charge'][(k//4) % 10]
        py = (k % 12) >= 8
        out.append(dict(kind=mode, kerntype=('py' if py else '') + KT[k % 4], seed=seed*100003+k,
                        itype=[1, 2, 2, 3, 1, 2, 3][(k//5) % 7], itype_ph=[2, 2, 0][(k//7) % 3]))
    # a fixed number of electrons in contact with nothing but phonons
    out += [dict(kind='only', kerntype=('py' if k % 3 == 0 else '')+'Pauli', seed=seed*100003+95000+k, itype=[0, 1, 2, 3][k % 4],
                 itype_ph=[2, 0][(k//4) % 2]) for k in range(num//20)]
    return out


def only(case, mon, rng):
    kt = case['kerntype']
    n = int(rng.integers(2, 5))
    spec = gen.gen_sys(rng, n=n, nl=1, degenerate=False)
    gen.gen_elph(rng, spec, nb=int(rng.integers(1, 3)))
    e = spec.elph
    T = float(e['T'][0])
    e['T'] = {b: T for b in range(e['nb'])}
    # leads without contact, or none
    if rng.random() < 0.5:
        spec.t = {k: 0.0*v for k, v in spec.t.items()}
    else:
        spec.nl, spec.t, spec.mu, spec.T, spec.D = 0, {}, {}, {}, {}
    q = int(rng.integers(1, n))
    s = sysutil.build_elph(spec, kerntype=kt, itype=case['itype'], itype_ph=case['itype_ph'], indexing=str(rng.choice(['charge', 'Lin'])))
    # Fock states that do not hold q electrons
    s.remove_fock_states([j for j in range(2**n) if sum(s.si.get_state(j)) != q])
    with sysutil.quiet():
        s.solve()
    if not s.success:
        raise Inconclusive('no unique state')
    mon.ev('solve')
    E = np.array(s.Ea)
    split = np.min(np.diff(np.sort(E)), initial=np.inf)
    if split < 1e-3*T or np.ptp(E) > 25*T:
        raise Inconclusive('degenerate or too cold')
    if kt == 'Pauli':
        s.make_kern_copy = True
        with sysutil.quiet():
            s.solve()
    gap = sysutil.kern_gap(s)
    if not gap > 1e-9:
        raise Inconclusive('stationary state not unique')
    p = np.exp(-(E-E.min())/T)
    p /= p.sum()
    mon.close('only-phonons', np.array(s.phi0).real, p, rtol=0, atol=1e-9+1e-12/gap, what=(kt, n, q, spec.nl))
    mon.small('only-phonons-current', np.array(s.current), 1e-12)
    mon.ev('only')
    mon.key('only', kt, case['itype'], case['itype_ph'], n, q, spec.nl, e['nb'])


def run_case(case, mon):
    rng = gen.rng_of('p17', case['seed'])
    if case['kind'] == 'only':
        only(case, mon, rng)
        return
    kt, itype, itp = case['kerntype'], case['itype'], case['itype_ph']
    base = kt.replace('py', '')
    mode = case['kind']
    if base in ('Pauli', 'Lindblad') and rng.random() < 0.8:
        itp = 2
    spinful = rng.random() < 0.2
    n = 2 if spinful else int(rng.integers(1, 4 if not kt.startswith('py') else 4))
    if itp == 0:
        n = min(n, 2)
    spec = gen.gen_sys(rng, n=n, spinful=spinful, degenerate=False if not spinful else None,
                       equilibrium=(mode == 'thermal'), equal_T=(True if mode == 'thermal' else None))
    if spinful and base in ('Redfield', '1vN'):
        # keep the two spin species apart: no exact degeneracy
        spec.hs[(1, 1)] = gen.r3(spec.hs[(1, 1)] + 0.2*spec.T[0])
        spec.tags.discard('spinful')
        spinful = False
    gen.gen_elph(rng, spec, nb=int(rng.integers(1, 4)))
    e = spec.elph
    if rng.random() < 0.3 and itp == 2:
        # a band that cuts through the excitation energies
        T0 = spec.T[0]
        e['D'] = {b: [gen.r3(rng.uniform(1e-3, 0.5)*T0), gen.r3(rng.uniform(0.8, 5)*T0)] for b in range(e['nb'])}
        spec.tags.add('cut')
    if mode == 'thermal':
        e['T'] = {b: spec.T[0] for b in range(e['nb'])}
    if mode == 'free':
        e['v'] = {k: 0.0*v for k, v in e['v'].items()}
    if mode == 'empty':
        e['D'] = {b: [900.0*spec.T[0], 1000.0*spec.T[0]] for b in range(e['nb'])}
        itp = 2
    indexing = 'charge'
    sym = False
    if spinful:
        indexing = ('charge', 'Lin', 'sz', 'ssq')[int(rng.integers(4))]
        if rng.random() < 0.4:
            spec = gen.symmetric_half(spec)
            sym = True
            indexing = ('charge', 'sz', 'ssq')[int(rng.integers(3))]
    elif rng.random() < 0.3:
        indexing = 'Lin'
    ex = spec.explicit()
    s = sysutil.build_elph(spec, kerntype=kt, itype=itype, itype_ph=itp, indexing=indexing)
    with sysutil.quiet():
        s.solve()
    mon.ev('solve')
    mon.key(mode, kt, itype, itp, indexing, sym, n, spec.nl, e['nb'], 'f' if e.get('f') else '-',
            '+'.join(sorted(spec.tags)))
    gam = sysutil.gamma_scale(s)
    cur, ecur = np.array(s.current), np.array(s.energy_current)
    gself = gam
    if mode in ('ref', 'own', 'thermal', 'charge'):
        if mode == 'own':
            model = sysutil.own_model(ex, itype, ph=sysutil.spec_ph(ex, itp))
            if model.min_split < 1e-3*spec.T[0]:
                raise Inconclusive('degenerate levels')
        else:
            model = sysutil.model_of(s, spec, itype, ph=sysutil.spec_ph(ex, itp))
        rho, rcur, recur, L, gap = sysutil.reference(model, kt)
        if not gap > 1e-7:
            raise Inconclusive('stationary state not unique')
        mon.true('success', bool(s.success), 'success is %r' % s.success)
        # cancelling zero-frequency terms of size P leave their round-off in the generator
        P = 0.0
        for b in range(e['nb']):
            x0 = max(e['D'][b][0]/e['T'][b], 1e-6)
            vm = max([abs(v) for kk, v in e['v'].items() if kk[0] == b] + [0.0])
            dos = e['f'][b](x0*e['T'][b]) if e.get('f') else 1.0
            P += 2*np.pi*(n*vm)**2*dos/x0
        lmax = float(np.max(np.abs(L))) or 1.0
        noise = 1e-12/gap + 2e-15*P/(gap*lmax)
        if noise > 1e-4:
            raise Inconclusive('ill conditioned')
        tol = (1e-10 if itp == 2 else 1e-4) + noise
        got = sysutil.rho_full(s)
        es = gam*(np.max(np.abs(model.E[:, None]-model.E[None, :])) + np.max(np.abs(ex.mu_arr())) + np.max(ex.T_arr()))
        if itype in (0, 1) and base in ('Redfield', '1vN'):
            es += gam*np.max(np.abs(ex.D_arr()))*1e-2
        tag = 'own-' if mode == 'own' else ''
        if mode == 'own':
            mon.close('own-populations', np.sort(np.diag(got).real), np.sort(np.diag(rho).real), rtol=0, atol=tol*3)
        else:
            mon.close('rho', got, rho, rtol=0, atol=tol)
        mon.close(tag+'current', cur, rcur, rtol=0, atol=tol*gam)
        mon.close(tag+'energy_current', ecur, recur, rtol=0, atol=tol*es)
        mon.close(tag+'heat_current', np.array(s.heat_current), recur-rcur*ex.mu_arr(), rtol=0, atol=tol*es)
        mon.small('charge-conserved', np.sum(cur), (1e-11+noise)*gam)
        # the baths matter in this case?
        m0 = sysutil.model_of(s, spec, itype)
        c0 = sysutil.reference(m0, kt)[1]
        if np.max(np.abs(c0-rcur)) > 1e-6*gam:
            mon.ev('phonons-change-current')
        if mode == 'thermal' and base == 'Pauli':
            p = sysutil.gc_populations(model.E, model.q, spec.mu[0], spec.T[0])
            mon.close('thermal-populations', np.diag(got).real, p, rtol=0, atol=1e-9+noise)
            mon.small('thermal-current', cur, (1e-10+noise)*gam)
            mon.small('thermal-energy', ecur, (1e-10+noise)*es)
        elif mode == 'thermal':
            # coherent approaches: with coherences the equilibrium deviates at the order of the couplings
            p = sysutil.gc_populations(model.E, model.q, spec.mu[0], spec.T[0])
            off = got-np.diag(np.diag(got))
            if np.max(np.abs(off)) < 1e-13:
                mon.close('thermal-populations', np.diag(got).real, p, rtol=0, atol=1e-8+10*noise)
                mon.small('thermal-current', cur, (1e-8+10*noise)*gam)
    else:
        import qmeq
        bare = gen.Spec(spec.n, spec.nl, spec.hs, spec.U, spec.t, spec.mu, spec.T, spec.D)
        bare.symmetry = spec.symmetry
        s0 = bare.build(kerntype=kt, itype=itype, indexing=indexing)
        with sysutil.quiet():
            s0.solve()
        model = sysutil.model_of(s0, spec, itype)
        rho, rcur, recur, L, gap = sysutil.reference(model, kt)
        if not gap > 1e-7:
            raise Inconclusive('stationary state not unique')
        es = gam*(np.max(np.abs(model.E))+np.max(np.abs(ex.D_arr())))
        tol = 1e-11+1e-12/gap
        tag = 'free' if mode == 'free' else 'empty-bath'
        mon.close(tag+'-current', cur, np.array(s0.current), rtol=0, atol=tol*gam)
        mon.close(tag+'-energy', ecur, np.array(s0.energy_current), rtol=0, atol=tol*es)
        mon.close(tag+'-phi0', sysutil.rho_full(s), sysutil.rho_full(s0), rtol=0, atol=tol)
