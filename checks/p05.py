"""P05: first-order approaches against the independent operator-form reference."""
import numpy as np

from qmon import gen, ref, sysutil
from qmon.mon import Inconclusive

RULE = ('A case counts when a random system was solved by a real approach and its full density matrix, lead '
        'currents and energy currents were compared with the independent operator-form solution '
        '(unique stationary state, condition gap > 1e-7).')
ASSUMPTIONS = ['numpy.linalg and scipy.special are correct', 'band edges are tens of kT away from the levels for '
               'the principal value integrals (edges are crossed only by the rate functions)']
REQUIRED = {'quick': {'solve': 3000, 'check:current': 2000, 'check:own-current': 1500, 'check:quad-current': 400}, 'thorough': {'solve': 60000}}
BUDGET = {'quick': 300, 'thorough': 5400}
INDEXINGS = ('charge', 'Lin', 'sz', 'ssq')


def cases(tier, seed):
    out = []
    num = 14000 if tier == 'quick' else 80000
    kts = ['Pauli', 'Lindblad', 'Redfield', '1vN']
    for k in range(num):
        kt = kts[k % 4]
        py = (k//4) % 11 >= 8
        big = (k % 23 == 0)
        out.append(dict(kind=('py' if py else '') + kt, kerntype=('py' if py else '') + kt, seed=seed*100003+k,
                        itype=[0, 1, 2, 1, 2, 3][(k//4) % 6], big=big, spinful=(k % 5 == 0),
                        edge=(k % 7 == 3)))
    return out


def run_case(case, mon):
    rng = gen.rng_of('p05', case['seed'])
    kt, itype = case['kerntype'], case['itype']
    spinful = case['spinful']
    nmax = 5 if (case['big'] and not kt.startswith('py')) else (3 if kt.startswith('py') else 4)
    if spinful:
        n = 2 if nmax < 4 or rng.random() < 0.6 else 4
    else:
        n = int(rng.integers(1, nmax+1))
    tol0 = 2e-5
    if itype == 0 and n > 3:
        n = 3 if not spinful else 2
    nl = None if not (case['big']) else 5
    D = None
    spec = gen.gen_sys(rng, n=n, nl=nl, spinful=spinful)
    if case['edge'] and itype in (0, 2) and kt.replace('py', '') in ('Pauli', 'Lindblad', '1vN', 'Redfield') and itype == 2:
        # bands that end in the middle of the transition energies
        T0 = spec.T[0]
        spec.D = {l: [gen.r3(-rng.uniform(0.5, 6)*T0), gen.r3(rng.uniform(0.5, 8)*T0)] for l in range(spec.nl)}
        if spinful:
            for l in range(spec.nl//2):
                spec.D[l+spec.nl//2] = spec.D[l]
        spec.tags.add('edge')
    if spinful and rng.random() < 0.5:
        spec = gen.symmetric_half(spec)
    indexing = 'charge'
    if spinful:
        indexing = INDEXINGS[int(rng.integers(4))] if spec.symmetry is None else ('charge', 'sz', 'ssq')[int(rng.integers(3))]
    elif rng.random() < 0.3:
        indexing = 'Lin'
    system = spec.build(kerntype=kt, itype=itype, indexing=indexing, symq=bool(rng.integers(2)))
    with sysutil.quiet():
        system.solve()
    mon.ev('solve')
    mask = sysutil.coherence_mask(system, spec)
    model = sysutil.model_of(system, spec, itype, mask=mask)
    rho, cur, ecur, L, gap = sysutil.reference(model, kt)
    if not gap > 1e-7:
        raise Inconclusive('stationary state not unique')
    mon.true('success', bool(system.success), 'success is %r' % system.success)
    half = 1
    nlr = spec.nl//half
    cur, ecur = half*cur[:nlr], half*ecur[:nlr]
    got = sysutil.rho_full(system)
    gam = float(max(abs(np.array(system.Tba)).max()**2*2*np.pi, 1e-300))
    ex = spec.explicit()
    noise = 3e-13/gap
    tag = 'quad-' if itype == 0 else ''
    tol = (3e-11 if itype != 0 else tol0) + noise
    es = gam*(np.max(np.abs(model.E[:, None]-model.E[None, :])) + np.max(np.abs(ex.mu_arr())) + np.max(ex.T_arr()))
    if itype in (0, 1) and kt.replace('py', '') in ('Redfield', '1vN'):
        es += gam*np.max(np.abs(ex.D_arr()))*1e-2
    mu = ex.mu_arr()[:nlr]
    mon.close(tag+'rho', got, rho, rtol=0, atol=tol)
    mon.close(tag+'current', np.array(system.current), cur, rtol=0, atol=tol*gam*half)
    mon.close(tag+'energy_current', np.array(system.energy_current), ecur, rtol=0, atol=tol*es*half)
    mon.close(tag+'heat_current', np.array(system.heat_current), ecur-cur*mu, rtol=0, atol=tol*es*half)
    # once more without taking anything from the package: Hamiltonian and amplitudes from second quantisation
    own = sysutil.own_model(ex, itype)
    if own.min_split > 1e-4*np.max(ex.T_arr()):
        orho, ocur, oecur, oL, ogap = sysutil.reference(own, kt)
        if ogap > 1e-7:
            t2 = tol + 1e-12/ogap + 1e-12/own.min_split
            mon.close(tag+'own-current', np.array(system.current), half*ocur[:nlr], rtol=0, atol=t2*gam*half)
            mon.close(tag+'own-energy', np.array(system.energy_current), half*oecur[:nlr], rtol=0, atol=t2*es*half)
            mon.close(tag+'own-populations', np.sort(np.diag(got).real), np.sort(np.diag(orho).real), rtol=0, atol=t2)
    mon.key(kt, itype, indexing, spec.symmetry, spec.n, spec.nl, '+'.join(sorted(spec.tags)))
    if np.max(np.abs(rho-np.diag(np.diag(rho)))) > 1e-3:
        mon.ev('state-with-coherences')
    if np.max(np.abs(cur)) > 1e-3*gam:
        mon.ev('current-flowing')
