"""P22: the stages of a solution compose: diagonalise, rotate, solve, in one call or in many."""
import copy

import numpy as np

from qmon import gen, ref, sysutil, work
from qmon.mon import Inconclusive
from checks import p10

RULE = ('A case counts when a live system went through a random history of partial solutions, changes of the dot (which wait '
        'for the next diagonalisation) and changes of the reservoirs (which do not), and every solution was compared with a '
        'fresh system of the parameters in force; or when edited many-body energies and amplitudes were solved and compared '
        'with the reference.')
ASSUMPTIONS = ['RTD (whose energy currents use tleads itself): amplitudes are changed together with a diagonalisation',
               'unique stationary state (gap > 1e-8)', 'the eigenvectors are rotated whenever they are renewed',
               'levels of one charge are not within 1e-6 of each other for the approaches without coherences']
NAMES = ['Pauli', '1vN', 'Redfield', 'Lindblad', 'elph-Pauli', 'elph-Lindblad', 'RTD', 'elph-Redfield', 'elph-1vN',
         'Pauli', '1vN', 'Lindblad', '2vN', 'Redfield', 'RTD']
REQUIRED = {'quick': {'check:current': 3500, 'check:state': 4500, 'diag': 1000, 'rotate-later': 300, 'full': 1000,
                      'lazy': 800, 'check:parameters': 400, 'hidden': 500, 'in-place': 550, 'assigned': 250, 'edited': 200, 'check:edited-current': 150,
                      'renewed': 100, 'scribbled': 400},
            'thorough': {'check:current': 40000}}
BUDGET = {'quick': 300, 'thorough': 5400}


def cases(tier, seed):
    num = 4800 if tier == 'quick' else 40000
    out = [dict(kind=NAMES[k % len(NAMES)], seed=seed*100003+k) for k in range(num)]
    m = 640 if tier == 'quick' else 6000
    return out+[dict(kind='edited', seed=seed*100003+k) for k in range(m)]


def merged(live, off):
    """Parameters of the dot with what was added to the matrices only."""
    out = copy.deepcopy(live)
    for a, b in ((out.hs, off['hs']), (out.U, off['U']), (out.t, off['t'])):
        for k, x in b.items():
            a[k] = a.get(k, 0)+x
    if out.elph:
        for k, x in off['v'].items():
            out.elph['v'][k] = out.elph['v'].get(k, 0)+x
    return out


def hidden(rng, live, spec, s, off, base):
    """Added to the many-body matrices, not to the dictionaries."""
    cplx = 'complex' in spec.tags
    T0 = float(np.mean(live.T))
    kinds = ['hs'] + (['t'] if base != 'RTD' else []) + (['U'] if live.n > 1 and live.rule is None and not spec.symmetry else []) + (['v'] if live.elph else [])
    if live.rule == 'ssq':
        kinds = ['t']
    par = str(rng.choice(kinds))
    if par == 'hs':
        i = int(rng.integers(live.n))
        k, x = (i, i), gen.r3(rng.uniform(-1, 1)*T0)
        if rng.random() < 0.3:
            s.qd.change(hsingle={k: x}, updateq=False)
            off['hs'][k] = off['hs'].get(k, 0)+x-live.hs.get(k, 0)
            return 'hidden-change'
        s.qd.add(hsingle={k: x} if rng.random() < 0.7 else [[i, i, x]], updateq=False)
    elif par == 'U':
        i, j = sorted(int(x) for x in rng.choice(live.n, 2, replace=False))
        k, x = (i, j, j, i), gen.r3(rng.uniform(0.2, 2)*T0)
        if rng.random() < 0.5:
            s.qd.change(coulomb={k: x}, updateq=False)
            off['U'][k] = off['U'].get(k, 0)+x-live.U.get(k, 0)
            return 'hidden-change'
        s.qd.add(coulomb={k: x}, updateq=False)
    elif par == 't':
        k, x = (int(rng.integers(live.nl)), int(rng.integers(live.n))), gen.cnum(rng, 0.1*np.sqrt(T0), cplx)
        s.leads.add(tleads={k: x} if rng.random() < 0.7 else [[*k, x]], updateq=False)
    else:
        b, i = int(rng.integers(live.elph['nb'])), int(rng.integers(live.n))
        k, x = (b, i, i), gen.r3(rng.uniform(-1, 1)*0.1*np.sqrt(T0))
        s.baths.add(velph={k: x}, updateq=False)
    off[par][k] = off[par].get(k, 0)+x
    return 'hidden-'+par


def reservoirs(rng, live, spec, s, base, mon):
    """Parameters of the reservoirs set through the attributes of the system."""
    half = 2 if spec.symmetry else 1
    T0 = float(np.mean(live.T))
    names = ['mulst', 'tlst', 'dlst'] + (['tlst_ph', 'dlst_ph'] if live.elph else [])
    name = str(rng.choice(names))
    arr = {'mulst': live.mu, 'tlst': live.T, 'dlst': live.D, 'tlst_ph': getattr(live, 'Tph', None),
           'dlst_ph': getattr(live, 'Dph', None)}[name]
    ph = name.endswith('_ph')
    m = len(arr)
    new = np.array(arr)
    if name == 'mulst':
        new[:] = [gen.r3(rng.uniform(-2, 2)*T0) for _ in range(m)]
    elif name in ('tlst', 'tlst_ph'):
        new[:] = [gen.r3(rng.uniform(0.6, 1.6)*T0) for _ in range(m)]
    elif name == 'dlst':
        x = gen.r3(rng.uniform(40, 90)*T0)
        new[:, 0], new[:, 1] = -x, x
        if base != '2vN':
            new[:, 1] *= 1.2
    else:
        new[:, 0], new[:, 1] = gen.r3(1e-4*T0), gen.r3(rng.uniform(30, 60)*T0)
    single = rng.random() < 0.5 and not (base == '2vN' and name == 'dlst')
    if single:
        # one element of the array the system uses
        l = int(rng.integers(m))
        arr[l] = new[l]
        view = getattr(s, name)
        view[l] = new[l]
        if half == 2 and not ph:
            view[l+m] = new[l]
        mon.ev('in-place')
        return name+'[%d]' % l
    arr[:] = new
    full = np.concatenate([new]*half) if not ph else new
    how = int(rng.integers(3))
    if how == 0:
        getattr(s, name)[:] = full
        mon.ev('in-place')
    else:
        setattr(s, name, np.array(full) if how == 1 else [list(x) if np.ndim(x) else float(x) for x in full])
        mon.ev('assigned')
    return name+'=%d' % how


def edited(rng, mon):
    """Many-body energies and amplitudes set by hand."""
    base = str(rng.choice(['Pauli', 'Lindblad', 'Redfield', '1vN']))
    kt = ('py' if rng.random() < 0.4 else '')+base
    itype = int(rng.choice([1, 2, 3]))
    spec = gen.gen_sys(rng, n=int(rng.integers(1, 4)), spinful=False)
    s = spec.build(kerntype=kt, itype=itype)
    with sysutil.quiet(), np.errstate(all='ignore'):
        if rng.random() < 0.6:
            s.solve()
        else:
            s.solve(masterq=False)
    q = sysutil.charges(s)
    T0 = float(spec.T[0])
    for _ in range(int(rng.integers(1, 4))):
        E, T = np.array(s.Ea, dtype=float), np.array(s.Tba, dtype=complex)
        what = int(rng.integers(4))
        if what in (0, 3):
            E = E+T0*rng.uniform(-0.5, 0.5, len(E))
            if rng.random() < 0.5:
                s.Ea = E
            else:
                s.Ea[:] = E
        if what in (1, 3):
            T = T*float(rng.uniform(0.7, 1.3))
            l = int(rng.integers(len(T)))
            T[l] *= 0.8
            if rng.random() < 0.5:
                s.Tba = T
            else:
                s.Tba[:] = T
        if what == 2:
            b, c = next((b, c) for b in range(len(q)) for c in range(len(q)) if q[c] == q[b]+1)
            z = 0.05*np.sqrt(T0)*float(rng.uniform(0.3, 1))*(np.exp(2j*np.pi*rng.random()) if 'complex' in spec.tags else 1)
            T[0, c, b], T[0, b, c] = z, np.conj(z)
            s.Tba[0, c, b], s.Tba[0, b, c] = z, np.conj(z)
        mon.ev('edited')
        with sysutil.quiet(), np.errstate(all='ignore'):
            s.solve(qdq=False)
        ex = spec.explicit()
        model = ref.Model(E, q, T, ex.mu_arr(), ex.T_arr(), ex.D_arr(), itype)
        rho, cur, ecur, L, gap = sysutil.reference(model, kt)
        if not gap > 1e-7:
            raise Inconclusive('stationary state not unique')
        N = len(E)
        got = np.array([[s.get_phi0(i, j) for j in range(N)] for i in range(N)], dtype=complex)
        tol = (1e-10+1e-12/gap)*max(1.0, np.max(np.abs(rho)))
        gam = 2*np.pi*np.max(np.abs(T))**2
        mon.close('edited-state', got, rho, rtol=0, atol=tol, what=kt)
        mon.close('edited-current', np.array(s.current), cur, rtol=0, atol=tol*gam, what=kt)
        mon.close('edited-energies', np.array(s.Ea), E, rtol=0, atol=0, what=kt)
    # a complete solution starts again from the parameters
    f = spec.build(kerntype=kt, itype=itype)
    if not kt.startswith('py'):
        f.make_kern_copy = True
    with sysutil.quiet(), np.errstate(all='ignore'):
        s.solve()
        f.solve()
    gap = sysutil.kern_gap(f)
    if gap > 1e-8 and f.success:
        mon.ev('renewed')
        gam, es = sysutil.scales(f, spec)
        es += gam*np.max(np.abs(spec.explicit().D_arr()))*1e-2
        b = sysutil.obs(f)
        tol = (1e-11+1e-13/gap)*3*max(1.0, float(np.max(np.abs(b['phi0']))))
        mon.close('renewed-energies', np.array(s.Ea), np.array(f.Ea), rtol=0, atol=0, what=kt)
        mon.close('renewed-amplitudes', np.array(s.Tba), np.array(f.Tba), rtol=0, atol=0, what=kt)
        sysutil.compare(mon, 'renewed', sysutil.obs(s), b, gam, es, tol)
    mon.key('edited', kt, itype, spec.n)


def scribble(rng, s):
    """Overwrites what the next complete solution has to make anew."""
    names = ['Ea', 'Tba'] + (['Vbbp'] if getattr(s, 'Vbbp', None) is not None else [])
    k = str(rng.choice(names))
    a = getattr(s, k)
    if rng.random() < 0.5:
        a[...] = a*1.3+0.1
    else:
        a[int(rng.integers(len(a)))] += 0.3
    return 'scribble '+k


def run_case(case, mon):
    rng = gen.rng_of('p22', case['seed'], case['kind'] == 'edited')
    if case['kind'] == 'edited':
        return edited(rng, mon)
    w = work.draw(rng, case['kind'], sym=None, degenerate=False if 'Pauli' in case['kind'] or case['kind'] == 'RTD' else None)
    base = work.base_of(w.kt)
    spec = w.spec
    live = p10.Live(spec)
    if not spec.symmetry and w.indexing in ('sz', 'ssq'):
        live.rule = w.indexing
    s = w.build()
    off = dict(hs={}, U={}, t={}, v={})
    hist = []
    w.solve(s) if rng.random() < 0.5 else w.diag(s)
    done = merged(live, off)           # what the last diagonalisation saw
    dirty = amps = spoilt = False
    solved = 0
    steps = int(rng.integers(3, 9)) if base not in ('RTD', '2vN') else int(rng.integers(2, 6))
    for k in range(steps):
        r = rng.random()
        if k == steps-1:
            r = 0.65+0.35*r
        if rng.random() < 0.08:
            hist.append(scribble(rng, s))
            mon.ev('scribbled')
            spoilt = True
        if r < 0.3:
            meth, arg, what = p10.one_op(rng, live, spec, mon)
            if base == '2vN' and ('D' in what or what.startswith('dband')):
                live.D[:, 0], live.D[:, 1] = -live.D[0, 1], live.D[0, 1]
                meth, arg, what = 'change', dict(dlst=float(live.D[0, 1])), 'Darray'
            if meth == 'dband':
                s.dband = arg
            else:
                getattr(s, meth)(**arg)
            dirty = dirty or what[0] in 'hUtv'
            amps = amps or what[0] == 't'
            hist.append(meth+':'+what)
            continue
        if r < 0.38:
            hist.append(hidden(rng, live, spec, s, off, base))
            mon.ev('hidden')
            p10.check_params(s, live, spec, mon, list(hist))
            dirty = True
            continue
        if r < 0.5:
            hist.append(reservoirs(rng, live, spec, s, base, mon))
            continue
        if r < 0.65:
            with sysutil.quiet(), np.errstate(all='ignore'):
                if rng.random() < 0.35:
                    s.solve(rotateq=False, masterq=False)
                    s.appr.rotate()
                    mon.ev('rotate-later')
                    hist.append('diag,rotate')
                else:
                    s.solve(masterq=False)
                    hist.append('diag')
                mon.ev('diag')
            done = merged(live, off)
            dirty = amps = spoilt = False
            continue
        kw = {}
        if r < 0.88 and not (amps and base == 'RTD') and not spoilt:
            kw['qdq'] = False
            if dirty:
                mon.ev('lazy')
            if base == '2vN':
                kw['restartq'] = True
        else:
            mon.ev('full')
            done = merged(live, off)
            dirty = amps = spoilt = False
        cur = base == '2vN' or rng.random() < 0.8
        if not cur:
            kw['currentq'] = False
        w.solve(s, **kw)
        hist.append('solve%s' % sorted(kw.items()))
        for a in ('mu', 'T', 'D', 'Tph', 'Dph'):
            if hasattr(live, a):
                setattr(done, a, np.array(getattr(live, a)))
        p10.against_fresh(mon, s, w, spec, done, 1, None, list(hist), currents=cur)
        solved += 1
    mon.key(*(w.key()+(w.kt, solved, hist[-1])))
