"""P10: any history of additions and changes equals building the final system afresh."""
import copy

import numpy as np

from qmon import gen, sysutil, work
from qmon.mon import Inconclusive

RULE = ('A case counts when a live system went through a random history of add/change calls (interleaved with solves) '
        'and its next solve was compared with a system built from the final parameters.')
ASSUMPTIONS = ['changes name every element by the key it was entered with', 'unique stationary state (gap > 1e-8)',
               'levels of one charge are not within 1e-6 of each other for the approaches without coherences']
NAMES = ['Pauli', '1vN', 'Redfield', 'Lindblad', 'elph-Pauli', 'elph-Lindblad', 'RTD', 'elph-Redfield', 'elph-1vN',
         'Pauli', '1vN', 'Lindblad', '2vN', 'Redfield', 'RTD']
REQUIRED = {'quick': {'check:current': 3600, 'op': 13000, 'solve-between': 4000, 'check:parameters': 8000,
                      'fock-removed': 130, 'units': 300, 'renewal': 900}, 'thorough': {'check:current': 20000}}
BUDGET = {'quick': 400, 'thorough': 5400}


def cases(tier, seed):
    num = 6000 if tier == 'quick' else 30000
    return [dict(kind=NAMES[k % len(NAMES)], seed=seed*100003+k) for k in range(num)]


class Live(object):
    """Parameters as they should be after the calls made so far."""

    def __init__(self, spec):
        self.rule = None
        self.n = spec.n//2 if spec.symmetry else spec.n
        self.nl = spec.nl//2 if spec.symmetry else spec.nl
        self.hs, self.U, self.t = dict(spec.hs), dict(spec.U), dict(spec.t)
        self.mu = np.array([spec.mu[l] for l in range(self.nl)])
        self.T = np.array([spec.T[l] for l in range(self.nl)])
        self.D = spec.D_arr()[:self.nl] if not spec.symmetry else spec.explicit().D_arr()[:self.nl]
        self.elph = copy.deepcopy({k: v for k, v in spec.elph.items() if k != 'f'}) if spec.elph else None
        if self.elph:
            nb = self.elph['nb']
            self.Tph = np.array([self.elph['T'][b] for b in range(nb)])
            self.Dph = np.array([self.elph['D'][b] for b in range(nb)], dtype=float)


def final_spec(spec, live):
    s = copy.copy(spec)
    s.tags = set(spec.tags)
    if spec.symmetry:
        full = copy.copy(spec.full)
        h, hl = spec.n//2, spec.nl//2
        s.full = full
    s.hs, s.U, s.t = dict(live.hs), dict(live.U), dict(live.t)
    s.mu = {l: float(live.mu[l]) for l in range(live.nl)}
    s.T = {l: float(live.T[l]) for l in range(live.nl)}
    s.D = {l: [float(live.D[l, 0]), float(live.D[l, 1])] for l in range(live.nl)}
    if spec.elph:
        s.elph = dict(spec.elph, v=dict(live.elph['v']), T={b: float(x) for b, x in enumerate(live.Tph)},
                      D={b: [float(x[0]), float(x[1])] for b, x in enumerate(live.Dph)})
    return s


def scaled_spec(spec, u):
    """The same system in another unit of energy (an even power of two: exact)."""
    if u == 1:
        return spec
    r = 2.0**(np.log2(u)/2)
    s = copy.copy(spec)
    s.tags = set(spec.tags)
    mul = lambda d, x: {k: v*x for k, v in d.items()}
    band = lambda v: v*u if np.isscalar(v) else [x*u for x in v]
    s.hs, s.U, s.t = mul(spec.hs, u), mul(spec.U, u), mul(spec.t, r)
    s.mu, s.T = mul(spec.mu, u), mul(spec.T, u)
    s.D = spec.D*u if np.isscalar(spec.D) else {k: band(v) for k, v in spec.D.items()}
    if spec.elph:
        e = spec.elph
        s.elph = dict(e, v=mul(e['v'], r), T=mul(e['T'], u), D={k: band(v) for k, v in e['D'].items()})
    return s


def scaled_arg(arg, u):
    """Arguments of add and change in that unit."""
    if u == 1:
        return arg
    r = 2.0**(np.log2(u)/2)

    def sc(x, f, rows):
        if isinstance(x, dict):
            return {k: sc(v, f, 0) for k, v in x.items()}
        if isinstance(x, np.ndarray):
            return x*f
        if isinstance(x, (list, tuple)):
            return [list(v[:rows])+[v[-1]*f] if rows else sc(v, f, 0) for v in x]
        return x*f
    if not isinstance(arg, dict):
        return sc(arg, u, 0)
    if not arg or not isinstance(next(iter(arg)), str):
        return sc(arg, u, 0)
    rows = dict(hsingle=2, coulomb=4, tleads=2, velph=3)
    return {k: sc(v, r if k in ('tleads', 'velph') else u, rows.get(k, 0)) for k, v in arg.items()}


def pick_keys(rng, keys):
    keys = sorted(keys)
    m = int(rng.integers(1, len(keys)+1))
    return [keys[int(i)] for i in rng.permutation(len(keys))[:m]]


def one_op(rng, live, spec, mon):
    """(method, kwargs, description); live is updated to what the call must do."""
    cplx = 'complex' in spec.tags
    T0 = float(np.mean(live.T))
    params = ['hs', 'hs', 'U', 't', 't', 'mu', 'T', 'D', 'dband']
    if live.elph:
        params += ['v', 'v', 'Tph', 'Dph']
    if live.rule == 'ssq':
        params = params[3:]
    par = str(rng.choice(params))
    add = rng.random() < 0.45
    form = str(rng.choice(['dict', 'dict', 'list', 'array']))
    meth = 'add' if add else 'change'

    def put(d, k, x):
        d[k] = d.get(k, 0)+x if add else x
    if par == 'hs':
        n = live.n
        allk = [(i, j) for i in range(n) for j in range(i, n)]
        if 'degenerate-keep' in spec.tags:
            allk = [(i, i) for i in range(n)]
        if live.rule == 'sz':
            allk = [(i, j) for i, j in allk if (i < n//2) == (j < n//2)]
        keys = pick_keys(rng, allk)
        vals = {}
        for k in keys:
            vals[k] = gen.r3(rng.uniform(-1, 1)*T0*(0.5 if add else 3)) if k[0] == k[1] else gen.cnum(rng, 0.3*T0, cplx)
        if rng.random() < 0.15:
            vals[keys[0]] = 0.0
        if form == 'array':
            a = np.zeros((n, n), dtype=complex if cplx else float)
            for k, x in vals.items():
                a[k] = x
            arg = a
            for k in allk:
                if add:
                    if k in vals:
                        put(live.hs, k, vals[k])
                else:
                    put(live.hs, k, a[k])
        else:
            arg = vals if form == 'dict' else [[i, j, x] for (i, j), x in vals.items()]
            for k, x in vals.items():
                put(live.hs, k, x)
        return meth, dict(hsingle=arg), par+form
    if par == 'U':
        n = live.n
        allk = [(i, j, j, i) for i in range(n) for j in range(i if spec.symmetry else i+1, n)]
        if not allk:
            return one_op(rng, live, spec, mon)
        keys = pick_keys(rng, allk)
        vals = {k: gen.r3(rng.uniform(0.2, 2 if add else 5)*T0) for k in keys}
        if rng.random() < 0.25:
            vals[keys[0]] = 0.0
        arg = vals if form == 'dict' else [[*k, x] for k, x in vals.items()]
        for k, x in vals.items():
            put(live.U, k, x)
        return meth, dict(coulomb=arg), par+form
    if par == 't':
        allk = [(l, i) for l in range(live.nl) for i in range(live.n)]
        keys = pick_keys(rng, allk)
        amp = max(abs(x) for x in live.t.values()) or 0.1
        amp = min(max(amp, 0.02), 0.3*np.sqrt(T0))
        vals = {k: gen.cnum(rng, amp*(0.4 if add else 1.0), cplx) for k in keys}
        if rng.random() < 0.15 and len(allk) > live.n:
            vals[keys[0]] = 0.0
        if form == 'array':
            a = np.zeros((live.nl, live.n), dtype=complex if cplx else float)
            for k, x in vals.items():
                a[k] = x
            arg = a
            for k in allk:
                if add:
                    if k in vals:
                        put(live.t, k, vals[k])
                else:
                    put(live.t, k, a[k])
        else:
            arg = vals if form == 'dict' else [[l, i, x] for (l, i), x in vals.items()]
            for k, x in vals.items():
                put(live.t, k, x)
        return meth, dict(tleads=arg), par+form
    if par in ('mu', 'T', 'Tph'):
        arr = {'mu': live.mu, 'T': live.T, 'Tph': getattr(live, 'Tph', None)}[par]
        m = len(arr)
        if par == 'mu':
            draw = lambda: gen.r3(rng.uniform(-2, 2)*T0)
        elif add:
            draw = lambda: gen.r3(rng.uniform(0.01, 0.2)*T0)
        else:
            draw = lambda: gen.r3(rng.uniform(0.6, 1.6)*T0)
        if form == 'dict':
            keys = pick_keys(rng, list(range(m)))
            arg = {k: draw() for k in keys}
            for k, x in arg.items():
                arr[k] = arr[k]+x if add else x
        else:
            if rng.random() < 0.3:
                x = draw()
                arg = x
                arr[:] = arr+x if add else x
            else:
                arg = [draw() for _ in range(m)]
                arr[:] = arr+np.array(arg) if add else np.array(arg)
                if form == 'array':
                    arg = np.array(arg)
        return meth, {{'mu': 'mulst', 'T': 'tlst', 'Tph': 'tlst_ph'}[par]: arg}, par+form
    if par == 'v':
        e = live.elph
        allk = [(b, i, j) for b in range(e['nb']) for i in range(live.n) for j in range(i, live.n)]
        keys = pick_keys(rng, allk)
        s = 0.1*np.sqrt(T0)
        vals = {}
        for (b, i, j) in keys:
            if i == j:
                vals[(b, i, i)] = gen.r3(rng.uniform(-1, 1)*s)
            else:
                x = gen.cnum(rng, s, cplx)
                vals[(b, i, j)] = x
                vals[(b, j, i)] = complex(np.conj(x)) if cplx else x
        if form == 'array':
            a = np.zeros((e['nb'], live.n, live.n), dtype=complex if cplx else float)
            for k, x in vals.items():
                a[k] = x
            arg = a
            for b in range(e['nb']):
                for i in range(live.n):
                    for j in range(live.n):
                        if not add:
                            e['v'][(b, i, j)] = a[b, i, j]
                        elif (b, i, j) in vals:
                            put(e['v'], (b, i, j), vals[(b, i, j)])
        else:
            arg = vals if form == 'dict' else [[*k, x] for k, x in vals.items()]
            for k, x in vals.items():
                put(e['v'], k, x)
        return meth, dict(velph=arg), par+form
    if par == 'Dph':
        arr = live.Dph
        m = len(arr)
        if add:
            vals = {b: [0.0, gen.r3(rng.uniform(0.1, 3)*T0)] for b in range(m)}
            arr += np.array([vals[b] for b in range(m)])
        else:
            vals = {b: [gen.r3(1e-4*T0), gen.r3(rng.uniform(30, 60)*T0)] for b in pick_keys(rng, list(range(m)))}
            for b, x in vals.items():
                arr[b] = x
            form = 'dict'
        arg = vals if form == 'dict' else [vals[b] for b in range(m)]
        if form == 'array':
            arg = np.array(arg)
        return meth, dict(dlst_ph=arg), par+form
    # bands
    arr = live.D
    m = len(arr)
    if par == 'dband':
        x = gen.r3(rng.uniform(40, 90)*T0)
        if form == 'dict':
            arg = {l: [-gen.r3(x*(1+0.1*l)), gen.r3(x*(1+0.2*l))] for l in range(m)}
            for l in arg:
                arr[l] = arg[l]
        elif form == 'list':
            arg = [gen.r3(x*(1+0.1*l)) for l in range(m)]
            for l in range(m):
                arr[l] = [-arg[l], arg[l]]
        else:
            arg = x
            arr[:, 0], arr[:, 1] = -x, x
        return 'dband', arg, 'dband'+form
    if add:
        x = gen.r3(rng.uniform(0.5, 5)*T0)
        if form == 'dict':
            ks = pick_keys(rng, list(range(m)))
            arg = {}
            for l in ks:
                if rng.random() < 0.5:
                    arg[l] = x
                    arr[l] += [-x, x]
                else:
                    arg[l] = [-x, 2*x]
                    arr[l] += [-x, 2*x]
        elif form == 'list':
            arg = [gen.r3(x*(1+0.1*l)) for l in range(m)]
            for l in range(m):
                arr[l] += [-arg[l], arg[l]]
        else:
            arg = x
            arr += np.array([[-x, x]])
    else:
        x = gen.r3(rng.uniform(40, 90)*T0)
        if form == 'dict':
            ks = pick_keys(rng, list(range(m)))
            arg = {l: [-gen.r3(x*(1+0.1*l)), gen.r3(x*(1+0.2*l))] if rng.random() < 0.6 else x for l in ks}
            for l in arg:
                arr[l] = [-arg[l], arg[l]] if np.isscalar(arg[l]) else arg[l]
        elif form == 'list':
            arg = [[-gen.r3(x*(1+0.1*l)), gen.r3(x)] for l in range(m)]
            arr[:] = arg
        else:
            arg = x
            arr[:, 0], arr[:, 1] = -x, x
    return meth, dict(dlst=arg), 'D'+form


def renewal(rng, live, spec, s, u):
    """All amplitudes replaced by others; returns what was done."""
    cplx = 'complex' in spec.tags
    T0 = float(np.mean(live.T))
    r = 2.0**(np.log2(u)/2)
    if live.elph and rng.random() < 0.4:
        e = live.elph
        vals = {}
        for b in range(e['nb']):
            for i in range(live.n):
                for j in range(i, live.n):
                    if rng.random() < 0.6:
                        x = gen.cnum(rng, 0.1*np.sqrt(T0), cplx) if i != j else gen.r3(rng.uniform(-1, 1)*0.1*np.sqrt(T0))
                        vals[(b, i, j)] = x
                        if i != j:
                            vals[(b, j, i)] = complex(np.conj(x)) if cplx else x
        e['v'] = dict(vals)
        s.baths.update_Vbbp0(e['nb'], {k: x*r for k, x in vals.items()})
        return 'renew:v'
    amp = max(abs(x) for x in live.t.values()) or 0.1
    amp = min(max(amp, 0.02), 0.3*np.sqrt(T0))
    vals = {(l, i): gen.cnum(rng, amp, cplx) for l in range(live.nl) for i in range(live.n) if rng.random() < 0.85 or i == l}
    form = str(rng.choice(['dict', 'list', 'array']))
    live.t = dict(vals)
    if form == 'array':
        arg = np.zeros((live.nl, live.n), dtype=complex if cplx else float)
        for k, x in vals.items():
            arg[k] = x*r
    else:
        arg = {k: x*r for k, x in vals.items()} if form == 'dict' else [[*k, x*r] for k, x in vals.items()]
    s.leads.update_Tba0(spec.nl, arg)
    return 'renew:t'+form


def check_params(s, live, spec, mon, tag, u=1):
    """The parameters the object shows are the accumulated ones."""
    half = 2 if spec.symmetry else 1
    r = 2.0**(np.log2(u)/2)
    val = lambda d, f: {k: x/f for k, x in d.items()}
    rep = lambda a: np.concatenate([a]*half)
    ok = (np.allclose(np.array(s.mulst)/u, rep(live.mu), rtol=0, atol=1e-11) and np.allclose(np.array(s.tlst)/u, rep(live.T), rtol=0, atol=1e-11)
          and np.allclose(np.array(s.dlst)/u, rep(live.D), rtol=0, atol=1e-9))
    hs, t, U = val(s.hsingle, u), val(s.tleads, r), val(s.coulomb, u)
    bad = [k for k, v in live.hs.items() if abs(hs.get(k, 0)-v) > 1e-11]
    bad += [k for k, v in live.t.items() if abs(t.get(k, 0)-v) > 1e-11]
    if not spec.symmetry:
        bad += [k for k, v in live.U.items() if abs(U.get(k, 0)-v) > 1e-11]
        bad += [k for d, r in ((hs, live.hs), (t, live.t), (U, live.U)) for k in d if k not in r and d[k] != 0]
    ta = np.array(s.tleads_array)/r
    bad += [k for k, v in live.t.items() if abs(ta[k]-v) > 1e-11]
    if live.elph:
        bad += [k for k, v in live.elph['v'].items() if abs(s.velph.get(k, 0)/r-v) > 1e-11]
        ok = ok and np.allclose(np.array(s.tlst_ph)/u, live.Tph, rtol=0, atol=1e-11) and np.allclose(np.array(s.dlst_ph)/u, live.Dph, rtol=0, atol=1e-9)
    mon.true('parameters', ok and not bad, lambda: '%s %r' % (tag, bad[:4]))


def against_fresh(mon, s, w, spec, live, u, drop, hist, currents=True):
    """The solved s against a system built from the parameters of live."""
    base = work.base_of(w.kt)
    w2 = copy.copy(w)
    w2.spec = scaled_spec(final_spec(spec, live), u)
    f = w2.build()
    if drop is not None:
        with sysutil.quiet():
            f.remove_fock_states(drop)
    if not w.kt.startswith('py'):
        f.make_kern_copy = True
    w2.solve(f)
    gap = sysutil.kern_gap(f)
    if base == '2vN':
        gap *= 1e-3
    if not gap > 1e-8:
        raise Inconclusive('stationary state not unique')
    split = sysutil.min_split(f)/u
    if base in ('Pauli', 'RTD') and split < 1e-5:
        raise Inconclusive('nearly degenerate levels')
    if w.elph and sysutil.phonon_split(f) < 1e-5*u:
        raise Inconclusive('levels that phonons connect are nearly degenerate')
    tag = lambda: '%s %s' % (w.name, hist)
    if f.success != s.success:
        mon.bad('success', tag())
        return
    if not f.success:
        raise Inconclusive('solver failed')
    a, b = sysutil.obs(s), sysutil.obs(f)
    gam = sysutil.gamma_scale(f)
    E = np.array(f.Ea)
    es = gam*(np.ptp(E)+u*np.max(np.abs(live.mu))+u*np.max(live.T)+(u*1e-2*np.max(np.abs(live.D)) if w.itype in (0, 1) else 0))
    mon.close('energies', np.array(s.Ea), E, rtol=0, atol=1e-11*max(u, np.max(np.abs(E))), what=hist)
    amp = max(1.0, float(np.max(np.abs(b['phi0']))))
    tol = w.tol(gap)*amp*3
    if base in ('Pauli', 'RTD') and split < np.inf:
        tol += 1e-12/split
    if base == 'RTD':
        tol += 1e-7*amp
    if base == '2vN':
        tol *= 10
    if w.elph:
        # large zero-frequency phonon terms cancel
        phs = 1e6*2*np.pi*np.max(np.abs(np.array(f.baths.Vbbp)))**2*np.max(live.Tph)
        tol += 1e-13*phs/gam*amp
    ra, rb = sysutil.fock_rho(s), sysutil.fock_rho(f)
    mon.close('state', ra, rb, rtol=0, atol=tol, what=hist)
    if not currents:
        return
    mon.close('current', a['current'], b['current'], rtol=0, atol=tol*gam, what=hist)
    fin = np.isfinite(b['energy'])
    mon.true('energy-nan', bool(np.all(np.isfinite(a['energy']) == fin)), tag)
    mon.close('energy', a['energy'][fin], b['energy'][fin], rtol=0, atol=tol*es, what=hist)
    mon.close('heat', a['heat'][fin], b['heat'][fin], rtol=0, atol=tol*es, what=hist)


def run_case(case, mon):
    rng = gen.rng_of('p10', case['seed'])
    w = work.draw(rng, case['kind'], sym=None, degenerate=False if 'Pauli' in case['kind'] or case['kind'] == 'RTD' else None)
    base = work.base_of(w.kt)
    spec = w.spec
    live = Live(spec)
    if not spec.symmetry and w.indexing in ('sz', 'ssq'):
        live.rule = w.indexing
        mon.ev('rule:'+w.indexing)
    u = 1
    if rng.random() < 0.15 and not (spec.elph and spec.elph.get('f')):
        # energies in joule or so; least squares cannot tell such rates from rounding errors of the normalisation
        u = 2.0**float(rng.choice([-60, -20, 20] if w.opts.get('symq', True) and base != '2vN' else [-10, 10]))
        mon.ev('units')
    w0 = copy.copy(w)
    w0.spec = scaled_spec(spec, u)
    s = w0.build()
    drop = None
    if spec.n > 1 and rng.random() < 0.12 and w.indexing != 'ssq' and base not in ('RTD', '2vN') and not spec.symmetry:
        dim = 2**spec.n
        drop = [int(x) for x in rng.choice(dim, size=int(rng.integers(1, max(2, dim//3+1))), replace=False)]
    nops = int(rng.integers(2, 8)) if base not in ('RTD', '2vN') else int(rng.integers(2, 5))
    when = int(rng.integers(0, nops)) if drop is not None else -1
    hist = []
    dirty = True
    if rng.random() < 0.7:
        w.solve(s)
        dirty = False
        hist.append('solve')
    for k in range(nops):
        if k == when:
            with sysutil.quiet():
                s.remove_fock_states(drop)
            hist.append('fock')
            mon.ev('fock-removed')
            dirty = True
        if rng.random() < 0.08:
            hist.append(renewal(rng, live, spec, s, u))
            mon.ev('renewal')
            dirty = True
            if rng.random() < 0.5:
                w.solve(s)
                dirty = False
                hist.append('solve')
        if rng.random() < 0.04:
            s.leads.add(mulst=1.0*u, tlst={0: 2.0*u}, dlst=3.0*u, lstq=False)
            hist.append('lstq')
        meth, arg, what = one_op(rng, live, spec, mon)
        if base == '2vN' and ('D' in what or what.startswith('dband')):
            live.D[:, 0], live.D[:, 1] = -live.D[0, 1], live.D[0, 1]
            meth, arg, what = 'change', dict(dlst=float(live.D[0, 1])), 'Darray'
        arg = scaled_arg(arg, u)
        if meth == 'dband':
            s.dband = arg
        elif rng.random() < 0.3 and not ({'velph', 'tlst_ph', 'dlst_ph'} & set(arg)):
            # through the parts of the system
            a = dict(arg)
            part = s.qd if ('hsingle' in a or 'coulomb' in a) else s.leads
            getattr(part, meth)(**a)
        else:
            getattr(s, meth)(**arg)
        mon.ev('op')
        hist.append('%s:%s' % (meth, what))
        if what[0] in 'hUtv':
            dirty = True
        if rng.random() < 0.4 and k < nops-1:
            if not dirty and rng.random() < 0.5:
                w.solve(s, qdq=False)
            else:
                w.solve(s)
                dirty = False
            mon.ev('solve-between')
            hist.append('solve')
            check_params(s, live, spec, mon, hist, u)
    kw = {}
    if not dirty and rng.random() < 0.5:
        kw['qdq'] = False
    if base == '2vN':
        kw = {}
    with_gap = w.sv
    w.solve(s, **kw)
    mon.ev('solve-final')
    check_params(s, live, spec, mon, hist, u)
    against_fresh(mon, s, w, spec, live, u, drop, hist)
    mon.key(*(w.key()+(drop is not None, w.kt, hist[-1])))
