"""P11: numerical options change the cost and not the answer, and take effect whenever they are set."""
import copy

import numpy as np

from qmon import gen, sysutil, work
from qmon.mon import Inconclusive

RULE = ('A case counts when a live system solved with a history of numerical options (given on construction, before the '
        'first solve or between solves) was compared, after every solve, with a fresh system that has the default ones.')
ASSUMPTIONS = ['unique stationary state (gap > 1e-8)', 'normalisation row is the equation of a population',
               'matrix-free solutions are compared only where the root finder reports success, to the accuracy its '
               'residual tolerance allows']
NAMES = ['Pauli', '1vN', 'Redfield', 'Lindblad', 'elph-Pauli', 'elph-Lindblad', 'RTD', 'elph-Redfield', 'elph-1vN',
         'Pauli', '1vN', 'Lindblad', '2vN', 'Redfield', 'RTD']
REQUIRED = {'quick': {'compared': 3000, 'option-between': 1500, 'option-first': 400, 'option-built': 400, 'mfree': 250,
                      'lsqr-full': 150, 'kern-copy': 300, 'row': 400, 'effect': 200,
                      'real-leads': 250, 'real-qd': 80},
            'thorough': {'compared': 40000, 'mfree': 4000}}
BUDGET = {'quick': 400, 'thorough': 5400}


def cases(tier, seed):
    num = 4000 if tier == 'quick' else 30000
    out = [dict(kind=NAMES[k % len(NAMES)], seed=seed*100003+k) for k in range(num)]
    out += [dict(kind='mfree', seed=seed*100003+50021+k) for k in range(num//5)]
    out += [dict(kind='effect', seed=seed*100003+70001+k) for k in range(num//5)]
    return out


class Options(object):
    """What the options should be after the assignments made so far."""

    def __init__(self, w):
        self.base = work.base_of(w.kt)
        self.cur = dict(symq=True, solmethod=None, norm_row=0, make_kern_copy=False, mfreeq=False, dqawc_limit=10000)

    def draw(self, rng, npauli, size, allow_mfree):
        kinds = ['symq', 'solmethod', 'norm_row', 'make_kern_copy']
        if allow_mfree:
            kinds += ['mfreeq', 'mfreeq']
        if self.base in ('Redfield', '1vN'):
            kinds += ['dqawc_limit']
        k = str(rng.choice(kinds))
        if k == 'dqawc_limit':
            v = int(rng.choice([300, 1000, 10000, 30000]))
        elif k == 'symq':
            v = bool(rng.integers(2))
        elif k == 'solmethod':
            if self.cur['mfreeq']:
                v = str(rng.choice(['krylov', 'broyden1', 'broyden2', 'hybr', 'lm', 'lm', 'df-sane', 'anderson']))
            else:
                v = [None, 'solve', 'lsqr', 'lsqr'][int(rng.integers(4))]
        elif k == 'norm_row':
            v = int(rng.integers(npauli))
            if rng.random() < 0.2:
                v -= size
        elif k == 'make_kern_copy':
            v = bool(rng.integers(2))
        else:
            v = not self.cur['mfreeq']
        return k, v


def reference(w, mon):
    f = w.build()
    if not w.kt.startswith('py'):
        f.make_kern_copy = True
    w.solve(f)
    gap = min(sysutil.kern_gap(f), row_gap(f))
    if work.base_of(w.kt) == '2vN':
        gap *= 1e-2
    if not gap > 1e-8:
        raise Inconclusive('stationary state not unique')
    if not f.success:
        raise Inconclusive('solver failed')
    return f, gap


def check(mon, w, s, f, gap, opts, hist, sq):
    """Compares the solved system with the default solution."""
    o = opts.cur
    base = opts.base
    tag = lambda: '%s %s' % (w.name, hist)
    a, b = sysutil.obs(s), sysutil.obs(f)
    gam, es = sysutil.scales(f, w.spec)
    if base in ('Redfield', '1vN') and w.itype in (0, 1) or base in ('RTD', '2vN'):
        es += gam*np.max(np.abs(w.spec.explicit().D_arr()))*1e-2
    amp = max(1.0, float(np.max(np.abs(b['phi0']))))
    tol = w.tol(gap)*amp*3
    if base == 'RTD':
        tol = (1e-9+1e-12/gap)*amp
    if w.elph:
        ex = w.spec.explicit()
        phs = 1e6*2*np.pi*np.max(np.abs(np.array(f.baths.Vbbp)))**2*max(ex.elph['T'].values())
        tol += 1e-13*phs/gam*amp
    K = np.array(f.kern)
    n = K.shape[1]
    tol += 100*2.2e-16*amp/conditioning(f, o)
    if o['mfreeq']:
        mon.ev('mfree')
        # residual tolerance of the root finders over the smallest singular value of the normalised equations
        body = whole(f)
        body[o['norm_row'] % n] = np.array(f.appr.norm_vec)
        inv = np.linalg.norm(np.linalg.inv(body), np.inf)
        res = 1.2e-5
        if inv*res > 0.02:
            mon.ev('mfree-too-stiff')
            return False
        tol += inv*res
        if not s.success:
            mon.ev('mfree-not-converged')
            mon.true('mfree-failure-clean', True)
            return False
    if not mon.true('success', bool(s.success), tag):
        return False
    mon.ev('compared')
    nm = 'mfree-' if o['mfreeq'] else ''
    k = 3*len(b['phi0']) if o['mfreeq'] else 1
    mon.close(nm+'state', a['phi0'], b['phi0'], rtol=0, atol=tol, what=hist)
    mon.close(nm+'current', a['current'], b['current'], rtol=0, atol=k*tol*gam, what=hist)
    fin = np.isfinite(b['energy'])
    mon.true('energy-nan', bool(np.all(np.isfinite(a['energy']) == fin)), tag)
    mon.close(nm+'energy', a['energy'][fin], b['energy'][fin], rtol=0, atol=k*tol*es, what=hist)
    mon.close(nm+'heat', a['heat'][fin], b['heat'][fin], rtol=0, atol=k*tol*es, what=hist)
    # the options that are reported, and their visible effect
    mon.true('reported', bool(s.symq) == o['symq'] and s.norm_row == o['norm_row'] and bool(s.mfreeq) == o['mfreeq'] and
             s.dqawc_limit == o['dqawc_limit'] and
             (w.kt.startswith('py') or bool(s.make_kern_copy) == o['make_kern_copy']), tag)
    if not o['mfreeq']:
        shape = (n if o['symq'] else n+1, n)
        mon.true('kernel-shape', np.array(s.kern).shape == shape, lambda: '%s %r %r' % (tag(), np.array(s.kern).shape, shape))
        if o['solmethod'] == 'lsqr' and o['symq']:
            mon.ev('lsqr-full')
            mon.true('method', s.solmethod == 'lsqr', lambda: '%s %r' % (tag(), s.solmethod))
        if o['norm_row'] % n != 0 and o['symq']:
            mon.ev('row')
        if o['make_kern_copy'] and not w.kt.startswith('py') and base != '2vN':
            # the kept kernel is the system of equations that was solved
            mon.ev('kern-copy')
            rhs = np.zeros(shape[0])
            row = o['norm_row'] % n if o['symq'] else n
            rhs[row] = 1
            Ks = np.array(s.kern)
            mon.close('kern-row', Ks[row], np.array(f.appr.norm_vec), rtol=1e-12, what=hist)
            keep = [i for i in range(n) if i != row]
            drop = [i for i in range(n) if i != f.norm_row]
            both = [i for i in keep if i in drop]
            mon.close('kern-copy', Ks[both], K[both], rtol=1e-12, atol=1e-300, what=hist)
    return True


def conditioning(f, o):
    """Smallest singular value of the normalised equations over the largest, in the form in which they are solved."""
    K = whole(f)
    n = K.shape[1]
    norm = np.array(f.appr.norm_vec)
    out = np.inf
    # the default equations, with which they are compared, and the ones with these options
    forms = [(f.norm_row % n, True), (o['norm_row'] % n, o['symq'])]
    for row, full in forms:
        A = K.copy()
        if full:
            A[row] = norm
        else:
            A = np.vstack([A, norm])
        v = np.linalg.svd(A, compute_uv=False)
        out = min(out, float(v[-1]/v[0]))
    return max(out, 1e-300)


def whole(f):
    """The generator with the equation that the normalisation replaced (the populations sum to zero)."""
    K = np.array(f.kern)
    n = K.shape[1]
    if K.shape[0] > n:
        return K[:-1]
    W = weights(f)
    rest = [i for i in range(f.si.npauli) if i != f.norm_row]
    K[f.norm_row] = -np.sum(K[rest]*W[rest, None], axis=0)/W[f.norm_row]
    return K


def row_gap(f):
    """Conditioning of the equations for the least favourable normalisation row."""
    K = whole(f)
    n = K.shape[1]
    best = np.inf
    if n == 1:
        return 1.0
    top = np.linalg.norm(K, 2)
    for r in range(f.si.npauli):
        v = np.linalg.svd(np.delete(K, r, 0), compute_uv=False)
        best = min(best, float(v[n-2]/max(top, 1e-300)))
    return best


def weights(f):
    """Number of states every population stands for."""
    return np.array(f.appr.norm_vec)[:f.si.npauli]


def make(w, opts, over):
    return w.build(**over)


def storage(rng, w):
    """Number types of the stored matrices. Real ones are for systems that are real."""
    sp = w.spec
    real = lambda d: not any(np.iscomplexobj(v) for v in d.values())
    if not (real(sp.hs) and real(sp.U)) or rng.random() < 0.25:
        return {}
    out = dict(mtype_qd=float)
    # tunnelling and phonon amplitudes are rotated to the eigenstates in the same type
    if real(sp.t) and (not w.elph or real(sp.elph['v'])) and rng.random() < 0.8:
        out['mtype_leads'] = float
    return out


def run_options(case, mon, rng, mfree):
    name = case['kind'] if not mfree else str(rng.choice(['Pauli', '1vN', 'Redfield', 'Lindblad', 'elph-Pauli',
                                                          'elph-Lindblad', 'elph-Redfield', 'elph-1vN']))
    kw = {}
    if mfree:
        kw = dict(n=int(rng.integers(1, 3)), spinful=False)
        if kw['n'] == 2 and rng.random() < 0.4:
            kw['spinful'] = True
    w = work.draw(rng, name, symq=True, **kw)
    if w.elph:
        w.opts['itype_ph'] = 2
    if mfree:
        # rates of order one, so that the absolute residual tolerance of the root finder means something
        fac = 1.0/max(np.sqrt(max(abs(v) for v in w.spec.t.values())**2*2*np.pi), 1e-12) if w.spec.t else 1.0
        w.spec.t = {k: complex(v*fac) if np.iscomplex(v) else float(np.real(v*fac)) for k, v in w.spec.t.items()}
        if w.elph:
            mx = max([abs(v) for v in w.spec.elph['v'].values()]+[0])
            if mx:
                w.spec.elph['v'] = {k: v*(0.3/mx) for k, v in w.spec.elph['v'].items()}
    base = work.base_of(w.kt)
    f, gap = reference(w, mon)
    split = sysutil.min_split(f)
    if base == 'RTD' and split < 1e-3:
        raise Inconclusive('degenerate states, where the RTD terms diverge and cancel to rounding only')
    n, npauli = np.array(f.kern).shape[1], f.si.npauli
    opts = Options(w)
    allow = mfree or (w.spec.n <= (2 if w.elph else 3) and base in ('Pauli', 'Lindblad', 'Redfield', '1vN') and rng.random() < 0.15)
    over, hist = {}, []
    for _ in range(int(rng.integers(0, 3))):
        k, v = opts.draw(rng, npauli, n, allow)
        if k == 'make_kern_copy':
            continue
        over[k] = v
        opts.cur[k] = v
        if k == 'mfreeq':
            opts.cur['solmethod'] = over['solmethod'] = None
        mon.ev('option-built')
        hist.append('built:%s=%r' % (k, v))
    types = storage(rng, w)
    if types:
        over.update(types)
        mon.ev('real-leads' if 'mtype_leads' in types else 'real-qd')
        hist.append('built:%s' % '+'.join(sorted(types)))
    s = w.build(**over)
    if base == 'RTD':
        od = bool(rng.integers(2))
        f.off_diag_corrections = od
        w.solve(f)
        s.off_diag_corrections = od
    solved = False
    nsolve = 0
    nset = int(rng.integers(2, 7))
    for i in range(nset):
        k, v = opts.draw(rng, npauli, n, allow)
        if k == 'make_kern_copy' and base == '2vN' or k == 'make_kern_copy' and w.kt.startswith('py') and base == 'RTD':
            continue
        with sysutil.quiet():
            setattr(s, k, v)
        opts.cur[k] = v
        if k == 'mfreeq':
            opts.cur['solmethod'] = None
            with sysutil.quiet():
                s.solmethod = None
        mon.ev('option-between' if solved else 'option-first')
        hist.append('%s=%r' % (k, v))
        if rng.random() < 0.55 or i == nset-1:
            if opts.cur['mfreeq'] and rng.random() < 0.4 and base != '2vN':
                init = np.zeros(n)
                init[:npauli] = rng.random(npauli)
                init[:npauli] /= np.sum(init[:npauli]*weights(f))
                s.phi0_init = init
            # a lone switch of the solution method is kept by a solve that skips the diagonalisation
            if solved and rng.random() < 0.3 and base != '2vN':
                w.solve(s, qdq=False)
            else:
                w.solve(s)
            if base == '2vN':
                # a restart forgets the copy of the kernel only
                opts.cur['make_kern_copy'] = False
            solved = True
            nsolve += 1
            hist.append('solve')
            check(mon, w, s, f, gap, opts, list(hist), None)
            if not opts.cur['symq'] and not opts.cur['mfreeq']:
                # the least squares method was selected and stays selected
                opts.cur['solmethod'] = 'lsqr'
    mon.key(*(w.key()+(w.kt, hist[0].split('=')[0] if hist else '', nsolve, opts.cur['mfreeq'])))


def run_effect(case, mon, rng):
    """Options that select another approximation act from the next solve on."""
    w = work.draw(rng, str(rng.choice(['Pauli', 'Lindblad', '1vN', 'Redfield', 'RTD', '2vN', 'elph-1vN', 'elph-Redfield',
                                       'elph-Pauli', 'elph-Lindblad'])), sym=False)
    base = work.base_of(w.kt)
    if base in ('1vN', 'Redfield') and w.spec.n > 2:
        ty = [1, 2, 3]
    else:
        ty = [0, 1, 2, 3]
    s = w.build()
    if rng.random() < 0.8:
        w.solve(s)
    w2 = copy.copy(w)
    w2.opts = dict(w.opts)
    what = []
    if base == 'RTD':
        od = [bool(rng.integers(2)) for _ in range(int(rng.integers(1, 3)))]
        for v in od:
            s.off_diag_corrections = v
            w.solve(s)
        what.append('off_diag_corrections=%r' % od)
    elif base == '2vN':
        w2.opts['kpnt'] = int(rng.choice([v for v in (32, 50, 64) if v != w.opts['kpnt']]))
        s.kpnt = w2.opts['kpnt']
        what.append('kpnt')
    else:
        if rng.random() < 0.8 or not w.elph:
            w2.itype = int(rng.choice([t for t in ty if t != w.itype]))
            s.itype = w2.itype
            what.append('itype=%d->%d' % (w.itype, w2.itype))
        if w.elph and rng.random() < 0.7:
            e = float(rng.choice([1e-6, 1e-5, 1e-4]))
            w2.opts['eps_elph'] = e
            s.eps_elph = e
            what.append('eps_elph')
        if w.elph and rng.random() < 0.5:
            w2.opts['itype_ph'] = 2-w.opts['itype_ph'] if w.spec.n <= 1 else 2
            s.itype_ph = w2.opts['itype_ph']
            what.append('itype_ph')
    with_q = {} if base == '2vN' or rng.random() < 0.6 else dict(rotateq=True)
    w.solve(s, **with_q)
    if base == 'RTD':
        f = w2.build()
        f.off_diag_corrections = od[-1]
        if not w.kt.startswith('py'):
            f.make_kern_copy = True
        w2.solve(f)
        gap = sysutil.kern_gap(f)
        if not gap > 1e-8:
            raise Inconclusive('stationary state not unique')
    else:
        f, gap = reference(w2, mon)
    mon.ev('effect')
    gam, es = sysutil.scales(f, w.spec)
    es += gam*np.max(np.abs(w.spec.explicit().D_arr()))*1e-2
    a, b = sysutil.obs(s), sysutil.obs(f)
    amp = max(1.0, float(np.max(np.abs(b['phi0']))))
    tol = 3*w2.tol(gap)*amp
    if w.elph:
        ex = w.spec.explicit()
        phs = 1e6*2*np.pi*np.max(np.abs(np.array(f.baths.Vbbp)))**2*max(ex.elph['T'].values())
        tol += 1e-13*phs/gam*amp
    if not mon.true('effect-success', bool(s.success) == bool(f.success), what):
        return
    mon.ctx = str(what)
    sysutil.compare(mon, 'effect', a, b, gam, es, tol, nan_ok=True)
    mon.key('effect', w.name, w.kt, '+'.join(what))


def run_case(case, mon):
    rng = gen.rng_of('p11', case['seed'])
    if case['kind'] == 'effect':
        run_effect(case, mon, rng)
    else:
        run_options(case, mon, rng, case['kind'] == 'mfree')
