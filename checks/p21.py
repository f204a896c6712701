"""P21: failures are contained and visible."""
import contextlib
import copy
import io
import warnings

import numpy as np
import scipy.linalg
import scipy.optimize

from qmon import gen, sysutil, work
from qmon.mon import Inconclusive

RULE = ('A case counts when a solution was made to fail (or an input was invalid), the report and the remains of the '
        'failure were inspected, and, where the cause can be repaired, the repaired object was compared with a fresh '
        'system.')
ASSUMPTIONS = ['a generator counts as singular only if equations other than the replaced one vanish identically',
               'the repaired system has a unique stationary state (gap > 1e-8)',
               'levels of one charge are not within 1e-6 of each other for the approaches without coherences']
KINDS = ['singular', 'fault', 'labels', 'singular', 'fault', 'invalid']
REQUIRED = {'quick': {'failed': 500, 'raised': 500, 'repaired': 900, 'rejected': 250, 'check:warned': 200,
                      'check:discarded': 900, 'check:reported': 250, 'fault:bath': 15, 'not-converged': 60, 'converged': 40, 'check:unchanged': 250},
            'thorough': {'failed': 6000, 'raised': 6000}}
BUDGET = {'quick': 300, 'thorough': 5400}


class Fault(Exception):
    pass


def cases(tier, seed):
    num = 4800 if tier == 'quick' else 30000
    return [dict(kind=KINDS[k % len(KINDS)], seed=seed*100003+k) for k in range(num)] + \
           [dict(kind='early', seed=seed*100003+50000+k) for k in range(num//8)]


@contextlib.contextmanager
def captured():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), np.errstate(all='ignore'):
        yield buf


def solve(s, w, **over):
    kw = dict(w.sv)
    kw.update(over)
    with captured() as buf:
        s.solve(**kw)
    return buf.getvalue()


VALUES = ('phi0', 'phi1', 'current', 'energy_current', 'heat_current')


def check_remains(mon, s, tag):
    """Nothing of an earlier solution is left."""
    try:
        ok = bool(s.success)
    except AttributeError:
        ok = False
    mon.true('flag', not ok, lambda: '%s: success=%r' % (tag, ok))
    left = []
    for name in VALUES:
        x = getattr(s, name)
        if x is not None and np.any(np.nan_to_num(np.array(x)) != 0):
            left.append((name, np.array(x).ravel()[:4].tolist()))
    mon.true('discarded', not left, lambda: '%s: still reported %r' % (tag, left))


def fresh(mon, w, base):
    """What the repaired object has to give."""
    f = w.build()
    if not w.kt.startswith('py'):
        f.make_kern_copy = True
    if w.opts.get('mfreeq'):
        f.mfreeq = False
    w.solve(f)
    if not f.success:
        raise Inconclusive('the repaired system cannot be solved')
    gap = sysutil.kern_gap(f)*(1e-2 if base == '2vN' else 1)
    if not gap > 1e-8:
        raise Inconclusive('stationary state not unique')
    if base in ('Pauli', 'RTD') and sysutil.min_split(f) < 1e-6*(1+np.max(np.abs(np.array(f.Ea)))):
        raise Inconclusive('degenerate levels')
    return f, gap


def check_repaired(mon, s, w, base, tag):
    f, gap = fresh(mon, w, base)
    mon.true('works-again', bool(s.success), tag)
    gam, es = sysutil.scales(f, w.spec)
    tol = w.tol(gap)*(10 if not w.opts.get('symq', True) else 1)
    if w.opts.get('mfreeq'):
        tol += 1e-4/gap
    phi = not (base in ('1vN', 'Redfield', 'Lindblad', '2vN'))     # coherences depend on the phases of eigenvectors
    ok = sysutil.compare(mon, 'repaired', sysutil.obs(s, phi), sysutil.obs(f, phi), gam, es, tol, nan_ok=True, phi=phi)
    if not ok:
        mon.note(tag)
    mon.ev('repaired')


def run_case(case, mon):
    rng = gen.rng_of('p21', case['seed'])
    {'singular': singular, 'early': early, 'fault': fault, 'labels': labels, 'invalid': invalid}[case['kind']](rng, mon)


# -- generators without a unique stationary state --------------------------------------------------------------

def cut(spec):
    """No coupling to anything."""
    out = copy.deepcopy(spec)
    for s in (out, out.full) if spec.symmetry else (out,):
        s.t = {k: 0.0 for k in s.t}
        if s.elph:
            s.elph = dict(s.elph, v={k: 0.0 for k in s.elph['v']})
    return out


def singular(rng, mon):
    w = work.draw(rng, symq=True, sym=False)
    base = work.base_of(w.kt)
    E, t = w.spec, dict(w.spec.t)
    # outside of the bands the rates of the rate equation vanish exactly
    away = base == 'Pauli' and w.itype in (0, 2) and not w.elph and rng.random() < 0.4
    dead = copy.deepcopy(w)
    dead.spec = cut(w.spec)
    first = rng.random() < 0.7
    s = (w if first or away else dead).build()
    hist = []
    if first:
        solve(s, w)
        if not s.success or np.max(np.abs(np.array(s.phi0))) > 1e6:
            raise Inconclusive('not solvable to begin with')
        hist.append('solved')
    v = dict(w.spec.elph['v']) if w.elph else None

    def break_it():
        if away:
            # all the channels are outside of the bands
            s.change(dlst={l: [1e4, 1e4+1] for l in range(w.spec.nl)})
        else:
            s.change(tleads={k: 0.0 for k in t})
            if v:
                s.change(velph={k: 0.0 for k in v})
    if first or away:
        break_it()
    text = ''
    for k in range(int(rng.integers(1, 4))):
        text += solve(s, w)
        mon.ev('failed')
        check_remains(mon, s, 'singular %s %r' % (w.name, hist))
        hist.append('failed')
        r = rng.random()
        if r < 0.15:
            s.sort_eigenstates([0])
            s.sort_eigenstates()
        elif r < 0.3 and base != '2vN':
            with captured():
                s.solve(masterq=False)
        elif r < 0.45 and not w.elph and base not in ('2vN', 'RTD') and s.kerntype in ('Pauli', '1vN', 'pyPauli', 'py1vN'):
            old = s.kerntype
            s.kerntype = {'Pauli': '1vN', '1vN': 'Pauli', 'pyPauli': 'py1vN', 'py1vN': 'pyPauli'}[old]
            solve(s, w)
            if not away:
                check_remains(mon, s, 'singular, other approach %s %r' % (s.kerntype, hist))
            s.kerntype = old
            solve(s, w)
            check_remains(mon, s, 'singular, approach again %s %r' % (s.kerntype, hist))
    mon.true('warned', 'WARNING' in text and 'success' in text, lambda: '%s: printed %r' % (w.name, text[:200]))
    # repair
    how = rng.random()
    if how < 0.5 or away:
        new = t
    else:
        new = {k: gen.cnum(rng, abs(x)+0.01, isinstance(x, complex)) for k, x in t.items()}
        w.spec.t = dict(new)
    if away:
        D = w.spec.D_arr()
        s.change(dlst={l: [float(D[l, 0]), float(D[l, 1])] for l in range(w.spec.nl)})
    else:
        getattr(s, 'change' if rng.random() < 0.5 else 'add')(tleads=new)
        if v:
            s.change(velph=v)
    for _ in range(int(rng.integers(1, 3))):
        solve(s, w)
        check_repaired(mon, s, w, base, 'repaired %s %r' % (w.name, hist))
    mon.key('singular', w.name, w.kt[:2] == 'py', away, first, w.spec.n, w.indexing)


# -- exceptions and solver failures inside a solution -----------------------------------------------------------

@contextlib.contextmanager
def patched(obj, name, new):
    had = name in getattr(obj, '__dict__', {})
    old = getattr(obj, name)
    setattr(obj, name, new)
    try:
        yield
    finally:
        if had or not hasattr(type(obj), name):
            setattr(obj, name, old)
        else:
            delattr(obj, name)


class Bomb(object):
    """Raises at the k-th call, before or after the real thing."""

    def __init__(self, fn, k, after):
        self.fn, self.k, self.after, self.calls, self.hit = fn, k, after, 0, 0

    def __call__(self, *args, **kw):
        self.calls += 1
        if self.calls == self.k and not self.after:
            self.hit += 1
            raise Fault('injected')
        out = self.fn(*args, **kw)
        if self.calls == self.k:
            self.hit += 1
            raise Fault('injected')
        return out


class FaultyBath(object):
    def __init__(self, f):
        self.f, self.k, self.calls = f, None, 0

    def __deepcopy__(self, memo):
        return self                     # also the copy in the parameters of the builder raises

    def __call__(self, x):
        self.calls += 1
        if self.k is not None and self.calls >= self.k:
            raise Fault('injected')
        return self.f(x)


def hooked_class(cls, box):
    """The same approach; a method can be made to raise."""
    def make(name):
        def method(self, *a, **kw):
            b = box.get(name)
            if b:
                box['calls'] += 1
                if box['calls'] == box['k'] and not box['after']:
                    box['hit'] += 1
                    raise Fault('injected')
            out = getattr(cls, name)(self, *a, **kw)
            if b and box['calls'] == box['k']:
                box['hit'] += 1
                raise Fault('injected')
            return out
        return method
    return type(cls.__name__, (cls,), {n: make(n) for n in METHODS if hasattr(cls, n)})


METHODS = ('prepare_kern', 'generate_fct', 'generate_kern', 'solve_kern', 'generate_current')


def fault(rng, mon):
    w = work.draw(rng, sym=False)
    base = work.base_of(w.kt)
    baths = []
    if w.elph and rng.random() < 0.7:
        nb = w.spec.elph['nb']
        fs = w.spec.elph.get('f') or [gen.BathF(0.5, 1) for _ in range(nb)]
        baths = [FaultyBath(f) for f in fs]
        w.spec.elph['f'] = baths
    mf = base in ('Pauli', '1vN', 'Redfield', 'Lindblad') and rng.random() < 0.15 and w.spec.n <= 2
    if mf:
        w.opts['mfreeq'] = True
        w.opts['symq'] = True
    s = w.build()
    kinds = ['qd', 'leads', 'method', 'method', 'method']
    if baths:
        kinds += ['bath']*4
    if mf:
        kinds += ['root']*6
    elif w.kt.startswith('py') or base == '2vN':
        kinds += ['linalg']*3
    if base == '2vN':
        kinds += ['iterate', 'iterate']
    hist = []
    box = dict(calls=0, k=0, after=False, hit=0)
    cls = type(s.appr)
    if base != '2vN':
        s.kerntype = hooked_class(cls, box)
        s.appr.make_kern_copy = False
    if rng.random() < 0.7:
        solve(s, w)
        hist.append('solved')
    for _ in range(int(rng.integers(1, 4))):
        kind = str(rng.choice(kinds))
        after = bool(rng.random() < 0.4)
        tag = '%s %s %s %r' % (w.name, kind, 'after' if after else 'before', hist)
        raised, text = False, ''
        hit = 0
        if kind == 'linalg':
            reached = []

            def fail(*a, **kw):
                reached.append(1)
                raise (np.linalg.LinAlgError('injected') if not after else ValueError('injected'))
            with contextlib.ExitStack() as st:
                for mod in (np.linalg, scipy.linalg):
                    for name in ('solve', 'lstsq'):
                        st.enter_context(patched(mod, name, fail))
                text = solve(s, w)
            if reached:
                mon.ev('failed')
                mon.ev('fault:linalg')
                check_remains(mon, s, tag)
            hist.append(kind)
            continue
        try:
            if kind in ('qd', 'leads', 'iterate', 'root'):
                obj = name = None
                if kind == 'qd':
                    obj, name = s.qd, 'diagonalise'
                elif kind == 'leads':
                    obj, name = s.leads, 'rotate'
                elif kind == 'iterate':
                    obj, name = s.appr, str(rng.choice(['iterate', 'determine_phi1_phi0', 'generate_kern',
                                                        'generate_current']))
                else:
                    obj, name = scipy.optimize, 'root'
                if not hasattr(obj, name):
                    mon.ev('no-such-step')
                    continue
                bomb = Bomb(getattr(obj, name), 1 if kind != 'iterate' else int(rng.integers(1, 1+w.sv['niter'])), after)
                with patched(obj, name, bomb):
                    try:
                        text = solve(s, w)
                    finally:
                        hit = bomb.hit
                        mon.ev('fault:'+kind, bool(hit))
            elif kind == 'bath':
                for b in baths:
                    b.calls, b.k = 0, int(rng.choice([1, 1, 2, 3, 40]))
                try:
                    text = solve(s, w)
                finally:
                    hit = any(b.k is not None and b.calls >= b.k for b in baths)
                    for b in baths:
                        b.k = None
                    mon.ev('fault:bath', bool(hit))
            elif base != '2vN':
                m = [x for x in METHODS if hasattr(cls, x) and not (mf and x in ('generate_kern', 'solve_kern'))]
                if not m:
                    continue
                name = str(rng.choice(m))
                box.update(calls=0, k=1, after=after, hit=0)
                box[name] = True
                try:
                    text = solve(s, w)
                finally:
                    hit = box['hit']
                    box[name] = False
                    mon.ev('fault:method', bool(hit))
                    mon.ev('fault:method:'+name, bool(hit))
            else:
                solve(s, w)
        except Fault:
            raised = True
        if kind == 'root':
            # reported by the flag
            mon.true('contained', not raised, tag)
            if hit:
                check_remains(mon, s, tag)
                mon.ev('failed')
        elif hit:
            mon.true('visible', raised, lambda: tag + ': the exception was ignored, success=%r' % (s.success,))
            check_remains(mon, s, tag)
            mon.ev('raised')
        hist.append(kind)
        if rng.random() < 0.3:
            solve(s, w)
            check_repaired(mon, s, w, base, tag)
            hist.append('solved')
    solve(s, w)
    check_repaired(mon, s, w, base, 'after %s %r' % (w.name, hist))
    mon.key('fault', w.name, w.kt[:2] == 'py', tuple(sorted(set(hist))), mf)


# -- root finders that stop before they converged ------------------------------------------------------------------

class Early(object):
    """A root finder with too few iterations, or one whose last iterate is not the root and which says so."""

    def __init__(self, fn, how, eps, rng):
        self.fn, self.how, self.eps, self.rng, self.res = fn, how, eps, rng, None

    def __call__(self, f, x, **kw):
        fev = kw.get('method') in ('df-sane', 'hybr')
        num = int(self.rng.integers(1, 4)) if self.how == 'few' else (2000 if fev else 60)
        kw = dict(kw, options={'maxfev' if fev else 'maxiter': num})
        r = self.fn(f, x, **kw)
        if self.how == 'near':
            r.x = r.x + self.eps*self.rng.normal(size=r.x.shape)
            r.fun = np.array(f(r.x))
            r.success = False
        self.res = r
        return r


def early(rng, mon):
    w = work.draw(rng, sym=False, nmax=2, spinful=False, names=['Pauli', 'Lindblad', 'Redfield', '1vN', 'elph-Pauli',
                                             'elph-Lindblad', 'elph-Redfield', 'elph-1vN'])
    base = work.base_of(w.kt)
    w.opts.update(mfreeq=True, symq=True)
    w.opts['solmethod'] = str(rng.choice(['krylov', 'broyden1', 'df-sane', 'hybr']))
    s = w.build()
    f, gap = fresh(mon, w, base)
    ref = np.array(f.phi0)[:f.si.npauli]
    hist = []
    for _ in range(int(rng.integers(1, 4))):
        how = str(rng.choice(['few', 'near', 'near', 'good']))
        root = Early(scipy.optimize.root, how, 10.0**rng.uniform(-3, -0.5), rng)
        with patched(scipy.optimize, 'root', root):
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                solve(s, w)
        hist.append(how)
        tag = '%s %s %r' % (w.name, w.opts['solmethod'], hist)
        r = root.res
        if r is None or not np.isfinite(r.x).all():
            mon.true('flag', not s.success, lambda: '%s: success=%r' % (tag, s.success))
            continue
        if not r.success:
            mon.ev('not-converged:'+how)
            err = np.max(np.abs(np.array(s.phi0)[:len(ref)]-ref))
            if err > 1e-4:
                mon.true('flag-early', not s.success, lambda: '%s: success=%r, error %.2g, residual %.2g' % (
                    tag, s.success, err, np.max(np.abs(r.fun))))
                mon.ev('not-converged')
        else:
            mon.true('flag-good', bool(s.success), lambda: '%s: success=%r' % (tag, s.success))
            mon.ev('converged')
    mon.key('early', w.name, w.kt[:2] == 'py', w.opts['solmethod'], tuple(sorted(set(hist))))


# -- wrong labels in calls that change parameters ---------------------------------------------------------------

def snapshot(s, elph):
    d = dict(hs=dict(s.hsingle), U=dict(s.coulomb), t=dict(s.tleads), mu=np.array(s.mulst), T=np.array(s.tlst),
             D=np.array(s.dlst), ta=np.array(s.tleads_array), T0=np.array(s.leads.Tba0),
             H=[np.array(h) for h in flat(s.qd.hamlst)])
    if elph:
        d.update(v=dict(s.velph), Tp=np.array(s.tlst_ph), Dp=np.array(s.dlst_ph), V0=np.array(s.baths.Vbbp0))
    return d


def flat(x):
    if isinstance(x, list):
        return [z for y in x for z in flat(y)]
    return [] if x is None else [x]


def differences(a, b):
    def same(x, y):
        if isinstance(x, np.ndarray):
            return np.array_equal(x, y)
        if isinstance(x, list):
            return len(x) == len(y) and all(np.array_equal(p, q) for p, q in zip(x, y))
        return x == y
    return [k for k in a if not same(a[k], b[k])]


def labels(rng, mon):
    w = work.draw(rng, nmax=3)
    base = work.base_of(w.kt)
    sp = w.spec
    s = w.build()
    n = sp.n//2 if sp.symmetry else sp.n
    nl = sp.nl//2 if sp.symmetry else sp.nl
    if rng.random() < 0.6:
        solve(s, w)
    for _ in range(int(rng.integers(1, 4))):
        par = str(rng.choice(['hs', 'U', 't', 't', 'mu', 'T'] + (['v', 'v', 'Tp'] if w.elph else [])))
        meth = str(rng.choice(['change', 'add']))
        far = int(rng.choice([1, 2, 5]))
        if par == 'hs':
            key = (int(rng.integers(n)),)*2
            val = gen.r3(rng.uniform(-1, 1))
            bad = [(s.si.nsingle-1+far, key[0]), (key[0], s.si.nsingle-1+far), (key[0],)][int(rng.integers(3))]
            good, wrong = dict(hsingle={key: val}), dict(hsingle=mix(rng, key, val, bad))
        elif par == 'U':
            if n < 2:
                continue
            key = (0, 1, 1, 0)
            val = gen.r3(rng.uniform(0.5, 3))
            bad = [(0, s.si.nsingle-1+far, 1, 0), (0, 1, 1, s.si.nsingle-1+far), (0, 1)][int(rng.integers(3))]
            good, wrong = dict(coulomb={key: val}), dict(coulomb=mix(rng, key, val, bad))
        elif par == 't':
            key = sorted(sp.t)[int(rng.integers(len(sp.t)))]
            val = gen.r3(rng.uniform(0.1, 1)*0.1)
            bad = [(s.si.nleads-1+far, key[1]), (key[0], s.si.nsingle-1+far), (key[0],), (key[0], key[1], 0)]
            bad = bad[int(rng.integers(4))]
            good, wrong = dict(tleads={key: val}), dict(tleads=mix(rng, key, val, bad))
        elif par == 'v':
            key = sorted(sp.elph['v'])[int(rng.integers(len(sp.elph['v'])))]
            val = gen.r3(rng.uniform(0.01, 0.1))
            bad = [(sp.elph['nb']-1+far, key[1], key[2]), (key[0], key[1], s.si.nsingle-1+far), key[:2]]
            good, wrong = dict(velph={key: val}), dict(velph=mix(rng, key, val, bad[int(rng.integers(3))]))
        elif par in ('mu', 'T'):
            key = int(rng.integers(nl))
            val = gen.r3(rng.uniform(0.2, 1))
            name = 'mulst' if par == 'mu' else 'tlst'
            wr = [{key: val, nl-1+far: 1.0}, {nl-1+far: 1.0, key: val}, [val]*(nl-1), np.ones(nl+far), 'x', {key: 'x'}]
            good, wrong = {name: {key: val}}, {name: wr[int(rng.integers(len(wr)))]}
            if nl == 1 and isinstance(wrong[name], list) and not wrong[name]:
                continue
        else:
            key = int(rng.integers(sp.elph['nb']))
            val = gen.r3(rng.uniform(0.2, 1))
            good, wrong = dict(tlst_ph={key: val}), dict(tlst_ph={key: val, sp.elph['nb']-1+far: 1.0})
        before = snapshot(s, w.elph)
        raised = False
        try:
            with captured():
                getattr(s, meth)(**wrong)
        except Exception:
            raised = True
        tag = '%s %s(%r)' % (w.name, meth, wrong)
        mon.true('reported', raised, tag)
        mon.ev('rejected')
        diff = differences(before, snapshot(s, w.elph))
        mon.true('unchanged', not diff, lambda: '%s changed %r' % (tag, diff))
        if rng.random() < 0.8:
            # the corrected call
            getattr(s, meth)(**good)
            put(container(sp, par), key, val, meth)
        mon.ev('corrected')
    if any(not (x > 0) for x in sp.T.values()):
        raise Inconclusive('temperature')
    solve(s, w)
    check_repaired(mon, s, w, base, 'after rejected calls')
    mon.key('labels', w.name, w.kt[:2] == 'py', sp.symmetry, w.indexing)


def mix(rng, key, val, bad):
    items = [(key, val), (bad, 0.5)]
    if rng.random() < 0.5:
        items.reverse()
    return dict(items)


def container(sp, par):
    d = dict(hs=sp.hs, U=sp.U, t=sp.t, mu=sp.mu, T=sp.T)
    return d[par] if par in d else (sp.elph['v'] if par == 'v' else sp.elph['T'])


def put(d, key, val, meth):
    d[key] = (d.get(key, 0) if isinstance(d, dict) else d[key])+val if meth == 'add' else val


# -- options and values that are not allowed -------------------------------------------------------------------

def raises(build):
    """(exception, printed text, system)"""
    with captured() as buf:
        try:
            return None, buf, build()
        except Exception as e:
            return e, buf, None


def invalid(rng, mon):
    w = work.draw(rng, sym=False, n=int(rng.choice([1, 2, 2])), spinful=False)
    base = work.base_of(w.kt)
    sp = w.spec
    live = bool(rng.random() < 0.5)
    warn = {}
    if not w.elph:
        warn['kerntype'] = (dict(kerntype=str(rng.choice(['Foo', 'pauli', '1VN', 'RTDD']))), 'Pauli')
    warn['indexing'] = (dict(indexing=str(rng.choice(['foo', 'CHARGE', 'charges']))), None)
    warn['symmetry'] = (dict(symmetry=str(rng.choice(['foo', 'Spin']))), None)
    if base != '2vN':
        warn['itype'] = (dict(itype=[4, -1, 7, None, 1.5][int(rng.integers(5))]), 1 if base == 'RTD' else 0)
    if base in ('RTD', '2vN'):
        warn['mfreeq'] = (dict(mfreeq=True), None)
        warn['indexing2'] = (dict(indexing=str(rng.choice(['sz', 'ssq']))), None)
    elif w.spec.n % 2:
        warn['indexing-odd'] = (dict(indexing=str(rng.choice(['sz', 'ssq']))), 'Lin')
    if w.elph and base in ('1vN', 'Redfield'):
        warn['itype_ph'] = (dict(itype_ph=[1, 3, -1][int(rng.integers(3))]), 0)
    warn['solmethod'] = (dict(solmethod=str(rng.choice(['foo', 'krylov', 'Solve']))), None)
    if not w.opts.get('symq', True):
        warn['solmethod2'] = (dict(solmethod='solve'), None)
    nl = sp.nl
    N = 2**sp.n
    mus = [float(sp.mu[l]) for l in range(nl)]
    Ts = [float(sp.T[l]) for l in range(nl)]
    k = int(rng.integers(nl))

    def but(x, i, y):
        out = list(x)
        out[i] = y
        return out
    wrong = {'mulst-short': dict(mulst=mus[:-1]), 'tlst-short': dict(tlst=np.array(Ts[:-1])),
             'tlst-zero': dict(tlst=but(Ts, k, 0.0)), 'tlst-negative': dict(tlst=but(Ts, k, -Ts[k])),
             'tlst-missing': dict(tlst={l: Ts[l] for l in range(nl) if l != k}),
             'mulst-nan': dict(mulst=but(mus, k, float('nan'))), 'mulst-text': dict(mulst='abc'),
             'mulst-extra': dict(mulst=dict(list(enumerate(mus)) + [(nl+1, 1.0)])),
             'tleads-type': dict(tleads=0.1), 'hsingle-type': dict(hsingle='x'), 'coulomb-type': dict(coulomb=3.0),
             'tleads-lead': dict(tleads=dict(sp.t, **{}) | {(nl+2, 0): 0.1}),
             'tleads-state': dict(tleads=dict(sp.t) | {(0, sp.n+1): 0.1}),
             'hsingle-state': dict(hsingle=dict(sp.hs) | {(0, sp.n): 0.1}),
             'kerntype-object': dict(kerntype=5), 'kerntype-class': dict(kerntype=dict)}
    if w.opts.get('symq', True):
        wrong['norm_row'] = dict(norm_row=int(rng.choice([10**4, -10**4])))
        if base in ('1vN', 'Redfield', 'Lindblad') and sp.n > 1 and not w.opts.get('mfreeq'):
            wrong['norm_row-coherence'] = dict(norm_row=N)
    if base in ('Pauli', '1vN', 'Redfield', 'Lindblad'):
        wrong['phi0_init'] = dict(mfreeq=True, phi0_init=[1.0])
    if w.elph:
        nb = sp.elph['nb']
        wrong['tlst_ph-zero'] = dict(tlst_ph=[0.0]*nb)
        wrong['tlst_ph-short'] = dict(tlst_ph=[0.5]*(nb-1))
        wrong['tlst_ph-negative'] = dict(tlst_ph=[-0.5]*nb)
        wrong['velph-bath'] = dict(velph=dict(sp.elph['v']) | {(nb+1, 0, 0): 0.1})
        wrong['velph-type'] = dict(velph=1.0)
    mon.key('invalid', w.name, w.kt[:2] == 'py')
    name = str(rng.choice(sorted(warn)))
    kw, promise = warn[name]
    e, buf, s = raises(lambda: build(w, kw))
    text = buf.getvalue()
    if e is None:
        text += solve(s, w)
        mon.true('reported', 'WARNING' in text, lambda: '%s %r: no warning' % (w.name, kw))
        w2 = copy.copy(w)
        w2.opts = dict(w.opts)
        if name == 'kerntype':
            mon.true('default', s.kerntype == 'Pauli', lambda: repr(s.kerntype))
            w2.kt = 'Pauli'
            w2.sv = {}
        elif name == 'itype':
            mon.true('default', s.itype == promise, lambda: '%r -> %r' % (kw, s.itype))
            w2.itype = promise
        elif name == 'itype_ph':
            w2.opts['itype_ph'] = 0
        elif name == 'symmetry':
            mon.true('default', s.si.symmetry is None, lambda: repr(s.si.symmetry))
        elif name.startswith('indexing'):
            to = promise or 'charge'
            mon.true('default', s.indexing == to, lambda: repr(s.indexing))
            w2.indexing = to
            mon.ev(name)
        elif name == 'mfreeq':
            mon.true('default', s.mfreeq is False, lambda: repr(s.mfreeq))
        w2.restriction = None
        if work.base_of(w2.kt) in ('1vN', 'Redfield') and w2.itype == 0 and sp.n > 2:
            pass
        check_repaired(mon, s, w2, work.base_of(w2.kt), 'default for %r' % kw)
    else:
        mon.true('reported', True)
    # values that cannot be replaced by anything
    for name in [sorted(wrong)[int(i)] for i in rng.permutation(len(wrong))[:4]]:
        kw = wrong[name]

        def go():
            if live and set(kw) <= {'mulst', 'tlst'} and isinstance(list(kw.values())[0], (list, np.ndarray)):
                s = w.build()
                s.solve(**w.sv)
                s.change(**kw)
            else:
                s = build(w, kw)
            s.solve(**w.sv)
            return s
        e, buf, s = raises(go)
        mon.true('reported', e is not None, lambda: '%s %r: accepted, success=%r' % (w.name, kw, getattr(s, 'success', None)))
        mon.ev('rejected')
        mon.ev('invalid:'+name)
    # options of a live system
    s = w.build()
    solve(s, w)
    r = int(rng.integers(4))
    with captured() as buf:
        if r == 0:
            s.indexing = 'sz' if s.indexing != 'sz' else 'charge'
        elif r == 1 and base != '2vN':
            s.itype = 9
            w.itype = 1 if base == 'RTD' else 0
        elif r == 2 and base in ('RTD', '2vN'):
            s.mfreeq = True
        else:
            s.solmethod = 'foo'
    text = buf.getvalue()
    mon.true('reported', 'WARNING' in text, lambda: '%s option %d of a live system: no warning' % (w.name, r))
    solve(s, w)
    check_repaired(mon, s, w, base, 'option of a live system %d' % r)


def build(w, kw):
    kw = dict(kw)
    x = copy.copy(w)
    x.spec = copy.copy(w.spec)
    x.opts = dict(w.opts)
    args = {}
    for k, v in kw.items():
        if k == 'indexing':
            x.indexing = v
        elif k == 'itype':
            x.itype = v
        elif k == 'kerntype':
            return x.build(kerntype=v) if v else raising_empty(x)
        elif k in ('hsingle', 'coulomb', 'tleads', 'mulst', 'tlst', 'velph', 'tlst_ph'):
            args[k] = v
        else:
            x.opts[k] = v
    x.opts.update(args)
    return x.build()


def raising_empty(x):
    import qmeq
    kw = x.spec.kwargs()
    return qmeq.Builder(kerntype='', **kw)
