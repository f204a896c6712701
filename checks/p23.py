"""P23: long sweeps hold memory bounded, dropped systems go away, and the state of the process is left alone."""
import ctypes
import gc
import io
import json
import locale
import os
import random
import signal
import subprocess
import sys
import threading
import tracemalloc
import warnings

import numpy as np

from qmon import gen, work
from qmon.mon import Inconclusive

RULE = ('A case counts when a random sequence of operations (solutions with changes, removals, switches of approach, listings, '
        'failed solutions, systems built and dropped) was repeated in windows and the traced memory, the number of objects, '
        'the remaining objects of the package and the state of the process were compared between the windows.')
ASSUMPTIONS = ['memory is what tracemalloc and the garbage collector see (Python objects and arrays of numpy, also those made by the '
               'compiled modules)']
REQUIRED = {'quick': {'check:growth': 230, 'check:left-alone': 230, 'check:dropped': 230, 'import': 3, 'failed-solve': 200, 'switch': 100,
                      'listing': 200, 'removal': 200, 'iterated': 10, 'matrix-free': 60},
            'thorough': {'check:growth': 3500}}
BUDGET = {'quick': 400, 'thorough': 5400}
NAMES = ['Pauli', 'Lindblad', 'Redfield', '1vN', 'elph-Pauli', 'elph-Lindblad', 'elph-Redfield', 'elph-1vN', 'RTD', '2vN', 'mfree',
         'Pauli', '1vN', 'RTD']
WINDOWS = 4
BYTES = 700      # a window has several solutions; a lost array is more than a hundred bytes


def cases(tier, seed):
    num = 420 if tier == 'quick' else 6000
    return [dict(kind='import', seed=seed*100003+90000+k) for k in range(4)] + \
           [dict(kind=NAMES[k % len(NAMES)], seed=seed*100003+k) for k in range(num)]


# ------------------------------------------------------------------ state of the process
def gomp():
    try:
        return ctypes.CDLL('libgomp.so.1')
    except OSError:
        return None


def state():
    x = np.array([5e-324, 1.0])
    r = np.random.get_state()
    g = gomp()
    return dict(errors=np.geterr(), call=repr(np.geterrcall()),
                random=(r[0], r[1].tobytes(), r[2:]), python_random=hash(random.getstate()),
                printing={k: repr(v) for k, v in np.get_printoptions().items()},
                warnings=[repr(f) for f in warnings.filters], showwarning=repr(warnings.showwarning),
                environment=dict(os.environ), directory=os.getcwd(), files=len(os.listdir('/proc/self/fd')),
                recursion=sys.getrecursionlimit(), switch=sys.getswitchinterval(),
                threads=threading.active_count(), gc=(gc.isenabled(), gc.get_threshold()),
                path=list(sys.path), locale=locale.setlocale(locale.LC_ALL), hooks=(repr(sys.excepthook), repr(sys.displayhook)),
                signals=[repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGFPE, signal.SIGTERM)],
                omp=(g.omp_get_max_threads(), g.omp_get_dynamic(), g.omp_get_max_active_levels()) if g else None,
                denormals=bool((x*1.0)[0] > 0), rounding=(bool(x[1]+2.0**-53 == 1.0), bool(x[1]+2.0**-53*1.5 > 1.0)),
                stdout=id(sys.stdout), stderr=id(sys.stderr), trace=(sys.gettrace() is None, sys.getprofile() is None))


def difference(a, b):
    return ['%s: %s -> %s' % (k, str(a[k])[:90], str(b[k])[:90]) for k in a if a[k] != b[k]]


class Unusual(object):
    """Settings a user may have chosen, which are not the defaults."""

    def __init__(self, rng):
        self.rng = rng

    def __enter__(self):
        rng = self.rng
        self.err = np.geterr()
        self.rs, self.prs = np.random.get_state(), random.getstate()
        self.po = np.get_printoptions()
        self.filters = list(warnings.filters)
        self.g = gomp()
        self.thr = self.g.omp_get_max_threads() if self.g else None
        np.seterr(**{k: str(rng.choice(['warn', 'ignore'])) for k in ('divide', 'over', 'under', 'invalid')})
        np.random.seed(int(rng.integers(1 << 30)))
        np.random.normal()
        random.seed(int(rng.integers(1 << 30)))
        np.set_printoptions(precision=int(rng.integers(3, 12)), suppress=bool(rng.random() < 0.5), linewidth=int(rng.integers(60, 200)))
        warnings.filterwarnings('ignore', message='unusual %d' % rng.integers(99))
        if self.g:
            self.g.omp_set_num_threads(int(rng.integers(1, 5)))
        return self

    def __exit__(self, *exc):
        np.seterr(**self.err)
        np.random.set_state(self.rs)
        random.setstate(self.prs)
        np.set_printoptions(**self.po)
        warnings.filters[:] = self.filters
        warnings._filters_mutated()
        if self.g:
            self.g.omp_set_num_threads(self.thr)


# ------------------------------------------------------------------ operations of a window
class Sequence(object):
    def __init__(self, rng, name, w, mon):
        self.w, self.mon = w, mon
        self.over = {}
        if name == 'mfree':
            self.over = dict(mfreeq=True, solmethod=str(rng.choice(['krylov', 'hybr', 'lm'])))
        self.two = '2vN' in w.kt
        kinds = ['change', 'solve', 'change', 'solve', 'partial', 'listing', 'accessors', 'restrict', 'build', 'fail', 'switch', 'options',
                 'reassign', 'rejected']
        if self.two:
            kinds = ['change', 'solve', 'build', 'listing', 'restrict', 'iterate', 'accessors']
        k = int(rng.integers(3, 5 if self.two else 8))
        self.ops = ['solve'] + [str(x) for x in rng.choice(kinds, size=k)]
        self.win = None
        self.other = None
        base = work.base_of(w.kt)
        if base in ('Pauli', '1vN', 'Redfield') and w.itype != 0:
            self.other = ('py' if w.kt.startswith('py') else '')+str(rng.choice(['Pauli', '1vN', 'Redfield']))
        self.eps = float(rng.uniform(0.01, 0.2))
        self.lead = int(rng.integers(w.spec.nl)) if not w.spec.symmetry else 0
        self.part = dict(qdq=bool(rng.random() < 0.5), rotateq=True, masterq=bool(rng.random() < 0.7))

    def start(self):
        s = self.w.build(**self.over)
        self.w.solve(s)
        self.win = work.states_window(gen.rng_of('p23w', len(s.Ea)), np.array(s.Ea))
        self.mu = dict(s.leads._mulst) if hasattr(s.leads, '_mulst') else None
        return s

    def run(self, s):
        for op in self.ops:
            getattr(self, op)(s)

    def solve(self, s):
        self.w.solve(s)
        if self.over:
            self.mon.ev('matrix-free')

    def change(self, s):
        mu = s.mulst[self.lead]
        s.change(mulst={self.lead: mu+self.eps})
        self.w.solve(s)
        s.change(mulst={self.lead: mu})
        s.add(hsingle={(0, 0): self.eps})
        s.add(hsingle={(0, 0): -self.eps})

    def partial(self, s):
        s.solve(**self.part)

    def iterate(self, s):
        self.w.solve(s, niter=2)
        self.mon.ev('iterated')

    def listing(self, s):
        s.print_state(0)
        s.print_all_states(os.devnull)
        s.sort_eigenstates()
        self.mon.ev('listing')

    def accessors(self, s):
        self.w.solve(s)
        si = s.si
        for c in range(si.ncharge):
            for b in si.statesdm[c]:
                s.get_phi0(b, b)
        str(s.current), str(s.Ea), str(s.phi0)

    def restrict(self, s):
        if self.win is None:
            return
        s.remove_states(self.win)
        self.w.solve(s)
        s.use_all_states()
        self.w.solve(s)
        self.mon.ev('removal')

    def build(self, s):
        x = self.w.build(**self.over)
        self.w.solve(x)

    def fail(self, s):
        """a solution that fails"""
        t = s.appr.funcp.solmethod if hasattr(s.appr, 'funcp') else None
        old = s.leads.tlst
        s.leads.tlst = np.zeros(0)
        try:
            self.w.solve(s)
        except Exception:
            self.mon.ev('failed-solve')
        finally:
            s.leads.tlst = old
        del t
        self.w.solve(s)

    def rejected(self, s):
        """requests that are refused"""
        for f in (lambda: s.remove_fock_states(['?']), lambda: self.w.build(indexing='none such'), lambda: self.w.build(kerntype='none such')):
            try:
                f()
            except Exception:
                self.mon.ev('rejected')

    def switch(self, s):
        if self.other is None or self.over:
            return
        old = s.kerntype
        s.kerntype = self.other
        s.solve()
        s.kerntype = old
        self.w.solve(s)
        self.mon.ev('switch')

    def options(self, s):
        if self.over:
            return
        s.symq = False
        self.w.solve(s)
        s.symq = True
        self.w.solve(s)

    def reassign(self, s):
        s.leads.mulst = np.array(s.leads.mulst)
        self.w.solve(s)


def mine():
    """Objects of the package that exist."""
    out = {}
    for o in gc.get_objects():
        t = type(o)
        if (t.__module__ or '').startswith('qmeq') and not isinstance(o, type):
            out[t.__name__] = out.get(t.__name__, 0)+1
    return out


def measure():
    gc.collect()
    return tracemalloc.get_traced_memory()[0], len(gc.get_objects())


def windows(seq, s, n):
    mem, obj = np.zeros(n+1, dtype=int), np.zeros(n+1, dtype=int)
    for k in range(n+1):
        sys.stdout.seek(0)
        sys.stdout.truncate(0)
        seq.run(s)
        m, o = measure()
        mem[k], obj[k] = m, o
    return np.diff(mem), np.diff(obj)


def run_sweep(case, mon):
    rng = gen.rng_of('p23', case['seed'])
    name = case['kind']
    nm = name if name != 'mfree' else str(rng.choice(['Pauli', '1vN', 'Redfield', 'Lindblad', 'elph-Pauli', 'elph-1vN']))
    w = work.draw(rng, nm, symq=True, nmax=2, n=1 if name == '2vN' else None, py=False if name == '2vN' else None)
    if w.spec.n > (1 if w.kt == 'pyRTD' else 2):
        raise Inconclusive('too large')
    if w.elph:
        w.opts['itype_ph'] = 2
    if w.itype in (0, 2) and w.kt.startswith('py') and name != '2vN':
        w.opts['itype'] = w.itype = 1
    if name == '2vN':
        w.opts['kpnt'] = 16
    gc.collect()
    before = mine()
    seq = Sequence(rng, name, w, mon)
    old = sys.stdout
    with Unusual(rng):
        st0 = state()
        sys.stdout = io.StringIO()
        try:
            s = seq.start()
            seq.run(s)
            tracemalloc.start()
            seq.run(s)
            gc.collect()
            dm, do = windows(seq, s, WINDOWS)
            leak = min(dm[1:]) > BYTES or min(do[1:]) > 0
            if leak:
                # the same again for longer, before it is believed
                dm, do = windows(seq, s, 3*WINDOWS)
                leak = min(dm) > BYTES or min(do) > 0
                mon.ev('looked-twice')
        finally:
            tracemalloc.stop()
            sys.stdout = old
        what = (w.name, seq.ops, seq.over)
        mon.true('growth', not leak, '%s: bytes %s, objects %s in windows of the same operations' % (what, list(dm), list(do)))
        s = seq = None
        gc.collect()
        after = mine()
        mon.true('dropped', all(after[k] <= before.get(k, 0) for k in after), '%s: %s -> %s' % (what, before, after))
        d = difference(st0, state())
        mon.true('left-alone', not d, '%s: %s' % (what, d))
    mon.key(*(w.key()+(name,)+tuple(what[1])))


IMPORT = r"""
import sys, json
sys.path.insert(0, sys.argv[1])
sys.path.insert(1, sys.argv[2])
import numpy, scipy.optimize, scipy.linalg, scipy.integrate, scipy.special
from checks import p23
from qmon import gen
import ctypes
rng = gen.rng_of('p23i', int(sys.argv[3]))
with p23.Unusual(rng):
    a = p23.state()
    import qmeq
    import qmeq.specfunc, qmeq.approach, qmeq.builder
    b = p23.state()
a.pop('files'); b.pop('files')
print(json.dumps(p23.difference(a, b)))
"""


def run_import(case, mon):
    b = os.environ['QMON_BUILD']
    v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    r = subprocess.run([sys.executable, '-c', IMPORT, b, v, str(case['seed'])], capture_output=True, text=True, timeout=300)
    if r.returncode:
        raise RuntimeError(r.stderr[-600:])
    d = json.loads(r.stdout.strip().splitlines()[-1])
    mon.true('import-left-alone', not d, str(d))
    mon.ev('import')
    mon.key('import', case['seed'])


def run_case(case, mon):
    if case['kind'] == 'import':
        run_import(case, mon)
    else:
        run_sweep(case, mon)
