"""Shared workload: a random system, an approach, options, and a recipe to build it again and again."""
import copy

import numpy as np

from . import gen, sysutil

COH = ('Lindblad', 'Redfield', '1vN')


class Work(object):
    """spec + options; build() makes a fresh system, solve() solves it with the right call."""

    def __init__(self, spec, kt, elph, opts, indexing, sym, itype, sv):
        self.spec, self.kt, self.elph, self.opts = spec, kt, elph, dict(opts)
        self.indexing, self.sym, self.itype, self.sv = indexing, sym, itype, dict(sv)
        self.restriction = None

    @property
    def name(self):
        return ('elph-' if self.elph else '') + self.kt

    def build(self, kerntype=None, indexing=None, **over):
        kw = dict(self.opts)
        kw.update(over)
        args = dict(kerntype=kerntype or self.kt, itype=kw.pop('itype', self.itype),
                    indexing=indexing or self.indexing, **kw)
        if self.elph:
            return sysutil.build_elph(self.spec, **args)
        return self.spec.build(**args)

    def solve(self, s, **over):
        kw = dict(self.sv)
        kw.update(over)
        with sysutil.quiet(), np.errstate(all='ignore'):
            s.solve(**kw)
        return s

    def diag(self, s):
        with sysutil.quiet():
            s.solve(masterq=False)
        return s

    def restrict(self, s, how):
        """how: (method, energy)."""
        self.diag(s)
        if how[0] == 'remove_states':
            E = np.array(s.Ea, dtype=float)
            s.remove_states(float(how[1]))
        elif how[0] == 'remove_coherences':
            s.remove_coherences(float(how[1]))
        return s

    def tol(self, gap, floor=1e-11):
        t = floor + 1e-13/gap
        base = base_of(self.kt)
        if base in ('Redfield', '1vN') and self.itype == 0:
            t += 1e-9/gap*1e-2 + 1e-10
        if base == 'RTD':
            t += 1e-8
        if base == '2vN':
            t += 1e-8
        if self.opts.get('itype_ph') == 0:
            t += 1e-8/gap*1e-2
        return t

    def key(self):
        return (self.name, self.itype, self.indexing, self.sym, self.spec.n, self.spec.nl,
                '+'.join(sorted(self.spec.tags)))


def states_window(rng, E):
    """An energy window that keeps some states and drops others (None when there is no clear cut)."""
    d = np.sort(np.asarray(E)-np.min(E))
    cuts = [0.5*(a+b) for a, b in zip(d[:-1], d[1:]) if b-a > 1e-6*max(1.0, d[-1])]
    return float(rng.choice(cuts)) if cuts else None


def draw(rng, name=None, py=None, itype=None, spinful=None, n=None, nl=None, restrict=0.0, nmax=3, names=None,
         sym=None, indexing='any', symq=None, phfuncs=None, **gkw):
    """name: Pauli, elph-Lindblad, RTD, 2vN, ..."""
    name = name or str(rng.choice(names or ['Pauli', 'Lindblad', 'Redfield', '1vN', 'elph-Pauli', 'elph-Lindblad',
                                            'elph-Redfield', 'elph-1vN', 'RTD', '2vN']))
    elph = name.startswith('elph-')
    base = name.replace('elph-', '')
    py = (rng.random() < 0.35) if py is None else py
    kt = ('py' if py else '') + base
    if spinful is None:
        spinful = rng.random() < 0.25 and base != '2vN'
    if n is None:
        n = int(rng.integers(1, {'RTD': 2, '2vN': 2}.get(base, nmax)+1))
        if base == 'RTD' and not py and rng.random() < 0.15:
            n = 3
        if spinful:
            n = 2 if (base == 'RTD' or rng.random() < 0.7) else 4
    if nl is None:
        nl = int(rng.choice([2, 2, 3])) if base in ('RTD', '2vN') else None
    if elph and base in ('Redfield', '1vN'):
        gkw.setdefault('degenerate', False)
        gkw['spinful_shift'] = True
    shift = gkw.pop('spinful_shift', False)
    spec = gen.gen_sys(rng, n=n, nl=nl, spinful=spinful, **gkw)
    if itype is None:
        itype = int(rng.choice([0, 1, 2, 2, 3])) if base in ('Redfield', '1vN') else int(rng.choice([0, 1, 2, 3]))
    if itype == 0 and spec.n > 3:
        itype = 2
    if base == 'RTD':
        itype = 1
    opts = {}
    if elph:
        if spinful and shift:
            h = spec.n//2
            for i in range(h):
                spec.hs[(i, i)] = gen.r3(spec.hs[(i, i)]+0.17*spec.T[0])
            spinful = False
            spec.tags.discard('spinful')
        gen.gen_elph(rng, spec, funcs=phfuncs)
        opts['itype_ph'] = 2 if (spec.n > 2 or rng.random() < 0.6) else 0
    ind = None
    issym = False
    if spinful and base != 'RTD':
        ind = str(rng.choice(['charge', 'sz', 'ssq'])) if indexing == 'any' else indexing
        if (sym is None and rng.random() < 0.4) or sym:
            spec = gen.symmetric_half(spec)
            issym = True
        elif indexing == 'any' and rng.random() < 0.3:
            ind = 'Lin'
    elif base != 'RTD' and indexing == 'any' and rng.random() < 0.25:
        ind = 'Lin'
    elif indexing != 'any':
        ind = indexing
    sv = {}
    opts['symq'] = bool(rng.random() < 0.7) if symq is None else symq
    if base == '2vN':
        opts['kpnt'] = int(rng.choice([32, 50, 64]))
        if not np.isscalar(spec.D):
            spec.D = 60.0*spec.T[0]
        opts['symq'] = True
        itype = 0
        sv['niter'] = int(rng.integers(1, 4))
    return Work(spec, kt, elph, opts, ind, issym, itype, sv)


def base_of(kt):
    return kt[2:] if kt.startswith('py') else kt
