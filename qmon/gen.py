"""Random but reproducible quantum dot systems (the workload)."""
import numpy as np


def rng_of(*parts):
    """Deterministic generator from ints and strings."""
    ints = []
    for p in parts:
        if isinstance(p, str):
            ints.extend(p.encode())
        else:
            ints.append(int(p) & 0xffffffff)
    return np.random.default_rng(ints)


def r3(x):
    return float(np.round(x, 4))


class Spec(object):
    """n single particle levels, nl leads; dictionaries as the builder takes them."""

    def __init__(self, n, nl, hs, U, t, mu, T, D, tags=()):
        self.n, self.nl = n, nl
        self.hs, self.U, self.t = hs, U, t
        self.mu, self.T, self.D = mu, T, D
        self.tags = set(tags)
        self.symmetry = None
        self.elph = None        # dict(nb=, v=, T=, D=)
        self.opts = {}

    def kwargs(self):
        kw = dict(nsingle=self.n, hsingle=dict(self.hs), coulomb=dict(self.U), nleads=self.nl,
                  tleads=dict(self.t), mulst=dict(self.mu), tlst=dict(self.T),
                  dband=(self.D if np.isscalar(self.D) else {k: list(v) if not np.isscalar(v) else v
                                                             for k, v in self.D.items()}))
        if self.symmetry:
            kw['symmetry'] = self.symmetry
        if self.elph is not None:
            e = self.elph
            kw.update(nbaths=e['nb'], velph=dict(e['v']), tlst_ph=dict(e['T']), dband_ph=dict(e['D']),
                      bath_func=e.get('f'))
            if 'itype_ph' in e:
                kw['itype_ph'] = e['itype_ph']
        kw.update(self.opts)
        return kw

    def build(self, **over):
        import qmeq
        kw = self.kwargs()
        kw.update(over)
        cls = qmeq.BuilderElPh if self.elph is not None else qmeq.Builder.base
        return cls(**kw)

    # full (spin-explicit) description, used by the reference
    def explicit(self):
        """Spec with the spin symmetry written out."""
        if self.symmetry != 'spin':
            return self
        return self.full

    def text(self):
        return dict(n=self.n, nl=self.nl, hs=str(self.hs), U=str(self.U), t=str(self.t), mu=str(self.mu),
                    T=str(self.T), D=str(self.D), symmetry=self.symmetry, elph=str(self.elph), opts=str(self.opts))

    # ---- leads as arrays
    def mu_arr(self):
        return np.array([self.mu[l] for l in range(self.nl)], dtype=float)

    def T_arr(self):
        return np.array([self.T[l] for l in range(self.nl)], dtype=float)

    def D_arr(self):
        out = []
        for l in range(self.nl):
            d = self.D if np.isscalar(self.D) else self.D[l]
            out.append([-d, d] if np.isscalar(d) else list(d))
        return np.array(out, dtype=float)


def cnum(rng, scale, cplx):
    a = rng.uniform(0.3, 1.0) * scale * rng.choice([-1, 1])
    if cplx:
        ph = rng.uniform(0, 2*np.pi)
        return complex(r3(abs(a)*np.cos(ph)), r3(abs(a)*np.sin(ph)))
    return r3(a)


def gen_sys(rng, n=None, nl=None, cplx=None, spinful=False, interacting=None, degenerate=None,
            hop=None, equilibrium=False, gamma=None, tscale=None, D=None, full_t=None, nmax=4, band=None,
            general_coulomb=None, equal_T=None):
    """A random system. Unset options are drawn."""
    n = int(n if n is not None else rng.integers(1, nmax+1))
    if spinful and n % 2:
        n += 1
    nl = int(nl if nl is not None else rng.choice([1, 2, 2, 2, 3, 4]))
    if spinful and nl % 2:
        nl += 1
    cplx = bool(rng.integers(2)) if cplx is None else cplx
    interacting = rng.random() < 0.8 if interacting is None else interacting
    degenerate = rng.random() < 0.35 if degenerate is None else degenerate
    hop = rng.random() < 0.7 if hop is None else hop
    full_t = rng.random() < 0.8 if full_t is None else full_t
    equal_T = rng.random() < 0.5 if equal_T is None else equal_T
    tscale = float(tscale if tscale is not None else rng.choice([0.5, 1.0, 2.0]))
    tags = set()
    T0 = tscale
    g = float(gamma if gamma is not None else rng.choice([0.02, 0.1, 0.4])) * T0   # typical Gamma
    tam = np.sqrt(g / (2*np.pi))
    hs, U, t = {}, {}, {}
    e0 = rng.uniform(-4, 3)*T0
    ns = n//2 if spinful else n
    for i in range(ns):
        if degenerate:
            hs[(i, i)] = r3(e0)
        else:
            hs[(i, i)] = r3(e0 + rng.uniform(-2.5, 2.5)*T0)
    if hop:
        for i in range(ns):
            for j in range(i+1, ns):
                if rng.random() < 0.75:
                    hs[(i, j)] = cnum(rng, rng.choice([0.05, 0.3, 1.0])*T0, cplx)
    if spinful:
        for (i, j) in list(hs):
            hs[(i+ns, j+ns)] = hs[(i, j)]
    if interacting:
        if spinful:
            Ui = {}
            for i in range(ns):
                for j in range(i, ns):
                    Ui[(i, j)] = r3(rng.uniform(0.5, 6)*T0)
            for i in range(n):
                for j in range(i+1, n):
                    a, b = sorted((i % ns, j % ns))
                    U[(i, j, j, i)] = Ui[(a, b)]
        else:
            for i in range(n):
                for j in range(i+1, n):
                    if rng.random() < 0.85:
                        U[(i, j, j, i)] = r3(rng.uniform(0.3, 6)*T0)
            gc = rng.random() < 0.3 if general_coulomb is None else general_coulomb
            if gc and n >= 3:
                tags.add('gencoul')
                # density assisted hopping + conjugate written explicitly (herm_c is False by default)
                i, j, k = [int(x) for x in rng.permutation(n)[:3]]
                v = cnum(rng, 0.5*T0, cplx)
                add_coulomb(U, (i, k, k, j), v)
                add_coulomb(U, (j, k, k, i), np.conj(v) if cplx else v)
    nls = nl//2 if spinful else nl
    for l in range(nls):
        for i in range(ns):
            if full_t or rng.random() < 0.7:
                t[(l, i)] = cnum(rng, tam*rng.uniform(0.6, 1.4), cplx)
    if not t:
        t[(0, 0)] = r3(tam)
    for i in range(ns):                                   # keep every level coupled to something
        if not any((l, i) in t for l in range(nls)):
            t[(int(rng.integers(nls)), i)] = cnum(rng, tam, cplx)
    if spinful:
        for (l, i) in list(t):
            t[(l+nls, i+ns)] = t[(l, i)]
    mu, T = {}, {}
    m0 = r3(rng.uniform(-1, 1)*T0)
    bias = float(rng.choice([0.3, 2.0, 6.0]))
    for l in range(nls):
        mu[l] = m0 if equilibrium else r3(m0 + bias*rng.uniform(-1, 1)*T0)
        T[l] = r3(T0) if (equilibrium or equal_T) else r3(T0*rng.uniform(0.5, 1.8))
    if spinful:
        for l in range(nls):
            mu[l+nls], T[l+nls] = mu[l], T[l]
    if D is None:
        Dv = r3(rng.uniform(50, 90)*T0)
        bt = band or rng.choice(['sym', 'lead', 'asym'])
        if bt == 'sym':
            D = Dv
        elif bt == 'lead':
            D = {l: [-r3(Dv*(1+0.1*(l % max(nls, 1)))), r3(Dv*(1+0.1*(l % max(nls, 1))))] for l in range(nl)}
        else:
            D = {l: [-r3(Dv*(1+0.13*(l % max(nls, 1)))), r3(Dv*(1.2-0.07*(l % max(nls, 1))))] for l in range(nl)}
        tags.add('band-'+str(bt))
    tags.add('complex' if cplx else 'real')
    if degenerate:
        tags.add('degenerate')
    if interacting:
        tags.add('interacting')
    if spinful:
        tags.add('spinful')
    s = Spec(n, nl, hs, U, t, mu, T, D, tags)
    return s


def add_coulomb(U, key, v):
    """Write V d+_m d+_n d_k d_l with m<n (the default input convention), keeping the operator."""
    m, n, k, l = key
    if m > n:
        m, n, k, l = n, m, l, k
    U[(m, n, k, l)] = U.get((m, n, k, l), 0) + v


def symmetric_half(spec):
    """The same spinful system described through symmetry='spin' (first half of states and leads)."""
    n, nl = spec.n//2, spec.nl//2
    hs = {k: v for k, v in spec.hs.items() if k[0] < n and k[1] < n}
    t = {k: v for k, v in spec.t.items() if k[0] < nl and k[1] < n}
    mu = {l: spec.mu[l] for l in range(nl)}
    T = {l: spec.T[l] for l in range(nl)}
    D = spec.D if np.isscalar(spec.D) else {l: spec.D[l] for l in range(nl)}
    # the symmetric description takes Coulomb elements between orbitals, whatever their spin
    U = {}
    for (i, j, k, l), v in spec.U.items():
        assert (i, j) == (l, k)
        U[tuple(sorted((i % n, j % n))) + tuple(sorted((i % n, j % n)))[::-1]] = v
    s = Spec(spec.n, spec.nl, hs, U, t, mu, T, D, spec.tags | {'symmetry'})
    s.symmetry = 'spin'
    s.full = spec
    if spec.elph is not None:
        e = dict(spec.elph)
        e['v'] = {k: v for k, v in e['v'].items() if k[1] < n and k[2] < n}
        s.elph = e
    return s


class BathF(object):
    """Density of states of a phonon bath, w^p with p>=1 (cheap, defined for every w>=0)."""

    def __init__(self, a, p):
        self.a, self.p = a, p

    def __call__(self, w):
        return self.a*abs(w)**self.p


def gen_elph(rng, spec, nb=None, strength=None, funcs=None):
    """Attach phonon baths to a spec (both directions written out; not always a hermitian coupling, which stands
    for two independent baths with the hermitian and anti-hermitian parts)."""
    nb = int(nb if nb is not None else rng.integers(1, 3))
    T0 = float(np.mean(list(spec.T.values())))
    s = float(strength if strength is not None else rng.choice([0.05, 0.2]))*np.sqrt(T0)
    spinful = 'spinful' in spec.tags
    ns = spec.n//2 if spinful else spec.n
    cplx = 'complex' in spec.tags
    v = {}
    for b in range(nb):
        nonherm = rng.random() < 0.3
        for i in range(ns):
            for j in range(i, ns):
                if i == j:
                    v[(b, i, i)] = r3(s*rng.uniform(-1, 1))
                    if nonherm and cplx:
                        v[(b, i, i)] = complex(v[(b, i, i)], r3(s*rng.uniform(-1, 1)))
                elif nonherm:
                    if rng.random() < 0.8:
                        v[(b, i, j)] = cnum(rng, s, cplx)
                    if rng.random() < 0.8:
                        v[(b, j, i)] = cnum(rng, s, cplx)
                else:
                    x = cnum(rng, s, cplx)
                    v[(b, i, j)] = x
                    v[(b, j, i)] = np.conj(x) if cplx else x
                    if cplx:
                        v[(b, j, i)] = complex(v[(b, j, i)])
    if spinful:
        for (b, i, j) in list(v):
            v[(b, i+ns, j+ns)] = v[(b, i, j)]
    T = {b: r3(T0*rng.uniform(0.5, 1.8)) for b in range(nb)}
    D = {b: [r3(1e-4*T0), r3(rng.uniform(40, 60)*T0)] for b in range(nb)}
    f = None
    if funcs if funcs is not None else rng.random() < 0.6:
        f = [BathF(r3(rng.uniform(0.3, 1.0)), int(rng.choice([1, 1, 2]))/T0*T0) for _ in range(nb)]
    spec.elph = dict(nb=nb, v=v, T=T, D=D, f=f)
    return spec
