"""Bridges between a solved system and the reference."""
import contextlib
import io
import os

import numpy as np

from . import ref

FIRST = ('Pauli', 'Lindblad', 'Redfield', '1vN')


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def spec_ph(spec, itype_ph=None, eps=1e-6):
    e = spec.elph
    nb = e['nb']
    return dict(T=[e['T'][b] for b in range(nb)], D=[e['D'][b] for b in range(nb)],
                f=e.get('f'), eps=eps, itype=itype_ph if itype_ph is not None else e.get('itype_ph', 0))


def fock_table(system):
    """occupation arrays of the package's many-body basis states -> bit index of the reference."""
    si = system.si
    n = si.nsingle
    table = []
    for k in range(si.nmany):
        occ = si.get_state(k)
        table.append(int(sum(int(o) << (n-1-i) for i, o in enumerate(occ))))
    return np.array(table)


def charges(system):
    q = np.zeros(system.si.nmany, dtype=int)
    for c in range(system.si.ncharge):
        for b in system.si.statesdm[c]:
            q[b] = c
    return q


def rho_full(system):
    """Full density matrix through the public element accessor."""
    N = system.si.nmany
    rho = np.zeros((N, N), dtype=complex)
    for c in range(system.si.ncharge):
        st = list(system.si.statesdm[c])
        for b in st:
            for bp in st:
                rho[b, bp] = system.get_phi0(b, bp)
    return rho


def full_vectors(system):
    """Eigenstates over the occupation-number basis: columns are eigenstates, rows are occupation bit indices."""
    si = system.si
    table = fock_table(system)
    N = si.nmany
    X = np.zeros((N, N), dtype=complex)
    vec = np.array(system.qd.vecslst, dtype=object)
    return X, table, vec


def state_sz(system):
    """S_z of every eigenstate from its expansion in occupation states (block structure of the Hamiltonian)."""
    si = system.si
    sz = np.full(si.nmany, np.nan)
    h = si.nsingle//2
    if si.indexing == 'sz':
        for c in range(si.ncharge):
            for k, block in enumerate(si.szlst[c]):
                for b in block:
                    occ = si.get_state(b)
                    sz[b] = 0.5*(sum(occ[:h])-sum(occ[h:]))
    elif si.indexing == 'ssq':
        for c in range(si.ncharge):
            szl = range(-c, c+1, 2) if c <= h else range(-(2*h-c), 2*h-c+1, 2)
            for m, blocks in zip(szl, si.ssqlst[c]):
                for block in blocks:
                    for b in block:
                        sz[b] = 0.5*m
    return sz


def coherence_mask(system, spec):
    """Pairs of states the indexing keeps, from conserved quantum numbers (charge, S_z)."""
    q = charges(system)
    m = q[:, None] == q[None, :]
    return m


def model_of(system, spec, itype, mask=None, ph=None):
    """Reference model that takes energies and tunnelling amplitudes in the system's own eigenbasis."""
    ex = spec.explicit()
    E = np.array(system.Ea, dtype=float)
    T = np.array(system.Tba, dtype=complex)
    V = np.array(system.baths.Vbbp, dtype=complex) if ph is not None else None
    if mask is None:
        q = charges(system)
        mask = q[:, None] == q[None, :]
    return ref.Model(E, charges(system), T, ex.mu_arr(), ex.T_arr(), ex.D_arr(), itype, mask=mask, V=V, ph=ph)


def own_model(ex, itype, ph=None):
    """Reference model from the written-out input alone."""
    n = ex.n
    H = ref.hamiltonian(n, ex.hs, ex.U)
    T = ref.tunnelling(n, ex.nl, ex.t)
    V = ref.elph_matrix(n, ex.elph['nb'], ex.elph['v']) if ph is not None else None
    N = ref.number_op(n)
    order = np.argsort(N, kind='stable')
    E = np.zeros(2**n)
    X = np.zeros((2**n, 2**n), dtype=complex)
    split = np.inf
    k = 0
    for c in range(n+1):
        idx = np.nonzero(N == c)[0]
        w, v = np.linalg.eigh(H[np.ix_(idx, idx)])
        E[k:k+len(idx)] = w
        X[np.ix_(idx, np.arange(k, k+len(idx)))] = v
        if len(w) > 1:
            split = min(split, np.min(np.diff(w)))
        k += len(idx)
    Te = np.array([X.conj().T @ t @ X for t in T])
    Ve = None if V is None else np.array([X.conj().T @ v @ X for v in V])
    m = ref.Model(E, N[order].astype(int), Te, ex.mu_arr(), ex.T_arr(), ex.D_arr(), itype, V=Ve, ph=ph)
    m.min_split = split
    m.X = X
    return m


def reference(model, kerntype):
    k = kerntype.replace('py', '')
    if k == 'Pauli':
        return model.pauli()
    if k == 'Lindblad':
        return model.lindblad()
    return model.vn1(redfield=(k == 'Redfield'))


def wrap_bath(f):
    """A density-of-states object of the kind the package expects, evaluating f."""
    from qmeq.specfunc import Func

    class Dos(Func):
        def __init__(self, fn):
            self.fn = fn

        def eval(self, x):
            return self.fn(x)
    return Dos(f)


def build_elph(spec, **kw):
    f = spec.elph.get('f')
    return spec.build(bath_func=None if f is None else [wrap_bath(x) for x in f], **kw)


def dephasing(system):
    """Rates of the diagonal Lindblad operators of the phonon baths. They cancel in the populations, up to rounding."""
    V = np.array(system.Vbbp)
    eps, T = system.eps_elph, np.array(system.tlst_ph)
    out = 0.0
    for k in range(len(V)):
        x = T[k]*eps
        d = 1.0 if system.bath_func is None else system.bath_func[k].eval(x)
        out = max(out, 2*np.pi*abs(d)/eps*np.max(np.abs(np.diagonal(V[k]))**2, initial=0))
    return float(out)


def gamma_scale(system):
    return float(max(np.max(np.abs(np.array(system.Tba)))**2*2*np.pi, 1e-300))


def gc_populations(E, q, mu, T):
    """Grand canonical weights, in the order of E."""
    x = -(np.asarray(E)-mu*np.asarray(q))/T
    x = x-np.max(x)
    p = np.exp(x)
    return p/np.sum(p)


def blocks(system):
    """[(row labels, column labels, matrix of eigenvectors, Hamiltonian block or None)] in the package's labels."""
    si, qd = system.si, system.qd
    out = []
    for c in range(si.ncharge):
        if si.indexing == 'sz':
            for k, st in enumerate(si.szlst[c]):
                if len(st):
                    out.append((st, st, qd.vecslst[c][k], qd.hamlst[c][k], qd.valslst[c][k]))
        elif si.indexing == 'ssq':
            for k, groups in enumerate(si.ssqlst[c]):
                for j, st in enumerate(groups):
                    if len(st):
                        out.append((si.szlst[c][k], st, qd.vecslst[c][k][j], None, qd.valslst[c][k][j]))
        else:
            st = si.chargelst[c]
            if len(st):
                out.append((st, st, qd.vecslst[c], qd.hamlst[c], qd.valslst[c]))
    return out


def eigvec_matrix(system):
    """X[fock label, eigenstate label] and the list of stored Hamiltonian blocks."""
    N = system.si.nmany
    X = np.zeros((N, N), dtype=complex)
    hb = []
    for rows, cols, vec, ham, val in blocks(system):
        X[np.ix_(list(rows), list(cols))] = vec
        if ham is not None:
            hb.append((list(rows), np.array(ham)))
    return X, hb


def gap_of(pysys):
    """Second smallest over largest singular value of the generator kept by a pure-Python approach."""
    k = np.array(pysys.kern)
    if k.shape[0] > k.shape[1]:
        k = k[:-1]
    s = np.linalg.svd(k, compute_uv=False)
    if len(s) < 2:
        return 1.0
    return float(s[-2]/max(s[0], 1e-300))


def fock_rho(s):
    """Density matrix over occupation patterns (independent of the choice of eigenvectors): dict of the package's
    own Fock labels, as a full matrix in Lin order (removed patterns stay zero)."""
    X, _ = eigvec_matrix(s)
    rho = rho_full(s)
    R = X @ rho @ X.conj().T
    tab = fock_table(s)
    n = s.si.nsingle
    out = np.zeros((2**n, 2**n), dtype=complex)
    out[np.ix_(tab, tab)] = R
    return out


def min_split(s):
    """Smallest level distance inside a charge sector."""
    E = np.array(s.Ea, dtype=float)
    best = np.inf
    for c in range(s.si.ncharge):
        e = np.sort(E[[int(b) for b in s.si.statesdm[c]]])
        if len(e) > 1:
            best = min(best, float(np.min(np.diff(e))))
    return best


def kern_gap(s):
    """Second smallest over largest singular value of the generator of the last solve (needs make_kern_copy for the
    compiled approaches)."""
    K = np.array(s.kern)
    n = K.shape[1]
    body = K[:-1] if K.shape[0] > n else np.delete(K, s.norm_row, 0)
    if n == 1:
        return 1.0
    v = np.linalg.svd(body, compute_uv=False)
    return float(v[n-2]/max(v[0], 1e-300))


def phonon_split(f):
    """Smallest distance between levels of one block. The spectral functions of phonons have a cut-off at zero frequency
    whose sign follows the rounding error, so that levels at no distance have no result of their own."""
    return min([np.min(np.diff(np.sort(b[4])), initial=np.inf) for b in blocks(f)])


def obs(system, phi=True):
    """Everything a user reads off after a solve."""
    out = dict(current=np.array(system.current), energy=np.array(system.energy_current),
               heat=np.array(system.heat_current))
    if phi:
        out['phi0'] = np.array(system.phi0)
    return out


def scales(system, spec):
    """Typical sizes of particle and energy currents (for tolerances)."""
    ex = spec.explicit()
    gam = gamma_scale(system)
    E = np.array(system.Ea, dtype=float)
    E = E[np.isfinite(E)]
    es = gam*((E.max()-E.min() if len(E) else 0) + np.max(np.abs(ex.mu_arr())) + np.max(ex.T_arr()))
    return gam, es


def compare(mon, kind, a, b, gam, es, tol, nan_ok=False, phi=True):
    """Two sets of observables of the same system."""
    ok = True
    for name, sc in (('phi0', 1.0), ('current', gam), ('energy', es), ('heat', es)):
        if name == 'phi0' and not (phi and 'phi0' in a and 'phi0' in b):
            continue
        x, y = a[name], b[name]
        if nan_ok and name in ('energy', 'heat') and x.shape == y.shape:
            m = ~(np.isnan(x) & np.isnan(y))
            x, y = x[m], y[m]
        ok &= mon.close(kind + '-' + name, x, y, rtol=0, atol=tol*sc)
    return ok
