"""P07: many-body matrices are the second-quantised operators of the input (Jordan-Wigner oracle)."""
import numpy as np

from qmon import gen, ref, sysutil
from qmon.mon import Inconclusive

RULE = ('A case counts when a system was built in some indexing and its Hamiltonian, tunnelling and phonon matrices, '
        'eigenvalues and eigenvectors were all compared with Jordan-Wigner operators made from the same input.')
ASSUMPTIONS = ['Two-body input is hermitian as an operator (the conjugates are supplied, or herm_c requests them)']
REQUIRED = {'quick': {'check:Tba': 7000, 'check:Vbbp': 1500, 'check:S2': 1500, 'check:hamiltonian': 7000,
                      'correlated-eigenstates': 4000, 'check:block-energies': 2500, 'block:1': 4000, 'block:2': 1500, 'block:3': 2000},
            'thorough': {'check:Tba': 150000}}
BUDGET = {'quick': 300, 'thorough': 5400}


def cases(tier, seed):
    num = 20000 if tier == 'quick' else 200000
    out = []
    for k in range(num):
        kind = ['charge', 'Lin', 'sz', 'ssq', 'charge', 'Lin', 'sz-symmetry', 'ssq-symmetry', 'charge-symmetry', 'elph',
                'elph-ssq', 'elph-sz'][k % 12]
        out.append(dict(kind=kind, seed=seed*100003+k, big=(k % 97 == 0)))
    return out


def rnd_coulomb(rng, n, mtype, herm_c, m_less_n, count):
    """Random two-body elements; returns (input dictionary, list of operator terms)."""
    inp = {}
    terms = []
    for _ in range(count):
        if rng.random() < 0.4:
            i, j = [int(x) for x in sorted(rng.choice(n, 2, replace=False))]
            key = (i, j, j, i)
        else:
            m, q = [int(x) for x in rng.choice(n, 2, replace=False)]
            k, l = [int(x) for x in rng.choice(n, 2, replace=False)]
            if m_less_n:
                m, q = min(m, q), max(m, q)
                k, l = max(k, l), min(k, l)
            key = (m, q, k, l)
        conj = (key[3], key[2], key[1], key[0])
        if key in inp or conj in inp:
            continue
        u = rng.uniform(-2, 2)
        if mtype is complex and conj != key:
            u = u + 1j*rng.uniform(-2, 2)
        inp[key] = u
        terms.append((key, u))
        if conj != key:
            terms.append((conj, np.conj(u)))
            if not herm_c:
                inp[conj] = np.conj(u)
    return inp, terms


def spin_expand(key, nss):
    m, n, k, l = key
    out = {(m, n, k, l), (m, n+nss, k+nss, l), (n, m+nss, l+nss, k), (m+nss, n+nss, k+nss, l+nss)}
    return out


def blockwise(s, rng, mon, X, Hp, tol, indexing, n):
    """The blocks diagonalised again one by one (or some of them), in any order, and with Hamiltonians made afresh."""
    from qmeq import qdot
    from qmeq.indexing import szrange, ssqrange
    qd = s.qd
    todo = []
    for q in range(s.si.ncharge):
        if indexing in ('sz', 'ssq'):
            for sz in szrange(q, n):
                todo += [(q, sz)] if indexing == 'sz' else [(q, sz, x) for x in ssqrange(q, sz, n)]
        else:
            todo.append((q,))
    keep = rng.random() < 0.4
    E = np.array(s.Ea)
    if not keep:
        qd.Ea[:] = np.nan
    for k in rng.permutation(len(todo)):
        b = todo[int(k)]
        if keep and rng.random() < 0.5:
            continue
        with sysutil.quiet():
            vals, vecs = qd.diagonalise_charge(*b)
            lst = s.si.get_lst(*b[:2])
            ham = qdot.construct_ham_coulomb(qd, qd.coulomb, lst)
            ham = qdot.construct_ham_hopping(qd, qd.hsingle, lst, ham)
            if indexing != 'ssq':
                v2, x2 = qdot.construct_manybody_eigenstates(qd, qd.hsingle, qd.coulomb, lst)
            else:
                v2, x2 = qdot.construct_manybody_eigenstates_ssq(qd, *b, qd.hsingle, qd.coulomb)
        mon.close('block-values', np.array(v2), np.array(vals), rtol=0, atol=tol)
        x2 = np.array(x2)
        mon.close('block-vectors', ham @ x2, x2*np.array(v2), rtol=0, atol=tol)
        mon.ev('block:%d' % len(b))
    qd.set_Ea()
    mon.close('block-energies', np.array(s.Ea), E, rtol=0, atol=tol)
    Y = sysutil.eigvec_matrix(s)[0]
    mon.close('block-unitary', Y.conj().T @ Y, np.eye(len(Y)), rtol=0, atol=1e-10)
    mon.close('block-diagonal', Y.conj().T @ Hp @ Y, np.diag(E).astype(complex), rtol=0, atol=tol)


def run_case(case, mon):
    import qmeq
    rng = gen.rng_of('p07', case['seed'])
    kind = case['kind']
    elph = kind.startswith('elph')
    indexing = kind.split('-')[0] if not elph else (kind.split('-')[1] if '-' in kind else ('charge', 'Lin')[int(rng.integers(2))])
    symmetry = 'spin' if kind.endswith('symmetry') or (indexing in ('sz', 'ssq', 'charge') and elph and rng.random() < 0.5 and indexing != 'Lin') else None
    spin = symmetry == 'spin' or indexing in ('sz', 'ssq')
    nmax = 6 if case['big'] else 4
    n = int(rng.choice([2, 4, 4]) if spin else rng.integers(1, nmax+1))
    if spin and case['big']:
        n = 6
    nss = n//2
    nl = 2*int(rng.integers(1, 3)) if spin else int(rng.integers(1, 4))
    nls = nl//2
    mtype = complex if rng.random() < 0.7 else float
    cp = mtype is complex

    def num():
        v = rng.uniform(-2, 2)
        return complex(v, rng.uniform(-2, 2)) if cp else float(v)

    herm_hs = bool(rng.random() < 0.75)
    m_less_n = True if spin else bool(rng.random() < 0.7)
    herm_c = bool(rng.random() < 0.4) if not spin else False
    c = ref.annihilators(n)
    H = np.zeros((2**n, 2**n), dtype=complex)
    hs, U, t, v = {}, {}, {}, {}
    m = nss if spin else n
    off = (0, nss) if spin else (0,)
    for i in range(m):
        if rng.random() < 0.9:
            hs[(i, i)] = float(rng.uniform(-3, 3))
        for j in range(i+1, m):
            if rng.random() < 0.7:
                a, b = (i, j) if rng.random() < 0.6 else (j, i)
                hs[(a, b)] = num()
                if not herm_hs:
                    hs[(b, a)] = np.conj(hs[(a, b)])
    split = 0.0
    for (a, b), h in hs.items():
        for o in off:
            term = h*(c[b+o].T @ c[a+o])
            H += term
            if a != b and herm_hs:
                H += term.conj().T
    # two-body part
    if spin:
        if rng.random() < 0.85:
            # SU(2) invariant elements between orbitals
            orb = {}
            for _ in range(int(rng.integers(1, 4))):
                if rng.random() < 0.5 or m == 1:
                    i, j = sorted(int(x) for x in rng.integers(0, m, 2))
                    key = (i, j, j, i)
                else:
                    a = sorted(int(x) for x in rng.integers(0, m, 2))
                    b = sorted((int(x) for x in rng.integers(0, m, 2)), reverse=True)
                    key = (a[0], a[1], b[0], b[1])
                conj = (key[3], key[2], key[1], key[0])
                if key in orb or conj in orb:
                    continue
                u = rng.uniform(-1, 3)
                if cp and conj != key:
                    u = complex(u, rng.uniform(-1, 1))
                orb[key] = u
                if conj != key:
                    orb[conj] = np.conj(u)
            full = {}
            for key, u in orb.items():
                for k4 in spin_expand(key, nss):
                    full[k4] = full.get(k4, 0) + u
                    H += u*(c[k4[0]].T @ c[k4[1]].T @ c[k4[2]] @ c[k4[3]])
            U = orb if symmetry else full
            if len(orb) > 1 and symmetry and any(len(spin_expand(k, nss) & spin_expand(q, nss))
                                                 for k in orb for q in orb if k < q):
                raise Inconclusive('overlapping elements')
    elif n > 1:
        U, terms = rnd_coulomb(rng, n, mtype, herm_c, m_less_n, int(rng.integers(0, 6)))
        for (a, b, k, l), u in terms:
            H += u*(c[a].T @ c[b].T @ c[k] @ c[l])
    if np.max(np.abs(H-H.conj().T)) > 1e-10:
        raise RuntimeError('case input is not hermitian')
    T = np.zeros((nl, 2**n, 2**n), dtype=complex)
    for l in range(nls if spin else nl):
        for i in range(m):
            if rng.random() < 0.8:
                t[(l, i)] = num() if cp else float(rng.uniform(-1, 1))
    for (l, i), x in list(t.items()):
        for s, o in enumerate(off):
            T[l+s*nls] += x*c[i+o].T + np.conj(x)*c[i+o]
            if o and not symmetry:
                t[(l+s*nls, i+o)] = x
    hsi = dict(hs)
    if spin and not symmetry:
        for (a, b), h in hs.items():
            hsi[(a+nss, b+nss)] = h
    kw = dict(nsingle=n, hsingle=hsi, coulomb=U, nleads=nl, tleads=t, mulst={}, tlst={}, dband=10.0,
              indexing=indexing, symmetry=symmetry, mtype_qd=mtype, mtype_leads=complex if cp else (float if rng.random() < 0.0 else complex),
              herm_hs=herm_hs, herm_c=herm_c, m_less_n=m_less_n, kerntype='Pauli', itype=2)
    V = None
    if elph:
        nb = int(rng.integers(1, 3))
        V = np.zeros((nb, 2**n, 2**n), dtype=complex)
        for b in range(nb):
            for i in range(m):
                for j in range(m):
                    if rng.random() < 0.7:
                        v[(b, i, j)] = num()
        for (b, i, j), x in list(v.items()):
            for o in off:
                V[b] += x*(c[i+o].T @ c[j+o])
                if o and not symmetry:
                    v[(b, i+o, j+o)] = x
        kw.update(nbaths=nb, velph=v, tlst_ph={b: 1.0 for b in range(nb)}, dband_ph={b: [1e-3, 10.] for b in range(nb)},
                  itype_ph=2)
        s = qmeq.BuilderElPh(**kw)
    else:
        s = qmeq.Builder(**kw)
    fock = sysutil.fock_table(s)
    mon.true('fock-permutation', sorted(fock) == list(range(2**n)), repr(fock[:16]))
    P = np.ix_(fock, fock)
    Hp = H[P]
    sc = max(1.0, np.max(np.abs(H)))
    mon.close('Tba0', np.array(s.leads.Tba0), np.array([x[P] for x in T]), rtol=0, atol=1e-12*sc)
    if V is not None:
        mon.close('Vbbp0', np.array(s.baths.Vbbp0), np.array([x[P] for x in V]), rtol=0, atol=1e-12*sc)
    with sysutil.quiet():
        s.solve(masterq=False)
    X, hb = sysutil.eigvec_matrix(s)
    for rows, ham in hb:
        mon.close('hamiltonian', ham, Hp[np.ix_(rows, rows)], rtol=0, atol=1e-12*sc)
    E = np.array(s.Ea)
    N = 2**n
    tol = 1e-10*sc
    mon.close('unitary', X.conj().T @ X, np.eye(N), rtol=0, atol=1e-10)
    mon.close('diagonal', X.conj().T @ Hp @ X, np.diag(E).astype(complex), rtol=0, atol=tol)
    Tn = max(1.0, np.max(np.abs(T)))
    mon.close('Tba', np.array(s.Tba), np.array([X.conj().T @ x[P] @ X for x in T]), rtol=0, atol=1e-10*Tn)
    if V is not None:
        Vn = max(1.0, np.max(np.abs(V)))
        mon.close('Vbbp', np.array(s.baths.Vbbp), np.array([X.conj().T @ x[P] @ X for x in V]), rtol=0, atol=1e-10*Vn*n)
    # quantum numbers
    q = sysutil.charges(s)
    num_op = np.diag(ref.number_op(n))[P]
    mon.close('charge', X.conj().T @ num_op @ X, np.diag(q).astype(complex), rtol=0, atol=1e-10)
    if indexing in ('sz', 'ssq'):
        qn = [s.si.ind_qn[b] for b in range(N)]
        mon.true('qn-charge', all(int(x[0]) == q[b] for b, x in enumerate(qn)), repr(qn[:8]))
        sz = np.diag(ref.sz_op(n))[P]
        mon.close('Sz', X.conj().T @ sz @ X, np.diag([0.5*x[1] for x in qn]).astype(complex), rtol=0, atol=1e-9)
    if indexing == 'ssq':
        s2 = ref.s2_op(n)[P]
        mon.close('S2', X.conj().T @ s2 @ X, np.diag([0.5*x[2]*(0.5*x[2]+1) for x in qn]).astype(complex), rtol=0, atol=1e-8)
    if np.max(np.abs(np.abs(X)**2-np.rint(np.abs(X)**2))) > 1e-3:
        mon.ev('correlated-eigenstates')
    mon.key(kind, indexing, symmetry, n, nl, mtype.__name__, herm_hs, herm_c, m_less_n, len(U), len(hs))
    if rng.random() < 0.4:
        blockwise(s, rng, mon, X, Hp, tol, indexing, n)
        X = sysutil.eigvec_matrix(s)[0]
    # the rotation through the full eigenvector matrix is available for every indexing
    s.leads.rotate(s.qd.vecslst, 'Lin')
    mon.close('Tba-full-rotation', np.array(s.Tba), np.array([X.conj().T @ x[P] @ X for x in T]), rtol=0, atol=1e-10*Tn)
    if V is not None:
        s.baths.rotate(s.qd.vecslst, 'Lin')
        mon.close('Vbbp-full-rotation', np.array(s.baths.Vbbp), np.array([X.conj().T @ x[P] @ X for x in V]),
                  rtol=0, atol=1e-10*Vn*n)
        s.baths.use_Vbbp0()
        mon.close('use-Vbbp0', np.array(s.baths.Vbbp), np.array([x[P] for x in V]), rtol=0, atol=1e-12*sc)
    # direct use of the occupation basis (no rotation): matrices without diagonalisation
    with sysutil.quiet():
        s.solve(qdq=False, rotateq=False, masterq=False)
    if hasattr(s.leads, 'use_Tba0'):
        s.leads.use_Tba0()
        mon.close('use-Tba0', np.array(s.Tba), np.array([x[P] for x in T]), rtol=0, atol=1e-12*sc)
