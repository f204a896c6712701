"""Independent reference model: second quantisation by Jordan-Wigner and master equations in operator form.

Nothing here uses the package under test.
"""
import functools

import numpy as np
from scipy import special


# --------------------------------------------------------------------------------------- second quantisation
@functools.lru_cache(maxsize=16)
def annihilators(n):
    """Dense matrices of c_0..c_{n-1}; Fock state k has occupation of level i in bit n-1-i."""
    dim = 2**n
    ops = []
    for i in range(n):
        m = np.zeros((dim, dim))
        bit = 1 << (n-1-i)
        for k in range(dim):
            if k & bit:
                sgn = (-1)**bin(k >> (n-i)).count('1')
                m[k ^ bit, k] = sgn
        m.setflags(write=False)
        ops.append(m)
    return tuple(ops)


def hamiltonian(n, hs, U, herm=True):
    """sum h_ij d+_j d_i + h.c. for i != j (the particle moves from i to j);  sum U_mnkl d+_m d+_n d_k d_l."""
    c = annihilators(n)
    H = np.zeros((2**n, 2**n), dtype=complex)
    for (i, j), h in hs.items():
        term = h * (c[j].T @ c[i])
        H += term
        if i != j and herm:
            H += term.conj().T
    for (m, nn, k, l), u in U.items():
        H += u * (c[m].T @ c[nn].T @ c[k] @ c[l])
    return H


def tunnelling(n, nl, t):
    """T_l = sum_i t_li d+_i + conj(t_li) d_i on the dot Fock space."""
    c = annihilators(n)
    T = np.zeros((nl, 2**n, 2**n), dtype=complex)
    for (l, i), v in t.items():
        T[l] += v*c[i].T + np.conj(v)*c[i]
    return T


def elph_matrix(n, nb, v):
    c = annihilators(n)
    V = np.zeros((nb, 2**n, 2**n), dtype=complex)
    for (b, i, j), x in v.items():
        V[b] += x*(c[i].T @ c[j])
    return V


def number_op(n):
    return np.array([bin(k).count('1') for k in range(2**n)], dtype=float)


def sz_op(n):
    """S_z with the first half of the levels spin up."""
    h = n//2
    return np.array([0.5*(bin(k >> h).count('1') - bin(k & (2**h-1)).count('1')) for k in range(2**n)])


def s2_op(n):
    h = n//2
    c = annihilators(n)
    Sp = sum(c[i].T @ c[i+h] for i in range(h))
    Sz = np.diag(sz_op(n))
    return Sp.T @ Sp + Sz @ Sz + Sz


# --------------------------------------------------------------------------------------- lead functions
def fermi(x):
    return special.expit(-np.asarray(x, dtype=float))


_GLX, _GLW = np.polynomial.legendre.leggauss(48)


def _panels(a, b, pts, w):
    """Panel borders that resolve structures of width w around pts."""
    br = {a, b}
    for p in pts:
        for s in (0.0, 0.5, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024):
            for q in (p-s*w, p+s*w):
                if a < q < b:
                    br.add(q)
    br = np.array(sorted(br))
    keep = [0]
    for i in range(1, len(br)):
        if br[i]-br[keep[-1]] > 1e-13*max(1.0, abs(b-a)):
            keep.append(i)
    br = br[keep]
    br[-1] = b
    return br


def integrate(f, br):
    h = 0.5*np.diff(br)
    m = 0.5*(br[1:]+br[:-1])
    x = m[:, None] + h[:, None]*_GLX[None, :]
    return np.sum(h[:, None]*_GLW[None, :]*f(x))


def pv_fermi(alpha, Rm, Rp):
    """PV int_Rm^Rp f(E)/(E-alpha) dE by subtraction of the pole."""
    if Rm < alpha < Rp:
        fa = fermi(alpha)
        br = _panels(Rm, Rp, [0.0, alpha], 1.0)

        def g(E):
            d = E-alpha
            small = np.abs(d) < 1e-6
            dd = np.where(small, 1.0, d)
            v = (fermi(E)-fa)/dd
            return np.where(small, -fa*(1-fa), v)
        return integrate(g, br) + fa*np.log((Rp-alpha)/(alpha-Rm))
    br = _panels(Rm, Rp, [0.0, Rm, Rp], 1.0)
    # resolve the nearby pole outside of the band
    near = min(abs(alpha-Rm), abs(alpha-Rp))
    extra = _panels(Rm, Rp, [Rm, Rp], max(near, 1e-9))
    br = np.unique(np.concatenate([br, extra]))
    return integrate(lambda E: fermi(E)/(E-alpha), br)


def pauli_rates(E, T, mu, D, itype):
    """(in, out) factors 2 pi f, 2 pi (1-f), cut at the band edge unless the wide band limit is used."""
    a = (E-mu)/T
    if itype in (0, 2) and not ((D[0]-mu)/T < a < (D[1]-mu)/T):
        return 0.0, 0.0
    f = fermi(a)
    return 2*np.pi*f, 2*np.pi*fermi(-a)


def w1(E, T, mu, D, itype):
    """[F0, F1, W0, W1]: amplitudes for the current and for the energy current."""
    a, Rm, Rp = (E-mu)/T, (D[0]-mu)/T, (D[1]-mu)/T
    inside = Rm < a < Rp
    f = fermi(a)
    if itype == 0:
        c0 = pv_fermi(a, Rm, Rp) + (-1j*np.pi*f if inside else 0)
        c1 = c0 + np.log(abs((Rm-a)/(Rp-a))) + (1j*np.pi if inside else 0)
        w0 = T*(np.logaddexp(0, -Rm) - np.logaddexp(0, -Rp)) + E*c0
        w1_ = T*(np.logaddexp(0, -Rm) - np.logaddexp(0, -Rp)) + D[0] - D[1] + E*c1
    elif itype == 1:
        Rm, Rp = D[0]/T, D[1]/T               # wide band limit: the edges enter only through logarithms
        c0 = special.digamma(0.5 + 1j*a/(2*np.pi)).real - np.log(abs(Rm)/(2*np.pi)) - 1j*np.pi*f
        c1 = c0 + np.log(abs(Rm/Rp)) + 1j*np.pi
        w0 = -T*Rm + E*c0
        w1_ = -T*Rp + E*c1
    elif itype == 2:
        c0 = -1j*np.pi*f if inside else 0.0
        c1 = c0 + (1j*np.pi if inside else 0.0)
        w0, w1_ = E*c0, E*c1
    else:
        c0 = -1j*np.pi*f
        c1 = c0 + 1j*np.pi
        w0, w1_ = E*c0, E*c1
    return c0, c1, w0, w1_


def bose(x):
    return 1.0/np.expm1(x)


# --------------------------------------------------------------------------------------- master equations
class Model(object):
    """Eigenbasis description: E[a], charge[a], T[l,a,b] (full hermitian), leads, allowed coherences."""

    def __init__(self, E, q, T, mu, temp, D, itype, mask=None, V=None, ph=None):
        self.E = np.asarray(E, dtype=float)
        self.q = np.asarray(q, dtype=int)
        self.T = np.asarray(T, dtype=complex)
        self.mu, self.temp, self.D = np.asarray(mu), np.asarray(temp), np.asarray(D)
        self.itype = itype
        self.N = len(self.E)
        self.nl = len(self.T)
        if mask is None:
            mask = self.q[:, None] == self.q[None, :]
        self.mask = mask
        self.V, self.ph = V, ph
        # up[c,b]: c has one particle more than b
        self.up = (self.q[:, None] - self.q[None, :]) == 1

    # ---- rates
    def _rates(self):
        N, nl = self.N, self.nl
        gin = np.zeros((nl, N, N))
        gout = np.zeros((nl, N, N))
        for l in range(nl):
            for c, b in zip(*np.nonzero(self.up)):
                i, o = pauli_rates(self.E[c]-self.E[b], self.temp[l], self.mu[l], self.D[l], self.itype)
                gin[l, c, b], gout[l, c, b] = i, o
        return gin, gout

    def _w(self):
        N, nl = self.N, self.nl
        F = np.zeros((4, nl, N, N), dtype=complex)
        for l in range(nl):
            for c, b in zip(*np.nonzero(self.up)):
                F[:, l, c, b] = w1(self.E[c]-self.E[b], self.temp[l], self.mu[l], self.D[l], self.itype)
        return F

    def pairs(self):
        return [(i, j) for i, j in zip(*np.nonzero(self.mask))]

    # ---- Pauli
    def pauli(self):
        gin, gout = self._rates()
        N = self.N
        R = np.zeros((self.nl, N, N))         # R[l][final, initial]
        for l in range(self.nl):
            A = np.abs(self.T[l])**2
            R[l] += np.where(self.up, A*gin[l], 0)
            R[l] += np.where(self.up, A*gout[l], 0).T
        Rt = R.sum(axis=0)
        if self.V is not None:
            Rt = Rt + self.elph_rates().sum(axis=0)
        L = Rt - np.diag(Rt.sum(axis=0))
        p, gap = null_normalised(L, np.ones(N))
        cur, ecur = np.zeros(self.nl), np.zeros(self.nl)
        for l in range(self.nl):
            flow = R[l]*p[None, :]
            dE = self.E[:, None]-self.E[None, :]
            dq = self.q[:, None]-self.q[None, :]
            cur[l] = np.sum(flow*dq)
            ecur[l] = np.sum(flow*dE)
        return np.diag(p).astype(complex), cur, ecur, L, gap

    # ---- generic coherent generator
    def _solve(self, apply):
        pr = self.pairs()
        idx = {p: k for k, p in enumerate(pr)}
        n = len(pr)
        L = np.zeros((n, n), dtype=complex)
        for k, (i, j) in enumerate(pr):
            rho = np.zeros((self.N, self.N), dtype=complex)
            rho[i, j] = 1.0
            d = apply(rho)
            L[:, k] = [d[a, b] for a, b in pr]
        nv = np.array([1.0 if i == j else 0.0 for i, j in pr])
        x, gap = null_normalised(L, nv)
        rho = np.zeros((self.N, self.N), dtype=complex)
        for k, (i, j) in enumerate(pr):
            rho[i, j] = x[k]
        return rho, L, gap

    def dissipative_phonon(self, kind):
        if self.V is None:
            return lambda rho: 0
        return self._elph_apply(kind)

    def vn1(self, redfield=False):
        F = self._w()
        E = self.E
        T = self.T
        up = self.up

        def phi1(l, rho, f0, f1):
            Tup = np.where(up, T[l], 0)
            if redfield:
                return np.where(up, (Tup*f0) @ rho + rho @ (Tup*f1), 0)
            return np.where(up, (Tup @ rho)*f0 + (rho @ Tup)*f1, 0)

        ph = self.dissipative_phonon('Redfield' if redfield else '1vN')

        def apply(rho):
            d = (E[:, None]-E[None, :])*rho
            for l in range(self.nl):
                Tup = np.where(up, T[l], 0)                # T_{cb}
                Tdn = np.where(up.T, T[l], 0)              # T_{bc}
                P = phi1(l, rho, F[0, l], F[1, l])
                # rho is not hermitian here: use the conjugate amplitude built from rho^dagger
                Pd = phi1(l, rho.conj().T, F[0, l], F[1, l]).conj().T     # Phi_{bc}
                d = d + Tup @ Pd - P @ Tdn + Tdn @ P - Pd @ Tup
            d = d + ph(rho)
            return np.where(self.mask, d, 0)

        rho, L, gap = self._solve(apply)
        cur, ecur = np.zeros(self.nl), np.zeros(self.nl)
        for l in range(self.nl):
            Tdn = np.where(up.T, T[l], 0)
            P = phi1(l, rho, F[0, l], F[1, l])
            W = phi1(l, rho, F[2, l], F[3, l])
            cur[l] = -2*np.imag(np.sum(Tdn.T*P))
            ecur[l] = -2*np.imag(np.sum(Tdn.T*W))
        return rho, cur, ecur, L, gap

    def amplitudes(self, rho, redfield=False):
        """phi1[l, c, b] of a given density matrix (zero where c does not have one particle more than b)."""
        F = self._w()
        out = np.zeros((self.nl, self.N, self.N), dtype=complex)
        for l in range(self.nl):
            Tup = np.where(self.up, self.T[l], 0)
            f0, f1 = F[0, l], F[1, l]
            P = (Tup*f0) @ rho + rho @ (Tup*f1) if redfield else (Tup @ rho)*f0 + (rho @ Tup)*f1
            out[l] = np.where(self.up, P, 0)
        return out

    def lindblad(self):
        gin, gout = self._rates()
        E, up, T = self.E, self.up, self.T
        N, nl = self.N, self.nl
        J = []
        for l in range(nl):
            J.append((l, np.where(up, T[l]*np.sqrt(gin[l]), 0), +1))
            J.append((l, np.where(up.T, T[l]*np.sqrt(gout[l].T), 0), -1))
        Jall = [j for _, j, _ in J]
        if self.V is not None:
            Jall = Jall + self.elph_jumps()

        def apply(rho):
            d = -1j*(E[:, None]-E[None, :])*rho
            for j in Jall:
                jj = j.conj().T @ j
                d = d + j @ rho @ j.conj().T - 0.5*(jj @ rho + rho @ jj)
            return np.where(self.mask, d, 0)

        rho, L, gap = self._solve(apply)
        cur, ecur = np.zeros(nl), np.zeros(nl)
        for l, j, s in J:
            X = j @ rho @ j.conj().T
            cur[l] += s*np.real(np.trace(X))
            # energy gain: sum_c [E_c X_cc] - 1/2 {j+ j, H}
            jj = j.conj().T @ j
            ecur[l] += np.real(np.trace(np.diag(E) @ X) - 0.5*np.trace((jj @ np.diag(E) + np.diag(E) @ jj) @ rho))
        return rho, cur, ecur, L, gap

    # ---- phonons ---------------------------------------------------------------
    def same(self):
        return self.q[:, None] == self.q[None, :]

    def elph_gamma(self, dE, b):
        """2 pi * n_B * dos for absorption (dE>0: final state higher) or emission."""
        ph = self.ph
        T, D, eps = ph['T'][b], ph['D'][b], ph['eps']
        x = abs(dE)/T
        x = max(x, eps)
        Rm, Rp = max(D[0]/T, 0.9*eps), D[1]/T
        if not (Rm < x < Rp):
            return 0.0
        dos = ph['f'][b](T*x) if ph.get('f') else 1.0
        if dE >= 0:
            return 2*np.pi*bose(x)*dos
        return 2*np.pi*(1+bose(x))*dos

    def elph_rates(self):
        nb = len(self.V)
        R = np.zeros((nb, self.N, self.N))
        for l in range(nb):
            for b in range(self.N):
                for a in range(self.N):
                    if b != a and self.q[a] == self.q[b]:
                        x = 0.5*(abs(self.V[l, b, a])**2 + abs(self.V[l, a, b])**2)
                        R[l, b, a] = x*self.elph_gamma(self.E[b]-self.E[a], l)
        return R

    def elph_jumps(self):
        J = []
        same = self.same()
        for l in range(len(self.V)):
            g = np.zeros((self.N, self.N))
            for b, a in zip(*np.nonzero(same)):
                g[b, a] = np.sqrt(0.5*self.elph_gamma(self.E[b]-self.E[a], l))
            J.append(np.where(same, g*self.V[l], 0))
            J.append(np.where(same, g*self.V[l].conj().T, 0))
        return J


    def _w_elph(self):
        """Amplitude matrices w0, w1 [bath, b, b'] of energy E_b - E_b'."""
        nb, N = len(self.V), self.N
        w0 = np.zeros((nb, N, N), dtype=complex)
        w1_ = np.zeros((nb, N, N), dtype=complex)
        same = self.same()
        for l in range(nb):
            for b, a in zip(*np.nonzero(same)):
                x0, x1 = w1_elph(self.E[b]-self.E[a], l, self.ph)
                if a == b:
                    x0, x1 = complex(x0.real, 0.5*x0.imag), complex(x1.real, 0.5*x1.imag)
                w0[l, b, a], w1_[l, b, a] = x0, x1
        return w0, w1_

    def _elph_apply(self, kind):
        w0, w1_ = self._w_elph()
        same = self.same()

        def psi(l, A, rho):
            Ad = A.conj().T
            f = w0[l] + w1_[l].conj().T
            g = w1_[l] + w0[l].conj().T
            if kind == 'Redfield':
                return (Ad*f) @ rho + rho @ (Ad*g)
            return (Ad @ rho)*f + (rho @ Ad)*g

        def apply(rho):
            d = np.zeros((self.N, self.N), dtype=complex)
            for l in range(len(self.V)):
                V = np.where(same, self.V[l], 0)
                for A in (V, V.conj().T):
                    P = psi(l, A, rho)
                    Pd = psi(l, A, rho.conj().T).conj().T
                    d += 0.5*(A @ P - Pd @ A.conj().T)
            return d
        return apply


def w1_elph(dE, l, ph):
    T, D, eps = ph['T'][l], ph['D'][l], ph['eps']
    al = max(abs(dE/T), eps)*(1 if dE >= 0 else -1)
    Rm, Rp = max(D[0]/T, 0.9*eps), D[1]/T
    dos = ph['f'][l] if ph.get('f') else (lambda w: 1.0)
    n0 = lambda x: dos(T*x)*bose(x)
    n1 = lambda x: -dos(T*x)*(1+bose(x))
    inside = Rm < al < Rp
    out = []
    for fn in (n0, n1):
        v = 0.0
        if ph['itype'] == 0:
            v = pv_general(fn, al, Rm, Rp)
        v = v + (-1j*np.pi*fn(al) if inside else 0)
        out.append(complex(v))
    return out


def pv_general(fn, al, Rm, Rp):
    """PV int fn(x)/(x-al) on [Rm, Rp]; fn may be steep near Rm>0."""
    vf = np.vectorize(fn)
    logs = Rm*np.power(Rp/Rm, np.linspace(0, 1, 60))
    logs[0], logs[-1] = Rm, Rp
    if Rm < al < Rp:
        h = min(al-Rm, Rp-al)
        br = np.unique(np.concatenate([logs, _panels(Rm, Rp, [al], h/8)]))
        # a symmetric hole around the pole is integrated through the even part
        d = 0.5*min(h, 0.5*al)
        lo = br[br < al-d]
        hi = br[br > al+d]
        tot = integrate(lambda x: vf(x)/(x-al), np.concatenate([lo, [al-d]])) if len(lo) else 0.0
        tot += integrate(lambda x: vf(x)/(x-al), np.concatenate([[al+d], hi])) if len(hi) else 0.0
        tot += integrate(lambda u: (vf(al+u)-vf(al-u))/u, np.linspace(0, d, 5))
        return tot
    near = min(abs(al-Rm), abs(al-Rp))
    br = np.unique(np.concatenate([logs, _panels(Rm, Rp, [Rm, Rp], max(near, 1e-9))]))
    return integrate(lambda x: vf(x)/(x-al), br)


def null_normalised(L, nv):
    """Solution of L x = 0, nv.x = 1 and a conditioning figure."""
    n = L.shape[0]
    s = np.max(np.abs(L)) or 1.0
    A = np.vstack([L/s, nv[None, :]])
    b = np.zeros(n+1, dtype=A.dtype)
    b[-1] = 1
    x, res, rk, sv = np.linalg.lstsq(A, b, rcond=None)
    gap = sv[-1]/sv[0] if len(sv) else 1.0
    return x, gap
