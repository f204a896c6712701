From 204dc0acf3ab1ab90480c9de7b17e59d182fdc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 01/43] fix: elph Lindblad (compiled): use both density matrix
 labels in the phonon in-scattering term

---
 qmeq/approach/elph/c_lindblad.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/approach/elph/c_lindblad.pyx b/qmeq/approach/elph/c_lindblad.pyx
index 876a824..4779640 100644
--- a/qmeq/approach/elph/c_lindblad.pyx
+++ b/qmeq/approach/elph/c_lindblad.pyx
@@ -126,7 +126,7 @@ cdef class ApproachLindblad(ApproachElPh):
                 fct_aap = 0
                 for l in range(nbaths):
                     for q in range(2):
-                        fct_aap += tLbbp[l, b, a, q]*tLbbp[l, bp, a, q].conjugate()
+                        fct_aap += tLbbp[l, b, a, q]*tLbbp[l, bp, ap, q].conjugate()
                 kh.set_matrix_element(1j*fct_aap, b, bp, bcharge, a, ap, acharge)
         # --------------------------------------------------
         for i in range(bcount):
-- 
2.43.0


From 3c465d805d21485166dcb21df3b763722a73375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:52 +0000
Subject: [PATCH 02/43] fix: get_phi0/get_phi1 use the indexing of the approach
 and return zero for removed states

---
 qmeq/builder/various.py | 54 +++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index 18ed2c6..c34b375 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -82,6 +82,28 @@ def sort_eigenstates(self, srt=None):
         self.si.states_order = range(self.si.nmany)
 
 
+def get_considered_charge(si, b):
+    """
+    Get charge of the many-body state b among the states considered in the calculation.
+
+    Parameters
+    ----------
+    si : StateIndexing
+        StateIndexing object.
+    b : int
+        Original label of the many-body state.
+
+    Returns
+    -------
+    int
+        Charge of the many-body state b, or None if the state is not considered.
+    """
+    for charge in range(si.ncharge):
+        if b in si.statesdm[charge]:
+            return charge
+    return None
+
+
 def get_phi0(self, b_, bp_):
     """
     Get the reduced density matrix element corresponding to
@@ -101,24 +123,22 @@ def get_phi0(self, b_, bp_):
     """
     b = self.si.states_order[b_]
     bp = self.si.states_order[bp_]
-    bcharge = sum(self.si.get_state(b))
-    bpcharge = sum(self.si.get_state(bp))
+    bcharge = get_considered_charge(self.si, b)
+    bpcharge = get_considered_charge(self.si, bp)
     phi0bbp = 0.0
-    if self.funcp.kerntype == 'Pauli':
-        if b == bp:
-            ind = self.si.get_ind_dm0(b, b, bcharge, maptype=1)
-            phi0bbp = self.phi0[ind]
+    if bcharge is None or bpcharge is None:
+        # At least one of the states is removed from the calculation
+        pass
     elif bcharge == bpcharge:
         ind = self.si.get_ind_dm0(b, bp, bcharge, maptype=1)
         conj = self.si.get_ind_dm0(b, bp, bcharge, maptype=3)
         if ind != -1:
-            if type(self.si).__name__ == 'StateIndexingDMc':
+            ndm0, npauli = self.si.ndm0, self.si.npauli
+            if type(self.si).__name__ == 'StateIndexingDMc' or ind < npauli:
                 phi0bbp = self.phi0[ind]
-            else:
-                ndm0, npauli = self.si.ndm0, self.si.npauli
+            elif len(self.phi0) > npauli:
                 phi0bbp = (self.phi0[ind] + 1j*self.phi0[ndm0-npauli+ind]
-                           * (+1 if conj else -1)
-                           * (0 if ind < npauli else 1))
+                           * (+1 if conj else -1))
     return phi0bbp
 
 
@@ -141,15 +161,19 @@ def get_phi1(self, l, c_, b_):
     phi0bbp : complex
         A matrix element of the reduced density matrix (complex number).
     """
-    if self.funcp.kerntype == 'Pauli':
+    if self.phi1 is None:
+        # Current amplitudes are not available for the given approach
         return None
     else:
         c = self.si.states_order[c_]
         b = self.si.states_order[b_]
-        ccharge = sum(self.si.get_state(c))
-        bcharge = sum(self.si.get_state(b))
+        ccharge = get_considered_charge(self.si, c)
+        bcharge = get_considered_charge(self.si, b)
         phi1cb = 0.0
-        if ccharge == bcharge+1:
+        if ccharge is None or bcharge is None:
+            # At least one of the states is removed from the calculation
+            pass
+        elif ccharge == bcharge+1:
             ind = self.si.get_ind_dm1(c, b, bcharge)
             phi1cb = self.phi1[l, ind]
         elif ccharge+1 == bcharge:
-- 
2.43.0


From ba6b2adc0bac42fb7d5285bf9d2e899abf9e4924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 03/43] fix: set_statesdm keeps its own list instead of
 appending to the caller's

---
 qmeq/indexing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmeq/indexing.py b/qmeq/indexing.py
index 0a9f834..22116d3 100644
--- a/qmeq/indexing.py
+++ b/qmeq/indexing.py
@@ -718,7 +718,7 @@ class StateIndexingPauli(StateIndexing):
         statesdm: list
             List containing indices of many-body state under consideration.
         """
-        self.statesdm = statesdm
+        self.statesdm = list(statesdm)
         self.statesdm.append([])
         self.npauli_ = 0
         for j1 in range(self.ncharge):
@@ -1096,7 +1096,7 @@ class StateIndexingDMc(StateIndexing):
         statesdm: list
             List containing indices of many-body state under consideration.
         """
-        self.statesdm = statesdm
+        self.statesdm = list(statesdm)
         self.statesdm.append([])
         self.ndm0_, self.ndm1_, self.npauli_ = 0, 0, 0
         for j1 in range(self.ncharge):
-- 
2.43.0


From dddb3479f70aed6656607e23c875677cb9b4a231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 04/43] fix: use_all_states restores the states of the
 electron-phonon indexing too

---
 qmeq/builder/builder_elph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qmeq/builder/builder_elph.py b/qmeq/builder/builder_elph.py
index e67122f..9d335cd 100644
--- a/qmeq/builder/builder_elph.py
+++ b/qmeq/builder/builder_elph.py
@@ -139,6 +139,10 @@ class BuilderElPh(BuilderBase):
         BuilderBase.remove_states(self, dE)
         self.si_elph.set_statesdm(self.si.statesdm)
 
+    def use_all_states(self):
+        BuilderBase.use_all_states(self)
+        self.si_elph.set_statesdm(self.si.chargelst)
+
     def remove_fock_states(self, lin_state_indices):
         BuilderBase.remove_fock_states(self, lin_state_indices)
         self.baths._init_coupling()
-- 
2.43.0


From ab8724cc9cdd51c108651c82c02f650c0d0ee749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 05/43] fix: repeated remove_fock_states with 'Lin' indexing
 selects states by their Lin index

---
 qmeq/indexing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qmeq/indexing.py b/qmeq/indexing.py
index 22116d3..048972a 100644
--- a/qmeq/indexing.py
+++ b/qmeq/indexing.py
@@ -506,15 +506,18 @@ class StateIndexing(object):
             print("WARNING: For 'sz' or 'ssq' indexing, nsingle has to be even. \
                    Using 'Lin' indexing.")
             self.indexing = 'Lin'
+            self.chargelst_lin = construct_chargelst(nsingle)
             self.chargelst = construct_chargelst(nsingle)
             self.i = list(range(self.nmany))
         elif indexing == 'Lin':
+            self.chargelst_lin = construct_chargelst(nsingle)
             self.chargelst = construct_chargelst(nsingle)
             self.i = list(range(self.nmany))
         else:
             print("WARNING: The indexing has to be 'Lin', 'charge', or 'sz'. \
                    Using 'Lin' indexing.")
             self.indexing = 'Lin'
+            self.chargelst_lin = construct_chargelst(nsingle)
             self.chargelst = construct_chargelst(nsingle)
             self.i = list(range(self.nmany))
         self.j = make_inverse_map(self.i)
@@ -625,7 +628,7 @@ class StateIndexing(object):
             self.removed_fock_states[ind] = True
         self.nmany = self.nmany_ - sum(self.removed_fock_states)
 
-        chargelst_lin = self.chargelst if self.indexing == 'Lin' else self.chargelst_lin
+        chargelst_lin = self.chargelst_lin
         ncharge = self.ncharge
         for charge in range(ncharge):
             charge_states = []
-- 
2.43.0


From a269000b7724ae0bd5e8eefc17d9fdce27696902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 06/43] fix: remove_coherences can be repeated and invalidates
 the arrays of earlier solves

---
 qmeq/builder/various.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index c34b375..b290cda 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -285,6 +285,7 @@ def remove_coherences(self, dE):
             b, bp = si.inddm0[ind]
             if abs(E[b]-E[bp]) > dE:
                 si.mapdm0[i] = -1
+                si.booldm0[i] = False
             else:
                 ilst.append(i)
                 indlst.append(ind)
@@ -292,18 +293,22 @@ def remove_coherences(self, dE):
     srt = multiarray_sort(np.array([ilst, indlst]), [1, 0])
     ilst, indlst = srt[0], srt[1]
     ind, count = 0, 0
+    inddm0 = {0: si.inddm0[0]}
     for i in range(len(indlst)):
         if indlst[i] == ind:
             indlst[i] = count
         else:
             count += 1
             ind = indlst[i]
+            inddm0[count] = si.inddm0[ind]
             indlst[i] = count
     # Relabel the density matrix elements
     si.ndm0 = count+1
     si.ndm0r = 2*si.ndm0-si.npauli
     for i in range(len(indlst)):
         si.mapdm0[ilst[i]] = indlst[i]
+    si.inddm0 = inddm0
+    si.states_changed = True
 
 
 def remove_states(self, dE):
-- 
2.43.0


From f7823e1e4a589a8e7ef0004799a94fb226525b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 07/43] fix: polygamma for arguments with negative real part

---
 qmeq/specfunc/c_specfunc.pyx | 31 +++++++++++++++++++++----------
 qmeq/specfunc/specfunc.py    | 27 +++++++++++++++++----------
 2 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/qmeq/specfunc/c_specfunc.pyx b/qmeq/specfunc/c_specfunc.pyx
index 50d31bc..449aef4 100644
--- a/qmeq/specfunc/c_specfunc.pyx
+++ b/qmeq/specfunc/c_specfunc.pyx
@@ -255,7 +255,7 @@ cdef complex_t digamma(complex_t z) nogil:
 @cython.cdivision(True)
 cdef complex_t polygamma( complex_t U, long_t K ) nogil:
     """Calculates the Kth derivative of the digamma function with argument U."""
-    cdef complex_t hh1, hh2, hh3, V, H, R, P
+    cdef complex_t hh1, hh2, hh3, V, H, R, P, S
     cdef double X, A, B, T, Y
     cdef long_t i, K1
 
@@ -296,23 +296,34 @@ cdef complex_t polygamma( complex_t U, long_t K ) nogil:
         H =  H + clog( V )
 
     if X < 0 :
-        V =  V * pi
+        # Reflection formula, U now holds minus the argument
+        V =  U * pi
         X = V.real
         Y = V.imag
         A = sin( X )
         B = cos( X )
-        T = tanh( X )
-        P = B - 1j*A*T / (A + 1j*A*T)
+        T = tanh( Y )
+        P = (B - 1j*A*T) / (A + 1j*B*T)
+        # 1/sin(V)^2
+        S = 2*exp(-fabs(Y))/(1 + exp(-2*fabs(Y)))/(A + 1j*B*T)
+        S = S*S
 
+        # Derivatives of cot(V)
         if K == 0 :
-            H = H + 1/ U
-            H = H + P*pi
+            R = P
         elif K == 1 :
-            H =  H + 1/( U**2)
-            H = H + (P**2 + 1.0)*9.869604401089358
+            R = -S
         elif K == 2 :
-            H = H + 1/(U**3)
-            H = H + (P**2 + 1.0)*62.01255336059963
+            R = 2*P*S
+        elif K == 3 :
+            R = -S*(2 + 6*P*P)
+        else:
+            R = S*(16*P + 24*P*P*P)
+
+        H = H + pi**K1*R
+        if K % 2 == 1 :
+            H = -H
+        H = H + FCT[ K + 1 ]/(U**float(K1))
 
     return H
 
diff --git a/qmeq/specfunc/specfunc.py b/qmeq/specfunc/specfunc.py
index 6b9f7de..1e65d01 100644
--- a/qmeq/specfunc/specfunc.py
+++ b/qmeq/specfunc/specfunc.py
@@ -435,23 +435,30 @@ def polygamma(U, K):
         H = H + np.log(V)
 
     if X < 0:
-        V = V * PI
+        # Reflection formula, U now holds minus the argument
+        V = U * PI
         X, Y = V.real, V.imag
         A = np.sin(X)
         B = np.cos(X)
-        T = np.tanh(X)
-        P = B - 1j * A * T / (A + 1j * A * T)
+        T = np.tanh(Y)
+        P = (B - 1j * A * T) / (A + 1j * B * T)
+        # 1/sin(V)^2
+        S = 2 * np.exp(-abs(Y)) / (1 + np.exp(-2 * abs(Y)))
+        S = S ** 2 / (A + 1j * B * T) ** 2
 
+        # Derivatives of cot(V)
         if K == 0:
-            H += 1 / U + P * PI
-
+            R = P
         elif K == 1:
-            H += 1 / (U ** 2)
-            H += (P ** 2 + 1.0) * 9.869604401089358
-
+            R = -S
         elif K == 2:
-            H += 1 / (U ** 3)
-            H += (P ** 2 + 1.0) * 62.01255336059963
+            R = 2 * P * S
+        elif K == 3:
+            R = -S * (2 + 6 * P ** 2)
+        else:
+            R = S * (16 * P + 24 * P ** 3)
+
+        H = (-1) ** K * (H + PI ** K1 * R) + FCT[K + 1] / (U ** K1)
 
     return H
 
-- 
2.43.0


From 119183f9a5b265692748b2a0ffdf5d535f6aa5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 08/43] fix: diff_fermi and bose for large arguments of either
 sign

---
 qmeq/specfunc/c_specfunc.pyx | 7 +++----
 qmeq/specfunc/specfunc.py    | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/qmeq/specfunc/c_specfunc.pyx b/qmeq/specfunc/c_specfunc.pyx
index 449aef4..305327f 100644
--- a/qmeq/specfunc/c_specfunc.pyx
+++ b/qmeq/specfunc/c_specfunc.pyx
@@ -100,16 +100,15 @@ cdef double_t fermi_func(double_t x) nogil:
 @cython.cdivision(True)
 cdef double_t diff_fermi(double_t x, double_t sign=1) nogil:
     """Calculates the derivative of the Fermi function."""
-    if x > 354.885:
-        return 0.0
-    cdef double_t e = exp(sign*x)
+    # The derivative is even in x, this form never overflows
+    cdef double_t e = exp(-fabs(x))
     return -sign*e / ((e + 1.0)**2)
 
 
 @cython.cdivision(True)
 cdef double_t bose(double_t x, double_t sign=1) nogil:
     """Calculates the Bose distribution function at x."""
-    if x > 709.77: #To avoid overflow in the denominator.
+    if sign*x > 709.77: #To avoid overflow in the denominator.
         return 0.0
     cdef double_t e = exp( sign * x )
     return 1.0 / (e - 1.0)
diff --git a/qmeq/specfunc/specfunc.py b/qmeq/specfunc/specfunc.py
index 1e65d01..7bc58e5 100644
--- a/qmeq/specfunc/specfunc.py
+++ b/qmeq/specfunc/specfunc.py
@@ -213,9 +213,8 @@ def diff_fermi(x, sign=1):
     double
         The function value
     """
-    if x > 709.77 / 2:  # To avoid overflow in the denominator
-        return 0.0
-    e = np.exp(sign * x)
+    # The derivative is even in x, this form never overflows
+    e = np.exp(-abs(x))
     return -sign * e / ((e + 1.0) ** 2)
 
 @lru_cache(MAX_CACHE)
@@ -234,7 +233,7 @@ def bose(x, sign=1):
     double
         The function value
     """
-    if x > 709.77:  # To avoid overflow in the denominator
+    if sign * x > 709.77:  # To avoid overflow in the denominator
         return 0.0
     e = np.exp(sign * x)
     return 1 / (e - 1)
-- 
2.43.0


From abaabbe76dc6186e6afab29a192276cf49167232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 09/43] fix: RTD integrals compare temperatures relative to
 their size

---
 qmeq/approach/base/RTD.py    | 2 +-
 qmeq/specfunc/c_specfunc.pyx | 4 ++--
 qmeq/specfunc/specfunc.py    | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index a5d1a10..0417d56 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -122,7 +122,7 @@ class ApproachPyRTD(Approach):
         ncharge, statesdm = si.ncharge, si.statesdm
         self.off_diag_corrections = self.funcp.off_diag_corrections
 
-        if (not np.all(np.isclose(self.leads.tlst, self.leads.tlst[0]))) or np.any(abs(self.leads.Tba.imag)>0):
+        if np.any(self.leads.tlst != self.leads.tlst[0]) or np.any(abs(self.leads.Tba.imag)>0):
             self.set_Ozaki_params()
 
         for bcharge in range(ncharge):
diff --git a/qmeq/specfunc/c_specfunc.pyx b/qmeq/specfunc/c_specfunc.pyx
index 305327f..c3b2c02 100644
--- a/qmeq/specfunc/c_specfunc.pyx
+++ b/qmeq/specfunc/c_specfunc.pyx
@@ -332,7 +332,7 @@ cdef complex_t integralD(double_t p1, double_t eta1, double_t E1, double_t E2, d
             double_t T2, double_t mu1, double_t mu2, double_t D, double_t[:,:] b_and_R, bint ImGamma) nogil:
     cdef complex_t ret
     cdef double_t lambda1, lambda2, lambda3
-    if fabs(T2-T1) < TMIN and not ImGamma:
+    if fabs(T2-T1) < TMIN*T1 and not ImGamma:
         lambda1 = (E1 - mu1) / T1
         lambda2 = (E2 - mu1 - eta1 * mu2) / T1
         lambda3 = (E3 - mu1) /T1
@@ -349,7 +349,7 @@ cdef complex_t integralX(double_t p1, double_t eta1, double_t E1, double_t E2, d
             double_t T2, double_t mu1, double_t mu2, double_t D, double_t[:,:] b_and_R, bint ImGamma) nogil:
     cdef complex_t ret
     cdef double_t lambda1, lambda2, lambda3
-    if fabs(T2-T1) < TMIN and not ImGamma:
+    if fabs(T2-T1) < TMIN*T1 and not ImGamma:
         lambda1 = (E1 - mu1) / T1
         lambda2 = (E2 - mu1 - eta1 * mu2) / T1
         lambda3 = (E3 - eta1*mu2) /T1
diff --git a/qmeq/specfunc/specfunc.py b/qmeq/specfunc/specfunc.py
index 7bc58e5..c278591 100644
--- a/qmeq/specfunc/specfunc.py
+++ b/qmeq/specfunc/specfunc.py
@@ -500,7 +500,7 @@ def integralD(p1, eta1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma):
         The integral value
     """
     TMIN = 1e-5
-    if abs(T2-T1) < TMIN and not ImGamma:
+    if abs(T2-T1) < TMIN*T1 and not ImGamma:
         lambda1 = (E1 - mu1) / T1
         lambda2 = (E2 - mu1 - eta1 * mu2) / T1
         lambda3 = (E3 - mu1) /T1
@@ -548,8 +548,8 @@ def integralX(p1, eta1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma):
         The integral value
     """
 
-    TMIN = 1e-10
-    if abs(T2-T1) < TMIN and not ImGamma:
+    TMIN = 1e-5
+    if abs(T2-T1) < TMIN*T1 and not ImGamma:
         lambda1 = (E1 - mu1) / T1
         lambda2 = (E2 - mu1 - eta1 * mu2) / T1
         lambda3 = (E3 - eta1*mu2) / T1
-- 
2.43.0


From abbc6b1386cb1e6adce36186afd7b79aad0f4af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 10/43] fix: compare the symmetry option by value

---
 qmeq/baths.py    | 2 +-
 qmeq/leadstun.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/qmeq/baths.py b/qmeq/baths.py
index 38bb530..81cc39a 100644
--- a/qmeq/baths.py
+++ b/qmeq/baths.py
@@ -164,7 +164,7 @@ def make_velph_dict(velph, si, add_zeros=False):
     else:
         velph_dict = {}
     #
-    if si.symmetry is 'spin':
+    if si.symmetry == 'spin':
         velph_dict_spin = dict(velph_dict)
         for j0 in velph_dict:
             j1, j2, j3 = j0
diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index 41622c7..baf672d 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -284,7 +284,7 @@ def make_tleads_dict(tleads, si, add_zeros=False):
     else:
         return {}
     #
-    if si.symmetry is 'spin':
+    if si.symmetry == 'spin':
         tleads_dict_spin = dict(tleads_dict)
         for j0 in tleads_dict:
             j1, j2 = j0
@@ -356,7 +356,7 @@ def make_array(lst_old, lst, si, npar=None, use_symmetry=True):
     else:
         lst_arr = np.zeros(npar, dtype=doublenp)
     #
-    if si.symmetry is 'spin' and use_symmetry:
+    if si.symmetry == 'spin' and use_symmetry:
         return np.concatenate((lst_arr, lst_arr))
     else:
         return lst_arr
-- 
2.43.0


From 2bd707c475941a8daa5b471f7486627b6074f5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 11/43] fix: energy current of the RTD approach with removed
 states

---
 qmeq/approach/base/RTD.py    | 7 ++++++-
 qmeq/approach/base/c_RTD.pyx | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index 0417d56..8a31580 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -183,13 +183,18 @@ class ApproachPyRTD(Approach):
         self.LN : ndarray
             (Modifies) the digononal entries of the anti-commutator Liouvillian for the number
             operator. The array has npauli entries.
+        self.LN_states : ndarray
+            (Modifies) the states which the npauli entries correspond to.
         """
         charge_lst = []
+        states_lst = []
         for charge in range(self.si.ncharge):
             for a in self.si.statesdm[charge]:
                 if self.si.get_ind_dm0(a, a, charge, 2):
                     charge_lst.append(2 * charge)
+                    states_lst.append(a)
         self.LN = np.array(charge_lst)
+        self.LN_states = np.array(states_lst, dtype=int)
 
     def generate_current(self):
         r""" Calculates currents for the RTD approach.
@@ -213,7 +218,7 @@ class ApproachPyRTD(Approach):
         """
         kh = self.kernel_handler
         nleads = self.si.nleads
-        LE = 2 * self.qd.Ea
+        LE = 2 * np.array(self.qd.Ea)[self.LN_states]
 
         current = np.zeros(nleads, dtype=doublenp)
         energy_current = np.zeros(nleads, dtype=doublenp)
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index b2584bd..d5a829a 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -261,7 +261,7 @@ cdef class ApproachRTD(Approach):
         LE = np.zeros(kh.npauli, dtype=doublenp)
 
         for i in range(kh.npauli):
-            LE[i] = 2.0 * Ea[i]
+            LE[i] = 2.0 * Ea[kh.all_bbp[i, 0]]
 
         for l in range(nleads):
             current[l] = 0.5 * np.dot(self.LN, np.dot(kh.Wdd.base[l, :, :], self.phi0))
-- 
2.43.0


From 1d8bf7d78ac49c42f87859716ac8a9f4c12a53ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:16 +0000
Subject: [PATCH 12/43] fix: sort_eigenstates leaves the caller's list alone
 and uses the current states

---
 qmeq/builder/various.py | 8 ++------
 qmeq/indexing.py        | 1 +
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index b290cda..0324ce3 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -72,12 +72,8 @@ def sort_eigenstates(self, srt=None):
         (Modifies) A numpy row containing a new order of many-body states.
     """
     if srt is not None:
-        if self.qd.Ea_ext is None:
-            self.qd.Ea_ext = construct_Ea_extended(self)
-        else:
-            self.qd.Ea_ext[0] = self.qd.Ea
-        srt.append(-1)
-        self.si.states_order = np.array(multiarray_sort(self.qd.Ea_ext, srt)[-1], dtype=int)
+        self.qd.Ea_ext = construct_Ea_extended(self)
+        self.si.states_order = np.array(multiarray_sort(self.qd.Ea_ext, list(srt)+[-1])[-1], dtype=int)
     else:
         self.si.states_order = range(self.si.nmany)
 
diff --git a/qmeq/indexing.py b/qmeq/indexing.py
index 048972a..70b9cd3 100644
--- a/qmeq/indexing.py
+++ b/qmeq/indexing.py
@@ -665,6 +665,7 @@ class StateIndexing(object):
             self.j[self.i[j1]] = j1
 
         self.qn_ind, self.ind_qn = make_quantum_numbers(self)
+        self.states_order = list(range(self.nmany))
 
         self.states_changed = True
 
-- 
2.43.0


From 5d21537c6bf70bd3225444005b6eef49ae18aef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:46 +0000
Subject: [PATCH 13/43] fix: many-body input with any charge labels, own copies
 of the arrays and both indexings set

---
 qmeq/builder/builder_base.py | 27 +++++++++++++++++----------
 qmeq/builder/builder_elph.py | 17 ++++++++++++++---
 qmeq/builder/various.py      |  2 +-
 3 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index c8e0ff3..7dd5927 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -3,6 +3,8 @@
 import copy
 import numpy as np
 
+from ..wrappers.mytypes import doublenp
+from ..wrappers.mytypes import complexnp
 from ..wrappers.mytypes import longnp
 
 from ..approach.aprclass import Approach
@@ -334,12 +336,15 @@ class BuilderManyBody(BuilderBase):
             symmetry=symmetry, herm_hs=herm_hs, herm_c=herm_c, m_less_n=m_less_n,
             indexing='charge')
 
-        self._init_state_indexing(Na, Ea)
+        Ea = np.array(Ea, dtype=doublenp) if Ea is not None else None
+        Tba = np.array(Tba, dtype=complexnp) if Tba is not None else None
+
+        self._init_state_indexing(self.si, Na, Ea)
 
         self.qd.Ea = Ea
         self.leads.Tba = Tba
 
-    def _init_state_indexing(self, Na, Ea):
+    def _init_state_indexing(self, si, Na, Ea):
         Na = np.array(Na, dtype=int)
         nmin, nmax = Na.min(), Na.max()
         ncharge = nmax-nmin+1
@@ -347,13 +352,15 @@ class BuilderManyBody(BuilderBase):
 
         statesdm = [[] for _ in range(ncharge)]
         for i in range(nmany):
-            statesdm[Na[i]].append(i)
+            statesdm[Na[i]-nmin].append(i)
 
         self.Na = Na
-        self.si.nmany = nmany
-        self.si.ncharge = ncharge
-        self.si.shiftlst0 = np.zeros(ncharge+1, dtype=longnp)
-        self.si.shiftlst1 = np.zeros(ncharge, dtype=longnp)
-        self.si.lenlst = np.zeros(ncharge, dtype=longnp)
-        self.si.dictdm = np.zeros(nmany, dtype=longnp)
-        self.si.set_statesdm(statesdm)
+        si.nmany = nmany
+        si.ncharge = ncharge
+        si.chargelst = statesdm
+        si.states_order = list(range(nmany))
+        si.shiftlst0 = np.zeros(ncharge+1, dtype=longnp)
+        si.shiftlst1 = np.zeros(ncharge, dtype=longnp)
+        si.lenlst = np.zeros(ncharge, dtype=longnp)
+        si.dictdm = np.zeros(nmany, dtype=longnp)
+        si.set_statesdm(statesdm)
diff --git a/qmeq/builder/builder_elph.py b/qmeq/builder/builder_elph.py
index 9d335cd..b00348a 100644
--- a/qmeq/builder/builder_elph.py
+++ b/qmeq/builder/builder_elph.py
@@ -1,5 +1,10 @@
 """Module containing Builder_elph and Builder_many_body_elph classes."""
 
+import numpy as np
+
+from ..wrappers.mytypes import doublenp
+from ..wrappers.mytypes import complexnp
+
 from .builder_base import BuilderBase
 from .builder_base import attribute_map
 from .builder_base import BuilderManyBody
@@ -170,7 +175,7 @@ class BuilderManyBodyElPh(BuilderElPh, BuilderManyBody):
                  itype=0, dqawc_limit=10000, mfreeq=False, phi0_init=None,
                  mtype_qd=complex, mtype_leads=complex,
                  symmetry=None, herm_hs=True, herm_c=False, m_less_n=True,
-                 bath_func=None, eps_elph=1.0e-6):
+                 bath_func=None, eps_elph=1.0e-6, itype_ph=0):
 
         nleads = Tba.shape[0] if Tba is not None else 0
         nbaths = Vbbp.shape[0] if Vbbp is not None else 0
@@ -180,13 +185,19 @@ class BuilderManyBodyElPh(BuilderElPh, BuilderManyBody):
             nleads=nleads, mulst=mulst, tlst=tlst, dband=dband,
             nbaths=nbaths, tlst_ph=tlst_ph, dband_ph=dband_ph, kpnt=kpnt,
             kerntype=kerntype, symq=symq, norm_row=norm_row, solmethod=solmethod,
-            itype=itype, dqawc_limit=dqawc_limit, mfreeq=mfreeq, phi0_init=phi0_init,
+            itype=itype, itype_ph=itype_ph,
+            dqawc_limit=dqawc_limit, mfreeq=mfreeq, phi0_init=phi0_init,
             mtype_qd=mtype_qd, mtype_leads=mtype_leads,
             symmetry=symmetry, herm_hs=herm_hs, herm_c=herm_c, m_less_n=m_less_n,
             bath_func=bath_func, eps_elph=eps_elph,
             indexing='charge')
 
-        self._init_state_indexing(Na, Ea)
+        Ea = np.array(Ea, dtype=doublenp) if Ea is not None else None
+        Tba = np.array(Tba, dtype=complexnp) if Tba is not None else None
+        Vbbp = np.array(Vbbp, dtype=complexnp) if Vbbp is not None else None
+
+        self._init_state_indexing(self.si, Na, Ea)
+        self._init_state_indexing(self.si_elph, Na, Ea)
 
         self.qd.Ea = Ea
         self.leads.Tba = Tba
diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index 0324ce3..982c0fb 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -323,7 +323,7 @@ def remove_states(self, dE):
         (Modifies) List containing indices of many-body state under consideration.
     """
     Emax = min(self.qd.Ea)+dE
-    statesdm = [[] for _ in range(self.si.nsingle+1)]
+    statesdm = [[] for _ in range(self.si.ncharge)]
     for charge in range(self.si.ncharge):
         for b in self.si.chargelst[charge]:
             if self.qd.Ea[b] < Emax:
-- 
2.43.0


From 134ced4b1e7497ce6619e2fb42a399b8c6dea91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:05 +0000
Subject: [PATCH 14/43] fix: switching the approach keeps removed states,
 many-body input and phonon baths

---
 qmeq/builder/builder_base.py | 20 +++++++++++++++++++-
 qmeq/builder/builder_elph.py |  4 +++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index 7dd5927..4953887 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -168,11 +168,21 @@ class BuilderBase(object):
         icn = self.Approach.indexing_class_name
         # noinspection PyTypeHints
         if not isinstance(si, self.globals[icn]):
-            self.si = self.globals[icn](si.nsingle, si.indexing, si.symmetry, si.nleads)
+            self.si = self.convert_si(si, icn)
             self.qd.si = self.si
             self.leads.si = self.si
         self.si.states_changed = True
 
+    def convert_si(self, si, icn):
+        """Makes a state indexing object of the class icn, which considers the same states as si."""
+        new_si = self.globals[icn](si.nsingle, si.indexing, si.symmetry, si.nleads)
+        new_si.nbaths = si.nbaths
+        if si.removed_fock_states is not None:
+            new_si.remove_fock_states(np.flatnonzero(si.removed_fock_states))
+        new_si.set_statesdm(si.statesdm[:si.ncharge])
+        new_si.states_order = si.states_order
+        return new_si
+
     # kerntype
     def get_kerntype(self):
         return self.appr.kerntype
@@ -344,6 +354,14 @@ class BuilderManyBody(BuilderBase):
         self.qd.Ea = Ea
         self.leads.Tba = Tba
 
+    def convert_si(self, si, icn):
+        new_si = self.globals[icn](si.nsingle, si.indexing, si.symmetry, si.nleads)
+        new_si.nbaths = si.nbaths
+        self._init_state_indexing(new_si, self.Na, self.qd.Ea)
+        new_si.set_statesdm(si.statesdm[:si.ncharge])
+        new_si.states_order = si.states_order
+        return new_si
+
     def _init_state_indexing(self, si, Na, Ea):
         Na = np.array(Na, dtype=int)
         nmin, nmax = Na.min(), Na.max()
diff --git a/qmeq/builder/builder_elph.py b/qmeq/builder/builder_elph.py
index b00348a..0132e87 100644
--- a/qmeq/builder/builder_elph.py
+++ b/qmeq/builder/builder_elph.py
@@ -116,8 +116,10 @@ class BuilderElPh(BuilderBase):
         self.create_si_elph()
 
     def change_si(self):
+        baths = self.baths
         BuilderBase.change_si(self)
-        self.create_si_elph()
+        baths.si = self.si
+        self.baths = baths
 
     def create_si_elph(self):
         si = self.si
-- 
2.43.0


From e382a399b5bd764904e38c6f11e504edd7a4b920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 15/43] fix: keep tleads_array in step with added and changed
 tunneling amplitudes

---
 qmeq/leadstun.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index baf672d..3e9c035 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -471,7 +471,7 @@ class LeadsTunneling(object):
                         self.tleads[j0] += tleads[j0]
                     else:
                         self.tleads.update({j0: tleads[j0]})
-                self.tleads_array = make_tleads_array(self.tleads, self.si)
+                self.tleads_array[:] = make_tleads_array(self.tleads, self.si)
             self.Tba0 = construct_Tba(self, tleads, self.Tba0)
 
     def change(self, tleads=None, mulst=None, tlst=None, dlst=None):
@@ -507,6 +507,7 @@ class LeadsTunneling(object):
                     if tleads_diff != 0:
                         tleads_add.update({j0: tleads_diff})
                         self.tleads.update({j0: tleads_diff})
+            self.tleads_array[:] = make_tleads_array(self.tleads, self.si)
             # Add the differences
             self.add(tleads_add, updateq=False, lstq=False)
 
-- 
2.43.0


From 3af685a5c429ee5f83f1e5c4ae3f680b4edd2545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 16/43] fix: changing a Coulomb matrix element to zero through
 a list or array

---
 qmeq/qdot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qmeq/qdot.py b/qmeq/qdot.py
index 7ab2f5d..76c4e4e 100644
--- a/qmeq/qdot.py
+++ b/qmeq/qdot.py
@@ -624,7 +624,7 @@ def make_hsingle_dict(qd, hsingle, add_zeros=False):
         return hsingle_dict
 
 
-def make_coulomb_dict(qd, coulomb):
+def make_coulomb_dict(qd, coulomb, add_zeros=False):
     """
     Makes Coulomb matrix element dictionary.
 
@@ -634,6 +634,8 @@ def make_coulomb_dict(qd, coulomb):
         Contains coulomb matrix elements.
     qd : QuantumDot
         QuantumDot object.
+    add_zeros : bool
+        Flag indicating whether to add zeros to dictionary.
 
     Returns
     -------
@@ -649,7 +651,7 @@ def make_coulomb_dict(qd, coulomb):
         coulomb_dict = {}
         for j0 in coulomb:
             m, n, k, l, U = j0
-            if U != 0:
+            if U != 0 or add_zeros:
                 coulomb_dict.update({(m, n, k, l): U})
     else:
         return {}
@@ -837,7 +839,7 @@ class QuantumDot(object):
             The many-body Hamiltonian will be updates in either case.
         """
         hsingle = {} if hsingle is None else make_hsingle_dict(self, hsingle, True)
-        coulomb = {} if coulomb is None else make_coulomb_dict(self, coulomb)
+        coulomb = {} if coulomb is None else make_coulomb_dict(self, coulomb, True)
         #
         hsingle_add = {}
         coulomb_add = {}
-- 
2.43.0


From 8f5f584db4b5aeaa24f1f569e4ae3647a6224ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 17/43] fix: update_Tba0 and update_Vbbp0 use the normalised
 input and resize the matrices

---
 qmeq/baths.py    | 3 ++-
 qmeq/leadstun.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/qmeq/baths.py b/qmeq/baths.py
index 81cc39a..294b678 100644
--- a/qmeq/baths.py
+++ b/qmeq/baths.py
@@ -332,4 +332,5 @@ class PhononBaths(object):
         si.nbaths = nbaths
         self.velph = make_velph_dict(velph, si)
         self.mtype = mtype
-        self.Vbbp0 = elph_construct_Vbbp(self, velph)
+        self._init_coupling()
+        si.states_changed = True
diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index 3e9c035..5a050d5 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -548,6 +548,7 @@ class LeadsTunneling(object):
         si.nleads = nleads
         si.nleads_sym = nleads//2 if si.symmetry == 'spin' else nleads
         self.tleads = make_tleads_dict(tleads, si)
-        self.tleads_array = make_tleads_array(tleads, self.si)
+        self.tleads_array = make_tleads_array(self.tleads, self.si)
         self.mtype = mtype
-        self.Tba0 = construct_Tba(self, tleads)
+        self._init_coupling()
+        si.states_changed = True
-- 
2.43.0


From 5992ee6a6711281d30199b55aaab1291654c153f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 18/43] fix: QuantumDot, LeadsTunneling and PhononBaths keep
 their own dictionaries

---
 qmeq/baths.py    | 2 +-
 qmeq/leadstun.py | 2 +-
 qmeq/qdot.py     | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/qmeq/baths.py b/qmeq/baths.py
index 294b678..448d34d 100644
--- a/qmeq/baths.py
+++ b/qmeq/baths.py
@@ -149,7 +149,7 @@ def make_velph_dict(velph, si, add_zeros=False):
         velph[(bath, state1, state2)] gives the coupling.
     """
     if isinstance(velph, dict):
-        velph_dict = velph
+        velph_dict = dict(velph)
     elif isinstance(velph, list):
         velph_dict = {}
         for j0 in velph:
diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index 5a050d5..609c491 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -268,7 +268,7 @@ def make_tleads_dict(tleads, si, add_zeros=False):
         tleads[(lead, state)] gives the tunneling amplitude.
     """
     if isinstance(tleads, dict):
-        tleads_dict = tleads
+        tleads_dict = dict(tleads)
     elif isinstance(tleads, list):
         tleads_dict = {}
         for j0 in tleads:
diff --git a/qmeq/qdot.py b/qmeq/qdot.py
index 76c4e4e..5b8044a 100644
--- a/qmeq/qdot.py
+++ b/qmeq/qdot.py
@@ -595,7 +595,7 @@ def make_hsingle_dict(qd, hsingle, add_zeros=False):
     si = qd.si
     #
     if isinstance(hsingle, dict):
-        hsingle_dict = hsingle
+        hsingle_dict = dict(hsingle)
     elif isinstance(hsingle, list):
         hsingle_dict = {}
         for j0 in hsingle:
@@ -646,7 +646,7 @@ def make_coulomb_dict(qd, coulomb, add_zeros=False):
     si = qd.si
     #
     if isinstance(coulomb, dict):
-        coulomb_dict = coulomb
+        coulomb_dict = dict(coulomb)
     elif isinstance(coulomb, (list, np.ndarray)):
         coulomb_dict = {}
         for j0 in coulomb:
-- 
2.43.0


From 35b8908d0cd2d8e19167b4172d1486bec16a1cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:02 +0000
Subject: [PATCH 19/43] fix: RTD uses the Ozaki expansion of the current
 bandwidth and temperature

---
 qmeq/approach/base/RTD.py    | 2 +-
 qmeq/approach/base/c_RTD.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index 8a31580..827161f 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -934,7 +934,7 @@ class ApproachPyRTD(Approach):
             and the second columns contains the residues.
         """
         BW_T = (abs(self.leads.dlst[0][0]) + abs(self.leads.dlst[0][1])) / 2.0 / min(self.leads.tlst)
-        if self.BW_Ozaki_expansion < BW_T:
+        if self.BW_Ozaki_expansion != BW_T:
             self.Ozaki_poles_and_residues = BW_Ozaki(BW_T)
             self.BW_Ozaki_expansion = BW_T
 
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index d5a829a..c76dcf0 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -965,6 +965,6 @@ cdef class ApproachRTD(Approach):
 
         cdef double_t BW_T = (abs(self.leads.dlst[0][0]) + abs(self.leads.dlst[0][1])) / 2.0 / min(self.leads.tlst)
 
-        if self.BW_Ozaki_expansion < BW_T:
+        if self.BW_Ozaki_expansion != BW_T:
             self.Ozaki_poles_and_residues = BW_Ozaki(BW_T)
             self.BW_Ozaki_expansion = BW_T
\ No newline at end of file
-- 
2.43.0


From ab74ad17e95b0114af639595ea59115992763982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:02 +0000
Subject: [PATCH 20/43] fix: RTD allocates the per-thread kernels for the
 current number of states

---
 qmeq/approach/base/c_RTD.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index c76dcf0..984e67a 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -56,8 +56,7 @@ cdef class ApproachRTD(Approach):
         self.ImGamma = False
         self.printed_warning_ImGamma = False
         self.nsingle_warning_printed = False
-        # For parallel
-        self.nbr_Wdd2_copies = min(self.si.npauli, openmp.omp_get_max_threads())
+        self.nbr_Wdd2_copies = 0
 
     cpdef long_t get_kern_size(self):
         return self._kernel_handler.npauli
@@ -83,6 +82,8 @@ cdef class ApproachRTD(Approach):
 
         self.paulifct = np.zeros((nleads, ndm1, 2), dtype=doublenp)
         self.rez = np.zeros(2, dtype=doublenp)
+        # For parallel
+        self.nbr_Wdd2_copies = min(self.si.npauli, openmp.omp_get_max_threads())
         self.Wdd2 = np.zeros((self.nbr_Wdd2_copies, nleads, kern_size, kern_size), dtype=self.dtype, order='F')
         self.WE1 = np.zeros((nleads, kern_size, kern_size), dtype=self.dtype, order='F')
         self.WE2 = np.zeros((nleads, kern_size, kern_size), dtype=self.dtype, order='F')
-- 
2.43.0


From 9afd53d6d084ea60c2eaaada71c96e9be96494fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:31 +0000
Subject: [PATCH 21/43] fix: off_diag_corrections of the RTD approach can be
 switched at any time

---
 qmeq/approach/base/RTD.py    | 37 +++++++++++++--------------
 qmeq/approach/base/c_RTD.pyx | 49 ++++++++++++++++++------------------
 2 files changed, 42 insertions(+), 44 deletions(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index 827161f..f0c7da7 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -67,21 +67,21 @@ class ApproachPyRTD(Approach):
         self.W2 = np.zeros((nleads, kern_size, kern_size), dtype=self.dtype)
 
         self.generate_LN()
+        self.ImGamma = False
         self.LE = np.zeros((kern_size, kern_size), dtype=self.dtype)
 
-        if self.off_diag_corrections:
-            kern_size2 = 2 * self.si.ndm0 - 2 * self.si.npauli
-            self.ReWnd = np.zeros((nleads, kern_size2, kern_size), dtype=self.dtype)
-            self.ImWnd = np.zeros((nleads, kern_size2, kern_size), dtype=self.dtype)
-            self.ReWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype)
-            self.ImWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype)
-            self.Lnn = np.zeros((kern_size2, kern_size2), dtype=self.dtype)
-
-            kh.ReWnd = self.ReWnd
-            kh.ImWnd = self.ImWnd
-            kh.ReWdn = self.ReWdn
-            kh.ImWdn = self.ImWdn
-            kh.Lnn = self.Lnn
+        kern_size2 = 2 * self.si.ndm0 - 2 * self.si.npauli
+        self.ReWnd = np.zeros((nleads, kern_size2, kern_size), dtype=self.dtype)
+        self.ImWnd = np.zeros((nleads, kern_size2, kern_size), dtype=self.dtype)
+        self.ReWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype)
+        self.ImWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype)
+        self.Lnn = np.zeros((kern_size2, kern_size2), dtype=self.dtype)
+
+        kh.ReWnd = self.ReWnd
+        kh.ImWnd = self.ImWnd
+        kh.ReWdn = self.ReWdn
+        kh.ImWdn = self.ImWdn
+        kh.Lnn = self.Lnn
 
         kh.set_matrix_list()
 
@@ -96,12 +96,11 @@ class ApproachPyRTD(Approach):
         self.W2.fill(0.0)
         self.LE.fill(0.0)
 
-        if self.off_diag_corrections:
-            self.ReWnd.fill(0.0)
-            self.ImWnd.fill(0.0)
-            self.ReWdn.fill(0.0)
-            self.ImWdn.fill(0.0)
-            self.Lnn.fill(0.0)
+        self.ReWnd.fill(0.0)
+        self.ImWnd.fill(0.0)
+        self.ReWdn.fill(0.0)
+        self.ImWdn.fill(0.0)
+        self.Lnn.fill(0.0)
 
     def generate_kern(self):
         r""" Generates all kernels including tunnel processes of orders :math:`t^2` and :math:`t^4`.
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index 984e67a..ed359e7 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -89,26 +89,26 @@ cdef class ApproachRTD(Approach):
         self.WE2 = np.zeros((nleads, kern_size, kern_size), dtype=self.dtype, order='F')
 
         self.generate_LN()
+        self.ImGamma = False
 
-        if self.funcp.off_diag_corrections:
-            kern_size2 = 2 * kh.ndm0 - 2 * kh.npauli
-            self.ReWnd = np.zeros((kern_size2, kern_size), dtype=self.dtype, order='F')
-            self.ImWnd = np.zeros((kern_size2, kern_size), dtype=self.dtype, order='F')
-            self.ReWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype, order='F')
-            self.ImWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype, order='F')
-            self.Lnn = np.zeros(kern_size2, dtype=self.dtype)
-
-            self._ReWnd = self.ReWnd
-            self._ImWnd = self.ImWnd
-            self._ReWdn = self.ReWdn
-            self._ImWdn = self.ImWdn
-            self._Lnn = self.Lnn
-
-            kh.ReWnd = self.ReWnd
-            kh.ImWnd = self.ImWnd
-            kh.ReWdn = self.ReWdn
-            kh.ImWdn = self.ImWdn
-            kh.Lnn = self.Lnn
+        kern_size2 = 2 * kh.ndm0 - 2 * kh.npauli
+        self.ReWnd = np.zeros((kern_size2, kern_size), dtype=self.dtype, order='F')
+        self.ImWnd = np.zeros((kern_size2, kern_size), dtype=self.dtype, order='F')
+        self.ReWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype, order='F')
+        self.ImWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype, order='F')
+        self.Lnn = np.zeros(kern_size2, dtype=self.dtype)
+
+        self._ReWnd = self.ReWnd
+        self._ImWnd = self.ImWnd
+        self._ReWdn = self.ReWdn
+        self._ImWdn = self.ImWdn
+        self._Lnn = self.Lnn
+
+        kh.ReWnd = self.ReWnd
+        kh.ImWnd = self.ImWnd
+        kh.ReWdn = self.ReWdn
+        kh.ImWdn = self.ImWdn
+        kh.Lnn = self.Lnn
 
         self._kern = self.kern
         self._bvec = self.bvec
@@ -158,12 +158,11 @@ cdef class ApproachRTD(Approach):
         self._WE2[::1] = 0.0
         self._Wdd2[::1] = 0.0
 
-        if self.funcp.off_diag_corrections:
-            self._ReWnd[::1] = 0.0
-            self._ImWnd[::1] = 0.0
-            self._ReWdn[::1] = 0.0
-            self._ImWdn[::1] = 0.0
-            self._Lnn[::1] = 0.0
+        self._ReWnd[::1] = 0.0
+        self._ImWnd[::1] = 0.0
+        self._ReWdn[::1] = 0.0
+        self._ImWdn[::1] = 0.0
+        self._Lnn[::1] = 0.0
 
 
     cpdef void generate_kern(self):
-- 
2.43.0


From ac7749210135dd21dc55e02ecc74ee10a9a33bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 22/43] fix: RTD treats amplitude products as complex only
 beyond rounding errors

The choice between the closed-form and the Ozaki evaluation of the fourth
order integrals looked at imaginary parts on the scale of rounding errors,
so the currents of a system with complex amplitudes depended on the phases
of the eigenvectors.
---
 qmeq/approach/base/RTD.py    | 34 ++++++++++++++++++----------------
 qmeq/approach/base/c_RTD.pyx | 36 +++++++++++++++++++-----------------
 2 files changed, 37 insertions(+), 33 deletions(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index f0c7da7..829b748 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -497,6 +497,8 @@ class ApproachPyRTD(Approach):
         t_cutoff1 = 0.0
         t_cutoff2 = 1e-10*max(tlst)
         t_cutoff3 = 1e-20*max(tlst)**2
+        # Imaginary parts at the level of rounding errors do not make a product of tunneling amplitudes complex
+        t_cutoff4 = 1e-10
         indx0 = self.si.get_ind_dm0(a0, a0, charge)
         for r0, r1 in product(range(nleads), range(nleads)):
             T1, T2 = tlst[r0], tlst[r1]
@@ -525,10 +527,10 @@ class ApproachPyRTD(Approach):
                         t2X = t1 * Tba[r0, a2p, a3p].conj() * Tba[r1, a3p, a0].conj()
                         E3 = E[a3p] - E[a0]
                         if abs(t2D) > t_cutoff3:
-                            tempD = t2D * integralD(1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag)>t_cutoff3)
+                            tempD = t2D * integralD(1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag) > t_cutoff4*abs(t2D))
                             kh.add_element_2nd_order(r0, tempD.real, indx0, indx1, a3p, charge + 1, a0, charge)
                         if abs(t2X) > t_cutoff3:
-                            tempX = -t2X * integralX(1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag)>t_cutoff3)
+                            tempX = -t2X * integralX(1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag) > t_cutoff4*abs(t2X))
                             kh.add_element_2nd_order(r1, tempX.real, indx0, indx1, a3p, charge + 1, a0, charge)
                     #p2 = -1
                     #N3 = ( N0 +1, N0 + 2)
@@ -538,10 +540,10 @@ class ApproachPyRTD(Approach):
                         t2X = t1 * Tba[r0, a3m, a0].conj() * Tba[r1, a2p, a3m].conj()
                         E3 = E[a2p] - E[a3m]
                         if abs(t2D) > t_cutoff3:
-                            tempD = t2D * integralD(1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag)>t_cutoff3)
+                            tempD = t2D * integralD(1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag) > t_cutoff4*abs(t2D))
                             kh.add_element_2nd_order(r0, tempD.real, indx0, indx1, a2p, charge + 2, a3m, charge + 1)
                         if abs(t2X) > t_cutoff3:
-                            tempX = -t2X * integralX(1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag)>t_cutoff3)
+                            tempX = -t2X * integralX(1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag) > t_cutoff4*abs(t2X))
                             kh.add_element_2nd_order(r1, tempX.real, indx0, indx1, a2p, charge + 2, a3m, charge+1)
                 #p1 = -1
                 #N2 = ( N0 - 1, N0 + 1 ), a2+ = a1+
@@ -558,10 +560,10 @@ class ApproachPyRTD(Approach):
                         t2X = t1 * Tba[r0, a1p, a3p].conj() * Tba[r1, a3p, a2m].conj()
                         E3 = E[a3p] - E[a2m]
                         if abs(t2D) > t_cutoff3:
-                            tempD = t2D * integralD(-1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag)>t_cutoff3)
+                            tempD = t2D * integralD(-1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag) > t_cutoff4*abs(t2D))
                             kh.add_element_2nd_order(r0, tempD.real, indx0, indx1, a3p, charge, a2m, charge - 1)
                         if abs(t2X) > t_cutoff3:
-                            tempX = -t2X * integralX(-1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag)>t_cutoff3)
+                            tempX = -t2X * integralX(-1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag) > t_cutoff4*abs(t2X))
                             kh.add_element_2nd_order(r1, tempX.real, indx0, indx1, a3p, charge, a2m, charge-1)
                     #p2 = -1
                     #N3 = ( N0 , N0 + 1), a3+ = a2+
@@ -571,10 +573,10 @@ class ApproachPyRTD(Approach):
                         t2X = t1 * Tba[r0, a3m, a2m].conj() * Tba[r1, a1p, a3m].conj()
                         E3 = E[a1p] - E[a3m]
                         if abs(t2D) > t_cutoff3:
-                            tempD = t2D * integralD(-1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag)>t_cutoff3)
+                            tempD = t2D * integralD(-1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag) > t_cutoff4*abs(t2D))
                             kh.add_element_2nd_order(r0, tempD.real, indx0, indx1, a1p, charge + 1, a3m, charge)
                         if abs(t2X) > t_cutoff3:
-                            tempX = -t2X * integralX(-1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag)>t_cutoff3)
+                            tempX = -t2X * integralX(-1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag) > t_cutoff4*abs(t2X))
                             kh.add_element_2nd_order(r1, tempX.real, indx0, indx1, a1p, charge + 1, a3m, charge)
                 #eta1 = -1
                 #p1 = 1
@@ -591,7 +593,7 @@ class ApproachPyRTD(Approach):
                         t2D = t1 * Tba[r1, a3p, a2p] * Tba[r0, a3p, a0].conj()
                         E3 = E[a3p] - E[a0]
                         if abs(t2D) > t_cutoff3:
-                            tempD = t2D * integralD(1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag)>t_cutoff3)
+                            tempD = t2D * integralD(1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag) > t_cutoff4*abs(t2D))
                             kh.add_element_2nd_order(r0, tempD.real, indx0, indx1, a3p, charge + 1, a0, charge)
                     #N3 = (N0, N0-1), a3- = a0
                     for a3p in statesdm[charge-1]:
@@ -599,7 +601,7 @@ class ApproachPyRTD(Approach):
                         t2X = t1 * Tba[r0, a2p, a3p].conj() * Tba[r1, a0, a3p]
                         E3 = E[a3p] - E[a0]
                         if abs(t2X) > t_cutoff3:
-                            tempX = -t2X * integralX(1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag)>t_cutoff3)
+                            tempX = -t2X * integralX(1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag) > t_cutoff4*abs(t2X))
                             kh.add_element_2nd_order(r1, tempX.real, indx0, indx1, a3p, charge - 1, a0, charge)
                     #p2 = -1
                     #N3 = ( N0-1, N0 ), a3+ = a2+
@@ -608,7 +610,7 @@ class ApproachPyRTD(Approach):
                         t2D = t1 * Tba[r1, a0, a3m] * Tba[r0, a2p, a3m].conj()
                         E3 = E[a2p] - E[a3m]
                         if abs(t2D) > t_cutoff3:
-                            tempD = t2D * integralD(1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag)>t_cutoff3)
+                            tempD = t2D * integralD(1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag) > t_cutoff4*abs(t2D))
                             kh.add_element_2nd_order(r0, tempD.real, indx0, indx1, a2p, charge, a3m, charge - 1)
                     #N3 = (N0 + 1, N0)
                     for a3m in statesdm[charge+1]:
@@ -616,7 +618,7 @@ class ApproachPyRTD(Approach):
                         t2X = t1 * Tba[r0, a3m, a0].conj() * Tba[r1, a3m, a2p]
                         E3 = E[a2p] - E[a3m]
                         if abs(t2X) > t_cutoff3:
-                            tempX = -t2X * integralX(1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag)>t_cutoff3)
+                            tempX = -t2X * integralX(1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag) > t_cutoff4*abs(t2X))
                             kh.add_element_2nd_order(r1, tempX.real, indx0, indx1, a2p, charge, a3m, charge + 1)
                 #p1 = -1
                 #N2 = ( N0 + 1  , N0 + 1), a2+ = a1+
@@ -630,7 +632,7 @@ class ApproachPyRTD(Approach):
                         t2D = t1 * Tba[r1, a3p, a1p] * Tba[r0, a3p, a2m].conj()
                         E3 = E[a3p] - E[a2m]
                         if abs(t2D) > t_cutoff3:
-                            tempD = t2D * integralD(-1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag)>t_cutoff3)
+                            tempD = t2D * integralD(-1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag) > t_cutoff4*abs(t2D))
                             kh.add_element_2nd_order(r0, tempD.real, indx0, indx1, a3p, charge + 2, a2m, charge + 1)
                     #N3 = ( N0 + 1, N0 )
                     for a3p in statesdm[charge]:
@@ -638,7 +640,7 @@ class ApproachPyRTD(Approach):
                         t2X = t1 * Tba[r0, a1p, a3p].conj() * Tba[r1, a2m, a3p]
                         E3 = E[a3p] - E[a2m]
                         if abs(t2X) > t_cutoff3:
-                            tempX = -t2X * integralX(-1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag)>t_cutoff3)
+                            tempX = -t2X * integralX(-1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag) > t_cutoff4*abs(t2X))
                             kh.add_element_2nd_order(r1, tempX.real, indx0, indx1, a3p, charge, a2m, charge + 1)
                     #p2 = -1
                     #N3 = ( N0, N0+1), a3+ = a2+
@@ -647,7 +649,7 @@ class ApproachPyRTD(Approach):
                         t2D = t1 * Tba[r1, a2m, a3m] * Tba[r0, a1p, a3m].conj()
                         E3 = E[a1p] - E[a3m]
                         if abs(t2D) > t_cutoff3:
-                            tempD = t2D * integralD(-1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag)>t_cutoff3)
+                            tempD = t2D * integralD(-1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag) > t_cutoff4*abs(t2D))
                             kh.add_element_2nd_order(r0, tempD.real, indx0, indx1, a1p, charge + 1, a3m, charge)
                     #N3 = ( N0 + 2, N0 + 1 ), a3+ = a2+
                     for a3m in statesdm[charge+2]:
@@ -655,7 +657,7 @@ class ApproachPyRTD(Approach):
                         t2X = t1 * Tba[r0, a3m, a2m].conj() * Tba[r1, a3m, a1p]
                         E3 = E[a1p] - E[a3m]
                         if abs(t2X) > t_cutoff3:
-                            tempX = -t2X * integralX(-1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag)>t_cutoff3)
+                            tempX = -t2X * integralX(-1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag) > t_cutoff4*abs(t2X))
                             kh.add_element_2nd_order(r1, tempX.real, indx0, indx1, a1p, charge + 1, a3m, charge + 2)
 
     def generate_col_nondiag_kern_1st_order_dn(self, a1, b1, charge):
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index ed359e7..ffee6f1 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -504,7 +504,7 @@ cdef class ApproachRTD(Approach):
         cdef long_t nleads, acharge, bcharge, ccharge, dcharge, acount, bcount, ccount, dcount
         cdef long_t indx0, indx1, r0, r1, a1p, a2p, a2m, a3p, a3m, i, j, k, t_id
         cdef long_t [:, :] statesdm
-        cdef double_t T1, T2, mu1, mu2, D, temp, E1, E2, E3, t_cutoff1, t_cutoff2, t_cutoff3, maxTemp
+        cdef double_t T1, T2, mu1, mu2, D, temp, E1, E2, E3, t_cutoff1, t_cutoff2, t_cutoff3, t_cutoff4, maxTemp
         cdef double_t[:] E, mulst, tlst
         cdef double_t[:,:] b_and_R, dlst
         cdef complex_t t, t1, t2D, t2X, tempD, tempX
@@ -530,6 +530,8 @@ cdef class ApproachRTD(Approach):
         t_cutoff1 = 0.0
         t_cutoff2 = 1e-10*maxTemp
         t_cutoff3 = 1e-20*maxTemp*maxTemp
+        # Imaginary parts at the level of rounding errors do not make a product of tunneling amplitudes complex
+        t_cutoff4 = 1e-10
 
         statesdm = kh.statesdm
 
@@ -572,11 +574,11 @@ cdef class ApproachRTD(Approach):
                             t2X = t1 * Tba[r0, a2p, a3p].conjugate() * Tba[r1, a3p, a0].conjugate()
                             E3 = E[a3p] - E[a0]
                             if cabs(t2D) > t_cutoff3:
-                                ImGamma = fabs(t2D.imag) > t_cutoff3
+                                ImGamma = fabs(t2D.imag) > t_cutoff4*cabs(t2D)
                                 tempD = t2D * integralD(1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r0, tempD.real, indx0, indx1, a3p, ccharge, a0, bcharge)
                             if cabs(t2X) > t_cutoff3:
-                                ImGamma = fabs(t2X.imag) > t_cutoff3
+                                ImGamma = fabs(t2X.imag) > t_cutoff4*cabs(t2X)
                                 tempX = -t2X * integralX(1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r1, tempX.real, indx0, indx1, a3p, ccharge, a0, bcharge)
                         #p2 = -1
@@ -586,11 +588,11 @@ cdef class ApproachRTD(Approach):
                             t2X = t1 * Tba[r0, a3m, a0].conjugate() * Tba[r1, a2p, a3m].conjugate()
                             E3 = E[a2p] - E[a3m]
                             if cabs(t2D) > t_cutoff3:
-                                ImGamma = fabs(t2D.imag) > t_cutoff3
+                                ImGamma = fabs(t2D.imag) > t_cutoff4*cabs(t2D)
                                 tempD = t2D * integralD(1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r0, tempD.real, indx0, indx1, a2p, dcharge, a3m, ccharge)
                             if cabs(t2X) > t_cutoff3:
-                                ImGamma = fabs(t2X.imag) > t_cutoff3
+                                ImGamma = fabs(t2X.imag) > t_cutoff4*cabs(t2X)
                                 tempX = -t2X * integralX(1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r1, tempX.real, indx0, indx1, a2p, dcharge, a3m, ccharge)
                     #p1 = -1
@@ -607,11 +609,11 @@ cdef class ApproachRTD(Approach):
                             t2X = t1 * Tba[r0, a1p, a3p].conjugate() * Tba[r1, a3p, a2m].conjugate()
                             E3 = E[a3p] - E[a2m]
                             if cabs(t2D) > t_cutoff3:
-                                ImGamma = fabs(t2D.imag) > t_cutoff3
+                                ImGamma = fabs(t2D.imag) > t_cutoff4*cabs(t2D)
                                 tempD = t2D * integralD(-1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r0, tempD.real, indx0, indx1, a3p, bcharge, a2m, acharge)
                             if cabs(t2X) > t_cutoff3:
-                                ImGamma = fabs(t2X.imag) > t_cutoff3
+                                ImGamma = fabs(t2X.imag) > t_cutoff4*cabs(t2X)
                                 tempX = -t2X * integralX(-1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r1, tempX.real, indx0, indx1, a3p, bcharge, a2m, acharge)
                         #p2 = -1
@@ -621,11 +623,11 @@ cdef class ApproachRTD(Approach):
                             t2X = t1 * Tba[r0, a3m, a2m].conjugate() * Tba[r1, a1p, a3m].conjugate()
                             E3 = E[a1p] - E[a3m]
                             if cabs(t2D) > t_cutoff3:
-                                ImGamma = fabs(t2D.imag) > t_cutoff3
+                                ImGamma = fabs(t2D.imag) > t_cutoff4*cabs(t2D)
                                 tempD = t2D * integralD(-1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r0, tempD.real, indx0, indx1, a1p, ccharge, a3m, bcharge)
                             if cabs(t2X) > t_cutoff3:
-                                ImGamma = fabs(t2X.imag) > t_cutoff3
+                                ImGamma = fabs(t2X.imag) > t_cutoff4*cabs(t2X)
                                 tempX = -t2X * integralX(-1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r1, tempX.real, indx0, indx1, a1p, ccharge, a3m, bcharge)
                     #eta1 = -1
@@ -641,7 +643,7 @@ cdef class ApproachRTD(Approach):
                             t2D = t1 * Tba[r1, a3p, a2p] * Tba[r0, a3p, a0].conjugate()
                             E3 = E[a3p] - E[a0]
                             if cabs(t2D) > t_cutoff3:
-                                ImGamma = fabs(t2D.imag) > t_cutoff3
+                                ImGamma = fabs(t2D.imag) > t_cutoff4*cabs(t2D)
                                 tempD = t2D * integralD(1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r0, tempD.real, indx0, indx1, a3p, ccharge, a0, bcharge)
                         for k in range(acount):
@@ -649,7 +651,7 @@ cdef class ApproachRTD(Approach):
                             t2X = t1 * Tba[r0, a2p, a3p].conjugate() * Tba[r1, a0, a3p]
                             E3 = E[a3p] - E[a0]
                             if cabs(t2X) > t_cutoff3:
-                                ImGamma = fabs(t2X.imag) > t_cutoff3
+                                ImGamma = fabs(t2X.imag) > t_cutoff4*cabs(t2X)
                                 tempX = -t2X * integralX(1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r1, tempX.real, indx0, indx1, a3p, acharge, a0, bcharge)
                         #p2 = -1
@@ -658,7 +660,7 @@ cdef class ApproachRTD(Approach):
                             t2D = t1 * Tba[r1, a0, a3m] * Tba[r0, a2p, a3m].conjugate()
                             E3 = E[a2p] - E[a3m]
                             if cabs(t2D) > t_cutoff3:
-                                ImGamma = fabs(t2D.imag) > t_cutoff3
+                                ImGamma = fabs(t2D.imag) > t_cutoff4*cabs(t2D)
                                 tempD = t2D * integralD(1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r0, tempD.real, indx0, indx1, a2p, bcharge, a3m, acharge)
                         for k in range(ccount):
@@ -666,7 +668,7 @@ cdef class ApproachRTD(Approach):
                             t2X = t1 * Tba[r0, a3m, a0].conjugate() * Tba[r1, a3m, a2p]
                             E3 = E[a2p] - E[a3m]
                             if cabs(t2X) > t_cutoff3:
-                                ImGamma = fabs(t2X.imag) > t_cutoff3
+                                ImGamma = fabs(t2X.imag) > t_cutoff4*cabs(t2X)
                                 tempX = -t2X * integralX(1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r1, tempX.real, indx0, indx1, a2p, bcharge, a3m, ccharge)
                     #p1 = -1
@@ -682,7 +684,7 @@ cdef class ApproachRTD(Approach):
                             t2D = t1 * Tba[r1, a3p , a1p] * Tba[r0, a3p, a2m].conjugate()
                             E3 = E[a3p] - E[a2m]
                             if cabs(t2D) > t_cutoff3:
-                                ImGamma = fabs(t2D.imag) > t_cutoff3
+                                ImGamma = fabs(t2D.imag) > t_cutoff4*cabs(t2D)
                                 tempD = t2D * integralD(-1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r0, tempD.real, indx0, indx1, a3p, dcharge, a2m, ccharge)
                         for k in range(bcount):
@@ -690,7 +692,7 @@ cdef class ApproachRTD(Approach):
                             t2X = t1 * Tba[r0, a1p, a3p].conjugate() * Tba[r1, a2m, a3p]
                             E3 = E[a3p] - E[a2m]
                             if cabs(t2X) > t_cutoff3:
-                                ImGamma = fabs(t2X.imag) > t_cutoff3
+                                ImGamma = fabs(t2X.imag) > t_cutoff4*cabs(t2X)
                                 tempX = -t2X * integralX(-1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r1, tempX.real, indx0, indx1, a3p, bcharge, a2m, ccharge)
                         #p2 = -1
@@ -699,7 +701,7 @@ cdef class ApproachRTD(Approach):
                             t2D = t1 * Tba[r1, a2m, a3m] * Tba[r0, a1p, a3m].conjugate()
                             E3 = E[a1p] - E[a3m]
                             if cabs(t2D) > t_cutoff3:
-                                ImGamma = fabs(t2D.imag) > t_cutoff3
+                                ImGamma = fabs(t2D.imag) > t_cutoff4*cabs(t2D)
                                 tempD = t2D * integralD(-1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r0, tempD.real, indx0, indx1, a1p, ccharge, a3m, bcharge)
                         for k in range(dcount):
@@ -707,7 +709,7 @@ cdef class ApproachRTD(Approach):
                             t2X = t1 * Tba[r0, a3m, a2m].conjugate() * Tba[r1, a3m, a1p]
                             E3 = E[a1p] - E[a3m]
                             if cabs(t2X) > t_cutoff3:
-                                ImGamma = fabs(t2X.imag) > t_cutoff3
+                                ImGamma = fabs(t2X.imag) > t_cutoff4*cabs(t2X)
                                 tempX = -t2X * integralX(-1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r1, tempX.real, indx0, indx1, a1p, ccharge, a3m, dcharge)
 
-- 
2.43.0


From ef561012ff7d100e2f18d86ac5d49bd90086a4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:55 +0000
Subject: [PATCH 23/43] fix: Coulomb matrix elements given as an array are
 accepted

---
 qmeq/qdot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qmeq/qdot.py b/qmeq/qdot.py
index 5b8044a..cbcbd72 100644
--- a/qmeq/qdot.py
+++ b/qmeq/qdot.py
@@ -651,6 +651,9 @@ def make_coulomb_dict(qd, coulomb, add_zeros=False):
         coulomb_dict = {}
         for j0 in coulomb:
             m, n, k, l, U = j0
+            if isinstance(coulomb, np.ndarray):
+                # all entries of an array have the type of the matrix elements
+                m, n, k, l = [int(np.real(ind)) for ind in (m, n, k, l)]
             if U != 0 or add_zeros:
                 coulomb_dict.update({(m, n, k, l): U})
     else:
-- 
2.43.0


From 1a7e9a7158e46b2feb7089561ee1170b62effd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:46 +0000
Subject: [PATCH 24/43] fix: mfreeq, solmethod and make_kern_copy take effect
 whenever they are set

Changing mfreeq after a solve left the arrays of the other mode in place and
the automatically chosen solution method of the other mode, solmethod raised
before the first solve of the compiled approaches, make_kern_copy was ignored
after the first solve, and an unavailable solmethod failed (Python) or passed
a rectangular kernel to the square solver (compiled).
---
 qmeq/approach/aprclass.py    | 15 ++++++++++++---
 qmeq/approach/c_aprclass.pyx |  2 ++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index 98a6ddd..6cd93f2 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -66,13 +66,17 @@ class Approach(object):
     @solmethod.setter
     def solmethod(self, value):
         self.funcp.solmethod = value
-        self.prepare_solver()
+        if self.is_prepared:
+            self.prepare_solver()
 
     @property
     def mfreeq(self):
         return self.funcp.mfreeq
     @mfreeq.setter
     def mfreeq(self, value):
+        if value == self.funcp.mfreeq:
+            return
+        self.is_prepared = False
         self.funcp.mfreeq = value
 
     @property
@@ -197,14 +201,19 @@ class Approach(object):
         solmethod = self.funcp.solmethod
         # Determine the proper solution method
         if self.funcp.mfreeq:
-            solmethod = solmethod if solmethod is not None else 'krylov'
+            # Methods for the full kernel are not available in the matrix free case
+            solmethod = solmethod if solmethod not in {None, 'solve', 'lsqr'} else 'krylov'
             self.funcp.solmethod = solmethod
             return
 
         symq = self.funcp.symq
+        if solmethod not in {None, 'solve', 'lsqr'}:
+            print("WARNING: solmethod=" + str(solmethod) + " is not available for mfreeq=False. " +
+                  "Using the default method.")
+            solmethod = None
         if solmethod is None:
             solmethod = 'solve' if symq else 'lsqr'
-        if not symq and solmethod != 'lsqr' and solmethod != 'lsmr':
+        if not symq and solmethod != 'lsqr':
             print("WARNING: Using solmethod=lsqr, because the kernel is not symmetric, symq=False.")
             solmethod = 'lsqr'
 
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index 7274314..7898dba 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -86,6 +86,8 @@ cdef class Approach:
         return self._make_kern_copy
     @make_kern_copy.setter
     def make_kern_copy(self, value):
+        if value != self._make_kern_copy:
+            self.is_prepared = False
         self._make_kern_copy = value
 
     #endregion Properties
-- 
2.43.0


From 6266ddd9d0c29aff7ff6992d5274607b49dcae63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:46 +0000
Subject: [PATCH 25/43] fix: matrix-free currents from the solution and not
 from the last trial vector

---
 qmeq/approach/aprclass.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index 6cd93f2..30a4bf2 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -356,6 +356,8 @@ class Approach(object):
             self.sol0 = optimize.root(self.generate_vec, phi0_init, method=solmethod)
             self.phi0[:] = self.sol0.x
             self.success = self.sol0.success
+            # The kernel handler still refers to the last trial vector
+            self.kernel_handler.set_phi0(self.phi0)
         except Exception as exept:
             self.funcp.print_error(exept)
             self.phi0.fill(0.0)
-- 
2.43.0


From faae77b13b2ae88b7d3ba3c615d21bb03b4fa5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:48 +0000
Subject: [PATCH 26/43] fix: a normalisation row that is not a population
 equation is reported

Negative or too large values of norm_row wrote outside the kernel in the
compiled approaches, and rows of coherences gave a singular system that was
solved with success=True.
---
 qmeq/approach/aprclass.py    | 12 ++++++++++++
 qmeq/approach/c_aprclass.pyx |  7 +++++++
 2 files changed, 19 insertions(+)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index 30a4bf2..b45bf54 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -304,6 +304,16 @@ class Approach(object):
 
     #region Solution
 
+    def check_norm_row(self):
+        """Checks that norm_row is an equation for a population. All the other equations
+        are independent and cannot be replaced by the normalisation condition."""
+        if not (self.funcp.symq or self.funcp.mfreeq):
+            return
+        norm_row, size = self.funcp.norm_row, len(self.phi0)
+        if not -size <= norm_row < size or norm_row % size >= self.si.npauli:
+            raise ValueError("norm_row=" + str(norm_row) + " is not an equation for a population. " +
+                             "There are " + str(self.si.npauli) + " populations.")
+
     def solve_kern(self):
         """Finds the stationary state using least squares or using LU decomposition."""
         solmethod = self.funcp.solmethod
@@ -394,6 +404,7 @@ class Approach(object):
         #
         if masterq:
             self.prepare_kern()
+            self.check_norm_row()
             self.generate_fct()
             if not self.funcp.mfreeq:
                 self.generate_kern()
@@ -570,6 +581,7 @@ class ApproachBase2vN(Approach):
     def iteration(self):
         """Makes one iteration for solution of the 2vN integral equation."""
         self.prepare_kern()
+        self.check_norm_row()
 
         self.iterate()
         self.phi1k += self.phi1k_delta
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index 7898dba..c07aec4 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -212,6 +212,8 @@ cdef class Approach:
 
     cpdef generate_vec(self, phi0):
         cdef long_t norm_row = self._norm_row
+        if norm_row < 0:
+            norm_row += self._dphi0_dt.shape[0]
 
         cdef KernelHandlerMatrixFree kh = self._kernel_handler
         kh.set_phi0(phi0)
@@ -239,6 +241,8 @@ cdef class Approach:
         cdef double_t [:] bvec = self._bvec
 
         cdef long_t norm_row = self._norm_row if self._symq else kern.shape[0] - 1
+        if norm_row < 0:
+            norm_row += kern.shape[0]
         kern[norm_row, :] = self._norm_vec
         bvec[norm_row] = 1
 
@@ -258,6 +262,9 @@ cdef class Approach:
             self._phi0[::1] = 0.0
             self._success = False
 
+    def check_norm_row(self):
+        ApproachPy.check_norm_row(self)
+
     def solve_matrix_free(self):
         ApproachPy.solve_matrix_free(self)
 
-- 
2.43.0


From 8c81322007594cef3dfb0ace5039842d004d22d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 27/43] fix: parameter arrays of the wrong type or size are
 converted or reported

The compiled approaches took views of the arrays when they were prepared:
mtype_leads=float, lists assigned to attributes, too short lists of lead or
bath parameters and more leads or baths through update_Tba0/update_Vbbp0 were
read outside of the arrays, and newly assigned arrays were ignored.
---
 qmeq/approach/aprclass.py    | 44 ++++++++++++++++++++++++++++++++++++
 qmeq/approach/base/RTD.py    |  6 +++++
 qmeq/approach/base/c_RTD.pyx |  5 ++++
 qmeq/approach/c_aprclass.pyx | 12 ++++++++++
 4 files changed, 67 insertions(+)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index b45bf54..ad142fc 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -124,6 +124,7 @@ class Approach(object):
         """Restart values of some variables."""
         self.is_prepared = False
         self.make_kern_copy = False
+        self.parameter_arrays = None
 
         self.kern, self.bvec, self.norm_vec = None, None, None
         self.sol0, self.phi0, self.phi1 = None, None, None
@@ -304,6 +305,33 @@ class Approach(object):
 
     #region Solution
 
+    def get_parameter_arrays(self):
+        """Returns a list of (object, attribute, shape, type) for the arrays used by the approach."""
+        nleads, nmany = self.si.nleads, self.si.nmany
+        return [(self.qd, 'Ea', (nmany,), doublenp),
+                (self.leads, 'Tba', (nleads, nmany, nmany), complexnp),
+                (self.leads, 'mulst', (nleads,), doublenp),
+                (self.leads, 'tlst', (nleads,), doublenp),
+                (self.leads, 'dlst', (nleads, 2), doublenp)]
+
+    def check_parameter_arrays(self):
+        """
+        Checks that there are parameters for every lead and every state, makes arrays of the
+        required type, and requests new preparation if an array was replaced after the last one.
+        """
+        arrays = []
+        for obj, name, shape, dtype in self.get_parameter_arrays():
+            array = np.require(getattr(obj, name), dtype, 'W')
+            if array.ndim != len(shape) or any(n < m for n, m in zip(array.shape, shape)):
+                raise ValueError(name + " has the shape " + str(array.shape) + " instead of " + str(shape) + ".")
+            if array is not getattr(obj, name):
+                setattr(obj, name, array)
+            arrays.append(array)
+
+        if self.parameter_arrays is None or any(a is not b for a, b in zip(arrays, self.parameter_arrays)):
+            self.is_prepared = False
+            self.parameter_arrays = arrays
+
     def check_norm_row(self):
         """Checks that norm_row is an equation for a population. All the other equations
         are independent and cannot be replaced by the normalisation condition."""
@@ -403,6 +431,7 @@ class Approach(object):
                 self.rotate()
         #
         if masterq:
+            self.check_parameter_arrays()
             self.prepare_kern()
             self.check_norm_row()
             self.generate_fct()
@@ -428,6 +457,20 @@ class ApproachElPh(Approach):
         self.w1fct, self.paulifct_elph = None, None
         self.tLbbp = None
 
+    def get_parameter_arrays(self):
+        nbaths, nmany = self.si.nbaths, self.si.nmany
+        return Approach.get_parameter_arrays(self) + [
+            (self.baths, 'Vbbp', (nbaths, nmany, nmany), complexnp),
+            (self.baths, 'tlst_ph', (nbaths,), doublenp),
+            (self.baths, 'dlst_ph', (nbaths, 2), doublenp)]
+
+    def check_parameter_arrays(self):
+        nbaths, bath_func = self.si.nbaths, self.baths.bath_func
+        if bath_func is not None and len(bath_func) < nbaths:
+            raise ValueError("bath_func has " + str(len(bath_func)) + " functions for " + str(nbaths) + " baths.")
+        self.si_elph.nbaths = nbaths
+        Approach.check_parameter_arrays(self)
+
     def rotate(self):
         self.leads.rotate(self.qd.vecslst)
         self.baths.rotate(self.qd.vecslst)
@@ -580,6 +623,7 @@ class ApproachBase2vN(Approach):
 
     def iteration(self):
         """Makes one iteration for solution of the 2vN integral equation."""
+        self.check_parameter_arrays()
         self.prepare_kern()
         self.check_norm_row()
 
diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index 829b748..0427d7b 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -6,6 +6,7 @@ import numpy as np
 import itertools
 
 from ...wrappers.mytypes import doublenp
+from ...wrappers.mytypes import complexnp
 
 from ...specfunc.specfunc import integralD
 from ...specfunc.specfunc import integralX
@@ -44,6 +45,11 @@ class ApproachPyRTD(Approach):
         self.ImWdn = None
         self.Lnn = None
 
+    def get_parameter_arrays(self):
+        si = self.si
+        return Approach.get_parameter_arrays(self) + [
+            (self.leads, 'tleads_array', (si.nleads, si.nsingle), complexnp)]
+
     def prepare_kernel_handler(self):
         self.kernel_handler = KernelHandlerRTD(self.si)
 
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index ffee6f1..3fed705 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -62,6 +62,11 @@ cdef class ApproachRTD(Approach):
         return self._kernel_handler.npauli
 
 
+    def get_parameter_arrays(self):
+        si = self.si
+        return Approach.get_parameter_arrays(self) + [
+            (self.leads, 'tleads_array', (si.nleads, si.nsingle), complexnp)]
+
     def prepare_kernel_handler(self):
         self.kernel_handler = KernelHandlerRTD(self.si, self.no_coherences)
         self._kernel_handler = self.kernel_handler
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index c07aec4..384d080 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -262,6 +262,12 @@ cdef class Approach:
             self._phi0[::1] = 0.0
             self._success = False
 
+    def get_parameter_arrays(self):
+        return ApproachPy.get_parameter_arrays(self)
+
+    def check_parameter_arrays(self):
+        ApproachPy.check_parameter_arrays(self)
+
     def check_norm_row(self):
         ApproachPy.check_norm_row(self)
 
@@ -305,5 +311,11 @@ cdef class ApproachElPh(Approach):
     def restart(self):
         ApproachElPhPy.restart(self)
 
+    def get_parameter_arrays(self):
+        return ApproachElPhPy.get_parameter_arrays(self)
+
+    def check_parameter_arrays(self):
+        ApproachElPhPy.check_parameter_arrays(self)
+
     def rotate(self):
         ApproachElPhPy.rotate(self)
-- 
2.43.0


From 947aed5f2418961ae4fa80c39bc38669b54bbc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 28/43] fix: unsupported options and lead parameters are
 reported

mfreeq=True crashed the RTD approach (validate_mfreeq was never called) and
failed in 2vN, an initial vector of the wrong size was read out of bounds in
the matrix-free solution, an invalid itype set after construction, an unknown
symmetry and leads without a temperature silently gave other calculations, and
RTD used the itype of an approach it was switched from.
---
 qmeq/approach/aprclass.py    | 19 ++++++++++++++++++-
 qmeq/approach/base/RTD.py    |  3 ++-
 qmeq/approach/base/c_RTD.pyx |  3 ++-
 qmeq/approach/c_aprclass.pyx |  3 +++
 qmeq/builder/builder_base.py |  2 ++
 qmeq/builder/validation.py   |  8 ++++++--
 6 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index ad142fc..7b2c8d6 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -74,6 +74,8 @@ class Approach(object):
         return self.funcp.mfreeq
     @mfreeq.setter
     def mfreeq(self, value):
+        from ..builder.validation import validate_mfreeq
+        value = validate_mfreeq(self.kerntype, value)
         if value == self.funcp.mfreeq:
             return
         self.is_prepared = False
@@ -101,7 +103,8 @@ class Approach(object):
         return self.funcp.itype
     @itype.setter
     def itype(self, value):
-        self.funcp.itype = value
+        from ..builder.validation import validate_itype
+        self.funcp.itype = validate_itype(value, self.kerntype)
 
     #endregion Properties
 
@@ -118,6 +121,7 @@ class Approach(object):
         self.leads = builder.leads
         self.si = builder.si
         self.funcp = builder.funcp
+        self.mfreeq = self.funcp.mfreeq
         self.restart()
 
     def restart(self):
@@ -332,6 +336,12 @@ class Approach(object):
             self.is_prepared = False
             self.parameter_arrays = arrays
 
+    def check_lead_parameters(self):
+        """Checks that the Fermi functions of the leads are defined."""
+        nleads = self.si.nleads
+        if np.isnan(self.leads.mulst[:nleads]).any() or not (self.leads.tlst[:nleads] > 0).all():
+            raise ValueError("Chemical potentials have to be numbers and temperatures of the leads have to be positive.")
+
     def check_norm_row(self):
         """Checks that norm_row is an equation for a population. All the other equations
         are independent and cannot be replaced by the normalisation condition."""
@@ -390,6 +400,11 @@ class Approach(object):
                                      "This warning will not be shown again.")
             phi0_init = self.set_phi0_init()
 
+        phi0_init = np.array(phi0_init, dtype=self.dtype)
+        if phi0_init.shape != self.phi0.shape:
+            raise ValueError("phi0_init has the shape " + str(phi0_init.shape) +
+                             " instead of " + str(self.phi0.shape) + ".")
+
         try:
             self.sol0 = optimize.root(self.generate_vec, phi0_init, method=solmethod)
             self.phi0[:] = self.sol0.x
@@ -432,6 +447,7 @@ class Approach(object):
         #
         if masterq:
             self.check_parameter_arrays()
+            self.check_lead_parameters()
             self.prepare_kern()
             self.check_norm_row()
             self.generate_fct()
@@ -548,6 +564,7 @@ class ApproachBase2vN(Approach):
         self.funcp = builder.funcp
         self.fkp, self.fkm = None, None
         self.hfkp, self.hfkm = None, None
+        self.mfreeq = self.funcp.mfreeq
         self.restart()
         self.Ek_grid = np.zeros(1, dtype=doublenp)
         self.Ek_grid_ext = np.zeros(0, dtype=doublenp)
diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index 0427d7b..79a564c 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -267,7 +267,8 @@ class ApproachPyRTD(Approach):
         mulst, tlst, dlst = self.leads.mulst, self.leads.tlst, self.leads.dlst
         ncharge, nleads, statesdm = si.ncharge, si.nleads, si.statesdm
 
-        itype = self.funcp.itype
+        # The only type supported by the RTD approach
+        itype = 1
         paulifct = self.paulifct
         for charge in range(ncharge-1):
             ccharge = charge+1
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index 3fed705..1cf8015 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -307,7 +307,8 @@ cdef class ApproachRTD(Approach):
         tlst = self._tlst
         dlst = self._dlst
         nleads = kh.nleads
-        itype = self.funcp.itype
+        # The only type supported by the RTD approach
+        itype = 1
         paulifct = self._paulifct
         rez = self.rez
 
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index 384d080..eedb3d9 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -268,6 +268,9 @@ cdef class Approach:
     def check_parameter_arrays(self):
         ApproachPy.check_parameter_arrays(self)
 
+    def check_lead_parameters(self):
+        ApproachPy.check_lead_parameters(self)
+
     def check_norm_row(self):
         ApproachPy.check_norm_row(self)
 
diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index 4953887..bb34f45 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -25,6 +25,7 @@ from .various import use_all_states
 
 from .validation import validate_kerntype
 from .validation import validate_itype
+from .validation import validate_mfreeq
 from .validation import validate_indexing
 
 # -----------------------------------------------------------
@@ -113,6 +114,7 @@ class BuilderBase(object):
         data = self.data
         data.itype = validate_itype(data.itype, data.kerntype)
         data.kerntype = validate_kerntype(data.kerntype)
+        data.mfreeq = validate_mfreeq(data.kerntype, data.mfreeq)
         data.indexing, data.symmetry = validate_indexing(data.indexing,
                                           data.symmetry,
                                           data.kerntype)
diff --git a/qmeq/builder/validation.py b/qmeq/builder/validation.py
index 9135908..f1d4b53 100644
--- a/qmeq/builder/validation.py
+++ b/qmeq/builder/validation.py
@@ -32,12 +32,16 @@ def validate_itype_ph(itype_ph):
     return itype_ph
 
 def validate_mfreeq(kerntype, mfreeq):
-    if mfreeq and kerntype in {'RTD', 'pyRTD'}:
-        print("WARNING: mfreeq=True is not supported by the RTD approach. Using default mfreeq=False.")
+    if mfreeq and kerntype in ('RTD', 'pyRTD', '2vN', 'py2vN'):
+        print("WARNING: mfreeq=True is not supported by the " + kerntype + " approach. Using default mfreeq=False.")
         mfreeq = False
     return mfreeq
 
 def validate_indexing(indexing, symmetry, kerntype):
+    if symmetry not in {None, 'spin'}:
+        print("WARNING: The only allowed symmetry value is \'spin\'. Using default symmetry=None.")
+        symmetry = None
+
     if indexing is None:
         if symmetry == 'spin' and kerntype in {'pyRTD', 'RTD'}:
             print("WARNING: symmetry=\'spin\' is not supported by the RTD approach. " +
-- 
2.43.0


From f3d026a941438aa012a412534f738dc09c49e487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:42 +0000
Subject: [PATCH 29/43] fix: an Approach class is accepted as kerntype

---
 qmeq/builder/builder_base.py | 22 +++++++++++-----------
 qmeq/builder/validation.py   | 15 +++++++++++++++
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index bb34f45..11ac90f 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -7,7 +7,6 @@ from ..wrappers.mytypes import doublenp
 from ..wrappers.mytypes import complexnp
 from ..wrappers.mytypes import longnp
 
-from ..approach.aprclass import Approach
 from ..indexing import StateIndexingDM
 from ..indexing import StateIndexingDMc
 from ..qdot import QuantumDot
@@ -24,6 +23,7 @@ from .various import remove_states
 from .various import use_all_states
 
 from .validation import validate_kerntype
+from .validation import validate_approach_class
 from .validation import validate_itype
 from .validation import validate_mfreeq
 from .validation import validate_indexing
@@ -112,12 +112,14 @@ class BuilderBase(object):
 
     def _init_validate_data(self):
         data = self.data
-        data.itype = validate_itype(data.itype, data.kerntype)
         data.kerntype = validate_kerntype(data.kerntype)
-        data.mfreeq = validate_mfreeq(data.kerntype, data.mfreeq)
+        # For an approach class use the name of the approach
+        kerntype = getattr(data.kerntype, 'kerntype', data.kerntype)
+        data.itype = validate_itype(data.itype, kerntype)
+        data.mfreeq = validate_mfreeq(kerntype, data.mfreeq)
         data.indexing, data.symmetry = validate_indexing(data.indexing,
                                           data.symmetry,
-                                          data.kerntype)
+                                          kerntype)
 
     def _init_set_globals(self):
         self.globals = globals()
@@ -127,9 +129,8 @@ class BuilderBase(object):
         if isinstance(kerntype, str):
             approach_string = kerntype[0].capitalize() + kerntype[1:]
             self.Approach = self.globals['Approach'+approach_string]
-        elif issubclass(kerntype, Approach):
-            self.Approach = kerntype
-            self.kerntype = self.Approach.kerntype
+        else:
+            self.Approach = validate_approach_class(kerntype)
 
     def _init_create_setup(self):
         data = self.data
@@ -197,10 +198,9 @@ class BuilderBase(object):
                 self.change_si()
                 self.appr = self.Approach(self)
         else:
-            if issubclass(value, Approach):
-                self.Approach = value
-                self.change_si()
-                self.appr = self.Approach(self)
+            self.Approach = validate_approach_class(value)
+            self.change_si()
+            self.appr = self.Approach(self)
     kerntype = property(get_kerntype, set_kerntype)
 
     # indexing
diff --git a/qmeq/builder/validation.py b/qmeq/builder/validation.py
index f1d4b53..d0cb151 100644
--- a/qmeq/builder/validation.py
+++ b/qmeq/builder/validation.py
@@ -1,5 +1,14 @@
 """Module containing methods for validation of input parameters."""
 
+from ..approach.aprclass import Approach
+
+approach_classes = (Approach,)
+try:
+    from ..approach.c_aprclass import Approach as ApproachCompiled
+    approach_classes += (ApproachCompiled,)
+except ImportError:
+    pass
+
 
 def validate_kerntype(kerntype):
     if isinstance(kerntype, str):
@@ -13,6 +22,12 @@ def validate_kerntype(kerntype):
     return kerntype
 
 
+def validate_approach_class(approach):
+    if not (isinstance(approach, type) and issubclass(approach, approach_classes)):
+        raise TypeError("kerntype has to be a string or an Approach class, and not " + repr(approach) + ".")
+    return approach
+
+
 def validate_itype(itype, kerntype):
     if kerntype not in ('RTD', 'pyRTD'):
         if itype not in {0, 1, 2, 3}:
-- 
2.43.0


From c5edc783134d2a022eeb9f1eeab1a3a725c69a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 30/43] fix: exceptions raised by phonon bath functions are not
 ignored

---
 qmeq/approach/base/c_RTD.pyx      |  2 +-
 qmeq/approach/base/c_lindblad.pyx |  2 +-
 qmeq/approach/base/c_neumann1.pyx |  2 +-
 qmeq/approach/base/c_pauli.pyx    |  2 +-
 qmeq/approach/base/c_redfield.pyx |  2 +-
 qmeq/approach/c_aprclass.pxd      |  2 +-
 qmeq/approach/c_aprclass.pyx      |  2 +-
 qmeq/approach/elph/c_lindblad.pyx |  2 +-
 qmeq/approach/elph/c_neumann1.pyx |  2 +-
 qmeq/approach/elph/c_pauli.pyx    |  2 +-
 qmeq/approach/elph/c_redfield.pyx |  2 +-
 qmeq/specfunc/c_specfunc_elph.pxd | 10 +++++-----
 qmeq/specfunc/c_specfunc_elph.pyx | 10 +++++-----
 13 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index 1cf8015..2a39ecd 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -291,7 +291,7 @@ cdef class ApproachRTD(Approach):
                       ' particle state is connected to more than one lead.')
                 self.nsingle_warning_printed = True
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         cdef int_t itype
         cdef long_t c, b, bcharge, cb, l, nleads
         cdef double_t Ecb, xcb
diff --git a/qmeq/approach/base/c_lindblad.pyx b/qmeq/approach/base/c_lindblad.pyx
index 8da6744..07c72c9 100644
--- a/qmeq/approach/base/c_lindblad.pyx
+++ b/qmeq/approach/base/c_lindblad.pyx
@@ -48,7 +48,7 @@ cdef class ApproachLindblad(Approach):
         Approach.clean_arrays(self)
         self._tLba[::1] = 0.0
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         cdef complex_t [:, :, :] Tba = self._Tba
         cdef double_t [:] E = self._Ea
         cdef double_t [:] mulst = self._mulst
diff --git a/qmeq/approach/base/c_neumann1.pyx b/qmeq/approach/base/c_neumann1.pyx
index 67e8ee5..d653db5 100644
--- a/qmeq/approach/base/c_neumann1.pyx
+++ b/qmeq/approach/base/c_neumann1.pyx
@@ -52,7 +52,7 @@ cdef class Approach1vN(Approach):
         self._phi1fct_energy[::1] = 0.0
         self._phi1[::1] = 0.0
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         cdef double_t [:] E = self._Ea
         cdef double_t [:] mulst = self._mulst
         cdef double_t [:] tlst = self._tlst
diff --git a/qmeq/approach/base/c_pauli.pyx b/qmeq/approach/base/c_pauli.pyx
index 294c936..ca63b8c 100644
--- a/qmeq/approach/base/c_pauli.pyx
+++ b/qmeq/approach/base/c_pauli.pyx
@@ -49,7 +49,7 @@ cdef class ApproachPauli(Approach):
         Approach.clean_arrays(self)
         self._paulifct[::1] = 0.0
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         cdef double_t [:] E = self._Ea
         cdef complex_t [:, :, :] Tba = self._Tba
         cdef double_t [:] mulst = self._mulst
diff --git a/qmeq/approach/base/c_redfield.pyx b/qmeq/approach/base/c_redfield.pyx
index a459ee3..d50c7bc 100644
--- a/qmeq/approach/base/c_redfield.pyx
+++ b/qmeq/approach/base/c_redfield.pyx
@@ -40,7 +40,7 @@ cdef class ApproachRedfield(Approach):
     cdef void clean_arrays(self):
         Approach1vN.clean_arrays(self)
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         Approach1vN.generate_fct(self)
 
     cdef void generate_coupling_terms(self,
diff --git a/qmeq/approach/c_aprclass.pxd b/qmeq/approach/c_aprclass.pxd
index 1cd4ba8..1007b96 100644
--- a/qmeq/approach/c_aprclass.pxd
+++ b/qmeq/approach/c_aprclass.pxd
@@ -49,7 +49,7 @@ cdef class Approach:
     cdef bool_t _symq
     cdef long_t _norm_row
 
-    cpdef void generate_fct(self)
+    cpdef void generate_fct(self) except *
     cpdef void generate_kern(self)
     cpdef void generate_current(self)
     cpdef generate_vec(self, phi0)
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index eedb3d9..ee7216e 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -186,7 +186,7 @@ cdef class Approach:
                 bb = kh.get_ind_dm0(b, b, bcharge)
                 norm_vec[bb] += 1
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         pass
 
     cpdef void generate_kern(self):
diff --git a/qmeq/approach/elph/c_lindblad.pyx b/qmeq/approach/elph/c_lindblad.pyx
index 4779640..6307a86 100644
--- a/qmeq/approach/elph/c_lindblad.pyx
+++ b/qmeq/approach/elph/c_lindblad.pyx
@@ -57,7 +57,7 @@ cdef class ApproachLindblad(ApproachElPh):
         self._tLbbp[::1] = 0.0
         self._func_pauli_at_zero[::1] = 0.0
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         ApproachLindbladBase.generate_fct(self)
 
         cdef complex_t [:, :, :] Vbbp = self._Vbbp
diff --git a/qmeq/approach/elph/c_neumann1.pyx b/qmeq/approach/elph/c_neumann1.pyx
index 001d06d..06f310c 100644
--- a/qmeq/approach/elph/c_neumann1.pyx
+++ b/qmeq/approach/elph/c_neumann1.pyx
@@ -53,7 +53,7 @@ cdef class Approach1vN(ApproachElPh):
         self._w1fct[::1] = 0.0
         self._func_1vN_elph_at_zero[::1] = 0.0
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         Approach1vNBase.generate_fct(self)
 
         cdef double_t [:] E = self._Ea
diff --git a/qmeq/approach/elph/c_pauli.pyx b/qmeq/approach/elph/c_pauli.pyx
index dd3ab55..5e9d445 100644
--- a/qmeq/approach/elph/c_pauli.pyx
+++ b/qmeq/approach/elph/c_pauli.pyx
@@ -54,7 +54,7 @@ cdef class ApproachPauli(ApproachElPh):
         ApproachPauliBase.clean_arrays(self)
         self._paulifct_elph[::1] = 0.0
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         ApproachPauliBase.generate_fct(self)
 
         cdef double_t [:] E = self._Ea
diff --git a/qmeq/approach/elph/c_redfield.pyx b/qmeq/approach/elph/c_redfield.pyx
index 66832d2..be85a19 100644
--- a/qmeq/approach/elph/c_redfield.pyx
+++ b/qmeq/approach/elph/c_redfield.pyx
@@ -44,7 +44,7 @@ cdef class ApproachRedfield(ApproachElPh):
     cdef void clean_arrays(self):
         Approach1vN.clean_arrays(self)
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         Approach1vN.generate_fct(self)
 
     cdef void generate_coupling_terms(self,
diff --git a/qmeq/specfunc/c_specfunc_elph.pxd b/qmeq/specfunc/c_specfunc_elph.pxd
index 43a20cb..6ad7770 100644
--- a/qmeq/specfunc/c_specfunc_elph.pxd
+++ b/qmeq/specfunc/c_specfunc_elph.pxd
@@ -9,7 +9,7 @@ from ..wrappers.c_mytypes cimport complex_t
 
 
 cdef class Func:
-    cpdef double_t eval(self, double_t x)
+    cpdef double_t eval(self, double_t x) except? -1
 
 
 cdef class FuncBose:
@@ -25,7 +25,7 @@ cdef class FuncPauliElPh:
     cdef bath_func
     cdef bool_t bath_func_q
     cdef public double_t val
-    cpdef void eval(self, double_t Ebbp, int_t l)
+    cpdef void eval(self, double_t Ebbp, int_t l) except *
 
 
 cdef class Func1vNElPh:
@@ -39,6 +39,6 @@ cdef class Func1vNElPh:
     cdef bath_func
     cdef bool_t bath_func_q
     cdef public complex_t val0, val1
-    cpdef double_t iplus(self, double_t x)
-    cpdef double_t iminus(self, double_t x)
-    cpdef void eval(self, double_t Ebbp, int_t l)
+    cpdef double_t iplus(self, double_t x) except? -1
+    cpdef double_t iminus(self, double_t x) except? -1
+    cpdef void eval(self, double_t Ebbp, int_t l) except *
diff --git a/qmeq/specfunc/c_specfunc_elph.pyx b/qmeq/specfunc/c_specfunc_elph.pyx
index 7e9c586..e0ad8aa 100644
--- a/qmeq/specfunc/c_specfunc_elph.pyx
+++ b/qmeq/specfunc/c_specfunc_elph.pyx
@@ -15,7 +15,7 @@ from libc.math cimport log
 
 
 cdef class Func:
-    cpdef double_t eval(self, double_t x):
+    cpdef double_t eval(self, double_t x) except? -1:
         return 1.
 
 
@@ -42,7 +42,7 @@ cdef class FuncPauliElPh:
         self.bose, self.dos = FuncBose(), Func()
         self.val = 0.
 
-    cpdef void eval(self, double_t Ebbp, int_t l):
+    cpdef void eval(self, double_t Ebbp, int_t l) except *:
         cdef double_t T, omm, omp
         cdef double_t alpha, Rm, Rp
         T, omm, omp = self.tlst[l], self.dlst[l,0], self.dlst[l,1]
@@ -80,13 +80,13 @@ cdef class Func1vNElPh:
         self.bose, self.dos = FuncBose(), Func()
         self.val0, self.val1 = 0., 0.
 
-    cpdef double_t iplus(self, double_t x):
+    cpdef double_t iplus(self, double_t x) except? -1:
         return +self.dos.eval(self.T*x)*self.bose.eval(x)
 
-    cpdef double_t iminus(self, double_t x):
+    cpdef double_t iminus(self, double_t x) except? -1:
         return -self.dos.eval(self.T*x)*(1.+self.bose.eval(x))
 
-    cpdef void eval(self, double_t Ebbp, int_t l):
+    cpdef void eval(self, double_t Ebbp, int_t l) except *:
         cdef double_t T, omm, omp
         cdef double_t alpha, Rm, Rp, err
         cdef complex_t val0, val1
-- 
2.43.0


From 083f62a21d33d02c8d78fe57ab993951f5deacd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:27 +0000
Subject: [PATCH 31/43] fix: running out of memory raises an exception in the
 compiled approaches

---
 qmeq/approach/base/c_RTD.pyx      | 2 +-
 qmeq/approach/base/c_lindblad.pyx | 2 +-
 qmeq/approach/base/c_neumann1.pyx | 2 +-
 qmeq/approach/base/c_pauli.pyx    | 2 +-
 qmeq/approach/base/c_redfield.pyx | 2 +-
 qmeq/approach/c_aprclass.pxd      | 4 ++--
 qmeq/approach/c_aprclass.pyx      | 6 +++---
 qmeq/approach/elph/c_lindblad.pyx | 2 +-
 qmeq/approach/elph/c_neumann1.pyx | 2 +-
 qmeq/approach/elph/c_pauli.pyx    | 2 +-
 qmeq/approach/elph/c_redfield.pyx | 2 +-
 qmeq/wrappers/c_lapack.pxd        | 4 ++--
 qmeq/wrappers/c_lapack.pyx        | 4 ++--
 13 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index 2a39ecd..479c5e5 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -76,7 +76,7 @@ cdef class ApproachRTD(Approach):
         ApproachPyRTD.restart(self)
 
 
-    cdef void prepare_arrays(self):
+    cdef void prepare_arrays(self) except *:
         ApproachPy.prepare_arrays(self)
         cdef KernelHandlerRTD kh = self._kernel_handler
 
diff --git a/qmeq/approach/base/c_lindblad.pyx b/qmeq/approach/base/c_lindblad.pyx
index 07c72c9..92b2a77 100644
--- a/qmeq/approach/base/c_lindblad.pyx
+++ b/qmeq/approach/base/c_lindblad.pyx
@@ -36,7 +36,7 @@ cdef class ApproachLindblad(Approach):
 
     kerntype = 'Lindblad'
 
-    cdef void prepare_arrays(self):
+    cdef void prepare_arrays(self) except *:
         Approach.prepare_arrays(self)
         Tba, mtype = self.leads.Tba, self.leads.mtype
         self.tLba = np.zeros(Tba.shape, dtype=mtype)
diff --git a/qmeq/approach/base/c_neumann1.pyx b/qmeq/approach/base/c_neumann1.pyx
index d653db5..6d750f8 100644
--- a/qmeq/approach/base/c_neumann1.pyx
+++ b/qmeq/approach/base/c_neumann1.pyx
@@ -34,7 +34,7 @@ cdef class Approach1vN(Approach):
 
     kerntype = '1vN'
 
-    cdef void prepare_arrays(self):
+    cdef void prepare_arrays(self) except *:
         Approach.prepare_arrays(self)
         nleads, ndm1 = self.si.nleads, self.si.ndm1
         self.phi1fct = np.zeros((nleads, ndm1, 2), dtype=complexnp)
diff --git a/qmeq/approach/base/c_pauli.pyx b/qmeq/approach/base/c_pauli.pyx
index ca63b8c..97a4af5 100644
--- a/qmeq/approach/base/c_pauli.pyx
+++ b/qmeq/approach/base/c_pauli.pyx
@@ -37,7 +37,7 @@ cdef class ApproachPauli(Approach):
     def get_kern_size(self):
         return self.si.npauli
 
-    cdef void prepare_arrays(self):
+    cdef void prepare_arrays(self) except *:
         Approach.prepare_arrays(self)
         nleads, ndm1 = self.si.nleads, self.si.ndm1
         self.paulifct = np.zeros((nleads, ndm1, 2), dtype=doublenp)
diff --git a/qmeq/approach/base/c_redfield.pyx b/qmeq/approach/base/c_redfield.pyx
index d50c7bc..638ae3d 100644
--- a/qmeq/approach/base/c_redfield.pyx
+++ b/qmeq/approach/base/c_redfield.pyx
@@ -34,7 +34,7 @@ cdef class ApproachRedfield(Approach):
 
     kerntype = 'Redfield'
 
-    cdef void prepare_arrays(self):
+    cdef void prepare_arrays(self) except *:
         Approach1vN.prepare_arrays(self)
 
     cdef void clean_arrays(self):
diff --git a/qmeq/approach/c_aprclass.pxd b/qmeq/approach/c_aprclass.pxd
index 1007b96..d6c1078 100644
--- a/qmeq/approach/c_aprclass.pxd
+++ b/qmeq/approach/c_aprclass.pxd
@@ -58,9 +58,9 @@ cdef class Approach:
                 long_t b, long_t bp, long_t bcharge,
                 KernelHandler kh) nogil
 
-    cpdef void prepare_kern(self)
+    cpdef void prepare_kern(self) except *
 
-    cdef void prepare_arrays(self)
+    cdef void prepare_arrays(self) except *
 
     cdef void clean_arrays(self)
 
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index ee7216e..ae6b62f 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -103,7 +103,7 @@ cdef class Approach:
     def get_kern_size(self):
         return ApproachPy.get_kern_size(self)
 
-    cpdef void prepare_kern(self):
+    cpdef void prepare_kern(self) except *:
         if self.is_prepared and not self.si.states_changed:
             self.clean_arrays()
             return
@@ -130,7 +130,7 @@ cdef class Approach:
         self._energy_current[::1] = 0.0
         self._heat_current[::1] = 0.0
 
-    cdef void prepare_arrays(self):
+    cdef void prepare_arrays(self) except *:
         ApproachPy.prepare_arrays(self)
 
         self._kern = self.kern
@@ -303,7 +303,7 @@ cdef class ApproachElPh(Approach):
 
         self._kernel_handler.elph = self.kernel_handler_elph
 
-    cdef void prepare_arrays(self):
+    cdef void prepare_arrays(self) except *:
         self._tlst_ph = self.baths.tlst_ph
         self._dlst_ph = self.baths.dlst_ph
         self._Vbbp = self.baths.Vbbp
diff --git a/qmeq/approach/elph/c_lindblad.pyx b/qmeq/approach/elph/c_lindblad.pyx
index 6307a86..deaacc9 100644
--- a/qmeq/approach/elph/c_lindblad.pyx
+++ b/qmeq/approach/elph/c_lindblad.pyx
@@ -39,7 +39,7 @@ cdef class ApproachLindblad(ApproachElPh):
 
     kerntype = 'Lindblad'
 
-    cdef void prepare_arrays(self):
+    cdef void prepare_arrays(self) except *:
         ApproachElPh.prepare_arrays(self)
         ApproachLindbladBase.prepare_arrays(self)
 
diff --git a/qmeq/approach/elph/c_neumann1.pyx b/qmeq/approach/elph/c_neumann1.pyx
index 06f310c..c302b37 100644
--- a/qmeq/approach/elph/c_neumann1.pyx
+++ b/qmeq/approach/elph/c_neumann1.pyx
@@ -36,7 +36,7 @@ cdef class Approach1vN(ApproachElPh):
 
     kerntype = '1vN'
 
-    cdef void prepare_arrays(self):
+    cdef void prepare_arrays(self) except *:
         ApproachElPh.prepare_arrays(self)
         Approach1vNBase.prepare_arrays(self)
 
diff --git a/qmeq/approach/elph/c_pauli.pyx b/qmeq/approach/elph/c_pauli.pyx
index 5e9d445..484e542 100644
--- a/qmeq/approach/elph/c_pauli.pyx
+++ b/qmeq/approach/elph/c_pauli.pyx
@@ -40,7 +40,7 @@ cdef class ApproachPauli(ApproachElPh):
     def get_kern_size(self):
         return self.si.npauli
 
-    cdef void prepare_arrays(self):
+    cdef void prepare_arrays(self) except *:
         ApproachElPh.prepare_arrays(self)
         ApproachPauliBase.prepare_arrays(self)
 
diff --git a/qmeq/approach/elph/c_redfield.pyx b/qmeq/approach/elph/c_redfield.pyx
index be85a19..6acc04b 100644
--- a/qmeq/approach/elph/c_redfield.pyx
+++ b/qmeq/approach/elph/c_redfield.pyx
@@ -38,7 +38,7 @@ cdef class ApproachRedfield(ApproachElPh):
 
     kerntype = 'Redfield'
 
-    cdef void prepare_arrays(self):
+    cdef void prepare_arrays(self) except *:
         Approach1vN.prepare_arrays(self)
 
     cdef void clean_arrays(self):
diff --git a/qmeq/wrappers/c_lapack.pxd b/qmeq/wrappers/c_lapack.pxd
index 3bec92c..d7c9224 100644
--- a/qmeq/wrappers/c_lapack.pxd
+++ b/qmeq/wrappers/c_lapack.pxd
@@ -15,8 +15,8 @@ cdef class LapackSolver:
 
     cdef void solve(self)
 
-    cdef void determine_pointer_a(self, a, make_copy)
-    cdef void determine_pointer_b(self, b)
+    cdef void determine_pointer_a(self, a, make_copy) except *
+    cdef void determine_pointer_b(self, b) except *
     cdef void make_copy_of_a_double(self)
 
 
diff --git a/qmeq/wrappers/c_lapack.pyx b/qmeq/wrappers/c_lapack.pyx
index 0bac8c5..c8684c1 100644
--- a/qmeq/wrappers/c_lapack.pyx
+++ b/qmeq/wrappers/c_lapack.pyx
@@ -25,7 +25,7 @@ cdef class LapackSolver:
     cdef void solve(self):
         pass
 
-    cdef void determine_pointer_a(self, a, make_copy):
+    cdef void determine_pointer_a(self, a, make_copy) except *:
         self.make_copy = make_copy
         cdef double [:, :] a_matrix
 
@@ -38,7 +38,7 @@ cdef class LapackSolver:
 
         self.a_double_pointer = &a_matrix[0, 0]
 
-    cdef void determine_pointer_b(self, b):
+    cdef void determine_pointer_b(self, b) except *:
         cdef double [:] b_vector
         cdef double [:, :] b_matrix
 
-- 
2.43.0


From 22b5dd4e987c28678aa160805f77ec4cd31361ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 32/43] fix: results of an earlier solution are discarded when
 a solution raises an exception

---
 qmeq/approach/aprclass.py    | 84 +++++++++++++++++++++++-------------
 qmeq/approach/c_aprclass.pyx |  3 ++
 2 files changed, 56 insertions(+), 31 deletions(-)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index 7b2c8d6..42e14f7 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -424,6 +424,13 @@ class Approach(object):
     def rotate(self):
         self.leads.rotate(self.qd.vecslst)
 
+    def discard_results(self):
+        """Discards the results of the earlier solution, when there is no new one."""
+        self.success = False
+        for values in (self.phi0, self.phi1, self.current, self.energy_current, self.heat_current):
+            if values is not None:
+                values.fill(0.0)
+
     def solve(self, qdq=True, rotateq=True, masterq=True, currentq=True, *args, **kwargs):
         """
         Solves the master equation.
@@ -440,24 +447,29 @@ class Approach(object):
         currentq : bool
             Calculate the current.
         """
-        if qdq:
-            self.qd.diagonalise()
-            if rotateq:
-                self.rotate()
-        #
-        if masterq:
-            self.check_parameter_arrays()
-            self.check_lead_parameters()
-            self.prepare_kern()
-            self.check_norm_row()
-            self.generate_fct()
-            if not self.funcp.mfreeq:
-                self.generate_kern()
-                self.solve_kern()
-            else:
-                self.solve_matrix_free()
-            if currentq:
-                self.generate_current()
+        try:
+            if qdq:
+                self.qd.diagonalise()
+                if rotateq:
+                    self.rotate()
+            #
+            if masterq:
+                self.success = False
+                self.check_parameter_arrays()
+                self.check_lead_parameters()
+                self.prepare_kern()
+                self.check_norm_row()
+                self.generate_fct()
+                if not self.funcp.mfreeq:
+                    self.generate_kern()
+                    self.solve_kern()
+                else:
+                    self.solve_matrix_free()
+                if currentq:
+                    self.generate_current()
+        except Exception:
+            self.discard_results()
+            raise
 
     #endregion Solution
 
@@ -640,18 +652,24 @@ class ApproachBase2vN(Approach):
 
     def iteration(self):
         """Makes one iteration for solution of the 2vN integral equation."""
-        self.check_parameter_arrays()
-        self.prepare_kern()
-        self.check_norm_row()
+        self.success = False
+        try:
+            self.check_parameter_arrays()
+            self.check_lead_parameters()
+            self.prepare_kern()
+            self.check_norm_row()
 
-        self.iterate()
-        self.phi1k += self.phi1k_delta
-        self.determine_phi1_phi0()
-        self.niter += 1
+            self.iterate()
+            self.phi1k += self.phi1k_delta
+            self.determine_phi1_phi0()
+            self.niter += 1
 
-        self.generate_kern()
-        self.solve_kern()
-        self.generate_current()
+            self.generate_kern()
+            self.solve_kern()
+            self.generate_current()
+        except Exception:
+            self.discard_results()
+            raise
 
         self.iters.append(Iterations2vN(self))
 
@@ -682,9 +700,13 @@ class ApproachBase2vN(Approach):
         if restartq:
             self.restart()
         if qdq:
-            self.qd.diagonalise()
-            if rotateq:
-                self.leads.rotate(self.qd.vecslst)
+            try:
+                self.qd.diagonalise()
+                if rotateq:
+                    self.leads.rotate(self.qd.vecslst)
+            except Exception:
+                self.discard_results()
+                raise
 
         if masterq:
             if niter is None:
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index ae6b62f..2dc0d83 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -283,6 +283,9 @@ cdef class Approach:
     def rotate(self):
         ApproachPy.rotate(self)
 
+    def discard_results(self):
+        ApproachPy.discard_results(self)
+
     def solve(self, qdq=True, rotateq=True, masterq=True, currentq=True, *args, **kwargs):
         ApproachPy.solve(self, qdq, rotateq, masterq, currentq, args, kwargs)
 
-- 
2.43.0


From 57943d2935a5b565bf1a2a7d190b60a894cc1ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:08 +0000
Subject: [PATCH 33/43] fix: a solution which is not finite is reported as a
 failure

---
 qmeq/approach/aprclass.py    | 6 ++++++
 qmeq/approach/c_aprclass.pyx | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index 42e14f7..488ba0e 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -378,6 +378,9 @@ class Approach(object):
             elif solmethod == 'lsqr':
                 self.sol0 = np.linalg.lstsq(kern, bvec, rcond=-1)
 
+            if not np.isfinite(self.sol0[0]).all():
+                raise np.linalg.LinAlgError("The solution is not finite.")
+
             self.phi0[:] = self.sol0[0]
             self.success = True
         except Exception as exept:
@@ -407,6 +410,9 @@ class Approach(object):
 
         try:
             self.sol0 = optimize.root(self.generate_vec, phi0_init, method=solmethod)
+            if not np.isfinite(self.sol0.x).all():
+                raise np.linalg.LinAlgError("The solution is not finite.")
+
             self.phi0[:] = self.sol0.x
             self.success = self.sol0.success
             # The kernel handler still refers to the last trial vector
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index 2dc0d83..9712c96 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -255,10 +255,10 @@ cdef class Approach:
         cdef long_t phi0_size = self._phi0.shape[0]
         self._phi0[:] = self._bvec[0:phi0_size]
 
-        if self._solver.info == 0:
+        if self._solver.info == 0 and np.isfinite(self._phi0).all():
             self._success = True
         else:
-            self.funcp.print_error("Singular matrix.")
+            self.funcp.print_error("Singular matrix." if self._solver.info else "The solution is not finite.")
             self._phi0[::1] = 0.0
             self._success = False
 
-- 
2.43.0


From 79ab262b439a40dad3b682eec7b1349ac5bd621e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:51 +0000
Subject: [PATCH 34/43] fix: temperatures of phonon baths which are not
 positive are reported

---
 qmeq/approach/aprclass.py    | 6 ++++++
 qmeq/approach/c_aprclass.pyx | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index 488ba0e..4e85c7b 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -505,6 +505,12 @@ class ApproachElPh(Approach):
         self.si_elph.nbaths = nbaths
         Approach.check_parameter_arrays(self)
 
+    def check_lead_parameters(self):
+        """Checks that the Bose functions of the baths are defined."""
+        Approach.check_lead_parameters(self)
+        if not (self.baths.tlst_ph[:self.si.nbaths] > 0).all():
+            raise ValueError("Temperatures of the phonon baths have to be positive.")
+
     def rotate(self):
         self.leads.rotate(self.qd.vecslst)
         self.baths.rotate(self.qd.vecslst)
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index 9712c96..b671204 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -323,5 +323,8 @@ cdef class ApproachElPh(Approach):
     def check_parameter_arrays(self):
         ApproachElPhPy.check_parameter_arrays(self)
 
+    def check_lead_parameters(self):
+        ApproachElPhPy.check_lead_parameters(self)
+
     def rotate(self):
         ApproachElPhPy.rotate(self)
-- 
2.43.0


From 7ca9f24c7cfcc9bf2c73e5b04c07c94d5bea7d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:20 +0000
Subject: [PATCH 35/43] fix: invalid labels and types of parameters are
 reported before anything is changed

---
 qmeq/baths.py    |  9 +++++++--
 qmeq/indexing.py | 16 ++++++++++++++++
 qmeq/leadstun.py | 25 ++++++++++++++++++-------
 qmeq/qdot.py     | 17 +++++++++++++----
 4 files changed, 54 insertions(+), 13 deletions(-)

diff --git a/qmeq/baths.py b/qmeq/baths.py
index 448d34d..0785519 100644
--- a/qmeq/baths.py
+++ b/qmeq/baths.py
@@ -5,6 +5,7 @@ import itertools
 
 from .indexing import szrange
 from .indexing import sz_to_ind
+from .indexing import check_labels
 from .leadstun import construct_full_pmtr
 from .leadstun import make_array
 from .leadstun import make_array_dlst
@@ -150,7 +151,7 @@ def make_velph_dict(velph, si, add_zeros=False):
     """
     if isinstance(velph, dict):
         velph_dict = dict(velph)
-    elif isinstance(velph, list):
+    elif isinstance(velph, (list, tuple)):
         velph_dict = {}
         for j0 in velph:
             j1, j2, j3, vamp = j0
@@ -161,8 +162,10 @@ def make_velph_dict(velph, si, add_zeros=False):
         for j1, j2, j3 in itertools.product(range(nbaths), range(nsingle1), range(nsingle2)):
             if velph[j1, j2, j3] != 0 or add_zeros:
                 velph_dict.update({(j1, j2, j3): velph[j1, j2, j3]})
-    else:
+    elif velph is None:
         velph_dict = {}
+    else:
+        raise TypeError("velph has to be a dictionary, list, or array.")
     #
     if si.symmetry == 'spin':
         velph_dict_spin = dict(velph_dict)
@@ -250,6 +253,7 @@ class PhononBaths(object):
         if velph is not None:
             if updateq:
                 velph = make_velph_dict(velph, self.si)
+                check_labels(velph, (self.si.nbaths, self.si.nsingle, self.si.nsingle))
                 for j0 in velph:
                     if j0 in self.velph:
                         self.velph[j0] += velph[j0]
@@ -279,6 +283,7 @@ class PhononBaths(object):
         #
         if velph is not None:
             velph = make_velph_dict(velph, self.si, True)
+            check_labels(velph, (self.si.nbaths, self.si.nsingle, self.si.nsingle))
             # Find the differences from the previous electron-phonon coupling
             velph_add = {}
             for j0 in velph:
diff --git a/qmeq/indexing.py b/qmeq/indexing.py
index 70b9cd3..17e5196 100644
--- a/qmeq/indexing.py
+++ b/qmeq/indexing.py
@@ -417,6 +417,22 @@ def make_quantum_numbers(si):
     return qn_ind, ind_qn
 
 
+def check_labels(pmtr, nlabels):
+    """
+    Checks the labels of parameters before anything is changed.
+
+    Parameters
+    ----------
+    pmtr : dict
+        Dictionary containing parameters. The keys are tuples of labels of leads, baths, or states.
+    nlabels : tuple
+        The allowed number of values for every label in a key.
+    """
+    for labels in pmtr:
+        if len(labels) != len(nlabels) or not all(-n <= j < n for j, n in zip(labels, nlabels)):
+            raise IndexError("Labels " + str(labels) + " are not consistent with the sizes " + str(nlabels) + ".")
+
+
 class StateIndexing(object):
     """
     Class for indexing many-body states.
diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index 609c491..7b48180 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -9,6 +9,7 @@ from .indexing import szrange
 from .indexing import ssqrange
 from .indexing import sz_to_ind
 from .indexing import ssq_to_ind
+from .indexing import check_labels
 
 from .wrappers.mytypes import doublenp
 
@@ -269,7 +270,7 @@ def make_tleads_dict(tleads, si, add_zeros=False):
     """
     if isinstance(tleads, dict):
         tleads_dict = dict(tleads)
-    elif isinstance(tleads, list):
+    elif isinstance(tleads, (list, tuple)):
         tleads_dict = {}
         for j0 in tleads:
             j1, j2, tamp = j0
@@ -281,8 +282,10 @@ def make_tleads_dict(tleads, si, add_zeros=False):
             for j2 in range(nsingle):
                 if tleads[j1, j2] != 0 or add_zeros:
                     tleads_dict.update({(j1, j2): tleads[j1, j2]})
-    else:
+    elif tleads is None:
         return {}
+    else:
+        raise TypeError("tleads has to be a dictionary, list, or array.")
     #
     if si.symmetry == 'spin':
         tleads_dict_spin = dict(tleads_dict)
@@ -346,15 +349,19 @@ def make_array(lst_old, lst, si, npar=None, use_symmetry=True):
         if lst_old is None:
             lst_arr = np.zeros(npar, dtype=doublenp)
         else:
-            lst_arr = lst_old[0:npar]
+            lst_arr = np.array(lst_old[0:npar])
         for j1 in lst:
             lst_arr[j1] = lst[j1]
-    elif isinstance(lst, (list, np.ndarray)):
+    elif isinstance(lst, (list, tuple, np.ndarray)):
         lst_arr = np.array(lst, dtype=doublenp)
+        if lst_arr.ndim != 1 or len(lst_arr) < npar:
+            raise ValueError("Expected " + str(npar) + " values instead of " + str(lst) + ".")
     elif isinstance(lst, numbers.Number):
         lst_arr = lst*np.ones(npar, dtype=doublenp)
-    else:
+    elif lst is None:
         lst_arr = np.zeros(npar, dtype=doublenp)
+    else:
+        raise TypeError("Expected a number, dictionary, list, or array instead of " + str(lst) + ".")
     #
     if si.symmetry == 'spin' and use_symmetry:
         return np.concatenate((lst_arr, lst_arr))
@@ -368,7 +375,7 @@ def make_array_dlst(dlst_old, dlst, si, npar=None, use_symmetry=True):
     if dlst_old is None:
         lst_arr = np.zeros((npar, 2), dtype=doublenp)
     else:
-        lst_arr = dlst_old[0:npar]
+        lst_arr = np.array(dlst_old[0:npar])
     #
     if isinstance(dlst, numbers.Number):
         lst_arr[:, 0] = -dlst*np.ones(npar, dtype=doublenp)
@@ -379,12 +386,14 @@ def make_array_dlst(dlst_old, dlst, si, npar=None, use_symmetry=True):
                 lst_arr[j1] = (-dlst[j1], dlst[j1])
             else:
                 lst_arr[j1] = dlst[j1]
-    elif isinstance(dlst, (list, np.ndarray)):
+    elif isinstance(dlst, (list, tuple, np.ndarray)):
         if isinstance(dlst[0], numbers.Number):
             lst_arr[:, 0] = -np.array(dlst, dtype=doublenp)
             lst_arr[:, 1] = +np.array(dlst, dtype=doublenp)
         else:
             lst_arr = np.array(dlst, dtype=doublenp)
+    elif dlst is not None:
+        raise TypeError("Expected a number, dictionary, list, or array instead of " + str(dlst) + ".")
     #
     if si.symmetry == 'spin' and use_symmetry:
         return np.concatenate((lst_arr, lst_arr))
@@ -466,6 +475,7 @@ class LeadsTunneling(object):
         if tleads is not None:
             if updateq:
                 tleads = make_tleads_dict(tleads, self.si)
+                check_labels(tleads, (self.si.nleads, self.si.nsingle))
                 for j0 in tleads:
                     if j0 in self.tleads:
                         self.tleads[j0] += tleads[j0]
@@ -494,6 +504,7 @@ class LeadsTunneling(object):
         #
         if tleads is not None:
             tleads = make_tleads_dict(tleads, self.si, True)
+            check_labels(tleads, (self.si.nleads, self.si.nsingle))
             # Find the differences from the previous tunneling amplitudes
             tleads_add = {}
             for j0 in tleads:
diff --git a/qmeq/qdot.py b/qmeq/qdot.py
index cbcbd72..489b83b 100644
--- a/qmeq/qdot.py
+++ b/qmeq/qdot.py
@@ -8,6 +8,7 @@ from .indexing import szrange
 from .indexing import ssqrange
 from .indexing import sz_to_ind
 from .indexing import ssq_to_ind
+from .indexing import check_labels
 
 
 def construct_ham_coulomb(qd, coulomb, statelst, ham_=None):
@@ -596,7 +597,7 @@ def make_hsingle_dict(qd, hsingle, add_zeros=False):
     #
     if isinstance(hsingle, dict):
         hsingle_dict = dict(hsingle)
-    elif isinstance(hsingle, list):
+    elif isinstance(hsingle, (list, tuple)):
         hsingle_dict = {}
         for j0 in hsingle:
             j1, j2, hop = j0
@@ -609,8 +610,10 @@ def make_hsingle_dict(qd, hsingle, add_zeros=False):
             for j2 in range(j1 if herm_hs else 0, nsingle):
                 if hsingle[j1, j2] != 0 or add_zeros:
                     hsingle_dict.update({(j1, j2): hsingle[j1, j2]})
-    else:
+    elif hsingle is None:
         return {}
+    else:
+        raise TypeError("hsingle has to be a dictionary, list, or array.")
     #
     if si.symmetry == 'spin':
         hsingle_dict_spin = dict(hsingle_dict)
@@ -647,7 +650,7 @@ def make_coulomb_dict(qd, coulomb, add_zeros=False):
     #
     if isinstance(coulomb, dict):
         coulomb_dict = dict(coulomb)
-    elif isinstance(coulomb, (list, np.ndarray)):
+    elif isinstance(coulomb, (list, tuple, np.ndarray)):
         coulomb_dict = {}
         for j0 in coulomb:
             m, n, k, l, U = j0
@@ -656,8 +659,10 @@ def make_coulomb_dict(qd, coulomb, add_zeros=False):
                 m, n, k, l = [int(np.real(ind)) for ind in (m, n, k, l)]
             if U != 0 or add_zeros:
                 coulomb_dict.update({(m, n, k, l): U})
-    else:
+    elif coulomb is None:
         return {}
+    else:
+        raise TypeError("coulomb has to be a dictionary, list, or array.")
     #
     if si.symmetry == 'spin':
         coulomb_dict_spin = dict(coulomb_dict)
@@ -784,6 +789,8 @@ class QuantumDot(object):
         if updateq:
             hsingle = {} if hsingle is None else make_hsingle_dict(self, hsingle)
             coulomb = {} if coulomb is None else make_coulomb_dict(self, coulomb)
+            check_labels(hsingle, (self.si.nsingle,)*2)
+            check_labels(coulomb, (self.si.nsingle,)*4)
             for j0 in hsingle:
                 if j0 in self.hsingle:
                     self.hsingle[j0] += hsingle[j0]
@@ -843,6 +850,8 @@ class QuantumDot(object):
         """
         hsingle = {} if hsingle is None else make_hsingle_dict(self, hsingle, True)
         coulomb = {} if coulomb is None else make_coulomb_dict(self, coulomb, True)
+        check_labels(hsingle, (self.si.nsingle,)*2)
+        check_labels(coulomb, (self.si.nsingle,)*4)
         #
         hsingle_add = {}
         coulomb_add = {}
-- 
2.43.0


From b7a76a1946451f4ba989f8ebb0c6aeb69154d8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:08 +0000
Subject: [PATCH 36/43] fix: dband keeps its value when a new one is not
 accepted

---
 qmeq/builder/builder_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index 11ac90f..c1e3c1d 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -218,8 +218,8 @@ class BuilderBase(object):
         return self.funcp.dband
 
     def set_dband(self, value):
-        self.funcp.dband = value
         self.leads.change(dlst=value)
+        self.funcp.dband = value
     dband = property(get_dband, set_dband)
 
     def add(self, hsingle=None, coulomb=None, tleads=None, mulst=None, tlst=None, dlst=None):
-- 
2.43.0


From 27c817ef89adedd340ec19277173042215d077a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:44 +0000
Subject: [PATCH 37/43] fix: no currents of a trial vector when the matrix-free
 solution raises an exception

---
 qmeq/approach/aprclass.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index 4e85c7b..b587400 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -415,13 +415,14 @@ class Approach(object):
 
             self.phi0[:] = self.sol0.x
             self.success = self.sol0.success
-            # The kernel handler still refers to the last trial vector
-            self.kernel_handler.set_phi0(self.phi0)
         except Exception as exept:
             self.funcp.print_error(exept)
             self.phi0.fill(0.0)
             self.success = False
 
+        # The kernel handler still refers to the last trial vector
+        self.kernel_handler.set_phi0(self.phi0)
+
     def set_phi0_init(self):
         phi0_init = np.zeros(self.get_kern_size(), dtype=self.dtype)
         phi0_init[0] = 1.0
-- 
2.43.0


From 8a670249320103b3b6caa692de950a23fff06e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:04 +0000
Subject: [PATCH 38/43] fix: a rejected mfreeq has no effect in the compiled
 approaches

---
 qmeq/approach/c_aprclass.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index b671204..602ccef 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -49,7 +49,7 @@ cdef class Approach:
     @mfreeq.setter
     def mfreeq(self, value):
         ApproachPy.mfreeq.fset(self, value)
-        self._mfreeq = value
+        self._mfreeq = self.funcp.mfreeq
 
     @property
     def symq(self):
-- 
2.43.0


From 47fee1ccffdcf8884fcfbf173f376811da23b46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:37 +0000
Subject: [PATCH 39/43] fix: removed coherences are skipped in the off-diagonal
 corrections of RTD

---
 qmeq/approach/c_kernel_handler.pyx |  4 ++++
 qmeq/approach/kernel_handler.py    | 10 +++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/qmeq/approach/c_kernel_handler.pyx b/qmeq/approach/c_kernel_handler.pyx
index 0396d79..9a7e7df 100644
--- a/qmeq/approach/c_kernel_handler.pyx
+++ b/qmeq/approach/c_kernel_handler.pyx
@@ -272,6 +272,10 @@ cdef class KernelHandlerRTD(KernelHandler):
                     long_t bcharge, long_t a, long_t ap, long_t acharge, int_t mi) nogil:
         cdef long_t indx1 = self.get_ind_dm0(b, bp, bcharge)
         cdef long_t indx2 = self.get_ind_dm0(a, ap, acharge)
+        # Removed coherences have no entry
+        if indx1 == -1 or indx2 == -1:
+            return
+
         if b != bp:
             indx1 -= self.npauli
             if b > bp:
diff --git a/qmeq/approach/kernel_handler.py b/qmeq/approach/kernel_handler.py
index 6ba4fad..e200d30 100644
--- a/qmeq/approach/kernel_handler.py
+++ b/qmeq/approach/kernel_handler.py
@@ -293,6 +293,10 @@ class KernelHandlerRTD(KernelHandler):
 
         indx1 = self.si.get_ind_dm0(b, bp, bcharge)
         indx2 = self.si.get_ind_dm0(a, ap, acharge)
+        # Removed coherences have no entry
+        if indx1 == -1 or indx2 == -1:
+            return
+
         if b != bp:
             indx1 -= self.npauli
             if b > bp:
@@ -392,7 +396,11 @@ class KernelHandlerRTD(KernelHandler):
         self.Lnn : ndarray
             (Modifies) the anti-commutator Liouvillian connecting non-diagonal elements
         """
-        indx = self.si.get_ind_dm0(a1, b1, charge) - self.npauli
+        indx = self.si.get_ind_dm0(a1, b1, charge)
+        if indx == -1:
+            return
+
+        indx -= self.npauli
         if a1 > b1:
             indx += self.ndm0 - self.npauli
         self.Lnn[indx, indx] += fct
-- 
2.43.0


From b95b9ebac382f5d396082ab20678188d2f3dfe00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:50 +0000
Subject: [PATCH 40/43] fix: the second-order kernel of RTD uses as many
 threads as there are copies of it

---
 qmeq/approach/base/c_RTD.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index 479c5e5..c59a580 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -178,6 +178,7 @@ cdef class ApproachRTD(Approach):
         cdef long_t[:,:] statesdm = kh.statesdm
         cdef double_t[:] tlst = self._tlst
         cdef bool_t off_diag_corrections = self.funcp.off_diag_corrections
+        cdef long_t nthreads = self.nbr_Wdd2_copies
 
         if np.any(abs(self.leads.Tba.imag)>0):
             self.set_Ozaki_params()
@@ -188,7 +189,8 @@ cdef class ApproachRTD(Approach):
                     break
 
         # Calcualte Wdd^2 first to be able to resuse memory (Wdd1 & Wdd1 write to the same memory).
-        for i in prange(kern_size, nogil=True):
+        # Every thread needs its own copy of Wdd^2.
+        for i in prange(kern_size, nogil=True, num_threads=nthreads):
             b = kh.all_bbp[i, 0]
             bcharge = kh.all_bbp[i, 2]
             self.generate_matrix_element_2nd_order(b, bcharge, kh)
-- 
2.43.0


From a0356aeb060a48be31f762dd7a5df9506a1c72a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:08 +0000
Subject: [PATCH 41/43] fix: values added with updateq=False are converted and
 checked like others

---
 qmeq/baths.py    |  6 +++---
 qmeq/leadstun.py |  6 +++---
 qmeq/qdot.py     | 17 ++++++++++-------
 3 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/qmeq/baths.py b/qmeq/baths.py
index 0785519..ee23b0f 100644
--- a/qmeq/baths.py
+++ b/qmeq/baths.py
@@ -251,9 +251,9 @@ class PhononBaths(object):
             if dlst_ph is not None:
                 self.dlst_ph += make_array_dlst(None, dlst_ph, self.si, self.si.nbaths, False)
         if velph is not None:
+            velph = make_velph_dict(velph, self.si)
+            check_labels(velph, (self.si.nbaths, self.si.nsingle, self.si.nsingle))
             if updateq:
-                velph = make_velph_dict(velph, self.si)
-                check_labels(velph, (self.si.nbaths, self.si.nsingle, self.si.nsingle))
                 for j0 in velph:
                     if j0 in self.velph:
                         self.velph[j0] += velph[j0]
@@ -298,7 +298,7 @@ class PhononBaths(object):
                         velph_add.update({j0: velph_diff})
                         self.velph.update({j0: velph_diff})
             # Add the differences
-            self.add(velph_add, updateq=False, lstq=False)
+            self.Vbbp0 = elph_construct_Vbbp(self, velph_add, self.Vbbp0)
 
     def rotate(self, vecslst, indexing=None):
         """
diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index 7b48180..05bad3a 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -473,9 +473,9 @@ class LeadsTunneling(object):
             if dlst is not None:
                 self.dlst += make_array_dlst(None, dlst, self.si)
         if tleads is not None:
+            tleads = make_tleads_dict(tleads, self.si)
+            check_labels(tleads, (self.si.nleads, self.si.nsingle))
             if updateq:
-                tleads = make_tleads_dict(tleads, self.si)
-                check_labels(tleads, (self.si.nleads, self.si.nsingle))
                 for j0 in tleads:
                     if j0 in self.tleads:
                         self.tleads[j0] += tleads[j0]
@@ -520,7 +520,7 @@ class LeadsTunneling(object):
                         self.tleads.update({j0: tleads_diff})
             self.tleads_array[:] = make_tleads_array(self.tleads, self.si)
             # Add the differences
-            self.add(tleads_add, updateq=False, lstq=False)
+            self.Tba0 = construct_Tba(self, tleads_add, self.Tba0)
 
     def rotate(self, vecslst, indexing=None):
         """
diff --git a/qmeq/qdot.py b/qmeq/qdot.py
index 489b83b..d80223d 100644
--- a/qmeq/qdot.py
+++ b/qmeq/qdot.py
@@ -764,7 +764,7 @@ class QuantumDot(object):
             self.valslst = [None]*si.ncharge
             self.vecslst = [None]*si.ncharge
             self.hamlst = [None]*si.ncharge
-        self.add(self.hsingle, self.coulomb, False)
+        self._add_to_hamlst(self.hsingle, self.coulomb)
         self.Ea = np.zeros(si.nmany, dtype=float)
         self.Ea_ext = None
 
@@ -786,11 +786,11 @@ class QuantumDot(object):
             and the Coulomb matrix elements will be updated.
             The many-body Hamiltonian will be updates in either case.
         """
+        hsingle = {} if hsingle is None else make_hsingle_dict(self, hsingle)
+        coulomb = {} if coulomb is None else make_coulomb_dict(self, coulomb)
+        check_labels(hsingle, (self.si.nsingle,)*2)
+        check_labels(coulomb, (self.si.nsingle,)*4)
         if updateq:
-            hsingle = {} if hsingle is None else make_hsingle_dict(self, hsingle)
-            coulomb = {} if coulomb is None else make_coulomb_dict(self, coulomb)
-            check_labels(hsingle, (self.si.nsingle,)*2)
-            check_labels(coulomb, (self.si.nsingle,)*4)
             for j0 in hsingle:
                 if j0 in self.hsingle:
                     self.hsingle[j0] += hsingle[j0]
@@ -801,7 +801,10 @@ class QuantumDot(object):
                     self.coulomb[j0] += coulomb[j0]
                 else:
                     self.coulomb.update({j0: coulomb[j0]})
-        #
+        self._add_to_hamlst(hsingle, coulomb)
+
+    def _add_to_hamlst(self, hsingle, coulomb):
+        """Adds the values of complete dictionaries to the many-body Hamiltonian."""
         if self.si.indexing == 'sz':
             for charge in range(self.si.ncharge):
                 for sz in szrange(charge, self.si.nsingle):
@@ -884,7 +887,7 @@ class QuantumDot(object):
                     if updateq:
                         self.coulomb.update({j0: coulomb_diff})
         # Then add the differences
-        self.add(hsingle_add, coulomb_add, False)
+        self._add_to_hamlst(hsingle_add, coulomb_add)
 
     def diagonalise_charge(self, charge=None, sz=None, ssq=None):
         """Diagonalises Hamiltonian for given charge.
-- 
2.43.0


From 3e5957a155264126bc3941d16d5c0ced43d14f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:18 +0000
Subject: [PATCH 42/43] fix: the Lindblad approach accepts mtype_leads=float

---
 qmeq/approach/base/c_lindblad.pyx | 3 +--
 qmeq/approach/base/lindblad.py    | 3 +--
 qmeq/approach/elph/c_lindblad.pyx | 5 ++---
 qmeq/approach/elph/lindblad.py    | 6 +++---
 4 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/qmeq/approach/base/c_lindblad.pyx b/qmeq/approach/base/c_lindblad.pyx
index 92b2a77..742fe9b 100644
--- a/qmeq/approach/base/c_lindblad.pyx
+++ b/qmeq/approach/base/c_lindblad.pyx
@@ -38,8 +38,7 @@ cdef class ApproachLindblad(Approach):
 
     cdef void prepare_arrays(self) except *:
         Approach.prepare_arrays(self)
-        Tba, mtype = self.leads.Tba, self.leads.mtype
-        self.tLba = np.zeros(Tba.shape, dtype=mtype)
+        self.tLba = np.zeros(self.leads.Tba.shape, dtype=complexnp)
 
         self._tLba = self.tLba
         self._rez_real = np.zeros(2, dtype=doublenp)
diff --git a/qmeq/approach/base/lindblad.py b/qmeq/approach/base/lindblad.py
index c241e8a..daa666b 100644
--- a/qmeq/approach/base/lindblad.py
+++ b/qmeq/approach/base/lindblad.py
@@ -19,8 +19,7 @@ class ApproachLindblad(Approach):
 
     def prepare_arrays(self):
         Approach.prepare_arrays(self)
-        Tba, mtype = self.leads.Tba, self.leads.mtype
-        self.tLba = np.zeros(Tba.shape, dtype=mtype)
+        self.tLba = np.zeros(self.leads.Tba.shape, dtype=complexnp)
 
     def clean_arrays(self):
         Approach.clean_arrays(self)
diff --git a/qmeq/approach/elph/c_lindblad.pyx b/qmeq/approach/elph/c_lindblad.pyx
index deaacc9..e241875 100644
--- a/qmeq/approach/elph/c_lindblad.pyx
+++ b/qmeq/approach/elph/c_lindblad.pyx
@@ -43,9 +43,8 @@ cdef class ApproachLindblad(ApproachElPh):
         ApproachElPh.prepare_arrays(self)
         ApproachLindbladBase.prepare_arrays(self)
 
-        Vbbp, mtype = self.baths.Vbbp, self.baths.mtype
-        tLbbp_shape = Vbbp.shape + (2,)
-        self.tLbbp = np.zeros(tLbbp_shape, dtype=mtype)
+        tLbbp_shape = self.baths.Vbbp.shape + (2,)
+        self.tLbbp = np.zeros(tLbbp_shape, dtype=complexnp)
         self.func_pauli_at_zero = np.zeros(self.si.nbaths, dtype=doublenp)
 
         self._tLbbp = self.tLbbp
diff --git a/qmeq/approach/elph/lindblad.py b/qmeq/approach/elph/lindblad.py
index 74e89e9..743f7dc 100644
--- a/qmeq/approach/elph/lindblad.py
+++ b/qmeq/approach/elph/lindblad.py
@@ -3,6 +3,7 @@
 import numpy as np
 import itertools
 
+from ...wrappers.mytypes import complexnp
 from ...wrappers.mytypes import doublenp
 
 from ...specfunc.specfunc_elph import FuncPauliElPh
@@ -20,9 +21,8 @@ class ApproachLindblad(ApproachElPh):
 
     def prepare_arrays(self):
         ApproachLindbladBase.prepare_arrays(self)
-        Vbbp, mtype = self.baths.Vbbp, self.baths.mtype
-        tLbbp_shape = Vbbp.shape + (2,)
-        self.tLbbp = np.zeros(tLbbp_shape, dtype=mtype)
+        tLbbp_shape = self.baths.Vbbp.shape + (2,)
+        self.tLbbp = np.zeros(tLbbp_shape, dtype=complexnp)
 
     def clean_arrays(self):
         ApproachLindbladBase.clean_arrays(self)
-- 
2.43.0


From bbcdd126ea7480a6bde15ca2d707892e28e1405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:32 +0000
Subject: [PATCH 43/43] fix: matrix-free root finders got the array that is
 used again for the next evaluation

generate_vec returned its reused buffer. The root finder lm keeps the returned
array, so that it stopped at the start vector and reported success.
---
 qmeq/approach/aprclass.py    | 3 ++-
 qmeq/approach/c_aprclass.pyx | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index b587400..5061244 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -303,7 +303,8 @@ class Approach(object):
 
         self.dphi0_dt[norm_row] = norm-1
 
-        return self.dphi0_dt
+        # The root finders keep the returned values, while the array is used again
+        return np.array(self.dphi0_dt)
 
     #endregion Generation
 
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index 602ccef..f1eea82 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -226,7 +226,8 @@ cdef class Approach:
 
         self._dphi0_dt[norm_row] = norm-1
 
-        return self._dphi0_dt
+        # The root finders keep the returned values, while the array is used again
+        return np.array(self._dphi0_dt)
 
 
     #endregion Generation
-- 
2.43.0

