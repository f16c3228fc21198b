From c5852234ae2baa93344fb577b91c632c7b653f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 01/78] fix: a sign binds tighter than the multiplications and
 divisions that follow it

---
 pynare/parsing/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index b534eac..a5c9edc 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -66,7 +66,7 @@ class BaseParser(object):
         atom : ID
              | NUMBER
              | LPARE expr RPARE
-             | (NIMUS | PLUS) term
+             | (MINUS | PLUS) exponent
         """
         token = self.current_token
 
@@ -86,11 +86,11 @@ class BaseParser(object):
 
         elif token.type in (base.MINUS, base.PLUS):
             self.eat(token.type)
-            # sending 'expr' to term() instead of expr() is what ensures
+            # sending 'expr' to exponent() instead of expr() is what ensures
             #    the proper unary operation functionality
             return ast.UnaryOp(
                 op=token,
-                expr=self.term()
+                expr=self.exponent()
             )
 
         self.error()
@@ -515,7 +515,7 @@ class DynareParser(BaseParser):
             self.eat(token.type)
             node = ast.UnaryOp(
                 op=token,
-                expr=self.mterm()
+                expr=self.mexponent()
             )
             return node
 
-- 
2.43.0


From 025c827c200f18cc704306cf62bb223acd276807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 02/78] fix: a single-line comment may end at the end of the
 file

---
 pynare/parsing/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/parsing/lexer.py b/pynare/parsing/lexer.py
index 6c0d7e2..b3468a1 100644
--- a/pynare/parsing/lexer.py
+++ b/pynare/parsing/lexer.py
@@ -422,7 +422,7 @@ class DynareLexer(BaseLexer):
 
     def skip_singleline_comment(self):
         """ single line comments are signified by '%' or '//' """
-        while self.current_char != '\n':
+        while self.current_char is not None and self.current_char != '\n':
             self.advance()
         self.skip_whitespace() # just in case
 
-- 
2.43.0


From 873f17637cb44c016a0e0c250f7fcaaaa726233e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 03/78] fix: a multi-line comment ends at its closing marker
 only

---
 pynare/parsing/lexer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pynare/parsing/lexer.py b/pynare/parsing/lexer.py
index b3468a1..7ecd253 100644
--- a/pynare/parsing/lexer.py
+++ b/pynare/parsing/lexer.py
@@ -434,7 +434,9 @@ class DynareLexer(BaseLexer):
     def skip_multiline_comment(self):
         # multiline comments begin '/*' and end '*/' 
         self.advance(n=2)
-        while (self.current_char != '*') and (self.peek() != '/'):
+        while not (self.current_char == '*' and self.peek() == '/'):
+            if self.current_char is None:
+                raise SyntaxError('comment is never closed')
             self.advance()
 
         # skipping the closing '*/'
-- 
2.43.0


From b188c1ef1ef40d8fb2c73c7938a909c1c0459b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 04/78] fix: skip a single-line comment that follows a
 multi-line one

---
 pynare/parsing/lexer.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pynare/parsing/lexer.py b/pynare/parsing/lexer.py
index 7ecd253..2d5be12 100644
--- a/pynare/parsing/lexer.py
+++ b/pynare/parsing/lexer.py
@@ -233,11 +233,12 @@ class BaseLexer(object):
                 else:
                     self.error(self.current_char)
 
-            while self.is_singleline_comment():
-                self.skip_singleline_comment()
-
-            while self.is_multiline_comment():
-                self.skip_multiline_comment()
+            # comments of either type can follow one another in any order
+            while self.is_singleline_comment() or self.is_multiline_comment():
+                if self.is_singleline_comment():
+                    self.skip_singleline_comment()
+                else:
+                    self.skip_multiline_comment()
 
             if self.valid_begchar(self.current_char):
                 return self._id()
-- 
2.43.0


From 54c7ada671525efebaba118209f0a605ffd72214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 05/78] fix: an unexpected symbol before the model block is a
 syntax error

---
 pynare/parsing/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index a5c9edc..732115c 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -270,6 +270,9 @@ class DynareParser(BaseParser):
                 assigned_parameter = self.variable_assignment()
                 parameter_list.append(assigned_parameter)
 
+            else:
+                self.error()
+
         return ast.VariablePreamble(
             declared_variables=declaration_list,
             assigned_parameters=parameter_list
-- 
2.43.0


From 7dfddfdbff4afa7add0687e51891754a5e571fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 06/78] fix: text after a complete expression is a syntax error

---
 pynare/core/expressions.py | 7 ++++++-
 pynare/parsing/parser.py   | 9 ++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index 1d99f42..221d7b2 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -113,7 +113,12 @@ class ExprParser(DynareParser):
 
 
     def parse(self):
-        return self.model_expression()
+        node = self.model_expression()
+        if self.current_token.type == base.SEMI:
+            self.eat(base.SEMI)
+
+        self.eat_end()
+        return node
 
 
 
diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index 732115c..31006af 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -202,8 +202,15 @@ class BaseParser(object):
 
         return node
 
+    def eat_end(self):
+        # nothing can follow a complete expression
+        if self.current_token.type != base.EOF:
+            self.error()
+
     def parse(self) -> AST:
-        return self.comp_expr()
+        node = self.comp_expr()
+        self.eat_end()
+        return node
 
 COMPS = (base.LT, base.LTOE, base.GT, base.GTOE, base.EQUALITY)
 
-- 
2.43.0


From 18ca8f2b9aa8191c8bca4480a34d86f19e7313c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:45 +0000
Subject: [PATCH 07/78] fix: partition generalized eigenvalues by modulus, and
 allow for none being explosive

---
 pynare/utils/numpy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index ecb49fb..42c0739 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -266,8 +266,9 @@ def partitioned_qz(
         # locally silence RuntimeWarnings about dividing by zero or infinity
         eigs = alph/bet
 
-    # explosive eigenvalues
-    expl = find_first((eigs > 1) | np.isinf(eigs))
+    # explosive eigenvalues. if there are none, the second partition is empty
+    is_explosive = (np.absolute(eigs) > 1) | np.isinf(eigs)
+    expl = find_first(is_explosive) if is_explosive.any() else len(eigs)
 
     # unitary matrix first
     Z = np.transpose(Zt)
-- 
2.43.0


From b213929ba36da2b0e9b0058f30ae13479b2b42a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:45 +0000
Subject: [PATCH 08/78] fix: count a static variable in the first column of the
 jacobian

---
 pynare/core/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 9bef434..aead23f 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -591,7 +591,7 @@ class VariableIndexManager(object):
     @cached_property
     def n_static(self):
         llx = self.llx
-        return np.count_nonzero(llx[1, np.isnan(llx[0]) & np.isnan(llx[2])])
+        return np.count_nonzero(np.isnan(llx[0]) & np.isnan(llx[2]))
 
     @cached_property
     def n_forward(self):
-- 
2.43.0


From a2caf937e3336a8dcf2b9347d5db203480cb5325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:45 +0000
Subject: [PATCH 09/78] fix: report the ranks when static variables are not
 identified

---
 pynare/core/solve/statespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index 7e484d3..0eb517d 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -149,7 +149,7 @@ def _compute_structural_state_space(model: Model):
 
         # for model to be properly identified, rank(R) must equal number of static vars
         if _r != indexes.n_static:
-            raise ModelIdentificationError(_r, indexes.n_static)
+            raise ModelIdentificationError(n0=_r, n1=indexes.n_static)
 
         # rotated jacobian
         A = np.dot(np.transpose(Q), J)
-- 
2.43.0


From 3a42b03857fd460e47041573753b190d493e4640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:45 +0000
Subject: [PATCH 10/78] fix: state space of models without purely backward or
 without dynamic variables

---
 pynare/core/solve/statespace.py | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index 0eb517d..7cb54d2 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -158,15 +158,13 @@ def _compute_structural_state_space(model: Model):
         A = J.copy()
 
     # partition as according to section 4.1 of Villemot (2011)
-    nd = indexes.n_dynamic
-    Ap_tilde = A[-nd:, indexes.dr.forward_timed[1]]
-    Am_tilde = A[-nd:, indexes.dr.backward_timed[-1]]
-    A0p_tilde = A[-nd:, indexes.dr.forward_timed[0]]
+    ns, nd = indexes.n_static, indexes.n_dynamic
+    Ap_tilde = A[ns:, indexes.dr.forward_timed[1]]
+    Am_tilde = A[ns:, indexes.dr.backward_timed[-1]]
+    A0p_tilde = A[ns:, indexes.dr.forward_timed[0]]
 
-    # model might not have any backward variables
-    A0m_tilde = A[-nd:, indexes.dr.pure_backward_timed[0]]
-    if A0m_tilde.size == 0:
-        A0m_tilde = np.zeros((nd, 1))
+    # model might not have any purely backward variables
+    A0m_tilde = A[ns:, indexes.dr.pure_backward_timed[0]]
 
     # set up the structural state space representation
     nm = indexes.n_mixed
@@ -175,19 +173,14 @@ def _compute_structural_state_space(model: Model):
         nb, nf = indexes.n_backward, indexes.n_forward
 
         # in section 4.1, two definitions of A0m_tilde and Ap_tilde are given - we
-        #   use the first, which means A0m_tilde needs to be augmented with zeros if
-        #   n_endog - (n_forward + n_static) > 0
+        #   use the first, which means A0m_tilde needs to be augmented with zeros for
+        #   the n_mixed variables
         n_diff = indexes.n_endog - (nf + indexes.n_static)
 
-        if n_diff:
-            zeros = np.zeros((nd, nm), dtype=float)
-            A0m_tilde = np.hstack((A0m_tilde, zeros))
-
-            Im = np.eye(nm, nb, k=n_diff)
-
-        else:
-            Im = np.eye(nm, nb)
+        zeros = np.zeros((nd, nm), dtype=float)
+        A0m_tilde = np.hstack((A0m_tilde, zeros))
 
+        Im = np.eye(nm, nb, k=n_diff)
         Ip = np.eye(nm, nf)
 
         D = np.block([[A0m_tilde, Ap_tilde], [Im, np.zeros((nm, nf))]])
-- 
2.43.0


From fde56ea5182aaa0d637271afc99f53038d48aa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:45 +0000
Subject: [PATCH 11/78] fix: check the Blanchard-Kahn conditions before solving

---
 pynare/core/solve/first_order.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pynare/core/solve/first_order.py b/pynare/core/solve/first_order.py
index 71f159e..3824b74 100644
--- a/pynare/core/solve/first_order.py
+++ b/pynare/core/solve/first_order.py
@@ -77,6 +77,9 @@ def solve_first_order(
     indexes = M.indexes
     state = M.statespace
 
+    # the solution only exists and is unique if Blanchard-Kahn conditions are met
+    state.verify()
+
     # retrieve state space matrices
     A, D, E = state.jacobian, state.lhs, state.rhs
 
-- 
2.43.0


From 598836e6ca60a21d94f31d03edbe43527d01df65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:45 +0000
Subject: [PATCH 12/78] fix: solve models that have no exogenous variables

---
 pynare/core/solve/first_order.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pynare/core/solve/first_order.py b/pynare/core/solve/first_order.py
index 3824b74..2fc3266 100644
--- a/pynare/core/solve/first_order.py
+++ b/pynare/core/solve/first_order.py
@@ -92,10 +92,7 @@ def solve_first_order(
     gys = solve_static_endo(A, indexes, gym, gyp)
     gy = np.vstack((gys, gyd))
 
-    if indexes.n_exog > 0:
-        fu = A[:, indexes.exogenous_jacobian]
-    else:
-        fu = J[:, indexes.exogenous_jacobian]
+    fu = A[:, indexes.exogenous_jacobian]
     gu = solve_exo(A, indexes, gyp, fu)
 
     # remove any 1-dimensional axes
-- 
2.43.0


From 1c99eed76cd2f3a05852eb6275fb701c118d0dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:13 +0000
Subject: [PATCH 13/78] fix: solve models that only have static variables

---
 pynare/utils/numpy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index 42c0739..3898f0e 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -260,6 +260,11 @@ def partitioned_qz(
         lower right submatrix of triangular matrix S
     """
 
+    if np.size(A) == 0:
+        # nothing to decompose, i.e. there are no dynamic variables in the model
+        empty = np.zeros((0, 0), dtype=float)
+        return (np.zeros(0, dtype=float), *(empty for _ in range(10)))
+
     S, T, alph, bet, Q, Zt = scipy.linalg.ordqz(B, A, sort='iuc')
 
     with np.errstate(divide='ignore', invalid='ignore'):
-- 
2.43.0


From fccf6726c31c288e0d9e30cbb0a6e673cbfb8c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:04 +0000
Subject: [PATCH 14/78] fix: keep the variable axis of the policy matrices of
 one-variable models

---
 pynare/core/solve/first_order.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pynare/core/solve/first_order.py b/pynare/core/solve/first_order.py
index 2fc3266..8ab3733 100644
--- a/pynare/core/solve/first_order.py
+++ b/pynare/core/solve/first_order.py
@@ -95,9 +95,9 @@ def solve_first_order(
     fu = A[:, indexes.exogenous_jacobian]
     gu = solve_exo(A, indexes, gyp, fu)
 
-    # remove any 1-dimensional axes
-    gy = gy.squeeze()
-    gu = gu.squeeze()
+    # with a single state or shock, the responses are vectors over the endogenous vars
+    gy = gy[:, 0] if gy.shape[1] == 1 else gy
+    gu = gu[:, 0] if gu.shape[1] == 1 else gu
 
     return gy, gu
 
-- 
2.43.0


From 08f83da0cd3e3ab140bc544bd5960dc1cae7fd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:21 +0000
Subject: [PATCH 15/78] fix: second-order solution for any number of states,
 shocks and forward variables

---
 pynare/core/solve/second_order.py | 74 ++++++++++---------------------
 1 file changed, 23 insertions(+), 51 deletions(-)

diff --git a/pynare/core/solve/second_order.py b/pynare/core/solve/second_order.py
index 9ba9172..26583d6 100644
--- a/pynare/core/solve/second_order.py
+++ b/pynare/core/solve/second_order.py
@@ -69,11 +69,7 @@ class SecondOrderSolver(object):
         ns, nt = indexes.n_static, indexes.n_state
 
         # decision-rule indices of state vars
-        self.tloc_arr = np.arange(ns, ns+nt, dtype=int)
-        try:
-            self.tloc = self.tloc_arr.item()
-        except ValueError:
-            self.tloc = self.tloc_arr
+        self.tloc = np.arange(ns, ns+nt, dtype=int)
 
         # re-arrange lead-lag incidence to DR order
         dr_llx = indexes.dr.llx
@@ -103,7 +99,7 @@ class SecondOrderSolver(object):
         ns, nt = indexes.n_static, indexes.n_state
 
         # A, B, C, D, E arrays rely on first-order solution arrays
-        gy = self.lower_solution.gy
+        gy = unp.ensure_2darray(self.lower_solution.gy)
 
         # reorder, get time t and t+1 indices
         jacobian = self.model.jacobian.array
@@ -115,14 +111,14 @@ class SecondOrderSolver(object):
         # construct the [dfdy' * dgdx + dfdx' | dfdy] array
         A = np.zeros((indexes.n_endog, indexes.n_endog), dtype=float)
         A[:, ~np.isnan(self.dr_cont)] = cont_jac
-        tm1_update = unp.matmul_scalar(fore_jac, gy[~np.isnan(self.dr_fore)])
+        tm1_update = np.matmul(fore_jac, gy[~np.isnan(self.dr_fore)])
         A[:, self.tloc] = A[:, self.tloc] + tm1_update
 
         B = np.identity(nt**2, dtype=float)
 
         # construct the [0 | dfdy'] array
         C = np.zeros((indexes.n_endog, indexes.n_endog), dtype=float)
-        C[:, -len(_nonnan_int(self.dr_fore)):] = fore_jac
+        C[:, ~np.isnan(self.dr_fore)] = fore_jac
 
         gy_state = gy[self.tloc]
         D = np.transpose(np.kron(gy_state, gy_state))
@@ -141,14 +137,14 @@ class SecondOrderSolver(object):
         indexes = self.model.indexes
         nt = indexes.n_state
 
-        gy = lower_sol.gy
+        gy = unp.ensure_2darray(lower_sol.gy)
 
         state_eye = np.identity(nt, dtype=float)
         cont_gy = gy[~np.isnan(self.dr_cont)]
-        fore_gy = unp.matmul_scalar(gy[~np.isnan(self.dr_fore)], gy[self.tloc])
+        fore_gy = np.matmul(gy[~np.isnan(self.dr_fore)], gy[self.tloc])
         exo_block = np.zeros((indexes.n_exog, nt), dtype=float)
 
-        E = unp.concatenate_maybe_1d((state_eye, cont_gy, fore_gy, exo_block))
+        E = np.concatenate((state_eye, cont_gy, fore_gy, exo_block))
         return E
 
 
@@ -161,21 +157,14 @@ class SecondOrderSolver(object):
         indexes = self.model.indexes
         nt, ne = indexes.n_state, indexes.n_exog
 
-        gy = lower_sol.gy
-        gu = lower_sol.gu
+        gy, gu = unp.ensure_2darray((lower_sol.gy, lower_sol.gu))
 
         state_zero = np.zeros((nt, ne), dtype=float)
         cont_gu = gu[~np.isnan(self.dr_cont)]
-
-        try:
-            fore_gy = unp.matmul_scalar(gy[~np.isnan(self.dr_fore)], gu[self.tloc])
-        except ValueError:
-            # one state var, > 1 stoch vars
-            fore_gy = np.outer(gy[~np.isnan(self.dr_fore)], gu[self.tloc])
-
+        fore_gy = np.matmul(gy[~np.isnan(self.dr_fore)], gu[self.tloc])
         exo_eye = np.identity(ne, dtype=float)
 
-        E = unp.concatenate_maybe_1d((state_zero, cont_gu, fore_gy, exo_eye))
+        E = np.concatenate((state_zero, cont_gu, fore_gy, exo_eye))
         return E
 
 
@@ -233,6 +222,10 @@ def solve_ghxx(
     """
     E = -unp.matrix_kronecker_product(hess, zx)
 
+    if E.size == 0:
+        # there are no state variables
+        return E
+
     ghxx = unp.generalized_sylvester(A, B, C, D, E)
     return ghxx
 
@@ -279,24 +272,12 @@ def solve_ghxu(
     -------
     ghxu : np.ndarray
     """
-    # if theres only one state variable, zx will be a vector, and if there is
-    #    only a single shock, zu will be too. for these to conform with one another
-    #    in the kronecker product, ensure 2d
-    zx, zu = unp.ensure_2darray((zx, zu))
-    E = -unp.matrix_kronecker_product(hess, zx, zu).squeeze()
+    E = -unp.matrix_kronecker_product(hess, zx, zu)
 
-    # `matrix_kronecker_product` throws ValueErrors when scalars are passed or matrix
-    #    dimensions depend on row/column orientation. just cast to 2dims for now
-    gy, gu = lower_sol.gy, lower_sol.gu
-    ghxx_arr, gy_arr, gu_arr = unp.ensure_2darray((ghxx, gy[tloc], gu[tloc]))
+    gy, gu = unp.ensure_2darray((lower_sol.gy, lower_sol.gu))
+    cross_prod = unp.matrix_kronecker_product(ghxx, gy[tloc], gu[tloc])
 
-    if gu_arr.shape[1] == 1:
-        # row-orient to conform with the following matrix product
-        gu_arr = np.transpose(gu_arr)
-
-    cross_prod = unp.matrix_kronecker_product(ghxx_arr, gy_arr, gu_arr).squeeze()
-
-    rhs = E - unp.matmul_scalar(C, cross_prod)
+    rhs = E - np.matmul(C, cross_prod)
     return linalg.solve(A, rhs)
 
 
@@ -341,18 +322,9 @@ def solve_ghuu(
     E = -unp.matrix_kronecker_product(hess, zu)
 
     ghxx_tp1 = np.matmul(C, ghxx)
-    state_du = lower_sol.gu[tloc]
-
-    # if theres only one state variable, ghxx_tp1 will be a vector (if there is
-    #    additionally only a single shock, state_du will be a scalar). for these
-    #    to conform with one another in the kronecker product, ensure 2d
-    ghxx_tp1, state_du = unp.ensure_2darray((ghxx_tp1, state_du))
-
-    if state_du.shape[1] == 1:
-        # row-orient to conform with the following matrix product
-        state_du = np.transpose(state_du)
+    state_du = unp.ensure_2darray(lower_sol.gu)[tloc]
 
-    ghxx_tp1_evaluated = unp.matrix_kronecker_product(ghxx_tp1, state_du).squeeze()
+    ghxx_tp1_evaluated = unp.matrix_kronecker_product(ghxx_tp1, state_du)
 
     rhs = E - ghxx_tp1_evaluated
     return linalg.solve(A, rhs)
@@ -404,7 +376,7 @@ def solve_del2(
     del2 : np.ndarray
     """
 
-    gy, gu = lower_sol.gy, lower_sol.gu
+    gy, gu = unp.ensure_2darray((lower_sol.gy, lower_sol.gu))
 
     fore_nan = np.isnan(fore)
     fore_idx = _nonnan_int(fore)
@@ -413,7 +385,7 @@ def solve_del2(
     B1 = unp.matrix_kronecker_product(hess[:, fore_sq], gu[~fore_nan])
 
     rhs = np.matmul(jac[:, fore_idx], ghuu[~fore_nan]) + B1
-    rhs = -unp.matmul_scalar(rhs, np.transpose(sigma).flatten())
+    rhs = -np.matmul(rhs, np.transpose(sigma).flatten())
 
 
     n_fore = np.count_nonzero(~fore_nan)
@@ -424,7 +396,7 @@ def solve_del2(
     pfore_zero = np.zeros((n_fore, npf), dtype=float)
     gy_fore = gy[~fore_nan]
 
-    d_fore = unp.concatenate_maybe_1d((static_zero, gy_fore, pfore_zero), axis=1)
+    d_fore = np.concatenate((static_zero, gy_fore, pfore_zero), axis=1)
     deriv_fore = endo_eye[~fore_nan] + d_fore
 
     lhs = np.zeros((n_endog, n_endog), dtype=float)
-- 
2.43.0


From 57d883ecc7e9366247afc6809fac6595f5a64711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:48 +0000
Subject: [PATCH 16/78] fix: keep refusing a model that failed the
 Blanchard-Kahn conditions

---
 pynare/core/solve/statespace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index 7cb54d2..8b9c189 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -46,7 +46,8 @@ class StateSpace(object):
         front-facing method for checking whether or not the BK conditions are met
         by this model specification
         """
-        if self.is_verified is None:
+        if not self.is_verified:
+            # not checked yet, or known to fail
             self._run_verification()
         return None
 
-- 
2.43.0


From 2c57aad64ae10bb0200c89ba2b1dbf39ad832405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:40 +0000
Subject: [PATCH 17/78] fix: allow for rounding errors in the Blanchard-Kahn
 rank condition

---
 pynare/core/solve/statespace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index 8b9c189..6374bb1 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -65,7 +65,8 @@ class StateSpace(object):
             raise ModelIdentificationError('order', n_explosive, n_forward)
 
         Z22 = self.zarrays.Z_22
-        if np.linalg.matrix_rank(Z22) != Z22.shape[0]:
+        # Z is unitary, so that 1 is the scale its singular values are compared to
+        if np.linalg.matrix_rank(Z22, tol=1e-9) != Z22.shape[0]:
             self.is_verified = False
             raise ModelIdentificationError('rank')
 
-- 
2.43.0


From 3fc61dc892ae2052c2b674be783c99322bac189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:58 +0000
Subject: [PATCH 18/78] fix: read model files without a shocks block

---
 pynare/parsing/factory.py   | 3 ++-
 pynare/parsing/semantics.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index 4568268..1ff72fc 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -351,7 +351,8 @@ class DynareModelFactory(base.ABCVisitor):
     # 
     def visit_ModelActions(self, node):
         self.visit(node.boundaries)
-        self.visit(node.shocks)
+        if node.shocks is not None:
+            self.visit(node.shocks)
 
 
     def visit_ModelBoundaryValues(self, node):
diff --git a/pynare/parsing/semantics.py b/pynare/parsing/semantics.py
index 1df7b10..7b03a41 100644
--- a/pynare/parsing/semantics.py
+++ b/pynare/parsing/semantics.py
@@ -275,7 +275,8 @@ class DynareSemanticAnalyzer(ABCVisitor):
     #
     def visit_ModelActions(self, node):
         self.visit(node.boundaries)
-        self.visit(node.shocks)
+        if node.shocks is not None:
+            self.visit(node.shocks)
 
 
     def visit_ModelBoundaryValues(self, node):
-- 
2.43.0


From c4c945c0d93aa7e99c76095449dee96543c009b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:58 +0000
Subject: [PATCH 19/78] fix: historical values are those of the histval block

---
 pynare/parsing/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index 1ff72fc..a792b43 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -366,7 +366,7 @@ class DynareModelFactory(base.ABCVisitor):
 
         if node.histval:
             hist_values = self.calculate_ModelBoundaryValues(node.histval)
-            self.outline._historical_values = end_values
+            self.outline._historical_values = hist_values
 
 
     def calculate_ModelBoundaryValues(self, boundaries):
-- 
2.43.0


From 3417a2280661af37f226524ccd7a27ea521cdd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:59 +0000
Subject: [PATCH 20/78] fix: report undeclared names in boundary and shock
 blocks

---
 pynare/parsing/semantics.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pynare/parsing/semantics.py b/pynare/parsing/semantics.py
index 7b03a41..8e33917 100644
--- a/pynare/parsing/semantics.py
+++ b/pynare/parsing/semantics.py
@@ -296,6 +296,7 @@ class DynareSemanticAnalyzer(ABCVisitor):
         for assignment in boundaries._list:
             var_name = assignment.left.value
             var_symbol = self.current_scope.lookup(var_name)
+            self._check_declared(var_symbol, assignment.left)
 
             if var_symbol.stype.name != dyn.VAR:
                 token = assignment.left.token
@@ -309,9 +310,20 @@ class DynareSemanticAnalyzer(ABCVisitor):
             self.visit(assignment.right)
 
 
-    def _check_shock_declaration(self, shock_sym, shock_def):
+    def _check_declared(self, symbol, var_node):
+        if symbol is None:
+            token = var_node.token
+            raise NameError(
+                f'row {token.line_number}, column {token.line_pos}. '
+                f'name {repr(var_node.value)} was not declared'
+            )
+
+
+    def _check_shock_declaration(self, shock_sym, var_node):
+        self._check_declared(shock_sym, var_node)
+
         if shock_sym.stype.name not in (dyn.VAREXO, dyn.VAREXO_DET):
-            token = shock_def.shock.token
+            token = var_node.token
             raise TypeError(
                 f'row {token.line_number}, column {token.line_pos}. '
                 f'variable {repr(shock_sym)} was not declared as exogenous. '
@@ -327,7 +339,7 @@ class DynareSemanticAnalyzer(ABCVisitor):
             # check that shock was declared as exogenous
             shock_name = sdef.shock.value
             shock_symbol = self.current_scope.lookup(shock_name)
-            self._check_shock_declaration(shock_symbol, sdef)
+            self._check_shock_declaration(shock_symbol, sdef.shock)
 
             # check that moment expression is valid
             self.visit(sdef.expr)
@@ -336,7 +348,7 @@ class DynareSemanticAnalyzer(ABCVisitor):
             if sdef.shock_type in ('correlated', 'covarying'):
                 other_name = sdef.other.value
                 other_symbol = self.current_scope.lookup(other_name)
-                self._check_shock_declaration(other_symbol, sdef)
+                self._check_shock_declaration(other_symbol, sdef.other)
 
 
     #
-- 
2.43.0


From 05d9441faca7e79e6e13a062abdaa0780f200427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:59 +0000
Subject: [PATCH 21/78] fix: report the name when a variable with a period
 offset is not valid

---
 pynare/parsing/semantics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pynare/parsing/semantics.py b/pynare/parsing/semantics.py
index 8e33917..e52a1fc 100644
--- a/pynare/parsing/semantics.py
+++ b/pynare/parsing/semantics.py
@@ -387,17 +387,17 @@ class DynareSemanticAnalyzer(ABCVisitor):
         var_symbol = self.current_scope.lookup(var_name)
 
         if var_symbol is None:
-            token = node.token
+            token = node.var.token
             raise NameError(
                 f'row {token.line_number}, column {token.line_pos}. '
                 f'name {var_name} was not declared'
             )
 
         if var_symbol.stype.name == dyn.PARAMETERS:
-            token = node.token
+            token = node.var.token
             raise TypeError(
                 f'row {token.line_number}, column {token.line_pos}. '
-                f'parameters cannot be out-of-period'
+                f'parameter {repr(var_name)} cannot be out-of-period'
             )
 
 
-- 
2.43.0


From a3cb93cb15fcfdfac9df66a866a91ad8a11068ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:51 +0000
Subject: [PATCH 22/78] fix: undeclared variables that are assigned a value
 cannot be used in the model

---
 pynare/parsing/semantics.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/pynare/parsing/semantics.py b/pynare/parsing/semantics.py
index e52a1fc..f4b7b8e 100644
--- a/pynare/parsing/semantics.py
+++ b/pynare/parsing/semantics.py
@@ -6,6 +6,10 @@ from pynare.parsing.base import ABCVisitor
 import pynare.parsing.dynare as dyn
 
 
+# type of the variables that are assigned a value without being declared
+NON_MODEL = 'non_model'
+
+
 class Symbol(object):
 
     # symbols hold then ame and variable type of the Var AST nodes encountered
@@ -123,7 +127,6 @@ class DynareSymbolTable(ScopedSymbolTable):
         self.insert(ModelTypeSymbol(dyn.PREDETERMINED))
         self.insert(ModelTypeSymbol(dyn.TREND_VAR))
         self.insert(ModelTypeSymbol(dyn.LOG_TREND_VAR))
-        self.insert(ModelTypeSymbol('non_model'))
 
 
 class DynareSemanticAnalyzer(ABCVisitor):
@@ -199,13 +202,13 @@ class DynareSemanticAnalyzer(ABCVisitor):
 
         if var_symbol is None:
             # assigning non-model parameters, validating the expression
-            var_symbol = VarSymbol(var_name, 'non_model')
-            self.current_scope.insert(var_symbol)
             self.visit(node.right)
+            var_symbol = VarSymbol(var_name, ModelTypeSymbol(NON_MODEL))
+            self.current_scope.insert(var_symbol)
 
         else:
             # we don't want to assign values to non-parameter values
-            if var_symbol.stype.name != 'parameters':
+            if var_symbol.stype.name not in (dyn.PARAMETERS, NON_MODEL):
                 token = node.left.token
                 raise TypeError(
                     f'row {token.line_number}, column {token.line_pos}. '
@@ -374,7 +377,7 @@ class DynareSemanticAnalyzer(ABCVisitor):
         # checks that the variable has been defined
         var_name = node.value
         var_symbol = self.current_scope.lookup(var_name)
-        if var_symbol is None:
+        if not self._is_usable(var_symbol):
             token = node.token
             raise NameError(
                 f'row {token.line_number}, column {token.line_pos}. '
@@ -382,11 +385,19 @@ class DynareSemanticAnalyzer(ABCVisitor):
             )
 
 
+    def _is_usable(self, symbol):
+        # undeclared variables that were assigned a value are not part of the model
+        if symbol is None:
+            return False
+        in_model = self.current_scope.scope_name == 'model'
+        return not (in_model and symbol.stype.name == NON_MODEL)
+
+
     def visit_PeriodVar(self, node):
         var_name = node.value
         var_symbol = self.current_scope.lookup(var_name)
 
-        if var_symbol is None:
+        if not self._is_usable(var_symbol):
             token = node.var.token
             raise NameError(
                 f'row {token.line_number}, column {token.line_pos}. '
-- 
2.43.0


From 0ed7f1f233a95eb0243cf73b8ef902051e3e27c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:51 +0000
Subject: [PATCH 23/78] fix: calibrations own their definitions, and keep only
 those that can be solved

---
 pynare/core/variables.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index aead23f..14cd73f 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -783,15 +783,8 @@ class ModelCalibration(MutableMapping):
     """
 
     def __init__(self, defs):
-        self.defs = defs
-
-        calib = {}
-        for k, v in self.defs.items():
-            if isinstance(v, float):
-                calib[k] = v
-            elif isinstance(v, ast.Num):
-                calib[k] = v.value
-
+        # a calibration that is passed keeps its definitions; never share the dict
+        self.defs = dict(defs.defs if isinstance(defs, ModelCalibration) else defs)
         self.calib = solve_calibration(self.defs)
 
     def __getitem__(self, key):
@@ -801,12 +794,16 @@ class ModelCalibration(MutableMapping):
             raise KeyError(f"'{key}' is not a parameter") from None
 
     def __setitem__(self, key, value):
-        self.defs[key] = value
-        self.calib = solve_calibration(self.defs) # inefficient
+        # only keep the definition if the calibration can be solved with it
+        defs = {**self.defs, key: value}
+        self.calib = solve_calibration(defs) # inefficient
+        self.defs = defs
 
     def __delitem__(self, key):
-        del self.defs[key]
-        del self.calib[key]
+        defs = dict(self.defs)
+        del defs[key]
+        self.calib = solve_calibration(defs)
+        self.defs = defs
 
     def __iter__(self):
         return iter(self.calib)
-- 
2.43.0


From 9e1e8fa833275ebd955c2ea09efa0df9241f83a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:35 +0000
Subject: [PATCH 24/78] fix: parameters of a model file may be defined in any
 order and by undeclared variables

---
 pynare/parsing/factory.py | 59 +++++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 15 deletions(-)

diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index a792b43..215a1e2 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -133,6 +133,31 @@ class ScopedMemory(object):
 
 
 
+class DefinitionSubstitution(object):
+    """
+    replace the variables in `tree` that have a definition in `definitions`
+    """
+    def __new__(
+        cls,
+        tree,
+        definitions
+    ):
+        # the tree might be a single variable
+        parent = ast.UnaryOp(op=base.Token(base.PLUS, '+'), expr=tree)
+        return _DefinitionSubstitution(parent, definitions).simplify().expr
+
+
+class _DefinitionSubstitution(base._ASTSubstitution):
+
+    def substitute(self, node, definition):
+        return copy.deepcopy(definition)
+
+    def visit_Function(self, node):
+        self.visit(node.expr)
+        self.maybe_substitute(node, 'expr')
+
+
+
 class ModelFactory(object):
 
     def __new__(
@@ -175,6 +200,9 @@ class DynareModelFactory(base.ABCVisitor):
 
         self.outline = ModelOutline('dynare')
 
+        # definitions of the variables that are not declared
+        self.definitions = dict()
+
         self.model_scope = ScopedMemory()
         self.file_scope = ScopedMemory(
             enclosing_scope=self.model_scope
@@ -199,6 +227,17 @@ class DynareModelFactory(base.ABCVisitor):
         self.visit(node.variables)
         self.visit(node.parameters)
 
+        # parameters can be defined in any order, so values are known only now
+        from pynare.core.variables import solve_calibration
+
+        params = {
+            k: v for k, v in self.outline._parameters.items() if v is not None
+        }
+        values = solve_calibration({**params, **self.definitions})
+        for var_name, value in values.items():
+            scope = self.model_scope if var_name in params else self.file_scope
+            scope.insert(var_name=var_name, value=value)
+
 
     def visit_VarDeclaration(self, node):
 
@@ -221,35 +260,25 @@ class DynareModelFactory(base.ABCVisitor):
         """
         check if a variable was declared. if not, assume it's a local variable
         and save that to the scope and evaluate the value it's being assigned.
-        If it was assumed, we assume it's a model parameter and assign the
-        value to it in the ModelOutline.
+        If it was declared, it's a model parameter and its definition is saved in
+        the ModelOutline.
 
         This function can handle all types of assignments 'a = b', but I really
         only intend this to be used for parameter & local variable assignments
         before the model definition
         """
 
-        value = base.BaseEvaluator(
-            tree=node.right,
-            scope=self.file_scope
-        )
         var_name = node.left.value
+        definition = DefinitionSubstitution(node.right, self.definitions)
 
         if self.outline.is_parameter(var_name):
-            self.model_scope.insert(
-                var_name=var_name,
-                value=value
-            )
             self.outline.set_model_parameter(
                 var_name=var_name,
-                value=node.right
+                value=definition
             )
 
         else:
-            self.file_scope.insert(
-                var_name=var_name,
-                value=value
-            )
+            self.definitions[var_name] = definition
 
 
     #
-- 
2.43.0


From bd2633109fb6b13a246a2c86526f92ed2fae3cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:35 +0000
Subject: [PATCH 25/78] fix: local model variables follow the parameters and
 are copied with the model

---
 pynare/core/generic.py    |  7 ++++++-
 pynare/core/model.py      | 17 ++++++++++++++++-
 pynare/parsing/factory.py |  9 ++-------
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index 8685c63..17f90d6 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -494,5 +494,10 @@ class DynamicModel(StructuredModel):
             terminal=term,
             historical=hist,
             language=self.language,
-            name=self.name
+            name=self.name,
+            **self._copy_kwargs()
         )
+
+    def _copy_kwargs(self):
+        # arguments of subclasses that are needed to copy the model
+        return {}
diff --git a/pynare/core/model.py b/pynare/core/model.py
index 22812fb..4a6699c 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -1,6 +1,7 @@
 
 from __future__ import annotations
 
+import copy
 from functools import cached_property
 
 from pynare.core.variables import ModelCalibration
@@ -45,7 +46,7 @@ class Model(DynamicModel):
         name: str = ''
     ):
 
-        self.local_params = ModelCalibration(local_params)
+        self._local_defs = dict(local_params)
 
         super().__init__(
             endog=endog,
@@ -265,6 +266,10 @@ class Model(DynamicModel):
         return impulse_response(self, exog, periods, size)
 
 
+    def _copy_kwargs(self):
+        return {'local_params': copy.deepcopy(self._local_defs)}
+
+
     def summary(self, **kwargs):
         """
         returns a summary of the model that (optionally) describes the typology of
@@ -286,6 +291,16 @@ class Model(DynamicModel):
         return ModelSummary(self, **kwargs)
 
 
+    @property
+    def local_params(self):
+        """
+        variables that are local to the model definition, at the current values of
+        the parameters they are defined by
+        """
+        values = ModelCalibration({**self.params, **self._local_defs})
+        return ModelCalibration({k: values[k] for k in self._local_defs})
+
+
     @property
     def model_scope(self):
         return {**self.params, **self.local_params}
diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index 215a1e2..035f83a 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -309,14 +309,9 @@ class DynareModelFactory(base.ABCVisitor):
 
     def visit_LocalModelDeclaration(self, node):
 
-        value = base.BaseEvaluator(
-            tree=node.right,
-            scope=self.model_scope
-        )
+        # the value depends on the parameters, which might change later
         var_name = node.left.value
-        self.model_scope.insert(var_name, value)
-
-        self.outline._local_model_variables[var_name] = value
+        self.outline._local_model_variables[var_name] = node.right
 
 
     def visit_ModelExpression(self, node):
-- 
2.43.0


From c210475dfb58f7442be7761d65afe305eff56e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:37 +0000
Subject: [PATCH 26/78] fix: boundary values may use the values set before
 them, and nothing without a value

---
 pynare/parsing/factory.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index 035f83a..2893c87 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -129,7 +129,7 @@ class ScopedMemory(object):
         if self.enclosing_scope is not None:
             return self.enclosing_scope.lookup(var_name)
 
-        return None
+        raise KeyError(var_name)
 
 
 
@@ -397,14 +397,20 @@ class DynareModelFactory(base.ABCVisitor):
 
         bound_dict = dict()
 
+        # values can depend on the values set before them in the block
+        bound_scope = ScopedMemory(
+            enclosing_scope=self.file_scope
+        )
+
         # self.visit(boundaries.arguments)
         for assignment in boundaries._list:
             var_name = assignment.left.value
             var_value = base.BaseEvaluator(
                 tree=assignment.right,
-                scope=self.file_scope
+                scope=bound_scope
             )
 
+            bound_scope.insert(var_name, var_value)
             bound_dict[var_name] = var_value
 
         return bound_dict
-- 
2.43.0


From 952ba00c5e77427f2a9273467d7da68e33175dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:37 +0000
Subject: [PATCH 27/78] fix: deterministic shocks are not implemented

---
 pynare/parsing/semantics.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pynare/parsing/semantics.py b/pynare/parsing/semantics.py
index f4b7b8e..9df55dd 100644
--- a/pynare/parsing/semantics.py
+++ b/pynare/parsing/semantics.py
@@ -344,6 +344,11 @@ class DynareSemanticAnalyzer(ABCVisitor):
             shock_symbol = self.current_scope.lookup(shock_name)
             self._check_shock_declaration(shock_symbol, sdef.shock)
 
+            if sdef.shock_type == 'deterministic':
+                raise NotImplementedError(
+                    f'deterministic shock to {repr(shock_name)}'
+                )
+
             # check that moment expression is valid
             self.visit(sdef.expr)
 
-- 
2.43.0


From 8d410e3014d99485a09c3b2d6fc83c8e9b2c1245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:37 +0000
Subject: [PATCH 28/78] fix: names of leads and lags cannot be mistaken for
 other variables or keywords

---
 pynare/core/expressions.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index 221d7b2..feb357e 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -251,7 +251,7 @@ def steady_func(
         the abstract syntax tree of the model expression
     endo : tuple
         a tuple of the endogenous model names in declaration order. these
-        are the steady state names (no 'm1' or 'p1' PeriodVar suffixes)
+        are the steady state names (no PeriodVar suffixes)
     params : dict
         dictionary of parameter_names: parameter_values. This dictionary
         must provide the locally-defined model variables, too
@@ -351,7 +351,7 @@ def dynamic_func(
     # `llx` has `len(endo)` columns by construction, so we make use of that
     #    to get the `endos` names in the correct order
     endo_suffix = np.array(
-        [[f'{v}{s}' for v in endo] for s in ('m1', '', 'p1')], dtype=object
+        [[period_name(v, s) for v in endo] for s in (-1, 0, 1)], dtype=object
     )
     dyn_vars = list(endo_suffix[~np.isnan(llx)])
     dyn_vars.extend(exo) # `exo` in declaration order by construction
@@ -370,6 +370,17 @@ def dynamic_func(
 
 
 
+def period_name(name: str, offset: int) -> str:
+    """
+    name of a variable at a period of the dynamic model. names of model variables
+    cannot begin with an underscore, so none of them is the same as a lag or a lead
+    """
+    if offset == 0:
+        return name
+    return f'_{name}_p1' if offset > 0 else f'_{name}_m1'
+
+
+
 class DynamicFunc(base._BaseEvaluator):
     """
     the callable that corresponds to the dynamic version of individual model
@@ -389,10 +400,7 @@ class DynamicFunc(base._BaseEvaluator):
         return self.dyn_vals[node.value]
 
     def visit_PeriodVar(self, node):
-        var_name = node.value
-        offset = node.period_offset
-        name_offset = f'{var_name}p1' if offset > 0 else f'{var_name}m1'
-        return self.dyn_vals[name_offset]
+        return self.dyn_vals[period_name(node.value, node.period_offset)]
 
 
 
@@ -435,8 +443,8 @@ class _DynamicSubsitution(base._ASTSubstitution):
     so variable `x` will be added to `self.not_provided` as `x`. However,
     PeriodVars are altered in accordance with the naming scheme used in
     dynamic_func:
-        PeriodVar(name='x', period_offset=-1) -> 'xm1'
-        PeriodVar(name='y', period_offset=1)  -> 'ym1'
+        PeriodVar(name='x', period_offset=-1) -> '_x_m1'
+        PeriodVar(name='y', period_offset=1)  -> '_y_p1'
     """
 
     def __init__(
@@ -460,9 +468,7 @@ class _DynamicSubsitution(base._ASTSubstitution):
                 self.not_provided.add(var_name)
 
         elif isinstance(attribute, ast.PeriodVar):
-            var_name = attribute.value
-            offset = attribute.period_offset
-            name_offset = f'{var_name}p1' if offset > 0 else f'{var_name}m1'
+            name_offset = period_name(attribute.value, attribute.period_offset)
             self.not_provided.add(name_offset)
 
 
@@ -506,7 +512,7 @@ def model_signature(
 
 def ensure_parameter(
     names: Iterable[str],
-    kind: str = 'POSITIONAL_OR_KEYWORD'
+    kind: str = 'POSITIONAL_ONLY'
 ) -> Tuple[inspect.Parameter]:
     """
     Translates an iterable of strings into a tuple of inspect.Parameter objects
-- 
2.43.0


From c0784829f7c6fbb7758965078ad3d610211de07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:37 +0000
Subject: [PATCH 29/78] fix: leads and lags are a whole number of periods

---
 pynare/parsing/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index 31006af..ef36e1f 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -368,6 +368,8 @@ class DynareParser(BaseParser):
         else:
             self.error()
         periods = self.current_token
+        if periods.type == base.NUMBER and periods.value != int(periods.value):
+            self.error()
         self.eat(base.NUMBER)
         self.eat(base.RPARE)
 
-- 
2.43.0


From c0d81c9c953e698ebc3e68ddcd54d32cbb3d3267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:37 +0000
Subject: [PATCH 30/78] fix: refuse unsupported leads and lags, and allow
 variables not seen at time t

---
 pynare/core/variables.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 14cd73f..75ac17b 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -539,17 +539,23 @@ class VariableIndexManager(object):
         # prepare the lead-lag incidence array by creating indicators for locations
         #    of endogenous variables at all periods
         llx = np.full((3, len(endog)), fill_value=np.nan)
-        for idx, ll in enumerate(self.lead_lags.values()):
-            lead_lag = np.array(list(ll)) + 1
-            try:
-                llx[lead_lag, idx] = 1
-            except IndexError:
-                if not lead_lag:
-                    problem_endog = endog[idx]
-                    raise EndogIndexError(
-                        f"variable '{str(problem_endog)}' was declared as endog but "
-                        "was not seen at any time period"
-                    ) from None
+        for idx, (name, ll) in enumerate(self.lead_lags.items()):
+            if not ll:
+                raise EndogIndexError(
+                    f"variable '{name}' was declared as endog but "
+                    "was not seen at any time period"
+                )
+
+            if min(ll) < -1 or max(ll) > 1:
+                raise EndogIndexError(
+                    f"variable '{name}' was seen at periods {ll}. leads and lags "
+                    "cannot be longer than one period"
+                )
+
+            llx[np.array(ll) + 1, idx] = 1
+
+        # variables are always determined at time t, even when no equation uses them
+        llx[1, :] = 1
 
         # number of endog variables incidences at all periods. then replace indicators
         #   with the jacobian column index
-- 
2.43.0


From a01458a8e5c8834771999cd8505f45d765448a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:15 +0000
Subject: [PATCH 31/78] fix: models can be built step by step, starting from an
 empty one

---
 pynare/core/generic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index 17f90d6..8a67f5c 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -262,7 +262,7 @@ class DynamicModel(StructuredModel):
         #   attributes of the same name, without the leading underscore
         self._indexes = VariableIndexManager(self.endog, self.stoch)
         self._dynamic_repr = DynamicRepr(self)
-        self._statespace = StateSpace(self)
+        self._statespace = None
 
 
     def add_stoch(self, stoch, **kwargs):
@@ -347,6 +347,10 @@ class DynamicModel(StructuredModel):
         if self.is_altered:
             self.update()
 
+        # the model might not be complete before its state space is needed
+        if self._statespace is None:
+            self._statespace = StateSpace(self)
+
         return self._statespace
 
 
@@ -435,7 +439,7 @@ class DynamicModel(StructuredModel):
         self._indexes = VariableIndexManager(self.endog, self.stoch)
         self._steady_repr = SteadyRepr(self)
         self._dynamic_repr = DynamicRepr(self)
-        self._statespace = StateSpace(self)
+        self._statespace = None
 
 
     def copy(self):
-- 
2.43.0


From b853d1f59123c77ba76a2a04e7e88c08d70faac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:56 +0000
Subject: [PATCH 32/78] fix: variables can be added to a model

---
 pynare/core/variables.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 75ac17b..dc3aa9b 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -48,9 +48,9 @@ class VarArray(np.ndarray):
         self.vtype = first
         self.names = np.array(names, dtype=str)
 
-    def __array_ufunc__(self, func, types, args, kwargs):
+    def __array_function__(self, func, types, args, kwargs):
         """
-        this method is called by top-level numpy methods. it might have to be extended
+        this method is called by top-level numpy functions. it might have to be extended
         at some point, but for the moment, the collection of variables in VarArray just
         needs to be maleable
         """
@@ -65,10 +65,7 @@ class VarArray(np.ndarray):
 
             return VarArray(variables)
 
-        if not all(issubclass(t, VarArray) for t in types):
-            return NotImplemented
-
-        return NotImplemented
+        return super().__array_function__(func, types, args, kwargs)
 
     def __contains__(self, obj):
         if isinstance(obj, str):
-- 
2.43.0


From 09209c440e43e5c3453c5f9db5221634e569359f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:56 +0000
Subject: [PATCH 33/78] fix: moments of a new exogenous variable can be given
 when it is added

---
 pynare/core/generic.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index 8a67f5c..bda072d 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -20,7 +20,24 @@ from pynare.core.variables import (
 from pynare.core.steady import SteadyState
 from pynare.core.solve import StateSpace
 
-from pynare.utils.dtypes import is_iterable_not_str
+from pynare.utils.dtypes import (
+    is_iterable_not_str,
+    is_number,
+    ensure_list
+)
+
+
+
+def _definitions(names, kwargs):
+    """
+    definitions of new exogenous variables, `name: attributes`, from the keywords
+    that apply to all of `names` or from a complete `shocks` dictionary
+    """
+    if 'shocks' in kwargs:
+        return kwargs['shocks']
+    if not kwargs:
+        return {}
+    return {str(n): kwargs for n in ensure_list(names)}
 
 
 
@@ -281,7 +298,7 @@ class DynamicModel(StructuredModel):
         -------
         None
         """
-        _stoch = _create_stoch_vars(stoch, **kwargs)
+        _stoch = _create_stoch_vars(stoch, shocks=_definitions(stoch, kwargs))
         self.stoch = np.concatenate((self.stoch, _stoch))
 
         self.is_altered = True
@@ -302,7 +319,7 @@ class DynamicModel(StructuredModel):
         -------
         None
         """
-        _determ = _create_determ_vars(determ, **kwargs)
+        _determ = _create_determ_vars(determ, shocks=_definitions(determ, kwargs))
         self.determ = np.concatenate((self.determ, _determ))
 
         self.is_altered = True
-- 
2.43.0


From c1a839560977b2bfd060a40a31eef26ea12d8449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:56 +0000
Subject: [PATCH 34/78] fix: a shock may be correlated with several others, or
 have no stated variance

---
 pynare/core/generic.py    | 17 ++++++++---------
 pynare/core/variables.py  | 15 ++++++++++++++-
 pynare/parsing/factory.py |  6 ++----
 3 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index bda072d..7952f9b 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -419,27 +419,26 @@ class DynamicModel(StructuredModel):
         """
 
         # pre-allocate
-        stoch_names = self.stoch.names
         n_stoch = len(self.stoch)
         sig = np.zeros((n_stoch, n_stoch), dtype=float)
 
         # first initialize variance, in case a correlated variable is given
         #    and needs to be rescaled to covariance
         for i, shk in enumerate(self.stoch):
-            if isinstance(shk.variance, (int, float)):
+            if is_number(shk.variance):
                 sig[i, i] = shk.variance
 
         for i, shk in enumerate(self.stoch):
-            if isinstance(shk.corr, (int, float)):
-                j = np.where(stoch_names == shk.other)[0]
-                cov = np.sqrt(shk.variance*sig[j, j]) * shk.corr
+            for other, corr in shk.pairs('corr'):
+                j = self.stoch.get_loc(other)
+                cov = np.sqrt(sig[i, i]*sig[j, j]) * corr
 
                 sig[i, j], sig[j, i] = cov, cov
 
-            # with an `if` here, any correlated variables that are declared as
-            #    covarying ones later in the shock block are overwritten
-            if isinstance(shk.cov, (int, float)):
-                j, cov = np.where(stoch_names == shk.other)[0], shk.cov
+            # any correlated variables that are declared as covarying ones later in
+            #    the shock block are overwritten
+            for other, cov in shk.pairs('cov'):
+                j = self.stoch.get_loc(other)
                 sig[i, j], sig[j, i] = cov, cov
 
         return sig
diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index dc3aa9b..811b721 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -209,6 +209,17 @@ class StochVar(ExogVar):
         self.corr = corr
         self.cov = cov
 
+    def pairs(self, moment: str):
+        """
+        the (other variable, value) pairs of a `moment`, one of 'corr' and 'cov'
+        """
+        value = getattr(self, moment)
+        if value is None:
+            return []
+        if isinstance(value, dict):
+            return list(value.items())
+        return [(self.other, value)]
+
     def __repr__(self):
         name = self.name
         if self.other:
@@ -325,6 +336,7 @@ def _create_stoch_vars(
             `variance` : the variance of the shock `name`
             `corr`     : the correlation of `name` and `other`
             `cov`      : the covariance of `name` and `other`
+        `corr` and `cov` may also be dicts of the form `other: moment`
 
     Returns
     -------
@@ -339,7 +351,8 @@ def _create_stoch_vars(
         if isinstance(name, StochVar):
             return name
 
-        shock_dict = shocks.get(name, default_dict)
+        # the variance is one unless something else is said about it
+        shock_dict = {**default_dict, **shocks.get(name, {})}
         return StochVar(name, **shock_dict)
 
     if is_iterable_not_str(names):
diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index 2893c87..f1985a4 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -440,13 +440,11 @@ class DynareModelFactory(base.ABCVisitor):
 
             elif shock_type == 'correlated':
                 oname = sdef.other.value
-                shock['other'] = oname
-                shock['corr'] = moment
+                shock.setdefault('corr', {})[oname] = moment
 
             elif shock_type == 'covarying':
                 oname = sdef.other.value
-                shock['other'] = oname
-                shock['cov'] = moment
+                shock.setdefault('cov', {})[oname] = moment
 
             else:
                 raise NotImplementedError(f"unrecognized shock type: {shock_type}")
-- 
2.43.0


From 076ed9fce3192f545ccb0c88af88d4c3f0a7da51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:29 +0000
Subject: [PATCH 35/78] fix: locate several variables by name

---
 pynare/core/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 811b721..68f9010 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -110,7 +110,7 @@ class VarArray(np.ndarray):
                 loc = np.where(name == self.names)[0]
                 if not loc.size:
                     raise KeyError(f"{repr(var)} is not a variable")
-                idx[i] = loc
+                idx[i] = loc.item()
 
             return idx
 
-- 
2.43.0


From 78d2776abdf219a5905603300c3982d82b1ae348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:29 +0000
Subject: [PATCH 36/78] fix: initial values default to zero when other boundary
 values are given

---
 pynare/core/variables.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 68f9010..e78c032 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -162,12 +162,8 @@ class EndogVar(ModelVar):
 
         self.lead_lag = lead_lag
 
-        # if all three boundary values are not provided, default to initial
-        #    value of 0
-        if (terminal is None) and (historical is None):
-            self.initial = initial if initial else 0
-        else:
-            self.initial = initial
+        # the steady-state search has to start somewhere, default to 0
+        self.initial = initial if initial else 0
 
         self.terminal = terminal
         self.historical = historical
-- 
2.43.0


From cc57111b1fb2412f35b3ddb1fbb84f19d203543b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:29 +0000
Subject: [PATCH 37/78] fix: number of regimes when one regime replaces several
 equations

---
 pynare/regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/regimes.py b/pynare/regimes.py
index de4466c..38bac62 100644
--- a/pynare/regimes.py
+++ b/pynare/regimes.py
@@ -65,7 +65,7 @@ class RegimeSwitchingModel(object):
         return self.models[key]
 
     def __len__(self):
-        return len(self.exprs) + 1
+        return len(self.models)
 
     def __repr__(self):
         return f"RegimeSwitchingModel(n={len(self)})"
-- 
2.43.0


From a0113f4a57519e1eae8bf3f272bac537970cb029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:33 +0000
Subject: [PATCH 38/78] fix: notice changes made to the parameters or
 expressions of a model themselves

---
 pynare/core/expressions.py | 11 +++++++++--
 pynare/core/generic.py     | 18 ++++++++++++++++++
 pynare/core/variables.py   |  5 +++++
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index feb357e..834502d 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -31,9 +31,13 @@ class ModelExprs(MutableSequence):
 
     def __init__(self, exprs: Iterable[AST, str] = []):
         super().__init__()
+
+        # number of changes made to the expressions
+        self.version = 0
+
         if isinstance(exprs, ModelExprs):
-            self.exprs = exprs.exprs
-            self.exprs_str = exprs.exprs_str
+            self.exprs = list(exprs.exprs)
+            self.exprs_str = list(exprs.exprs_str)
 
         else:
             self.exprs = [self.parse(ep) for ep in exprs]
@@ -61,11 +65,13 @@ class ModelExprs(MutableSequence):
     def __delitem__(self, key):
         del self.exprs[key]
         del self.exprs_str[key]
+        self.version += 1
 
     def __setitem__(self, key, obj):
         parsed = self.parse(obj)
         self.exprs[key] = parsed
         self.exprs_str[key] = obj if isinstance(obj, str) else ''
+        self.version += 1
 
     def insert(self, key, obj):
         parsed = self.parse(obj)
@@ -73,6 +79,7 @@ class ModelExprs(MutableSequence):
 
         obj_str = obj if isinstance(obj, str) else ''
         self.exprs_str.insert(key, obj_str)
+        self.version += 1
 
     def append(self, obj):
         self.insert(len(self), obj)
diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index 7952f9b..e8163c8 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -84,6 +84,24 @@ class ModelSkeleton(object):
         #    around it yet
         self.is_altered = False
 
+    @property
+    def is_altered(self):
+        """
+        whether the model was changed since its representations were last updated,
+        which includes changes made to the parameters or expressions themselves
+        """
+        return self._is_altered or self._versions() != self._updated_versions
+
+    @is_altered.setter
+    def is_altered(self, value):
+        self._is_altered = value
+        if not value:
+            self._updated_versions = self._versions()
+
+    def _versions(self):
+        exprs = getattr(self, 'exprs', None)
+        return self.params.version, getattr(exprs, 'version', 0)
+
     def __repr__(self):
         class_ = self.__class__.__name__
         if self.name:
diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index e78c032..2e77dd8 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -799,6 +799,9 @@ class ModelCalibration(MutableMapping):
         self.defs = dict(defs.defs if isinstance(defs, ModelCalibration) else defs)
         self.calib = solve_calibration(self.defs)
 
+        # number of changes made to the calibration
+        self.version = 0
+
     def __getitem__(self, key):
         try:
             return self.calib[key]
@@ -810,12 +813,14 @@ class ModelCalibration(MutableMapping):
         defs = {**self.defs, key: value}
         self.calib = solve_calibration(defs) # inefficient
         self.defs = defs
+        self.version += 1
 
     def __delitem__(self, key):
         defs = dict(self.defs)
         del defs[key]
         self.calib = solve_calibration(defs)
         self.defs = defs
+        self.version += 1
 
     def __iter__(self):
         return iter(self.calib)
-- 
2.43.0


From b2cea6b77ce723679deadfb66142dab5981d67e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:33 +0000
Subject: [PATCH 39/78] fix: a failed update leaves a model altered

---
 pynare/core/generic.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index e8163c8..df51cfa 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -465,15 +465,21 @@ class DynamicModel(StructuredModel):
     def update(self, *args, **kwargs):
         self.is_altered = False
 
-        self.endog = set_lead_lags(self.endog, self.exprs)
-        self._sigma = self._define_sigma()
-
-        # structural features. steady, dynamic, statespace order is important,
-        #   which I'm not particularly fond of...
-        self._indexes = VariableIndexManager(self.endog, self.stoch)
-        self._steady_repr = SteadyRepr(self)
-        self._dynamic_repr = DynamicRepr(self)
-        self._statespace = None
+        try:
+            self.endog = set_lead_lags(self.endog, self.exprs)
+            self._sigma = self._define_sigma()
+
+            # structural features. steady, dynamic, statespace order is important,
+            #   which I'm not particularly fond of...
+            self._indexes = VariableIndexManager(self.endog, self.stoch)
+            self._steady_repr = SteadyRepr(self)
+            self._dynamic_repr = DynamicRepr(self)
+            self._statespace = None
+
+        except Exception:
+            # nothing of the previous version of the model can be used
+            self.is_altered = True
+            raise
 
 
     def copy(self):
-- 
2.43.0


From e7d7b4476c66c8538ee9eb534a0e8f862fff9230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:33 +0000
Subject: [PATCH 40/78] fix: the solution of a model is dropped when the model
 changes

---
 pynare/core/model.py | 18 ++++++++++++++++++
 pynare/simul.py      |  5 +----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/pynare/core/model.py b/pynare/core/model.py
index 4a6699c..60345af 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -321,6 +321,8 @@ class Model(DynamicModel):
         explicitly been called, then the default parameter values are used to
         derive the solution
         """
+        self._drop_outdated_solution()
+
         try:
             return self._solution
         except AttributeError:
@@ -328,11 +330,25 @@ class Model(DynamicModel):
             return self._solution
 
 
+    def update(self, *args, **kwargs):
+        super().update(*args, **kwargs)
+
+        # the solution is not that of the updated model
+        self.__dict__.pop('_solution', None)
+
+
+    def _drop_outdated_solution(self):
+        if self.is_altered:
+            self.update()
+
+
     @property
     def solution_order(self):
         """
         returns the solution order. if the model hasn't been solved yet, return None
         """
+        self._drop_outdated_solution()
+
         try:
             return self._solution.order
         except AttributeError:
@@ -346,6 +362,8 @@ class Model(DynamicModel):
         solved at order 1, return. if the model is already solved at order 2, return
         the reference to `lower_solution`. if not solve, solve at default order
         """
+        self._drop_outdated_solution()
+
         try:
             sol = self._solution
         except AttributeError:
diff --git a/pynare/simul.py b/pynare/simul.py
index 1555eed..d7d5891 100644
--- a/pynare/simul.py
+++ b/pynare/simul.py
@@ -314,10 +314,7 @@ def simulate(
         solution = model.solve(order=order)
     else:
         # if no `order`, use existing solution if there is one. otherwise, default
-        try:
-            solution = model._solution
-        except AttributeError:
-            solution = model.solve()
+        solution = model.solution
 
     if isinstance(solution, LinearSolution):
         simulator = LinearSimulator(model)
-- 
2.43.0


From 714401e1e16034e5be76eb6bfd851e53586fd8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 41/78] fix: consecutive function calls without an operator are
 a syntax error

---
 pynare/parsing/parser.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index ef36e1f..2ec52e4 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -102,9 +102,9 @@ class BaseParser(object):
 
         we don't call the lower-level method first like we do in other expression
         methods, because the atom() method doesn't recognize tokens of type
-        FUNCTION. Instead we do the try ... except below
+        FUNCTION
         """
-        while self.current_token.type == base.FUNCTION:
+        if self.current_token.type == base.FUNCTION:
             token = self.current_token
             self.eat(base.FUNCTION)
             self.eat(base.LPARE)
@@ -115,11 +115,9 @@ class BaseParser(object):
             )
 
             self.eat(base.RPARE)
-
-        try:
             return node
-        except UnboundLocalError:
-            return self.atom()
+
+        return self.atom()
 
     def exponent(self) -> AST:
         """
@@ -534,7 +532,7 @@ class DynareParser(BaseParser):
         self.error()
 
     def mcall(self) -> AST:
-        while self.current_token.type == base.FUNCTION:
+        if self.current_token.type == base.FUNCTION:
             token = self.current_token
             self.eat(base.FUNCTION)
             self.eat(base.LPARE)
@@ -543,11 +541,9 @@ class DynareParser(BaseParser):
                 expr=self.mexpr()
             )
             self.eat(base.RPARE)
-
-        try:
             return node
-        except UnboundLocalError:
-            return self.matom()
+
+        return self.matom()
 
     def mexponent(self) -> AST:
         node = self.mcall()
-- 
2.43.0


From cd1314e61c330d24412024adf93cd7721b508834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 42/78] fix: a declaration cannot begin with a comma

---
 pynare/parsing/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index 2ec52e4..752b45d 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -298,8 +298,8 @@ class DynareParser(BaseParser):
         variables_of_type = list()
         while self.current_token.type in (base.COMMA, base.ID):
 
-            if self.current_token.type == base.COMMA:
-                # commas are optional in variable declaration
+            if self.current_token.type == base.COMMA and variables_of_type:
+                # commas are optional between variables in the declaration
                 self.eat(base.COMMA)
 
             variables_of_type.append(self.variable())
-- 
2.43.0


From 6eacb5b3bb38cac3cef2ceaeb51c703dedbfd768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 43/78] fix: blocks that appear more than once complement each
 other

---
 pynare/parsing/ast.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pynare/parsing/ast.py b/pynare/parsing/ast.py
index f3023bb..aaacf75 100644
--- a/pynare/parsing/ast.py
+++ b/pynare/parsing/ast.py
@@ -337,7 +337,10 @@ class ModelActions(AST):
         self.boundaries.set_boundary(values, boundary)
 
     def set_shocks(self, shocks):
-        self.shocks = shocks
+        if self.shocks is None:
+            self.shocks = shocks
+        else:
+            self.shocks.extend(shocks._list)
 
 
 class ModelBoundaryValues(AST):
@@ -348,7 +351,10 @@ class ModelBoundaryValues(AST):
         self.histval = None
 
     def set_boundary(self, values, boundary):
-        setattr(self, boundary, values)
+        if getattr(self, boundary) is None:
+            setattr(self, boundary, values)
+        else:
+            getattr(self, boundary).extend(values._list)
 
 
 class ShocksBlock(ArgCompoundASTList):
-- 
2.43.0


From 41f391214e439809c001208bdcec3df542596c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:16 +0000
Subject: [PATCH 44/78] fix: differentiate equations with an explicit plus sign

---
 pynare/parsing/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/parsing/base.py b/pynare/parsing/base.py
index 62e3271..6602dd8 100644
--- a/pynare/parsing/base.py
+++ b/pynare/parsing/base.py
@@ -205,7 +205,7 @@ class _BaseEvaluator(ABCVisitor):
 
     def visit_UnaryOp(self, node):
         if node.op.type == PLUS:
-            return + self.visit(node.expr)
+            return self.visit(node.expr)
         elif node.op.type == MINUS:
             return - self.visit(node.expr)
 
-- 
2.43.0


From 76b12eaf806e50a3354cccd51e7282569fc876f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:16 +0000
Subject: [PATCH 45/78] fix: derivatives of powers whose exponent is zero

---
 pynare/parsing/base.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pynare/parsing/base.py b/pynare/parsing/base.py
index 6602dd8..8981d25 100644
--- a/pynare/parsing/base.py
+++ b/pynare/parsing/base.py
@@ -10,6 +10,7 @@ from copy import deepcopy
 #    evaluating derivatives
 import autograd.numpy as np
 from autograd.scipy.special import erf
+from autograd.tracer import isbox
 
 import pynare.parsing.ast as ast
 
@@ -151,6 +152,16 @@ class ABCVisitor(object):
         raise Exception(f'No visit_{type(node).__name__} method')
 
 
+def power(x, y):
+    """
+    autograd's power has wrong cross derivatives where the exponent is zero, so a
+    variable exponent is differentiated by the equivalent exponential
+    """
+    if isbox(y) and x > 0:
+        return np.exp(y * np.log(x))
+    return x ** y
+
+
 class BaseEvaluator(object):
 
     def __new__(
@@ -189,7 +200,7 @@ class _BaseEvaluator(ABCVisitor):
         elif node.op.type == DIV:
             return self.visit(node.left) / self.visit(node.right)
         elif node.op.type == POWER:
-            return self.visit(node.left) ** self.visit(node.right)
+            return power(self.visit(node.left), self.visit(node.right))
 
     def visit_CompOp(self, node):
         if node.op.type == LT:
-- 
2.43.0


From 4cf4b7cd563bd7d5e7b00f0b79c38f4d54e8016d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:43 +0000
Subject: [PATCH 46/78] fix: simulate the solution that a model has, instead of
 solving it anew

---
 pynare/simul.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pynare/simul.py b/pynare/simul.py
index d7d5891..689fc95 100644
--- a/pynare/simul.py
+++ b/pynare/simul.py
@@ -153,7 +153,6 @@ class ModelSimulator(object):
 
     def __init__(self, model):
         self.model = model
-        self.model.update()
 
 
 
-- 
2.43.0


From 0918d7a092277c6083d844b9c11f09915779d2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:09 +0000
Subject: [PATCH 47/78] fix: reading the shock covariance leaves the solution
 of a model in place

---
 pynare/core/generic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index df51cfa..1248519 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -393,8 +393,10 @@ class DynamicModel(StructuredModel):
     @property
     def sigma(self):
         """returns the covariance matrix of the stochastic shocks"""
-        if self.is_altered or not hasattr(self, '_sigma'):
+        if self.is_altered:
             self.update()
+        if not hasattr(self, '_sigma'):
+            self._sigma = self._define_sigma()
         return self._sigma
 
     @property
-- 
2.43.0


From 7a35534c2b289de3ef189d8df05e575c08be00e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:50 +0000
Subject: [PATCH 48/78] fix: second-order terms of a simulation are those of
 the solution

---
 pynare/simul.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/simul.py b/pynare/simul.py
index 689fc95..cc95b84 100644
--- a/pynare/simul.py
+++ b/pynare/simul.py
@@ -226,7 +226,7 @@ class LinearSimulator(ModelSimulator):
         sol = self.model.solution
         first_sol = sol.lower_solution
         ghxx, ghxu, ghuu, del2 = unp.ensure_2darray(
-            (sol.ghxx/2, sol.ghxu, sol.ghuu/2, sol.del2/2))
+            (sol.ghxx, sol.ghxu, sol.ghuu, sol.del2))
         gy, gu = first_sol.gy, first_sol.gu
 
         # index management. use array of indices because of kronecker products
-- 
2.43.0


From b3a9f6cd6223e161f7f1e2d950ff9226439d807b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:38 +0000
Subject: [PATCH 49/78] fix: simulate models with one state or one shock, or
 without states or shocks

---
 pynare/simul.py | 45 +++++++++++++++++----------------------------
 1 file changed, 17 insertions(+), 28 deletions(-)

diff --git a/pynare/simul.py b/pynare/simul.py
index cc95b84..e35308b 100644
--- a/pynare/simul.py
+++ b/pynare/simul.py
@@ -164,11 +164,7 @@ class LinearSimulator(ModelSimulator):
         # locating the t-1 state variables in dr order
         self.dr_order = self.model.indexes.dr_order
 
-        lag_state_maybe_scalar = self.model.indexes.dr.state
-        try:
-            self.lag_state = lag_state_maybe_scalar.item()
-        except ValueError:
-            self.lag_state = lag_state_maybe_scalar
+        self.lag_state = np.atleast_1d(self.model.indexes.dr.state)
 
     def _simulate_first_order(
         self,
@@ -186,22 +182,17 @@ class LinearSimulator(ModelSimulator):
         paths[0, :] = init - ys
 
         # policy matrices and innovations to endogenous variables
-        gy, gu = self.model.solution.gy, self.model.solution.gu
-        gu_arr = unp.ensure_2darray(gu)
-        innovs = np.matmul(shocks, np.transpose(gu_arr))
+        sol = self.model.solution
+        gy, gu = unp.ensure_2darray((sol.gy, sol.gu))
+        innovs = np.matmul(shocks, np.transpose(gu))
 
         # index management
         dr_order = self.dr_order
         dr_state = dr_order[self.lag_state]
 
-        if gu.size == 0:
-            raise NotImplementedError("cannot simulate deterministic models yet")
-        elif gy.size == 0:
-            raise NotImplementedError("can't simulate purely forward-looking models yet")
-        else:
-            for t in range(1, T):
-                yhat = paths[t-1, dr_state]
-                paths[t, dr_order] = np.dot(gy, yhat) + innovs[t-1, :]
+        for t in range(1, T):
+            yhat = paths[t-1, dr_state]
+            paths[t, dr_order] = np.dot(gy, yhat) + innovs[t-1, :]
 
         # move from deviation space to level space
         paths = paths + ys
@@ -225,28 +216,26 @@ class LinearSimulator(ModelSimulator):
         # policy matrices
         sol = self.model.solution
         first_sol = sol.lower_solution
-        ghxx, ghxu, ghuu, del2 = unp.ensure_2darray(
-            (sol.ghxx, sol.ghxu, sol.ghuu, sol.del2))
-        gy, gu = first_sol.gy, first_sol.gu
+        ghxx, ghxu, ghuu, del2 = sol.ghxx, sol.ghxu, sol.ghuu, sol.del2
+        gy, gu = unp.ensure_2darray((first_sol.gy, first_sol.gu))
 
-        # index management. use array of indices because of kronecker products
+        # index management
         dr_order = self.dr_order
-        lag = [self.lag_state] if isinstance(self.lag_state, int) else self.lag_state
-        dr_state = dr_order[lag]
+        dr_state = dr_order[self.lag_state]
 
-        const = del2.squeeze() + ys[dr_order]
+        const = del2 + ys[dr_order]
         for t in range(1, T):
             yhat = paths[t-1, dr_state] - ys[dr_state]
             ut = shocks[t-1, :]
 
             # first-order terms
-            dy = unp.matmul_scalar(gy, yhat)
-            du = unp.matmul_scalar(gu, ut)
+            dy = np.dot(gy, yhat)
+            du = np.dot(gu, ut)
 
             # second-order terms
-            dydy = unp.matrix_kronecker_product(ghxx, yhat)
-            dudu = unp.matrix_kronecker_product(ghuu, ut)
-            dydu = unp.matrix_kronecker_product(ghxu, yhat, ut)
+            dydy = np.dot(ghxx, np.kron(yhat, yhat))
+            dudu = np.dot(ghuu, np.kron(ut, ut))
+            dydu = np.dot(ghxu, np.kron(yhat, ut))
 
             paths[t, dr_order] = const + dy + du + dydy + dudu + dydu
 
-- 
2.43.0


From 8f669f344d563e65c538edc4b938898335358860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:36 +0000
Subject: [PATCH 50/78] fix: simulate models whose shock covariance is singular

---
 pynare/simul.py       |  3 +--
 pynare/utils/numpy.py | 42 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/pynare/simul.py b/pynare/simul.py
index e35308b..3ef398f 100644
--- a/pynare/simul.py
+++ b/pynare/simul.py
@@ -5,7 +5,6 @@ from __future__ import annotations
 
 import numpy as np
 import pandas as pd
-from scipy import linalg
 
 import pynare.utils.numpy as unp
 from pynare.core.solve.base import LinearSolution
@@ -324,7 +323,7 @@ def _generate_simul_shocks(
     matrix of the model's shocks and the number of periods
     """
 
-    corr_struct = linalg.cholesky(model.sigma)
+    corr_struct = np.transpose(unp.cholesky_semidefinite(model.sigma))
 
     if shocks is None:
         n_exog = len(model.stoch)
diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index 3898f0e..5ba708a 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -296,6 +296,48 @@ def partitioned_qz(
 
 
 
+def cholesky_semidefinite(
+    A: np.ndarray
+):
+    """
+    lower-triangular factor `L` of a symmetric matrix, so that A = L*L^t. unlike the
+    usual cholesky decomposition, the matrix only needs to be positive semi-definite,
+    e.g. some of the variances in a covariance matrix may be zero
+
+    Parameters
+    ----------
+    A : numpy ndarray
+        an (n, n) symmetric, positive semi-definite matrix
+
+    Returns
+    -------
+    L : numpy ndarray
+        the (n, n) lower-triangular factor. columns associated with redundant rows
+        of `A` are zero
+    """
+    A = np.asarray(A, dtype=float)
+    try:
+        return np.linalg.cholesky(A)
+    except np.linalg.LinAlgError:
+        pass
+
+    n = A.shape[0]
+    L = np.zeros((n, n), dtype=float)
+    scale = np.sqrt(np.abs(np.diag(A)))
+
+    for j in range(n):
+        col = A[j:, j] - np.matmul(L[j:, :j], L[j, :j])
+        tol = 1e-10 * scale[j] * scale[j:]
+
+        if col[0] > tol[0]:
+            L[j:, j] = col / np.sqrt(col[0])
+        elif np.any(np.abs(col) > np.sqrt(1e-10) * scale[j] * scale[j:]):
+            raise np.linalg.LinAlgError("matrix is not positive semi-definite")
+
+    return L
+
+
+
 def array_shingle(
     a0: np.ndarray,
     a1: np.ndarray,
-- 
2.43.0


From 14f0f38efc0c369b062dc2668210078378fc58fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:07 +0000
Subject: [PATCH 51/78] fix: mean of a model solved at second order

---
 pynare/stats/moments.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pynare/stats/moments.py b/pynare/stats/moments.py
index f498047..d0a2f0a 100644
--- a/pynare/stats/moments.py
+++ b/pynare/stats/moments.py
@@ -47,16 +47,16 @@ def mean(md: Model):
         del2, ghxx, ghuu = md.solution.del2, md.solution.ghxx, md.solution.ghuu
 
         # x_{t+1} = g_{xt+1, x}*x_t + g_{ut+1}*u_{t+1}
-        #               + (1/2) * (del2 + G_{x,x}*x_t^2 + G_{u,u}*u_t^2
-        # yields E[x] = g_{xt+1,x}*E[x] + (1/2)*(del2 + G_{x,x}*Var[x] + G_{u,u}*Var[u]
-        second_order = (del2[dr_sidx] + np.dot(ghxx[dr_sidx], var_state.flatten()) \
-            + np.dot(ghuu[dr_sidx], md.sigma.flatten()))/2
-        expt_x = linalg.solve(np.eye(*g_xtp1x.shape) - g_xtp1x, second_order)
+        #               + del2 + G_{x,x}*x_t^2 + G_{u,u}*u_t^2
+        # where the arrays of the second-order solution include the factor of 1/2
+        # yields E[x] = g_{xt+1,x}*E[x] + del2 + G_{x,x}*Var[x] + G_{u,u}*Var[u]
+        second_order = del2 + np.dot(ghxx, var_state.flatten()) \
+            + np.dot(ghuu, md.sigma.flatten())
+        expt_x = linalg.solve(np.eye(*g_xtp1x.shape) - g_xtp1x, second_order[dr_sidx])
 
         # calculate mean adjustment for observables & make them declaration order
-        adj_mean_inv = unp.matmul_scalar(md.solution.lower_solution.gy, expt_x) \
-            + ( del2 + unp.matmul_scalar(ghxx, var_state.flatten()) \
-            + unp.matmul_scalar(ghuu, md.sigma.flatten()) ) / 2
+        gy = unp.ensure_2darray(md.solution.lower_solution.gy)
+        adj_mean_inv = np.dot(gy, expt_x) + second_order
         adj_mean = adj_mean_inv[md.indexes.dc_order]
 
         return ss + adj_mean
-- 
2.43.0


From 7b8d0978673607fe9ff85e21e20718a2fec12a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:07 +0000
Subject: [PATCH 52/78] fix: number of autocorrelations can be given as a
 positional argument

---
 pynare/stats/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/stats/stats.py b/pynare/stats/stats.py
index f9c6044..34612aa 100644
--- a/pynare/stats/stats.py
+++ b/pynare/stats/stats.py
@@ -43,7 +43,7 @@ class ModelStatistics(object):
         try:
             func = self.features[attr]
 
-            feature_func = partial(func, md=self.model)
+            feature_func = partial(func, self.model)
             feature_func.__doc__ = func.__doc__
             return feature_func
 
-- 
2.43.0


From 0c9b3f33fec0c288ac79f0d53008676252337b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:07 +0000
Subject: [PATCH 53/78] fix: shocks without variance have no share in a
 variance decomposition

---
 pynare/stats/var.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pynare/stats/var.py b/pynare/stats/var.py
index 6e70982..29c1080 100644
--- a/pynare/stats/var.py
+++ b/pynare/stats/var.py
@@ -75,10 +75,8 @@ def var_decomp(
     gy_dc, gu_dc = gy[md.indexes.dc_order], gu[md.indexes.dc_order, :]
     g_xtp1x, g_utp1 = md.statespace.kalman_transition
 
-    # perturb and decompose variance matrix
-    decomp_tol = 1e-12
-    perturb_sigma = md.sigma + decomp_tol*np.eye(*md.sigma.shape, dtype=float)
-    sig_chol = linalg.cholesky(perturb_sigma, lower=True)
+    # decompose variance matrix
+    sig_chol = unp.cholesky_semidefinite(md.sigma)
 
     state_chol = np.matmul(g_utp1, sig_chol)
     gu_chol = np.matmul(gu_dc, sig_chol)
-- 
2.43.0


From 5adca9bbe706ddd05b5cc67d5ba90af95bcef87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:30 +0000
Subject: [PATCH 54/78] fix: name of the shock is checked in variance
 decompositions of one-shock models

---
 pynare/stats/var.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pynare/stats/var.py b/pynare/stats/var.py
index 29c1080..f99f901 100644
--- a/pynare/stats/var.py
+++ b/pynare/stats/var.py
@@ -41,6 +41,10 @@ def var_decomp(
         # quick check for models with only one stochastic variable
         decomp_shares = np.ones((len(md.endog), 1), dtype=float)
 
+        for sc in ensure_list(stoch) if stoch else []:
+            if sc not in md.stoch.names:
+                raise ValueError(f"'{sc}' is not a stochastic variable")
+
         if endog:
             endog_names = md.endog.names
             endog_idx = []
-- 
2.43.0


From 717ae45e7930a11c6e836f1818524df930c86d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 55/78] fix: model files can be given as path objects

---
 pynare/core/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pynare/core/model.py b/pynare/core/model.py
index 60345af..869510a 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -2,6 +2,7 @@
 from __future__ import annotations
 
 import copy
+import os
 from functools import cached_property
 
 from pynare.core.variables import ModelCalibration
@@ -84,6 +85,8 @@ class Model(DynamicModel):
         -------
         Model
         """
+        filepath = os.fspath(filepath)
+
         try:
             model_definition = read_file(filepath)
         except FileNotFoundError:
-- 
2.43.0


From 45c59031f782d93433d24707cc9317cbff70b692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:17 +0000
Subject: [PATCH 56/78] fix: policy summaries do not rely on np.in1d, which
 numpy 2.4 no longer has

---
 pynare/io/summary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index 6530636..c6afb4b 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -401,7 +401,7 @@ class FirstOrderSummary(SolutionSummary):
         # reorder gy columns (displayed as rows in string) to declaration order
         #   to align with labels, and match stoch vars which are also in dc order
         dr_idx = idx.dr_order
-        gy = gy[:, np.argsort(dr_idx[np.in1d(dr_idx, idx.state)])]
+        gy = gy[:, np.argsort(dr_idx[np.isin(dr_idx, idx.state)])]
 
         arr = np.transpose(np.hstack((ss, gy, gu)))
 
@@ -532,7 +532,7 @@ class SecondOrderSummary(SolutionSummary):
         #   to align with labels, and match stoch vars which are also in dc order
         idx = self.obj.model.indexes
         dr_idx = idx.dr_order
-        st_idx = np.argsort(dr_idx[np.in1d(dr_idx, idx.state)])
+        st_idx = np.argsort(dr_idx[np.isin(dr_idx, idx.state)])
 
         # reorder the second-order matrices in the same was as gy
         n_st, n_exog = len(st_idx), self.obj.model.indexes.n_exog
-- 
2.43.0


From 2d3ad8bd874bae01d09787a764112e871932db9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:52 +0000
Subject: [PATCH 57/78] fix: second-order summary shows each state-shock
 coefficient next to its own label

---
 pynare/io/summary.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index c6afb4b..d937d39 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -537,8 +537,7 @@ class SecondOrderSummary(SolutionSummary):
         # reorder the second-order matrices in the same was as gy
         n_st, n_exog = len(st_idx), self.obj.model.indexes.n_exog
         gyx_idx = n_st*np.repeat(st_idx, n_st) + np.tile(st_idx, n_st)
-        gyu_idx = n_st*np.repeat(np.arange(n_exog), n_st) \
-            + np.tile(np.arange(n_st), n_exog)
+        gyu_idx = n_exog*np.repeat(st_idx, n_exog) + np.tile(np.arange(n_exog), n_st)
 
         gy = gy[:, st_idx]
         gyx = gyx[:, gyx_idx]
-- 
2.43.0


From 44504dc9fbbd9a3c44697e15e1c7f82109a1e866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:52 +0000
Subject: [PATCH 58/78] fix: summary thresholds apply to magnitudes and select
 rows of the first-order policy

---
 pynare/io/summary.py | 59 +++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 31 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index d937d39..81bb97e 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -406,26 +406,37 @@ class FirstOrderSummary(SolutionSummary):
         arr = np.transpose(np.hstack((ss, gy, gu)))
 
         arr_dc = arr[:, self.obj.model.indexes.dc_order]
+
+        # select rows which meet threshold, always displaying the steady state
+        if self.thresh is not None:
+            thresh = 10.**(-(self.sig + self.thresh))
+            tloc = ~np.all(np.absolute(arr_dc) < thresh, axis=1)
+            tloc[0] = True
+        else:
+            tloc = np.ones(arr_dc.shape[0], dtype=bool)
+
         arr_str = _summarize_array(
-            arr=arr_dc,
+            arr=arr_dc[tloc],
             labels=endog,
             sig=self.sig,
-            use_labels=True,
-            thresh=self.thresh
+            use_labels=True
         )
 
-        # with widths matched, we split the arrays
-        n_gy, n_gu = gy.shape[1], gu.shape[1]
-        gy_str, gu_str = arr_str[:n_gy+2], arr_str[-n_gu:]
-        return gy_str, gu_str
-
-    def row_labels(self):
+        # with widths matched, we split the arrays. the first row is the heading
+        n_gy = 1 + np.count_nonzero(tloc[:1+gy.shape[1]])
+        gy_str, gu_str = arr_str[:n_gy], arr_str[n_gy:]
 
+        # labels of the rows displayed
         state = [f"{st}(-1)" for st in self.obj.model.state_vars.names]
         stoch = self.obj.model.stoch.names
+        labels = np.concatenate((['steady'], state, stoch))[tloc]
 
-        # join variable names and find maximum length
-        labels = np.concatenate((['', 'steady'], state, [''], stoch))
+        return gy_str, gu_str, labels
+
+    def row_labels(self, labels, n_gy):
+
+        # blank rows for the heading and the separator
+        labels = ['', *labels[:n_gy-1], '', *labels[n_gy-1:]]
         lpad = max(map(len, labels)) + 1
 
         return [lab.ljust(lpad) for lab in labels]
@@ -435,8 +446,8 @@ class FirstOrderSummary(SolutionSummary):
         feat = [heading]
 
         # lists of strings for the policy arrays, then state and stoch vars
-        gyn, gun = self.policy_arrays()
-        labels = self.row_labels()
+        gyn, gun, names = self.policy_arrays()
+        labels = self.row_labels(names, len(gyn))
 
         # mostly blank row with plus sign in the middle
         n_chars = len(gyn[0])
@@ -477,10 +488,10 @@ class SecondOrderSummary(SolutionSummary):
         # based on the chosen significant digits and theshold value, select a subset
         #   of the columns to print
         if self.thresh is not None:
-            thresh = 10**(-(self.sig + self.thresh))
+            thresh = 10.**(-(self.sig + self.thresh))
         else:
-            thresh = 10**(-self.sig)
-        tloc = ~np.all(arr_dc < thresh, axis=1)
+            thresh = 10.**(-self.sig)
+        tloc = ~np.all(np.absolute(arr_dc) < thresh, axis=1)
 
         # always display steady state and del2 array
         tloc[0] = True
@@ -630,26 +641,12 @@ def _summarize_array(
     arr: np.ndarray,
     labels: Iterable[str],
     sig: int,
-    use_labels: bool = True,
-    thresh: float = None
+    use_labels: bool = True
 ):
     """
 
     """
 
-    # optionally select a subset of displayed array
-    if thresh is not None:
-        thresh_ = 10 ** (-(sig + thresh))
-        pidx = ~np.all(arr < thresh_, axis=1)
-    else:
-        pidx = np.ones(arr.shape[1], dtype=bool)
-
-    # ensure that `labels` is an array so indexing with list works right
-    labels = np.array(labels)
-
-    # only select rows that meet threshold
-    arr, labels = arr[:, pidx], labels[pidx]
-
     # number of points to right and left of decimal. `+3` factors in minus signs
     with np.errstate(divide='ignore', invalid='ignore'):
         # locally silence RuntimeWarnings about dividing by zero or infinity
-- 
2.43.0


From ebff9b7a18d551ea2c9072234f9ddbcca2cf649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:20 +0000
Subject: [PATCH 59/78] fix: summaries and calibrations that hold only zeros,
 or nothing, can be printed

---
 pynare/core/variables.py | 10 ++++------
 pynare/io/summary.py     | 27 ++++++++-------------------
 pynare/utils/numpy.py    | 23 +++++++++++++++++++++++
 3 files changed, 35 insertions(+), 25 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 2e77dd8..b6c7c2e 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -9,6 +9,7 @@ from pynare.errors import (
     CalibrationError
 )
 
+import pynare.utils.numpy as unp
 from pynare.utils.dtypes import is_iterable_not_str
 
 from pynare.parsing import parse_string
@@ -832,14 +833,11 @@ class ModelCalibration(MutableMapping):
         return f"ModelCalibration({len(self)} params)"
 
     def __str__(self):
-        width = max(map(len, self.calib)) + 1
+        width = max(map(len, self.calib), default=0) + 1
         sig, pad = 6, 4*' '
 
-        # number of points to left of decimal. '+3' factors in minus signs
-        with np.errstate(divide='ignore', invalid='ignore'):
-            # locally silence RuntimeWarnings about dividing by zero or infinity
-            values = list(self.calib.values())
-            l = int(np.fix(np.nanmax(np.log10(np.absolute(values)))) + 3)
+        # number of points to left of decimal
+        l = unp.integer_width(list(self.calib.values()))
 
         heading = 'ModelCalibration'
         string = [heading]
diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index 81bb97e..271f022 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -128,11 +128,7 @@ class ModelSummary(Summary):
         r, c, m = np.real(eigs), np.imag(eigs), np.absolute(eigs)
 
         # record number of points to left and right of decimal
-        arr = np.absolute(np.concatenate((r, c, m)))
-        good = (arr > 0) & np.isfinite(arr) & ~np.isnan(arr)
-        with np.errstate(divide='ignore', invalid='ignore'):
-            # locally silence RuntimeWarnings about dividing by zero or infinity
-            l = int(np.floor(np.max(np.log10(arr[good]))) + 3)
+        l = unp.integer_width(np.concatenate((r, c, m)))
         d = self.sig
 
         # float fmt depends on significant digit and magnitude of largest float
@@ -155,12 +151,10 @@ class ModelSummary(Summary):
         print the covariance matrix of shocks
         """
         stoch = self.obj.stoch.names
-        lpad = max(map(len, stoch)) + 1
+        lpad = max(map(len, stoch), default=0) + 1
 
         # record number of points to left and right of decimal
-        with np.errstate(divide='ignore', invalid='ignore'):
-            # locally silence RuntimeWarnings about dividing by zero or infinity
-            l = int(np.floor(np.nanmax(np.log10(np.absolute(self.obj.sigma)))) + 3)
+        l = unp.integer_width(self.obj.sigma)
         d = self.sig
 
         # float fmt depends on significant digit and magnitude of largest float
@@ -189,14 +183,11 @@ class ModelSummary(Summary):
             param_strs = ['partial model calibration:']
 
         # format width and number of digits
-        width = max(map(len, display)) + 1
+        width = max(map(len, display), default=0) + 1
         sig, pad = self.sig, self.pad
 
-        # number of points to left of decimal. '+3' factors in minus signs
-        with np.errstate(divide='ignore', invalid='ignore'):
-            # locally silence RuntimeWarnings about dividing by zero or infinity
-            values = list(display.values())
-            l = int(np.fix(np.nanmax(np.log10(np.absolute(values)))) + 3)
+        # number of points to left of decimal
+        l = unp.integer_width(list(display.values()))
 
         for k, v in display.items():
             row = '= '.join([pad+k.ljust(width), f"{v:{l+sig}.{sig}f}"])
@@ -647,10 +638,8 @@ def _summarize_array(
 
     """
 
-    # number of points to right and left of decimal. `+3` factors in minus signs
-    with np.errstate(divide='ignore', invalid='ignore'):
-        # locally silence RuntimeWarnings about dividing by zero or infinity
-        l = int(np.fix(np.nanmax(np.log10(np.absolute(arr)))) + 3)
+    # number of points to left of decimal
+    l = unp.integer_width(arr)
 
     # horizontal spacing determined by width of label variable name or float repr
     w = max([l+sig] + [len(lab) for lab in labels]) + 1
diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index 5ba708a..f10bcbe 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -64,6 +64,29 @@ def matmul_scalar(
         return np.matmul(x1_, x2_, out=out, **kwargs)
 
 
+def integer_width(values: np.ndarray):
+    """
+    the number of characters needed to the left of the decimal point when displaying
+    `values`, including the point itself and a minus sign
+
+    Parameters
+    ----------
+    values : numpy ndarray
+        an array of any dimension. elements that aren't finite are ignored
+
+    Returns
+    -------
+    int
+    """
+    arr = np.absolute(np.asarray(values, dtype=float))
+    good = arr[np.isfinite(arr) & (arr >= 1)]
+
+    if not good.size:
+        return 3
+    return int(np.floor(np.log10(np.max(good)))) + 3
+
+
+
 def ensure_2darray(
     arrs: Union[np.ndarray, Iterable[np.ndarray]],
     orient='column'
-- 
2.43.0


From dfd7de7195bce83dcb9af776e1360098114f3d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:20 +0000
Subject: [PATCH 60/78] fix: summary of part of a calibration accepts a single
 name

---
 pynare/io/summary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index 271f022..2756400 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -8,7 +8,7 @@ import numpy as np
 from itertools import product
 from functools import cached_property
 
-from pynare.utils.dtypes import is_iterable_not_str
+from pynare.utils.dtypes import ensure_list, is_iterable_not_str
 import pynare.utils.numpy as unp
 
 
@@ -179,7 +179,7 @@ class ModelSummary(Summary):
             param_strs = ['model calibration:']
 
         else:
-            display = {p: self.obj.params[p] for p in self.params}
+            display = {p: self.obj.params[p] for p in ensure_list(self.params)}
             param_strs = ['partial model calibration:']
 
         # format width and number of digits
-- 
2.43.0


From 611251b3f6d7bd2a74a159d7623bc0abc36e8b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:20 +0000
Subject: [PATCH 61/78] fix: autocorrelations are displayed under their own
 lags

---
 pynare/io/summary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index 2756400..61be503 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -299,7 +299,7 @@ class ModelStatisticsSummary(Summary):
         arr = np.transpose(np.array([np.diagonal(arr) for arr in acr_3d]))
 
         # column labels to display
-        headings = [f"p = {i}" for i in range(self.autocorr)]
+        headings = [f"p = {i+1}" for i in range(self.autocorr)]
         arr_str = _summarize_array(
             arr=arr,
             labels=headings,
@@ -313,7 +313,7 @@ class ModelStatisticsSummary(Summary):
         labels = [en.ljust(lpad) for en in endog]
 
         # add heading and pad all rows
-        acr_str = ['autocovariance of endogenous variables:']
+        acr_str = ['autocorrelation of endogenous variables:']
         acr_str = acr_str + [''.join((l, a)) for l, a in zip(labels, arr_str)]
         delim = f"\n{self.pad}"
         return delim.join(acr_str)
-- 
2.43.0


From b3c7eaa4ddcbbaad40a6bbd30019bf4048ef8bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:20 +0000
Subject: [PATCH 62/78] fix: plots of one series and plots with more series
 than panels in a row or column

---
 pynare/plotting/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pynare/plotting/base.py b/pynare/plotting/base.py
index 5666cc9..7fa29f4 100644
--- a/pynare/plotting/base.py
+++ b/pynare/plotting/base.py
@@ -54,11 +54,11 @@ class PynarePlot(object):
 
         nplots = min(nsubs, self._nseries)
         for k in range(nplots):
-            ts = self.data[:, k]
-            label = self.labels[k]
+            sub = self.data[:, k::nsubs]
+            labels = self.labels[k::nsubs]
 
             ax = self.axes[k]
-            self._plot(ax, ts, label, **kwargs)
+            self._plot(ax, sub, labels, **kwargs)
 
 
     def arrange_plot(
@@ -114,6 +114,9 @@ class PynarePlot(object):
         self.figure, self.axes = _generate_subplots(kwargs)
 
         if subplots:
+            # a single panel is not an array
+            self.axes = np.atleast_1d(self.axes)
+
             if len(self.axes.shape) == 1:
                 self._plot_column(**kwargs)
             else:
-- 
2.43.0


From 42427eed5f86a65b8f0eb964f9e45f89eabedb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:20 +0000
Subject: [PATCH 63/78] fix: plots can be arranged in a row, as documented

---
 pynare/plotting/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pynare/plotting/base.py b/pynare/plotting/base.py
index 7fa29f4..e61bdfa 100644
--- a/pynare/plotting/base.py
+++ b/pynare/plotting/base.py
@@ -93,6 +93,9 @@ class PynarePlot(object):
                     elif layout == 'column':
                         nrows, ncols = self._nseries, 1
 
+                    elif layout == 'row':
+                        nrows, ncols = 1, self._nseries
+
                     else:
                         raise ValueError(f"unrecognized value of layout: {layout}")
 
-- 
2.43.0


From 91d19261cd0863abaf3e37596f59d466adde2021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:20 +0000
Subject: [PATCH 64/78] fix: rectangular plots have no more rows than columns,
 as documented

---
 pynare/plotting/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/plotting/base.py b/pynare/plotting/base.py
index e61bdfa..942de84 100644
--- a/pynare/plotting/base.py
+++ b/pynare/plotting/base.py
@@ -255,4 +255,4 @@ def _factor_near_square_root(n):
         v1 = v1 - 1
         v2 = int(n/v1)
 
-    return int(v1), int(v2)
+    return int(max(v1, v2)), int(min(v1, v2))
-- 
2.43.0


From 813256be0856901f06df82304fb7c098fdd68f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:21 +0000
Subject: [PATCH 65/78] fix: occbin assigns the columns of the policy array to
 the variables they belong to

---
 pynare/core/solve/binding.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index 2ebd71c..0351ae1 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -14,6 +14,7 @@ from pynare.regimes import RegimeSwitchingModel
 
 from pynare.core.solve.base import ModelSolution
 from pynare.utils.dtypes import is_iterable_not_str
+import pynare.utils.numpy as unp
 
 from pynare.errors import ModelVarError
 
@@ -289,8 +290,9 @@ def solve_occbin_one_constraint(
     idx = ref.indexes
 
     gy_dc = np.zeros((idx.n_endog, idx.n_endog), dtype=float)
-    gy_dc[:, idx.state] = ref.first_order_solution.arrays.gy[idx.dc_order]
-    gu_dc = ref.first_order_solution.arrays.gu[idx.dc_order]
+    gy, gu = unp.ensure_2darray(tuple(ref.first_order_solution.arrays))
+    gy_dc[:, idx.dr_order[idx.dr.state]] = gy[idx.dc_order]
+    gu_dc = gu[idx.dc_order]
 
     # partition the jacobian matrix of each regime
     C, B, A, E = _occbin_partitioned_jacobian(ref)
@@ -446,8 +448,9 @@ def solve_occbin_two_constraints(
     ridx = ref.indexes
 
     gy_dc = np.zeros((ridx.n_endog, ridx.n_endog), dtype=float)
-    gy_dc[:, ridx.state] = ref.first_order_solution.arrays.gy[ridx.dc_order]
-    gu_dc = ref.first_order_solution.arrays.gu[ridx.dc_order]
+    gy, gu = unp.ensure_2darray(tuple(ref.first_order_solution.arrays))
+    gy_dc[:, ridx.dr_order[ridx.dr.state]] = gy[ridx.dc_order]
+    gu_dc = gu[ridx.dc_order]
 
     # partition the jacobian matrix of each regime
     C, B, A, E = _occbin_partitioned_jacobian(ref)
-- 
2.43.0


From 3a4f26e44cfd98e5b20021792f5ce5bfbc4924c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:21 +0000
Subject: [PATCH 66/78] fix: occbin linearizes alternative regimes around the
 reference steady state

---
 pynare/core/solve/binding.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index 0351ae1..73bae48 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -295,11 +295,12 @@ def solve_occbin_one_constraint(
     gu_dc = gu[idx.dc_order]
 
     # partition the jacobian matrix of each regime
-    C, B, A, E = _occbin_partitioned_jacobian(ref)
-    Cstar, Bstar, Astar, Estar = _occbin_partitioned_jacobian(alt)
+    ss = ref.ss.values
+    C, B, A, E = _occbin_partitioned_jacobian(ref, ss)
+    Cstar, Bstar, Astar, Estar = _occbin_partitioned_jacobian(alt, ss)
 
     # correction for alt regime due to linearizing around the reference one
-    Dstar = alt.dynamic_repr(_translate_ss(ref.ss.values, alt))
+    Dstar = alt.dynamic_repr(_translate_ss(ss, alt))
 
     # pre-allocate the piecewise linear paths and the regime indicators. save
     #   initial endogenous vector, whose name will be overwritten
@@ -453,15 +454,16 @@ def solve_occbin_two_constraints(
     gu_dc = gu[ridx.dc_order]
 
     # partition the jacobian matrix of each regime
-    C, B, A, E = _occbin_partitioned_jacobian(ref)
-    C_alt0, B_alt0, A_alt0, E_alt0 = _occbin_partitioned_jacobian(alt0)
-    C_alt1, B_alt1, A_alt1, E_alt1 = _occbin_partitioned_jacobian(alt1)
-    C_dbl, B_dbl, A_dbl, E_dbl = _occbin_partitioned_jacobian(dbl)
+    ss = ref.ss.values
+    C, B, A, E = _occbin_partitioned_jacobian(ref, ss)
+    C_alt0, B_alt0, A_alt0, E_alt0 = _occbin_partitioned_jacobian(alt0, ss)
+    C_alt1, B_alt1, A_alt1, E_alt1 = _occbin_partitioned_jacobian(alt1, ss)
+    C_dbl, B_dbl, A_dbl, E_dbl = _occbin_partitioned_jacobian(dbl, ss)
 
     # correction for alt regimes due to linearizing around the reference one
-    D_alt0 = alt0.dynamic_repr(_translate_ss(ref.ss.values, alt0))
-    D_alt1 = alt1.dynamic_repr(_translate_ss(ref.ss.values, alt1))
-    D_dbl = dbl.dynamic_repr(_translate_ss(ref.ss.values, dbl))
+    D_alt0 = alt0.dynamic_repr(_translate_ss(ss, alt0))
+    D_alt1 = alt1.dynamic_repr(_translate_ss(ss, alt1))
+    D_dbl = dbl.dynamic_repr(_translate_ss(ss, dbl))
 
     # pre-allocate the piecewise linear paths and the regime indicators. save
     #   initial endogenous vector, whose name will be overwritten
@@ -830,12 +832,15 @@ def _process_occbin_parameters(
     return exog_idx, shocks, init, periods
 
 
-def _occbin_partitioned_jacobian(model: Model):
+def _occbin_partitioned_jacobian(model: Model, ref_ss: np.ndarray):
     """
     the occbin algorithm partitions the jacobian matrix column-wise based on what time
-    period the endogenous variable corresponding to that column appears in
+    period the endogenous variable corresponding to that column appears in. every
+    regime is linearized around the steady state of the reference one
     """
-    J, idx = model.jacobian.array, model.indexes
+    idx = model.indexes
+    point = np.concatenate((_translate_ss(ref_ss, model), np.zeros(idx.n_exog)))
+    J = np.array([func(point) for func in model.jacobian.linearized_funcs])
 
     # partition the jacobian based on whether the column is a derivative with respect
     #   to time t-1, t, or t+1 variables
-- 
2.43.0


From 3f4a65b8e576044bb0d7d94bc71af06182a2b889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:21 +0000
Subject: [PATCH 67/78] fix: occbin accepts the shocks to a single variable as
 a column

---
 pynare/core/solve/binding.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index 73bae48..1511217 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -622,19 +622,14 @@ def _simulate_hypothesized_paths(
     # predetermined innovations
     innovs = np.zeros(n_exog, dtype=float)
     if isinstance(exog_idx, int):
-        innovs[exog_idx] = shock
+        innovs[exog_idx] = np.squeeze(shock)
     else:
         for i, ex in enumerate(exog_idx):
             innovs[ex] = shock[i]
 
-    try:
-        innovs = innovs.item()
-    except ValueError:
-        pass
-
     # shocks to exogenous variables
     if last_bound > -1:
-        Q = np.squeeze(np.dot(E_init, innovs))
+        Q = np.dot(E_init, innovs)
         history[1] = np.dot(P[:, :, 0], history[0]) + D[:, 0] + Q
     else:
         history[1] = np.dot(gy, history[0]) + np.dot(gu, innovs)
@@ -735,19 +730,14 @@ def _simulate_hypothesized_paths_two_constraints(
     # predetermined innovations
     innovs = np.zeros(n_exog, dtype=float)
     if isinstance(exog_idx, int):
-        innovs[exog_idx] = shock
+        innovs[exog_idx] = np.squeeze(shock)
     else:
         for i, ex in enumerate(exog_idx):
             innovs[ex] = shock[i]
 
-    try:
-        innovs = innovs.item()
-    except ValueError:
-        pass
-
     # shocks to exogenous variables
     if last_bound > -1:
-        Q = np.squeeze(np.dot(E_init, innovs))
+        Q = np.dot(E_init, innovs)
         history[1] = np.dot(P[:, :, 0], history[0]) + D[:, 0] + Q
     else:
         history[1] = np.dot(gy, history[0]) + np.dot(gu, innovs)
-- 
2.43.0


From 577899674a662511072a84881e8162ffd9328122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:21 +0000
Subject: [PATCH 68/78] fix: occbin solutions can start from given initial
 positions

---
 pynare/core/model.py         | 2 +-
 pynare/core/solve/binding.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pynare/core/model.py b/pynare/core/model.py
index 869510a..abb990d 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -182,7 +182,7 @@ class Model(DynamicModel):
 
             # occasionally-bound solutions are always conditional on shock paths
             exog, shocks = kwargs.pop('exog', None), kwargs.pop('shocks', 100)
-            init = kwargs.get('init', None)
+            init = kwargs.pop('init', None)
 
             solution = OccBinSolution(
                 self,
diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index 1511217..52466c1 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -785,6 +785,8 @@ def _process_occbin_parameters(
     # the first values of the endogenous variables over the time period
     if init is None:
         init = np.zeros(len(ref.endog), dtype=float)
+    else:
+        init = np.asarray(init, dtype=float)
 
     # by default, we shock the first stochastic variable
     if exog is None:
-- 
2.43.0


From fe794efa0b8cc93182575f38b98583a374eb5011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:21 +0000
Subject: [PATCH 69/78] fix: occbin warns when only the last period is in the
 alternative regime

---
 pynare/core/solve/binding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index 52466c1..7050aeb 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -873,7 +873,7 @@ def _locate_regime_changes(vec: np.ndarray):
     regime_starts = np.array([0], dtype=int)
 
     n_switches = 0
-    for i in range(1, len(vec)-1):
+    for i in range(1, len(vec)):
 
         if vec[i] != latest_regime[n_switches]:
             n_switches += 1
-- 
2.43.0


From 1b5b9a2a9737372a3af4e5b2e5efd8215dfa6a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:21 +0000
Subject: [PATCH 70/78] fix: occbin reports a wrong number of constraints

---
 pynare/core/solve/binding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index 7050aeb..aab1ee9 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -271,7 +271,7 @@ def solve_occbin_one_constraint(
     """
 
     if len(constraint) != 1:
-        raise ValueError(f"n constraints = {len(constraints)}")
+        raise ValueError(f"n constraints = {len(constraint)}")
 
     # throws an error if endog, stoch, or params are misaligned between models
     _ensure_variables_match(ref, alt)
-- 
2.43.0


From 7a90cb3f44695c10685953d4f5aa52c93ee15ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:15 +0000
Subject: [PATCH 71/78] fix: bundled examples are found from every working
 directory

---
 pynare/io/files.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pynare/io/files.py b/pynare/io/files.py
index e49ff68..8422c9a 100644
--- a/pynare/io/files.py
+++ b/pynare/io/files.py
@@ -4,8 +4,14 @@ module for common I/O operations of pynare objects
 
 from __future__ import annotations
 
+from pathlib import Path
+
 from pynare.examples import ExampleRegistry
 
+# directory that holds the `pynare` package, which is what the paths of the examples
+# are relative to
+_root = Path(__file__).resolve().parents[2]
+
 
 def read_file(
     filepath: Union[str, Path]
@@ -44,4 +50,4 @@ def read_example(
     the contents of the example file, as a string
     """
     example_path = ExampleRegistry.get_example(ex_name)
-    return read_file(example_path)
+    return read_file(_root / example_path)
-- 
2.43.0


From 9e4c5a87da9a86c6dc12eb9f06c1d3a3e648e7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:41 +0000
Subject: [PATCH 72/78] fix: the equations of a model can be printed whatever
 they were given as

---
 pynare/core/expressions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index 834502d..d4adb4d 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -90,19 +90,20 @@ class ModelExprs(MutableSequence):
 
     def __str__(self):
         lhs, rhs = [], []
-        for expr in self.exprs_str:
-            l, r = expr.split('=')
+        for tree, expr in zip(self.exprs, self.exprs_str):
+            # expressions that were given as ASTs have no string
+            l, _, r = (expr or repr(tree)).partition('=')
             lhs.append(l.strip())
             rhs.append(r.strip())
 
-        width = max(map(len, lhs))
+        width = max(map(len, lhs), default=0)
         pad = 4*' '
 
         heading = 'Model Expressions'
         string = [heading]
 
         for l, r in zip(lhs, rhs):
-            expr = pad + ' = '.join((l.ljust(width), r))
+            expr = pad + (' = '.join((l.ljust(width), r)) if r else l)
             string.append(expr)
 
         return '\n'.join(string)
-- 
2.43.0


From 2437e6e667b0652ee2566fd869dcc5580fe4905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:20 +0000
Subject: [PATCH 73/78] fix: stochastic and deterministic variables can be
 listed together

---
 pynare/core/variables.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index b6c7c2e..f5d7a5b 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -41,7 +41,10 @@ class VarArray(np.ndarray):
         try:
             first = vtypes[0]
             if vtypes.count(first) != len(vtypes):
-                raise TypeError("variables were not all of the same vtype")
+                # the two types of exogenous variables can be collected in one array
+                if not all(isinstance(v, ExogVar) for v in self):
+                    raise TypeError("variables were not all of the same vtype")
+                first = 'exog'
 
         except IndexError:
             first = ''
-- 
2.43.0


From 43982c0771fc50bc121f2f120b2a1db87094d071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:00 +0000
Subject: [PATCH 74/78] fix: definitions of exogenous variables are not shared
 between variables and models

---
 pynare/core/variables.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index f5d7a5b..6ffcaa4 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from copy import deepcopy
 from functools import cached_property
 from collections.abc import MutableMapping
 import numpy as np
@@ -203,11 +204,12 @@ class StochVar(ExogVar):
         cov: Union[int, float] = None
     ):
         super().__init__(name, 'stoch')
-        self.other = other
+        # definitions can be shared by several variables and models
+        self.other = deepcopy(other)
 
         self.variance = variance
-        self.corr = corr
-        self.cov = cov
+        self.corr = deepcopy(corr)
+        self.cov = deepcopy(cov)
 
     def pairs(self, moment: str):
         """
@@ -244,8 +246,9 @@ class DetermVar(ExogVar):
     ):
         super().__init__(name, 'determ')
 
-        self.periods = periods
-        self.values = values
+        # definitions can be shared by several variables and models
+        self.periods = deepcopy(periods)
+        self.values = deepcopy(values)
 
     def __repr__(self):
         n, p, v = self.name, self.periods, self.values
-- 
2.43.0


From d2829721c3b1d96eb49516efb6eaab651dbbdbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:08 +0000
Subject: [PATCH 75/78] fix: every appearance of a reserved word has its own
 location

---
 pynare/parsing/lexer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/parsing/lexer.py b/pynare/parsing/lexer.py
index 2d5be12..3b0ff42 100644
--- a/pynare/parsing/lexer.py
+++ b/pynare/parsing/lexer.py
@@ -148,8 +148,8 @@ class BaseLexer(object):
             token = self.reserved_kw[result]
         except KeyError:
             token = base.reserved_funcs.get(result, Token(base.ID, result))
-        token.assign_loc(self.current_line, self.line_pos)
-        return token
+        # every appearance of a reserved word has its own location
+        return Token(token.type, token.value, self.current_line, self.line_pos)
 
     def _number(self):
         """
-- 
2.43.0


From 5962dcb37cf3957f4dbb4e75897b618b51b66a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:55 +0000
Subject: [PATCH 76/78] fix: a failed occasionally-binding solution leaves an
 unsolved model unsolved

the reference model was solved at first order along the way, so that a
request that was refused later on still decided which order the model's
simulations have afterwards
---
 pynare/core/solve/binding.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index aab1ee9..b2e9f0f 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -13,6 +13,7 @@ from pynare.parsing import parse_string, evaluate
 from pynare.regimes import RegimeSwitchingModel
 
 from pynare.core.solve.base import ModelSolution
+from pynare.core.solve.first_order import FirstOrderSolution
 from pynare.utils.dtypes import is_iterable_not_str
 import pynare.utils.numpy as unp
 
@@ -290,7 +291,7 @@ def solve_occbin_one_constraint(
     idx = ref.indexes
 
     gy_dc = np.zeros((idx.n_endog, idx.n_endog), dtype=float)
-    gy, gu = unp.ensure_2darray(tuple(ref.first_order_solution.arrays))
+    gy, gu = unp.ensure_2darray(_first_order_arrays(ref))
     gy_dc[:, idx.dr_order[idx.dr.state]] = gy[idx.dc_order]
     gu_dc = gu[idx.dc_order]
 
@@ -449,7 +450,7 @@ def solve_occbin_two_constraints(
     ridx = ref.indexes
 
     gy_dc = np.zeros((ridx.n_endog, ridx.n_endog), dtype=float)
-    gy, gu = unp.ensure_2darray(tuple(ref.first_order_solution.arrays))
+    gy, gu = unp.ensure_2darray(_first_order_arrays(ref))
     gy_dc[:, ridx.dr_order[ridx.dr.state]] = gy[ridx.dc_order]
     gu_dc = gu[ridx.dc_order]
 
@@ -818,12 +819,19 @@ def _process_occbin_parameters(
             )
             warnings.warn(msg)
 
-    else:
-        _ = ref.solve(order=1)
-
     return exog_idx, shocks, init, periods
 
 
+def _first_order_arrays(ref: Model):
+    """
+    the first-order decision rules of the reference model. a model that was not solved
+    at an order before stays as it is
+    """
+    if ref.solution_order:
+        return tuple(ref.first_order_solution.arrays)
+    return tuple(FirstOrderSolution(ref).solve().arrays)
+
+
 def _occbin_partitioned_jacobian(model: Model, ref_ss: np.ndarray):
     """
     the occbin algorithm partitions the jacobian matrix column-wise based on what time
-- 
2.43.0


From 6cceec727c99d8fd53ad28e6fca3fe36c0edfb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:52 +0000
Subject: [PATCH 77/78] fix: variables given as objects keep their initial,
 terminal and historical values

---
 pynare/core/generic.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index 1248519..c6ae0ba 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -28,6 +28,15 @@ from pynare.utils.dtypes import (
 
 
 
+def _own_values(endog, bound, values):
+    """
+    variables that are given as EndogVar objects bring their own boundary values
+    """
+    if not isinstance(values, dict):
+        return values
+    return {**{eg.name: getattr(eg, bound) for eg in endog}, **values}
+
+
 def _definitions(names, kwargs):
     """
     definitions of new exogenous variables, `name: attributes`, from the keywords
@@ -277,9 +286,9 @@ class DynamicModel(StructuredModel):
         self.endog = _create_endog_vars(
             names=self.endog.names,
             lead_lag={eg.name: eg.lead_lag for eg in self.endog},
-            initial=initial,
-            terminal=terminal,
-            historical=historical
+            initial=_own_values(self.endog, 'initial', initial),
+            terminal=_own_values(self.endog, 'terminal', terminal),
+            historical=_own_values(self.endog, 'historical', historical)
         )
 
         # initialize exogenous variables
-- 
2.43.0


From 236edec2a198715213a57a95c6dd3bd73eb8c3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:25 +0000
Subject: [PATCH 78/78] fix: the search for a steady state backs off from
 points where an equation has no value

---
 pynare/core/steady.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pynare/core/steady.py b/pynare/core/steady.py
index 31763a9..7d157c3 100644
--- a/pynare/core/steady.py
+++ b/pynare/core/steady.py
@@ -102,7 +102,11 @@ def _define_simple_least_squares(M: Model):
     ss_expr = M.steady_repr.functions
 
     def _least_squares(x):
-        return np.sum(np.power(ss_expr(x), 2))
+        value = np.sum(np.power(ss_expr(x), 2))
+
+        # a point where an equation isn't defined is no candidate, but searching can
+        #   go on elsewhere
+        return np.inf if np.isnan(value) else value
 
     return _least_squares
 
-- 
2.43.0

