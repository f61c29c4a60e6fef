From 63b54a8916365beb568b7714f4835a73ce75e607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:30 +0000
Subject: [PATCH 01/25] fix: open serial loops that close on a node other than
 datum

serial_edges only opened a chain closing on itself when the closing node was
datum; any other loop hanging on a cut vertex was turned into a self-loop and
Graph.sp_split (hence Graph.to_core) never returned.
---
 pyphs/graphs/tools.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyphs/graphs/tools.py b/pyphs/graphs/tools.py
index 75e17a9..d87e939 100644
--- a/pyphs/graphs/tools.py
+++ b/pyphs/graphs/tools.py
@@ -79,8 +79,6 @@ def serial_edges(graph):
     # init lists
     serial_nodes = list()
     all_edges = list()
-    # Check for datum termination
-    datum_end = False
     # for each node with degree 2 in the graph
     for node in g.nodes():
 
@@ -94,12 +92,13 @@ def serial_edges(graph):
 
             # continue the serial connection toward n1
             s1 = serial_next(g, node, n1)
-            datum_end = s1[-1] == datum
             s1.reverse()
 
             # continue the serial connection toward n2
             s2 = serial_next(g, node, n2)
-            if s2[-1] == datum and datum_end:
+            # a chain that closes on its own starting node (datum or any
+            # other fork) is a loop, not a serial connection: open it
+            if s2[-1] == s1[0]:
                 s2 = s2[:-1]
 
             # nodes in the serial connection
-- 
2.43.0


From 7d5e52d58b646dfbf6cca0e591d0a8967aa125a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:01 +0000
Subject: [PATCH 02/25] fix: unlock only edges that can still impose the node
 potential

GraphAnalysis.unlock could stop its search on an edge whose entry in Lambda was
already 0; nothing changed and GraphAnalysis.perform looped forever.
---
 pyphs/graphs/analysis.py | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/pyphs/graphs/analysis.py b/pyphs/graphs/analysis.py
index 059c3eb..aa8eb79 100644
--- a/pyphs/graphs/analysis.py
+++ b/pyphs/graphs/analysis.py
@@ -251,13 +251,8 @@ define it as effort-controlled (0 column in lambda).
         for n, row in enumerate(self.Lambda[:, self.ic_edges].tolist()):
             # only if the node is overdeterminated
             if sum(row) > 1:
-                col = self.Lambda[:, len(self.ec_edges)]  # first ic column
-                e = 0
-                while (row[e] != 1 and
-                       sum(col) != 1 and
-                       e < len(self.ic_edges)):
-                    e += 1
-                    col = self.Lambda[:, len(self.ec_edges) + e]
+                # first ic edge that can still impose the potential on node n
+                e = row.index(1)
                 if not e == (len(self.ic_edges) and not
                              self.get_edge_data(e, 'type')):
                     self.Lambda[n, len(self.ec_edges) + e] = 0
@@ -267,13 +262,7 @@ define it as effort-controlled (0 column in lambda).
             lambd_icfc = self.Lambda[:, self.ic_edges[0]:]
             for n, row in enumerate(lambd_icfc.tolist()):
                 if sum(row) > 1:
-                    e = 0
-                    col = self.Lambda[:, len(self.ec_edges) + e]
-                    while row[e] != 1 and \
-                            not sum(col) >= 2 and \
-                            e < len(self.ic_edges+self.fc_edges):
-                        e += 1
-                        col = self.Lambda[:, len(self.ec_edges) + e]
+                    e = row.index(1)
                     if not e == len(self.ic_edges+self.fc_edges):
                         self.Lambda[n, len(self.ec_edges) + e] = 0
                         still_locked = False
-- 
2.43.0


From d8c802b5fa3946e1d4ad35c633512aa12d2d4159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:22 +0000
Subject: [PATCH 03/25] fix: keep the documented gyrator and transformer laws
 whatever the edge control

---
 pyphs/graphs/analysis.py | 10 ----------
 pyphs/graphs/build.py    |  6 ++++++
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/pyphs/graphs/analysis.py b/pyphs/graphs/analysis.py
index aa8eb79..1acd8a2 100644
--- a/pyphs/graphs/analysis.py
+++ b/pyphs/graphs/analysis.py
@@ -427,7 +427,6 @@ and the realizability of linked edge is chosen based on the connector type \
         if ctrl is 'e':
             # gyrator case
             if self.get_edge_data(e, 'connector_type') == 'gyrator':
-                self.inverse_alpha(e)
                 # assert linked edge is not flux controlled
                 assert link_e not in self.fc_edges,\
                     'connector edges {0!s} and {1!s} are not \
@@ -438,7 +437,6 @@ compatible'.format(e_label, link_e_label)
                     self.set_edge_ec(link_e)
             # transformer case
             elif self.get_edge_data(e, 'connector_type') == 'transformer':
-#                self.inverse_alpha(e)
                 # assert linked edge is not effort controlled
                 assert link_e not in self.ec_edges,\
                     'connector edges {0!s} and {1!s} are not \
@@ -473,14 +471,6 @@ compatible'.format(e_label, link_e_label)
             print('link', e_label, ctrl, link_e_label)
             self.verbose('link')
 
-    def inverse_alpha(self, e, minus=False):
-        alpha = self.edges[e][2]['alpha']
-        if alpha is not None:
-            a = alpha**-1
-            if minus:
-                a = -a
-            self.edges[e][2]['alpha'] = a
-
 
 def isequal(M1, M2):
     """
diff --git a/pyphs/graphs/build.py b/pyphs/graphs/build.py
index 260c633..2ff6ece 100644
--- a/pyphs/graphs/build.py
+++ b/pyphs/graphs/build.py
@@ -95,6 +95,12 @@ def _setCore(graph):
                                 for c in graph.core.connectors].index(True)
         alpha = graph.analysis.get_edge_data(e, 'alpha')
         if alpha is not None:
+            # Core.connect imposes (u1, u2) = (-alpha*y2, alpha*y1), which is
+            # the law of flux-controlled gyrators and of transformers with
+            # first edge effort-controlled; the dual control inverts it.
+            gyrator = graph.analysis.get_edge_data(e, 'connector_type') == 'gyrator'
+            if gyrator == (e in graph.analysis.ec_edges):
+                alpha = -alpha**-1
             graph.core.connectors[index_e_in_connector]['alpha'] = alpha
     graph.core.cy = [graph.core.cy[el] for el in new_indices_connector]
     graph.core.cu = [graph.core.cu[el] for el in new_indices_connector]
-- 
2.43.0


From d6272e0ded227ec9bdab6440675d3e5654b144e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:22 +0000
Subject: [PATCH 04/25] fix: state the sign convention that Core.connect really
 applies to connectors

---
 pyphs/core/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index 912a404..7065c8d 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -769,8 +769,8 @@ class Core:
         Description
         -----------
         The resulting connection reads:
-            * :code:`core.u[indices[0]] = alpha * core.y[indices[1]]`,
-            * :code:`core.u[indices[1]] = -alpha * core.y[indices[0]]`.
+            * :code:`core.u[indices[0]] = -alpha * core.y[indices[1]]`,
+            * :code:`core.u[indices[1]] = alpha * core.y[indices[0]]`.
 
         Notice this method only stores a description of the connection in the
         :code:`core.connectors` argument. The connection will be effective only
-- 
2.43.0


From dc70f17659e562fe0fd586e71718748bd2134533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:30 +0000
Subject: [PATCH 05/25] fix: typeset the connector law that is applied

---
 pyphs/misc/latex/latexcore.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/misc/latex/latexcore.py b/pyphs/misc/latex/latexcore.py
index 596f360..2f6ec41 100644
--- a/pyphs/misc/latex/latexcore.py
+++ b/pyphs/misc/latex/latexcore.py
@@ -130,9 +130,9 @@ class LatexCore(object):
         for i, c in enumerate(self.core.connectors):
             alpha = c['alpha']
             u1, y1 = c['u'][0], c['y'][0]
-            s = obj2tex(alpha*y1, str(u1), '', self.sn)
             u2, y2 = c['u'][1], c['y'][1]
-            s += obj2tex(-alpha*y2, str(u2), '', self.sn)
+            s = obj2tex(-alpha*y2, str(u1), '', self.sn)
+            s += obj2tex(alpha*y1, str(u2), '', self.sn)
             l.append(s)
         self.connectors_elements = l
 
-- 
2.43.0


From 707339a127f42afcfdfba5c713535f7a976b4161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:46 +0000
Subject: [PATCH 06/25] fix: keep the interconnection already defined when
 components are added

---
 pyphs/core/core.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index 7065c8d..27552b5 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -611,6 +611,22 @@ class Core:
         """
         self.M = types.matrix_types[0](sympy.zeros(self.dims.tot()))
 
+    def _insert_M(self, name, n):
+        """
+        Insert null rows and columns in the structure matrix M for n new
+        elements at the end of the list with given name, so that the
+        interconnection of the elements already in the core is preserved.
+        Must be called before the elements are added.
+        """
+        tot = self.dims.tot()
+        if self.M.shape[0] == tot:
+            end = getattr(self.inds, name)()[1]
+            inds = list(range(end)) + list(range(end + n, tot + n))
+            M = types.matrix_types[0](sympy.zeros(tot + n))
+            for i, j, value in self.M.row_list():
+                M[inds[i], inds[j]] = value
+            self.M = M
+
     def J(self):
         """
         J
@@ -877,6 +893,7 @@ add the connector'.format(i)
             x_types = types.scalar_types+types.vector_types
             raise TypeError('Type of x should be one of {}'.format(x_types))
         types.scalar_test(H)
+        self._insert_M('x', len(x))
         self.x += x
         self.H += H
 
@@ -912,6 +929,7 @@ add the connector'.format(i)
             raise TypeError(text)
         if not len(w) == len(z):
             raise TypeError('w and z should have same dimension.')
+        self._insert_M('w', len(w))
         self.w += w
         self.z += z
 
@@ -946,6 +964,7 @@ add the connector'.format(i)
             raise TypeError(text)
         if not len(u) == len(y):
             raise TypeError('u and y should have same dimension.')
+        self._insert_M('y', len(u))
         self.u += u
         self.y += y
 
-- 
2.43.0


From dbf01c3db612f89ec1f3c994ae7fd0a706860ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:02 +0000
Subject: [PATCH 07/25] fix: invert structure matrices whose pivots vanish

---
 pyphs/core/maths/_matrices.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyphs/core/maths/_matrices.py b/pyphs/core/maths/_matrices.py
index 1c4914a..6eae349 100644
--- a/pyphs/core/maths/_matrices.py
+++ b/pyphs/core/maths/_matrices.py
@@ -17,7 +17,8 @@ def inverse(Mat, dosimplify=False):
     if Mat.shape == (0, 0):
         return Mat
     else:
-        iMat = Mat.inv()
+        # sparse inversion (LDL) does no pivoting, hence fails on null pivots
+        iMat = types.matrix_types[0](Matrix(Mat).inv())
         if dosimplify:
             iMat = simplify(iMat)
         return iMat
-- 
2.43.0


From 131b9071af959eb6f2b650ba38eb10fb529193f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:56 +0000
Subject: [PATCH 08/25] fix: separate linear components only when uncoupled,
 keep linear coefficients attached when components move

---
 pyphs/core/structure/R.py      | 29 ++++++++-------
 pyphs/core/structure/moves.py  |  7 +++-
 pyphs/core/structure/splits.py | 65 +++++++++++++++++++++++++++++++++-
 3 files changed, 84 insertions(+), 17 deletions(-)

diff --git a/pyphs/core/structure/R.py b/pyphs/core/structure/R.py
index 7fe52f1..9e0c709 100644
--- a/pyphs/core/structure/R.py
+++ b/pyphs/core/structure/R.py
@@ -8,7 +8,9 @@ from __future__ import absolute_import, division, print_function
 import sympy
 from pyphs.misc.tools import geteval
 from pyphs.core.tools import types
-from pyphs.core.maths import inverse
+from pyphs.core.maths import inverse, jacobian
+from .splits import isolate
+from .moves import move_diss
 
 
 def reduce_z(core):
@@ -42,20 +44,16 @@ after this operation, and :code:`core.z()=core.znl()`.
 """
     # identify the linear components
     core.linear_nonlinear()
-    # identify the number of components excluded from the linear part
-    nforced = len(core.force_wnl)
-    # move linear and excluded components at the top of linear components list
-    if not nforced == 0:
-        i = 0
-        for _ in range(core.dims.wl()):
-            if core.w[i] in core.force_wnl:
-                core.move_dissipative(i, core.dims.wl())
-            else:
-                i += 1
-        # reduce number of linear components
-        core.dims._wl -= nforced
-        # reduce Zl
-        core.Zl = core.Zl[:-nforced, :-nforced]
+    # move excluded components at the end of linear components list and reduce
+    # the number of linear components accordingly
+    for w in core.force_wnl:
+        if w in core.wl():
+            core.move_dissipative(core.w.index(w), core.dims.wl()-1)
+            core.dims._wl -= 1
+    # idem for the components which are coupled to the excluded ones
+    core.dims._wl = isolate(core, core.dims.wl(), jacobian(core.z, core.w),
+                            core.dx() + core.w, move_diss)
+    core.Zl = jacobian(core.zl(), core.wl())
     # build inverse of Dl
     iDl = types.matrix_types[0](sympy.eye(core.dims.wl())-core.Mwlwl()*core.Zl)
     # build Dl
@@ -91,3 +89,4 @@ after this operation, and :code:`core.z()=core.znl()`.
     core.z = core.z[core.dims.wl():]
     # Set dim(wl) to 0
     core.dims._wl = 0
+    core.Zl = core.Zl[:0, :0]
diff --git a/pyphs/core/structure/moves.py b/pyphs/core/structure/moves.py
index 88061ba..309187c 100644
--- a/pyphs/core/structure/moves.py
+++ b/pyphs/core/structure/moves.py
@@ -97,6 +97,10 @@ def move_stor(core, indi, indf):
     if core._dxH is not None:
         core._dxH = [core._dxH[el] for el in new_indices]
     moveCoreMcolnrow(core, indi, indf)
+    if indi < core.dims.xl() and indf < core.dims.xl():
+        new_indices = myrange(core.dims.xl(), indi, indf)
+        core.Q = core.Q[new_indices, new_indices]
+        core.bl = [core.bl[el] for el in new_indices]
 
 
 def move_diss(core, indi, indf):
@@ -119,7 +123,8 @@ def move_diss(core, indi, indf):
             indi < core.dims.wl() and
             indf < core.dims.wl()):
         core.Zl = movesquarematrixcolnrow(core.Zl, indi, indf)
-    elif (not core.Zl.is_zero):
+    elif (not core.Zl.is_zero and
+          (indi < core.dims.wl() or indf < core.dims.wl())):
         core.Zl = core.Zl[:0, :0]  # Set Matrix to zero
 
 
diff --git a/pyphs/core/structure/splits.py b/pyphs/core/structure/splits.py
index 1e9beaf..5074ead 100644
--- a/pyphs/core/structure/splits.py
+++ b/pyphs/core/structure/splits.py
@@ -63,7 +63,8 @@ def linear_nonlinear(core, criterion=None):
         criterion[0] = (hessH, argx)
         criterion[1] = (jacz,  argz)
     """
-    if criterion is None:
+    criterion_is_none = criterion is None
+    if criterion_is_none:
         args = (core.x + core.dx() + core.w, core.dx() + core.w)
         mats = (hessian(core.H, core.x), jacobian(core.z, core.w))
         criterion = list(zip(mats, args))
@@ -107,6 +108,15 @@ def linear_nonlinear(core, criterion=None):
             move_diss(core, nwl, core.dims.w()-1)
             jacz = movefunc(jacz, nwl, core.dims.w()-1)
 
+    # linear storages must not be coupled to the others by the Hamiltonian
+    nxl = isolate(core, nxl, hessian(core.H, core.x), core.x, move_stor)
+
+    if criterion_is_none:
+        # idem for linear dissipations, which law must not have a constant part
+        nwl = isolate(core, nwl, jacobian(core.z, core.w), core.dx() + core.w,
+                       move_diss, [z.subs(dict((w, 0) for w in core.w))
+                                   for z in core.z])
+
     # number of linear components
     setattr(core.dims, '_xl', nxl)
     # Hamiltonian of linear components
@@ -121,3 +131,56 @@ def linear_nonlinear(core, criterion=None):
     # number of linear components
     setattr(core.dims, '_wl', nwl)
     core.setexpr('Zl', jacobian(core.zl(), core.wl()))
+
+
+def isolate(core, nl, jac, args, move, offset=None):
+    """
+    Move to the nonlinear part each of the nl first components which law is not
+    linear or which is coupled to a component of the nonlinear part.
+
+    Parameters
+    ----------
+    core : pyphs.Core
+        Core to analyse.
+
+    nl : int
+        Number of candidate linear components.
+
+    jac : matrix
+        Square matrix of the derivatives of the components laws.
+
+    args : list of symbols
+        Arguments of nonlinear laws.
+
+    move : function
+        Move a component of the core.
+
+    offset : list or None (optional)
+        Constant part of the components laws.
+
+    Return
+    ------
+    nl : int
+        Number of linear components.
+    """
+    n = jac.shape[0]
+    if offset is None:
+        offset = [sympy.sympify(0), ]*n
+
+    def isolated(i):
+        "True if the i-th component is linear and isolated from nonlinear part"
+        line = list(jac[i, :]) + list(jac[:, i])
+        coupling = list(jac[i, nl:]) + list(jac[nl:, i]) + [offset[i], ]
+        return (free_symbols(line).isdisjoint(args) and
+                all(elt == 0 for elt in coupling))
+
+    i = 0
+    while i < nl:
+        if isolated(i):
+            i += 1
+        else:
+            move(core, i, n-1)
+            jac = movesquarematrixcolnrow(jac, i, n-1)
+            offset = offset[:i] + offset[i+1:] + [offset[i], ]
+            nl, i = nl-1, 0
+    return nl
-- 
2.43.0


From 5d6a9e331a91cdb486fe1790ce93eb588735837c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:56 +0000
Subject: [PATCH 09/25] fix: substitutions leave the caller's dictionary alone
 and resolve chained entries; freesymbols covers all attributes

---
 pyphs/core/core.py                 |  4 ++--
 pyphs/core/tools/_substitutions.py | 33 ++++++++++++++++++++++--------
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index 27552b5..60d44cc 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -531,8 +531,8 @@ class Core:
         symbs = set()
         for name in self.exprs_names:
             expr = geteval(self, name)
-            symbs.union(free_symbols(expr))
-        symbs.union(free_symbols(self.M))
+            symbs.update(free_symbols(expr))
+        symbs.update(free_symbols(self.M))
         return symbs
 
     def dxH(self):
diff --git a/pyphs/core/tools/_substitutions.py b/pyphs/core/tools/_substitutions.py
index 5f0ce56..34cbec8 100644
--- a/pyphs/core/tools/_substitutions.py
+++ b/pyphs/core/tools/_substitutions.py
@@ -186,17 +186,27 @@ def substitute_core(core, subs=None, selfall=False, selfexprs=False,
 
     """
 
-    # init substitution dic
-    if subs is None:
-        subs = {}
+    # init substitution dic (the argument is not modified)
+    subs = {} if subs is None else dict(subs)
 
-    # append self subs dic
+    # entries of self subs dic to append: all or only exprs
+    selfsubs = {}
     if selfall:
-        substitute_core(core, selfexprs=True)
-        subs.update(core.subs)
-    # append only exprs in core subs dic
+        selfsubs.update(core.subs)
     elif selfexprs:
-        subs.update(core.subsexprs)
+        selfsubs.update(core.subsexprs)
+
+    # resolve the dependencies between the entries of self subs dic
+    for k in selfsubs.keys():
+        selfsubs[k] = substitute_scalar(selfsubs[k], subs)
+    for _ in range(len(selfsubs)):
+        selfsubs = dict((k, substitute_scalar(v, selfsubs))
+                        for k, v in selfsubs.items())
+    for k in subs.keys():
+        subs[k] = substitute_scalar(subs[k], selfsubs)
+
+    # append self subs dic
+    subs.update(selfsubs)
 
     # substitutions in core's own subsitution dictionary
     core.subs = substitute_dict(core.subs, subs)
@@ -214,9 +224,14 @@ def substitute_core(core, subs=None, selfall=False, selfexprs=False,
         if expr is None or callable(expr):
             pass
         else:
-            setattr(core, name, substitute(expr, subs_e))
+            expr = substitute(expr, subs_e)
             if simplify:
                 expr = simplify_func(expr)
+            setattr(core, name, expr)
+
+    # substitutions in the coefficients of connectors
+    core.connectors = [dict(c, alpha=substitute_scalar(c['alpha'], subs))
+                       for c in core.connectors]
 
     # remove entries in core.subs
     for k in subs.keys():
-- 
2.43.0


From 79c80c3eb5c0b40bb1c37e3bfa449044806063b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:52 +0000
Subject: [PATCH 10/25] fix: graph analysis goes on as long as nodes or edges
 become determinate

---
 pyphs/graphs/analysis.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyphs/graphs/analysis.py b/pyphs/graphs/analysis.py
index 1acd8a2..eb077bc 100644
--- a/pyphs/graphs/analysis.py
+++ b/pyphs/graphs/analysis.py
@@ -192,8 +192,12 @@ Execute an iteration over the lists:
         """
         # init memory of lambda to: check for change or stop while loop
         self.Lambda_temp = numpy.ones(self.Lambda.shape)
-        # loop while Lambda is changed
-        while not isequal(self.Lambda_temp, self.Lambda):
+        # init memory of the number of indeterminate nodes and edges
+        nic_temp = None
+        # loop while Lambda is changed, or nodes or edges became determinate
+        while (not isequal(self.Lambda_temp, self.Lambda) or
+               nic_temp != (len(self.ic_nodes), len(self.ic_edges))):
+            nic_temp = len(self.ic_nodes), len(self.ic_edges)
             if self._verbose:
                 print('###################################\nLoop Start\n')
                 # save Lambda for comparison in while condition
-- 
2.43.0


From 51e12be4a94ee21dc6b9fb1e07e457126f8d8dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:53 +0000
Subject: [PATCH 11/25] fix: compare edge types and controls by value, not by
 identity

---
 pyphs/graphs/analysis.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyphs/graphs/analysis.py b/pyphs/graphs/analysis.py
index eb077bc..4fa8353 100644
--- a/pyphs/graphs/analysis.py
+++ b/pyphs/graphs/analysis.py
@@ -59,11 +59,11 @@ class GraphAnalysis:
             e = self.ic_edges[i]
             e_data = self.edges[e][2]
             # check if effort-controlled
-            if e_data['ctrl'] is 'e':
+            if e_data['ctrl'] == 'e':
                 # move edge at the top of edge list and set Lambda(edge) to 0
                 self.set_edge_ec(e)
             # check if flux-controlled
-            elif e_data['ctrl'] is 'f':
+            elif e_data['ctrl'] == 'f':
                 if self.Lambda[:, e].sum() == 1:
                     # edge 'e' imposes the potential on that node
                     # get node index
@@ -85,7 +85,7 @@ class GraphAnalysis:
         """
         temp = []
         for e in range(self.ne):
-            if self.get_edge_data(e, 'type') is 'storage':
+            if self.get_edge_data(e, 'type') == 'storage':
                 temp.append(e)
         return temp
 
@@ -96,7 +96,7 @@ class GraphAnalysis:
         """
         temp = []
         for e in range(self.ne):
-            if self.get_edge_data(e, 'type') is 'dissipative':
+            if self.get_edge_data(e, 'type') == 'dissipative':
                 temp.append(e)
         return temp
 
@@ -107,7 +107,7 @@ class GraphAnalysis:
         """
         temp = []
         for e in range(self.ne):
-            if self.get_edge_data(e, 'type') is 'port':
+            if self.get_edge_data(e, 'type') == 'port':
                 temp.append(e)
         return temp
 
@@ -118,7 +118,7 @@ class GraphAnalysis:
         """
         temp = []
         for e in range(self.ne):
-            if self.get_edge_data(e, 'type') is 'connector':
+            if self.get_edge_data(e, 'type') == 'connector':
                 temp.append(e)
         return temp
 
@@ -344,7 +344,7 @@ define it as effort-controlled (0 column in lambda).
         self.Lambda[:, 0] = 0
         # test for connector
         new_e = self.get_edges_data('label').index(e_label)
-        if self.get_edge_data(new_e, 'type') is 'connector':
+        if self.get_edge_data(new_e, 'type') == 'connector':
             # link realizability of the other edge of the connector
             self.link_connector(new_e, 'e')
         self.verbose('set_edge_ec')
@@ -370,7 +370,7 @@ controlled node from node list
         self.fc_edges = indices[-(nfc+1):]
         # test for connector
         new_e = self.get_edges_data('label').index(e_label)
-        if self.get_edge_data(new_e, 'type') is 'connector':
+        if self.get_edge_data(new_e, 'type') == 'connector':
             # link realizability of the other edge of the connector
             self.link_connector(new_e, 'f')
         self.verbose('set_edge_fc')
@@ -428,7 +428,7 @@ and the realizability of linked edge is chosen based on the connector type \
             print('link', e_label, self.get_edge_data(e, 'connector_type'),
                   ctrl, link_e_label)
         # get connector
-        if ctrl is 'e':
+        if ctrl == 'e':
             # gyrator case
             if self.get_edge_data(e, 'connector_type') == 'gyrator':
                 # assert linked edge is not flux controlled
@@ -450,7 +450,7 @@ compatible'.format(e_label, link_e_label)
                     # move edge at the end of edge list
                     self.set_edge_fc(link_e)
 
-        if ctrl is 'f':
+        if ctrl == 'f':
             # gyrator case
             if self.get_edge_data(e, 'connector_type') == 'gyrator':
                 # assert linked edge is not effort controlled
-- 
2.43.0


From b9f636eb417a5a33a06b44886793a3ec89c5f0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:58 +0000
Subject: [PATCH 12/25] fix: nested subgraphs follow their terminals when
 neighboring components are merged

---
 pyphs/graphs/graph.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyphs/graphs/graph.py b/pyphs/graphs/graph.py
index 9c134da..bd43b96 100755
--- a/pyphs/graphs/graph.py
+++ b/pyphs/graphs/graph.py
@@ -505,6 +505,13 @@ class Graph(nx.MultiDiGraph):
                     subgraph = e[-1]['graph']
                     subgraph.core = Core()
                     assemble_subgraph(subgraph)
+                    # the terminals move with the edge that stands for the
+                    # subgraph when its neighbors are merged
+                    moved = dict(zip(subgraph.terminals, e[:2]))
+                    edges = [(moved.get(n1, n1), moved.get(n2, n2), data)
+                             for (n1, n2, data) in subgraph.edgeslist]
+                    subgraph.remove_nodes_from(list(subgraph.nodes))
+                    subgraph.add_edges_from(edges)
                     graph += subgraph
 
         assemble_subgraph(self)
-- 
2.43.0


From b5e88cd954b00342748d65b2dc25e797ec660b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:55 +0000
Subject: [PATCH 13/25] fix: evaluate vectors of expressions, series of values
 and observers

---
 pyphs/numerics/tools/_evaluation.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pyphs/numerics/tools/_evaluation.py b/pyphs/numerics/tools/_evaluation.py
index 59105eb..4a9c138 100644
--- a/pyphs/numerics/tools/_evaluation.py
+++ b/pyphs/numerics/tools/_evaluation.py
@@ -19,11 +19,13 @@ def pyphs_vectorize(func):
     """
     #return numpy.vectorize(func)
     def vec_func(*args):
+        # Scalar arguments: a single evaluation
+        if all(numpy.ndim(a) == 0 for a in args):
+            return func(*args)
         len_args = len(args[0])
         if not all(len(a) == len_args for a in args[1:]):
             raise AttributeError('Can not call vectorized function {} since given arguments have not the same length.'.format(func.__name__))
-        for ith_args in zip(*args):
-            yield func(*ith_args)
+        return numpy.array([func(*ith_args) for ith_args in zip(*args)])
     return vec_func
 
 
@@ -62,9 +64,9 @@ class Evaluation(object):
             print('Build numerical evaluations...')
 
         self.core = core.__copy__()
-        self.core.o = list(self.core.observers.values())
 
         self.core.substitute(selfall=True)
+        self.core.o = list(self.core.observers.values())
 
         if names in ['all', None]:
             names = self.core.exprs_names
@@ -95,6 +97,7 @@ class Evaluation(object):
             func, args, inds = self.expr_to_numeric(self.core, name,
                                                     self.args(),
                                                     theano=theano,
+                                                    vectorize=vectorize,
                                                     vslice=vslice)
             setattr(self, name, func)
             setattr(self, name+'_args', args)
@@ -146,10 +149,15 @@ class Evaluation(object):
             # args are symbs reorganized
             args, inds = find(symbs, allargs)
 
-            if isinstance(expr, types.vector_types):
+            if isinstance(expr, types.vector_types) and isinstance(vslice, int):
+                func = scalar_expr_to_numeric(args, expr[vslice],
+                                              subs=core.subs,
+                                              theano=theano,
+                                              vectorize=vectorize)
+            elif isinstance(expr, types.vector_types):
                 func = vector_expr_to_numeric(
                     args,
-                    expr[vslice],
+                    expr if vslice is None else expr[vslice],
                     subs=core.subs,
                     theano=theano,
                     vectorize=vectorize
-- 
2.43.0


From c22e74094a3ae64e27ae8ff6e76c1d9aa6261f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:11 +0000
Subject: [PATCH 14/25] fix: evaluate structure and laws once, at the state
 then with the discrete gradient

---
 pyphs/numerics/numerical_method/_method.py | 50 ++++++++++++++--------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/pyphs/numerics/numerical_method/_method.py b/pyphs/numerics/numerical_method/_method.py
index 9195922..ad16345 100644
--- a/pyphs/numerics/numerical_method/_method.py
+++ b/pyphs/numerics/numerical_method/_method.py
@@ -137,6 +137,9 @@ class Method(Core):
         if VERBOSE >= 2:
             print('    Build numerical structure...')
 
+        # save the structure before its discrete evaluation
+        M, z = self.M.copy(), list(self.z)
+
         # build the discrete evaluation for the gradient
         build_gradient_evaluation(self)
 
@@ -149,8 +152,12 @@ class Method(Core):
         if self.config['split']:
             if VERBOSE >= 2:
                 print('    Split Implicit/Resolved...')
+            # recover the structure before its discrete evaluation
+            self.M, self.z = M, z
             # Split implicit equations from explicit equations
             self.explicit_implicit()
+            # identify separable components in the new implicit part
+            self.monovar_multivar()
             if VERBOSE >= 2:
                 print('    Re-Build numerical structure...')
             # build the discrete evaluation for the gradient
@@ -751,30 +758,35 @@ def build_structure_evaluation(method):
     else:
         theta = method.config['theta']
 
-    # substitutions associated with the chosen numerical method
-    subs = {}
+    # substitutions associated with the gradient evaluation
+    subs_g = {}
+    for gi, gi_discret in zip(method.g(), method.dxH()):
+        subs_g[gi] = gi_discret
 
-    # build substitutions associated with the gradient evaluation
-    for i, (gi, gi_discret) in enumerate(zip(method.g(), method.dxH())):
-        subs[gi] = gi_discret
+    # substitutions associated with the state, to be done before that of the
+    # gradient which already is a discrete evaluation.
+    subs_x = {}
 
     # if theta is a numeric => theta scheme
     if isinstance(theta, (int, float)):
-        for i, (xi, dxi) in enumerate(zip(method.x, method.dx())):
-            subs[xi] = xi+theta*dxi
-        # Substitute symbols in core.M
-        method.M = method.M.subs(subs)
-        # Substitute symbols in core.z
-        for i, z in enumerate(method.z):
-            method.z[i] = z.subs(subs)
+        for xi, dxi in zip(method.x, method.dx()):
+            subs_x[xi] = xi+theta*dxi
+
+        def evaluation(expr):
+            return expr.subs(subs_x).subs(subs_g)
 
     # else if theta == 'trapez' => trapezoidal
     else:
         assert theta == 'trapez'
-        for i, (xi, dxi) in enumerate(zip(method.x, method.dx())):
-            subs[xi] = xi+dxi
-        # Substitute symbols in core.M
-        method.M = 0.5*(method.M + method.M.subs(subs))
-        # Substitute symbols in core.z
-        for i, z in enumerate(method.z):
-            method.z[i] = 0.5*(z + z.subs(subs))
+        for xi, dxi in zip(method.x, method.dx()):
+            subs_x[xi] = xi+dxi
+
+        def evaluation(expr):
+            return 0.5*(expr.subs(subs_g) + expr.subs(subs_x).subs(subs_g))
+
+    # Substitute symbols in core.M
+    method.M = evaluation(method.M)
+
+    # Substitute symbols in core.z
+    for i, zi in enumerate(method.z):
+        method.z[i] = evaluation(zi)
-- 
2.43.0


From 8194f4f2139fff4bf9ec1158d778655d93665944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:54 +0000
Subject: [PATCH 15/25] fix: count the data of the last chunk and the rows of
 the recorded variables

---
 pyphs/numerics/simulations/h5data/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/numerics/simulations/h5data/tools.py b/pyphs/numerics/simulations/h5data/tools.py
index bf2db62..bc550ed 100644
--- a/pyphs/numerics/simulations/h5data/tools.py
+++ b/pyphs/numerics/simulations/h5data/tools.py
@@ -70,7 +70,7 @@ def set_dataset_from_iterable(dataset, iterable, rslice=None, cslice=None, chunk
     if rslice is None:
         nrows = dataset.shape[0]
     elif rslice.stop is None:
-        nrows = dataset.shape[1]
+        nrows = dataset.shape[0]
     else:
         nrows = len(range(rslice.stop)[rslice])
 
@@ -95,6 +95,6 @@ def set_dataset_from_iterable(dataset, iterable, rslice=None, cslice=None, chunk
             if rslice is not None:
                 buffer_rslice = range(rslice.stop)[rslice][buffer_rslice]
             count = (nrows-offset) * ncols
-            buffer = np.fromiter(flattened_iterable, dataset.dtype)
+            buffer = np.fromiter(flattened_iterable, dataset.dtype, count)
             dataset[buffer_rslice, cslice] = buffer.reshape(-1, ncols)
             break
-- 
2.43.0


From f382649e044c9ad4e5e70cb34b5c1518f2359a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:54 +0000
Subject: [PATCH 16/25] fix: read recorded data at the requested time steps and
 components, with the options of each data object

---
 pyphs/numerics/simulations/h5data/h5data.py | 152 ++++++++++----------
 1 file changed, 76 insertions(+), 76 deletions(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index 8417f07..4377902 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -79,9 +79,9 @@ class H5Data(object):
         self._build_readers()
 
         # init load options
-        self.start = None
-        self.stop = None
-        self.step = None
+        load = {'start': None, 'stop': None, 'step': 1}
+        load.update(self.config['load'])
+        self.config['load'] = load
 
     # ----------------------------------------------------------------------- #
     # fs
@@ -167,10 +167,12 @@ class H5Data(object):
             Time index.
 
         """
+        # index of the sample at or before t, up to rounding errors in t*fs
+        i = int(numpy.floor(t*self.fs + 1e-6))
         if m == 'min':
-            return int(t*self.fs)
+            return i
         elif m == 'max':
-            return int(t*self.fs)+1
+            return i+1
         else:
             raise ValueError('unknown m={}'.format(m))
 
@@ -218,7 +220,7 @@ class H5Data(object):
             if not isinstance(t, (int, float)):
                 text = 'tstart must be a positive value: %s.' % str(t)
                 raise ValueError(text)
-        self.start = self._time2index(t, m='min')
+            self.start = self._time2index(t, m='min')
 
     # tstart: start = tstart*fs and slice for t is slice(start, stop, step)
     tstart = property(_get_tstart, _set_tstart)
@@ -247,7 +249,11 @@ class H5Data(object):
     # step: slice for t is slice(start, stop, step)
 
     def _get_step(self):
-        return self.config['load']['step']
+        i = self.config['load']['step']
+        if i is None:
+            return 1
+        else:
+            return i
 
     def _set_step(self, i):
         if i is None:
@@ -336,35 +342,9 @@ or an integer nt (number of time steps).'
 
         self._h5new()
 
-        # if sequ is not provided, a sequence of [[0]*ny]*nt is assumed
-        ny = self.method.dims.y()
-        if isinstance(sequ, list):
-            sequ = numpy.array(sequ)
-        elif hasattr(sequ, '__next__'):
-            sequ = numpy.array(list(sequ))
-            # TODO: remoce warnings
-            warnings.warn('Use of generator as inputs to simulation objects is deprecated. Use lists or arrays instead.')
-        if sequ is None:
-            sequ = [[0]*ny for _ in range(nt)]
-        elif len(sequ.shape) == 1:
-            if not ny == 1:
-                text = 'Expected input shape is ({}, {}), got ({}, )'
-                raise AttributeError(text.format(nt, ny, sequ.shape))
-            else:
-                sequ = sequ[:, numpy.newaxis]
-
-        # if seqp is not provided, a sequence of [[0]*np]*nt is assumed
-        np = self.method.dims.p()
-        if seqp is None:
-            seqp = [[0]*np for _ in range(nt)]
-        if isinstance(seqp, list):
-            seqp = numpy.array(seqp)
-        elif len(seqp.shape) == 1:
-            if not np == 1:
-                text = 'Expected parameter shape is ({}, {}), got ({}, )'
-                raise AttributeError(text.format(nt, np, seqp.shape))
-            else:
-                seqp = seqp[:, numpy.newaxis]
+        # if a sequence is not provided, a sequence of zeros is assumed
+        sequ = self._sequence(sequ, nt, self.method.dims.y(), 'input')
+        seqp = self._sequence(seqp, nt, self.method.dims.p(), 'parameter')
 
         # data to store in h5 dataset
         seqs = {'u': sequ, 'p': seqp}
@@ -383,6 +363,27 @@ or an integer nt (number of time steps).'
 
     # ----------------------------------------------------------------------- #
 
+    @staticmethod
+    def _sequence(seq, nt, dim, name):
+        """
+        Return the sequence seq as an array with shape (nt, dim).
+        """
+        if seq is None:
+            return numpy.zeros((nt, dim))
+        elif hasattr(seq, '__next__'):
+            seq = list(seq)
+            # TODO: remoce warnings
+            warnings.warn('Use of generator as inputs to simulation objects is deprecated. Use lists or arrays instead.')
+        seq = numpy.asarray(seq)
+        if len(seq.shape) == 1:
+            if not dim == 1:
+                text = 'Expected {} shape is ({}, {}), got {}'
+                raise AttributeError(text.format(name, nt, dim, seq.shape))
+            seq = seq[:, numpy.newaxis]
+        return seq
+
+    # ----------------------------------------------------------------------- #
+
     def _dimsinit(self):
         """
         Init the object attributes dims and inds
@@ -639,6 +640,7 @@ or an integer nt (number of time steps).'
                            self.step)
 
         elif isinstance(tslice, int):
+            tslice = range(self.nt)[tslice]
             tslice = slice(tslice, tslice+1, None)
 
         if tslice.start is None:
@@ -653,33 +655,28 @@ or an integer nt (number of time steps).'
             step = self.step
         else:
             step = tslice.step
-        return slice(start, stop, step)
+        return slice(*slice(start, stop, step).indices(self.nt))
 
     def _tuple2slice(self, vname, vslice):
         """
         return slice in the data from item specifier
         """
 
-        # read variable slice from data object indices
+        # indices of the variable components in global dataset
+        inds = range(*self.inds[vname])
+
+        # every components of the variable
         if vslice is None:
-            vslice = slice(*self.inds[vname])
+            vslice = slice(None)
 
-        # convert index in var to index in global dataset
-        elif isinstance(vslice, int):
-            vslice += self.inds[vname][0]
+        # convert slice in var to slice in global dataset
+        if isinstance(vslice, slice):
+            inds = inds[vslice]
+            vslice = slice(inds.start, inds.stop, inds.step)
 
-        # custom variable slice
+        # convert index in var to index in global dataset
         else:
-            if vslice.start is not None:
-                start = vslice.start+self.inds[vname][0]
-            else:
-                start = self.inds[vname][0]
-            if vslice.stop is not None:
-                stop = vslice.stop+self.inds[vname][0]
-            else:
-                stop = self.inds[vname][1]
-            step = vslice.step
-            vslice = slice(start, stop, step)
+            vslice = inds[vslice]
 
         return vslice
 
@@ -851,16 +848,16 @@ or an integer nt (number of time steps).'
             if len(array.shape) < 2:
                 array = array[:, numpy.newaxis]
             arrays.append(array)
-        output = numpy.hstack(arrays)[vslice]
+        output = numpy.hstack(arrays)[:, vslice]
+
+        if close:
+            self.h5close()
 
         if postprocess is None:
             return output
         else:
             return postprocess(output)
 
-        if close:
-            self.h5close()
-
     def _expression(self, name, tslice=None, vslice=None, postprocess=None):
 
         tslice = self._tslice(tslice)
@@ -874,7 +871,7 @@ or an integer nt (number of time steps).'
         if vslice is None:
             vslice = slice(None, None, None)
 
-        expectedNt = (tslice.stop-tslice.start)//tslice.step
+        expectedNt = len(range(tslice.start, tslice.stop, tslice.step))
 
         evalobj = self.method.to_evaluation(names=[name], vslice=vslice)
 
@@ -890,21 +887,21 @@ or an integer nt (number of time steps).'
         else:
             args = numpy.zeros((expectedNt, 1))
 
-        output = numpy.array(tuple(getattr(evalobj, name)(*args.T)))
+        output = numpy.asarray(getattr(evalobj, name)(*args.T))
 
         # Reshape if output is 0 dimensional
-        if not numpy.prod(output.shape):
+        if expectedNt > 0 and not numpy.prod(output.shape):
             output = numpy.zeros((expectedNt, 0))
 
+        if close:
+            self.h5close()
+
         # Apply postprocess
         if postprocess is None:
             return output
         else:
             return postprocess(output)
 
-        if close:
-            self.h5close()
-
     def args(self, tslice=None, vslice=None, postprocess=None):
         """
         args
@@ -1048,14 +1045,14 @@ or an integer nt (number of time steps).'
         output = self.dx(tslice=tslice, vslice=vslice,
                          postprocess=lambda dx: dx*self.fs)
 
+        if close:
+            self.h5close()
+
         if postprocess is None:
             return output
         else:
             return postprocess(output)
 
-        if close:
-            self.h5close()
-
     # ----------------------------------------------------------------------- #
 
     def a(self, tslice=None, vslice=None, postprocess=None):
@@ -1389,11 +1386,14 @@ or an integer nt (number of time steps).'
 
         # Compute DtE = (h[x[n+1]]-h[x[n]]) / dt
         if DtE == 'deltaH':
+            output = numpy.ediff1d(self.E(tslice=tslice))*self.fs/tslice.step
+            # use DtE = dxh.T * dtx for the last time step
+            last = range(tslice.start, tslice.stop, tslice.step)[-1:]
+            last = slice(last.start, last.start+len(last), 1)
             last_dtH_value = numpy.einsum('ti,ti->t',
-                                          self['dxH', tslice.stop-1],
-                                          self['dtx', tslice.stop-1])/self.fs
-            output = numpy.ediff1d(self.E(tslice=tslice),
-                                   to_end=last_dtH_value)*self.fs/tslice.step
+                                          self['dxH', last],
+                                          self['dtx', last])
+            output = numpy.concatenate((output, last_dtH_value))
 
         # Compute DtE = dxh.T * dtx
         elif DtE == 'DxhDtx':
@@ -1401,14 +1401,14 @@ or an integer nt (number of time steps).'
                                   self['dxH', tslice],
                                   self['dtx', tslice])
 
+        if close:
+            self.h5close()
+
         if postprocess is None:
             return output
         else:
             return postprocess(output)
 
-        if close:
-            self.h5close()
-
     # ----------------------------------------------------------------------- #
 
     def E(self, tslice=None, vslice=None, postprocess=None):
@@ -1508,10 +1508,10 @@ or an integer nt (number of time steps).'
                               self['u', tslice],
                               self['y', tslice])
 
+        if close:
+            self.h5close()
+
         if postprocess is None:
             return output
         else:
             return postprocess(output)
-
-        if close:
-            self.h5close()
-- 
2.43.0


From ffba87b423d47efbf00bfcf8dbded3636f03e063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:40 +0000
Subject: [PATCH 17/25] fix: simulations keep their own method, settings,
 values and initial state

---
 .../numerical_core/_numerical_core.py         |  8 ++
 pyphs/numerics/simulations/simulation.py      | 97 ++++++++++---------
 2 files changed, 60 insertions(+), 45 deletions(-)

diff --git a/pyphs/numerics/numerical_core/_numerical_core.py b/pyphs/numerics/numerical_core/_numerical_core.py
index cf3013f..66fbb4d 100644
--- a/pyphs/numerics/numerical_core/_numerical_core.py
+++ b/pyphs/numerics/numerical_core/_numerical_core.py
@@ -87,6 +87,14 @@ class Numeric(object):
                 else:
                     set_func(val)
 
+    def reset(self):
+        """
+        Set every arguments to zero, then to their initialization values.
+
+        """
+        self.args[:] = 0.
+        self.init()
+
     def build(self):
 
         if VERBOSE >= 1:
diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index 3cd6764..47334a1 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -14,6 +14,7 @@ from .. import Numeric
 from .h5data import H5Data
 from pyphs.misc.tools import geteval
 
+import numpy
 import subprocess
 import progressbar
 import time
@@ -159,21 +160,12 @@ class Simulation(object):
         if config is None:
             config = {}
         else:
-            for k in config.keys():
-                if k not in self.config.keys():
-                    text = 'Configuration key "{0}" unknown.'.format(k)
-                    raise AttributeError(text)
+            self._check_config(config)
         self.config.update(config)
 
         # Rebuild method if parameters are differents
         self.init_method()
 
-        if self.config['path'] is None:
-            self.config['path'] = os.getcwd()
-
-        if not os.path.exists(self.config['path']):
-            os.mkdir(self.config['path'])
-
         # Define inits
         self.inits = {}
         if inits is not None:
@@ -181,6 +173,15 @@ class Simulation(object):
 
         self.init_numericalCore(erase=erase)
 
+    def _check_config(self, config):
+        """
+        Raise an error if some keys in config are not configuration options.
+        """
+        for k in config.keys():
+            if k not in self.config.keys():
+                text = 'Configuration key "{0}" unknown.'.format(k)
+                raise AttributeError(text)
+
     @property
     def fs(self):
         return self.config['fs']
@@ -227,6 +228,12 @@ class Simulation(object):
             The default is True.
 
         """
+        if self.config['path'] is None:
+            self.config['path'] = os.getcwd()
+
+        if not os.path.exists(self.config['path']):
+            os.mkdir(self.config['path'])
+
         self.cpp_path = os.path.join(main_path(self),
                                      self.objlabel.lower())
         self.work_path = os.getcwd()
@@ -253,11 +260,15 @@ class Simulation(object):
 
     def init_method(self):
         """
-        Build the numerical method.
+        Build the numerical method. The original method is left unchanged (it
+        can be used by other objects).
         """
         if self.config_method() != self.method.config:
-            self.method.__init__(self.method._core,
-                                 config=self.config_method())
+            method = self.method.__class__(self.method._core,
+                                           config=self.config_method(),
+                                           label=self.method.label)
+            method.subs.update(self.method.subs)
+            self.method = method
 
     # -------------------------------------------------------------------------
 
@@ -293,51 +304,47 @@ class Simulation(object):
         Dictionary with variable name as keys and initialization values
         as value. E.g: inits = {'x': [0., 0., 1.]} to initalize state x
         with dim(x) = 3, x[0] = x[1] = 0 and x[2] = 1.
+
+    config : dict
+        Configuration options to change (see Simulation).
+
+    subs : dict
+        Values of the parameters to change in the substitution dictionary of
+        the method.
         """
 
         init_numeric = False
-        init_parameters = False
-
-        if config is None:
-            config = {}
 
-        if subs is None:
-            subs = {}
-        else:
-            for k in subs.keys():
-                if k not in self.method.subs.keys():
-                    init_numeric = True
+        if subs is not None:
+            # values are included in the python functions
+            init_numeric = (self.config['lang'] == 'python' or
+                            any(k not in self.method.subs for k in subs))
+            self.method.subs.update(subs)
             if not init_numeric:
-                init_parameters = True
-        self.method.subs.update(subs)
-        if init_parameters:
-            self.init_parameters()
-
-        c = self.config_method()
-        c.update(self.config_numeric())
-        c.update(self.config_simulation())
-
-        c.update(config)
+                self.init_parameters()
 
         if inits is not None:
-            equal = True
             for k in inits.keys():
-                try:
-                    equal = all(v == s for (v,s) in zip(inits[k], self.inits[k])) and equal
-                except KeyError:
-                    equal = False
-            if not equal:
-                self.inits.update(inits)
-                init_numeric = True
+                if (k not in self.inits or
+                        not numpy.array_equal(inits[k], self.inits[k])):
+                    init_numeric = True
+            self.inits.update(inits)
 
-        if any([self.config[k] != c[k] for k in
-                list(self.config_numeric().keys()) +
-                list(self.config_method().keys())]):
-            self.config.update(c)
+        if config is not None:
+            self._check_config(config)
+            # these options only change what is displayed
+            display = ('pbar', 'timer')
+            if any(self.config[k] != config[k]
+                   for k in config.keys() if k not in display):
+                init_numeric = True
+            self.config.update(config)
             self.init_method()
 
         if init_numeric:
             self.init_numericalCore()
+        elif self.config['lang'] == 'python':
+            # back to initial state
+            self.nums.reset()
 
         self.data.init_data(nt, sequ=u, seqp=p)
 
-- 
2.43.0


From a39dacdc369819bb77dfd41940d2074c189c668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:14 +0000
Subject: [PATCH 18/25] fix: netlists sums leave the operands unchanged,
 reading replaces the lines and ignores blanks

---
 pyphs/graphs/netlists.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyphs/graphs/netlists.py b/pyphs/graphs/netlists.py
index 0558df4..143a8ed 100644
--- a/pyphs/graphs/netlists.py
+++ b/pyphs/graphs/netlists.py
@@ -9,6 +9,7 @@ from __future__ import absolute_import, division, print_function
 
 import os
 import ast
+import copy
 from pyphs.config import datum, VERBOSE
 
 def sep():
@@ -83,7 +84,11 @@ i-th parameter is defined as 'label_pari'.
         return item
 
     def __add__(net1, net2):
-        net = net1
+        # net1 is left unchanged
+        net = copy.copy(net1)
+        for name in ('dictionaries', 'components', 'labels', 'nodes',
+                     'arguments'):
+            setattr(net, name, list(getattr(net1, name)))
         for l in net2:
             net.add_line(l)
         return net
@@ -106,12 +111,17 @@ components).
         """
         read data from netlist
         """
+        self.dictionaries = list()
+        self.components = list()
+        self.labels = list()
+        self.nodes = list()
+        self.arguments = list()
         with open(self.path, "r") as openfileobject:
             for i, line in enumerate(openfileobject.readlines()):
                 if line.startswith('#'):
                     if VERBOSE >= 1:
                         print('pass "{}"'.format(line[:-1]))
-                elif len(line) == 1:
+                elif len(line.strip()) == 0:
                     pass
                 else:
                     if VERBOSE >= 1:
@@ -132,7 +142,7 @@ components).
                     pars = {}
                     for n in range(nb_pars):
                         par, _, parameters = parameters.partition(';')
-                        par = par.replace(' ', '')
+                        par = ''.join(par.split())
                         key, _, value = par.partition('=')
                         if value.startswith('('):
                             value = value[1:-1].split(',')
-- 
2.43.0


From 5aa98876fe1320390fa70223bd7beb6796760d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:30 +0000
Subject: [PATCH 19/25] fix: parameters of components may bear the names of
 other parameters

The names given by the user were substituted one after the other, so that a
parameter named as another parameter of the component took its value.
---
 pyphs/dictionary/edges/dissipatives.py   | 5 +++--
 pyphs/dictionary/edges/storages.py       | 2 +-
 pyphs/dictionary/mechanics/_felt.py      | 4 ++--
 pyphs/dictionary/mechanics_dual/_felt.py | 4 ++--
 4 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/pyphs/dictionary/edges/dissipatives.py b/pyphs/dictionary/edges/dissipatives.py
index 2818729..2132faf 100644
--- a/pyphs/dictionary/edges/dissipatives.py
+++ b/pyphs/dictionary/edges/dissipatives.py
@@ -119,11 +119,12 @@ keys of the kwargs arguments.
         self.core.subs.update(subs)
         # replace parameters in z by correspondances in 'dicpars'
         for i, zz in enumerate(z):
-            z[i] = zz.subs(dicpars)
+            z[i] = zz.subs(dicpars, simultaneous=True)
         for e, edge in enumerate(edges):
             if 'z' in edge[2].keys():
                 for k in ['e_ctrl', 'f_ctrl']:
-                    edges[e][2]['z'][k] = edge[2]['z'][k].subs(dicpars)
+                    edges[e][2]['z'][k] = edge[2]['z'][k].subs(dicpars,
+                                                             simultaneous=True)
 
         # add dissipative component
         self.core.add_dissipations(w, z)
diff --git a/pyphs/dictionary/edges/storages.py b/pyphs/dictionary/edges/storages.py
index d9c48df..3dfe554 100644
--- a/pyphs/dictionary/edges/storages.py
+++ b/pyphs/dictionary/edges/storages.py
@@ -92,7 +92,7 @@ keys of the kwargs arguments.
         # update dict of subs in phs
         self.core.subs.update(subs)
         # replace parameters in H by correspondances in 'dicpars'
-        H = H.subs(dicpars)
+        H = H.subs(dicpars, simultaneous=True)
         # add dissipative component
         self.core.add_storages(x, H)
         # update phs.Graph with edges
diff --git a/pyphs/dictionary/mechanics/_felt.py b/pyphs/dictionary/mechanics/_felt.py
index 05485e8..0085564 100644
--- a/pyphs/dictionary/mechanics/_felt.py
+++ b/pyphs/dictionary/mechanics/_felt.py
@@ -29,7 +29,7 @@ class Felt(Graph):
         N1, N2 = nodes
         xnl = symbols('q'+label)
         hnl = sp.Piecewise((0., xnl <= 0.), ((L*F/(B+1))*(xnl/L)**(B+1), True))
-        hnl = hnl.subs(dicpars)
+        hnl = hnl.subs(dicpars, simultaneous=True)
         # edge data
         data = {'label': xnl,
                 'type': 'storage',
@@ -39,7 +39,7 @@ class Felt(Graph):
         self.core.add_storages(xnl, hnl)
 
         r = sp.Piecewise((0., xnl <= 0.), ((A * L/B)*(xnl/L)**(B-1), True))
-        r = r.subs(dicpars)
+        r = r.subs(dicpars, simultaneous=True)
         wnl = symbols('dtq'+label)
         # edge data
         data = {'label': wnl,
diff --git a/pyphs/dictionary/mechanics_dual/_felt.py b/pyphs/dictionary/mechanics_dual/_felt.py
index 5dbf08b..ebc5cca 100644
--- a/pyphs/dictionary/mechanics_dual/_felt.py
+++ b/pyphs/dictionary/mechanics_dual/_felt.py
@@ -31,7 +31,7 @@ class Felt(Graph):
         N3 = label+'_N3'
         xnl = symbols('q'+label)
         hnl = sp.Piecewise((0., xnl <= 0.), ((L*F/(B+1))*(xnl/L)**(B+1), True))
-        hnl = hnl.subs(dicpars)
+        hnl = hnl.subs(dicpars, simultaneous=True)
         # edge data
         data = {'label': xnl,
                 'type': 'storage',
@@ -41,7 +41,7 @@ class Felt(Graph):
         self.core.add_storages(xnl, hnl)
 
         r = sp.Piecewise((0., xnl <= 0.), ((A * L/B)*(xnl/L)**(B-1), True))
-        r = r.subs(dicpars)
+        r = r.subs(dicpars, simultaneous=True)
         wnl = symbols('dtq'+label)
         # edge data
         data = {'label': wnl,
-- 
2.43.0


From 7e2eb6d5e6f0367152f1d6e7af12a5c6d69ebc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:12 +0000
Subject: [PATCH 20/25] fix: components use their documented default values and
 source types

---
 pyphs/dictionary/electronics/_capacitor.py    | 2 +-
 pyphs/dictionary/electronics/_inductor.py     | 6 ++++--
 pyphs/dictionary/electronics/_resistor.py     | 6 ++++--
 pyphs/dictionary/electronics/_source.py       | 8 +++++---
 pyphs/dictionary/magnetics/_source.py         | 4 ++--
 pyphs/dictionary/mechanics_dual/_source.py    | 8 +++++---
 pyphs/dictionary/mechanics_dual/_stiffness.py | 4 +++-
 pyphs/dictionary/thermics/_transfers.py       | 6 +++---
 8 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/pyphs/dictionary/electronics/_capacitor.py b/pyphs/dictionary/electronics/_capacitor.py
index 9f4dc56..b44a70e 100644
--- a/pyphs/dictionary/electronics/_capacitor.py
+++ b/pyphs/dictionary/electronics/_capacitor.py
@@ -52,7 +52,7 @@ class Capacitor(StorageLinear):
                 'desc': 'Linear capacitor.',
                 'nodesdesc': "Capacitor terminals with positive current N1->N2.",
                 'nodes': ('N1', 'N2'),
-                'parameters': [['C', 'Capacitance', 'F', '1e-9']],
+                'parameters': [['C', 'Capacitance', 'F', 1e-9]],
                 'refs': {},
                 'nnodes': 2,
                 'nedges': 1,
diff --git a/pyphs/dictionary/electronics/_inductor.py b/pyphs/dictionary/electronics/_inductor.py
index 1e06090..ea635d7 100644
--- a/pyphs/dictionary/electronics/_inductor.py
+++ b/pyphs/dictionary/electronics/_inductor.py
@@ -18,7 +18,9 @@ class Inductor(StorageLinear):
     def __init__(self, label, nodes, **kwargs):
 
         par_name = 'L'
-        par_val = kwargs[par_name]
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
+        par_val = parameters[par_name]
         kwargs = {'name': par_name,
                   'value': par_val,
                   'inv_coeff': True,
@@ -32,7 +34,7 @@ class Inductor(StorageLinear):
                 'desc': 'Linear inductor.',
                 'nodesdesc': "Inductor terminals with positive current N1->N2.",
                 'nodes': ('N1', 'N2'),
-                'parameters': [['L', 'Inductance', 'H', '1e-3']],
+                'parameters': [['L', 'Inductance', 'H', 1e-3]],
                 'refs': {},
                 'nnodes': 2,
                 'nedges': 1,
diff --git a/pyphs/dictionary/electronics/_resistor.py b/pyphs/dictionary/electronics/_resistor.py
index 9b5247c..036fa68 100644
--- a/pyphs/dictionary/electronics/_resistor.py
+++ b/pyphs/dictionary/electronics/_resistor.py
@@ -16,10 +16,12 @@ from ..electronics import metadata as dicmetadata
 class Resistor(DissipativeLinear):
 
     def __init__(self, label, nodes, **kwargs):
-        if kwargs['R'] is None:
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
+        if parameters['R'] is None:
             coeff = 0
         else:
-            coeff = kwargs['R']
+            coeff = parameters['R']
         DissipativeLinear.__init__(self, label, nodes, coeff=coeff)
 
     metadata = {'title': 'Resistor',
diff --git a/pyphs/dictionary/electronics/_source.py b/pyphs/dictionary/electronics/_source.py
index 81bf930..7ed5501 100644
--- a/pyphs/dictionary/electronics/_source.py
+++ b/pyphs/dictionary/electronics/_source.py
@@ -16,16 +16,18 @@ from ..electronics import metadata as dicmetadata
 class Source(Port):
 
     def __init__(self, label, nodes, **kwargs):
-        type_ = kwargs['type']
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
+        type_ = parameters['type']
         type_ = type_.lower()
         assert type_ in ('voltage', 'current')
         if type_ == 'voltage':
             ctrl = 'f'
         elif type_ == 'current':
             ctrl = 'e'
-        kwargs.update({'ctrl': ctrl})
+        parameters.update({'ctrl': ctrl})
 #        kwargs.update({'units': units})
-        Port.__init__(self, label, nodes, **kwargs)
+        Port.__init__(self, label, nodes, **parameters)
 
     metadata = {'title': 'Electrical source',
                 'component': 'Source',
diff --git a/pyphs/dictionary/magnetics/_source.py b/pyphs/dictionary/magnetics/_source.py
index 2cdc6f2..e301616 100644
--- a/pyphs/dictionary/magnetics/_source.py
+++ b/pyphs/dictionary/magnetics/_source.py
@@ -21,10 +21,10 @@ class Source(Port):
         parameters.update(kwargs)
         type_ = parameters['type']
         type_ = type_.lower()
-        assert type_ in ('mmf', 'fluxvar')
+        assert type_ in ('mmf', 'fluxvar', 'mfv')
         if type_ == 'mmf':
             ctrl = 'f'
-        elif type_ == 'fluxvar':
+        elif type_ in ('fluxvar', 'mfv'):
             ctrl = 'e'
         parameters.update({'ctrl': ctrl})
         Port.__init__(self, label, nodes, **parameters)
diff --git a/pyphs/dictionary/mechanics_dual/_source.py b/pyphs/dictionary/mechanics_dual/_source.py
index cfe5aa2..61fd872 100644
--- a/pyphs/dictionary/mechanics_dual/_source.py
+++ b/pyphs/dictionary/mechanics_dual/_source.py
@@ -16,15 +16,17 @@ from pyphs.misc.rst import equation
 class Source(Port):
 
     def __init__(self, label, nodes, **kwargs):
-        type_ = kwargs['type']
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
+        type_ = parameters['type']
         type_ = type_.lower()
         assert type_ in ('force', 'velocity')
         if type_ == 'force':
             ctrl = 'f'
         elif type_ == 'velocity':
             ctrl = 'e'
-        kwargs.update({'ctrl': ctrl})
-        Port.__init__(self, label, nodes, **kwargs)
+        parameters.update({'ctrl': ctrl})
+        Port.__init__(self, label, nodes, **parameters)
 
     metadata = {'title': 'Mechanical Source',
                 'component': 'Source',
diff --git a/pyphs/dictionary/mechanics_dual/_stiffness.py b/pyphs/dictionary/mechanics_dual/_stiffness.py
index 75cabc2..f3ea83c 100644
--- a/pyphs/dictionary/mechanics_dual/_stiffness.py
+++ b/pyphs/dictionary/mechanics_dual/_stiffness.py
@@ -17,7 +17,9 @@ class Stiffness(StorageLinear):
 
     def __init__(self, label, nodes, **kwargs):
         par_name = 'K'
-        par_val = kwargs[par_name]
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
+        par_val = parameters[par_name]
         kwargs = {'name': par_name,
                   'value': par_val,
                   'inv_coeff': False,
diff --git a/pyphs/dictionary/thermics/_transfers.py b/pyphs/dictionary/thermics/_transfers.py
index 285e4e8..2f6a2b7 100644
--- a/pyphs/dictionary/thermics/_transfers.py
+++ b/pyphs/dictionary/thermics/_transfers.py
@@ -18,9 +18,9 @@ class Transfer(DissipativeNonLinear):
 
     def __init__(self, label, nodes, **kwargs):
         # parameters
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
         pars = ['R', ]
-        for par in pars:
-            assert par in kwargs.keys()
         R, = symbols(pars)
 
         # dissipation variable
@@ -57,7 +57,7 @@ class Transfer(DissipativeNonLinear):
                                          [edge1,
                                           edge2],
                                          w, [z1, z2],
-                                         **kwargs)
+                                         **parameters)
 
     metadata = {'title': 'Thermal transfer',
                 'component': 'Transfer',
-- 
2.43.0


From 3944c60bcd164870e47665231c3016ffad6ad91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:12 +0000
Subject: [PATCH 21/25] fix: triode law is defined for negative plate voltages
 and its grid is resistive

The power of a negative number is not a number although its factor vanishes, and
the grid current beyond the threshold was 1/Rgk whatever the voltage.
---
 pyphs/dictionary/electronics/_triode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/dictionary/electronics/_triode.py b/pyphs/dictionary/electronics/_triode.py
index d063b58..6239edd 100644
--- a/pyphs/dictionary/electronics/_triode.py
+++ b/pyphs/dictionary/electronics/_triode.py
@@ -48,7 +48,7 @@ class Triode(DissipativeNonLinear):
             """
             dissipation function for edge 'e = (g->k)'
             """
-            expr = indicator(vgk-Va)/Rgk
+            expr = (vgk-Va)*indicator(vgk-Va)/Rgk
             return expr
 
         def ipk():
@@ -59,7 +59,7 @@ class Triode(DissipativeNonLinear):
             e2 = sympy.sqrt(Kvb + vpk**2)
             e3 = Kp*(mu**-1 + e1/e2)
             exprE = (vpk/Kp)*sympy.log(1 + sympy.exp(e3))
-            expr = exprE**Ex * (1 + sign(exprE)) / Kg
+            expr = abs(exprE)**Ex * (1 + sign(exprE)) / Kg
             return expr.evalf()
 
         z = [ipk()+(vpk+vgk)*GMIN, igk()+(vpk+vgk)*GMIN]
-- 
2.43.0


From 9db3ee0a32dee1caf28b3b0ba10a34c2d402bfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:38 +0000
Subject: [PATCH 22/25] fix: signalgenerator returns all the cycles

---
 pyphs/misc/signals/synthesis/synthesis_array.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyphs/misc/signals/synthesis/synthesis_array.py b/pyphs/misc/signals/synthesis/synthesis_array.py
index df4529e..901c592 100644
--- a/pyphs/misc/signals/synthesis/synthesis_array.py
+++ b/pyphs/misc/signals/synthesis/synthesis_array.py
@@ -302,6 +302,7 @@ to PWM.
     deb = background_noise(parameters['ndeb'])
 
     # cycles
+    cycles = []
     for c in range(parameters['ncycles']):
         if parameters['which'] == 'zero':
             Sig = constant(parameters['non'], 0.)
@@ -349,10 +350,12 @@ to PWM.
             cycle_deb += parameters['offset']
             cycle_end += parameters['offset']
 
+        cycles += [cycle_deb, cycle_end]
+
     # end
     end = background_noise(parameters['nend'])
 
-    return hstack((deb, cycle_deb, cycle_end, end))
+    return hstack([deb] + cycles + [end])
 
 
 def build_parameters(**kwargs):
-- 
2.43.0


From a5cce7bbf0c03f4c4679afa910b32468022a4ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:02 +0000
Subject: [PATCH 23/25] fix: initial values of the generated C++ code have the
 precision of its data

---
 pyphs/numerics/cpp/arguments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/numerics/cpp/arguments.py b/pyphs/numerics/cpp/arguments.py
index 7a4a664..8379367 100644
--- a/pyphs/numerics/cpp/arguments.py
+++ b/pyphs/numerics/cpp/arguments.py
@@ -213,7 +213,7 @@ def _str_args_init_data(method, name):
                 symbs = expr.free_symbols
                 if not any(symb in method.args() for symb in symbs):
                     c = ccode(expr, dereference=dereference(method))
-                    data = 'float({0}), '.format(c)
+                    data = '{1}({0}), '.format(c, CONFIG_CPP['float'])
             init_data += data
     if crop:
         init_data = init_data[:-2]
-- 
2.43.0


From 62bfbfdc58137a69f32601e100d769bbddf13860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:21 +0000
Subject: [PATCH 24/25] fix: parameters of pickups may bear the names of other
 parameters

---
 pyphs/dictionary/transducers/_pickup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/dictionary/transducers/_pickup.py b/pyphs/dictionary/transducers/_pickup.py
index 353e1e8..57353a6 100644
--- a/pyphs/dictionary/transducers/_pickup.py
+++ b/pyphs/dictionary/transducers/_pickup.py
@@ -58,7 +58,7 @@ class Pickup(Graph):
             return 2*Rb**2*dmu*Rp*((f1-2*Lh**2)/f1**2 -
                                    (f2-2*Lh**2)/f2**2) * dtq
 
-        falpha = (f(q, dtq)**-1).subs(dicpars)
+        falpha = (f(q, dtq)**-1).subs(dicpars, simultaneous=True)
         self += Gyrator(label+'MecToMag',
                         (self.datum, NCcoil, self.datum, NMagnet),
                         alpha=(label+'f', falpha))
-- 
2.43.0


From b2d74c28fc800c0eaaa04a58dcbbbe57078caf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:27 +0000
Subject: [PATCH 25/25] fix: transformers obey, whatever the control of their
 edges, the law that loudspeakers, beams and fractional derivators rely on

---
 pyphs/dictionary/connectors/_transformer.py | 2 +-
 pyphs/graphs/build.py                       | 7 +++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyphs/dictionary/connectors/_transformer.py b/pyphs/dictionary/connectors/_transformer.py
index 5e2ca50..903e62e 100644
--- a/pyphs/dictionary/connectors/_transformer.py
+++ b/pyphs/dictionary/connectors/_transformer.py
@@ -25,7 +25,7 @@ class Transformer(Connector):
                 'dico': 'connectors',
                 'component': 'Transformer',
                 'desc': r'Quadripole connector of transformer type with:' +
-                        equation(r'\left\{\begin{array}{rcl} f_A &=& -\alpha\, f_B, \\ e_B &=& + \alpha\,e_A. \end{array}\right.'),
+                        equation(r'\left\{\begin{array}{rcl} e_A &=& -\alpha\, e_B, \\ f_B &=& + \alpha\,f_A. \end{array}\right.'),
                 'nodesdesc': "Connected edges are A1->A2 and B1->B2.",
                 'nodes': ('A1', 'A2', 'B1', 'B2'),
                 'parameters': [['alpha', 'Ratio', 'unknown', 1.]],
diff --git a/pyphs/graphs/build.py b/pyphs/graphs/build.py
index 2ff6ece..f5b18f6 100644
--- a/pyphs/graphs/build.py
+++ b/pyphs/graphs/build.py
@@ -96,10 +96,9 @@ def _setCore(graph):
         alpha = graph.analysis.get_edge_data(e, 'alpha')
         if alpha is not None:
             # Core.connect imposes (u1, u2) = (-alpha*y2, alpha*y1), which is
-            # the law of flux-controlled gyrators and of transformers with
-            # first edge effort-controlled; the dual control inverts it.
-            gyrator = graph.analysis.get_edge_data(e, 'connector_type') == 'gyrator'
-            if gyrator == (e in graph.analysis.ec_edges):
+            # the law of connectors with first edge flux-controlled; the dual
+            # control inverts it.
+            if e in graph.analysis.ec_edges:
                 alpha = -alpha**-1
             graph.core.connectors[index_e_in_connector]['alpha'] = alpha
     graph.core.cy = [graph.core.cy[el] for el in new_indices_connector]
-- 
2.43.0

