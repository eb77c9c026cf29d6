From d2820e490c908e37ea50135953dc557e452aac74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:28 +0000
Subject: [PATCH 01/27] fix: save and load structures with open() instead of
 the removed file() builtin

---
 casadi_extras/structure3.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 90eb856..b36fb92 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -769,7 +769,8 @@ class CasadiStructure(Structure,CasadiStructureDerivable):
 
   def save(self,filename):
     import pickle
-    pickle.dump(self,file(filename,"wb"),2)
+    with open(filename,"wb") as f:
+      pickle.dump(self,f,2)
 
   class FlatIndexDispatcher(Dispatcher):
     def __call__(self,payload,canonicalIndex,extraIndex=None,entry=None):
@@ -1060,7 +1061,8 @@ class DMStruct(MatrixStruct):
 
   def save(self,filename):
     import pickle
-    pickle.dump(self,file(filename,"wb"),2)
+    with open(filename,"wb") as f:
+      pickle.dump(self,f,2)
 
   def __setstate__(self,state):
     cs = CasadiStructure.__new__(CasadiStructure)
@@ -1487,4 +1489,5 @@ class DataReferenceSquaredRepeated(DataReference):
 
 def struct_load(filename):
     import pickle
-    return pickle.load(file(filename,"rb"))
+    with open(filename,"rb") as f:
+      return pickle.load(f)
-- 
2.43.0


From 2afca17f12a0964dad5e48bbaef3a2bfe73d7af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:28 +0000
Subject: [PATCH 02/27] fix: do not share pickle state between structures with
 the same declaration

Pickling two numeric structures of one declaration together loaded the
values of the first one into both.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index b36fb92..78a02a7 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -794,7 +794,7 @@ class CasadiStructure(Structure,CasadiStructureDerivable):
     self.__init__(*state["args"],**state["kwargs"])
 
   def __getstate__(self):
-    return self.initializer
+    return dict(self.initializer) # a copy, because the caller adds its own items
 
   def __init__(self,*args,**kwargs):
     self.initializer = {"args": args, "kwargs": kwargs}
-- 
2.43.0


From 11a78c73f7c69a4e6da83c24ab41464a20fc0eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:28 +0000
Subject: [PATCH 03/27] fix: keep the original sparsity of symmetric entries
 when pickling

A loaded structure could not be assigned a whole symmetric matrix.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 78a02a7..989e806 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1326,7 +1326,7 @@ class CasadiStructEntry(StructEntry):
       return "symm(" +  self.sparsity.dim() + ")"
 
   def __getstate__(self):
-    return dict((k,getattr(self,k)) for k in ["name", "struct", "sparsity","type","repeat","shapestruct","dims"])
+    return dict((k,getattr(self,k)) for k in ["name", "struct", "sparsity","originalsparsity","type","repeat","shapestruct","dims"] if hasattr(self,k))
 
 
 def entry(*args,**kwargs):
-- 
2.43.0


From f97f4081a553a01839f82c1603d90cd81c1352a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:28 +0000
Subject: [PATCH 04/27] fix: read any part of a symmetric entry from the full
 symmetric matrix

Elements below the diagonal read as zero, and reading a row or a column
failed.
---
 casadi_extras/structure3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 989e806..46ebceb 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -600,7 +600,8 @@ class GetterDispatcher(Dispatcher):
         if type is None:
           return correct_vector_indexing(self.master, i)
         elif type=="symm":
-          return triu2symm(self.master[i])
+          symm = triu2symm(self.master[self.struct.map[canonicalIndex]])
+          return performExtraIndex(symm,extraIndex=extraIndex,entry=entry)
         else:
           raise Exception("Cannot handle type '%s'." % entry.type)
       except Exception as e:
-- 
2.43.0


From b86d71245fdf8f1177927973a33f94dfaff99d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:28 +0000
Subject: [PATCH 05/27] fix: descend into the named entries for a list of names
 in a power index

Lists naming repeated or symmetric entries, or followed by further
indices, failed or ignored the type of the entry.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 46ebceb..da9ba8b 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -408,7 +408,7 @@ class Structure(object):
                    ])
         elif isinstance(p,list):
           return [
-                     self.traverseByPowerIndex(
+                     self.dict[s].traverseByPowerIndex(
                        powerIndex[1:],
                        canonicalIndex=canonicalIndex+(s,),
                        dispatcher=dispatcher,
-- 
2.43.0


From c1177a39b0a48500c03995d6e1dd68e94b73d437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:28 +0000
Subject: [PATCH 06/27] fix: return usable extra indices from getCanonicalIndex

The [i,j] form had row and column swapped, and the [i] form counted
nonzeros instead of elements for sparse entries.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index da9ba8b..85a2394 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -813,7 +813,7 @@ class CasadiStructure(Structure,CasadiStructureDerivable):
       k += sp.nnz()
       it = tuple(i)
       self.map[it] = m
-      self.lookuptable+=[(it,kk,p) for kk,p in enumerate(zip(sp.get_col(),sp.row()))]
+      self.lookuptable+=[(it,row+col*sp.size1(),(row,col)) for col,row in zip(sp.get_col(),sp.row())]
       for a in canonicalIndexAncestors(it)[1:]:
         if a in hmap:
           hmap[a].append(m)
-- 
2.43.0


From d270603b5879be8736aea4376786239f6856e1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:28 +0000
Subject: [PATCH 07/27] fix: split the flat data of repeated MX views

repeated() and squared_repeated() failed for MX matrices with more than
one repetition.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 85a2394..3bfe760 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -970,7 +970,7 @@ class VertsplitStructure:
     if parent is None:  parent = self.master
 
     if isinstance(parent,DataReference):
-      parent = parent.a
+      parent = parent.v
 
     ks  = []
     its = []
-- 
2.43.0


From a4f159e3c678c7e4c5222d9a7f80540c919e14df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:28 +0000
Subject: [PATCH 08/27] fix: return the assigned value when reading a mutable
 MX structure

Reading an entry after assigning to it returned the old value.
---
 casadi_extras/structure3.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 3bfe760..c5c6088 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1094,6 +1094,12 @@ class MXStruct(MatrixStruct,VertsplitStructure):
 
     self.buildMap()
 
+  def __setitem__(self,powerIndex,value):
+    try:
+      MatrixStruct.__setitem__(self,powerIndex,value)
+    finally:
+      self.buildMap() # the parts of the old master are outdated
+
   def __MX__(self):
     return self.cat
 
-- 
2.43.0


From 61063da41eab8052090772f1895b7d47a00d3189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:00 +0000
Subject: [PATCH 09/27] fix: use the values and intervals to the left in the
 left-continuous interpolator

It indexed the value matrix one column too far, and used the right
interval at the interval boundaries.
---
 casadi_extras/collocation/collocation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/collocation/collocation.py b/casadi_extras/collocation/collocation.py
index ed83c5c..de8b69e 100644
--- a/casadi_extras/collocation/collocation.py
+++ b/casadi_extras/collocation/collocation.py
@@ -219,7 +219,9 @@ class _PdqInterpolator(object):
         self._basis = [PolynomialBasis(pdq._collocationPoints[g]) for g in groups]
         self._pdq = pdq
         self._continuity = continuity
-        self._groups = groups
+
+        # Columns of the value matrix; it has no column for the leftmost point if continuity is 'left'.
+        self._groups = [g - 1 for g in groups] if continuity == 'left' else groups
         
 
     def __call__(self, x, t):
@@ -234,7 +236,8 @@ class _PdqInterpolator(object):
         l = []
         
         for ti in np.atleast_1d(t):
-            i = np.clip(np.searchsorted(pdq._intervalBounds, ti, 'right') - 1, 0, len(pdq._intervalBounds) - 2)  # interval index
+            side = 'left' if continuity == 'left' else 'right'
+            i = np.clip(np.searchsorted(pdq._intervalBounds, ti, side) - 1, 0, len(pdq._intervalBounds) - 2)  # interval index
             l.append(np.dot(x[:, groups[i]], self._basis[i].interpolationMatrix(ti).T))
 
         return np.hstack(l)
-- 
2.43.0


From fca83065aee4f8e8ccce20b0ebcb7f6710e3ccf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:00 +0000
Subject: [PATCH 10/27] fix: allow the quadrature to depend on parameters in
 the collocation integrator

The quadrature outputs had the parameter of the scheme as a free variable.
---
 casadi_extras/collocation/collocation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/collocation/collocation.py b/casadi_extras/collocation/collocation.py
index de8b69e..05874e3 100644
--- a/casadi_extras/collocation/collocation.py
+++ b/casadi_extras/collocation/collocation.py
@@ -538,7 +538,7 @@ class CollocationIntegrator(cs.Function):
         w0['K'] = cs.MX.zeros(scheme.K.shape)
         w0['Z'] = cs.repmat(z0, 1, scheme.Z.shape[1])
         
-        sol = var(rf(w0, x0, scheme.u, dae.p))
+        sol = var(rf(w0, x0, scheme.u, scheme.p))
         sol_x = sol['x']
         sol_K = sol['K']
         sol_Z = sol['Z']
@@ -548,7 +548,7 @@ class CollocationIntegrator(cs.Function):
         # TODO: return correct value for zf!
         # TODO: return only x instead of x and xf?
         super().__init__(name, 
-            [x0, z0, scheme.u, dae.p], 
+            [x0, z0, scheme.u, scheme.p], 
             [sol_x[:, 1 :], np.repeat(np.nan, dae.nz), sol_q[:, -1], sol_X, sol_Z, sol_Q, sol_x, sol_K, scheme.tc],
             ['x0', 'z0', 'u', 'p'], 
             ['xf', 'zf', 'qf', 'X', 'Z', 'Q', 'x', 'K', 'tc'])
-- 
2.43.0


From e6724e3182f2f2275a0bc9fdc67636cb262688dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:00 +0000
Subject: [PATCH 11/27] fix: make interval polynomials of less than full degree

PiecewisePoly.poly() failed if the leading coefficients are zero, or if
all coefficients are integers.
---
 casadi_extras/collocation/piecewise_poly.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/casadi_extras/collocation/piecewise_poly.py b/casadi_extras/collocation/piecewise_poly.py
index 59aa1d6..91fd97c 100644
--- a/casadi_extras/collocation/piecewise_poly.py
+++ b/casadi_extras/collocation/piecewise_poly.py
@@ -123,9 +123,8 @@ class PiecewisePoly(object):
         @return list of polynomials p such that
         p[i](t) = self(interval[n] + t)[i, :]
         '''
-        p = self._basis.compose(self._coefficients[n])
-        for p_i in p:
-            p_i.coef /= (self.intervals[n + 1] - self.intervals[n]) ** np.flip(np.arange(self._basis.order + 1))
+        h = self.intervals[n + 1] - self.intervals[n]
 
-        return p
+        # Leading zero coefficients are dropped by np.poly1d, so the number of coefficients can be less than order + 1.
+        return [np.poly1d(p_i.coef / h ** np.flip(np.arange(p_i.coef.size))) for p_i in self._basis.compose(self._coefficients[n])]
 
-- 
2.43.0


From cf50f36a01f5fb3d011b1e01e9c38c7bea21a4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:00 +0000
Subject: [PATCH 12/27] fix: keep the equations of DAE models connected in
 parallel

---
 casadi_extras/dae_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/dae_model.py b/casadi_extras/dae_model.py
index 2f73175..cdf3e84 100644
--- a/casadi_extras/dae_model.py
+++ b/casadi_extras/dae_model.py
@@ -290,4 +290,4 @@ def parallel(models):
     for attr in ['x', 'z', 'u', 'p', 'ode', 'alg', 'quad']: # TODO: what do we do with t?
         d[attr] = ce.struct_MX([ce.entry('model_{0}'.format(i), expr=getattr(m, attr)) for i, m in enumerate(models)])
 
-    return Dae(**d)
\ No newline at end of file
+    return SemiExplicitDae(**d)
\ No newline at end of file
-- 
2.43.0


From 60731a9dbc08a023bab979cb5e235ae019a5f602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:00 +0000
Subject: [PATCH 13/27] fix: concatenate inequalities which have no nominal
 values

---
 casadi_extras/inequality.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/inequality.py b/casadi_extras/inequality.py
index d246ca0..25de071 100644
--- a/casadi_extras/inequality.py
+++ b/casadi_extras/inequality.py
@@ -71,11 +71,11 @@ def vertcat(ineq):
         expr = struct_MX([entry(k, expr=v.expr) for k, v in ineq.items()])
         lb = expr(dict((k, v.lb) for k, v in ineq.items()))
         ub = expr(dict((k, v.ub) for k, v in ineq.items()))
-        nominal = expr(dict((k, v.nominal) for k, v in ineq.items()))
+        nominal = None if ineq and all(v.nominal is None for v in ineq.values()) else expr(dict((k, v.nominal) for k, v in ineq.items()))
     else:
         expr=cs.vertcat(*[a.expr for a in ineq])
         lb=cs.vertcat(*[a.lb for a in ineq])
         ub=cs.vertcat(*[a.ub for a in ineq])
-        nominal=cs.vertcat(*[a.nominal for a in ineq])
+        nominal = None if ineq and all(a.nominal is None for a in ineq) else cs.vertcat(*[a.nominal for a in ineq])
 
     return Inequality(expr=expr, lb=lb, ub=ub, nominal=nominal)
\ No newline at end of file
-- 
2.43.0


From 2a2e1283a92a4d3588af6b6d8714230e1aba46cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:52 +0000
Subject: [PATCH 14/27] fix: reject orders which do not list every entry
 exactly once

An order that left out an entry gave that entry no position in the flat vector.
An order that named an entry twice gave it two.
---
 casadi_extras/structure3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index c5c6088..fa46202 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -290,6 +290,9 @@ class Structure(object):
           if ee not in self.dict:
             raise Exception("Order '%s' is invalid." % ee)
 
+    if len(self.keyslist)!=len(self.dict) or len(set(self.keyslist))!=len(self.dict):
+      raise Exception("Order %s is invalid: it must contain every entry exactly once." % str(self.order))
+
   def keys(self):
     return self.keyslist
 
-- 
2.43.0


From 3faeebe7f6c618e9dbc54ec5f7e5462d4f0bd820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:13 +0000
Subject: [PATCH 15/27] fix: distribute a list over the addressed positions in
 order

The values of a list assigned through a slice or a list of positions were picked by
position, so s['b',[1,0]] = [7,8] swapped the values and s['b',1:] = [7,8] raised.
---
 casadi_extras/structure3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index fa46202..816714b 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -241,9 +241,9 @@ class StructEntry:
                       dims=dims[1:],
                       canonicalIndex=canonicalIndex+(canonical(i,s),),
                       dispatcher=dispatcher,
-                      payload = payloadUnpack(payload,i)
+                      payload = payloadUnpack(payload,k)
                     )
-                 for i in p]
+                 for k,i in enumerate(p)]
         elif isinstance(p,dict):
           raise Exception("powerIndex entry {} cannot be used in list context.")
         elif isinstance(p,set):
-- 
2.43.0


From bffcff5687cfee831d70d7656ddce86ee6aca9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:01 +0000
Subject: [PATCH 16/27] fix: cast symbolic SX data to symbolic structures

A structure of SX symbols or a list of SX symbols was turned into a numeric structure full of nan.
---
 casadi_extras/structure3.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 816714b..e1f6bbd 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -449,6 +449,12 @@ class CasadiStructureDerivable:
 
   def argtype(self,arg):
     mtype = None
+    # DM(arg) accepts these, but replaces the symbols by nan
+    if isIterable(arg) and any(isinstance(e,SX) for e in arg):
+      arg = vertcat(*arg)
+    elif hasattr(arg,"__SX__"):
+      arg = arg.__SX__()
+
     if isinstance(arg,DM):
       a = arg
       mtype = DM
-- 
2.43.0


From e60454aed18e9c3dbf66878111d2da349a319190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:04 +0000
Subject: [PATCH 17/27] fix: reject matrices of the wrong height in parseMatrix

The values of a matrix with a single row were broadcast to all fields.
---
 casadi_extras/structure3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index e1f6bbd..3381bc9 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -525,6 +525,8 @@ class CasadiStructureDerivable:
     '''
 
     data = np.atleast_2d(data)
+    if data.shape[0] != self.size:
+      raise Exception("Expecting a matrix with %d rows. Got %s" % (self.size,str(data.shape)))
     return dict((k, horzcat(*[self(d)[k] for d in data.T])) for k in self.keys())
 
 
-- 
2.43.0


From 9c3417ebf1ea7e7c0318f69cc0d139de84635791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:51 +0000
Subject: [PATCH 18/27] fix: write to the lower triangle of a symmetric entry
 by linear index

Such a write was silently ignored, because only the upper triangle is stored.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 3381bc9..22d9770 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -694,7 +694,7 @@ def performExtraIndex(i,extraIndex=None,entry=None,flip=False):
       if len(extraIndex)==1:
         a = extraIndex[0]
         a = delegation(a,entry,0)
-        return i.__getitem__(a)
+        return (i.T if flip else i).__getitem__(a)
       else:
         a,b = extraIndex
         a = delegation(a,entry,0)
-- 
2.43.0


From 82504d93cf79f841279f1a4129a7865065e6b7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:20 +0000
Subject: [PATCH 19/27] fix: reject values of the wrong number of points in
 Pdq.derivative and Pdq.integral

---
 casadi_extras/collocation/collocation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/casadi_extras/collocation/collocation.py b/casadi_extras/collocation/collocation.py
index 05874e3..3efdcbb 100644
--- a/casadi_extras/collocation/collocation.py
+++ b/casadi_extras/collocation/collocation.py
@@ -147,6 +147,7 @@ class Pdq(object):
         """Calculate derivative from function values
         """
 
+        assert y.shape[1] == len(self._collocationPoints)
         return cs.mtimes(y, self._bigD[: -1, :].T)
 
 
@@ -154,6 +155,7 @@ class Pdq(object):
         """Calculate integral from derivative values
         """
 
+        assert dy.shape[1] == len(self._collocationPoints) - 1
         y0 = cs.MX.zeros(dy.shape[0])
         y = []
         k = 0
-- 
2.43.0


From a06febf1ad0b844328d0a56fba289c76eaa7006f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:34 +0000
Subject: [PATCH 20/27] fix: reject semi-explicit DAE models with algebraic
 states but no algebraic equations

---
 casadi_extras/dae_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/casadi_extras/dae_model.py b/casadi_extras/dae_model.py
index cdf3e84..65aec99 100644
--- a/casadi_extras/dae_model.py
+++ b/casadi_extras/dae_model.py
@@ -206,12 +206,12 @@ class SemiExplicitDae(Dae):
 
             if not alg.is_column():
                 raise ValueError('alg must be a column vector')
-
-            if self.z.numel() != alg.numel():
-                raise ValueError('z and alg must have the same number of elements')
         else:
             alg = cs.MX.sym('alg', 0)
 
+        if self.z.numel() != alg.numel():
+            raise ValueError('z and alg must have the same number of elements')
+
         self._ode = ode
         self._alg = alg
 
-- 
2.43.0


From 3eac1daa586be629438ac3341244da1156cec68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:37 +0000
Subject: [PATCH 21/27] fix: reject implicit DAE models whose state derivative
 is not purely symbolic

---
 casadi_extras/dae_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/casadi_extras/dae_model.py b/casadi_extras/dae_model.py
index 65aec99..2787da4 100644
--- a/casadi_extras/dae_model.py
+++ b/casadi_extras/dae_model.py
@@ -251,6 +251,9 @@ class ImplicitDae(Dae):
         if not xdot.is_column():
             raise ValueError('xdot must be a column vector')
 
+        if not xdot.is_valid_input():
+            raise ValueError('xdot must be a valid input (purely symbolic)')
+
         if self.x.numel() != xdot.numel():
             raise ValueError('x and xdot must have the same number of elements')
 
-- 
2.43.0


From cabafbd6f0bdea5915e9f9396ade7781fb31d084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:41 +0000
Subject: [PATCH 22/27] fix: keep structural zeros of the equations when
 connecting DAE models in parallel

struct_MX drops structural zeros, so a connection of models with sparse
right-hand sides had too few equations (rejected) or quadratures (lost).
---
 casadi_extras/dae_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/casadi_extras/dae_model.py b/casadi_extras/dae_model.py
index 2787da4..7ca1e5e 100644
--- a/casadi_extras/dae_model.py
+++ b/casadi_extras/dae_model.py
@@ -291,6 +291,8 @@ def parallel(models):
     
     d = {}
     for attr in ['x', 'z', 'u', 'p', 'ode', 'alg', 'quad']: # TODO: what do we do with t?
-        d[attr] = ce.struct_MX([ce.entry('model_{0}'.format(i), expr=getattr(m, attr)) for i, m in enumerate(models)])
+        expr = [getattr(m, attr) for m in models]
+        expr = [e if e.sparsity().is_dense() else cs.densify(e) for e in expr]  # struct_MX drops structural zeros
+        d[attr] = ce.struct_MX([ce.entry('model_{0}'.format(i), expr=e) for i, e in enumerate(expr)])
 
     return SemiExplicitDae(**d)
\ No newline at end of file
-- 
2.43.0


From 87a760ec2c9643762bfe66563e909280d385fb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:59 +0000
Subject: [PATCH 23/27] fix: keep the flat vector of an MX structure until an
 entry is replaced

The dirty flag was never cleared, so every access built a new vector.
casadi does not keep the result of a conversion alive: using the structure
twice in one call, e.g. dot(s, s), crashed the interpreter.
---
 casadi_extras/structure3.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 22d9770..7a9144b 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1177,6 +1177,7 @@ class MXVeccatStruct(CasadiStructured,MasterGettable):
 
     if self.dirty:
       self.master_cached = vertcat(*[casadi.vec(i if i.is_dense() else i.nz[:]) for i in self.storage])
+      self.dirty = False
 
     return self.master_cached
 
-- 
2.43.0


From c14918a0b8af5fa706e4ba2e06095ef72fbb96c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:59 +0000
Subject: [PATCH 24/27] fix: let a prefix stand for the part it denotes in
 expressions

Attributes of a prefix, among them the conversions used by casadi, came from
the whole structure: sin(v.prefix['a']) was the sine of all of v.
---
 casadi_extras/structure3.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 7a9144b..0e063f9 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -711,6 +711,7 @@ class Prefixer:
     self.struct = struct
     self.prefix = prefix
     self.castmaster = castmaster
+    self.casted = collections.deque(maxlen=32) # casadi does not keep the results of cast alive during a call
 
     methods = [ "__DM__", "__SX__","__MX__"]
     for m in methods:
@@ -726,10 +727,7 @@ class Prefixer:
   def __getattr__(self,name):
     # When attributes are not found, delegate to self()
     # This allows for e.g. sin(x) and x+1 to work
-    if isinstance(self.struct.master,DataReference):
-      t = self.struct.master.a
-    else:
-      t = self.struct.master
+    t = self.cast()
     if not(isinstance(t,list) or isinstance(t,dict) or isinstance(t,tuple)):
       return getattr(t,name)
 
@@ -740,7 +738,8 @@ class Prefixer:
       else:
         return self.struct.master
     else:
-      return self()
+      self.casted.append(self())
+      return self.casted[-1]
 
   def __str__(self):
     return "prefix( " + str(self.prefix) + "," + self.struct.__str__(compact=True) + ")"
-- 
2.43.0


From 8432cc1e808b6657acea374b86b6c87dc08cefba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:23:56 +0000
Subject: [PATCH 25/27] fix: let repeated views share their matrix instead of a
 copy of it

A view made by repeated() or squared_repeated() kept its own flat copy. It did
not see changes made to the matrix directly or through another view, and the
next write through it reverted them.
---
 casadi_extras/structure3.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 0e063f9..70e18af 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1438,15 +1438,16 @@ class DataReferenceRepeated(DataReference):
     assert(a.is_dense())
     self.a = a
     self.n = n
-    self.v = a.reshape((n*a.size1(),1))
+
+  @property
+  def v(self):
+    return self.a.reshape((self.n*self.a.size1(),1))
 
   def __setitem__(self,a,b):
-    self.v.nz[a] = b
-    I = self.a.sparsity().find()
-    self.a.nz[I] = self.v.nz[I]
+    self.a.nz[a] = b
 
   def __getitem__(self,a):
-    return self.v.nz[a]
+    return self.a.nz[a]
 
 class DataReferenceSquared(DataReference):
   def __init__(self,a,n):
@@ -1495,15 +1496,16 @@ class DataReferenceSquaredRepeated(DataReference):
     self.a = a
     self.n = n
     self.N = N
-    self.v = a.reshape((n*n*N,1))
+
+  @property
+  def v(self):
+    return self.a.reshape((self.n*self.n*self.N,1))
 
   def __setitem__(self,a,b):
-    self.v.nz[a] = b
-    I = self.a.sparsity().find()
-    self.a.nz[I] = self.v.nz[I]
+    self.a.nz[a] = b
 
   def __getitem__(self,a):
-    return self.v.nz[a]
+    return self.a.nz[a]
 
 def struct_load(filename):
     import pickle
-- 
2.43.0


From c673fe1174601dac00e610530ee71511c8b0cdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:20:43 +0000
Subject: [PATCH 26/27] fix: barycentric weights overflow for many or integer
 nodes

The weights are products of node differences. For integer nodes the products
wrapped around, for many nodes on a short or long interval they left the
floating-point range. Scale the differences; only ratios of weights are used.
---
 casadi_extras/collocation/polynomial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/casadi_extras/collocation/polynomial.py b/casadi_extras/collocation/polynomial.py
index 4ce2325..0de243e 100644
--- a/casadi_extras/collocation/polynomial.py
+++ b/casadi_extras/collocation/polynomial.py
@@ -61,7 +61,9 @@ class PolynomialBasis(object):
             p.append(pp)
 
         # Calculate lambdas for barycentric representation
-        lam = 1 / np.array([np.prod([tau[k] - tau[np.arange(n) != k]]) for k in range(n)])
+        # (only their ratios matter; scaled s.t. the products stay within range)
+        scale = np.ptp(tau) / 4 if n > 1 else 1
+        lam = 1 / np.array([np.prod([(tau[k] - tau[np.arange(n) != k]) / scale]) for k in range(n)])
 
         # Construct differentiation matrix.
         #
-- 
2.43.0


From 21d0c419ba277fdec88d0fc5a10e11b5f156e337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:21:56 +0000
Subject: [PATCH 27/27] fix: keep the element order of row entries in nested
 structures

The index map of a nested structure concatenated the nonzeros of its
entries. Those of a row are a row themselves, so the declaration was
rejected or the elements of two rows were interleaved.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 70e18af..8895472 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -831,7 +831,7 @@ class CasadiStructure(Structure,CasadiStructureDerivable):
           hmap[a] = [m]
     self.size = k
     for k,v in hmap.items():
-      hmap[k] = vertcat(*[i.nz[:] for i in v])
+      hmap[k] = vertcat(*[casadi.vec(i.nz[:]) for i in v])
     self.map.update(hmap)
 
     class StructureGetter:
-- 
2.43.0

