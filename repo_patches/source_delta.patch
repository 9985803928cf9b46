From a2f17c62bd41c14b797426b2077a1d04d000711e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 001/135] fix: compare unique indices with np.array_equal when
 a view repeats elements

---
 pygeode/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/view.py b/pygeode/view.py
index a7b06bd..c4a560e 100644
--- a/pygeode/view.py
+++ b/pygeode/view.py
@@ -233,7 +233,7 @@ class View:
 
     # Only request unique elements from the input
     unique_indices = [np.unique(ind) for ind in newview.integer_indices]
-    if all(np.all(u == ind) for u,ind in zip(unique_indices, newview.integer_indices)):
+    if all(np.array_equal(u, ind) for u,ind in zip(unique_indices, newview.integer_indices)):
       # already unique
       duplicator = ()
       unique_view = newview
-- 
2.43.0


From 29ee4eccb726e9994a5c9cb8e860389901eadb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 002/135] fix: accept 'HH:MM:SS D Mon YYYY' date strings, as
 documented

---
 pygeode/pygrc       | 4 ++--
 pygeode/timeaxis.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygeode/pygrc b/pygeode/pygrc
index 72411b3..822d066 100644
--- a/pygeode/pygrc
+++ b/pygeode/pygrc
@@ -60,7 +60,7 @@ CalendarTime.formatstr = $b $d, $Y $H:$M:$S
 #                         (1/24., '$H:$M',    '$d $b $Y'), # Larger than 1 hour
 #                         (0.   , '$H:$M:$S', '$d $b $Y')] # Less than 1 hour
 CalendarTime.parse_patterns =
-   ^((?P<hour>\d{1,2}):(?P<minute>\d{2})(\s|:(?P<second>\d{2}))|^)(?P<day>\d{1,2}) (?P<month>[a-zA-Z]+) (?P<year>\d+)$
+   ^((?P<hour>\d{1,2}):(?P<minute>\d{2})(:(?P<second>\d{2}))?\s|^)(?P<day>\d{1,2}) (?P<month>[a-zA-Z]+) (?P<year>\d+)$
    ^(?P<year>\d+)(-(?P<month>\d{2})(-(?P<day>\d{2})(T(?P<hour>\d{2}):(?P<minute>\d{2})(:(?P<second>\d{2}))?)?)?)?$
    ^(?P<year>\d+)(-(?P<day>\d{3})(T(?P<hour>\d{2}):(?P<minute>\d{2})(:(?P<second>\d{2}))?)?)?$
 
@@ -70,7 +70,7 @@ Yearless.formatstr = day $d, $H:$M:$S
 #                     (1/24., '$H:$M',    'day $d'), # Larger than 1 hour
 #                     (0.  ,  '$H:$M:$S', 'day $d')] # Less than 1 hour
 Yearless.parse_patterns =
-   ^((?P<hour>\d{1,2}):(?P<minute>\d{2})(\s|:(?P<second>\d{2}))|^)(?P<day>\d+)$
+   ^((?P<hour>\d{1,2}):(?P<minute>\d{2})(:(?P<second>\d{2}))?\s|^)(?P<day>\d+)$
    ^(?P<day>\d+)(T(?P<hour>\d{2}):(?P<minute>\d{2})(:(?P<second>\d{2}))?)?$
 
 [Plotting]
diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index 9b88766..3c25486 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -344,7 +344,7 @@ class CalendarTime(Time):
           (0.  , '$H:$M:$S',  '$d $b $Y')] # Less than 1 hour
 
   # Regular expression used to parse times
-  parse_patterns = ['((?P<hour>\d{1,2}):(?P<minute>\d{2})(\s|:(?P<second>\d{2}))|^)(?P<day>\d{1,2}) (?P<month>[a-zA-Z]+) (?P<year>\d+)']
+  parse_patterns = ['((?P<hour>\d{1,2}):(?P<minute>\d{2})(:(?P<second>\d{2}))?\s|^)(?P<day>\d{1,2}) (?P<month>[a-zA-Z]+) (?P<year>\d+)']
 
   allowed_fields = ('year', 'month', 'day', 'hour', 'minute', 'second')
 
@@ -1024,7 +1024,7 @@ class Yearless(CalendarTime):
   allowed_fields = ('day', 'hour', 'minute', 'second')
 
   # Regular expression used to parse times
-  parse_patterns = ['((?P<hour>\d{1,2}):(?P<minute>\d{2})(\s|:(?P<second>\d{2}))|^)(?P<day>\d{1,2})']
+  parse_patterns = ['((?P<hour>\d{1,2}):(?P<minute>\d{2})(:(?P<second>\d{2}))?\s|^)(?P<day>\d{1,2})']
 
   _date_as_val = lib.date_as_val_yearless
   _val_as_date = lib.val_as_date_yearless
-- 
2.43.0


From 3737b7e4848d6c0c64fa4d36e368f8e268275e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 003/135] fix: count an axis given twice to a reduction only
 once

---
 pygeode/reduce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/reduce.py b/pygeode/reduce.py
index 6f47b7b..437af70 100644
--- a/pygeode/reduce.py
+++ b/pygeode/reduce.py
@@ -49,7 +49,7 @@ class ReducedVar(Var):
       dtype = var.dtype
 
 #    if not isinstance(indices,(list,tuple)): indices = [indices]
-    indices = np.sort([var.whichaxis(i) for i in indices])
+    indices = np.unique([var.whichaxis(i) for i in indices])
     assert len(indices) > 0, "no reduction axes specified"
 
     N = [len(axes[i]) for i in indices]
-- 
2.43.0


From 488ca80f2c0e9d198257bd3c09617fadf6f9a3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 004/135] fix: keep the whole axis in each chunk when computing
 argmax/argmin

---
 pygeode/reduce.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/reduce.py b/pygeode/reduce.py
index 437af70..7593085 100644
--- a/pygeode/reduce.py
+++ b/pygeode/reduce.py
@@ -144,7 +144,7 @@ class ArgMaxVar(ReducedVar):
     from pygeode.tools import loopover, npmax
     out = np.empty(view.shape, self.dtype)
     index = self.indices[0]
-    for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
+    for outsl, (indata,) in loopover(self.var, view, preserve=self.indices, pbar=pbar):
       out[outsl] = np.argmax(indata, index)
     return out
 # }}}
@@ -173,7 +173,7 @@ class ArgMinVar(ReducedVar):
     from pygeode.tools import loopover, npmax
     out = np.empty(view.shape, self.dtype)
     index = self.indices[0]
-    for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
+    for outsl, (indata,) in loopover(self.var, view, preserve=self.indices, pbar=pbar):
       out[outsl] = np.argmin(indata, index)
     return out
 # }}}
-- 
2.43.0


From ecb8a592c26cc68090dc766b723c9a4bd1c9645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 005/135] fix: reductions of integer data: float results for
 means and variances, valid initial extrema

---
 pygeode/reduce.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pygeode/reduce.py b/pygeode/reduce.py
index 7593085..cf39d8b 100644
--- a/pygeode/reduce.py
+++ b/pygeode/reduce.py
@@ -9,6 +9,9 @@ from pygeode.var import Var
 #########################
 class ReducedVar(Var):
 # {{{
+  # Whether the result generally isn't an integer, even if the data are
+  float_result = False
+
   def __new__ (type, var, indices, *args, **kwargs):
   # {{{
     from pygeode.var import Var
@@ -63,6 +66,8 @@ class ReducedVar(Var):
 
     self.in_axes = axes
 
+    if self.float_result and np.dtype(dtype).kind not in 'fc': dtype = 'float64'
+
     # Remove the reduction axis from the output variable
     axes = [a for i,a in enumerate(axes) if i not in indices]
 
@@ -77,7 +82,7 @@ class MinVar(ReducedVar):
     import numpy as np
     from pygeode.tools import loopover, npmin
     out = np.empty(view.shape, self.dtype)
-    out[()] = float('inf')
+    out[()] = np.inf if self.dtype.kind in 'fc' else np.iinfo(self.dtype).max
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       out[outsl] = np.minimum(out[outsl], npmin(indata, self.indices))
     return out
@@ -85,6 +90,7 @@ class MinVar(ReducedVar):
 
 class NANMinVar(ReducedVar):
 # {{{
+  float_result = True
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnanmin
@@ -101,7 +107,7 @@ class MaxVar(ReducedVar):
     import numpy as np
     from pygeode.tools import loopover, npmax
     out = np.empty(view.shape, self.dtype)
-    out[()] = float('-inf')
+    out[()] = -np.inf if self.dtype.kind in 'fc' else np.iinfo(self.dtype).min
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       out[outsl] = np.maximum(out[outsl], npmax(indata, self.indices))
     return out
@@ -109,6 +115,7 @@ class MaxVar(ReducedVar):
 
 class NANMaxVar(ReducedVar):
 # {{{ 
+  float_result = True
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnanmax
@@ -191,6 +198,7 @@ class SumVar(ReducedVar):
 class WeightedSumVar(ReducedVar):
 # {{{
   '''WeightedSumVar(ReducedVar) - computes weighted sum.'''
+  float_result = True
   def __init__(self, var, indices, weights):
   # {{{
     ReducedVar.__init__(self, var, indices)
@@ -215,6 +223,7 @@ class WeightedSumVar(ReducedVar):
 
 class NANSumVar(ReducedVar):
 # {{{
+  float_result = True
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnansum
@@ -227,6 +236,7 @@ class NANSumVar(ReducedVar):
 class WeightedNANSumVar(ReducedVar):
 # {{{
   '''WeightedNANSumVar(ReducedVar) - computes weighted sum, neglecting NaNs.'''
+  float_result = True
   def __init__(self, var, indices, weights):
   # {{{
     ReducedVar.__init__(self, var, indices)
@@ -255,6 +265,7 @@ class WeightedNANSumVar(ReducedVar):
 class MeanVar(ReducedVar):
 # {{{
   '''MeanVar(ReducedVar) - computes unweighted mean.'''
+  float_result = True
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npsum
@@ -267,6 +278,7 @@ class MeanVar(ReducedVar):
 class WeightedMeanVar(ReducedVar):
 # {{{
   '''WeightedMeanVar(ReducedVar) - computes weighted mean.'''
+  float_result = True
   def __init__(self, var, indices, weights):
   # {{{
     ReducedVar.__init__(self, var, indices)
@@ -296,6 +308,7 @@ class WeightedMeanVar(ReducedVar):
 class NANMeanVar(ReducedVar):
 # {{{
   '''NANMeanVar(ReducedVar) - computes unweighted mean, ignoring NANs.'''
+  float_result = True
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnansum
@@ -316,6 +329,7 @@ class NANMeanVar(ReducedVar):
 class WeightedNANMeanVar(ReducedVar):
 # {{{ 
   '''WeightedNANMeanVar(ReducedVar) - computes weighted mean.'''
+  float_result = True
   def __init__(self, var, indices, weights):
   #  {{{
     ReducedVar.__init__(self, var, indices)
@@ -352,6 +366,7 @@ class WeightedNANMeanVar(ReducedVar):
 #TODO: make it more numerically stable, add weights
 class VarianceVar(ReducedVar):
 # {{{
+  float_result = True
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npsum
@@ -368,6 +383,7 @@ class VarianceVar(ReducedVar):
 class WeightedVarianceVar(ReducedVar):
 # {{{
   '''WeightedVarianceVar(ReducedVar) - computes weighted mean.'''
+  float_result = True
   def __init__(self, var, indices, weights):
   # {{{
     ReducedVar.__init__(self, var, indices)
@@ -399,6 +415,7 @@ class WeightedVarianceVar(ReducedVar):
 # NB: There is possibly an issue with this for integer datatypes
 class NANVarianceVar(ReducedVar):
 # {{{
+  float_result = True
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnansum
-- 
2.43.0


From f82469e5a50ebdf60f40f808c61a17b8798f9a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 006/135] fix: count a boolean variable, and find its maximum

---
 pygeode/reduce.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pygeode/reduce.py b/pygeode/reduce.py
index cf39d8b..2fada7b 100644
--- a/pygeode/reduce.py
+++ b/pygeode/reduce.py
@@ -82,7 +82,7 @@ class MinVar(ReducedVar):
     import numpy as np
     from pygeode.tools import loopover, npmin
     out = np.empty(view.shape, self.dtype)
-    out[()] = np.inf if self.dtype.kind in 'fc' else np.iinfo(self.dtype).max
+    out[()] = np.iinfo(self.dtype).max if self.dtype.kind in 'iu' else np.inf
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       out[outsl] = np.minimum(out[outsl], npmin(indata, self.indices))
     return out
@@ -107,7 +107,8 @@ class MaxVar(ReducedVar):
     import numpy as np
     from pygeode.tools import loopover, npmax
     out = np.empty(view.shape, self.dtype)
-    out[()] = -np.inf if self.dtype.kind in 'fc' else np.iinfo(self.dtype).min
+    out[()] = np.iinfo(self.dtype).min if self.dtype.kind in 'iu' else -np.inf
+    if self.dtype.kind == 'b': out[()] = False
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       out[outsl] = np.maximum(out[outsl], npmax(indata, self.indices))
     return out
@@ -187,6 +188,11 @@ class ArgMinVar(ReducedVar):
 
 class SumVar(ReducedVar):
 # {{{
+  def __init__(self, var, indices):
+    import numpy as np
+    ReducedVar.__init__(self, var, indices)
+    if self.dtype.kind == 'b': self.dtype = np.dtype('int64')
+
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npsum
-- 
2.43.0


From 7fadd55c574d808a2356b75e81272b8f65c7ba3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 007/135] fix: weight an axis given twice to getweights only
 once

---
 pygeode/var.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/var.py b/pygeode/var.py
index 5ff1104..d3bf8a4 100644
--- a/pygeode/var.py
+++ b/pygeode/var.py
@@ -747,7 +747,7 @@ class Var(object):
     if iaxes is None or len(iaxes) == 0:
       axes = self.axes
     else:
-      axes = [self.getaxis(i) for i in iaxes]
+      axes = [self.axes[i] for i in sorted(set(self.whichaxis(i) for i in iaxes))]
     wt = tuple([a.auxasvar('weights') for a in axes if hasattr(a, 'weights')])
     if len(wt) == 0:
 #      return None
-- 
2.43.0


From 95528814813be4abaa1a3fdaa77ff66a2aeb973a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 008/135] fix: nansum does not use weights unless asked, as
 documented

---
 pygeode/reduce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/reduce.py b/pygeode/reduce.py
index 2fada7b..94a9d2e 100644
--- a/pygeode/reduce.py
+++ b/pygeode/reduce.py
@@ -685,7 +685,7 @@ def nansum (var, *axes, **kwargs):
     --------
     getweights
   '''
-  weights = kwargs.pop('weights', True)
+  weights = kwargs.pop('weights', False)
   if weights is True:
     weights = var.getweights(axes)
 
-- 
2.43.0


From 95e00b69c1bbcf5bd77e9b109b16762a8da0d869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 009/135] fix: argmax/argmin accept axis numbers and classes,
 as documented

---
 pygeode/reduce.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pygeode/reduce.py b/pygeode/reduce.py
index 94a9d2e..99df99f 100644
--- a/pygeode/reduce.py
+++ b/pygeode/reduce.py
@@ -129,12 +129,12 @@ class NANMaxVar(ReducedVar):
 
 class ArgMaxVar(ReducedVar):
 # {{{
-  def __init__(self, var, index):
+  def __init__(self, var, indices):
   # {{{
     from pygeode.var import Var
     import numpy as np
     axes = var.axes
-    index = var.whichaxis(index)
+    index = var.whichaxis(indices[0])
 
     self.N = len(axes[index])
     self.var = var
@@ -158,12 +158,12 @@ class ArgMaxVar(ReducedVar):
 # }}}
 class ArgMinVar(ReducedVar):
 # {{{
-  def __init__(self, var, index):
+  def __init__(self, var, indices):
   # {{{
     from pygeode.var import Var
     import numpy as np
     axes = var.axes
-    index = var.whichaxis(index)
+    index = var.whichaxis(indices[0])
 
     self.N = len(axes[index])
     self.var = var
@@ -595,7 +595,7 @@ def argmax (var, axis):
     --------
     argmin
   '''
-  return ArgMaxVar(var, axis)
+  return ArgMaxVar(var, (axis,))
 # }}}
 def argmin (var, axis): 
 # {{{
@@ -617,7 +617,7 @@ def argmin (var, axis):
     --------
     argmax
   '''
-  return ArgMinVar(var, axis)
+  return ArgMinVar(var, (axis,))
 # }}}
 
 
-- 
2.43.0


From a08e31bb1038f09fe621482e28361b82fc3fa11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 010/135] fix: arctand2 accepts its two arguments

---
 pygeode/ufunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/ufunc.py b/pygeode/ufunc.py
index 4c0f99d..b84042e 100644
--- a/pygeode/ufunc.py
+++ b/pygeode/ufunc.py
@@ -200,7 +200,7 @@ def chain (*f):
   assert len(f) > 0
   if len(f) == 1: return f[0]
   def make_chain (f1,f2):
-    def f3(x): return f1(f2(x))
+    def f3(*x): return f1(f2(*x))
     return f3
   return make_chain (f[0],chain(*f[1:]))
 
-- 
2.43.0


From 2dd264842cb9be33dc72a47b0aac57846d2d8762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 011/135] fix: fill and unfill a variable without axes

---
 pygeode/varoperations.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pygeode/varoperations.py b/pygeode/varoperations.py
index 64832b3..f082ec0 100644
--- a/pygeode/varoperations.py
+++ b/pygeode/varoperations.py
@@ -550,10 +550,9 @@ class FillVar(Var):
     copy_meta(var, self)
   def getview (self, view, pbar):
     import numpy as np
-    data = view.get(self.var, pbar=pbar).copy()
+    data = np.array(view.get(self.var, pbar=pbar))
 #    data[where(data == float('NaN'))] = self.fill
-    w = np.where(np.isnan(data))
-    data[w] = self._fill
+    data[np.isnan(data)] = self._fill
     return data
 
 def fill (self, fill):
@@ -595,9 +594,9 @@ class UnfillVar(Var):
     copy_meta (var, self)
   def getview(self, view, pbar):
     import numpy as np
-    data = view.get(self.var, pbar=pbar).copy()
+    data = np.array(view.get(self.var, pbar=pbar))
     data = np.asarray(data, self.dtype)
-    data[np.where(data == self._fill)] = float('NaN')
+    data[data == self._fill] = float('NaN')
     return data
 
 def unfill (self, fill):
-- 
2.43.0


From ce7ad6071447ff90b41265204050ea84e821824e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 012/135] fix: rename an Index axis

---
 pygeode/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 1c331c2..a23dd46 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -567,7 +567,7 @@ class Axis(Var):
     for k,v in self.auxatts.items(): aux[k] = v
     for k,v in self.auxarrays.items(): aux[k] = v
 
-    return type(self)(values=self.values, name=name, atts=self.atts, **aux)
+    return type(self)(self.values, name=name, atts=self.atts, **aux)
 # }}}
 
   # Check if a given string is a meaningful alias to the axis
-- 
2.43.0


From 22726e33583990ae10c36930b37293dcc50c256f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 013/135] fix: an ensemble has the common type of its members

---
 pygeode/ensemble.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/ensemble.py b/pygeode/ensemble.py
index cfca9d1..46ad39c 100644
--- a/pygeode/ensemble.py
+++ b/pygeode/ensemble.py
@@ -12,13 +12,14 @@ from pygeode.var import Var
 class EnsembleVar(Var):
   def __init__(self, varlist):
     from pygeode.var import Var, combine_meta
+    from pygeode.tools import common_dtype
     self.varlist = varlist
     # Assume the vars have already been checked for consistency
     var0 = varlist[0]
 
     # Add ensemble axis to start of axis list
     axes = [make_ensemble(len(varlist))] + list(var0.axes)
-    Var.__init__(self, axes, dtype=var0.dtype)
+    Var.__init__(self, axes, dtype=common_dtype(varlist))
 
     combine_meta (varlist, self)
     self.name = varlist[0].name
-- 
2.43.0


From 8a0d5eb556703a55d15415eb921790ece5da7e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 014/135] fix: common_dict given a generator compares all its
 dictionaries

---
 pygeode/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/tools.py b/pygeode/tools.py
index 602f3ca..fcfb4a8 100644
--- a/pygeode/tools.py
+++ b/pygeode/tools.py
@@ -113,7 +113,7 @@ def common_dtype (vars):
 # Common elements of a dictionary
 # Used mainly for the optional attributes (.atts) of a var, to copy any consistent values to the output
 def common_dict (*dicts):
-  if len(dicts) == 1 and islist(dicts[0]): dicts = dicts[0]
+  if len(dicts) == 1 and islist(dicts[0]): dicts = list(dicts[0])
   # Merge it all into a single dictionary
   d = dict([(k,v) for x in dicts for k,v in x.items()])
   # Check for consistency (remove keys which have multiple values, or aren't
-- 
2.43.0


From 5181066476d48e255cd29a100f7f7398a65015d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 015/135] fix: axes are never both equal and unequal

---
 pygeode/axis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index a23dd46..1f8c0a3 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -205,7 +205,8 @@ class Axis(Var):
   #TODO: fix inconsistency between Axis and Var, for == and !=
   #      Vars produce a boolean mask under those operations, Axes return scalar True/False
   # I.e., "lat == 30" and "(lat*1) == 30" give very different results!
-  def __ne__ (self, other): return not is_equivalent(self, other)
+  # (subclasses override __eq__, so != has to follow it)
+  def __ne__ (self, other): return not self == other
   def __eq__ (self, other): return is_equivalent(self, other)
 
   def alleq (self, *others):
-- 
2.43.0


From 3643916b684bfd4dd86c75f8e17dfc3096c27379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 016/135] fix: compare axes with their own tolerance, as
 documented

---
 pygeode/axis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 1f8c0a3..079f7f3 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -714,9 +714,9 @@ def is_equivalent(ax1, ax2, check_class = False, check_aux = True, check_name =
   # Check the values
   from numpy import allclose
   if rtol == 'max':
-    rtol = max(ax1.auxatts.get('rtol', 1e-5), ax2.auxatts.get('rtol', 1e-5))
+    rtol = max(ax1.rtol, ax2.rtol)
   elif rtol == 'min':
-    rtol = min(ax1.auxatts.get('rtol', 1e-5), ax2.auxatts.get('rtol', 1e-5))
+    rtol = min(ax1.rtol, ax2.rtol)
 
   if not allclose(ax1.values, ax2.values, rtol = rtol):
 #   print 'values mismatch'
-- 
2.43.0


From 2c40cc1c671d4465495669325e902e137df451cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 017/135] fix: day of the year of a date in a non-leap year
 ($j)

---
 pygeode/timeaxis.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index 3c25486..9854b71 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -454,9 +454,12 @@ class CalendarTime(Time):
   # (for formatvalue)
   def _getdoy (self, date):
 # {{{
-    startdate = {'month':1,'day':0,'hour':0,'minute':0,'second':0}
-    date.pop('year', 0)
-    return self.date_as_val (dates=date, startdate=startdate, units='days')
+    # Count from the start of the same year (its months depend on the year)
+    year = date.get('year', 0)
+    startdate = {'year':0,'month':1,'day':0,'hour':0,'minute':0,'second':0}
+    newyear = {'year':year, 'month':year*0+1, 'day':year*0}
+    return self.date_as_val (dates=date, startdate=startdate, units='days') \
+         - self.date_as_val (dates=newyear, startdate=startdate, units='days')
 # }}}
 
   # Number of days in a month
@@ -549,7 +552,7 @@ class CalendarTime(Time):
       d = dt['day']
       subs['d'] = '%d' % d
       subs['D'] = '%02d' % d
-      if 'year' in dt and 'year' in self.allowed_fields: subs['j'] = self._getdoy(dt)
+      if 'year' in dt and 'year' in self.allowed_fields: subs['j'] = '%d' % self._getdoy(dt)
     else:
       subs['d'], subs['D'], subs['j'] = '', '', ''
 
-- 
2.43.0


From 9aa0dc1efe7b06642d5f4437811d38370075ca33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 018/135] fix: keep each month in its own season whatever the
 length of the year

---
 pygeode/timeaxis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index 9854b71..0f75956 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -846,7 +846,11 @@ def makeSeasonalAxis(Base):
   # {{{
       import numpy as np
       year, month, day, hour, minute, second = Base._get_dates(dates)
-      doy = Base._getdoy(self, dates)         # Base season on day of the year (no support for leap years(!))
+      # Base season on the day of a 365-day year, so that leap days don't shift
+      # the other dates into the next season
+      leapday = (month == 2) & (day == 29)
+      doy = Base.date_as_val(self, {'year':year*0+1, 'month':month, 'day':day-leapday},
+                             startdate={'year':1, 'month':1, 'day':0}, units='days')
 
       if hasattr(year, '__len__'):
         season = np.zeros(len(year), 'i')
-- 
2.43.0


From 578d765d48c52db0e04a44950e938b103f018dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 019/135] fix: seasonal time axis of a single time

---
 pygeode/timeaxis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index 0f75956..33c2639 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -845,7 +845,9 @@ def makeSeasonalAxis(Base):
     def _get_seasons (self, dates):
   # {{{
       import numpy as np
-      year, month, day, hour, minute, second = Base._get_dates(dates)
+      # Keep arrays of length 1 as arrays
+      use_arrays = any(hasattr(d,'__len__') for d in dates.values())
+      year, month, day, hour, minute, second = Base._get_dates(dates, use_arrays)
       # Base season on the day of a 365-day year, so that leap days don't shift
       # the other dates into the next season
       leapday = (month == 2) & (day == 29)
-- 
2.43.0


From c28c933cdefd5ab0c26625062ea869049b84633d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 020/135] fix: climatologies, time averages and trends of
 integer data

---
 pygeode/climat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygeode/climat.py b/pygeode/climat.py
index adda199..72a0a2a 100644
--- a/pygeode/climat.py
+++ b/pygeode/climat.py
@@ -176,6 +176,9 @@ class TimeOp(Var):
     new_intime = self.get_intime(intime)
     if new_intime is not intime: var = var.replace_axes({CalendarTime:new_intime})
 
+    # Means, deviations and trends of integers generally aren't integers
+    if var.dtype.kind not in 'fc': var = var.as_type('float64')
+
     if var.name != '': self.name = var.name + self.name_suffix1 + self.name_suffix2
 
     self.var = var
-- 
2.43.0


From 5466b4d6381a76299181d045c27ede48fca1145d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 021/135] fix: from_trend ignores a constant year, as intended

---
 pygeode/climat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/climat.py b/pygeode/climat.py
index 72a0a2a..e50ee41 100644
--- a/pygeode/climat.py
+++ b/pygeode/climat.py
@@ -519,7 +519,7 @@ class from_trend (Var):
     if hasattr(coeft,'year'):
       import numpy as np
       from warnings import warn
-      if len(np.unique(coeft.year.values)) == 1:
+      if len(np.unique(coeft.year)) == 1:
         warn ("ignoring degenerate 'year' field", stacklevel=2)
         coeft = modify(coeft, exclude='year')
         coef = coef.replace_axes({Time:coeft})
-- 
2.43.0


From f2c5f4bfbe99acef535d11e38528b210f10fecba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 022/135] fix: lag, splittimeaxis and jointimeaxes with current
 numpy

---
 pygeode/timeutils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index 31de022..e4e44f0 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -332,9 +332,9 @@ class LagVar(Var):
       insl[self.iaxis] = tind[ivalid] + l - imin
       outsl[self.iaxis] = ivalid
       outsl[self.iaxis+1] = i
-      out[outsl] = src[insl]
+      out[tuple(outsl)] = src[tuple(insl)]
       outsl[self.iaxis] = np.where(~valid)[0]
-      out[outsl] = np.nan
+      out[tuple(outsl)] = np.nan
     
     return out
   # }}}
@@ -466,7 +466,7 @@ class SplitTime (Var):
     out = out.reshape(squished_shape)
     sl = [slice(None)] * out.ndim
     sl[iaxis] = out_sl
-    out[sl] = indata
+    out[tuple(sl)] = indata
 
     # Restore the shape
     out = out.reshape(view.shape)
@@ -552,7 +552,7 @@ class JoinTime(Var):
     # Slice out what we actually wanted from this
     slices = [slice(None)] * data.ndim
     slices[taxis] = uber_time.map_to(times)
-    return data[slices]
+    return data[tuple(slices)]
 # }}}
 # }}}
 
-- 
2.43.0


From ce0b1cfb02aa10f97d7bca327ed223f17f0dcbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 023/135] fix: lag and split the time axis of integer data

---
 pygeode/timeutils.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index e4e44f0..21536a2 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -306,7 +306,10 @@ class LagVar(Var):
     axes = var.axes[:self.iaxis+1] + (lag, ) + var.axes[self.iaxis+1:]
     self.var = var
 
-    Var.__init__(self, axes, dtype=var.dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
+    # There may be missing values to represent
+    dtype = var.dtype if var.dtype.kind in 'fc' else 'float64'
+
+    Var.__init__(self, axes, dtype=dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
   # }}}
 
   def getview (self, view, pbar):
@@ -424,9 +427,11 @@ class SplitTime (Var):
     axes = list(var.axes)
     axes = axes[:iaxis] + [years, days] + axes[iaxis+1:]
 
-    copy_meta(var,self)
+    # There may be missing values to represent
+    dtype = var.dtype if var.dtype.kind in 'fc' else 'float64'
 
-    Var.__init__(self, axes=axes, dtype=var.dtype)
+    Var.__init__(self, axes=axes, dtype=dtype)
+    copy_meta(var,self)
 
     self.iaxis = iaxis
     self.var = var
@@ -454,7 +459,7 @@ class SplitTime (Var):
 
     # Start with a field of NaNs
     out = np.empty(view.shape, dtype=self.dtype)
-    out[()] = float('NaN')  # will fail horribly if we have integer data.
+    out[()] = float('NaN')
 
     # Get some input data
     inview = view.remove(iaxis+1).replace_axis(iaxis, in_taxis, sl=in_sl)
-- 
2.43.0


From 50631ce417c7c1885602797184620b2605521bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 024/135] fix: join time axes that are not next to each other

---
 pygeode/timeutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index 21536a2..66667ae 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -546,7 +546,7 @@ class JoinTime(Var):
     data = np.rollaxis(data, daxis, yaxis+1)
     # Then, combine then
     shape = list(data.shape)
-    shape = shape[:yaxis] + [-1] + shape[daxis+1:]
+    shape = shape[:yaxis] + [-1] + shape[yaxis+2:]
     data = data.reshape(shape)
 
     # Now, we may have slightly more data than we actually need
-- 
2.43.0


From a957561487b4bda027d7ef8fc3d9dc4882dc3a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 025/135] fix: the lag axis is named 'lag', not 'time'

---
 pygeode/timeutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index 66667ae..5850205 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -302,7 +302,7 @@ class LagVar(Var):
       lags = lags[::-1]
     
     self.lags = np.array(lags).astype('i')
-    lag = Lag(values = delt*self.lags, units=taxis.units, startdate={'day':0})
+    lag = Lag(values = delt*self.lags, name='lag', units=taxis.units, startdate={'day':0})
     axes = var.axes[:self.iaxis+1] + (lag, ) + var.axes[self.iaxis+1:]
     self.var = var
 
-- 
2.43.0


From 77ec5abcb15448af6036c4816a6a7d71d726cbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:09 +0000
Subject: [PATCH 026/135] fix: removeleapyears of times that are not ascending

---
 pygeode/timeutils.py | 44 +++++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index 5850205..bea7892 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -234,18 +234,17 @@ def removeleapyears(data, omitdoy_leap=[60], omitdoy_noleap=[], new_axis_type=Mo
   year = taxis.year
   isleapyear = isinstance(taxis,StandardTime) & (year % 4 == 0) & ( (year % 100 != 0) | (year % 400 == 0) )
 
-  doy = []
-  for y in sorted(set(taxis.year)):
-    doy.extend(reltime(taxis(year=y), startdate={'year':y, 'month':1, 'day':1}, units='days')+1)
-  doy = np.array(np.floor(doy),dtype=int)
+  # Day of the year (with the fraction of the day)
+  doy = taxis._getdoy(taxis.auxarrays)
+  day = np.floor(doy).astype(int)
 
   omit_on_leap = [False] * len(taxis)
   for d in omitdoy_leap:
-    omit_on_leap |= (doy == d)
+    omit_on_leap |= (day == d)
 
   omit_on_noleap = [False] * len(taxis)
   for d in omitdoy_noleap:
-    omit_on_noleap |= (doy == d)
+    omit_on_noleap |= (day == d)
 
   omit = (isleapyear & omit_on_leap) | ((~isleapyear) & omit_on_noleap)
   indices = np.nonzero(~omit)
@@ -257,25 +256,20 @@ def removeleapyears(data, omitdoy_leap=[60], omitdoy_noleap=[], new_axis_type=Mo
 
   # Recreate the axis as the new type.
   # Convert doy (old axis) to doy (new axis)
-  new_taxis_pieces = []
-  for y in sorted(set(taxis.year)):
-    # Check for leap year - use one list of omitted days or the other
-    if isleapyear[taxis.year==y][0]:
-      omitted_days = sorted(omitdoy_leap, reverse=True)
-    else:
-      omitted_days = sorted(omitdoy_noleap, reverse=True)
-    # Start with the old doy
-    doy = reltime(taxis(year=y), startdate={'year':y, 'month':1, 'day':1}, units='days')+1
-    # Strip out the omitted days, and re-index the other days
-    for d in omitted_days:
-      doy = doy[np.floor(doy) != d]
-      doy[doy>d] -= 1
-    # Create an axis of the new type
-    new_taxis_pieces.append(new_axis_type(values=doy-1, units='days', startdate={'year':y, 'month':1, 'day':1}))
-
-  # Rebuild the final new axis
-  # (Had to break it down by year, to do the doy arithmetic)
-  new_taxis = new_axis_type.concat(new_taxis_pieces)
+  keep = ~omit
+  year, isleapyear, doy, day = year[keep], isleapyear[keep], doy[keep], day[keep]
+  new_doy = doy.copy()
+  for d in set(omitdoy_leap): new_doy[isleapyear & (day > d)] -= 1
+  for d in set(omitdoy_noleap): new_doy[~isleapyear & (day > d)] -= 1
+
+  # Get the dates in the new calendar, year by year (in the order of the data)
+  fields = {}
+  for y in sorted(set(year)):
+    inyear = (year == y)
+    piece = new_axis_type(values=new_doy[inyear]-1, units='days', startdate={'year':y, 'month':1, 'day':1})
+    for fname, farray in piece.auxarrays.items():
+      fields.setdefault(fname, np.empty(len(year), 'int32'))[inyear] = farray
+  new_taxis = new_axis_type(units='days', **fields)
 
   # Replace the time axis of the data
   data = data.replace_axes(time = new_taxis)
-- 
2.43.0


From a6379a9c0e31a9e00fcdfa53d9c1d3fdd4afd789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 027/135] fix: map times by their fields, also dates that do
 not exist

---
 pygeode/timeaxis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index 33c2639..148c5d9 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -209,7 +209,9 @@ class Time (TAxis):
       othervalues = np.vstack(other_f).transpose()
       nfields = len(self_f)
 
-    isrt = np.argsort(self.values)
+    # Sort by the fields that are searched (two dates which do not exist in the
+    # calendar can be ordered differently by their values)
+    isrt = _argsort(self_f) if len(self_f) > 0 else np.argsort(self.values)
     #iinv = np.argsort(isrt)
 
     indices = np.empty(len(other), 'int32')
-- 
2.43.0


From 7713b46e979437a70c75d2041d7473315b7dffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:39 +0000
Subject: [PATCH 028/135] fix: cumsum starts with the first value, as np.cumsum

---
 pygeode/intgr.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pygeode/intgr.py b/pygeode/intgr.py
index 1f43613..8a3c9c3 100644
--- a/pygeode/intgr.py
+++ b/pygeode/intgr.py
@@ -100,9 +100,12 @@ class IntegrateVar (Var):
     elif self.type == 'rectr':
       dat = np.concatenate([d0, (d*data[sl2])[slr]], iaxis)
     elif self.type == 'cumsum':
-      dat = np.concatenate([d0, (data[sl2])[slr]], iaxis)
+      # (as np.cumsum, the first value of the sum is the first value of the data)
+      dat = np.concatenate([d0, data[slr]], iaxis)
 
-    out = np.add.accumulate(dat, iaxis, 'd')[slr]
+    out = np.add.accumulate(dat, iaxis, 'd')
+    if self.type == 'cumsum': out = out[sl2]
+    out = out[slr]
 
     # Select the requested values along the integration axis
     sl1 = list(sl1)
-- 
2.43.0


From 447cb7497cd304d488fed2f83be3608b68c7b54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:39 +0000
Subject: [PATCH 029/135] fix: derivatives of integer data were truncated

---
 pygeode/deriv.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pygeode/deriv.py b/pygeode/deriv.py
index 3ef8cc8..68a8306 100644
--- a/pygeode/deriv.py
+++ b/pygeode/deriv.py
@@ -1,6 +1,11 @@
 # deriv.py - implementation of DerivativeVar
 
 from pygeode.var import Var
+
+# The derivative of integers is not an integer.
+def _floattype(dtype):
+  return dtype if dtype.kind in 'fc' else 'float64'
+
 class DerivativeVar (Var):
   '''Derivative variable. For now performs centred differences in the
     interior of the axis and one sided differences on the boundaries.'''
@@ -38,7 +43,7 @@ class DerivativeVar (Var):
     else:
       name = 'd(UnknownVar)'
 
-    Var.__init__(self, var.axes, var.dtype, name=name, atts=var.atts, plotatts=var.plotatts)
+    Var.__init__(self, var.axes, _floattype(var.dtype), name=name, atts=var.atts, plotatts=var.plotatts)
   # }}}
 
   def getview (self, view, pbar):
@@ -132,7 +137,7 @@ class SecondDerivativeVar (Var):
     else:
       name = 'd2(UnknownVar)'
 
-    Var.__init__(self, var.axes, var.dtype, name=name, atts=var.atts, plotatts=var.plotatts)
+    Var.__init__(self, var.axes, _floattype(var.dtype), name=name, atts=var.atts, plotatts=var.plotatts)
   # }}}
 
   def getview (self, view, pbar):
-- 
2.43.0


From 13dec1c68187ae36f9ed6dabe92772f59187189c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 030/135] fix: Fourier smoothing of complex data

---
 pygeode/fft_smooth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/fft_smooth.py b/pygeode/fft_smooth.py
index 1482b1c..eac72fe 100644
--- a/pygeode/fft_smooth.py
+++ b/pygeode/fft_smooth.py
@@ -37,8 +37,8 @@ class FFTSmoothVar (Var):
     from numpy import fft
     if 'complex' in self.dtype.name:
       ct=fft.fft(src,self.shape[saxis],saxis)
-      smsl=[ slice(maxharm,-maxharm+1) if i == saxis else slice(None) for i in range(self.naxes)]
-      ct[smsl]=0
+      smsl=[ slice(maxharm,self.shape[saxis]-maxharm+1) if i == saxis else slice(None) for i in range(self.naxes)]
+      ct[tuple(smsl)]=0
       st = fft.ifft(ct, self.shape[saxis], saxis)
     else:
       ct=fft.rfft(src,self.shape[saxis],saxis)
-- 
2.43.0


From cc69a87bf3c9418421448671e267520cdc791a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:35 +0000
Subject: [PATCH 031/135] fix: smoothed integer data were truncated

---
 pygeode/fft_smooth.py | 4 +++-
 pygeode/smooth.py     | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pygeode/fft_smooth.py b/pygeode/fft_smooth.py
index eac72fe..9225d3f 100644
--- a/pygeode/fft_smooth.py
+++ b/pygeode/fft_smooth.py
@@ -12,7 +12,9 @@ class FFTSmoothVar (Var):
     self.saxis = saxis
     self.var = var
     self.maxharm = maxharm
-    Var.__init__(self, var.axes, var.dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
+    # Smoothed integers are not integers
+    dtype = var.dtype if var.dtype.kind in 'fc' else 'float64'
+    Var.__init__(self, var.axes, dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
   # }}}
 
   def getview (self, view, pbar):
diff --git a/pygeode/smooth.py b/pygeode/smooth.py
index c0c70dc..796d48f 100644
--- a/pygeode/smooth.py
+++ b/pygeode/smooth.py
@@ -40,7 +40,10 @@ class SmoothVar (Var):
       except TypeError:
         self._convolve = sg.convolve
 
-    Var.__init__(self, var.axes, var.dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
+    # The averages of integers are not integers
+    dtype = var.dtype if var.dtype.kind in 'fc' else 'float64'
+
+    Var.__init__(self, var.axes, dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
   # }}}
 
   def getview (self, view, pbar):
@@ -78,7 +81,7 @@ class SmoothVar (Var):
 
     for outsl, (indata,) in loopover(self.var, aview, preserve=[saxis], pbar=pbar):
       src_shape = indata.shape[:saxis] + (src_saxislen,) + indata.shape[saxis+1:]
-      src = np.zeros(src_shape, self.var.dtype)
+      src = np.zeros(src_shape, self.dtype)
       sslo[saxis] = slice(mleft_len, src_saxislen - mright_len)
       src[tuple(sslo)] = indata
 
-- 
2.43.0


From 1392478cdc8b0a8eb776806fcec8a2334eb327a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:22 +0000
Subject: [PATCH 032/135] fix: composites of events that start before the axis,
 or have different offsets

---
 pygeode/composite.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pygeode/composite.py b/pygeode/composite.py
index 8afc777..b1f9d13 100644
--- a/pygeode/composite.py
+++ b/pygeode/composite.py
@@ -40,11 +40,10 @@ class CompositeVar(Var):
     # Event lengths can either be specified per event or as a single length
     if hasattr(evlen, '__len__'):
       evlen = np.array(evlen)
-      mevlen = (evlen - evoff + mevoff).max()
       assert evlen.shape == ievents.shape, "The number of event lengths provided does not match the number of events."
     else:
-      mevlen = evlen
-      evlen = np.ones(n, 'i') * mevlen
+      evlen = np.ones(n, 'i') * evlen
+    mevlen = (evlen - evoff + mevoff).max()
 
     # Construct event and offset axes
     from pygeode.timeaxis import Time, Yearless
@@ -66,12 +65,12 @@ class CompositeVar(Var):
     self.evoffs = evoff
     self.mevoff = mevoff
 
+    # Clip the events to the extent of the axis
     for i, (iev, el, eo) in enumerate(zip(ievents, evlen, evoff)):
-      if iev - eo < 0:
-         self.evoffs[i] += iev - eo
-         self.evlens[i] -= iev - eo
-      if iev - eo + el >= len(caxis):
-         self.evlens[i] = len(caxis) - (iev - eo)
+      start = max(iev - eo, 0)
+      stop = min(iev - eo + el, len(caxis))
+      self.evoffs[i] = iev - start
+      self.evlens[i] = stop - start
 
       #assert iev - eo >= 0 and iev - eo + el < len(caxis), \
          #'Event %d (i: %d) is not fully defined' % (np.where(ievents==iev)[0][0], iev)
-- 
2.43.0


From a3980271081532763b9f9e03a129e9fb61276fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:22 +0000
Subject: [PATCH 033/135] fix: composites of integer data

---
 pygeode/composite.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygeode/composite.py b/pygeode/composite.py
index b1f9d13..1d44d92 100644
--- a/pygeode/composite.py
+++ b/pygeode/composite.py
@@ -74,7 +74,9 @@ class CompositeVar(Var):
 
       #assert iev - eo >= 0 and iev - eo + el < len(caxis), \
          #'Event %d (i: %d) is not fully defined' % (np.where(ievents==iev)[0][0], iev)
-    Var.__init__(self, axes, dtype=var.dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
+    # The data need a value for what is missing
+    dtype = var.dtype if var.dtype.kind in 'fc' else 'float64'
+    Var.__init__(self, axes, dtype=dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
   #}}}
 
   def getview (self, view, pbar):
-- 
2.43.0


From 930787c08c37f8b593335e14b88b8ed3783fec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:18 +0000
Subject: [PATCH 034/135] fix: parts of flattened variables

---
 pygeode/composite.py | 53 ++++++++++----------------------------------
 1 file changed, 12 insertions(+), 41 deletions(-)

diff --git a/pygeode/composite.py b/pygeode/composite.py
index 1d44d92..bc07c14 100644
--- a/pygeode/composite.py
+++ b/pygeode/composite.py
@@ -243,53 +243,24 @@ class FlattenVar(Var):
 
   def getview (self, view, pbar):
   # {{{
-    # TODO: handle strides, random access...
+    import numpy as np
     io = self.iout  # Index of outer axis in source var
     ii = self.iin   # Index of inner axis in source var
     ifl = self.iout # Index of flattened axis
     stride = self.stride
     src = self.source_var
 
-    import numpy as np
-    out = np.empty(view.shape, self.dtype)
-    slf = view.slices[ifl]  # Again, need these indices in the space of the variable (?)
-    slo = slice(int(np.floor(slf.start / float(stride))),
-                          int(np.ceil(slf.stop / float(stride))))
-
-    inviewt = view.replace_axis(ifl, src.axes[io], slice(None))
-    inviewt = inviewt.add_axis(ii, src.axes[ii], slice(None))
-
-    sllen = lambda sl: sl.stop-sl.start
-    if sllen(slo) == 1: # Request lies within a single stride
-      # Build inner slice
-      sli = slice(slf.start - slo.start * stride, slf.stop - slo.start * stride)
-
-      # Set bounds on inner view
-      inview = inviewt.modify_slice(io, slo).modify_slice(ii, sli)
-
-      return inview.get(src, pbar=pbar.subset(0, 100)).reshape(view.shape) # Get data, reshape
-    else:     # Request spans multiple strides;
-      # Need to get interior slice, initial and final partial strides
-      # Build slices
-      slos = [slice(slo.start, slo.start + 1),  # Initial
-              slice(slo.start + 1, slo.stop - 1),  # Interior (should be degenerate if slo.cnt=2)
-              slice(slo.stop - 1, slo.stop)]  # Final
-
-      slis = [slice(slf.start - slo.start * stride, stride),
-              slice(0, stride),
-              slice(0, slf.stop - (slo.stop - 1) * stride)]
-
-      # Compute appropriate shape of each request
-      shp = list(view.shape)
-      shapes = [list(shp) for shp[ifl] in [sllen(slis[0]), sllen(slos[1]) * stride, sllen(slis[2])]]
-      progs = np.cumsum([0] + [s[io] for s in shapes])
-      progs = [(100.*progs[i]/progs[-1], 100.*progs[i+1]/progs[-1]) for i in range(len(progs) - 1)]
-
-      # Construct views
-      inviews = [inviewt.modify_slice(io, slo).modify_slice(ii, sli) for slo, sli in zip(slos, slis)]
-
-      # Get data, reshape, concatenate along flattened axis
-      return np.concatenate([inv.get(src, pbar=pbar.subset(*p)).reshape(shp) for inv, shp, p in zip(inviews, shapes, progs)], ifl)
+    # Outer and inner indices of the values requested
+    ind = view.integer_indices[ifl]
+    outer, inner = ind // stride, ind % stride
+    slo, sli = np.unique(outer), np.unique(inner)
+
+    inview = view.replace_axis(ifl, src.axes[io], slo).add_axis(ii, src.axes[ii], sli)
+    data = inview.get(src, pbar=pbar)
+
+    # Pick these values out of the block
+    sl = (slice(None),)*io + (np.searchsorted(slo, outer), np.searchsorted(sli, inner))
+    return data[sl]
   # }}}
 
 def flatten (var, inner = -1, naxis=None):
-- 
2.43.0


From ebace8f54ec0db98fd7558a2f1606963f7a7641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 035/135] fix: flatten a composite along a time axis

---
 pygeode/composite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/composite.py b/pygeode/composite.py
index bc07c14..537f514 100644
--- a/pygeode/composite.py
+++ b/pygeode/composite.py
@@ -214,7 +214,7 @@ class FlattenVar(Var):
     if inner == -1:
       if isinstance(var, CompositeVar):
          out = var.whichaxis(var.event.__class__)
-         inner = var.whichaxis(var.offset.__class__)
+         inner = out + 1
          stride = len(var.axes[inner])
          vals = concatenate([e + var.axes[inner].values for e in var.axes[out].values])
       else:
-- 
2.43.0


From 03ee3093811c620679385826142e3d8d5aad7869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 036/135] fix: interpolation with missing coordinates, or
 coordinates in different directions

---
 pygeode/interp.c | 47 ++++++++++++++++++++---------------------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/pygeode/interp.c b/pygeode/interp.c
index 03d0066..6386369 100644
--- a/pygeode/interp.c
+++ b/pygeode/interp.c
@@ -38,29 +38,6 @@ int interpgsl (int narrays, int nxin, int nxout,
   double *local_xin, *local_xout, *local_yin;
   double dx, xmin, ymin, xmax, ymax;
 
-  // Check the order of the x coordinates
-  // If the order seems to be reversed, then flip the sign of the coordinates
-  if (nxin > 1) {
-    i = 0;
-    do {
-      dx = xin[i + 1] - xin[i];
-    } while (!isfinite(dx) && ++i < nxin);
-  } else {
-    dx = 1.;
-  }
-
-  if (!isfinite(dx) || dx == 0. ) { return -1; }
-  
-  if (dx < 0.) {
-    start = nxin - 1; 
-    end = -1;
-    step = -1;
-  } else {
-    start = 0;
-    end = nxin;
-    step = 1;
-  }
-
   local_xin = (double *) malloc(nxin * sizeof(double));
   local_yin = (double *) malloc(nxin * sizeof(double));
   local_xout = (double *) malloc(nxout * sizeof(double));
@@ -76,6 +53,22 @@ int interpgsl (int narrays, int nxin, int nxout,
   if (NULL == acc) { PyErr_SetString(PyExc_MemoryError, "Failed to allocate gsl_interp_accel object."); goto clean_err;}
 
   for (n = 0; n < narrays; n++) {
+    // Check the order of the x coordinates (of the first two that are there)
+    // If the order seems to be reversed, then flip the order of the coordinates
+    for (i = 0; i < nxin && !isfinite(xin[i]); i++);
+    for (j = i + 1; j < nxin && !isfinite(xin[j]); j++);
+    dx = j < nxin ? xin[j] - xin[i] : 1.;
+
+    if (dx < 0.) {
+      start = nxin - 1;
+      end = -1;
+      step = -1;
+    } else {
+      start = 0;
+      end = nxin;
+      step = 1;
+    }
+
     // Search for nans, resort if necessary
     for (i = start, j = 0; i != end; i += step) {
       if (isfinite(yin[i]) && isfinite(xin[i])) {
@@ -89,10 +82,6 @@ int interpgsl (int narrays, int nxin, int nxout,
       }
     }
 
-    // Save extremal points for extrapolation
-    xmin = local_xin[0];
-    xmax = local_xin[j-1];
-
     if (loop_xout) {
       for (i = 0; i < nxout; i++) local_xout[i] = xout[i]; 
     }
@@ -109,6 +98,10 @@ int interpgsl (int narrays, int nxin, int nxout,
       continue;
     }
 
+    // Save extremal points for extrapolation
+    xmin = local_xin[0];
+    xmax = local_xin[j-1];
+
     interp = gsl_interp_alloc (type, j);
     if (NULL == interp) { PyErr_SetString(PyExc_MemoryError, "Failed to allocate interp object."); goto clean_err;}
 
-- 
2.43.0


From 9a7dfe72404196ae15282a201dc3a865608b7317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 037/135] fix: interpolate puts the new axis where its
 documentation says

---
 pygeode/interp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pygeode/interp.py b/pygeode/interp.py
index b3bcb40..900d965 100644
--- a/pygeode/interp.py
+++ b/pygeode/interp.py
@@ -259,9 +259,10 @@ def interpolate(var, inaxis, outaxis, inx=None, outx=None, interp_type='cspline'
   """
   out = Interp(var, inaxis, outaxis, inx, outx, interp_type, d_below, d_above, omit_nonmonotonic)
   # Do we need to un-tranpose the axes back to the original order?
-  if transpose is False:
-    out_order = list(map(type,var.axes))
-    out_order[var.whichaxis(inaxis)] = type(outaxis)
+  iaxis = var.whichaxis(inaxis)
+  if transpose and iaxis != var.naxes - 1:
+    out_order = list(range(var.naxes-1))
+    out_order.insert(iaxis, var.naxes-1)
     out = out.transpose(*out_order)
   return out
 # }}}
-- 
2.43.0


From bb91b4f3540a0e89061b3607999826e1650b76bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:08 +0000
Subject: [PATCH 038/135] fix: a fill value of zero marks missing data too

---
 pygeode/formats/cfmeta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 6ad79c9..ba2f2f9 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -468,7 +468,7 @@ def decode_cf (dataset, ignore=[]):
     atts = oldvar.atts.copy()
     plotatts = oldvar.atts.copy()
     fillvalue = [atts.pop(f,None) for f in ('FillValue', '_FillValue', 'missing_value')]
-    fillvalue = [_f for _f in fillvalue if _f]
+    fillvalue = [_f for _f in fillvalue if _f is not None]
     fillvalue = fillvalue[0] if len(fillvalue) > 0 else None
     scale = atts.pop('scale_factor', None)
     offset = atts.pop('add_offset', None)
-- 
2.43.0


From ca226f4fb9d1f4639df456013ffec94453d8c3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:08 +0000
Subject: [PATCH 039/135] fix: variables read from a file keep their plot
 attributes apart from the other ones

---
 pygeode/formats/cfmeta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index ba2f2f9..0334173 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -466,7 +466,7 @@ def decode_cf (dataset, ignore=[]):
 #    name = [n for n,v in dataset.vardict.iteritems() if v is oldvar].pop()
     name = oldvar.name
     atts = oldvar.atts.copy()
-    plotatts = oldvar.atts.copy()
+    plotatts = oldvar.plotatts.copy()
     fillvalue = [atts.pop(f,None) for f in ('FillValue', '_FillValue', 'missing_value')]
     fillvalue = [_f for _f in fillvalue if _f is not None]
     fillvalue = fillvalue[0] if len(fillvalue) > 0 else None
-- 
2.43.0


From 11734c1460539703c6e3631b2d23b7be093d5653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:08 +0000
Subject: [PATCH 040/135] fix: auxiliary arrays of generic axes are restored
 when reading a file

---
 pygeode/formats/cfmeta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 0334173..89d234d 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -455,7 +455,7 @@ def decode_cf (dataset, ignore=[]):
     if cls in [Axis, NamedAxis, XAxis, YAxis, ZAxis, TAxis] and _units != '': atts['units'] = _units
 
     # create new axis instance if need be.
-    if cls != type(a):
+    if cls != type(a) or len(aux) > 0:
       axisdict[name] = cls(values=a.values, name=name, atts=atts, **aux)
 
   # Apply these new axes to the variables
-- 
2.43.0


From ebf13a9d4db91d4ef7fb85a25eeab4c8e82f0bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:08 +0000
Subject: [PATCH 041/135] fix: double precision and long integer data with a
 fill value keep their precision

---
 pygeode/formats/cfmeta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 89d234d..0e94df8 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -20,13 +20,14 @@ from pygeode.var import Var
 class var_newaxes (Var):
   def __init__(self, var, newaxes, name=None, fillvalue=None, scale=None, offset=None, atts={}, plotatts={}):
     from pygeode.var import Var, copy_meta 
+    import numpy as np
     atts = atts.copy()
     plotatts = plotatts.copy()
     assert len(newaxes) == len(var.axes)
     for a1, a2 in zip(newaxes, var.axes): assert len(a1) == len(a2)
     self.var = var
     dtype = var.dtype
-    if fillvalue is not None or scale is not None or offset is not None: dtype = 'float32'
+    if fillvalue is not None or scale is not None or offset is not None: dtype = np.result_type(dtype, 'float32')
     self.fillvalue = fillvalue
     self.scale = scale
     self.offset = offset
-- 
2.43.0


From c95eaee625372627a094aad8220d3b319c9d7092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:08 +0000
Subject: [PATCH 042/135] fix: auxiliary arrays whose name is part of 'lat lon'
 are saved

---
 pygeode/formats/cfmeta.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 0e94df8..2d9eb14 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -212,8 +212,6 @@ def encode_cf (dataset):
         extra_vars.append(lon)
         coordinates.append('lon')
 
-      coordinates = " ".join(coordinates)
-
       # Encode other auxarrays as generic "ancillary" arrays.
       ancillary_variables = []
       for auxname in list(a.auxarrays.keys()):
@@ -236,7 +234,7 @@ def encode_cf (dataset):
           var = copy(var)
           var.atts = copy(var.atts)
           if len(coordinates) > 0:
-            var.atts['coordinates'] = coordinates
+            var.atts['coordinates'] = " ".join(coordinates)
           if len(ancillary_variables) > 0:
             var.atts['ancillary_variables'] = ancillary_variables
           varlist[i] = var
-- 
2.43.0


From a7c83e5aaef8ea6eebb220a3f4b4c48215af5207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:08 +0000
Subject: [PATCH 043/135] fix: only the calendar 'none' stands for a yearless
 calendar

---
 pygeode/formats/cfmeta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 2d9eb14..18732f9 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -384,7 +384,7 @@ def decode_cf (dataset, ignore=[]):
       if _calendar in ('standard', 'gregorian', 'proleptic_gregorian'): cls = StandardTime
       elif _calendar in ('365_day', 'noleap', '365day'): cls = ModelTime365
       elif _calendar in ('360_day', '360day'): cls = ModelTime360
-      elif _calendar in ('none'): cls = Yearless
+      elif _calendar == 'none': cls = Yearless
       else:
         warn ("unknown calendar '%s'"%_calendar)
         continue
-- 
2.43.0


From 07dd3041941600427d8dc17d069b3b25ca16d217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:08 +0000
Subject: [PATCH 044/135] fix: the units of a variable are saved

---
 pygeode/formats/cfmeta.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 18732f9..77cc00d 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -272,9 +272,11 @@ def encode_cf (dataset):
   # Apply these new axes to the variables
   for i,oldvar in enumerate(list(varlist)):
     name = oldvar.name
+    atts = oldvar.atts.copy()
+    if oldvar.units and 'units' not in atts: atts['units'] = oldvar.units
     try:
       #TODO: use Var.replace_axes instead?
-      varlist[i] = var_newaxes(oldvar, [axisdict.get(a.name,a) for a in oldvar.axes], atts=oldvar.atts, plotatts=oldvar.plotatts)
+      varlist[i] = var_newaxes(oldvar, [axisdict.get(a.name,a) for a in oldvar.axes], atts=atts, plotatts=oldvar.plotatts)
     except KeyError:
       print('??', a.name, axisdict)
       raise
-- 
2.43.0


From 9be98f3e7d7a0f40ccb5eacf19e9f88639aca6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:08 +0000
Subject: [PATCH 045/135] fix: an attribute that cannot be saved doesn't keep
 the ones after it from being saved

---
 pygeode/formats/netcdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index 8ba1397..6cea202 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -115,10 +115,10 @@ def put_attributes (fileid, varid, atts, version):
       # Drop unsupported data types
       if value.dtype.name.startswith('string'):
         warn ("no support for writing attributes containing an array of strings", stacklevel=3)
-        return
+        continue
       if value.dtype.name not in nc_type[version]:
         warn ("skipping attribute %s = %s  (unsupported type %s)"%(name,value,value.dtype.name), stacklevel=3)
-        return
+        continue
       # Scalar?
       if value.shape == (): value = value.reshape([1])
       vtype = nc_type[version][value.dtype.name]
-- 
2.43.0


From d88e0632ae72e560c3128bddda161ff0099336e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:08 +0000
Subject: [PATCH 046/135] fix: packing constant data or missing values, and
 rounding of packed values

---
 pygeode/formats/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/__init__.py b/pygeode/formats/__init__.py
index 4645640..29cb0c0 100644
--- a/pygeode/formats/__init__.py
+++ b/pygeode/formats/__init__.py
@@ -39,6 +39,9 @@ class PackVar(Var):
     max = var.nanmax()
     self.scale = (max - min) / (2**16 - 2.)
     self.offset = 0.5 * (min + max)
+    # No data, or only one value
+    if not self.scale > 0: self.scale = 1.
+    if not np.isfinite(self.offset): self.offset = 0.
 
     Var.__init__(self, var.axes, dtype=dtype)
 
@@ -46,11 +49,15 @@ class PackVar(Var):
     self.atts['packing_convention'] = 'NetCDF (16 bit)'
     self.atts['scale_factor'] = self.scale
     self.atts['add_offset'] = self.offset
+    # Not used by the packed values (-32767 to 32767)
+    self.atts['_FillValue'] = np.int16(-32768)
   # }}}
 
   def getview (self, view, pbar):
   # {{{
-    return ((view.get(self.var, pbar) - self.offset) / self.scale).astype(self.dtype)
+    import numpy as np
+    data = np.round((view.get(self.var, pbar) - self.offset) / self.scale)
+    return np.where(np.isnan(data), -32768, data).astype(self.dtype)
   # }}}
 
 def autodetectformat(filename):
-- 
2.43.0


From b88508e9907082b493daf131c01772d0ff934c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:44 +0000
Subject: [PATCH 047/135] fix: scalars cannot be compressed; save them as they
 are

---
 pygeode/formats/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index 6cea202..85fad0c 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -479,7 +479,7 @@ def save (filename, in_dataset, version=3, pack=None, compress=False, cfmeta = T
       ret = lib.nc_def_var (fileid, var.name.encode('ascii'), t, var.naxes, d, byref(varids[i]))
       assert ret == 0, lib.nc_strerror(ret)
       # Compress the data? (only works for netcdf4 or (higher?))
-      if compress:
+      if compress and var.naxes > 0:
         ret = lib.nc_def_var_deflate (fileid, varids[i], 1, 1, 2)
         assert ret == 0, lib.nc_strerror(ret)
 
-- 
2.43.0


From 3b26f88c9bca68b8533d1802ff09e3a4f5ff2216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:10 +0000
Subject: [PATCH 048/135] fix: scalar variables with a fill value can be read

---
 pygeode/formats/cfmeta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 77cc00d..113fd72 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -49,7 +49,7 @@ class var_newaxes (Var):
     data = View(self.var.axes, force_slices=view.slices,
                 force_integer_indices=view.integer_indices).get(self.var, pbar=pbar)
     if fillvalue is not None or scale is not None or offset is not None: data = np.copy(data)
-    if fillvalue is not None: w = np.where(data==fillvalue)
+    if fillvalue is not None: w = (data==fillvalue)
     data = np.asarray(data, self.dtype)
     if scale is not None: data *= scale
     if offset is not None: data += offset
-- 
2.43.0


From b7624147282d34d015ccf0a57c2b799acacd2e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 049/135] fix: station names can be saved to version 4 files
 too

---
 pygeode/formats/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index 85fad0c..f1446f8 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -22,7 +22,7 @@ nc_type_v3 = {'int8':1, 'string8':2, 'bytes8':2, 'int16':3, 'int32':4,
            'float32':5, 'float64':6, 'uint8':3, 'uint16':4,
            'uint32':4, 'int64':6, 'uint64':6}
 
-nc_type_v4 = {'int8':1, 'string8':2, 'int16':3, 'int32':4,
+nc_type_v4 = {'int8':1, 'string8':2, 'bytes8':2, 'int16':3, 'int32':4,
            'float32':5, 'float64':6, 'uint8':7, 'uint16':8,
            'uint32':9, 'int64':10, 'uint64':11}
 
-- 
2.43.0


From a0e0851605f01cc14eb35b8f46123559886d1e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:09 +0000
Subject: [PATCH 050/135] fix: dimensions without coordinates don't get
 coordinates when saved

---
 pygeode/formats/cfmeta.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 113fd72..2475928 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -251,6 +251,9 @@ def encode_cf (dataset):
       # Nothing more to do for this axis type
       continue
 
+    # Placeholder values aren't coordinates
+    if isinstance(a, DummyAxis) and len(a.auxarrays) == 0: continue
+
     # Encode custom axes from add-ons
     for n,c in list(custom_axes.items()):
       if isinstance(a,c):
-- 
2.43.0


From a403cb36b1edf23aace9c3be90c259c61aedae2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:54 +0000
Subject: [PATCH 051/135] fix: all the values that mark missing data are taken
 into account, not only the first

---
 pygeode/formats/cfmeta.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 2475928..d4b6305 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -49,7 +49,7 @@ class var_newaxes (Var):
     data = View(self.var.axes, force_slices=view.slices,
                 force_integer_indices=view.integer_indices).get(self.var, pbar=pbar)
     if fillvalue is not None or scale is not None or offset is not None: data = np.copy(data)
-    if fillvalue is not None: w = (data==fillvalue)
+    if fillvalue is not None: w = np.isin(data, fillvalue)
     data = np.asarray(data, self.dtype)
     if scale is not None: data *= scale
     if offset is not None: data += offset
@@ -295,6 +295,7 @@ def decode_cf (dataset, ignore=[]):
   from pygeode.timeaxis import Time, ModelTime365, ModelTime360, StandardTime, Yearless
   from pygeode import timeutils
   from warnings import warn
+  import numpy as np
   import re
 
 #  dataset = asdataset(dataset, copy=True)
@@ -472,8 +473,8 @@ def decode_cf (dataset, ignore=[]):
     atts = oldvar.atts.copy()
     plotatts = oldvar.plotatts.copy()
     fillvalue = [atts.pop(f,None) for f in ('FillValue', '_FillValue', 'missing_value')]
-    fillvalue = [_f for _f in fillvalue if _f is not None]
-    fillvalue = fillvalue[0] if len(fillvalue) > 0 else None
+    fillvalue = [_f for _f in fillvalue if _f is not None and not isinstance(_f, str)]
+    fillvalue = np.concatenate([np.ravel(_f) for _f in fillvalue]) if len(fillvalue) > 0 else None
     scale = atts.pop('scale_factor', None)
     offset = atts.pop('add_offset', None)
     units = atts.get('units', None)
-- 
2.43.0


From 40a5e2a5c8d5b0dd157a27ae0b06adf3906537e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:26 +0000
Subject: [PATCH 052/135] fix: integer data of multiple files can be read

---
 pygeode/formats/multifile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/multifile.py b/pygeode/formats/multifile.py
index dd7dcf6..066e557 100644
--- a/pygeode/formats/multifile.py
+++ b/pygeode/formats/multifile.py
@@ -341,7 +341,7 @@ class Multifile_Var (Var):
     from warnings import warn
 
     out = np.empty(view.shape, self.dtype)
-    out[()] = float('nan')
+    if issubclass(out.dtype.type, np.inexact): out[()] = float('nan')
 
     # Get the times
     itime = view.index(Time)
-- 
2.43.0


From b1cd041143370cb0f92aa67b2dadb29c1c095afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 053/135] fix: time axes of climatologies keep their name when
 read

---
 pygeode/formats/cfmeta.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index d4b6305..c42bc7d 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -291,6 +291,7 @@ def encode_cf (dataset):
 # Decode cf-compliant variables
 def decode_cf (dataset, ignore=[]):
   from pygeode.dataset import asdataset, Dataset
+  from pygeode.var import copy_meta
   from pygeode.axis import Axis, NamedAxis, Lat, Lon, Pres, Hybrid, XAxis, YAxis, ZAxis, TAxis, Station, DummyAxis, NonCoordinateAxis
   from pygeode.timeaxis import Time, ModelTime365, ModelTime360, StandardTime, Yearless
   from pygeode import timeutils
@@ -423,7 +424,9 @@ def decode_cf (dataset, ignore=[]):
         if not all(axisdict[name].year == 0):
           warn ("cfmeta: data starts at year 0 (which usually indicates a climatology), but there's more than one year's worth of data!  Keeping it on a regular calendar.", stacklevel=3)
           continue
-        axisdict[name] = timeutils.modify(axisdict[name], exclude='year')
+        taxis = axisdict[name]
+        axisdict[name] = timeutils.modify(taxis, exclude='year')
+        copy_meta(taxis, axisdict[name])
       continue  # we've constructed the time axis, so move onto the next axis
 
     # Check for a match from the custom axes (from add-ons).
-- 
2.43.0


From 451a5971e61a96cf355619f419c8ce0349b634ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:23 +0000
Subject: [PATCH 054/135] fix: placeholder axes of the same name and length are
 equal

---
 pygeode/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 079f7f3..f9617a6 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -762,7 +762,7 @@ class NamedAxis (Axis):
 
   def __eq__ (self, other):
   # {{{
-    if type(other) is not NamedAxis: return False
+    if type(other) is not type(self): return False
 
     # Check the names
     if self.name != other.name: return False
-- 
2.43.0


From 50ce22294ec12fe9122751c3e8e5dab12ead9a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:23 +0000
Subject: [PATCH 055/135] fix: namemap only renames the axes of the names given

---
 pygeode/formats/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/__init__.py b/pygeode/formats/__init__.py
index 29cb0c0..f158987 100644
--- a/pygeode/formats/__init__.py
+++ b/pygeode/formats/__init__.py
@@ -284,7 +284,8 @@ def finalize_open(dataset, dimtypes = {}, namemap = {}, varlist = [], cfmeta = T
   if len(namemap) > 0:
     # Check both axes and variables
     dataset = dataset.rename_vars(vardict=namemap)
-    dataset = dataset.rename_axes(axisdict=namemap)
+    # (only axes of that very name, not ones of that kind)
+    dataset = dataset.rename_axes(axisdict={k:v for k,v in namemap.items() if k in dataset.axisdict})
 
   return dataset
 # }}}
-- 
2.43.0


From f52c07a3c38ff6fc3b0ac0446fa3ecd146a8b6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 056/135] fix: stations and placeholder axes survive the
 exchange with xarray

---
 pygeode/ext_xarray.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pygeode/ext_xarray.py b/pygeode/ext_xarray.py
index ae645a3..999ce26 100644
--- a/pygeode/ext_xarray.py
+++ b/pygeode/ext_xarray.py
@@ -16,6 +16,7 @@ def to_xarray(dataset):
     An object which can be used with the xarray package.
   """
   from pygeode.dataset import asdataset
+  from pygeode.axis import DummyAxis
   from pygeode.formats.cfmeta import encode_cf
   from pygeode.view import View
   from dask.base import tokenize
@@ -26,15 +27,17 @@ def to_xarray(dataset):
   dataset = encode_cf(dataset)
   out = dict()
   # Loop over each axis and variable.
-  for var in list(dataset.axes) + list(dataset.vars):
+  # (placeholder axes don't have coordinates)
+  for var in [a for a in dataset.axes if not isinstance(a,DummyAxis)] + list(dataset.vars):
     # Generate a unique name to identify it with dask.
     name = var.name + "-" + tokenize(var)
     dsk = dict()
     dims = [a.name for a in var.axes]
 
     # Special case: already have the values in memory.
-    if hasattr(var,'values'):
-      out[var.name] = xr.DataArray(var.values, dims=dims, attrs=var.atts, name=var.name)
+    # (also load arrays of characters, which have to be in one piece)
+    if hasattr(var,'values') or var.dtype.kind == 'S':
+      out[var.name] = xr.DataArray(var.get(), dims=dims, attrs=var.atts, name=var.name)
       continue
 
     # Keep track of all the slices that were made over each dimension.
@@ -87,11 +90,11 @@ class XArray_DataArray(Var):
   """
   def __init__ (self, name, arr):
     from pygeode.var import Var
-    from pygeode.axis import NamedAxis
+    from pygeode.axis import DummyAxis
     self._arr = arr
     # Extract axes and metadata.
     # Convert unicode strings to str for compatibility with PyGeode.
-    axes = [NamedAxis(n,str(d)) for n,d in zip(arr.shape,arr.dims)]
+    axes = [DummyAxis(n,str(d)) for n,d in zip(arr.shape,arr.dims)]
     atts = _fix_atts(arr.attrs)
     Var.__init__(self, axes, name=str(name), dtype=arr.dtype, atts=atts)
   def getview (self, view, pbar):
@@ -135,6 +138,13 @@ def from_xarray(dataset):
       var = xr.conventions.maybe_encode_string_dtype(var)
     except AttributeError:
       pass # Using an older version of xarray (<0.10.0)?
+    # Strings that PyGeode wrote as arrays of characters
+    if str(var.encoding.get('char_dim_name','')).endswith('_strlen'):
+      var = xr.coding.strings.CharacterArrayCoder().encode(var)
+    # Coordinates that the xarray decoder has put aside
+    if 'coordinates' in var.encoding and 'coordinates' not in var.attrs:
+      var = var.copy(deep=False)
+      var.attrs['coordinates'] = var.encoding['coordinates']
     out.append(XArray_DataArray(varname, var))
   # Wrap all the Var objects into a pygeode.Dataset object.
   out = Dataset(out, atts=_fix_atts(dataset.attrs))
-- 
2.43.0


From 3b9d4748f201b49c11f3c093a3d0c380b20f541e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:09 +0000
Subject: [PATCH 057/135] fix: boolean scalars can be read

---
 pygeode/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/view.py b/pygeode/view.py
index c4a560e..dea9e21 100644
--- a/pygeode/view.py
+++ b/pygeode/view.py
@@ -277,7 +277,7 @@ class View:
 
     pbar.update(100)
 
-    assert isinstance(values,(np.ndarray,np.number)), "did not receive a valid array from %s"%repr(var)
+    assert isinstance(values,(np.ndarray,np.generic)), "did not receive a valid array from %s"%repr(var)
 
     if values.dtype != var.dtype:
       warn ("%s is supposed to return a %s, but is returning %s"%(repr(var),var.dtype.name,values.dtype.name))
-- 
2.43.0


From b73db3404b5bed4372fa760a475bc2d850e73c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:34 +0000
Subject: [PATCH 058/135] fix: views can be mapped from several threads

---
 pygeode/view.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygeode/view.py b/pygeode/view.py
index dea9e21..7319f22 100644
--- a/pygeode/view.py
+++ b/pygeode/view.py
@@ -125,7 +125,7 @@ class View:
 
   # }}}
 
-  def map_to (self, axes, strict=True, order=[]):
+  def map_to (self, axes, strict=True, order=None):
   # {{{
     '''Map one view onto another.
         Modifies the slices to work with the new list of axes.
@@ -133,6 +133,8 @@ class View:
           (if not, the default behaviour is to include the entire axis if it's not mentioned in the input view)
         'order' returns the ordering of the output axes to get the original axes back (-1 for things that can't be mapped)'''
 
+    # (a list of its own for each call - this may be called from several threads)
+    if order is None: order = []
     assert isinstance(order,list), "can't output order to a non-list"
 
     if hasattr(axes,'axes'): axes = axes.axes  # check if a var or view was passed
-- 
2.43.0


From e223599e208ea6059bd0e6afa6f4419c892c3474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:40 +0000
Subject: [PATCH 059/135] fix: data of files can be computed by dask

---
 pygeode/ext_xarray.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pygeode/ext_xarray.py b/pygeode/ext_xarray.py
index 999ce26..3fa043a 100644
--- a/pygeode/ext_xarray.py
+++ b/pygeode/ext_xarray.py
@@ -1,6 +1,15 @@
 # Functions for converting PyGeode objects to other (external) projects, and
 # vice-versa.
 
+# Dask may request several pieces of data at the same time (from different
+# threads), but the libraries they are read with are not prepared for that.
+from threading import RLock
+_lock = RLock()
+del RLock
+
+def _getview (var, view):
+  with _lock: return var.getview(view, False)
+
 def to_xarray(dataset):
   """
   Converts a PyGeode Dataset into an xarray Dataset.
@@ -60,7 +69,7 @@ def to_xarray(dataset):
       ind = [o.index(sl) for o, sl in zip(slice_order, integer_indices)]
       # Add this chunk to the dask array.
       key = tuple([name] + ind)
-      dsk[key] = (var.getview, outview, False)
+      dsk[key] = (_getview, var, outview)
     # Construct the dask array.
     chunks = [list(map(len,sl)) for sl in slice_order]
     arr = da.Array(dsk, name, chunks, dtype=var.dtype)
-- 
2.43.0


From 7f4d5d725e0cc0acaeb80d9372eb20e6dd1761f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:36 +0000
Subject: [PATCH 060/135] fix: Dataset.map accepts any callable, not only plain
 functions

---
 pygeode/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/dataset.py b/pygeode/dataset.py
index d66723c..69f11ff 100644
--- a/pygeode/dataset.py
+++ b/pygeode/dataset.py
@@ -521,7 +521,8 @@ class Dataset(object):
       assert hasattr(f,'__call__'), "Var.%s is not a function"%fname
       del fname
     # Allow the function to gracefully fail on vars it can't be applied to.
-    if 'ignore_mismatch' in f.__code__.co_varnames:
+    code = getattr(f, '__code__', None)
+    if code is not None and 'ignore_mismatch' in code.co_varnames:
       kwargs['ignore_mismatch'] = True
     varlist = [f(v, *args, **kwargs) for v in self.vars]
     varlist = [v for v in varlist if v is not None]
-- 
2.43.0


From 584c641769ad43c71e868a61a25b3a412a00fc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:52 +0000
Subject: [PATCH 061/135] fix: record axes of EOFs can be given by name or as
 axis objects

---
 pygeode/eof.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pygeode/eof.py b/pygeode/eof.py
index 42c404c..8aefb51 100644
--- a/pygeode/eof.py
+++ b/pygeode/eof.py
@@ -88,7 +88,6 @@ def prep (var, iaxis, weight, out):
   # Keep the record axis/axes as a tuple
   # (in case we have more than one axis, i.e. time and ensemble)
   if not isinstance(timeaxes,(list,tuple)):
-    assert isinstance(timeaxes,int) or issubclass(timeaxes,Axis), 'unknown iaxis type %s'%type(timeaxes)
     timeaxes = [timeaxes]
 
   # Convert the axes to integer ids
-- 
2.43.0


From c82a211fe71436605e7716ed451aa9fa951ff46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:52 +0000
Subject: [PATCH 062/135] fix: EOFs of variables whose record axis is not the
 first

---
 pygeode/eof.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pygeode/eof.py b/pygeode/eof.py
index 8aefb51..a2b3e66 100644
--- a/pygeode/eof.py
+++ b/pygeode/eof.py
@@ -94,6 +94,13 @@ def prep (var, iaxis, weight, out):
   timeaxes = [var.whichaxis(a) for a in timeaxes]
   spaceaxes = [i for i in range(var.naxes) if i not in timeaxes]
 
+  # The solvers need the record axes to come first
+  order = timeaxes + spaceaxes
+  if order != list(range(var.naxes)):
+    var = var.transpose(*order)
+    timeaxes = list(range(len(timeaxes)))
+    spaceaxes = list(range(len(timeaxes),var.naxes))
+
   # Convert to axis objects
   timeaxes = [var.axes[i] for i in timeaxes]
   spaceaxes = [var.axes[i] for i in spaceaxes]
-- 
2.43.0


From 9323b261f348d52cf194e435d64efe9ac83fce3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:52 +0000
Subject: [PATCH 063/135] fix: EOFs can be computed with weight=None

---
 pygeode/eof.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/eof.py b/pygeode/eof.py
index a2b3e66..faa0c79 100644
--- a/pygeode/eof.py
+++ b/pygeode/eof.py
@@ -14,7 +14,7 @@ del Axis
 
 def apply_weights (var, weight):
   # Normalize by area weight?
-  if weight is not False:
+  if weight is not False and weight is not None:
     if weight is True:  weight = var.getweights()
     W = weight.sum() / weight.size
     weight /= W
@@ -27,7 +27,7 @@ def apply_weights (var, weight):
 def remove_weights (var, weight):
   # Undo normalization by area weight?
   # (should be the exact opposite of the 'weight' function
-  if weight is not False:
+  if weight is not False and weight is not None:
     if weight is True:  weight = var.getweights()
     W = weight.sum() / weight.size
     weight /= W
-- 
2.43.0


From 295f2601c7a98c3c2eaf2fddef3abcef9025bf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:52 +0000
Subject: [PATCH 064/135] fix: EOF_cov scales eigenvalues and time series as
 documented, like the other solvers

---
 pygeode/eof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/eof.py b/pygeode/eof.py
index faa0c79..5fe9d67 100644
--- a/pygeode/eof.py
+++ b/pygeode/eof.py
@@ -400,7 +400,7 @@ def EOF_cov (x, num=1, iaxis=None, weight=True, out=None):
     cov += np.dot(X.transpose(),X)
 
   # Decompose the eigenvectors & eigenvalues
-  w, v = np.linalg.eigh(cov/(time.size-1))
+  w, v = np.linalg.eigh(cov)
 
   variance = w.sum()
   eig = np.sqrt(w[::-1][:num])
-- 
2.43.0


From f73ab07515ebb72a4f0cbb91a848d6d265932ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:52 +0000
Subject: [PATCH 065/135] fix: EOF_iter uses all records when there is more
 than one record axis

---
 pygeode/eof.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pygeode/eof.py b/pygeode/eof.py
index 5fe9d67..f6dcd34 100644
--- a/pygeode/eof.py
+++ b/pygeode/eof.py
@@ -208,7 +208,7 @@ def EOF_iter (x, num=1, iaxis=None, subspace = -1, max_iter=1000, weight=True, o
   del iaxis
 
   eofshape =  (subspace,) + space.shape
-  pcshape =  time.shape + (subspace,)
+  pcshape =  (time.size, subspace)
 
   pcs = np.empty(pcshape,dtype='d')
 
@@ -237,15 +237,16 @@ def EOF_iter (x, num=1, iaxis=None, subspace = -1, max_iter=1000, weight=True, o
     neweofs[()] = 0
 
     # Apply the covariance matrix
+    time_offset = 0
     for inview in View(x.axes).loop_mem():
       X = np.ascontiguousarray(inview.get(x), dtype='d')
       assert X.size >= space.size, "spatial pattern is too large"
 
-      nt = inview.shape[0]
-      time_offset = inview.slices[0].start
+      nt = X.size // space.size
       ier = lib.build_eofs (subspace, nt, NX, X, oldeofs,
-                            neweofs, pcs[time_offset,...])
+                            neweofs, pcs[time_offset:time_offset+nt])
       assert ier == 0
+      time_offset += nt
 
       # Compute variance?
       if iter_num == 1:
-- 
2.43.0


From 9852f5bb89ca04e2498c10250b19d8cc7d04adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:52 +0000
Subject: [PATCH 066/135] fix: synonyms of the outputs of EOFs can be used

---
 pygeode/eof.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/eof.py b/pygeode/eof.py
index f6dcd34..e159295 100644
--- a/pygeode/eof.py
+++ b/pygeode/eof.py
@@ -52,7 +52,8 @@ def whichout (out):
   # Lower case
   out = [o.lower() for o in out]
   for o in out: assert o in names, "Unrecognized output '%s'"%o
-  return out
+  # Use the first of the synonyms
+  return [N[0] for o in out for N in namemap if o in N]
 
 ##prep the var
 def prep (var, iaxis, weight, out):
-- 
2.43.0


From efdbc67031518871d791d1c11284b46f9308185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:46 +0000
Subject: [PATCH 067/135] fix: record axis of SVD given by number, or none
 given

---
 pygeode/svd.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pygeode/svd.py b/pygeode/svd.py
index c8e0a38..2355978 100644
--- a/pygeode/svd.py
+++ b/pygeode/svd.py
@@ -75,6 +75,14 @@ def SVD (var1, var2, num=1, subspace=-1, iaxis=Time, weight1=True, weight2=True,
   if subspace <= 0: subspace = 2*num + 8
   if subspace < num: subspace = num  # Just in case
 
+  # Find the record axis (the leftmost one, if there is no time axis)
+  if iaxis is Time and not (var1.hasaxis(Time) and var2.hasaxis(Time)): iaxis = 0
+  iaxis1 = var1.whichaxis(iaxis)
+  iaxis2 = var2.whichaxis(iaxis)
+  del iaxis  # so we don't use this by accident
+  taxis = var1.axes[iaxis1]
+  assert taxis == var2.axes[iaxis2], "incompatible iteration axes"
+
   # Remember the names
   prefix1 = var1.name+'_' if var1.name != '' else ''
   prefix2 = var2.name+'_' if var2.name != '' else ''
@@ -84,7 +92,7 @@ def SVD (var1, var2, num=1, subspace=-1, iaxis=Time, weight1=True, weight2=True,
 #  if weight2 is not None: var2 *= weight2.sqrt()
   if weight1 is True: weight1 = var1.getweights()
   if weight1 is not False:
-    assert not weight1.hasaxis(iaxis), "Can't handle weights along the record axis"
+    assert not weight1.hasaxis(taxis), "Can't handle weights along the record axis"
     # Normalize the weights
     W = weight1.sum() / weight1.size
     weight1 /= W
@@ -92,7 +100,7 @@ def SVD (var1, var2, num=1, subspace=-1, iaxis=Time, weight1=True, weight2=True,
     var1 *= weight1.sqrt()
   if weight2 is True: weight2 = var2.getweights()
   if weight2 is not False:
-    assert not weight2.hasaxis(iaxis), "Can't handle weights along the record axis"
+    assert not weight2.hasaxis(taxis), "Can't handle weights along the record axis"
     # Normalize the weights
     W = weight2.sum() / weight2.size
     weight2 /= W
@@ -109,13 +117,6 @@ def SVD (var1, var2, num=1, subspace=-1, iaxis=Time, weight1=True, weight2=True,
 #      iaxis1 = 0
 #      iaxis2 = 0
 #  else:
-  iaxis1 = var1.whichaxis(iaxis)
-  iaxis2 = var2.whichaxis(iaxis)
-
-  assert var1.axes[iaxis1] == var2.axes[iaxis2], "incompatible iteration axes"
-  del iaxis  # so we don't use this by accident
-
-
   # Special case: can load entire variable in memory
   # This will save some time, especially if the field is stored on disk, or is heavily derived
   if var1.size <= MAX_ARRAY_SIZE:
-- 
2.43.0


From 2b7c86276e310e356037fcd7f60d4c153306c2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 068/135] fix: SVD of fields with few points or records does
 not iterate over more patterns than there are

---
 pygeode/svd.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pygeode/svd.py b/pygeode/svd.py
index 2355978..f6fbcca 100644
--- a/pygeode/svd.py
+++ b/pygeode/svd.py
@@ -69,12 +69,6 @@ def SVD (var1, var2, num=1, subspace=-1, iaxis=Time, weight1=True, weight2=True,
 
   MAX_ITER = 1000
 
-  # Iterate over more EOFs than we need
-  # (this helps with convergence)
-  # TODO: a more rigorous formula for the optimum number of EOFs to use
-  if subspace <= 0: subspace = 2*num + 8
-  if subspace < num: subspace = num  # Just in case
-
   # Find the record axis (the leftmost one, if there is no time axis)
   if iaxis is Time and not (var1.hasaxis(Time) and var2.hasaxis(Time)): iaxis = 0
   iaxis1 = var1.whichaxis(iaxis)
@@ -83,6 +77,14 @@ def SVD (var1, var2, num=1, subspace=-1, iaxis=Time, weight1=True, weight2=True,
   taxis = var1.axes[iaxis1]
   assert taxis == var2.axes[iaxis2], "incompatible iteration axes"
 
+  # Iterate over more EOFs than we need
+  # (this helps with convergence)
+  # TODO: a more rigorous formula for the optimum number of EOFs to use
+  if subspace <= 0: subspace = 2*num + 8
+  # There are no more than this
+  subspace = min(subspace, var1.shape[iaxis1], var1.size // var1.shape[iaxis1], var2.size // var2.shape[iaxis2])
+  if subspace < num: subspace = num  # Just in case
+
   # Remember the names
   prefix1 = var1.name+'_' if var1.name != '' else ''
   prefix2 = var2.name+'_' if var2.name != '' else ''
-- 
2.43.0


From 95a893518fd63b192163b1a09f1635fd029e0068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:25 +0000
Subject: [PATCH 069/135] fix: multiple_regress returned only its documented
 default outputs' p-values, mangled 'p' and 'sb' axes, and ignored repeated
 samples

---
 pygeode/stats.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index b14b690..bed3264 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -456,7 +456,7 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
   from pygeode.view import View
 
   # Split output request now
-  ovars = ['beta', 'r2', 'p', 'sb', 'covb', 'se']
+  ovars = ['B', 'beta', 'r2', 'p', 'sb', 'covb', 'se']
   output = [o for o in output.split(',') if o in ovars]
   if len(output) < 1: raise ValueError('No valid outputs are requested from correlation. Possible outputs are %s.' % str(ovars))
 
@@ -500,8 +500,10 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
 
   # Accumulate data
   for outsl, datatuple in loopover(Xs + [Y], oview, inaxes, pbar=pbar):
-    ydata =  datatuple[-1].astype('d')
-    xdata = [datatuple[ i].astype('d') for i in range(Nr)]
+    # Not all variables need have all axes, so make sure every sum includes all samples
+    data = np.broadcast_arrays(*[d.astype('d') for d in datatuple])
+    ydata = data[-1]
+    xdata = data[:-1]
     y[outsl]  += npsum(ydata,    siaxes)
     yy[outsl] += npsum(ydata**2, siaxes)
     for i in range(Nr):
@@ -542,31 +544,31 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
 
   ra  = NonCoordinateAxis(values=np.arange(Nr), regressor = xns, name = 'regressor')
   ra2 = NonCoordinateAxis(values=np.arange(Nr), regressor = xns, name = 'regressor2')
-  Nd = len(oaxes)
 
   rvs = []
 
-  if 'beta' in output:
-    B = Var(oaxes + (ra,), values=beta, name='beta')
+  for o in ['B', 'beta']:
+    if o not in output: continue
+    B = Var(oaxes + (ra,), values=beta, name=o)
     B.atts['longname'] = 'regression coefficient'
     rvs.append(B)
 
   if 'r2' in output:
     vary = (yy - y**2/N)
     R2 = 1 - (yy - vare) / vary
-    R2 = Var(oaxes, values=R2, name='R2')
+    R2 = Var(oaxes, values=R2, name='r2')
     R2.atts['longname'] = 'fraction of variance explained'
     rvs.append(R2)
 
   if 'p' in output:
     p = [2. * (1. - tdist.cdf(np.abs(beta[...,i]/sigbeta[i]), N_eff-Nr)) for i in range(Nr)]
-    p = np.transpose(np.array(p), [Nd] + list(range(Nd)))
+    p = np.moveaxis(np.array(p), 0, -1)
     p = Var(oaxes + (ra,), values=p, name='p')
     p.atts['longname'] = 'p-values'
     rvs.append(p)
 
   if 'sb' in output:
-    sigbeta = np.transpose(np.array(sigbeta), [Nd] + list(range(Nd)))
+    sigbeta = np.moveaxis(np.array(sigbeta), 0, -1)
     sb = Var(oaxes + (ra,), values=sigbeta, name='sb')
     sb.atts['longname'] = 'standard deviation of linear coefficients'
     rvs.append(sb)
-- 
2.43.0


From 26da974e145c42ab9dbb36642e7acb3ca289540d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:25 +0000
Subject: [PATCH 070/135] fix: difference of variables with differing axes,
 over all common axes, and with too few samples

---
 pygeode/stats.py | 46 +++++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index bed3264..bf8fedb 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -677,57 +677,57 @@ def difference(X, Y, axes=None, alpha=0.05, Nx_fac = None, Ny_fac = None, output
     oiaxes.extend([r for r in riaxes if r not in ri_new])
     riaxes = ri_new
 
+  # Put all the axes being reduced over at the end
   oaxes = [a for i, a in enumerate(srcaxes) if i not in riaxes]
+  inaxes = oaxes + [srcaxes[i] for i in riaxes]
   oview = View(oaxes) 
+  siaxes = list(range(len(oaxes), len(srcaxes)))
 
-  ixaxes = [X.whichaxis(n) for n in axes if X.hasaxis(n)]
-  iyaxes = [Y.whichaxis(n) for n in axes if Y.hasaxis(n)]
-
-  Nx = np.product([len(X.axes[i]) for i in ixaxes])
-  Ny = np.product([len(Y.axes[i]) for i in iyaxes])
-  assert Nx > 1, '%s has only one element along the reduction axes' % X.name
-  assert Ny > 1, '%s has only one element along the reduction axes' % Y.name
+  N = np.prod([len(srcaxes[i]) for i in riaxes])
+  assert N > 1, '%s and %s have only one element along the reduction axes' % (X.name, Y.name)
 
   if pbar is None:
     from pygeode.progress import PBar
     pbar = PBar()
 
   # Construct work arrays
-  x  = np.full(oview.shape, np.nan, 'd')
-  y  = np.full(oview.shape, np.nan, 'd')
-  xx = np.full(oview.shape, np.nan, 'd')
-  yy = np.full(oview.shape, np.nan, 'd')
-  Nx = np.full(oview.shape, np.nan, 'd')
-  Ny = np.full(oview.shape, np.nan, 'd')
+  x  = np.zeros(oview.shape, 'd')
+  y  = np.zeros(oview.shape, 'd')
+  xx = np.zeros(oview.shape, 'd')
+  yy = np.zeros(oview.shape, 'd')
+  Nx = np.zeros(oview.shape, 'd')
+  Ny = np.zeros(oview.shape, 'd')
 
   # Accumulate data
-  for outsl, (xdata,) in loopover([X], oview, pbar=pbar):
+  for outsl, (xdata,) in loopover([X], oview, inaxes, pbar=pbar):
     xdata = xdata.astype('d')
-    x[outsl]  = np.nansum([x[outsl],  npnansum(xdata, ixaxes)], 0)
-    xx[outsl] = np.nansum([xx[outsl], npnansum(xdata**2, ixaxes)], 0)
+    x[outsl]  += npnansum(xdata, siaxes)
+    xx[outsl] += npnansum(xdata**2, siaxes)
 
     # Count of non-NaN data points
-    Nx[outsl] = np.nansum([Nx[outsl], npnansum(~np.isnan(xdata), ixaxes)], 0) 
+    Nx[outsl] += npnansum(~np.isnan(xdata), siaxes)
 
-  for outsl, (ydata,) in loopover([Y], oview, pbar=pbar):
+  for outsl, (ydata,) in loopover([Y], oview, inaxes, pbar=pbar):
     ydata = ydata.astype('d')
-    y[outsl]  = np.nansum([y[outsl],  npnansum(ydata, iyaxes)], 0)
-    yy[outsl] = np.nansum([yy[outsl], npnansum(ydata**2, iyaxes)], 0)
+    y[outsl]  += npnansum(ydata, siaxes)
+    yy[outsl] += npnansum(ydata**2, siaxes)
 
     # Count of non-NaN data points
-    Ny[outsl] = np.nansum([Ny[outsl], npnansum(~np.isnan(ydata), iyaxes)], 0) 
+    Ny[outsl] += npnansum(~np.isnan(ydata), siaxes)
 
   # remove the mean (NOTE: numerically unstable if mean >> stdev)
   imsk = (Nx > 1) & (Ny > 1)
   xx[imsk] -= (x*x)[imsk] / Nx[imsk]
   xx[imsk] /= (Nx[imsk] - 1)
 
-  x[imsk]  /= Nx[imsk]
+  x[Nx > 0] /= Nx[Nx > 0]
+  x[Nx == 0] = np.nan
 
   yy[imsk] -= (y*y)[imsk] / Ny[imsk]
   yy[imsk] /= (Ny[imsk] - 1)
 
-  y[imsk]  /= Ny[imsk]
+  y[Ny > 0] /= Ny[Ny > 0]
+  y[Ny == 0] = np.nan
 
   # Ensure variances are non-negative
   xx[xx <= 0.] = 0.
-- 
2.43.0


From e2507843586ceb6209ba62629d5974ad76fd3475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:25 +0000
Subject: [PATCH 071/135] fix: paired_difference used the wrong standard error,
 axes by position, and p=0 where undefined

---
 pygeode/stats.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index bf8fedb..6a7f82c 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -889,23 +889,19 @@ def paired_difference(X, Y, axes=None, alpha=0.05, N_fac = None, output='d,p,ci'
     oiaxes.extend([r for r in riaxes if r not in ri_new])
     riaxes = ri_new
 
+  # Put all the axes being reduced over at the end
   oaxes = [a for i, a in enumerate(srcaxes) if i not in riaxes]
+  inaxes = oaxes + [srcaxes[i] for i in riaxes]
   oview = View(oaxes) 
+  siaxes = list(range(len(oaxes), len(srcaxes)))
 
-  ixaxes = [X.whichaxis(n) for n in axes if X.hasaxis(n)]
-  Nx = np.product([len(X.axes[i]) for i in ixaxes])
-
-  iyaxes = [Y.whichaxis(n) for n in axes if Y.hasaxis(n)]
-  Ny = np.product([len(Y.axes[i]) for i in iyaxes])
+  N = np.prod([len(srcaxes[i]) for i in riaxes])
 
-  assert ixaxes == iyaxes and Nx == Ny, 'For the paired difference test, X and Y must have the same size along the reduction axes.'
-  
   if pbar is None:
     from pygeode.progress import PBar
     pbar = PBar()
 
-  assert Nx > 1, '%s has only one element along the reduction axes' % X.name
-  assert Ny > 1, '%s has only one element along the reduction axes' % Y.name
+  assert N > 1, '%s and %s have only one element along the reduction axes' % (X.name, Y.name)
 
   # Construct work arrays
   d  = np.full(oview.shape, np.nan, 'd')
@@ -913,19 +909,20 @@ def paired_difference(X, Y, axes=None, alpha=0.05, N_fac = None, output='d,p,ci'
   N  = np.full(oview.shape, np.nan, 'd')
 
   # Accumulate data
-  for outsl, (xdata, ydata) in loopover([X, Y], oview, inaxes=srcaxes, pbar=pbar):
+  for outsl, (xdata, ydata) in loopover([X, Y], oview, inaxes, pbar=pbar):
     ddata = xdata.astype('d') - ydata.astype('d')
-    d[outsl]  = np.nansum([d[outsl],  npnansum(ddata, ixaxes)], 0)
-    dd[outsl] = np.nansum([dd[outsl], npnansum(ddata**2, ixaxes)], 0)
+    d[outsl]  = np.nansum([d[outsl],  npnansum(ddata, siaxes)], 0)
+    dd[outsl] = np.nansum([dd[outsl], npnansum(ddata**2, siaxes)], 0)
 
     # Count of non-NaN data points
-    N[outsl] = np.nansum([N[outsl], npnansum(~np.isnan(ddata), ixaxes)], 0) 
+    N[outsl] = np.nansum([N[outsl], npnansum(~np.isnan(ddata), siaxes)], 0) 
 
   # remove the mean (NOTE: numerically unstable if mean >> stdev)
   imsk = (N > 1)
   dd[imsk] -= (d*d)[imsk]/N[imsk]
   dd[imsk] /= (N[imsk] - 1)
   d[imsk]  /= N[imsk]
+  d[N == 0] = np.nan
 
   # Ensure variance is non-negative
   dd[dd <= 0.] = 0.
@@ -940,13 +937,16 @@ def paired_difference(X, Y, axes=None, alpha=0.05, N_fac = None, output='d,p,ci'
   ci  = np.zeros(oview.shape, 'd')
 
   den = np.zeros(oview.shape, 'd')
-  den[emsk] = np.sqrt(dd[emsk]/(eN[emsk] - 1))
+  den[emsk] = np.sqrt(dd[emsk]/eN[emsk])
   dmsk = (den > 0.)
 
   p[dmsk]  = np.abs(d[dmsk]/den[dmsk])
   p[dmsk]  = 2. * (1. - tdist.cdf(p[dmsk], eN[dmsk] - 1))
   ci[dmsk] = tdist.ppf(1. - alpha/2, eN[dmsk] - 1) * den[dmsk]
 
+  p [~dmsk] = np.nan
+  ci[~dmsk] = np.nan
+
   pbar.update(100)
 
   # Construct dataset to return
-- 
2.43.0


From 94ae91985eb35e9b65a3b5097fdd0e633a4c6329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:25 +0000
Subject: [PATCH 072/135] fix: isnonzero over all axes; mean of no values is
 not 0

---
 pygeode/stats.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index 6a7f82c..a142307 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -1045,12 +1045,13 @@ def isnonzero(X, axes=None, alpha=0.05, N_fac = None, output='m,p', pbar=None):
   from pygeode.tools import combine_axes, whichaxis, loopover, npsum, npnansum
   from pygeode.view import View
 
-  riaxes = [X.whichaxis(n) for n in axes]
+  if axes is None: riaxes = list(range(X.naxes))
+  else: riaxes = [X.whichaxis(n) for n in axes]
   raxes = [a for i, a in enumerate(X.axes) if i in riaxes]
   oaxes = [a for i, a in enumerate(X.axes) if i not in riaxes]
   oview = View(oaxes) 
 
-  N = np.product([len(X.axes[i]) for i in riaxes])
+  N = np.prod([len(X.axes[i]) for i in riaxes])
 
   if pbar is None:
     from pygeode.progress import PBar
@@ -1083,6 +1084,7 @@ def isnonzero(X, axes=None, alpha=0.05, N_fac = None, output='m,p', pbar=None):
   xx[imsk] = xx[imsk] / (Na[imsk] - 1)
 
   x[imsk] /= Na[imsk]
+  x[~imsk] = np.nan
 
   if N_fac is not None: 
     eN = N//N_fac
@@ -1100,6 +1102,8 @@ def isnonzero(X, axes=None, alpha=0.05, N_fac = None, output='m,p', pbar=None):
   dmsk = (sdom > 0.)
 
   t[dmsk] = np.abs(x[dmsk]) / sdom[dmsk]
+  p[~imsk] = np.nan
+  ci[~imsk] = np.nan
   p[imsk]  = 2. * (1. - tdist.cdf(t[imsk], eNa[imsk] - 1))
   ci[imsk] = tdist.ppf(1. - alpha/2, eNa[imsk] - 1) * sdom[imsk]
 
-- 
2.43.0


From 65f336b2fb252e3c826ac9b0c998abbe87ba22eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:25 +0000
Subject: [PATCH 073/135] fix: multiple_regress estimated the residual variance
 without accounting for the fitted parameters

---
 pygeode/stats.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index a142307..ddcd21e 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -531,7 +531,10 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
   if N_fac is None: N_eff = N
   else: N_eff = N // N_fac
 
-  sigbeta = [np.sqrt((yy - vare) * xxinv[..., i, i] / N_eff) for i in range(Nr)]
+  # Degrees of freedom of the residuals
+  df = N_eff - Nr
+
+  sigbeta = [np.sqrt((yy - vare) * xxinv[..., i, i] / df) for i in range(Nr)]
 
   pbar.update(100)
 
@@ -561,7 +564,7 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
     rvs.append(R2)
 
   if 'p' in output:
-    p = [2. * (1. - tdist.cdf(np.abs(beta[...,i]/sigbeta[i]), N_eff-Nr)) for i in range(Nr)]
+    p = [2. * (1. - tdist.cdf(np.abs(beta[...,i]/sigbeta[i]), df)) for i in range(Nr)]
     p = np.moveaxis(np.array(p), 0, -1)
     p = Var(oaxes + (ra,), values=p, name='p')
     p.atts['longname'] = 'p-values'
@@ -578,13 +581,13 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
     for i in range(Nr):
       for j in range(Nr):
         #sigmat[..., i, j] = np.sqrt((yy - vare) * xxinv[..., i, j] / N_eff)
-        sigmat[..., i, j] = (yy - vare) * xxinv[..., i, j] / N_eff
+        sigmat[..., i, j] = (yy - vare) * xxinv[..., i, j] / df
     covb = Var(oaxes + (ra, ra2), values=sigmat, name='covb')
     covb.atts['longname'] = 'Covariance matrix of the linear coefficients'
     rvs.append(covb)
 
   if 'se' in output:
-    se = np.sqrt((yy - vare) / N_eff)
+    se = np.sqrt((yy - vare) / df)
     se = Var(oaxes, values=se, name='se')
     se.atts['longname'] = 'standard deviation of residual'
     rvs.append(se)
-- 
2.43.0


From 698034639981c6dca8e364584a2b11f048e1f87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:51 +0000
Subject: [PATCH 074/135] fix: the two regressor axes of multiple_regress's
 covb were indistinguishable

---
 pygeode/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index ddcd21e..44517d0 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -546,7 +546,7 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
   from .axis import NonCoordinateAxis
 
   ra  = NonCoordinateAxis(values=np.arange(Nr), regressor = xns, name = 'regressor')
-  ra2 = NonCoordinateAxis(values=np.arange(Nr), regressor = xns, name = 'regressor2')
+  ra2 = NonCoordinateAxis(values=np.arange(Nr), regressor2 = xns, name = 'regressor2')
 
   rvs = []
 
-- 
2.43.0


From 10a70918a609d23805dab162572e1e979663557a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:54 +0000
Subject: [PATCH 075/135] fix: correlate failed when correlating over all axes
 of both variables

---
 pygeode/stats.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index 44517d0..cc1b78c 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -133,10 +133,9 @@ def correlate(X, Y, axes=None, output = 'r,p', pbar=None):
 
   rho[dmsk] = xy[dmsk] / np.sqrt(xx*yy)[dmsk]
 
-  den = 1 - rho**2
   # Saturate the denominator (when correlation is perfect) to avoid div by zero warnings
   eps = 1e-8
-  den[den < eps] = eps
+  den[()] = np.maximum(1 - rho**2, eps)
 
   t = np.zeros(oview.shape, 'd')
   p = np.zeros(oview.shape, 'd')
-- 
2.43.0


From d5257b3f06cee2cacd7d15f4ca952f44b4b50773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:28 +0000
Subject: [PATCH 076/135] fix: isnonzero gave p=1 for values that do not vary

---
 pygeode/stats.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index cc1b78c..e70f7a8 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -1104,10 +1104,11 @@ def isnonzero(X, axes=None, alpha=0.05, N_fac = None, output='m,p', pbar=None):
   dmsk = (sdom > 0.)
 
   t[dmsk] = np.abs(x[dmsk]) / sdom[dmsk]
-  p[~imsk] = np.nan
-  ci[~imsk] = np.nan
-  p[imsk]  = 2. * (1. - tdist.cdf(t[imsk], eNa[imsk] - 1))
-  ci[imsk] = tdist.ppf(1. - alpha/2, eNa[imsk] - 1) * sdom[imsk]
+  p[dmsk]  = 2. * (1. - tdist.cdf(t[dmsk], eNa[dmsk] - 1))
+  ci[dmsk] = tdist.ppf(1. - alpha/2, eNa[dmsk] - 1) * sdom[dmsk]
+
+  p[~dmsk] = np.nan
+  ci[~dmsk] = np.nan
 
   pbar.update(100)
 
-- 
2.43.0


From 7ddd9e567907a27465cec2d5be1c0e46764dbe31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:24 +0000
Subject: [PATCH 077/135] fix: rotatelon duplicated the column at longitude 0
 whatever the origin

---
 pygeode/axis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index f9617a6..c87048e 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -933,8 +933,8 @@ def rotatelon(v, origin, duplicate = False):
 	v0 = v.replace_axes(lon=lp).sorted('lon')
 
 	if duplicate:
-		l360 = Lon(values = [origin + 360])
-		v0 = concatenate([v0, v0(lon=0).replace_axes(lon = l360)])
+		l360 = Lon(values = [v0.lon[0] + 360])
+		v0 = concatenate([v0, v0(i_lon=0).replace_axes(lon = l360)])
 
 	return v0
 # }}}
-- 
2.43.0


From 3beb406f56c5291fa4d128c89d5f31fcf41150d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 078/135] fix: concatenation finds its pieces by position, not
 by coordinates that may recur or be close together

---
 pygeode/concat.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pygeode/concat.py b/pygeode/concat.py
index ca8d737..3af5a3a 100644
--- a/pygeode/concat.py
+++ b/pygeode/concat.py
@@ -81,10 +81,12 @@ class ConcatVar(Var):
       return np.concatenate(chunks, axis=self.iaxis)
     else:
       chunks = []
-      # Construct maps to concatenated variables
-      out_ax = view.subaxis(self.iaxis)
+      # Find which elements are requested from each of the concatenated variables
+      # (by position; coordinates may be repeated, or too close to tell apart)
+      indices = np.asarray(view.integer_indices[self.iaxis])
       subaxes = [v.axes[self.iaxis] for v in self.vars]
-      slices = [ax.map_to(out_ax) for ax in subaxes]
+      ends = np.cumsum([len(ax) for ax in subaxes])
+      slices = [indices[(indices >= end - len(ax)) & (indices < end)] - (end - len(ax)) for ax, end in zip(subaxes, ends)]
       slice_lengths = [len(sl) for sl in slices]
       N = float(np.sum(slice_lengths))
       i = 0
-- 
2.43.0


From fa3b412f8c6c3ae11d3d196dddb24df6ea0c4ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 079/135] fix: slicing a slice that repeats coordinates failed
 to find the elements after a repeated one

Mapping one axis onto another stopped at the first of a run of equal values,
so that v.slice[[0,1,0]].slice[1:2].get() raised an AssertionError.
---
 pygeode/tools.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygeode/tools.c b/pygeode/tools.c
index c62703b..1f35aa1 100644
--- a/pygeode/tools.c
+++ b/pygeode/tools.c
@@ -135,6 +135,8 @@ int map_to (int na, double *a_orig, int nb, double *b_orig, int *indices, double
     // Find a that's closest to b
     while (ai < na-1) {
       if (fabs(a[ai+1]-B) < fabs(a[ai]-B)) ai++;
+      // Step over repeated values
+      else if (a[ai+1] == a[ai] && a[ai] < B) ai++;
       else break;
     }
     // Check if it's a match
-- 
2.43.0


From e6c707ee2cf821c96e12a8644fd8d6bcbfd7c510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 080/135] fix: common map of two time axes which both have
 repeated dates wrote past the end of its buffers

---
 pygeode/timeaxis.c  | 2 +-
 pygeode/timeaxis.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygeode/timeaxis.c b/pygeode/timeaxis.c
index f6268bc..fceba21 100644
--- a/pygeode/timeaxis.c
+++ b/pygeode/timeaxis.c
@@ -172,7 +172,7 @@ int common_map (int natts, int na, int *a, int nb, int *b, int *nmap, int *a_map
     int cmp = CMP(a,ai,b,bi);
     // A match?
     if (cmp == 0) {
-      assert (m < na || m < nb);
+      assert (m < na + nb);
       a_map[m] = ai;
       b_map[m] = bi;
       m++;
diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index 148c5d9..15eb2ab 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -258,7 +258,8 @@ class Time (TAxis):
     a = np.ascontiguousarray(a[a_ind,:],dtype='int32')
     b = np.ascontiguousarray(b[b_ind,:],dtype='int32')
     # Outputs
-    nmap = max(na,nb)
+    # (dates which are repeated in both axes give more matches than either axis has dates)
+    nmap = na + nb
     a_map = np.empty(nmap, 'int32')
     b_map = np.empty(nmap, 'int32')
 
-- 
2.43.0


From 1f2945e5d935bbb7ba2b2076bf15359ae96bed0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:04 +0000
Subject: [PATCH 081/135] fix: replace_axes modified the list of axes it was
 given

---
 pygeode/varoperations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygeode/varoperations.py b/pygeode/varoperations.py
index f082ec0..8f3354d 100644
--- a/pygeode/varoperations.py
+++ b/pygeode/varoperations.py
@@ -281,6 +281,7 @@ class Replace_axes (Var):
       newaxes = list(var.axes)
     else:
       assert len(newaxes) == var.naxes, "wrong number of axes provided"
+      newaxes = list(newaxes)   # the caller's list is left alone
 
     for a,newa in axisdict.items():
       if not var.hasaxis(a) and ignore_mismatch: continue
-- 
2.43.0


From dc861b7311531196087f97debacf70424b7d5c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:30 +0000
Subject: [PATCH 082/135] fix: flattening dropped the attributes and units of
 the variable

---
 pygeode/composite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/composite.py b/pygeode/composite.py
index 537f514..e8fbd0c 100644
--- a/pygeode/composite.py
+++ b/pygeode/composite.py
@@ -211,6 +211,7 @@ class FlattenVar(Var):
   def __init__ (self, var, inner = -1, naxis=None):
   #{{{
     from numpy import concatenate
+    from pygeode.var import copy_meta
     if inner == -1:
       if isinstance(var, CompositeVar):
          out = var.whichaxis(var.event.__class__)
@@ -236,9 +237,8 @@ class FlattenVar(Var):
     self.stride = stride
     self.source_var = var
 
-    self.name = var.name
-
     Var.__init__(self, axes, var.dtype)
+    copy_meta(var, self)
   #}}}
 
   def getview (self, view, pbar):
-- 
2.43.0


From 07e20001e68a9d173447673a38165b6a3befe485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:30 +0000
Subject: [PATCH 083/135] fix: all ensembles of one size shared one axis object

---
 pygeode/ensemble.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pygeode/ensemble.py b/pygeode/ensemble.py
index 46ad39c..89e9bd5 100644
--- a/pygeode/ensemble.py
+++ b/pygeode/ensemble.py
@@ -4,9 +4,7 @@ from pygeode.axis import Index
 class Ensemble(Index): pass
 del Index
 
-def make_ensemble (n, ensdict={}):
-  if n not in ensdict: ensdict[n] = Ensemble(n)
-  return ensdict[n]
+def make_ensemble (n): return Ensemble(n)
 
 from pygeode.var import Var
 class EnsembleVar(Var):
-- 
2.43.0


From 54e1567e6b7f84f72ec48c7b2286a8cbdb20eacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:30 +0000
Subject: [PATCH 084/135] fix: gausslat returned one shared axis object for
 every grid of a size

---
 pygeode/axis.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index c87048e..0dcbff8 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -1030,16 +1030,15 @@ def gausslat (n, order=1, axis_dict={}):
   from pygeode.quadrulepy import legendre_compute
   import numpy as np
   from math import pi
-  if (n,order) in axis_dict: return axis_dict[(n,order)]
-  x, w = legendre_compute(n)
-  x = np.arcsin(x) / pi * 180
+  # (only the numbers are shared, each call gets an axis of its own)
+  if (n,order) not in axis_dict:
+    x, w = legendre_compute(n)
+    x = np.arcsin(x) / pi * 180
 
-  x = x[::order]
-  w = w[::order]
+    axis_dict[(n,order)] = x[::order], w[::order]
 
-  axis = Lat (x, weights=w)
-  axis_dict[(n,order)] = axis
-  return axis
+  x, w = axis_dict[(n,order)]
+  return Lat (x.copy(), weights=w.copy())
 # }}}
 
 def regularlat(n, order=1, inc_poles=True):
-- 
2.43.0


From d9b78c80f0ed3f78db88ce63514cfde2e10b3acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:30 +0000
Subject: [PATCH 085/135] fix: plotting attributes of an axis were lost when it
 was sliced, renamed or given new values

---
 pygeode/axis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 0dcbff8..d0f3183 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -374,7 +374,7 @@ class Axis(Var):
     for key,val in self.auxarrays.items():
       aux[key] = np.array(val[slices], ndmin=1)
 
-    axis = type(self)(values, name=self.name, atts=self.atts, **aux)
+    axis = type(self)(values, name=self.name, atts=self.atts, plotatts=self.plotatts, **aux)
 
     return axis
   # }}}
@@ -568,7 +568,7 @@ class Axis(Var):
     for k,v in self.auxatts.items(): aux[k] = v
     for k,v in self.auxarrays.items(): aux[k] = v
 
-    return type(self)(self.values, name=name, atts=self.atts, **aux)
+    return type(self)(self.values, name=name, atts=self.atts, plotatts=self.plotatts, **aux)
 # }}}
 
   # Check if a given string is a meaningful alias to the axis
@@ -646,7 +646,7 @@ class Axis(Var):
   def withnewvalues (self, values):
   # {{{
     # Assume any auxiliary scalars are the same for the new axis
-    return type(self)(values, name=self.name, atts=self.atts, **self.auxatts)
+    return type(self)(values, name=self.name, atts=self.atts, plotatts=self.plotatts, **self.auxatts)
   # }}}
 # }}}
 
-- 
2.43.0


From 6808181271163a96227a077aee2b8cdbabc94ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:30 +0000
Subject: [PATCH 086/135] fix: a frequency axis with units changed the default
 plot title of all axes

---
 pygeode/axis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index d0f3183..65cc1b3 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -1211,10 +1211,11 @@ class Freq(Axis):
   name = 'freq'
 #  plotscale = 'log'
   def __init__ (self, values, inv_units=None, *args, **kwargs):
+    kwargs = kwargs.copy()
     if inv_units is not None:
       self.units = '/'+inv_units
-      self.plotatts['plottitle'] = 'Frequency (per %s)'%inv_units
-    kwargs = kwargs.copy()
+      # (not in self.plotatts, which at this point is the default of all axes)
+      kwargs['plotatts'] = dict({'plottitle': 'Frequency (per %s)'%inv_units}, **(kwargs.get('plotatts') or {}))
     kwargs['inv_units'] = inv_units
     Axis.__init__ (self, values, *args, **kwargs)
 # }}}
-- 
2.43.0


From 2654ed3e0a20f4699091f0c7b7fdb94b0abe363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:12 +0000
Subject: [PATCH 087/135] fix: variables named like an auxiliary array of an
 axis are not lost when a file is opened

---
 pygeode/formats/cfmeta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index c42bc7d..fe3a35b 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -456,7 +456,7 @@ def decode_cf (dataset, ignore=[]):
 
     # Anything that got attached to this axis should be removed from the
     # list of variables, since it's just extra info specific to the axis.
-    varlist = [v for v in varlist if v.name not in aux]
+    varlist = [v for v in varlist if not any(v is dep for dep in dependencies)]
 
 
     # put the units back (if we didn't use them)?
-- 
2.43.0


From 6ef2148db116e57e063972d3ce1f4949bc9923e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:42 +0000
Subject: [PATCH 088/135] fix: variables on a pressure axis could not be
 plotted with current versions of matplotlib

---
 pygeode/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 65cc1b3..a8f7b63 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -1140,7 +1140,7 @@ class Pres (ZAxis):
     if numdecs < 1.2: subs = [1., 2., 4., 7.]
     elif numdecs < 3.: subs = [1., 3.]
     else: subs = [1.]
-    return pyl.LogLocator(subs = subs, numdecs = numdecs)
+    return pyl.LogLocator(subs = subs)
 # }}}
 
   def formatvalue(self, value, fmt=None, units=True, unitstr=None):
-- 
2.43.0


From fc6affa3da89cd5ae7308805321b07e733768b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:42 +0000
Subject: [PATCH 089/135] fix: default colour maps could not be found with
 current versions of matplotlib

---
 pygeode/plot/cm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/plot/cm.py b/pygeode/plot/cm.py
index 5b08e9a..a15c5c2 100644
--- a/pygeode/plot/cm.py
+++ b/pygeode/plot/cm.py
@@ -267,7 +267,8 @@ def get_cm(style, ndiv):
   elif isinstance(cm, Colormap):
     return cm
   else:
-    return mpl_cm.get_cmap(cm)
+    from matplotlib.pyplot import get_cmap
+    return get_cmap(cm)
 # }}}
 
 def read_config():
-- 
2.43.0


From 7057ae3359ce3c7f1afe39fba37607252f351bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:42 +0000
Subject: [PATCH 090/135] fix: contours on a two-sided logarithmic scale could
 not be plotted or inverted, or plotted without a colour bar

---
 pygeode/plot/cnt_helpers.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pygeode/plot/cnt_helpers.py b/pygeode/plot/cnt_helpers.py
index 8bd3af9..7e81d4e 100644
--- a/pygeode/plot/cnt_helpers.py
+++ b/pygeode/plot/cnt_helpers.py
@@ -25,10 +25,10 @@ class LogNorm2Sided(Normalize):
 
     if np.iterable(value):
       vtype = 'array'
-      val = ma.asarray(value).astype(np.float)
+      val = ma.asarray(value).astype(float)
     else:
       vtype = 'scalar'
-      val = ma.array([value]).astype(np.float)
+      val = ma.array([value]).astype(float)
 
     self.autoscale_None(val)
     vmin, vmax = self.vmin, self.vmax
@@ -76,9 +76,9 @@ class LogNorm2Sided(Normalize):
       result = ma.empty_like(val)
       result[izero] = (val[izero] - 0.5) * vin/cin
       result[ipos] = vin * pow((vmax/vin), (val[ipos] - (0.5 + cin))/(0.5 - cin)) 
-      result[ineg] = -vin * pow((-vmin/vin), ((0.5 - cin) - val[min])/(0.5 - cin))
+      result[ineg] = -vin * pow((-vmin/vin), ((0.5 - cin) - val[ineg])/(0.5 - cin))
                     
-      r = vmin * ma.power((vmax/vmin), val)
+      r = result
     else:
       if value > 0.5 + cin: r = vin * pow((vmax/vin), (value - (0.5 + cin))/(0.5 - cin))
       elif value < 0.5 - cin: r = -vin * pow((-vmin/vin), ((0.5 - cin) - value)/(0.5 - cin))
@@ -423,7 +423,6 @@ def log2sdict(cmin, cdelt = 10, nf=6, nl=2, ndiv=3, nozero=False, **kwargs):
 
   kwcb = kwargs.pop('colorbar', {})
   cb = dict(ticks=tks, width=1.4, rl=0.01, rr=0.16, ticklabels = [lfmt(x) for x in tks])
-  cb.update(kwcb)
   if kwcb is False:
     cb = False
   else:
-- 
2.43.0


From 131a7eeaa06bc782aeba524937c9b1fa4cca336a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:09 +0000
Subject: [PATCH 091/135] fix: significance masks failed with current versions
 of matplotlib, and with a minor significance level

---
 pygeode/plot/pyg_helpers.py |  2 +-
 pygeode/plot/wrappers.py    | 25 ++++++++++++++++++++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/pygeode/plot/pyg_helpers.py b/pygeode/plot/pyg_helpers.py
index 96600c0..1e91899 100644
--- a/pygeode/plot/pyg_helpers.py
+++ b/pygeode/plot/pyg_helpers.py
@@ -648,7 +648,7 @@ def vsigmask(pval, axes, mjsig=0.95, mnsig=None, mjsigp = None, mnsigp = None, n
     axes.modifycontours(cnt, ind=[0, 2], **mjsigp)
     axes.modifycontours(cnt, ind=[1],    **nsigp)
   else:
-    cl = [-1.1, -mnsig,-mjsig, mjsig, mnsig, 1.1]
+    cl = [-1.1, -mjsig, -mnsig, mnsig, mjsig, 1.1]
     axes.contourf(x, y, z, cl, colors='w')
     cnt = axes.plots[-1]
     axes.modifycontours(cnt, ind=[0, 4], **mjsigp)
diff --git a/pygeode/plot/wrappers.py b/pygeode/plot/wrappers.py
index d4593f6..f40e301 100644
--- a/pygeode/plot/wrappers.py
+++ b/pygeode/plot/wrappers.py
@@ -306,6 +306,29 @@ class Contourf(PlotOp):
     self._cnt = axes.contourf (*self.plot_args, **self.plot_kwargs)
 # }}}
 
+def _level_artists(cnt, axes):
+# {{{
+  ''' The artists that draw the individual levels of a contour plot. '''
+  if hasattr(cnt, 'collections'): return cnt.collections
+
+  # Since version 3.8 of matplotlib, all levels are drawn by a single artist: split it up.
+  if not hasattr(cnt, '_pyg_levels'):
+    paths = cnt.get_paths()
+    pick = lambda a, i: a[i % len(a)] if len(a) > 0 else 'none'
+    cnt._pyg_levels = []
+    for i, path in enumerate(paths):
+      c = mpl.collections.PathCollection([path],
+            facecolors = [pick(cnt.get_facecolor(), i)],
+            edgecolors = [pick(cnt.get_edgecolor(), i)],
+            linewidths = [pick(cnt.get_linewidth(), i)],
+            linestyles = [pick(cnt.get_linestyle(), i)],
+            transform = cnt.get_transform(), zorder = cnt.get_zorder())
+      axes.add_collection(c, autolim=False)
+      cnt._pyg_levels.append(c)
+    cnt.set_visible(False)
+  return cnt._pyg_levels
+# }}}
+
 # Op to modify contours
 class ModifyContours(PlotOp):
 # {{{
@@ -315,7 +338,7 @@ class ModifyContours(PlotOp):
     PlotOp.__init__(self, **kwargs)
 
   def render (self, axes):
-    coll = self.cnt._cnt.collections
+    coll = _level_artists(self.cnt._cnt, axes)
     if self.ind is None: pyl.setp(coll, **self.plot_kwargs)
     else: pyl.setp([coll[i] for i in self.ind], **self.plot_kwargs)
 # }}}
-- 
2.43.0


From 472a7b19e85dc33e4f9becbd7cb7281c92cb0a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:09 +0000
Subject: [PATCH 092/135] fix: integer variables or axes with a plot scale
 factor could not be plotted

---
 pygeode/plot/plot_v1.py     | 4 ++--
 pygeode/plot/pyg_helpers.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygeode/plot/plot_v1.py b/pygeode/plot/plot_v1.py
index d37c72d..ab00dfa 100644
--- a/pygeode/plot/plot_v1.py
+++ b/pygeode/plot/plot_v1.py
@@ -54,8 +54,8 @@ def _buildvartitle(axes = None, name = '', plotname = '', plottitle = '', plotun
 
 def _scalevalues(a, scalefactor = None, offset = None, **dummy):
 # {{{
-  if scalefactor is not None: a *= scalefactor
-  if offset is not None: a += offset
+  if scalefactor is not None: a = a * scalefactor
+  if offset is not None: a = a + offset
   return a
 # }}}
 
diff --git a/pygeode/plot/pyg_helpers.py b/pygeode/plot/pyg_helpers.py
index 1e91899..2de415a 100644
--- a/pygeode/plot/pyg_helpers.py
+++ b/pygeode/plot/pyg_helpers.py
@@ -49,8 +49,8 @@ def scalevalues(var):
    sf = var.plotatts.get('scalefactor', None)
    of = var.plotatts.get('offset', None)
    v = var.get().copy()
-   if sf is not None: v *= sf
-   if of is not None: v += of
+   if sf is not None: v = v * sf
+   if of is not None: v = v + of
    return v
 # }}}
 
-- 
2.43.0


From 5b0cfb1ef0612b0f67b2ae166a067b49e33ae087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:09 +0000
Subject: [PATCH 093/135] fix: plots could not be saved to or loaded from files

---
 pygeode/plot/wrappers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/plot/wrappers.py b/pygeode/plot/wrappers.py
index f40e301..ce066d0 100644
--- a/pygeode/plot/wrappers.py
+++ b/pygeode/plot/wrappers.py
@@ -520,7 +520,7 @@ AxesWrapper.imshow = make_plot_member(imshow)
 def save (fig, filename):
 # {{{
   import pickle
-  outfile = open(filename,'w')
+  outfile = open(filename,'wb')
   pickle.dump(fig, outfile)
   outfile.close()
 # }}}
@@ -529,7 +529,7 @@ def save (fig, filename):
 def load (filename):
 # {{{
   import pickle
-  infile = open(filename,'ro')
+  infile = open(filename,'rb')
   theplot = pickle.load(infile)
   infile.close()
   return theplot
-- 
2.43.0


From 37a2b34788c27807d2faf63f54a9c601364b4ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:09 +0000
Subject: [PATCH 094/135] fix: a plot could not be added before others

---
 pygeode/plot/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/plot/wrappers.py b/pygeode/plot/wrappers.py
index ce066d0..1a3991a 100644
--- a/pygeode/plot/wrappers.py
+++ b/pygeode/plot/wrappers.py
@@ -57,7 +57,7 @@ class AxesWrapper:
     if order is None:
       self.plots.append(plot)
     else:
-      self.plots.insert(plot, order)
+      self.plots.insert(order, plot)
     if make_axes: self.make_axis = True
     self.nplots = len(self.plots)
 # }}}
-- 
2.43.0


From ffb4f7d9b92e6627663a77a31b858482ecb98fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:09 +0000
Subject: [PATCH 095/135] fix: variables on a station axis could not be plotted

---
 pygeode/axis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index a8f7b63..a51aaf1 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -1282,9 +1282,9 @@ class NonCoordinateAxis(Axis):
     # Check if we have a special aux array with the same name as the axis.
     # In this case, use those values as the string.
     if self._name in self.auxarrays:
-      return str(self.auxarrays[self._name][value])
+      return str(self.auxarrays[self._name][int(value)])
     # Otherwise, return all the key/value pairs for all aux arrays.
-    out = [name+"="+str(array[value]) for name,array in self.auxarrays.items()]
+    out = [name+"="+str(array[int(value)]) for name,array in self.auxarrays.items()]
     out = ",".join(out)
     return "("+out+")"
 # }}}
-- 
2.43.0


From dc461c900c85e8fd01a9b58978a16636c994e5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:09 +0000
Subject: [PATCH 096/135] fix: showcol did not accept options for its colour
 bar

---
 pygeode/plot/pyg_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/plot/pyg_helpers.py b/pygeode/plot/pyg_helpers.py
index 2de415a..83094ea 100644
--- a/pygeode/plot/pyg_helpers.py
+++ b/pygeode/plot/pyg_helpers.py
@@ -909,6 +909,7 @@ def showcol(vs, size=(4.1,2), **kwargs):
     Ax.setp(ylim = ylim, children=True)
 
   elif Z[0].naxes == 2:
+    cbar = kwargs.pop('colorbar', dict(orientation='vertical'))
     axs = []
     for v in vs:
       lblx = (v is vs[-1])
@@ -918,7 +919,6 @@ def showcol(vs, size=(4.1,2), **kwargs):
 
     Ax = wr.grid(axs)
 
-    cbar = kwargs.pop('colorbar', dict(orientation='vertical'))
     cf = Ax.axes[0].find_plot(wr.Contourf)
     if cbar and cf is not None:
       Ax = wr.colorbar(Ax, cf, **cbar)
-- 
2.43.0


From 34fb79cfbd03c40e1a07359afff4c6444ea4be69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:09 +0000
Subject: [PATCH 097/135] fix: tick labels of a colour bar on given axes raised
 NameError

---
 pygeode/plot/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/plot/wrappers.py b/pygeode/plot/wrappers.py
index 1a3991a..e2abdff 100644
--- a/pygeode/plot/wrappers.py
+++ b/pygeode/plot/wrappers.py
@@ -452,7 +452,7 @@ def colorbar(axes, cnt, cax=None, rect=None, *args, **kwargs):
   cnt.axes.add_plot(Colorbar(cnt, cax, *args, **kwargs))
 
   if ticklabels is not None:
-    if orient == 'horizontal':
+    if kwargs.get('orientation') == 'horizontal':
       cax.setp(xticklabels = ticklabels)
     else:
       cax.setp(yticklabels = ticklabels)
-- 
2.43.0


From ae7fdd95ffa65bdf55c4434356d17a52b402e262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:09 +0000
Subject: [PATCH 098/135] fix: making a colour map removed entries from the
 dictionary it was given

---
 pygeode/plot/cm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygeode/plot/cm.py b/pygeode/plot/cm.py
index a15c5c2..e64196d 100644
--- a/pygeode/plot/cm.py
+++ b/pygeode/plot/cm.py
@@ -122,6 +122,7 @@ def cmap_from_cdict(cdict, colorspace='rgb'):
   import math
   import numpy as np
 
+  cdict = dict(cdict)
   over = cdict.pop('over', None)
   under = cdict.pop('under', None)
 
-- 
2.43.0


From 9577e63465b34be2d4a7c1ae5f7d3d1b574d3cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:09 +0000
Subject: [PATCH 099/135] fix: contour lines without a central one were
 misplaced unless the centre was zero

---
 pygeode/plot/cnt_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/plot/cnt_helpers.py b/pygeode/plot/cnt_helpers.py
index 7e81d4e..e045b8b 100644
--- a/pygeode/plot/cnt_helpers.py
+++ b/pygeode/plot/cnt_helpers.py
@@ -307,8 +307,8 @@ def clfdict(cdelt, min=None, mid=0., nf=6, nl=2, ndiv=3, nozero=False, style=Non
     cf = np.concatenate([np.linspace(cmin, mid, nf * ndiv + 1)[:-1],
                          np.linspace(mid, cmax, nf * ndiv + 1)[1:]])
     if nozero:
-      cl = np.concatenate([np.linspace(cmin, 0, nl * ndiv + 1)[:-1],
-                           np.linspace(0, cmax, nl * ndiv + 1)[1:]])
+      cl = np.concatenate([np.linspace(cmin, mid, nl * ndiv + 1)[:-1],
+                           np.linspace(mid, cmax, nl * ndiv + 1)[1:]])
     else:
       cl = np.linspace(cmin, cmax, 2 * nl * ndiv + 1)
   else:
-- 
2.43.0


From b09174d498c5642fdfb72988cce1f7a38711873a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:09 +0000
Subject: [PATCH 100/135] fix: the units given for formatting latitudes,
 longitudes and pressures were ignored

---
 pygeode/axis.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index a51aaf1..9cb82e6 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -859,7 +859,8 @@ class Lon (XAxis):
       strval = fmt % value
 
     if units:
-      strval += ' ' + self.units
+      if unitstr is None: unitstr = self.units
+      strval += ' ' + unitstr
 
     return strval
 # }}}
@@ -1012,7 +1013,8 @@ class Lat (YAxis):
       strval = fmt % value
 
     if units:
-      strval += ' ' + self.units
+      if unitstr is None: unitstr = self.units
+      strval += ' ' + unitstr
 
     return strval
 # }}}
@@ -1194,7 +1196,8 @@ class Pres (ZAxis):
       strval = fmt % value
 
     if units:
-      strval += ' ' + self.units
+      if unitstr is None: unitstr = self.units
+      strval += ' ' + unitstr
 
     return strval
 # }}}
-- 
2.43.0


From 324947b66f00b4d6f193580f4a89ee3b347d436f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:48 +0000
Subject: [PATCH 101/135] fix: drawing a plot changed the plotting attributes
 of its time axis

---
 pygeode/timeticker.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pygeode/timeticker.py b/pygeode/timeticker.py
index f3a59b7..a84ca81 100644
--- a/pygeode/timeticker.py
+++ b/pygeode/timeticker.py
@@ -624,10 +624,6 @@ class AutoCalendarLocator(Locator):
    
     self._itkgen = itk
     tcks = [t for t in tk.ticks(vmin, vmax)]
-    if self.fmt is None: self._taxis.plotatts['plotfmt'] = tk.fmt
-    else: self._taxis.plotatts['plotfmt'] = self.fmt
-    if self.ofmt is None: self._taxis.plotatts['plotofsfmt'] = tk.ofmt
-    else: self._taxis.plotatts['plotofsfmt'] = self.ofmt
     return tcks
   # }}}
 # }}}
-- 
2.43.0


From 8fea5c891d5cac5eae33e59b2afb4cea28cb09d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:09 +0000
Subject: [PATCH 102/135] fix: plotvar failed with lblx, lbly or perx

---
 pygeode/plot/plot_v1.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pygeode/plot/plot_v1.py b/pygeode/plot/plot_v1.py
index ab00dfa..1a3fac7 100644
--- a/pygeode/plot/plot_v1.py
+++ b/pygeode/plot/plot_v1.py
@@ -271,11 +271,14 @@ def plotvar (var, **kwargs):
     cbar = kwargs.pop('colorbar', {'orientation':'vertical'})
     pcolor = kwargs.pop('pcolor', False)
 
+    lblx = kwargs.pop('lblx', True)
+    lbly = kwargs.pop('lbly', True)
+
     mask = kwargs.pop('mask', None)
     if mask is not None:
       values = ma.masked_where(mask(values), values)
     if perx: 
-      concatenate([values, values[0:1, :]], axis=0)
+      values = ma.concatenate([values, values[:, 0:1]], axis=1)
 
     #
     # Map?
@@ -386,14 +389,14 @@ def plotvar (var, **kwargs):
       ax.set_ylim(ylims[::yaxis.plotatts['plotorder']])
 
       # Set x and y labels and formatters     
-      if kwargs.pop('lblx', True):
+      if lblx:
         ax.set_xlabel(_buildaxistitle(**xaxis.plotatts))
         ax.xaxis.set_major_formatter(xaxis.formatter())
         loc = xaxis.locator()
         if loc is not None: ax.xaxis.set_major_locator(loc)
       else:
         ax.set_xticklabels('')      
-      if kwargs.pop('lbly', True):
+      if lbly:
         ax.set_ylabel(_buildaxistitle(**yaxis.plotatts))
         ax.yaxis.set_major_formatter(yaxis.formatter())
         loc = yaxis.locator()
-- 
2.43.0


From 45d46ce4d5ea8f6dad61d1db9f31c1478fa4e510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:09 +0000
Subject: [PATCH 103/135] fix: plotsigmask failed with current versions of
 matplotlib

---
 pygeode/plot/plot_v1.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pygeode/plot/plot_v1.py b/pygeode/plot/plot_v1.py
index 1a3fac7..53bdd3b 100644
--- a/pygeode/plot/plot_v1.py
+++ b/pygeode/plot/plot_v1.py
@@ -427,6 +427,7 @@ def plotsigmask (var, ax, **kwargs):
   from numpy import meshgrid
   from matplotlib.pyplot import contourf, xlim, ylim, xlabel, ylabel, gca
   from pygeode.axis import Lat, Lon, ZAxis, Pres, Hybrid, SpectralM, SpectralN
+  from pygeode.plot.wrappers import _level_artists
 
   # Get # of dimensions - can only do 1D or 2D
   nd = len([s for s in var.shape if s > 1])
@@ -458,15 +459,16 @@ def plotsigmask (var, ax, **kwargs):
   #sigc = ['1.', '1.', '1.', '1.', '1.']
   sigc = ['0.', '0.7', '1.', '0.7', '0.']
   sigl = [-1.1, -shi, -slo, slo, shi, 1.1]
-  ct = ax.contourf(meshx, meshy, values, sigl, colors=sigc, hold=True, zorder=-1)
-  setp([ct.collections[0], ct.collections[4]], visible=False)
-  setp([ct.collections[1], ct.collections[3]], alpha=alphm, edgecolor='none')
-  for c in [ct.collections[1], ct.collections[3]]:
+  ct = ax.contourf(meshx, meshy, values, sigl, colors=sigc, zorder=-1)
+  levels = _level_artists(ct, ax)
+  setp([levels[0], levels[4]], visible=False)
+  setp([levels[1], levels[3]], alpha=alphm, edgecolor='none')
+  for c in [levels[1], levels[3]]:
     for p in c.get_paths(): 
       ax.add_patch(PathPatch(p, hatch='xx', fc='none', ec='0.5', lw=0., zorder=-1))#, clip_path=(p, ax.transAxes)))
 
-  setp(ct.collections[2], alpha=alph, edgecolor='none')
-  for p in ct.collections[2].get_paths(): 
+  setp(levels[2], alpha=alph, edgecolor='none')
+  for p in levels[2].get_paths(): 
     ax.add_patch(PathPatch(p, hatch='xx', fc='none', ec='0.5', lw=0., zorder=-1))#, clip_path=(p, ax.transAxes)))
   #ax.set_rasterization_zorder(0)
 
-- 
2.43.0


From 006d7a1c74b3d04470f65a1b6f50b09d92b30226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 104/135] fix: showcol failed for lines with missing values

---
 pygeode/plot/pyg_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/plot/pyg_helpers.py b/pygeode/plot/pyg_helpers.py
index 83094ea..71379c8 100644
--- a/pygeode/plot/pyg_helpers.py
+++ b/pygeode/plot/pyg_helpers.py
@@ -905,7 +905,7 @@ def showcol(vs, size=(4.1,2), **kwargs):
       ydat.append(ax.find_plot(wr.Plot).plot_args[1])
 
     Ax = wr.grid(axs)
-    ylim = (np.min([np.min(y) for y in ydat]), np.max([np.max(y) for y in ydat]))
+    ylim = (np.nanmin([np.nanmin(y) for y in ydat]), np.nanmax([np.nanmax(y) for y in ydat]))
     Ax.setp(ylim = ylim, children=True)
 
   elif Z[0].naxes == 2:
-- 
2.43.0


From 25bf70c6fb72e3869d8c6cf873b8a1510a6ec592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 105/135] fix: showgrid failed when there are more columns than
 variables

---
 pygeode/plot/wrappers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygeode/plot/wrappers.py b/pygeode/plot/wrappers.py
index e2abdff..f415fa5 100644
--- a/pygeode/plot/wrappers.py
+++ b/pygeode/plot/wrappers.py
@@ -542,8 +542,9 @@ def grid(axes, size = None):
   nx = len(axes[0])
   assert all([len(x) == nx for x in axes[1:]]), 'Each row must have the same number of axes'
 
-  rowh = [max([a.size[1] for a in row if a is not None]) for row in axes]
-  colw = [max([axes[i][j].size[0] for i in range(ny) if axes[i][j] is not None]) for j in range(nx)]
+  # (rows and columns without any axes take no room)
+  rowh = [max([a.size[1] for a in row if a is not None], default=0.) for row in axes]
+  colw = [max([axes[i][j].size[0] for i in range(ny) if axes[i][j] is not None], default=0.) for j in range(nx)]
 
   tsize = [float(sum(colw)), float(sum(rowh))]
   if size is None: size = tsize
-- 
2.43.0


From 7104b52c2135668ea4a31569f21d4b04a70cf0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 106/135] fix: logarithmic contours could not be plotted with a
 horizontal colour bar

---
 pygeode/plot/cnt_helpers.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pygeode/plot/cnt_helpers.py b/pygeode/plot/cnt_helpers.py
index e045b8b..54f7651 100644
--- a/pygeode/plot/cnt_helpers.py
+++ b/pygeode/plot/cnt_helpers.py
@@ -350,6 +350,13 @@ def lfmt(x, pos=None):
     return r'%d$\!\times$10$^{%d}$' % (np.round(x/10**e), e)
 # }}}
 
+def _horizontal(kwcb):
+# {{{
+  ''' Whether the given colorbar options ask for a horizontal colorbar. '''
+  orient = 'horizontal' if kwcb.get('pos', 'r') in ['b', 't'] else 'vertical'
+  return kwcb.get('orientation', orient) == 'horizontal'
+# }}}
+
 def log1sdict(cmin, cdelt = 10., nf=6, nl=2, ndiv=5, **kwargs):
 # {{{
   ''' Returns kwargs to :meth:`showvar` for a one-sided
@@ -373,10 +380,11 @@ def log1sdict(cmin, cdelt = 10., nf=6, nl=2, ndiv=5, **kwargs):
   cmp = cm.get_cm('seq', ndiv)
 
   kwcb = kwargs.pop('colorbar', {})
-  cb = dict(ticks=tks, width=1.4, rl=0.01, rr=0.16, ticklabels = [lfmt(x) for x in tks])
+  cb = dict(ticks=tks, ticklabels = [lfmt(x) for x in tks])
   if kwcb is False:
     cb = False
   else:
+    if not _horizontal(kwcb): cb.update(width=1.4, rl=0.01, rr=0.16)
     cb.update(kwcb)
 
   kwa = dict(clevs = cf,
@@ -422,10 +430,11 @@ def log2sdict(cmin, cdelt = 10, nf=6, nl=2, ndiv=3, nozero=False, **kwargs):
   cmp = cm.get_cm('div', ndiv)
 
   kwcb = kwargs.pop('colorbar', {})
-  cb = dict(ticks=tks, width=1.4, rl=0.01, rr=0.16, ticklabels = [lfmt(x) for x in tks])
+  cb = dict(ticks=tks, ticklabels = [lfmt(x) for x in tks])
   if kwcb is False:
     cb = False
   else:
+    if not _horizontal(kwcb): cb.update(width=1.4, rl=0.01, rr=0.16)
     cb.update(kwcb)
 
   kwa = dict(clevs = cf,
-- 
2.43.0


From edfb501c2f0cc0d8e9eb6000414d07fd3f8698c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:56 +0000
Subject: [PATCH 107/135] fix: savepages drew plots taller than others in their
 row beyond the bottom of the page

---
 pygeode/plot/pyg_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/plot/pyg_helpers.py b/pygeode/plot/pyg_helpers.py
index 71379c8..4667cc2 100644
--- a/pygeode/plot/pyg_helpers.py
+++ b/pygeode/plot/pyg_helpers.py
@@ -1132,7 +1132,7 @@ def savepages(figs, fn, psize='A4', marg=0.5, scl=1.):
     w = f.size[0] / pwidth * scl
     h = f.size[1] / pheight * scl
 
-    if x + w < 1. - xmarg:
+    if x + w < 1. - xmarg and y - h >= ymarg:
       r = [x, y - h, x + w, y]
       ax.add_axis(f, r)
       x += w
-- 
2.43.0


From 433f66659600b62a81ef14ae89ebfac5fc1d8cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:47 +0000
Subject: [PATCH 108/135] fix: ticks on a reversed time axis

A time axis drawn in decreasing order (plotorder = -1, or inverted limits) had
no ticks at all, because the locators took the bounds of the view as they came.
---
 pygeode/timeticker.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pygeode/timeticker.py b/pygeode/timeticker.py
index a84ca81..1a25455 100644
--- a/pygeode/timeticker.py
+++ b/pygeode/timeticker.py
@@ -580,6 +580,9 @@ class AutoCalendarLocator(Locator):
     except AttributeError:
       vmin, vmax = self.viewInterval.get_bounds()
 
+    # The axis may be drawn in reverse
+    if vmin > vmax: vmin, vmax = vmax, vmin
+
     # Todo:  Auto selection of the multiple up to some factor
     # - stickiness of tick generators
 
@@ -648,6 +651,9 @@ def make_locator(tkgen, name):
       except AttributeError:
         vmin, vmax = self.viewInterval.get_bounds()
 
+      # The axis may be drawn in reverse
+      if vmin > vmax: vmin, vmax = vmax, vmin
+
       tcks = [t for t in self.tkgen.ticks(vmin, vmax)]
       return tcks
     # }}}
-- 
2.43.0


From a5d49ff24fcd4fb80aa5b481d956935be7d5d1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:55 +0000
Subject: [PATCH 109/135] fix: counts of hours, minutes, seconds and days when
 choosing time ticks

The counts were made with the multiple tried before the one asked for (or one
too many, for days), so that the spacing of ticks chosen for views shorter than
a day could be anything, with from one to about thirty ticks.
---
 pygeode/timeticker.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pygeode/timeticker.py b/pygeode/timeticker.py
index 1a25455..bbe2c77 100644
--- a/pygeode/timeticker.py
+++ b/pygeode/timeticker.py
@@ -320,7 +320,7 @@ class DayTickGen(TickGenerator):
     d1 = self.get_tick_prior(vmin)['day']
     d2 = self.get_tick_prior(vmax)['day']
 
-    return (d2 - d1) / self.mult + 1
+    return (d2 - d1) / self.mult
   # }}}
 
 # }}}
@@ -336,11 +336,11 @@ class HourTickGen(TickGenerator):
 
   def nticks(self, vmin, vmax, mult=None):
   # {{{
-    if mult is None: mult = self.mult
+    if mult is not None: self.mult = mult
     d1 = self.get_tick_prior(vmin)
     d2 = self.get_tick_prior(vmax)
 
-    return tu.date_diff(self._taxis, d1, d2, units='hours') / mult
+    return tu.date_diff(self._taxis, d1, d2, units='hours') / self.mult
   # }}}
 
   def get_tick_prior(self, val):
@@ -396,11 +396,11 @@ class MinuteTickGen(TickGenerator):
 
   def nticks(self, vmin, vmax, mult=None):
   # {{{
-    if mult is None: mult = self.mult
+    if mult is not None: self.mult = mult
     d1 = self.get_tick_prior(vmin)
     d2 = self.get_tick_prior(vmax)
 
-    return tu.date_diff(self._taxis, d1, d2, units='minutes') / mult
+    return tu.date_diff(self._taxis, d1, d2, units='minutes') / self.mult
   # }}}
 
   def get_tick_prior(self, val):
@@ -456,11 +456,11 @@ class SecondTickGen(TickGenerator):
 
   def nticks(self, vmin, vmax, mult=None):
   # {{{
-    if mult is None: mult = self.mult
+    if mult is not None: self.mult = mult
     d1 = self.get_tick_prior(vmin)
     d2 = self.get_tick_prior(vmax)
 
-    nt = tu.date_diff(self._taxis, d1, d2, units='seconds') / mult
+    nt = tu.date_diff(self._taxis, d1, d2, units='seconds') / self.mult
     return nt
   # }}}
 
-- 
2.43.0


From 5423e9112f93bc53443847afb16dcdd651e6d827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:27 +0000
Subject: [PATCH 110/135] fix: ticks at a multiple of days, hours, minutes or
 seconds that does not divide the month, day ...

Where the last multiple in a month is too close to the next month to have a
tick, the search for the last tick before a date gave the first of that next
month, which is not before it, and the tick there was skipped.
---
 pygeode/timeticker.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pygeode/timeticker.py b/pygeode/timeticker.py
index bbe2c77..ff08db5 100644
--- a/pygeode/timeticker.py
+++ b/pygeode/timeticker.py
@@ -242,8 +242,10 @@ class DayOfMonthTickGen(TickGenerator):
     d = tu.wrapdate(self._taxis, {'year':yr, 'month':mn, 'day':dy}, allfields=True)
     d1 = tu.wrapdate(self._taxis, {'year':yr, 'month':mn + 1, 'day':1}, allfields=True)
 
+    # There is no tick this close to the next month; the one before is the last
     if tu.date_diff(self._taxis, d, d1, 'days') < self.mult / 2:
-      return d1
+      d['day'] -= self.mult
+      return tu.wrapdate(self._taxis, d, allfields=True)
     else:
       return d
   # }}}
@@ -366,8 +368,10 @@ class HourTickGen(TickGenerator):
     d = tu.wrapdate(self._taxis, pack(yr, mn, dy, hr), allfields=True)
     d1 = tu.wrapdate(self._taxis, pack(yr, mn, dy+1, 0), allfields=True)
 
+    # There is no tick this close to the next day; the one before is the last
     if tu.date_diff(self._taxis, d, d1, 'hours') < self.mult / 2:
-      return d1
+      d['hour'] -= self.mult
+      return tu.wrapdate(self._taxis, d, allfields=True)
     else:
       return d
   # }}}
@@ -426,8 +430,10 @@ class MinuteTickGen(TickGenerator):
     d = tu.wrapdate(self._taxis, pack(yr, mn, dy, hr, mi), allfields=True)
     d1 = tu.wrapdate(self._taxis, pack(yr, mn, dy, hr+1, 0), allfields=True)
 
+    # There is no tick this close to the next hour; the one before is the last
     if tu.date_diff(self._taxis, d, d1, 'minutes') < self.mult / 2:
-      return d1
+      d['minute'] -= self.mult
+      return tu.wrapdate(self._taxis, d, allfields=True)
     else:
       return d
   # }}}
@@ -487,8 +493,10 @@ class SecondTickGen(TickGenerator):
     d = tu.wrapdate(self._taxis, pack(yr, mn, dy, hr, mi, sc), allfields=True)
     d1 = tu.wrapdate(self._taxis, pack(yr, mn, dy, hr, mi+1, 0), allfields=True)
 
+    # There is no tick this close to the next minute; the one before is the last
     if tu.date_diff(self._taxis, d, d1, 'seconds') < self.mult / 2:
-      return d1
+      d['second'] -= self.mult
+      return tu.wrapdate(self._taxis, d, allfields=True)
     else:
       return d
   # }}}
-- 
2.43.0


From b42ee8f18252a637603f9d898cde5c07cae837d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:46 +0000
Subject: [PATCH 111/135] fix: ticks at seasons

The season after one was looked for as a month, so that the ticks of the last
seasons of a year were left out, and some drawn outside the view.
---
 pygeode/timeticker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/timeticker.py b/pygeode/timeticker.py
index ff08db5..10b766b 100644
--- a/pygeode/timeticker.py
+++ b/pygeode/timeticker.py
@@ -177,7 +177,7 @@ class SeasonTickGen(TickGenerator):
     yr = dt.get('year', 1)
     sn = dt.get('season', 1)
     if val > self._taxis.date_as_val({'year':yr, 'season':sn}): 
-      dt = tu.wrapdate(self._taxis, {'year':yr, 'month':sn+1}, allfields=True)
+      dt = tu.wrapdate(self._taxis, {'year':yr, 'season':sn+1}, allfields=True)
       yr = dt.get('year', 1)
       sn = dt.get('season', 1)
 
-- 
2.43.0


From 4e8bd2ed960ee47dadaa5882d8e4fdf86afcbd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:52 +0000
Subject: [PATCH 112/135] fix: convergence of the iterative EOF and SVD solvers

---
 pygeode/eof.py |  7 ++++++-
 pygeode/svd.py | 10 ++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/pygeode/eof.py b/pygeode/eof.py
index e159295..c1cbb38 100644
--- a/pygeode/eof.py
+++ b/pygeode/eof.py
@@ -276,11 +276,16 @@ def EOF_iter (x, num=1, iaxis=None, subspace = -1, max_iter=1000, weight=True, o
     # Normalize
     lib.normalize (subspace, NX, neweofs)
 
+    # The sign of an eigenvector is arbitrary; keep it from one iteration to the next
+    sign = np.where((oldeofs*neweofs).reshape(subspace,-1).sum(axis=1) < 0, -1, 1)
+    neweofs *= sign.reshape((subspace,)+(1,)*len(space.shape))
+
 #    # verify orthogonality
 #    for i in range(num):
 #      print [np.dot(neweofs[i,...].flatten(), neweofs[j,...].flatten()) for j in range(num)]
 
-    if np.allclose(oldeofs[:num,...],neweofs[:num,...], atol=0):
+    # (the patterns have unit length; anything much smaller than that is noise)
+    if np.allclose(oldeofs[:num,...],neweofs[:num,...], atol=1e-8):
       print('converged after %d iterations'%iter_num)
       break
 
diff --git a/pygeode/svd.py b/pygeode/svd.py
index f6fbcca..5b3eb3e 100644
--- a/pygeode/svd.py
+++ b/pygeode/svd.py
@@ -251,8 +251,14 @@ def SVD (var1, var2, num=1, subspace=-1, iaxis=Time, weight1=True, weight2=True,
     lib.normalize (subspace, NX1, Y)
     lib.normalize (subspace, NX2, V)
 
-    if not np.allclose(U[:num,...],Y[:num,...], atol=0): continue
-    if not np.allclose(X[:num,...],V[:num,...], atol=0): continue
+    # The sign of an eigenvector is arbitrary; keep it from one iteration to the next
+    for old, new in ((U, Y), (X, V)):
+      sign = np.where((old*new).reshape(subspace,-1).sum(axis=1) < 0, -1, 1)
+      new *= sign.reshape((subspace,)+(1,)*(new.ndim-1))
+
+    # (the patterns have unit length; anything much smaller than that is noise)
+    if not np.allclose(U[:num,...],Y[:num,...], atol=1e-8): continue
+    if not np.allclose(X[:num,...],V[:num,...], atol=1e-8): continue
     print('converged after %d iterations'%iter_num)
     break
 
-- 
2.43.0


From 0df491484c386f81c83fcf46d60bddebf797f42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:58 +0000
Subject: [PATCH 113/135] fix: retrieval of data from scanned files

---
 pygeode/formats/data_scanner.py | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index 32bf1e3..bdc279c 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -697,40 +697,35 @@ class _DataVar(Var):
   def getview (self, view, pbar):
 
     import numpy as np
-    from pygeode.view import View, simplify
+    from pygeode.view import View
     out = np.empty(view.shape, dtype=self.dtype)
     out[()] = float('nan')
     out_axes = view.clip().axes
     # Loop over all available files.
     N = 0  # Number of points covered so far
     for filename, opener, axes in self._table:
-      subaxes = [self._axis_manager._get_axis_intersection([a1,a2]) for a1,a2 in zip(out_axes,axes)]
+      # (the axes may be in another order in this file)
+      axes = dict((a.name,a) for a in axes)
+      if any(a.name not in axes for a in out_axes): continue
+      subaxes = [self._axis_manager._get_axis_intersection([a,axes[a.name]]) for a in out_axes]
       reorder = []
       mask = []
       if any(len(a)==0 for a in subaxes): continue
       for a1,a2 in zip(out_axes,subaxes):
         # Figure out where the input chunk fits into the output
-        re = np.searchsorted(a2.values, a1.values)
+        # (either could be in decreasing order)
+        S = np.argsort(a2.values)
+        re = np.searchsorted(a2.values[S], a1.values)
         # Mask out elements that we don't actually have in the chunk
-        m = [r<len(a2.values) and a2.values[r]==v for r,v in zip(re,a1.values)]
-        m = np.array(m)
+        m = [r<len(S) and a2.values[S[r]]==v for r,v in zip(re,a1.values)]
         # Convert mask to integer indices
-        m = np.arange(len(m))[m]
-        # and then to a slice (where possible)
-        m = simplify(m)
-        re = re[m]
-        # Try to simplify the re-ordering array
-        if np.all(re == np.sort(re)):
-          re = simplify(re)
-        reorder.append(re)
+        m = np.where(m)[0]
+        reorder.append(S[re[m]])
         mask.append(m)
       var = [v for v in opener(filename) if v.name == self._varname][0]
       v = View(subaxes)
       chunk = v.get(var)
-      # Note: this may break if there is more than one axis with integer indices.
-      assert len([r for r in reorder if isinstance(r,(tuple,np.ndarray))]) <= 1, "Unhandled advanced indexing case."
-      assert len([m for m in mask if isinstance(m,(tuple,np.ndarray))]) <= 1, "Unhandled advanced indexing case."
-      out[mask] = chunk[reorder]
+      out[np.ix_(*mask)] = chunk[np.ix_(*reorder)]
       N = N + chunk.size
       pbar.update(100.*N/out.size)
 
-- 
2.43.0


From 0ce601987d1da3ca397542366ea59dcae0cf0b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:58 +0000
Subject: [PATCH 114/135] fix: axes of scanned files that have the same values

---
 pygeode/formats/data_scanner.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index bdc279c..3e2bf0a 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -292,8 +292,11 @@ class AxisManager (object):
   def _unsettify_axis (self, sample, values):
     import numpy as np
     # Check if we can already get one
+    # (from this very sample; others of this type could have another name,
+    # order or start date)
+    sample = self.lookup_axis(sample)
     key = values
-    axis = self._unsettified_axes.setdefault(type(sample),dict()).get(key,None)
+    axis = self._unsettified_axes.setdefault(id(sample),dict()).get(key,None)
     if axis is not None: return axis
 
     values = sorted(values)
@@ -329,7 +332,7 @@ class AxisManager (object):
 
     axis = self.lookup_axis(axis)
 
-    self._unsettified_axes[type(sample)][key] = axis
+    self._unsettified_axes[id(sample)][key] = axis
     return axis
 
   # Find common values between axes
-- 
2.43.0


From 489f022dcdd2bf97af65b7e465778d1d2c1fce97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:58 +0000
Subject: [PATCH 115/135] fix: scanning files with redundant separators in
 their names

---
 pygeode/formats/data_scanner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index 3e2bf0a..22a89ad 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -89,13 +89,13 @@ class _Manifest(object):
     # Special case: no files given
     if len(files) == 0: return
 
-    self.selected_files.extend(files)
-
     # Strip out extra separators, etc. from the filenames.
     # Otherwise, if the files are scanned a second time with different
     # separators, it may cause the same file to be included more than once.
     files = [normpath(f) for f in files]
 
+    self.selected_files.extend(files)
+
     if self.filename is not None:
       pbar = PBar (message = "Scanning files for %s"%self.filename)
     else:
-- 
2.43.0


From 511f13357a26b02edd8b0b8d8bdd48ea17ae7c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:15 +0000
Subject: [PATCH 116/135] fix: scanned files that changed while other files
 were scanned

---
 pygeode/formats/data_scanner.py | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index 22a89ad..6368c86 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -28,14 +28,14 @@ __all__ = ['AxisManager','DataInterface','from_files']
 # Current version of the manifest file format.
 # If this version doesn't match the existing manifest file, then the manifest
 # is re-generated.
-_MANIFEST_VERSION="3"
+_MANIFEST_VERSION="4"
 
 # Interface for creating / reading a manifest file.
 class _Manifest(object):
 
   # Start using a manifest file (and read the existing entries if available).
   def __init__(self, filename=None, axis_manager=None):
-    from os.path import exists, getmtime
+    from os.path import exists
     import gzip
     import pickle as pickle
 
@@ -51,14 +51,10 @@ class _Manifest(object):
         except (ImportError, AttributeError, EOFError):
           version = None  # Unable to read the symbols, so treat this as an
                           # incompatible version
-      # Use the modification time for the manifest to determine if a data file
-      # has been updated since last time we saved the manifest.
-      self.mtime = getmtime(filename)
     # If we don't have an existing file, or it's the wrong version, then we
     # start with an empty table.
     if filename is None or not exists(filename) or version != _MANIFEST_VERSION:
       self.table = {}
-      self.mtime = 0
 
     # Collect the axes from the manifest, so we can re-use the objects where
     # possible for new files.
@@ -67,7 +63,7 @@ class _Manifest(object):
     else:
       self.axis_manager = AxisManager()
 
-    for filename, entries in self.table.items():
+    for filename, (mtime, entries) in self.table.items():
       for varname, axes, atts in entries:
         self.axis_manager.register_axes(axes)
 
@@ -105,20 +101,17 @@ class _Manifest(object):
     for i,f in enumerate(files):
       pbar.update(i*100./len(files))
       if f in table:
-        # File has changed since last time?
-        if int(getmtime(f)) > self.mtime:
+        # File has changed since we last scanned it?
+        # (it may not have been among the files scanned in between)
+        if getmtime(f) != table[f][0]:
           # Remove existing info
           del table[f]
         else:
           # Otherwise, we've already dealt with the file, so skip it.
           continue
-      # Always use the latest modification time to represent the valid time of
-      # the whole table.
-      self.mtime = max(self.mtime,int(getmtime(f)))
-
       # Record all variables from the file.
       entries = []
-      table[f] = entries
+      table[f] = (getmtime(f), entries)
       for var in opener(f):
 
         axes = self.axis_manager.lookup_axes(var.axes)
@@ -131,7 +124,7 @@ class _Manifest(object):
   # Get the relevant entries from the manifest (only files that were previously
   # specified in scan_files).
   def get_table (self):
-    return dict((f,self.table[f]) for f in self.selected_files)
+    return dict((f,self.table[f][1]) for f in self.selected_files)
 
   # Reset the list of selected files (so we can scan a new batch and produce
   # a new table).
@@ -141,20 +134,14 @@ class _Manifest(object):
   # Save the data back to disk, if it's been modified.
   # This is called once the manifest is no longer in use.
   def save (self):
-    from os.path import exists, getatime, getmtime, normpath
-    from os import utime
     import gzip
     import pickle as pickle
-    from pygeode.progress import PBar
 
     if self.modified_table is True and self.filename is not None:
       with gzip.open(self.filename,'w') as f:
         pickle.dump(_MANIFEST_VERSION, f)
         blob = pickle.dumps(self.table)
         f.write(blob)
-      # Set the modification time to the latest file that was used.
-      atime = getatime(self.filename)
-      utime(self.filename,(atime,self.mtime))
 
       self.modified_table = False
 
-- 
2.43.0


From cd2dc6033dca1c9fdafb0af8ec88355c3dacd5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:15 +0000
Subject: [PATCH 117/135] fix: unreadable manifest of scanned files

---
 pygeode/formats/data_scanner.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index 6368c86..79cb3d2 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -43,14 +43,16 @@ class _Manifest(object):
 
     # If there's already a manifest file on disk, read it.
     if filename is not None and exists(filename):
-      with gzip.open(filename,'r') as f:
-        version = pickle.load(f)
-        table = f.read()
-        try:
-          self.table = pickle.loads(table)
-        except (ImportError, AttributeError, EOFError):
-          version = None  # Unable to read the symbols, so treat this as an
-                          # incompatible version
+      version = None
+      try:
+        with gzip.open(filename,'r') as f:
+          version = pickle.load(f)
+          table = f.read()
+        if version == _MANIFEST_VERSION: self.table = pickle.loads(table)
+      except Exception:
+        version = None  # Unable to read the symbols (or the file was only
+                        # partly written), so treat this as an incompatible
+                        # version
     # If we don't have an existing file, or it's the wrong version, then we
     # start with an empty table.
     if filename is None or not exists(filename) or version != _MANIFEST_VERSION:
-- 
2.43.0


From bf8d76d01182ded1a418b6ada5d9d89c08397f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:24 +0000
Subject: [PATCH 118/135] fix: hybrid axes in scanned files

The axes of the data are made with their auxiliary arrays, without which
axes such as Hybrid can't be created.
---
 pygeode/formats/data_scanner.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index 79cb3d2..a6a66e7 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -293,10 +293,16 @@ class AxisManager (object):
     if len(sample) > 1 and sample.values[0] > sample.values[1]:
       values = values[::-1]
 
+    # Do we have a Varlist pseudo-axis?
+    if isinstance(sample,_Varlist):
+      axis = _Varlist(values)
+
     # Check if the axis is degenerate
-    if len(values) == 0:
-      axis = sample.withnewvalues(values)
+    elif len(values) == 0:
+      axis = sample.slice[:0]
+
     # Do we have aux array pairs to deal with?
+    # (some axes, such as Hybrid, can't be created without them).
     elif isinstance(values[0],tuple):
       x = list(zip(*values))
       values = x[0]
@@ -304,15 +310,8 @@ class AxisManager (object):
       for aux in x[1:]:
         name, arr = list(zip(*aux))
         auxarrays[name[0]] = np.array(arr)
-      axis = sample.withnewvalues(values)
-      # Only update the auxarrays if we have something to put
-      # For empty axes, we don't want to erase the (empty) auxarrays already
-      # created e.g. for the time axis.
-      if len(auxarrays) > 0: axis.auxarrays = auxarrays
-
-    # Do we have a Varlist pseudo-axis?
-    elif isinstance(sample,_Varlist):
-      axis = _Varlist(values)
+      auxarrays.update(sample.auxatts)
+      axis = type(sample)(values, name=sample.name, atts=sample.atts, plotatts=sample.plotatts, **auxarrays)
 
     # Otherwise, we have an axis with no aux arrays (so we can just use the
     # values we have).
-- 
2.43.0


From f23c5d326a4998851bcecc0741597975a1922611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:24 +0000
Subject: [PATCH 119/135] fix: data lost from scanned files with different
 orders of axes

Domains that are the same up to the position of the time axis removed each
other.
---
 pygeode/formats/data_scanner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index a6a66e7..899c672 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -534,7 +534,8 @@ def _cleanup_subdomains (domains):
   for d1 in domains:
     for d2 in domains:
       if d1 is d2: continue
-      assert d1 != d2
+      # (of domains that are the same up to the order of axes, keep one)
+      if d2 in junk_domains: continue
       if _get_axis_names([d1]) != _get_axis_names([d2]): continue
       axis_names = _get_axis_names([d2])
       values1 = [d1.get_axis_values(a) for a in axis_names]
-- 
2.43.0


From e153b5a83347845769bac97ef07e717925574c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:30 +0000
Subject: [PATCH 120/135] fix: sums of integers overflow in the type of the
 data

---
 pygeode/reduce.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/reduce.py b/pygeode/reduce.py
index 99df99f..0d3c259 100644
--- a/pygeode/reduce.py
+++ b/pygeode/reduce.py
@@ -191,7 +191,8 @@ class SumVar(ReducedVar):
   def __init__(self, var, indices):
     import numpy as np
     ReducedVar.__init__(self, var, indices)
-    if self.dtype.kind == 'b': self.dtype = np.dtype('int64')
+    # As in numpy, the sum of small integers can be a large one
+    if self.dtype.kind in 'biu': self.dtype = np.zeros(1, self.dtype).sum().dtype
 
   def getview (self, view, pbar):
     import numpy as np
-- 
2.43.0


From 8fea79fab3ba3bb09168970de7d7be31737e1360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:30 +0000
Subject: [PATCH 121/135] fix: variance and standard deviation of integers and
 of single-precision data

---
 pygeode/reduce.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/pygeode/reduce.py b/pygeode/reduce.py
index 0d3c259..e0211ef 100644
--- a/pygeode/reduce.py
+++ b/pygeode/reduce.py
@@ -377,15 +377,18 @@ class VarianceVar(ReducedVar):
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npsum
-    x = np.zeros(view.shape, self.dtype)
-    x2 = np.zeros(view.shape, self.dtype)
+    # The squares need a larger (and more precise) type than the data
+    dtype = np.promote_types(self.dtype, 'float64')
+    x = np.zeros(view.shape, dtype)
+    x2 = np.zeros(view.shape, dtype)
     N = self.N
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
+      indata = np.asarray(indata, dtype)
       x[outsl] += npsum(indata, self.indices)  
       x2[outsl] += npsum(indata**2, self.indices)  
 
     x /= N
-    return (x2 - N*x**2) / (N - 1)
+    return ((x2 - N*x**2) / (N - 1)).astype(self.dtype)
 # }}}
 class WeightedVarianceVar(ReducedVar):
 # {{{
@@ -406,16 +409,18 @@ class WeightedVarianceVar(ReducedVar):
   # {{{
     import numpy as np
     from pygeode.tools import loopover, npsum
-    x = np.zeros(view.shape, self.dtype)
-    x2 = np.zeros(view.shape, self.dtype)
-    W = np.zeros(view.shape, self.dtype)
+    dtype = np.promote_types(self.dtype, 'float64')
+    x = np.zeros(view.shape, dtype)
+    x2 = np.zeros(view.shape, dtype)
+    W = np.zeros(view.shape, dtype)
     for outsl, (indata, inw) in loopover([self.var, self.mweights], view, self.var.axes, pbar=pbar):
+      indata = np.asarray(indata, dtype)
       x[outsl] += npsum(indata * inw, self.indices)  # Product of data and weights
       x2[outsl] += npsum(indata**2 * inw, self.indices)  # Product of data and weights
       f = indata.size / (inw.size * x[outsl].size)
       W[outsl] += npsum(inw, self.indices) * f # Sum of weights
 
-    return (x2 - x*x/W) / (W - 1)
+    return ((x2 - x*x/W) / (W - 1)).astype(self.dtype)
   # }}}
 # }}}
 
@@ -426,13 +431,15 @@ class NANVarianceVar(ReducedVar):
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnansum
-    x  = np.full(view.shape, np.nan, self.dtype)
-    x2 = np.full(view.shape, np.nan, self.dtype)
-    N  = np.full(view.shape, np.nan, self.dtype)
+    dtype = np.promote_types(self.dtype, 'float64')
+    x  = np.full(view.shape, np.nan, dtype)
+    x2 = np.full(view.shape, np.nan, dtype)
+    N  = np.full(view.shape, np.nan, dtype)
 
-    out = np.zeros(view.shape, self.dtype)
+    out = np.zeros(view.shape, dtype)
 
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
+      indata = np.asarray(indata, dtype)
       x[outsl] = np.nansum([x[outsl],\
                   npnansum(indata, self.indices)], 0)
       x2[outsl] = np.nansum([x2[outsl],\
@@ -445,7 +452,7 @@ class NANVarianceVar(ReducedVar):
     out[nmsk] /= N[nmsk] - 1.
     out[~nmsk] = np.nan
 
-    return out
+    return out.astype(self.dtype)
 # }}}
 
 # naive single-pass standard deviation
-- 
2.43.0


From c3a15f853750ded336a63c67645f752e0a6dd19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:05 +0000
Subject: [PATCH 122/135] fix: standard deviations over time of constant or
 single-precision data

---
 pygeode/climat.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pygeode/climat.py b/pygeode/climat.py
index e50ee41..ed6bc73 100644
--- a/pygeode/climat.py
+++ b/pygeode/climat.py
@@ -243,18 +243,23 @@ class Stdev(TimeOp):
 
     ti = self.ti
 
-    xx = np.zeros (view.shape, self.dtype)
-    x = np.zeros (view.shape, self.dtype)
+    # The squares need more precision than the data may have
+    dtype = np.promote_types(self.dtype, 'float64')
+    xx = np.zeros (view.shape, dtype)
+    x = np.zeros (view.shape, dtype)
     nx = np.zeros (view.shape, dtype='int32')
     nx2 = np.zeros (view.shape, dtype='int32')
 
     for slices, [data], bins in loopover (self.var, view, pbar):
+      data = np.asarray(data, dtype)
       partial_sum (data, slices, x, nx, ti, bins)
       partial_sum (data**2, slices, xx, nx2, ti, bins)
 
     x /= nx
     var = (xx - nx*x**2) / (nx - 1)
-    return np.sqrt(var)
+    # Very small variances may become negative due to numerical issues
+    if dtype.kind == 'f': var[var<0] = 0
+    return np.sqrt(var).astype(self.dtype)
 # }}}
 
 class NANStdev(TimeOp):
@@ -267,12 +272,15 @@ class NANStdev(TimeOp):
 
     ti = self.ti
 
-    xx = np.zeros (view.shape, self.dtype)
-    x = np.zeros (view.shape, self.dtype)
+    # The squares need more precision than the data may have
+    dtype = np.promote_types(self.dtype, 'float64')
+    xx = np.zeros (view.shape, dtype)
+    x = np.zeros (view.shape, dtype)
     nx = np.zeros (view.shape, dtype='int32')
     nx2 = np.zeros (view.shape, dtype='int32')
 
     for slices, [data], bins in loopover (self.var, view, pbar):
+      data = np.asarray(data, dtype)
       partial_nan_sum (data, slices, x, nx, ti, bins)
       partial_nan_sum (data**2, slices, xx, nx2, ti, bins)
 
@@ -283,7 +291,9 @@ class NANStdev(TimeOp):
 
     x /= nx
     var = (xx - nx*x**2) / (nx - 1)
-    return np.sqrt(var)
+    # Very small variances may become negative due to numerical issues
+    if dtype.kind == 'f': var[var<0] = 0
+    return np.sqrt(var).astype(self.dtype)
 # }}}
 
 class Count(TimeOp):
-- 
2.43.0


From 60d28a7eb45d2dc93e2fd1d839f37e554d9b6706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:19 +0000
Subject: [PATCH 123/135] fix: derivatives and integrals of integers overflow
 in the type of the data

---
 pygeode/deriv.py | 10 ++++++----
 pygeode/intgr.py |  5 +++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/pygeode/deriv.py b/pygeode/deriv.py
index 68a8306..6d56cf7 100644
--- a/pygeode/deriv.py
+++ b/pygeode/deriv.py
@@ -82,8 +82,9 @@ class DerivativeVar (Var):
     allview = view.modify_slice(daxis, allpoints)
 
     # Get the data and axis values for these points
-    allvalues = allview.get(self.var, pbar=pbar)
-    allaxis = allview.get(self.dx)
+    # (differences and products of integers could overflow)
+    allvalues = np.asarray(allview.get(self.var, pbar=pbar), self.dtype)
+    allaxis = np.asarray(allview.get(self.dx), _floattype(self.dx.dtype))
 
     # Define a map from these unique points back to the left & right arrays
     getleft = np.searchsorted(allpoints,left)
@@ -166,8 +167,9 @@ class SecondDerivativeVar (Var):
     allview = view.modify_slice(daxis, allpoints)
 
     # Get the data and axis values for these points
-    allvalues = allview.get(self.var, pbar=pbar)
-    allaxis = allview.get(self.dx)
+    # (differences and products of integers could overflow)
+    allvalues = np.asarray(allview.get(self.var, pbar=pbar), self.dtype)
+    allaxis = np.asarray(allview.get(self.dx), _floattype(self.dx.dtype))
 
     # Define a map from these unique points back to the left & right arrays
     getleft = np.searchsorted(allpoints,left)
diff --git a/pygeode/intgr.py b/pygeode/intgr.py
index 8a3c9c3..a5c4ade 100644
--- a/pygeode/intgr.py
+++ b/pygeode/intgr.py
@@ -67,8 +67,9 @@ class IntegrateVar (Var):
     Ni = self.shape[iaxis]
 
     # Get all data along the integration axis
+    # (sums and differences of integers could overflow)
     inview = view.unslice(iaxis)
-    data = inview.get(self.var, pbar=pbar.subset(0, 70))
+    data = np.asarray(inview.get(self.var, pbar=pbar.subset(0, 70)), self.dtype)
 
     # Get initial values
     shp = [s if i != iaxis else 1 for i, s in enumerate(view.shape)]
@@ -80,7 +81,7 @@ class IntegrateVar (Var):
 
     # Compute differences
     if not self.type == 'cumsum':
-      d = np.diff(inview.get(self.dx), axis=iaxis)
+      d = np.diff(np.asarray(inview.get(self.dx), self.dtype), axis=iaxis)
 
     sl1 = [slice(None)] * self.naxes
     sl2 = [slice(None)] * self.naxes
-- 
2.43.0


From c40cac3c963a3174a87ad87a799d7dd3d4f8f651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:49 +0000
Subject: [PATCH 124/135] fix: integrals of complex data lose the imaginary
 part

---
 pygeode/intgr.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pygeode/intgr.py b/pygeode/intgr.py
index a5c4ade..a02ba6c 100644
--- a/pygeode/intgr.py
+++ b/pygeode/intgr.py
@@ -11,6 +11,7 @@ class IntegrateVar (Var):
   # {{{
     ''' __init__()'''
 
+    import numpy as np
     from pygeode.var import Var
 
     iaxis = var.whichaxis(iaxis)
@@ -55,7 +56,9 @@ class IntegrateVar (Var):
     else:
       name = 'i(UnknownVar)'
 
-    Var.__init__(self, var.axes, dtype='d', name=name)
+    # (complex data have a complex integral)
+    dtype = np.promote_types(var.dtype, 'd')
+    Var.__init__(self, var.axes, dtype=dtype, name=name)
   # }}}
 
   def getview (self, view, pbar):
@@ -77,7 +80,7 @@ class IntegrateVar (Var):
       d0 = view.get(self.v0, pbar=pbar.subset(70, 90))
       d0 = np.broadcast_to(d0, shp)
     else:
-      d0 = np.full(shp, self.v0, 'd')
+      d0 = np.full(shp, self.v0, self.dtype)
 
     # Compute differences
     if not self.type == 'cumsum':
@@ -104,7 +107,7 @@ class IntegrateVar (Var):
       # (as np.cumsum, the first value of the sum is the first value of the data)
       dat = np.concatenate([d0, data[slr]], iaxis)
 
-    out = np.add.accumulate(dat, iaxis, 'd')
+    out = np.add.accumulate(dat, iaxis, self.dtype)
     if self.type == 'cumsum': out = out[sl2]
     out = out[slr]
 
-- 
2.43.0


From ff1741e27bd0ed2498b07208bc34f117ddab24a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:04 +0000
Subject: [PATCH 125/135] fix: climatologies of data in another byte order or
 half precision

---
 pygeode/tools.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pygeode/tools.py b/pygeode/tools.py
index fcfb4a8..c28d3b3 100644
--- a/pygeode/tools.py
+++ b/pygeode/tools.py
@@ -461,6 +461,11 @@ def partial_sum (arr, sl, bigout, bigcount, iaxis, outmap):
 # {{{
   import numpy as np
 
+  # The C code handles only some types, and only in native byte order
+  dtype = arr.dtype.newbyteorder('=')
+  if dtype.name == 'float16': dtype = np.dtype('float32')
+  arr = np.ascontiguousarray(arr, dtype)
+
 #  out = np.zeros(arr.shape[:iaxis] + (bigout.shape[iaxis],) + arr.shape[iaxis+1:], dtype=bigout.dtype)
   out = np.zeros(arr.shape[:iaxis] + (bigout.shape[iaxis],) + arr.shape[iaxis+1:], dtype=arr.dtype)
   count = np.zeros(arr.shape[:iaxis] + (bigcount.shape[iaxis],) + arr.shape[iaxis+1:], dtype='int32')
@@ -493,6 +498,11 @@ def partial_nan_sum (arr, sl, bigout, bigcount, iaxis, outmap):
 # {{{
   import numpy as np
 
+  # The C code handles only some types, and only in native byte order
+  dtype = arr.dtype.newbyteorder('=')
+  if dtype.name == 'float16': dtype = np.dtype('float32')
+  arr = np.ascontiguousarray(arr, dtype)
+
 #  out = np.zeros(arr.shape[:iaxis] + (bigout.shape[iaxis],) + arr.shape[iaxis+1:], dtype=bigout.dtype)
   out = np.zeros(arr.shape[:iaxis] + (bigout.shape[iaxis],) + arr.shape[iaxis+1:], dtype=arr.dtype)
   count = np.zeros(arr.shape[:iaxis] + (bigcount.shape[iaxis],) + arr.shape[iaxis+1:], dtype='int32')
-- 
2.43.0


From 8184311ce436bd56d8060947c7c9bc0157c6ecec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:26 +0000
Subject: [PATCH 126/135] fix: unfill loses digits of large integers and of
 data in another byte order

---
 pygeode/varoperations.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pygeode/varoperations.py b/pygeode/varoperations.py
index 8f3354d..4787b23 100644
--- a/pygeode/varoperations.py
+++ b/pygeode/varoperations.py
@@ -583,14 +583,13 @@ def fill (self, fill):
 # NOTE: if input values are integers, they are converted to floats
 class UnfillVar(Var):
   def __init__(self, var, fill):
-    from numpy import float32, float64
+    import numpy as np
     from pygeode.var import Var, copy_meta
     self.var = var
     self._fill = fill
     # We need floating-point values to have a nan
-    if var.dtype not in (float32, float64):
-      dtype = float32
-    else: dtype = var.dtype
+    # (in a type that can hold all the values)
+    dtype = np.promote_types(var.dtype, 'float32')
     Var.__init__(self, var.axes, dtype)
     copy_meta (var, self)
   def getview(self, view, pbar):
-- 
2.43.0


From b598e17b8e560eedbde6ed93df2fc3b5f111cdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:12 +0000
Subject: [PATCH 127/135] fix: check_multi reports gaps where times are rounded

---
 pygeode/formats/multifile.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pygeode/formats/multifile.py b/pygeode/formats/multifile.py
index 066e557..0303e6c 100644
--- a/pygeode/formats/multifile.py
+++ b/pygeode/formats/multifile.py
@@ -457,12 +457,20 @@ def check_multi (*args, **kwargs):
     return sorted(set(map(find_file,t_array)))
   # Loop over each file, and check the contents.
   all_ok = True
-  all_expected_times = set(full_taxis.values)
 
   # Check for uniformity in the data, and report any potential holes.
   dt = np.diff(full_taxis.values)
   expected_dt = min(dt[dt > 0])
-  gaps = full_taxis.values[np.where(dt > expected_dt)]
+  # (times are not exact: hours in units of days, for instance)
+  tol = expected_dt * 1e-3
+  ftol = min(np.diff(reltime(full_taxis, startdate=faxis.startdate, units=faxis.units))[dt > 0]) * 1e-3
+  # Helper method - the times which are not among some others.
+  def not_among (times, others):
+    times = np.array(sorted(times)); others = np.array(sorted(others))
+    # (how many of the others are within the tolerance)
+    n = np.searchsorted(others, times + tol, side='right') - np.searchsorted(others, times - tol)
+    return list(times[n == 0])
+  gaps = full_taxis.values[:-1][dt > expected_dt + tol]
   if len(gaps) > 0:
     print("ERROR: detected gaps on or after file(s):")
     for filename in find_files(gaps):
@@ -522,20 +530,20 @@ def check_multi (*args, **kwargs):
         continue
 
     covered_times.update(times)
-    if i < len(files)-1 and np.any(rtimes >= faxis[i+1]):
+    if i < len(files)-1 and np.any(rtimes >= faxis[i+1] - ftol):
       print("  ERROR: found timesteps beyond the expected range of this file.")
       all_ok = False
-    if np.any(rtimes < faxis[i]):
+    if np.any(rtimes < faxis[i] - ftol):
       print("  ERROR: found timestep(s) earlier than the expected start of this file.")
       all_ok = False
 
-  missing_times = all_expected_times - covered_times
+  missing_times = not_among(full_taxis.values, covered_times)
   if len(missing_times) > 0:
     print("ERROR: did not get full time coverage.  Missing some timesteps for file(s):")
     for filename in find_files(missing_times):
       print(filename)
     all_ok = False
-  extra_times = covered_times - all_expected_times
+  extra_times = not_among(covered_times, full_taxis.values)
   if len(extra_times) > 0:
     print("ERROR: found extra (unexpected) timesteps in the following file(s):")
     for filename in find_files(extra_times):
-- 
2.43.0


From bef96e581f4da125e73a1540a4ebc6833cf1c5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:12 +0000
Subject: [PATCH 128/135] fix: check_multi reports a difference where all
 values are missing

---
 pygeode/formats/multifile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygeode/formats/multifile.py b/pygeode/formats/multifile.py
index 0303e6c..f701517 100644
--- a/pygeode/formats/multifile.py
+++ b/pygeode/formats/multifile.py
@@ -522,8 +522,9 @@ def check_multi (*args, **kwargs):
         print("  ERROR: different missing value masks found in multifile vs. direct access for '%s'"%var.name)
         all_ok = False
         continue
-      source_data = np.ma.masked_array(source_data, mask=source_mask)
-      multifile_data = np.ma.masked_array(multifile_data, mask=multifile_mask)
+      # (there may be no valid data at all)
+      source_data = source_data[~source_mask]
+      multifile_data = multifile_data[~multifile_mask]
       if not np.all(source_data == multifile_data):
         print("  ERROR: get different data from multifile vs. direct access for '%s'"%var.name)
         all_ok = False
-- 
2.43.0


From 5670d8925c83d845201433c387b9d6df6a8b0524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:26 +0000
Subject: [PATCH 129/135] fix: seasonal averages of climatologies have the
 Decembers apart, and days of the wrong season

---
 pygeode/climat.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pygeode/climat.py b/pygeode/climat.py
index ed6bc73..ea82673 100644
--- a/pygeode/climat.py
+++ b/pygeode/climat.py
@@ -132,9 +132,7 @@ class Seasonal(TimeMap):
       raise NotImplemented('Seasonal Time axis not implemented for this calendar')
 
     # Wrap in axis with a seasonal axis to allow reduction
-    outax = SeasonalAxis(values = intime.values, \
-                        startdate = intime.startdate, \
-                        units = intime.units)
+    outax = cls.get_intime(intime)
     if 'year' in outax.auxarrays:
       fields = [outax.auxarrays['year'], outax.auxarrays['season']]
       fields = _uniquify(fields)
@@ -156,9 +154,15 @@ class Seasonal(TimeMap):
       raise NotImplemented('Seasonal Time axis not implemented for this calendar')
 
     # Wrap in axis with a seasonal axis to allow reduction
-    return SeasonalAxis(values = intime.values, \
-                        startdate = intime.startdate, \
+    inax = SeasonalAxis(values = intime.values, \
+                        startdate = dict(dict(year=0), **intime.startdate), \
                         units = intime.units)
+    # Climatologies have no years: all their Decembers, Januaries and Februaries
+    # are in the same season
+    if 'year' not in intime.auxarrays:
+      inax = SeasonalAxis(startdate = intime.startdate, units = intime.units, \
+                          season = inax.auxarrays['season'])
+    return inax
 
 ###############################################################################
 # Define the operation that's done in the mapping
-- 
2.43.0


From 7dfb1845b70e6610821c687872153d9504352626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:07 +0000
Subject: [PATCH 130/135] fix: statistics of samples with a mean much larger
 than their deviation, or constant, lose their digits

---
 pygeode/stats.py | 52 +++++++++++++++++++++++++++++++++++++++---------
 pygeode/tools.py | 13 ++++++++++++
 2 files changed, 56 insertions(+), 9 deletions(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index e70f7a8..3507ee8 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -47,7 +47,7 @@ def correlate(X, Y, axes=None, output = 'r,p', pbar=None):
   zero. It is computed from the t-statistic given in eq (8.7), in section
   8.2.3, and assumes normally distributed quantities.'''
 
-  from pygeode.tools import loopover, whichaxis, combine_axes, shared_axes, npnansum
+  from pygeode.tools import loopover, whichaxis, combine_axes, shared_axes, npnansum, npoffset
   from pygeode.view import View
 
   # Split output request now
@@ -80,6 +80,8 @@ def correlate(X, Y, axes=None, output = 'r,p', pbar=None):
   siaxes = list(range(len(oaxes), len(srcaxes)))
 
   # Construct work arrays
+  x0 = np.full(oview.shape, np.nan, 'd')
+  y0 = np.full(oview.shape, np.nan, 'd')
   x  = np.full(oview.shape, np.nan, 'd')
   y  = np.full(oview.shape, np.nan, 'd')
   xx = np.full(oview.shape, np.nan, 'd')
@@ -103,6 +105,13 @@ def correlate(X, Y, axes=None, output = 'r,p', pbar=None):
     xdata[np.isnan(xydata)] = np.nan
     ydata[np.isnan(xydata)] = np.nan
 
+    # Accumulate relative to the first pair of values
+    x0[outsl] = npoffset(x0[outsl], xdata, siaxes)
+    y0[outsl] = npoffset(y0[outsl], ydata, siaxes)
+    xdata = xdata - np.expand_dims(x0[outsl], siaxes)
+    ydata = ydata - np.expand_dims(y0[outsl], siaxes)
+    xydata = xdata*ydata
+
     # It seems np.nansum does not broadcast its arguments automatically
     # so there must be a better way of doing this...
     x[outsl]  = np.nansum([x[outsl],  npnansum(xdata, siaxes)], 0)
@@ -231,7 +240,7 @@ def regress(X, Y, axes=None, N_fac=None, output='m,b,p', pbar=None):
   computed from 'sm' or 'se'.  The data is assumed to be normally
   distributed.'''
 
-  from pygeode.tools import loopover, whichaxis, combine_axes, shared_axes, npnansum
+  from pygeode.tools import loopover, whichaxis, combine_axes, shared_axes, npnansum, npoffset
   from pygeode.view import View
 
   # Split output request now
@@ -266,6 +275,8 @@ def regress(X, Y, axes=None, N_fac=None, output='m,b,p', pbar=None):
   assert len(riaxes) > 0, '%s and %s share no axes to be regressed over' % (xn, yn)
 
   # Construct work arrays
+  x0 = np.full(oview.shape, np.nan, 'd')
+  y0 = np.full(oview.shape, np.nan, 'd')
   x  = np.full(oview.shape, np.nan, 'd')
   y  = np.full(oview.shape, np.nan, 'd')
   xx = np.full(oview.shape, np.nan, 'd')
@@ -286,6 +297,13 @@ def regress(X, Y, axes=None, N_fac=None, output='m,b,p', pbar=None):
     xdata[np.isnan(xydata)] = np.nan
     ydata[np.isnan(xydata)] = np.nan
 
+    # Accumulate relative to the first pair of values
+    x0[outsl] = npoffset(x0[outsl], xdata, siaxes)
+    y0[outsl] = npoffset(y0[outsl], ydata, siaxes)
+    xdata = xdata - np.expand_dims(x0[outsl], siaxes)
+    ydata = ydata - np.expand_dims(y0[outsl], siaxes)
+    xydata = xdata*ydata
+
     # It seems np.nansum does not broadcast its arguments automatically
     # so there must be a better way of doing this...
     x[outsl]  = np.nansum([x[outsl],  npnansum(xdata, siaxes)], 0)
@@ -315,7 +333,7 @@ def regress(X, Y, axes=None, N_fac=None, output='m,b,p', pbar=None):
   r2 = np.zeros(oview.shape, 'd')
 
   m[dmsk] = xy[dmsk]/xx[dmsk]
-  b[nmsk] = (y[nmsk] - m[nmsk]*x[nmsk]) / Na[nmsk]
+  b[nmsk] = (y[nmsk] - m[nmsk]*x[nmsk]) / Na[nmsk] + y0[nmsk] - m[nmsk]*x0[nmsk]
 
   r2den = xx * yy
   d2msk = (r2den > 0.)
@@ -659,7 +677,7 @@ def difference(X, Y, axes=None, alpha=0.05, Nx_fac = None, Ny_fac = None, output
   degrees of freedom are not calculated explicitly by this routine. The p-value and 
   confidence interval are computed based on the t-statistic in eq (6.19).'''
 
-  from pygeode.tools import loopover, whichaxis, combine_axes, shared_axes, npnansum
+  from pygeode.tools import loopover, whichaxis, combine_axes, shared_axes, npnansum, npoffset
   from pygeode.view import View
 
   # Split output request now
@@ -693,6 +711,8 @@ def difference(X, Y, axes=None, alpha=0.05, Nx_fac = None, Ny_fac = None, output
     pbar = PBar()
 
   # Construct work arrays
+  x0 = np.full(oview.shape, np.nan, 'd')
+  y0 = np.full(oview.shape, np.nan, 'd')
   x  = np.zeros(oview.shape, 'd')
   y  = np.zeros(oview.shape, 'd')
   xx = np.zeros(oview.shape, 'd')
@@ -703,6 +723,8 @@ def difference(X, Y, axes=None, alpha=0.05, Nx_fac = None, Ny_fac = None, output
   # Accumulate data
   for outsl, (xdata,) in loopover([X], oview, inaxes, pbar=pbar):
     xdata = xdata.astype('d')
+    x0[outsl] = npoffset(x0[outsl], xdata, siaxes)
+    xdata = xdata - np.expand_dims(x0[outsl], siaxes)
     x[outsl]  += npnansum(xdata, siaxes)
     xx[outsl] += npnansum(xdata**2, siaxes)
 
@@ -711,24 +733,28 @@ def difference(X, Y, axes=None, alpha=0.05, Nx_fac = None, Ny_fac = None, output
 
   for outsl, (ydata,) in loopover([Y], oview, inaxes, pbar=pbar):
     ydata = ydata.astype('d')
+    y0[outsl] = npoffset(y0[outsl], ydata, siaxes)
+    ydata = ydata - np.expand_dims(y0[outsl], siaxes)
     y[outsl]  += npnansum(ydata, siaxes)
     yy[outsl] += npnansum(ydata**2, siaxes)
 
     # Count of non-NaN data points
     Ny[outsl] += npnansum(~np.isnan(ydata), siaxes)
 
-  # remove the mean (NOTE: numerically unstable if mean >> stdev)
+  # remove the mean
   imsk = (Nx > 1) & (Ny > 1)
   xx[imsk] -= (x*x)[imsk] / Nx[imsk]
   xx[imsk] /= (Nx[imsk] - 1)
 
   x[Nx > 0] /= Nx[Nx > 0]
+  x += x0
   x[Nx == 0] = np.nan
 
   yy[imsk] -= (y*y)[imsk] / Ny[imsk]
   yy[imsk] /= (Ny[imsk] - 1)
 
   y[Ny > 0] /= Ny[Ny > 0]
+  y += y0
   y[Ny == 0] = np.nan
 
   # Ensure variances are non-negative
@@ -871,7 +897,7 @@ def paired_difference(X, Y, axes=None, alpha=0.05, N_fac = None, output='d,p,ci'
   routine. The p-value and confidence interval are computed based on the t-statistic in eq
   (6.21).'''
 
-  from pygeode.tools import loopover, whichaxis, combine_axes, shared_axes, npnansum
+  from pygeode.tools import loopover, whichaxis, combine_axes, shared_axes, npnansum, npoffset
   from pygeode.view import View
 
   # Split output request now
@@ -906,6 +932,7 @@ def paired_difference(X, Y, axes=None, alpha=0.05, N_fac = None, output='d,p,ci'
   assert N > 1, '%s and %s have only one element along the reduction axes' % (X.name, Y.name)
 
   # Construct work arrays
+  d0 = np.full(oview.shape, np.nan, 'd')
   d  = np.full(oview.shape, np.nan, 'd')
   dd = np.full(oview.shape, np.nan, 'd')
   N  = np.full(oview.shape, np.nan, 'd')
@@ -913,17 +940,20 @@ def paired_difference(X, Y, axes=None, alpha=0.05, N_fac = None, output='d,p,ci'
   # Accumulate data
   for outsl, (xdata, ydata) in loopover([X, Y], oview, inaxes, pbar=pbar):
     ddata = xdata.astype('d') - ydata.astype('d')
+    d0[outsl] = npoffset(d0[outsl], ddata, siaxes)
+    ddata = ddata - np.expand_dims(d0[outsl], siaxes)
     d[outsl]  = np.nansum([d[outsl],  npnansum(ddata, siaxes)], 0)
     dd[outsl] = np.nansum([dd[outsl], npnansum(ddata**2, siaxes)], 0)
 
     # Count of non-NaN data points
     N[outsl] = np.nansum([N[outsl], npnansum(~np.isnan(ddata), siaxes)], 0) 
 
-  # remove the mean (NOTE: numerically unstable if mean >> stdev)
+  # remove the mean
   imsk = (N > 1)
   dd[imsk] -= (d*d)[imsk]/N[imsk]
   dd[imsk] /= (N[imsk] - 1)
   d[imsk]  /= N[imsk]
+  d += d0
   d[N == 0] = np.nan
 
   # Ensure variance is non-negative
@@ -1044,7 +1074,7 @@ def isnonzero(X, axes=None, alpha=0.05, N_fac = None, output='m,p', pbar=None):
   The p-value and confidence interval are computed for the t-statistic defined in 
   eq (6.61) of von Storch and Zwiers 1999.'''
 
-  from pygeode.tools import combine_axes, whichaxis, loopover, npsum, npnansum
+  from pygeode.tools import combine_axes, whichaxis, loopover, npsum, npnansum, npoffset
   from pygeode.view import View
 
   if axes is None: riaxes = list(range(X.naxes))
@@ -1062,6 +1092,7 @@ def isnonzero(X, axes=None, alpha=0.05, N_fac = None, output='m,p', pbar=None):
   assert N > 1, '%s has only one element along the reduction axes' % X.name
 
   # Construct work arrays
+  x0 = np.full(oview.shape, np.nan, 'd')
   x = np.zeros(oview.shape, 'd')
   xx = np.zeros(oview.shape, 'd')
   Na = np.zeros(oview.shape, 'd')
@@ -1073,6 +1104,8 @@ def isnonzero(X, axes=None, alpha=0.05, N_fac = None, output='m,p', pbar=None):
   # Accumulate data
   for outsl, (xdata,) in loopover([X], oview, pbar=pbar):
     xdata = xdata.astype('d')
+    x0[outsl] = npoffset(x0[outsl], xdata, riaxes)
+    xdata = xdata - np.expand_dims(x0[outsl], riaxes)
     x[outsl] = np.nansum([x[outsl], npnansum(xdata, riaxes)], 0)
     xx[outsl] = np.nansum([xx[outsl], npnansum(xdata**2, riaxes)], 0)
 
@@ -1081,11 +1114,12 @@ def isnonzero(X, axes=None, alpha=0.05, N_fac = None, output='m,p', pbar=None):
 
   imsk = (Na > 0.)
 
-  # remove the mean (NOTE: numerically unstable if mean >> stdev)
+  # remove the mean
   xx[imsk] -= x[imsk]**2 / Na[imsk]
   xx[imsk] = xx[imsk] / (Na[imsk] - 1)
 
   x[imsk] /= Na[imsk]
+  x += x0
   x[~imsk] = np.nan
 
   if N_fac is not None: 
diff --git a/pygeode/tools.py b/pygeode/tools.py
index c28d3b3..5704256 100644
--- a/pygeode/tools.py
+++ b/pygeode/tools.py
@@ -378,6 +378,19 @@ def npnansum (data, axes, keep_degenerate=False):
     if keep_degenerate: data = np.expand_dims(data,i)
   return data
 # }}}
+# First valid value along the given axes, where 'offset' isn't known (is nan) yet.
+# Accumulating sums of squares relative to one of the samples avoids the loss of
+# precision when the mean is large compared to the standard deviation.
+def npoffset (offset, data, axes):
+# {{{
+  import numpy as np
+  n = len(axes)
+  data = np.moveaxis(data, axes, list(range(data.ndim - n, data.ndim)))
+  data = data.reshape(data.shape[:data.ndim - n] + (-1,))
+  i = np.argmax(~np.isnan(data), axis=-1)
+  first = np.take_along_axis(data, i[..., np.newaxis], -1)[..., 0]
+  return np.where(np.isnan(offset), first, offset)
+# }}}
 def npmin (data, axes):
 # {{{
   import numpy as np
-- 
2.43.0


From 0bedd3c459ee4c09389cf4b0c0d171bc1a9e80a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:26 +0000
Subject: [PATCH 131/135] fix: variances of data with a mean much larger than
 their deviation lose their digits, or are negative

---
 pygeode/reduce.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pygeode/reduce.py b/pygeode/reduce.py
index e0211ef..cc7aa4e 100644
--- a/pygeode/reduce.py
+++ b/pygeode/reduce.py
@@ -376,14 +376,17 @@ class VarianceVar(ReducedVar):
   float_result = True
   def getview (self, view, pbar):
     import numpy as np
-    from pygeode.tools import loopover, npsum
+    from pygeode.tools import loopover, npsum, npoffset
     # The squares need a larger (and more precise) type than the data
     dtype = np.promote_types(self.dtype, 'float64')
+    x0 = np.full(view.shape, np.nan, dtype)
     x = np.zeros(view.shape, dtype)
     x2 = np.zeros(view.shape, dtype)
     N = self.N
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       indata = np.asarray(indata, dtype)
+      x0[outsl] = npoffset(x0[outsl], indata, self.indices)
+      indata = indata - np.expand_dims(x0[outsl], self.indices)
       x[outsl] += npsum(indata, self.indices)  
       x2[outsl] += npsum(indata**2, self.indices)  
 
@@ -408,13 +411,16 @@ class WeightedVarianceVar(ReducedVar):
   def getview (self, view, pbar):
   # {{{
     import numpy as np
-    from pygeode.tools import loopover, npsum
+    from pygeode.tools import loopover, npsum, npoffset
     dtype = np.promote_types(self.dtype, 'float64')
+    x0 = np.full(view.shape, np.nan, dtype)
     x = np.zeros(view.shape, dtype)
     x2 = np.zeros(view.shape, dtype)
     W = np.zeros(view.shape, dtype)
     for outsl, (indata, inw) in loopover([self.var, self.mweights], view, self.var.axes, pbar=pbar):
       indata = np.asarray(indata, dtype)
+      x0[outsl] = npoffset(x0[outsl], indata, self.indices)
+      indata = indata - np.expand_dims(x0[outsl], self.indices)
       x[outsl] += npsum(indata * inw, self.indices)  # Product of data and weights
       x2[outsl] += npsum(indata**2 * inw, self.indices)  # Product of data and weights
       f = indata.size / (inw.size * x[outsl].size)
@@ -430,8 +436,9 @@ class NANVarianceVar(ReducedVar):
   float_result = True
   def getview (self, view, pbar):
     import numpy as np
-    from pygeode.tools import loopover, npnansum
+    from pygeode.tools import loopover, npnansum, npoffset
     dtype = np.promote_types(self.dtype, 'float64')
+    x0 = np.full(view.shape, np.nan, dtype)
     x  = np.full(view.shape, np.nan, dtype)
     x2 = np.full(view.shape, np.nan, dtype)
     N  = np.full(view.shape, np.nan, dtype)
@@ -440,6 +447,8 @@ class NANVarianceVar(ReducedVar):
 
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       indata = np.asarray(indata, dtype)
+      x0[outsl] = npoffset(x0[outsl], indata, self.indices)
+      indata = indata - np.expand_dims(x0[outsl], self.indices)
       x[outsl] = np.nansum([x[outsl],\
                   npnansum(indata, self.indices)], 0)
       x2[outsl] = np.nansum([x2[outsl],\
-- 
2.43.0


From f5ab5842b17aff7e1380e5ec753cd551cf420530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:26 +0000
Subject: [PATCH 132/135] fix: climatological standard deviations and trends
 lose digits of data with a large mean

---
 pygeode/climat.py | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/pygeode/climat.py b/pygeode/climat.py
index ea82673..0eab0ec 100644
--- a/pygeode/climat.py
+++ b/pygeode/climat.py
@@ -59,6 +59,22 @@ def loopover(varlist, view, pbar):
     slices[ti] = slice(None)
     yield slices, data, climv.integer_indices[ti]
 
+# Data relative to the mean of the first values found for each bin ('offset', which
+# is nan where there is none yet).  Sums of squares of these don't lose their precision
+# when the mean is large compared to the standard deviation.
+def relative (data, slices, offset, ti, bins):
+  from pygeode.tools import partial_nan_sum
+  import numpy as np
+
+  slices = tuple(slices)
+  x0 = offset[slices]
+  sum = np.zeros(x0.shape, offset.dtype)
+  count = np.zeros(x0.shape, 'int32')
+  partial_nan_sum (data, [slice(None)]*data.ndim, sum, count, ti, bins)
+  x0 = np.where(np.isnan(x0) & (count > 0), sum / np.maximum(count, 1), x0)
+  offset[slices] = x0
+  return data - np.take(x0, bins, axis=ti)
+
 
 
 ###############################################################################
@@ -249,13 +265,14 @@ class Stdev(TimeOp):
 
     # The squares need more precision than the data may have
     dtype = np.promote_types(self.dtype, 'float64')
+    x0 = np.full (view.shape, np.nan, dtype)
     xx = np.zeros (view.shape, dtype)
     x = np.zeros (view.shape, dtype)
     nx = np.zeros (view.shape, dtype='int32')
     nx2 = np.zeros (view.shape, dtype='int32')
 
     for slices, [data], bins in loopover (self.var, view, pbar):
-      data = np.asarray(data, dtype)
+      data = relative (np.asarray(data, dtype), slices, x0, ti, bins)
       partial_sum (data, slices, x, nx, ti, bins)
       partial_sum (data**2, slices, xx, nx2, ti, bins)
 
@@ -278,13 +295,14 @@ class NANStdev(TimeOp):
 
     # The squares need more precision than the data may have
     dtype = np.promote_types(self.dtype, 'float64')
+    x0 = np.full (view.shape, np.nan, dtype)
     xx = np.zeros (view.shape, dtype)
     x = np.zeros (view.shape, dtype)
     nx = np.zeros (view.shape, dtype='int32')
     nx2 = np.zeros (view.shape, dtype='int32')
 
     for slices, [data], bins in loopover (self.var, view, pbar):
-      data = np.asarray(data, dtype)
+      data = relative (np.asarray(data, dtype), slices, x0, ti, bins)
       partial_nan_sum (data, slices, x, nx, ti, bins)
       partial_nan_sum (data**2, slices, xx, nx2, ti, bins)
 
@@ -346,17 +364,19 @@ class Trend(TimeOp):
 
     cview = view.remove(Coef)  # view without regard to a 'coefficient' axis
 
-    X = np.zeros(cview.shape, self.dtype)
+    # The products need more precision than the data may have
+    dtype = np.promote_types(self.dtype, 'float64')
+    X = np.zeros(cview.shape, dtype)
     nX = np.zeros(cview.shape, int)
-    F = np.zeros(cview.shape, self.dtype)
+    F = np.zeros(cview.shape, dtype)
     nF = np.zeros(cview.shape, int)
-    XF = np.zeros(cview.shape, self.dtype)
+    XF = np.zeros(cview.shape, dtype)
     nXF = np.zeros(cview.shape, int)
-    X2 = np.zeros(cview.shape, self.dtype)
+    X2 = np.zeros(cview.shape, dtype)
     nX2 = np.zeros(cview.shape, int)
 
-
     for slices, (data,t), bins in loopover ([self.var, secs], cview, pbar):
+      data = np.asarray(data, dtype)
       partial_sum (data,   slices, F,  nF,  ti, bins)
       partial_sum (t,      slices, X,  nX,  ti, bins)
       partial_sum (data*t, slices, XF, nXF, ti, bins)
@@ -375,7 +395,7 @@ class Trend(TimeOp):
     icoef = view.index(Coef)
     coef = view.integer_indices[icoef]
 
-    out = np.empty(view.shape, self.dtype)
+    out = np.empty(view.shape, dtype)
 
     #  Stick the two coefficients together into a single array
     out[...,np.where(coef==0)[0]] = B[...,None]
@@ -383,7 +403,7 @@ class Trend(TimeOp):
 
     out /= (X2 - X**2)[...,None]
 
-    return out
+    return out.astype(self.dtype)
 # }}}
 
 ###############################################################################
-- 
2.43.0


From 1894829c6a819ed64f4116ff936de7470225be88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:08 +0000
Subject: [PATCH 133/135] fix: stations whose names are not plain ASCII can't
 be saved or converted

---
 pygeode/formats/cfmeta.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index fe3a35b..06eff25 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -84,14 +84,16 @@ def encode_string_var (var):
   from pygeode.axis import DummyAxis
 
   # Construct a 2D character array to hold strings
-  strlen = max(len(string) for string in var.values)
+  # (decode_string_var expects UTF-8)
+  strings = [str(string).encode('utf-8') for string in var.values]
+  strlen = max(1, max(len(string) for string in strings))
   #TODO: make this a simple dimension (no coordinate values needed!)
   strlen_axis = DummyAxis (strlen, name=var.name+"_strlen")
   dtype = '|S'+str(strlen)  # For a convenient view on the character array
                                       # (to help popluate it from strings)
 
   data = np.zeros(list(var.shape)+[strlen], dtype='|S1')
-  data.view(dtype)[...,0] = var.values
+  data.view(dtype)[...,0] = strings
   var = Var(list(var.axes)+[strlen_axis], values=data, name=var.name+"_name")
   return var
 
-- 
2.43.0


From 9063a285e503072b975a49a9eeef8969ff713cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:17 +0000
Subject: [PATCH 134/135] fix: files with string attributes (as the netCDF4
 library writes them) can't be opened by the netcdf format

---
 pygeode/formats/netcdf.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index f1446f8..b57cd75 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -45,7 +45,7 @@ put_att_f = {1:lib.nc_put_att_schar, 2:lib.nc_put_att_text,
 # Read global/variable attributes, return a dictionary
 def get_attributes (fileid, varid):
 # {{{
-  from ctypes import create_string_buffer, c_int, c_long, byref
+  from ctypes import create_string_buffer, c_char_p, c_int, c_long, byref
   from pygeode.tools import point
   from numpy import empty
   natts = c_int()
@@ -80,6 +80,15 @@ def get_attributes (fileid, varid):
       ret = get_att_f[vtype.value](fileid, varid, name, valstr);
       assert ret == 0, lib.nc_strerror(ret)
       value = valstr.value.decode('utf-8')
+    # Strings of any length? (netCDF-4 only; memory belongs to the library)
+    elif vtype.value == 12:
+      valptr = (c_char_p * size.value)()
+      ret = lib.nc_get_att_string(fileid, varid, name, valptr)
+      assert ret == 0, lib.nc_strerror(ret)
+      value = [(s or b'').decode('utf-8') for s in valptr]
+      if len(value) == 1: value = value[0]
+      ret = lib.nc_free_string(size, valptr)
+      assert ret == 0, lib.nc_strerror(ret)
     else:
       valnp = empty([size.value], numpy_type[vtype.value])
       ret = get_att_f[vtype.value](fileid, varid, name, point(valnp))
-- 
2.43.0


From bf3568f58ef2f8e344f523f6eaabacd45d50f80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:26 +0000
Subject: [PATCH 135/135] fix: files, dimensions and variables with names that
 are not plain ASCII can't be used with the netcdf format

---
 pygeode/formats/netcdf.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index b57cd75..5a38bef 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -170,7 +170,7 @@ class NCFile:
   import ctypes  # import here, so we don't lose the ctypes module during cleanup
   def __init__ (self, filename):
     from ctypes import c_int
-    self.filename = filename.encode('ascii')
+    self.filename = filename.encode('utf-8')
     self.fileid = c_int(-1)
     self.lib = lib
   def __del__(self): 
@@ -457,10 +457,10 @@ def save (filename, in_dataset, version=3, pack=None, compress=False, cfmeta = T
 
   # Create the file
   if version == 3:
-    ret = lib.nc_create (filename.encode('ascii'), 0, byref(fileid))
+    ret = lib.nc_create (filename.encode('utf-8'), 0, byref(fileid))
     if ret != 0: raise IOError(lib.nc_strerror(ret))
   elif version == 4:
-    ret = lib.nc_create (filename.encode('ascii'), 0x1000, byref(fileid))  # 0x1000 = NC_NETCDF4
+    ret = lib.nc_create (filename.encode('utf-8'), 0x1000, byref(fileid))  # 0x1000 = NC_NETCDF4
     if ret != 0: raise IOError(lib.nc_strerror(ret))
   else: raise Exception
 
@@ -470,9 +470,9 @@ def save (filename, in_dataset, version=3, pack=None, compress=False, cfmeta = T
     for i,a in enumerate(axes):
       dimids[i] = c_int()
       if unlimited == a.name:
-        ret = lib.nc_def_dim (fileid, a.name.encode('ascii'), c_long(0), byref(dimids[i]))
+        ret = lib.nc_def_dim (fileid, a.name.encode('utf-8'), c_long(0), byref(dimids[i]))
       else:
-        ret = lib.nc_def_dim (fileid, a.name.encode('ascii'), c_long(len(a)), byref(dimids[i]))
+        ret = lib.nc_def_dim (fileid, a.name.encode('utf-8'), c_long(len(a)), byref(dimids[i]))
       assert ret == 0, lib.nc_strerror(ret)
 
     # Define the variables (including axes)
@@ -485,7 +485,7 @@ def save (filename, in_dataset, version=3, pack=None, compress=False, cfmeta = T
       # Make it C-compatible
       d = (c_int * var.naxes)(*d)
       varids[i] = c_int()
-      ret = lib.nc_def_var (fileid, var.name.encode('ascii'), t, var.naxes, d, byref(varids[i]))
+      ret = lib.nc_def_var (fileid, var.name.encode('utf-8'), t, var.naxes, d, byref(varids[i]))
       assert ret == 0, lib.nc_strerror(ret)
       # Compress the data? (only works for netcdf4 or (higher?))
       if compress and var.naxes > 0:
-- 
2.43.0

