From 3a61af95745557fb942696584ccc0cb11324674f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 001/128] fix: build_ext -j could link an object file that
 another extension was rewriting

---
 setup.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/setup.py b/setup.py
index cee1a59..d52a464 100755
--- a/setup.py
+++ b/setup.py
@@ -6,6 +6,7 @@ import os
 import sys
 import xboa
 from distutils.core import setup, Extension
+from distutils.command.build_ext import build_ext
 
 prefix = os.path.join('/', sys.prefix, 'share' ,'xboa')
 dfiles = [(prefix+'/doc/',  ['README']),
@@ -53,6 +54,15 @@ bunchcore_mod = Extension(
     include_dirs = ['xboa/core'],
 )
 
+class serial_build_ext(build_ext):
+    """
+    The extensions share sources and hence object files, so a parallel build
+    (build_ext -j) can link an object file that another extension is rewriting
+    """
+    def finalize_options(self):
+        build_ext.finalize_options(self)
+        self.parallel = None
+
 setup(name='xboa',
       version=xboa.__version__,
       description='Cross-Platform Beam Optics Analysis - A multiparticle tracking postprocessor library for accelerator physicists',
@@ -76,6 +86,7 @@ setup(name='xboa',
                 'xboa.examples',
                 'xboa.test',
       ],
+      cmdclass={'build_ext':serial_build_ext},
       ext_modules = [hitcore_mod, bunchcore_mod, weight_context_mod],
       scripts=['xboa/examples/XBOA9f',
                'xboa/tracking/tracking_process/xboa_tracking_process.py'],
-- 
2.43.0


From 41f2f72a3cd80f7d0ce3d9f019a8fe23a10b57cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 002/128] fix: Hitcore.set stored -1 when the value could not
 be converted

---
 xboa/core/pylib/PyHitcore.cc | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/xboa/core/pylib/PyHitcore.cc b/xboa/core/pylib/PyHitcore.cc
index 542ebe4..23278a6 100644
--- a/xboa/core/pylib/PyHitcore.cc
+++ b/xboa/core/pylib/PyHitcore.cc
@@ -19,6 +19,7 @@
 #include <structmember.h>
 
 #include <iostream>
+#include <limits>
 #include <string>
 
 #include <string.h>
@@ -101,12 +102,25 @@ PyObject* set(PyObject* self, PyObject *args, PyObject *kwds) {
 
     std::string variable_name(variable_name_c_str);
     double value_dbl = PyFloat_AsDouble(py_value);
+    if (PyErr_Occurred())
+        return NULL; // not a number; leave the hit unchanged
     if (hc->hitcore_->set_double(variable_name, value_dbl))
         Py_RETURN_NONE; // success, return None
 
-    int value_int = PyLong_AsLong(py_value);
-    if (hc->hitcore_->set_int(variable_name, value_int))
-        Py_RETURN_NONE; // success, return None
+    int current_int = 0;
+    if (hc->hitcore_->get_int(variable_name, &current_int)) {
+        long value_long = PyLong_AsLong(py_value);
+        if (PyErr_Occurred())
+            return NULL; // not an integer; leave the hit unchanged
+        if (value_long < std::numeric_limits<int>::min() ||
+            value_long > std::numeric_limits<int>::max()) {
+            PyErr_SetString(PyExc_OverflowError,
+                            "Value out of range in Hitcore.set");
+            return NULL;
+        }
+        if (hc->hitcore_->set_int(variable_name, int(value_long)))
+            Py_RETURN_NONE; // success, return None
+    }
 
     PyErr_SetString(PyExc_KeyError, "Did not recognise variable in Hitcore.get");
     return NULL;
-- 
2.43.0


From cef09154bad99e4c3ce18a997d5579232f5cce85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 003/128] fix: setting t' or p on a hit changed it even when
 the value was refused

---
 xboa/hit/_hit.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 1c17067..63dfa66 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -627,8 +627,9 @@ class Hit(object):
     """Set p to value_float keeping momentum direction constant"""
     p = self.get_p()
     if(p == 0):
-      self.set('pz', 1.)
-    scale = value_float/self.get_p()
+      self.set('pz', value_float)
+      return
+    scale = value_float/p
     self['px'] *= scale
     self['py'] *= scale
     self['pz'] *= scale
@@ -646,11 +647,11 @@ class Hit(object):
   def set_tP  (self, value_float): 
     """Set t\' (dt/dz=-E/pz) to value_float keeping pz constant; note sign of pz may change"""
     if(math.fabs(self['pz']) < 1e-9): raise FloatingPointError('Cant set t\' while pz is 0')
-    self['energy'] = -value_float*self['pz']
-    if self['pz'] < 0.: 
-      self['energy'] *= -1.
-      self['pz']     *= -1.
-    if self['energy'] < self.get('mass'): raise FloatingPointError('Energy less than muon mass')
+    pz = math.fabs(self['pz'])
+    energy = -value_float*pz
+    if energy < self.get('mass'): raise FloatingPointError('Energy less than muon mass')
+    self['energy'] = energy
+    self['pz']     = pz
   
   def get_weight(self):
     """Returns total weight for this Hit"""
-- 
2.43.0


From 69c970e0856d6a02dcfa17344277f851693f2b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 004/128] fix: mass_shell_condition('p') stored a complex or
 raised when E < m

---
 xboa/hit/_hit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 63dfa66..bce894b 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -303,7 +303,11 @@ class Hit(object):
     e  = self.get('energy')
     m  = self.get('mass')
     if(variable_string == 'p'):
-      self.set('p',  ( (e-m)*(e+m) )**0.5 )
+      val = (e-m)*(e+m)
+      if val < 0.:
+        self.set('p', 0.)
+        return False
+      self.set('p',  val**0.5 )
     elif(variable_string == 'px'):#get direction right!
       val = (e*e-m*m-py*py-pz*pz)
       if val>float_tolerance:
-- 
2.43.0


From 390d1351adfcc746d1eeabcf0c8a2315dfc10722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:16 +0000
Subject: [PATCH 005/128] fix: deleting or assigning by negative or slice index
 left bunch statistics on other hits

---
 xboa/bunch/_bunch.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 7cef33f..df19874 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -122,13 +122,28 @@ class Bunch:
   
   def __setitem__(self, key, value):
     """Called by subscript operator, sets the key^th hit in the bunch"""
-    self.__hits[key] = value
-    self.__bunchcore.set_item(value._Hit__hitcore, key)
+    if isinstance(key, slice):
+      hits = list(self.__hits)
+      hits[key] = value
+      self.__set_hits(hits)
+    else:
+      index = range(len(self.__hits))[key]
+      self.__bunchcore.set_item(value._Hit__hitcore, index)
+      self.__hits[index] = value
 
   def __delitem__(self, key):
     """Called by remove method, deletes the key^th hit in the bunch"""
-    self.__hits.__delitem__(key)
-    self.__bunchcore.__delitem__(key)
+    hits = list(self.__hits)
+    del hits[key]
+    self.__set_hits(hits)
+
+  def __set_hits(self, hits):
+    """Replace the hits, keeping the list and the bunchcore consistent"""
+    bunchcore = Bunchcore()
+    for i, hit in enumerate(hits):
+      bunchcore.set_item(hit._Hit__hitcore, i)
+    self.__hits[:] = hits
+    self.__bunchcore = bunchcore
 
   def __del__(self):
     """Called by del"""
@@ -635,10 +650,8 @@ class Bunch:
       for i in range ( len(hit_value_list) ):
         if not comparator(hit_value_list[i], cut_value): 
           new_hits.append(self.__hits[i])
-      self.__hits = new_hits
-      self.__bunchcore = Bunchcore()
-      for i, value in enumerate(new_hits):
-        self.__bunchcore.set_item(value._Hit__hitcore, i)
+      self.__hits = []
+      self.__set_hits(new_hits)
 
 
   def standard_deviation(self, variable, variable_mean={}):
-- 
2.43.0


From f5a5ce06b73891c35261215d875c7ad1bd95cd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:16 +0000
Subject: [PATCH 006/128] fix: stored covariance matrices could not be set,
 tested, printed, copied or refreshed

---
 xboa/bunch/_bunch.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index df19874..9f6b0f4 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -84,8 +84,8 @@ class Bunch:
   def __repr__(self):
     """Return a long string that contains data in every hit"""
     covs = 'None'
-    if self.__covs != None:
-      covs = 'numpy.'+repr(self.__covs)
+    if self.__covs is not None:
+      covs = 'numpy.matrix('+repr(matrix(self.__covs).tolist())+')'
     out = 'Bunch.new_from_hits( ['
     for hit in self.__hits:
       out += str(hit)+',\n'
@@ -102,10 +102,7 @@ class Bunch:
 
   def __deepcopy__(self, target):
     """Make a copy and copy self's data"""
-    target = eval(self.__repr__())
-    target.__covs  = copy.deepcopy(self.__covs)
-    target.__means = copy.deepcopy(self.__means)
-    return target
+    return Bunch.new_from_hits(self.__hits, copy.deepcopy(self.__covs), copy.deepcopy(self.__means))
   
   def deepcopy(self):
     """Make a copy and copy self's data"""
@@ -694,7 +691,7 @@ class Bunch:
     """
     bunch_weight = self.bunch_weight()
     if abs(bunch_weight) < 1e-9: raise ZeroDivisionError('Trying to find moment of bunch with 0 weight')
-    if self.__covs != None and len(variable_list) == 2:
+    if self.__covs is not None and len(variable_list) == 2:
       axis_list = Bunch.axis_list_to_covariance_list(Bunch.__axis_list)
       try:
         i1 = axis_list.index(variable_list[0])
@@ -783,7 +780,9 @@ class Bunch:
     As a speed optimisation, x-boa can calculate a covariance matrix and use this for all calculations involving covariances, i.e. Twiss parameters, emittances, amplitudes etc. Otherwise x-boa will re-calculate this each time, which can be slow. Be careful though - x-boa does not automatically detect for hits being added or removed from the bunch, etc. The user must call this function each time the bunch changes (events added, weightings changed, etc) to update the internal covariance matrix
     """
     if use_internal_covariance_matrix:
-      if covariance_matrix == None:
+      self.__means = {}
+      if covariance_matrix is None:
+        self.__covs = None # recalculate, rather than return the old matrix
         self.__covs = self.covariance_matrix(Bunch.axis_list_to_covariance_list(Bunch.__axis_list))
       else: self.__covs = covariance_matrix
       if mean_dict == {}:
@@ -795,7 +794,7 @@ class Bunch:
 
   def covariances_set(self):
     """If internal covariances are set by set_covariance_matrix, return True; else return False"""
-    return self.__covs != None
+    return self.__covs is not None
 
 
   def means_set(self):
@@ -1038,9 +1037,9 @@ class Bunch:
         coupled_axis_list2.append(ax) #build sorted list of coupled variables
     cov_var_list  = Bunch.axis_list_to_covariance_list(coupled_axis_list2)
     my_cov    = copy.deepcopy(covariance_matrix)
-    if my_cov == None:
+    if my_cov is None:
       my_cov = self.__cov_mat_picker(coupled_axis_list2)
-      if my_cov == None: 
+      if my_cov is None: 
         my_cov = self.covariance_matrix(cov_var_list)
     (evalues, ematrix) = numpy.linalg.eig(my_cov)
     ematrix = matrix(ematrix)
@@ -1893,7 +1892,7 @@ class Bunch:
 
   def __cov_mat_picker(self, axis_list):
     config.has_numpy()
-    if self.__covs == None: return None
+    if self.__covs is None: return None
     covs      = numpy.zeros( (2*len(axis_list),2*len(axis_list) ))
     ind = []
     for axis in axis_list:
-- 
2.43.0


From e15034c10dcf45b29d3ffaef8924f356d89e1a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:16 +0000
Subject: [PATCH 007/128] fix: bunches with a stored covariance matrix compared
 equal whatever their hits

---
 xboa/bunch/_bunch.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 9f6b0f4..409d156 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -152,16 +152,13 @@ class Bunch:
     """Return true if all hits in self are the same as all hits in target, and set_covariance_matrix data are the same"""
     if type(target)      != type(self):          return False
     if len(self.__hits)  != len(target.__hits):  return False
+    if self.__means.keys() != target.__means.keys():                   return False
     for key,value in self.__means.items():
-      if not key in target.__means:                                      return False
       if abs(self.__means[key] - target.__means[key]) > float_tolerance: return False
-    try:
-      if not all(self.__covs == target.__covs): return False
-    except:
-      try:
-        if self.__covs != target.__covs: return False 
-      except:
-        return True
+    if (self.__covs is None) != (target.__covs is None): return False
+    if self.__covs is not None:
+      if numpy.shape(self.__covs) != numpy.shape(target.__covs): return False
+      if not numpy.all(numpy.array(self.__covs) == numpy.array(target.__covs)): return False
     for index in range(len(self.__hits)):
       if self.__hits[index].__ne__( target.__hits[index], float_tolerance): return False
     return True
-- 
2.43.0


From f6a2d439722458a0963272de3d17f2cbedf92bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 008/128] fix: moments took the mean of variables left out of
 the mean dict as 0, and stored covariances ignored it

---
 xboa/bunch/_bunch.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 409d156..7d6593a 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -688,16 +688,20 @@ class Bunch:
     """
     bunch_weight = self.bunch_weight()
     if abs(bunch_weight) < 1e-9: raise ZeroDivisionError('Trying to find moment of bunch with 0 weight')
+    variable_mean_dict = dict(variable_mean_dict)
+    for var in variable_list:
+      if not var in variable_mean_dict:
+        variable_mean_dict[var] = self.mean([var])[var]
     if self.__covs is not None and len(variable_list) == 2:
       axis_list = Bunch.axis_list_to_covariance_list(Bunch.__axis_list)
       try:
         i1 = axis_list.index(variable_list[0])
         i2 = axis_list.index(variable_list[1])
-        return float(self.__covs[i1,i2]) # not numpy.float64
+        # stored covariances are about the bunch mean
+        offsets = [self.mean([var])[var] - variable_mean_dict[var] for var in variable_list]
+        return float(self.__covs[i1,i2]) + offsets[0]*offsets[1] # not numpy.float64
       except ValueError:
         pass
-    if variable_mean_dict == {}:
-      variable_mean_dict = self.mean(variable_list)
     try:
       moment = self.__bunchcore.moment(variable_list, variable_mean_dict)
       return moment
-- 
2.43.0


From 1f8593c852909814d493db9b3ca1053c46bbda54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 009/128] fix: the geometric argument of optics queries was
 ignored by the emittance, amplitude and stored covariances

---
 xboa/bunch/_bunch.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 7d6593a..df7f56c 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -75,6 +75,7 @@ class Bunch:
     self.__hits    = []
     self.__bunchcore = Bunchcore()
     self.__covs    = None
+    self.__covs_geometric = Bunch.__geometric_momentum
     self.__means   = {}
 
   def __str__(self):
@@ -102,7 +103,9 @@ class Bunch:
 
   def __deepcopy__(self, target):
     """Make a copy and copy self's data"""
-    return Bunch.new_from_hits(self.__hits, copy.deepcopy(self.__covs), copy.deepcopy(self.__means))
+    bunch = Bunch.new_from_hits(self.__hits, copy.deepcopy(self.__covs), copy.deepcopy(self.__means))
+    bunch.__covs_geometric = self.__covs_geometric
+    return bunch
   
   def deepcopy(self):
     """Make a copy and copy self's data"""
@@ -693,7 +696,7 @@ class Bunch:
       if not var in variable_mean_dict:
         variable_mean_dict[var] = self.mean([var])[var]
     if self.__covs is not None and len(variable_list) == 2:
-      axis_list = Bunch.axis_list_to_covariance_list(Bunch.__axis_list)
+      axis_list = Bunch.axis_list_to_covariance_list(Bunch.__axis_list, self.__covs_geometric)
       try:
         i1 = axis_list.index(variable_list[0])
         i2 = axis_list.index(variable_list[1])
@@ -781,6 +784,7 @@ class Bunch:
     As a speed optimisation, x-boa can calculate a covariance matrix and use this for all calculations involving covariances, i.e. Twiss parameters, emittances, amplitudes etc. Otherwise x-boa will re-calculate this each time, which can be slow. Be careful though - x-boa does not automatically detect for hits being added or removed from the bunch, etc. The user must call this function each time the bunch changes (events added, weightings changed, etc) to update the internal covariance matrix
     """
     if use_internal_covariance_matrix:
+      self.__covs_geometric = Bunch.__geometric_momentum
       self.__means = {}
       if covariance_matrix is None:
         self.__covs = None # recalculate, rather than return the old matrix
@@ -942,7 +946,7 @@ class Bunch:
     """
     if geometric == None: geometric = Bunch.__geometric_momentum
     gamma     = 0.0
-    emittance = self.get_emittance(axis_list)
+    emittance = self.get_emittance(axis_list, None, geometric)
     for axis in axis_list:
       mom    = self.momentum_variable(axis, geometric)
       gamma += self.moment([mom,mom], self.mean([mom]))
@@ -970,7 +974,7 @@ class Bunch:
     """
     if geometric == None: geometric = Bunch.__geometric_momentum
     alpha     = 0.0
-    emittance = self.get_emittance(axis_list)
+    emittance = self.get_emittance(axis_list, None, geometric)
     for axis in axis_list:
       mom    = self.momentum_variable(axis, geometric)
       alpha += self.moment([axis,mom], self.mean([axis, mom]))
@@ -1021,6 +1025,7 @@ class Bunch:
     ~~~~~~~~~~~~~~~
     would return the dispersion in the y-direction
     """
+    if geometric is None: geometric = Bunch.__geometric_momentum
     mom = Bunch.momentum_variable(axis, geometric)
     return self.moment([mom,'energy'])*self.mean(['energy'])['energy']/self.moment(['energy','energy'])
 
@@ -1117,14 +1122,14 @@ class Bunch:
     and |V| is the determinant.
     """
     if geometric is None: geometric = Bunch.__geometric_momentum
-    cov_list  = Bunch.axis_list_to_covariance_list(axis_list)
+    cov_list  = Bunch.axis_list_to_covariance_list(axis_list, geometric)
     my_cov    = copy.deepcopy(covariance_matrix)
     if my_cov is None:
-      my_cov = self.__cov_mat_picker(axis_list)
+      my_cov = self.__cov_mat_picker(axis_list, geometric)
       if my_cov is None: 
         my_cov = self.covariance_matrix(cov_list)
     emittance = linalg.det(my_cov)**(1./len(cov_list))
-    if not Bunch.__geometric_momentum:
+    if not geometric:
       emittance /= self.__hits[0].get('mass')
     return float(emittance)
   
@@ -1201,17 +1206,17 @@ class Bunch:
     if geometric == None: geometric = Bunch.__geometric_momentum
     cov_list  = Bunch.axis_list_to_covariance_list(axis_list, geometric)
     if mean_dict == {}:   
-      mean_dict = bunch.__mean_picker(axis_list)
+      mean_dict = bunch.__mean_picker(axis_list, geometric)
       if mean_dict == {}:
         mean_dict = bunch.mean(cov_list)
     my_vector = hit.get_vector(cov_list, mean_dict)
     my_cov    = copy.deepcopy( covariance_matrix )
     if my_cov is None:
-      my_cov = bunch.__cov_mat_picker(axis_list)
+      my_cov = bunch.__cov_mat_picker(axis_list, geometric)
       if my_cov is None:
         my_cov = bunch.covariance_matrix(cov_list)
     my_amp = my_vector*linalg.inv(my_cov)*my_vector.T
-    return float(my_amp[0,0])*bunch.get_emittance(axis_list, my_cov)
+    return float(my_amp[0,0])*bunch.get_emittance(axis_list, my_cov, geometric)
   get_amplitude = staticmethod(get_amplitude)
 
   def axis_list_to_covariance_list(axis_list, geometric=None):
@@ -1891,9 +1896,11 @@ class Bunch:
   def __dispersion_prime_for_get(self, variable_list):
     return self.get_dispersion_prime(variable_list[0])
 
-  def __cov_mat_picker(self, axis_list):
+  def __cov_mat_picker(self, axis_list, geometric=None):
     config.has_numpy()
     if self.__covs is None: return None
+    if geometric is None: geometric = Bunch.__geometric_momentum
+    if geometric != self.__covs_geometric: return None # stored for the other momentum variables
     covs      = numpy.zeros( (2*len(axis_list),2*len(axis_list) ))
     ind = []
     for axis in axis_list:
@@ -1906,10 +1913,10 @@ class Bunch:
         covs[2*i,  2*j+1] = self.__covs[2*ind[i],   2*ind[j]+1]
     return covs
 
-  def __mean_picker(self, var_list):
+  def __mean_picker(self, var_list, geometric=None):
     if self.__means == None or self.__means == {}: return {}
     means = {}
-    all_list = Bunch.axis_list_to_covariance_list(var_list)
+    all_list = Bunch.axis_list_to_covariance_list(var_list, geometric)
     try:
       for var in all_list: means[var] = self.__means[var]
     except:
-- 
2.43.0


From 433c3877bd36602fc1c5537cbe3ec6a46d4fb845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 010/128] fix: conditional_remove cut on the square root of the
 standard deviation

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index df7f56c..fac74a8 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -639,7 +639,7 @@ class Bunch:
     """
     for variable, cut_value in variable_value_dict.items():
       if(value_is_nsigma_bool):
-        cut_value *= self.standard_deviation(variable, self.mean([variable]))**0.5
+        cut_value *= self.standard_deviation(variable, self.mean([variable]))
       # optimisation for amplitude cut: calculate covariance matrix first
       # optimisation for gt/lt: sort the hit_value_list first then cut
       hit_value_list = self.list_get_hit_variable([variable])[0]
-- 
2.43.0


From d0abcd915851e4b9c28ba8cff952ebddfc83a851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 011/128] fix: comparators given to hit_write_user and graphs
 raised TypeError

---
 xboa/bunch/_bunch.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index fac74a8..749cc48 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -18,6 +18,7 @@
 import glob
 import string
 import copy
+import functools
 import gzip
 import io
 import operator
@@ -1421,9 +1422,10 @@ class Bunch:
     0.003@0.004@0.003@0.004 
     in some_file
     """
+    hits = self.__hits
     if not comparator==None:
-      self.__hits.sort(comparator)
-    for hit in self.__hits:
+      hits = sorted(hits, key=functools.cmp_to_key(comparator))
+    for hit in hits:
       hit.write_user_formatted(format_list, format_units_dict, file_handle, separator)
 
   def build_ellipse_2d(beta, alpha, emittance, p, mass, geometric):
@@ -1740,7 +1742,7 @@ class Bunch:
     try:    list_of_bunches = list(bunches.values())
     except: list_of_bunches = bunches
     if comparator != None:
-      list_of_bunches.sort(comparator)
+      list_of_bunches = sorted(list_of_bunches, key=functools.cmp_to_key(comparator))
     for i, bunch in enumerate(list_of_bunches):
       try:
           x_points.append(bunch.get(x_axis_string, x_axis_list)/Common.units[x_axis_units])
@@ -1863,7 +1865,7 @@ class Bunch:
     try:    list_of_bunches = list(bunches.values())
     except: list_of_bunches = bunches
     if comparator != None:
-      list_of_bunches.sort(comparator)
+      list_of_bunches = sorted(list_of_bunches, key=functools.cmp_to_key(comparator))
     for bunch in list_of_bunches:
       x_points.append(bunch.get(x_axis_string, x_axis_list)/Common.units[x_axis_units])
       y_points.append(bunch.get(y_axis_string, y_axis_list)/Common.units[y_axis_units])
-- 
2.43.0


From 7679ba4646a0c822cf85c804940bacf40b4f7f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 012/128] fix: hit_write_builtin_from_dict dropped the user
 comment

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 749cc48..2d0f93f 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1404,7 +1404,7 @@ class Bunch:
     all_hits = []
     for key,value in dict_of_bunches.items():
       all_hits += value.hits()
-    Hit.write_list_builtin_formatted(all_hits, file_type_string, file_name)
+    Hit.write_list_builtin_formatted(all_hits, file_type_string, file_name, user_comment)
   hit_write_builtin_from_dict = staticmethod(hit_write_builtin_from_dict)
   
   def hit_write_user(self, format_list, format_units_dict, file_handle, separator=' ', comparator=None):
-- 
2.43.0


From 592a58239db9ea7791fd2b6f2e1049a8283b1394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 013/128] fix: automatic binning of a two dimensional bunch
 histogram divided by zero

---
 xboa/bunch/_bunch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 2d0f93f..e1d0d0d 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1550,10 +1550,10 @@ class Bunch:
     if ymin!=None: ymin*=Common.units[y_axis_units]
     if ymax!=None: ymax*=Common.units[y_axis_units]
     if y_axis_string=='': 
-      (nx_bins, ny_bins, dummy) = Common.n_bins(len(x_points), nx_bins, 1)
+      (nx_bins, ny_bins, dummy) = Common.n_bins(len(x_points), nx_bins, n_dimensions=1)
     else:
       y_points                  = self.list_get_hit_variable([y_axis_string], [y_axis_units])[0]
-      (nx_bins, ny_bins, dummy) = Common.n_bins(len(y_points), nx_bins, ny_bins, 2)
+      (nx_bins, ny_bins, dummy) = Common.n_bins(len(y_points), nx_bins, ny_bins, n_dimensions=2)
       y_bins                    = Common.get_bin_edges(y_points, ny_bins, ymin, ymax)
     x_bins = Common.get_bin_edges(x_points, nx_bins, xmin, xmax)
     return self.histogram_var_bins(x_axis_string, x_bins, x_axis_units, y_axis_string, y_bins, y_axis_units)
-- 
2.43.0


From d4dcdf7da882b44861ecf52766da22984a48bdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 014/128] fix: histograms lost the weight of the largest value
 from their automatic bins

---
 xboa/common/_common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index fd20185..4480317 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -343,6 +343,8 @@ def histogram(x_values, x_bins, y_values=None, y_bins=None, weights=None):
   for i,x in enumerate(x_values):
     p = bisect.bisect_right(x_bins,x_values[i])-1
     q = bisect.bisect_right(y_bins,y_values[i])-1
+    if x == x_bins[-1]: p = len(x_bins)-2 # last bin includes its upper edge
+    if y_values[i] == y_bins[-1]: q = len(y_bins)-2
     if p>=0 and p<len(x_bins)-1 and q>=0 and q<len(y_bins)-1:
       contents[p,q] += weights[i]
   out = (contents, x_bins, y_bins)
@@ -363,8 +365,9 @@ def get_bin_edges(list_of_variables, number_of_bins, xmin=None, xmax=None):
   if xmin!=None: mm[0]=xmin
   if xmax!=None: mm[1]=xmax
   delta   = (mm[1] - mm[0])/float(number_of_bins)
-  for i in range(number_of_bins+1):
+  for i in range(number_of_bins):
     my_bins.append(mm[0]+delta*i)
+  my_bins.append(mm[1]) # mm[0]+delta*number_of_bins can round to below mm[1]
   return my_bins
 
 def make_root_canvas(name_string, title_string=None, bg_color=rg.canvas_fill_color, highlight_color=rg.canvas_highlight_color, 
-- 
2.43.0


From 159f5ef7874a98d5d5c14ab6f7053ef0ee175719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:29 +0000
Subject: [PATCH 015/128] fix: copying a hit gave its global weight to the
 particle with spill, event and particle number 0

---
 xboa/hit/_hit.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index bce894b..a4c2dc4 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -145,8 +145,7 @@ class Hit(object):
     e.g. myHit = Hit.new_from_dict({'x':5, 'y':0, 'z':100, 'px':0, 'py':5, 'pz':200, 'pid':-13}, 'energy' )
     """
     my_hit = Hit()
-    for k,v in set_dict.items():
-      my_hit.set(k, v)
+    my_hit.__set_from_dict(set_dict)
     if(mass_shell_string != ''):
       my_hit.mass_shell_condition(mass_shell_string)
     return my_hit
@@ -715,8 +714,15 @@ class Hit(object):
     Sets self to be equal to new_from_dict(state)
     """
     self.__init__()
-    for k,v in state.items():
-      self.set(k, v)
+    self.__set_from_dict(state)
+
+  def __set_from_dict(self, set_dict):
+    """Set values from a dict; the global weight goes last as it belongs to the particle with the spill, event and particle number in the dict"""
+    for k,v in set_dict.items():
+      if k != 'global_weight':
+        self.set(k, v)
+    if 'global_weight' in set_dict:
+      self.set('global_weight', set_dict['global_weight'])
 
   #write formatted output - don't touch mass or pid beyond reading them
   def __write_formatted(self, format_list, format_units_dict, file_handle, separator=' '):
-- 
2.43.0


From 9e54b8d2eb023a02433a0a0923dab2f467df39bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:29 +0000
Subject: [PATCH 016/128] fix: min_max appended to the list given to it when
 the weights had another length

---
 xboa/common/_common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 4480317..9541b6d 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -264,9 +264,9 @@ def min_max(x_float_list, weight_list=[], margin = 0.1, xmin=None, xmax=None):
   new_floats = x_float_list
   if len(weight_list) == len(x_float_list):
     new_floats =  []
-  for ind in range(len(weight_list)):
-    if weight_list[ind] > 1e-6:
-      new_floats.append(x_float_list[ind]) 
+    for ind in range(len(weight_list)):
+      if weight_list[ind] > 1e-6:
+        new_floats.append(x_float_list[ind]) 
   if len(new_floats) == 0: x = [0.,0.]
   else:                      x = [min(new_floats), max(new_floats)]
   delta = (x[1]-x[0])*margin
-- 
2.43.0


From 65c877db05d2955daaf6df0d2f68a769fb54fc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 017/128] fix: hits swapped event and particle number in their
 global weight identifier

---
 xboa/core/cpplib/Hitcore.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/core/cpplib/Hitcore.hh b/xboa/core/cpplib/Hitcore.hh
index 2f86092..9a60e16 100644
--- a/xboa/core/cpplib/Hitcore.hh
+++ b/xboa/core/cpplib/Hitcore.hh
@@ -436,12 +436,12 @@ Hitcore::get_dbl_function Hitcore::get_double_function(std::string key) {
 }
 
 void Hitcore::set_global_weight(double global_weight) {
-    WeightContext::HitId hitid(spill_, particle_, event_);
+    WeightContext::HitId hitid(spill_, event_, particle_);
     weightContext->setWeight(hitid, global_weight);
 }
 
 double Hitcore::global_weight() {
-    WeightContext::HitId hitid(spill_, particle_, event_);
+    WeightContext::HitId hitid(spill_, event_, particle_);
     double wt = weightContext->getWeight(hitid);
     return wt;
 }
-- 
2.43.0


From e370e782a7f3c372609cce6e781b54171398cfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 018/128] fix: set_weight_context did not change the weights
 used by Bunchcore

---
 xboa/core/cpplib/Hitcore.cc    |  4 ++--
 xboa/core/cpplib/Hitcore.hh    |  6 +++---
 xboa/core/pylib/PyBunchcore.cc | 12 ++++++------
 xboa/core/pylib/PyHitcore.cc   |  7 +++++--
 4 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/xboa/core/cpplib/Hitcore.cc b/xboa/core/cpplib/Hitcore.cc
index 1aa2482..ef01c0b 100644
--- a/xboa/core/cpplib/Hitcore.cc
+++ b/xboa/core/cpplib/Hitcore.cc
@@ -25,11 +25,11 @@ std::map<std::string, Hitcore::get_int_function> Hitcore::get_int_map;
 std::map<std::string, Hitcore::get_dbl_function> Hitcore::get_dbl_map;
 std::map<std::string, Hitcore::set_int_function> Hitcore::set_int_map;
 std::map<std::string, Hitcore::set_dbl_function> Hitcore::set_dbl_map;
-SmartPointer<WeightContext>& Hitcore::weightContext = *(new SmartPointer<WeightContext>());
+SmartPointer<WeightContext>* Hitcore::weightContext = new SmartPointer<WeightContext>();
 
 
 void Hitcore::clear_global_weights() {
-    weightContext->clearWeights();
+    (*weightContext)->clearWeights();
 }
 
 Hitcore::Hitcore()
diff --git a/xboa/core/cpplib/Hitcore.hh b/xboa/core/cpplib/Hitcore.hh
index 9a60e16..e01dc4a 100644
--- a/xboa/core/cpplib/Hitcore.hh
+++ b/xboa/core/cpplib/Hitcore.hh
@@ -335,7 +335,7 @@ class Hitcore {
     /** Print the global weights map */
     static void print_global_weights(std::ostream& out);
 
-    static SmartPointer<WeightContext>& weightContext;
+    static SmartPointer<WeightContext>* weightContext;
 
   private:
     double x_;
@@ -437,12 +437,12 @@ Hitcore::get_dbl_function Hitcore::get_double_function(std::string key) {
 
 void Hitcore::set_global_weight(double global_weight) {
     WeightContext::HitId hitid(spill_, event_, particle_);
-    weightContext->setWeight(hitid, global_weight);
+    (*weightContext)->setWeight(hitid, global_weight);
 }
 
 double Hitcore::global_weight() {
     WeightContext::HitId hitid(spill_, event_, particle_);
-    double wt = weightContext->getWeight(hitid);
+    double wt = (*weightContext)->getWeight(hitid);
     return wt;
 }
 
diff --git a/xboa/core/pylib/PyBunchcore.cc b/xboa/core/pylib/PyBunchcore.cc
index ceba265..1c83d6d 100644
--- a/xboa/core/pylib/PyBunchcore.cc
+++ b/xboa/core/pylib/PyBunchcore.cc
@@ -528,12 +528,12 @@ static struct PyModuleDef bunchcoredef = {
 
 void setWeightContext() {
     PyObject* hc_module = PyImport_ImportModule("xboa.core._hitcore");
-    PyObject* hc_class = PyObject_GetAttrString(hc_module, "Hitcore");
-    PyObject* get_context = PyObject_GetAttrString(hc_class, "get_weight_context");
-    PyObject* empty_tuple = PyTuple_New(0);
-    PyObject* pyobj_wc = PyObject_CallObject(get_context, empty_tuple);
-    PyWeightContext::PyWeightContext* pywc = reinterpret_cast<PyWeightContext::PyWeightContext*>(pyobj_wc);
-    Hitcore::weightContext = pywc->cppcontext_;
+    // use the very same pointer as _hitcore, so that set_weight_context changes
+    // the weights seen from here
+    PyObject* wtc_c_api = PyDict_GetItemString(PyModule_GetDict(hc_module),
+                                               "C_API_WEIGHT_CONTEXT");
+    Hitcore::weightContext = reinterpret_cast<SmartPointer<WeightContext>*>
+                                         (PyCapsule_GetPointer(wtc_c_api, NULL));
 }
 
 
diff --git a/xboa/core/pylib/PyHitcore.cc b/xboa/core/pylib/PyHitcore.cc
index 23278a6..00b3539 100644
--- a/xboa/core/pylib/PyHitcore.cc
+++ b/xboa/core/pylib/PyHitcore.cc
@@ -181,7 +181,7 @@ PyObject* setWeightContext(PyObject* cls, PyObject *args) {
     PyWeightContext::PyWeightContext* pywc = reinterpret_cast<PyWeightContext::PyWeightContext*>(pyobj);
     SmartPointer<WeightContext> contextPtr = pywc->cppcontext_;
     pyCurrentContext->cppcontext_.set(contextPtr.get());
-    Hitcore::weightContext.set(contextPtr.get());
+    Hitcore::weightContext->set(contextPtr.get());
     Py_RETURN_NONE; // success, return None
 }
 
@@ -342,7 +342,7 @@ void setWeightContext() {
     PyObject* empty_tuple = PyTuple_New(0);
     PyObject* pyobj_wc = PyObject_CallObject(wc_class, empty_tuple); // init
     PyWeightContext::PyWeightContext* pywc = reinterpret_cast<PyWeightContext::PyWeightContext*>(pyobj_wc);
-    Hitcore::weightContext = pywc->cppcontext_;
+    *Hitcore::weightContext = pywc->cppcontext_;
     pyCurrentContext =  pywc;
 }
 
@@ -410,6 +410,9 @@ PyMODINIT_FUNC PyInit__hitcore(void) {
     PyDict_SetItemString(hc_dict, "C_API_SET_HITCORE", shc_c_api);
     PyDict_SetItemString(hc_dict, "C_API_CHECK", check_c_api);
     PyDict_SetItemString(hc_dict, "C_API_SMARTPOINTER_CONTEXT", spc_c_api);
+    PyObject* wtc_c_api = PyCapsule_New(reinterpret_cast<void*>
+                                (Hitcore::weightContext), NULL, NULL);
+    PyDict_SetItemString(hc_dict, "C_API_WEIGHT_CONTEXT", wtc_c_api);
     setWeightContext();
     return module;
 }
-- 
2.43.0


From f411952edd801318766e965759b8b5bd44837e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 019/128] fix: len(Bunchcore) returned a memory address

---
 xboa/core/pylib/PyBunchcore.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/xboa/core/pylib/PyBunchcore.cc b/xboa/core/pylib/PyBunchcore.cc
index 1c83d6d..12a7929 100644
--- a/xboa/core/pylib/PyBunchcore.cc
+++ b/xboa/core/pylib/PyBunchcore.cc
@@ -459,8 +459,18 @@ static PyMethodDef Bunchcore_methods[] = {
     {NULL}
 };
 
+Py_ssize_t sequence_length(PyObject* self) {
+    Bunchcore* bc = reinterpret_cast<PyBunchcore*>(self)->bunchcore_;
+    if (bc == NULL) {
+        PyErr_SetString(PyExc_TypeError,
+                        "Failed to interpret self as a Bunchcore");
+        return -1;
+    }
+    return bc->length();
+}
+
 static PySequenceMethods Bunchcore_as_seq = {
-    (lenfunc)length, //lenfunc PySequenceMethods.sq_length
+    sequence_length, //lenfunc PySequenceMethods.sq_length
     0, //binaryfunc PySequenceMethods.sq_concat
     0, //ssizeargfunc PySequenceMethods.sq_repeat
     0, //ssizeargfunc PySequenceMethods.sq_item
-- 
2.43.0


From bb5f690ad3f3ab0e15d938bc6cb975afe1a39c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 020/128] fix: native calls leaked their arguments and return
 values

---
 xboa/core/pylib/PyBunchcore.cc         |  7 +++---
 xboa/core/utils/PythonComparator.hh    |  6 ++++-
 xboa/core/utils/TypeConversions-inl.hh | 31 +++++++++++++++++---------
 3 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/xboa/core/pylib/PyBunchcore.cc b/xboa/core/pylib/PyBunchcore.cc
index 12a7929..5e8f6fc 100644
--- a/xboa/core/pylib/PyBunchcore.cc
+++ b/xboa/core/pylib/PyBunchcore.cc
@@ -242,9 +242,7 @@ PyObject* moment(PyObject* self, PyObject *args, PyObject *kwds) {
     }
 
     // return
-    PyObject* py_moment = PyFloat_FromDouble(moment);
-    Py_INCREF(py_moment);
-    return py_moment;
+    return PyFloat_FromDouble(moment);
 }
 
 
@@ -387,7 +385,8 @@ PyObject* moment_tensor(PyObject* self, PyObject *args, PyObject *kwds) {
     PyCppStringConverter str_conv;
     PyCppListToVectorConverter<std::string> list_conv(&str_conv);
     std::vector<std::string> axes;
-    list_conv.convert(py_axes, &axes);
+    if (!list_conv.convert(py_axes, &axes))
+        return NULL;
     std::vector<std::vector<size_t> > index_by_power;
     std::vector<double> moments;
     bool ok = bc->get_moment_tensor(axes, max_power, &moments, &index_by_power);
diff --git a/xboa/core/utils/PythonComparator.hh b/xboa/core/utils/PythonComparator.hh
index 74b8f6a..fb0a052 100644
--- a/xboa/core/utils/PythonComparator.hh
+++ b/xboa/core/utils/PythonComparator.hh
@@ -63,12 +63,16 @@ bool PythonComparator::compare(double variable, double cut_value) const {
         return false;
     PyObject *args = Py_BuildValue("dd", variable, cut_value);
     PyObject *ret_bool = PyObject_CallObject(py_cmp_, args);
+    Py_XDECREF(args);
     if (ret_bool == NULL || !PyBool_Check(ret_bool)) {
+        Py_XDECREF(ret_bool);
         throw std::logic_error("Failed to call python comparator");
     }
     // I could check ret_bool using PyBool_Check I guess, and set a failflag in
     // the class
-    return ret_bool == Py_True;
+    bool comparison = (ret_bool == Py_True);
+    Py_DECREF(ret_bool);
+    return comparison;
 }
 
 }
diff --git a/xboa/core/utils/TypeConversions-inl.hh b/xboa/core/utils/TypeConversions-inl.hh
index 31bffcb..4427a4d 100644
--- a/xboa/core/utils/TypeConversions-inl.hh
+++ b/xboa/core/utils/TypeConversions-inl.hh
@@ -43,6 +43,7 @@ bool PyCppStringConverter::convert(PyObject* py_string,
         PyObject* bytes = PyUnicode_AsASCIIString(py_string);
         if (bytes) {
             *cpp_string = std::string(PyBytes_AsString(bytes));
+            Py_DECREF(bytes);
             return true;
         }
     }
@@ -78,7 +79,9 @@ bool PyCppListToVectorConverter<ELEMENT>::convert(
         PyObject* item = PyList_GetItem(py_list, i); // borrowed reference
         if (item) {
             ELEMENT element;
-            converter_->convert(item, &element);
+            if (!converter_->convert(item, &element)) {
+                return false; // exception should be set by child converter
+            }
             // copies the string
             std_vector->at(i) = element;
         } else {
@@ -133,14 +136,16 @@ bool CppPyMapToDictConverter<KEY, VALUE>::convert(
         PyErr_SetString(PyExc_RuntimeError, "Failed to allocate dict");
         return false;
     }
-    Py_INCREF(*py_dict);
     typename std::map<KEY, VALUE>::const_iterator it;
     for (it = std_map->begin(); it != std_map->end(); ++it) {
-        PyObject *py_key, *py_value;
-        if (key_c_->convert(&it->first, &py_key) &&
-            value_c_->convert(&it->second, &py_value)) {
-            PyDict_SetItem(*py_dict, py_key, py_value);
-        } else {
+        PyObject *py_key = NULL, *py_value = NULL;
+        bool ok = key_c_->convert(&it->first, &py_key) &&
+                  value_c_->convert(&it->second, &py_value) &&
+                  PyDict_SetItem(*py_dict, py_key, py_value) == 0;
+        Py_XDECREF(py_key);
+        Py_XDECREF(py_value);
+        if (!ok) {
+            Py_CLEAR(*py_dict);
             return false;
         }
     }
@@ -171,14 +176,20 @@ bool CppPyVectorToListConverter<ELEMENT>::convert(
     }
 
     *py_list = PyList_New(0);
-    Py_INCREF(*py_list);
+    if (*py_list == NULL) {
+        return false;
+    }
     for (size_t i = 0; i < std_vector->size(); ++i) {
         ELEMENT element = std_vector->at(i);
-        PyObject* py_element;
+        PyObject* py_element = NULL;
         if (!converter_->convert(&element, &py_element)) {
+            Py_CLEAR(*py_list);
             return false;
         }
-        if (PyList_Append(*py_list, py_element) != 0) {
+        int append_error = PyList_Append(*py_list, py_element);
+        Py_DECREF(py_element);
+        if (append_error != 0) {
+            Py_CLEAR(*py_list);
             PyErr_SetString(PyExc_RuntimeError,
                             "Failed to append element");
             return false;
-- 
2.43.0


From bea664f9f9ca9e2387218a43e5c1d760cc056098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 021/128] fix: WeightContext.set_weight took spill= as the
 weight and used uninitialised numbers for omitted arguments

---
 xboa/core/pylib/PyWeightContext.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xboa/core/pylib/PyWeightContext.cc b/xboa/core/pylib/PyWeightContext.cc
index 1e3f269..a695755 100644
--- a/xboa/core/pylib/PyWeightContext.cc
+++ b/xboa/core/pylib/PyWeightContext.cc
@@ -82,13 +82,13 @@ PyObject* setWeight(PyObject* self, PyObject *args, PyObject *kwds) {
         return NULL;
     }
     PyWeightContext* pywc = reinterpret_cast<PyWeightContext*>(self);
-    double weight;
-    int spill, event, particle;
+    double weight = 1.;
+    int spill = 0, event = 0, particle = 0;
     std::vector<char*> c_argnames = {
-        cstring("spill"), cstring("event_number"), cstring("particle_number"),
+        cstring("weight"), cstring("spill"), cstring("event_number"), cstring("particle_number"),
         cstring("eventNumber"), cstring("particleNumber"), NULL
     };
-    int err = PyArg_ParseTupleAndKeywords(args, kwds, "|diiiii",
+    int err = PyArg_ParseTupleAndKeywords(args, kwds, "d|iiiii",
                &c_argnames[0],
                &weight, &spill, &event, &particle, &event, &particle);
     if(err == 0) {
@@ -108,7 +108,7 @@ PyObject* getWeight(PyObject* self, PyObject *args, PyObject *kwds) {
         return NULL;
     }
     PyWeightContext* pywc = reinterpret_cast<PyWeightContext*>(self);
-    int spill, event, particle;
+    int spill = 0, event = 0, particle = 0;
     std::vector<char*> c_argnames = {
         cstring("spill"), cstring("event_number"), cstring("particle_number"),
         cstring("eventNumber"), cstring("particleNumber"), NULL
-- 
2.43.0


From 5abfa692dccd7e5bcb507056519418e8023d4c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 022/128] fix: WeightContext arithmetic with numbers leaked a
 float per call

---
 xboa/core/pylib/PyWeightContext.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xboa/core/pylib/PyWeightContext.cc b/xboa/core/pylib/PyWeightContext.cc
index a695755..43e5e14 100644
--- a/xboa/core/pylib/PyWeightContext.cc
+++ b/xboa/core/pylib/PyWeightContext.cc
@@ -230,8 +230,14 @@ PyObject *binary_operator(PyObject *o1, PyObject *o2) {
         return nullptr;
     }
     if (parseArg(o2, &f2, &pywc2) == 0) {
+        Py_XDECREF(f1);
         return nullptr;
     }
+    // take the numbers and release the floats that parseArg made
+    double d1 = f1 == nullptr ? 0. : PyFloat_AsDouble(f1);
+    double d2 = f2 == nullptr ? 0. : PyFloat_AsDouble(f2);
+    Py_XDECREF(f1);
+    Py_XDECREF(f2);
 
     if (pywc1 == nullptr && pywc2 == nullptr) { // shouldn't ever get here?
         PyErr_SetString(PyExc_NotImplementedError, "Not able to operate on these object types");
@@ -244,7 +250,6 @@ PyObject *binary_operator(PyObject *o1, PyObject *o2) {
     if (pywc1 != nullptr) {
         WeightContext* wc1 = pywc1->cppcontext_.get();
         if (pywc2 == nullptr) {
-            double d2 = PyFloat_AsDouble(f2);
             wc3 = op.operate(*wc1, d2);
         } else {
             WeightContext* wc2 = pywc2->cppcontext_.get();
@@ -253,7 +258,6 @@ PyObject *binary_operator(PyObject *o1, PyObject *o2) {
     } else {
         WeightContext* wc2 = pywc2->cppcontext_.get();
         if (pywc1 == nullptr) {
-            double d1 = PyFloat_AsDouble(f1);
             try {
                 wc3 = op.operate(d1, *wc2);
             } catch (...) {
-- 
2.43.0


From acbc9cb0fc3863cecea5b02ed473bb1c59a143ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 023/128] fix: instances of classes inheriting from the native
 classes overran their memory

---
 xboa/core/pylib/PyBunchcore.cc     | 16 +++++++---------
 xboa/core/pylib/PyHitcore.cc       | 18 ++++++++++--------
 xboa/core/pylib/PyWeightContext.cc | 24 +++++++++++-------------
 xboa/core/pylib/PyWeightContext.hh |  2 +-
 4 files changed, 29 insertions(+), 31 deletions(-)

diff --git a/xboa/core/pylib/PyBunchcore.cc b/xboa/core/pylib/PyBunchcore.cc
index 5e8f6fc..4d8c7e4 100644
--- a/xboa/core/pylib/PyBunchcore.cc
+++ b/xboa/core/pylib/PyBunchcore.cc
@@ -35,11 +35,9 @@ namespace core {
 namespace PyBunchcore {
 
 PyObject *alloc(PyTypeObject *type, Py_ssize_t nitems) {
-    PyBunchcore* bc = new PyBunchcore();
-    Py_SET_REFCNT(bc, 1);
-    // Py_TYPE(bc) = type; // removed following PEP674
-    Py_SET_TYPE(bc, type);
-    return reinterpret_cast<PyObject*>(bc);
+    // allocate with python, as classes that inherit from this one are larger;
+    // PyType_GenericAlloc sets bunchcore_ to NULL
+    return PyType_GenericAlloc(type, nitems);
 }
 
 int init(PyObject* self, PyObject *args, PyObject *kwds) {
@@ -64,7 +62,7 @@ void dealloc(PyBunchcore* self) {
             delete self->bunchcore_;
             self->bunchcore_ = NULL;
         }
-        delete self;
+        Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
     }
 }
 
@@ -482,8 +480,8 @@ static PySequenceMethods Bunchcore_as_seq = {
 static PyTypeObject PyBunchcoreType = {
     PyObject_HEAD_INIT(NULL)
     "_bunchcore.Bunchcore",     /*tp_name*/
-    sizeof(Bunchcore),         /*tp_basicsize*/
-    sizeof(xboa::core::PyHitcore::PyHitcore),  /*tp_itemsize*/
+    sizeof(PyBunchcore),       /*tp_basicsize*/
+    0,                         /*tp_itemsize*/
     (destructor)dealloc,     /*tp_dealloc*/
     0,                         /*tp_print*/
     0,                         /*tp_getattr*/
@@ -518,7 +516,7 @@ static PyTypeObject PyBunchcoreType = {
     (initproc)init,      /* tp_init */
     (allocfunc)alloc,   /* tp_alloc */
     0,                 /* tp_new */
-    (freefunc)dealloc, /* tp_free, called by dealloc */
+    0,                 /* tp_free, inherited */
 };
 
 const char* module_docstring = "_bunchcore module for the Bunchcore class";
diff --git a/xboa/core/pylib/PyHitcore.cc b/xboa/core/pylib/PyHitcore.cc
index 00b3539..c85cb3f 100644
--- a/xboa/core/pylib/PyHitcore.cc
+++ b/xboa/core/pylib/PyHitcore.cc
@@ -260,7 +260,7 @@ static PyTypeObject PyHitcoreType = {
     (initproc)_init,      /* tp_init */
     (allocfunc)_alloc,    /* tp_alloc, called by new */
     0,                  /* tp_new */
-    (freefunc)_free, /* tp_free, called by dealloc */
+    0,                  /* tp_free, inherited */
     0,                  /* tp_is_gc */
     0, /* tp_bases */
     0, /* tp_mro method resolution order */
@@ -273,12 +273,13 @@ static PyTypeObject PyHitcoreType = {
 };
 
 PyObject *_alloc(PyTypeObject *type, Py_ssize_t nitems) {
-    PyHitcore* hc = new PyHitcore();
-    Py_SET_REFCNT(hc, 1);
-    //Py_TYPE(hc) = type; // remove following PEP674
-    Py_SET_TYPE(hc, type);
-    hc->hitcore_ = SmartPointer<Hitcore>(NULL);
-    return reinterpret_cast<PyObject*>(hc);
+    // allocate with python, as classes that inherit from this one are larger
+    PyObject* self = PyType_GenericAlloc(type, nitems);
+    if (self != NULL) {
+        PyHitcore* hc = reinterpret_cast<PyHitcore*>(self);
+        new (&hc->hitcore_) SmartPointer<Hitcore>(NULL);
+    }
+    return self;
 }
 
 int _init(PyObject* self, PyObject *args, PyObject *kwds) {
@@ -300,7 +301,8 @@ int _init(PyObject* self, PyObject *args, PyObject *kwds) {
 
 void _free(PyHitcore * self) {
     if (self != NULL) {
-        delete self;
+        self->hitcore_.~SmartPointer<Hitcore>();
+        Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
     }
 }
 
diff --git a/xboa/core/pylib/PyWeightContext.cc b/xboa/core/pylib/PyWeightContext.cc
index 43e5e14..d4b47f6 100644
--- a/xboa/core/pylib/PyWeightContext.cc
+++ b/xboa/core/pylib/PyWeightContext.cc
@@ -168,12 +168,13 @@ PyObject* richCompare(PyObject* self, PyObject* other, int op) {
 }
 
 PyObject *_alloc(PyTypeObject *type, Py_ssize_t nitems) {
-    PyWeightContext* pywc = new PyWeightContext();
-    pywc->cppcontext_ = SmartPointer<WeightContext>(new WeightContext());
-    Py_SET_REFCNT(pywc, 1);
-    // Py_TYPE(pywc) = type; // fixed following PEP674
-    Py_SET_TYPE(pywc, type);
-    return reinterpret_cast<PyObject*>(pywc);
+    // allocate with python, as classes that inherit from this one are larger
+    PyObject* self = PyType_GenericAlloc(type, nitems);
+    if (self != NULL) {
+        PyWeightContext* pywc = reinterpret_cast<PyWeightContext*>(self);
+        new (&pywc->cppcontext_) SmartPointer<WeightContext>(new WeightContext());
+    }
+    return self;
 }
 
 
@@ -188,7 +189,8 @@ int _init(PyObject* self, PyObject *args, PyObject *kwds) {
 
 void _free(PyWeightContext * self) {
     if (self != NULL) {
-        delete self;
+        self->cppcontext_.~SmartPointer<WeightContext>();
+        Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
     }
 }
 
@@ -318,7 +320,7 @@ static PyTypeObject PyWeightContextType = {
     (initproc)_init,      /* tp_init */
     (allocfunc)_alloc,    /* tp_alloc, called by new */
     0,                  /* tp_new */
-    (freefunc)_free, /* tp_free, called by dealloc */
+    0,                  /* tp_free, inherited */
     0,                  /* tp_is_gc */
     0, /* tp_bases */
     0, /* tp_mro method resolution order */
@@ -347,11 +349,7 @@ static struct PyModuleDef weight_context_def = {
 };
 
 PyWeightContext* C_API::create_empty_weightcontext() {
-    PyWeightContext* pywc = new PyWeightContext();
-    pywc->cppcontext_ = SmartPointer<WeightContext>(new WeightContext());
-    Py_SET_REFCNT(pywc, 1);
-    Py_SET_TYPE(pywc, &PyWeightContextType);
-    return pywc;
+    return reinterpret_cast<PyWeightContext*>(_alloc(&PyWeightContextType, 0));
 }
 
 bool C_API::is_PyWeightContext(PyObject* obj) {
diff --git a/xboa/core/pylib/PyWeightContext.hh b/xboa/core/pylib/PyWeightContext.hh
index 869f990..831eb72 100644
--- a/xboa/core/pylib/PyWeightContext.hh
+++ b/xboa/core/pylib/PyWeightContext.hh
@@ -61,7 +61,7 @@ int import_PyWeightContext() {
 
     is_PyWeightContext = reinterpret_cast<bool (*)(PyObject*)>(ispwc_void);
 
-    delete create_empty_weightcontext();
+    Py_DECREF(create_empty_weightcontext());
     return 1;
 }
 
-- 
2.43.0


From 71c02217d348f24346c043636dad216b5d637963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 024/128] fix: Bunchcore indices too large for memory aborted
 the interpreter or left an error pending

---
 xboa/core/pylib/PyBunchcore.cc         | 7 ++++++-
 xboa/core/utils/TypeConversions-inl.hh | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/xboa/core/pylib/PyBunchcore.cc b/xboa/core/pylib/PyBunchcore.cc
index 4d8c7e4..9e63156 100644
--- a/xboa/core/pylib/PyBunchcore.cc
+++ b/xboa/core/pylib/PyBunchcore.cc
@@ -146,7 +146,12 @@ PyObject* set_item(PyObject* self, PyObject *args, PyObject *kwds) {
                                  reinterpret_cast<PyHitcore::PyHitcore*>(py_hc);
 
     // Py_INCREF(py_hc);
-    bc->set_item(index, py_hc_alt->hitcore_);
+    try {
+        bc->set_item(index, py_hc_alt->hitcore_);
+    } catch (std::exception& exc) { // length_error or bad_alloc
+        PyErr_SetString(PyExc_MemoryError, exc.what());
+        return NULL;
+    }
     Py_RETURN_NONE;
 }
 
diff --git a/xboa/core/utils/TypeConversions-inl.hh b/xboa/core/utils/TypeConversions-inl.hh
index 4427a4d..c1bd81c 100644
--- a/xboa/core/utils/TypeConversions-inl.hh
+++ b/xboa/core/utils/TypeConversions-inl.hh
@@ -24,8 +24,11 @@ bool PyCppIndexConverter::convert(PyObject* py_int, size_t* index) const {
         return false;
     }
     Py_ssize_t py_index = PyLong_AsSsize_t(py_int);
+    if (py_index == -1 && PyErr_Occurred()) {
+        return false; // does not fit
+    }
     if (py_index < 0) {
-        *index = abs(py_index+1);
+        *index = -(py_index+1);
     } else {
         *index = py_index;
     }
-- 
2.43.0


From daf64bf7d350a92195a55ca0ecc74a45cc5e61dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 025/128] fix: cut_double used a freed hit when the comparator
 changed the bunch

---
 xboa/core/cpplib/Bunchcore.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xboa/core/cpplib/Bunchcore.cc b/xboa/core/cpplib/Bunchcore.cc
index e022861..5393d3b 100644
--- a/xboa/core/cpplib/Bunchcore.cc
+++ b/xboa/core/cpplib/Bunchcore.cc
@@ -230,11 +230,12 @@ bool Bunchcore::cut_double(const std::string cut_variable,
         return false;
     // iterate over the hitcores, cutting
     for (size_t i = 0; i < hitcores_.size(); ++i) {
-        Hitcore* hc = hitcores_[i].get();
+        // keep the hit alive, as the comparator may change the bunch
+        SmartPointer<Hitcore> hc = hitcores_[i];
         // ignore NULLs
-        if (hc == NULL)
+        if (hc.get() == NULL)
             continue;
-        const double value = (*hc.*function)();
+        const double value = ((*hc).*function)();
         try {
             int comparison = comp->compare(value, cut_value);
             if (comparison == 1) {
-- 
2.43.0


From 922f7d6922cff9a99d6422bb84354b07e60e0f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 026/128] fix: report a bad list element given to the native
 core as a ValueError, as before

---
 xboa/core/utils/TypeConversions-inl.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xboa/core/utils/TypeConversions-inl.hh b/xboa/core/utils/TypeConversions-inl.hh
index c1bd81c..316873b 100644
--- a/xboa/core/utils/TypeConversions-inl.hh
+++ b/xboa/core/utils/TypeConversions-inl.hh
@@ -83,7 +83,9 @@ bool PyCppListToVectorConverter<ELEMENT>::convert(
         if (item) {
             ELEMENT element;
             if (!converter_->convert(item, &element)) {
-                return false; // exception should be set by child converter
+                PyErr_SetString(PyExc_ValueError,
+                                "Failed to parse element of list");
+                return false;
             }
             // copies the string
             std_vector->at(i) = element;
-- 
2.43.0


From d36df2edc64c08efd15c3e351702094e5d95f938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:07 +0000
Subject: [PATCH 027/128] fix: Bunchcore moments took missing means as 0, and
 bunches without weight gave nan

---
 xboa/core/cpplib/Bunchcore.cc | 40 +++++++++++++++++++++++++++--------
 xboa/core/cpplib/Bunchcore.hh |  6 ++++++
 2 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/xboa/core/cpplib/Bunchcore.cc b/xboa/core/cpplib/Bunchcore.cc
index 5393d3b..9520bf6 100644
--- a/xboa/core/cpplib/Bunchcore.cc
+++ b/xboa/core/cpplib/Bunchcore.cc
@@ -43,6 +43,22 @@ bool Bunchcore::del_item(size_t i) {
 }
 
 
+double Bunchcore::get_mean(Hitcore::get_dbl_function function,
+            const std::string& axis,
+            const std::map<std::string, double>& means,
+            double weight_sum) {
+    std::map<std::string, double>::const_iterator it = means.find(axis);
+    if (it != means.end())
+        return it->second;
+    double mean = 0.;
+    for(size_t i = 0; i < hitcores_.size(); ++i) {
+        Hitcore* hc = hitcores_[i].get();
+        if (hc != NULL)
+            mean += hc->total_weight()/weight_sum*(*hc.*function)();
+    }
+    return mean;
+}
+
 bool Bunchcore::get_moment(std::vector<std::string> axes,
             std::map<std::string, double> means,
             double* moment) {
@@ -56,15 +72,18 @@ bool Bunchcore::get_moment(std::vector<std::string> axes,
         if (function_vector[i] == NULL)
             return false;
     }
-    // extract means (assume mean map is filled)
+    // get sum of weights
+    double weight_sum = bunch_weight();
+    if (weight_sum == 0.)
+        return false;
+
+    // extract means
     std::vector<double> mean_vector(axes.size());
     for (size_t i = 0; i < axes.size(); ++i) {
-        mean_vector[i] = means[axes[i]];
+        mean_vector[i] = get_mean(function_vector[i], axes[i], means,
+                                  weight_sum);
     }
 
-    // get sum of weights
-    double weight_sum = bunch_weight();
-
     //extract moments
     *moment = 0.;
     for(size_t i = 0; i < hitcores_.size(); ++i) {
@@ -96,13 +115,16 @@ bool Bunchcore::covariance_matrix(std::vector<std::string> axes,
         if (function_vector[i] == NULL)
             return false;
     }
-    // extract means (assume mean map is filled)
+    // get sum of weights
+    double weight_sum = bunch_weight();
+    if (weight_sum == 0.)
+        return false;
+    // extract means
     std::vector<double> mean_vector(n_axes);
     for (size_t i = 0; i < n_axes; ++i) {
-        mean_vector[i] = means[axes[i]];
+        mean_vector[i] = get_mean(function_vector[i], axes[i], means,
+                                  weight_sum);
     }
-    // get sum of weights
-    double weight_sum = bunch_weight();
 
     for(size_t i = 0; i < hitcores_.size(); ++i) {
         Hitcore* hc = hitcores_[i].get();
diff --git a/xboa/core/cpplib/Bunchcore.hh b/xboa/core/cpplib/Bunchcore.hh
index fb4572e..d030ef9 100644
--- a/xboa/core/cpplib/Bunchcore.hh
+++ b/xboa/core/cpplib/Bunchcore.hh
@@ -147,6 +147,12 @@ public:
 private:
     std::vector< SmartPointer<Hitcore> > hitcores_;
 
+    // mean of axis from means; if not stored, the weighted mean of the hits
+    double get_mean(Hitcore::get_dbl_function function,
+                    const std::string& axis,
+                    const std::map<std::string, double>& means,
+                    double weight_sum);
+
     static std::vector<std::vector<size_t> > get_index_by_power_recurse(
                                     size_t max_size,
                                     size_t axis,
-- 
2.43.0


From 5d9cea17f4ea2f9fdd7a10a1791c3db353c266fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 028/128] fix: transmission_cut missed hits that match within
 float_tolerance

Only the next two entries in sort order were tried, so a value just above
the one in the target bunch, or a match behind a near miss in the first
variable, was cut.
---
 xboa/bunch/_bunch.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index e1d0d0d..fc0ff38 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -890,14 +890,17 @@ class Bunch:
       weight     = 0
       hit_value  = [hit[var] for var in test_variable]
       next_value = bisect.bisect_left(hit_list, hit_value)
-      if next_value > -1 and next_value < len(hit_list):
-        diff = [abs(hit_list[next_value][i]-hit_value[i]) for i in range(len(hit_value))]
-        diff = sum(diff)
-        if diff < float_tolerance:   weight = hit[wt]
-      if next_value+1 < len(hit_list):
-        diff = [abs(hit_list[next_value+1][i]-hit_value[i]) for i in range(len(hit_value))]
-        diff = sum(diff)
-        if diff < float_tolerance: weight = hit[wt]
+      if next_value < len(hit_list) and hit_list[next_value] == hit_value:
+        weight = hit[wt]
+      elif any(type(value) is float for value in hit_value):
+        # anything with the first variable within float_tolerance may match
+        next_value = bisect.bisect_left(hit_list, [hit_value[0]-float_tolerance])
+        while next_value < len(hit_list) and hit_list[next_value][0]-hit_value[0] <= float_tolerance:
+          diff = [abs(hit_list[next_value][i]-hit_value[i]) for i in range(len(hit_value))]
+          if sum(diff) < float_tolerance:
+            weight = hit[wt]
+            break
+          next_value += 1
       hit.set(wt, weight)
 
   def get_beta (self, axis_list, geometric=None):
-- 
2.43.0


From 3aa4a31872e71730d5726679b00ffb2a73c0dd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 029/128] fix: plots lost, averaged, reordered or relabelled
 data

Histogram lines dropped the last bin and failed without any content, 2D
matplotlib histograms showed the mean weight per bin, graphs sorted the
caller's lists in place and ignored sort=False, the scatter plot of a bunch
raised TypeError and had the x label on both axes, 2D ROOT histograms with a
draw option were filled as 1D, and matplotlib_wrapper.make_multigraph raised
NameError.
---
 xboa/bunch/_bunch.py              |  8 ++++----
 xboa/common/_common.py            | 16 ++++++++--------
 xboa/common/matplotlib_wrapper.py | 15 ++++++++-------
 3 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index fc0ff38..b0f30af 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1620,8 +1620,8 @@ class Bunch:
     x_points = self.list_get_hit_variable([x_axis_string], [x_axis_units])[0]
     if y_axis_string == '' and nx_bins==None:
       nx_bins = int(num_events/10.)
-    if not y_axis_string == '' and draw_option=='': 
-      draw_option = 'COL'
+    if not y_axis_string == '':
+      if draw_option == '': draw_option = 'COL'
       y_points = self.list_get_hit_variable([y_axis_string], [y_axis_units])[0]
       if nx_bins == None: nx_bins = int(num_events**0.7/10.)
       if ny_bins == None: ny_bins = int(num_events**0.7/10.)
@@ -1843,7 +1843,7 @@ class Bunch:
     if not x_axis_units == '': x_axis_string += " ["+x_axis_units+"] "
     if not y_axis_units == '': y_axis_string += " ["+y_axis_units+"] "
     graph = Common.make_matplot_scatter(x_points, x_axis_string, y_points, y_axis_string)
-    return matplotlib.pyplot.figure(graph)
+    return matplotlib.pyplot.gcf()
 
   def matplot_graph(bunches, x_axis_string, x_axis_list, y_axis_string, y_axis_list, x_axis_units='', y_axis_units='', comparator=None):
     """
@@ -1880,7 +1880,7 @@ class Bunch:
     y_axis_string += ") "
     if not x_axis_units == '': x_axis_string += " ["+x_axis_units+"] "
     if not y_axis_units == '': y_axis_string += " ["+y_axis_units+"] "
-    graph = Common.make_matplot_graph(x_points, x_axis_string, y_points, y_axis_string)
+    graph = Common.make_matplot_graph(x_points, x_axis_string, y_points, y_axis_string, comparator == None)
     return matplotlib.pyplot.figure(graph)
   matplot_graph = staticmethod(matplot_graph)
 
diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 9541b6d..4d14982 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -551,14 +551,14 @@ def make_matplot_histogram(x_float_list, x_axis_string, n_x_bins, y_float_list=[
     new_bins  = []
     new_n     = []
     index     = 0
-    while(abs(n[index])<1.e-9 and index < len(n)): index += 1
-    for i in range(index, len(n)-1):
+    while(index < len(n) and abs(n[index])<1.e-9): index += 1
+    for i in range(index, len(n)):
       new_bins.append((my_bins[i] + my_bins[i+1])/2.)
       new_n.append(n[i])
     hist = pyplot.plot(new_bins, new_n)
     pyplot.xlabel(x_axis_string)
   else:
-    if len(weight_list) == len(x_float_list): hist = pyplot.hexbin(x_float_list, y_float_list, weight_list, gridsize=(n_x_bins,n_y_bins))
+    if len(weight_list) == len(x_float_list): hist = pyplot.hexbin(x_float_list, y_float_list, weight_list, gridsize=(n_x_bins,n_y_bins), reduce_C_function=numpy.sum)
     else:                                     hist = pyplot.hexbin(x_float_list, y_float_list, gridsize=(n_x_bins,n_y_bins))
     pyplot.xlabel(x_axis_string)
     pyplot.ylabel(y_axis_string)
@@ -629,11 +629,11 @@ def make_matplot_graph(x_float_list, x_axis_string, y_float_list, y_axis_string,
   pyplot.figure(figure_index)
   if(len(x_float_list) == 0 or len(x_float_list) != len(y_float_list)):
     raise IndexError('Attempt to draw graph with no x-points, or different number of x to y points')
-  multilist = [x_float_list, y_float_list]
-  multisort(multilist)
+  multilist = [list(x_float_list), list(y_float_list)]
+  if sort: multisort(multilist)
   x_min_max = min_max(multilist[0], margin=rg.graph_margin)
   y_min_max = min_max(multilist[1], margin=rg.graph_margin)
-  myplot = pyplot.plot(x_float_list, y_float_list)
+  myplot = pyplot.plot(multilist[0], multilist[1])
   pyplot.xlabel(x_axis_string)
   pyplot.ylabel(y_axis_string)
   pyplot.xlim  (x_min_max[0], x_min_max[1])
@@ -695,7 +695,7 @@ def make_matplot_multigraph(x_float_list_of_lists, x_axis_string, y_float_list_o
   x_min_max = min_max(total_x_list, margin=rg.graph_margin)
   y_min_max = min_max(total_y_list, margin=rg.graph_margin)
   for index in range( len(x_float_list_of_lists) ):
-    multilist = [x_float_list_of_lists[index], y_float_list_of_lists[index]]
+    multilist = [list(x_float_list_of_lists[index]), list(y_float_list_of_lists[index])]
     multisort(multilist)
     myplot = pyplot.plot(multilist[0], multilist[1])
   pyplot.xlabel(x_axis_string)
@@ -723,7 +723,7 @@ def make_matplot_scatter(x_float_list, x_axis_string, y_float_list, y_axis_strin
     raise IndexError('Attempt to draw histogram with no x-points')
   hist = pyplot.scatter(x_float_list, y_float_list, s=1)
   pyplot.xlabel(x_axis_string)
-  pyplot.ylabel(x_axis_string)
+  pyplot.ylabel(y_axis_string)
   return hist
 
 def wait_for_root():
diff --git a/xboa/common/matplotlib_wrapper.py b/xboa/common/matplotlib_wrapper.py
index df4bf0c..50e0545 100644
--- a/xboa/common/matplotlib_wrapper.py
+++ b/xboa/common/matplotlib_wrapper.py
@@ -60,9 +60,9 @@ def make_histogram(x_float_list, x_axis_string, n_x_bins,
         new_bins  = []
         new_n     = []
         index     = 0
-        while(abs(n[index])<1.e-9 and index < len(n)):
+        while(index < len(n) and abs(n[index])<1.e-9):
             index += 1
-        for i in range(index, len(n)-1):
+        for i in range(index, len(n)):
             new_bins.append((my_bins[i] + my_bins[i+1])/2.)
             new_n.append(n[i])
         hist = pyplot.plot(new_bins, new_n)
@@ -108,12 +108,12 @@ def make_graph(x_float_list, x_axis_string,
               (len(x_float_list), len(y_float_list))
         msg += "They should be the same length, with at least 1 element."
         raise IndexError(msg)
-    multilist = [x_float_list, y_float_list]
+    multilist = [list(x_float_list), list(y_float_list)]
     if sort:
         xboa.common.multisort(multilist)
     x_min_max = xboa.common.min_max(multilist[0])
     y_min_max = xboa.common.min_max(multilist[1])
-    myplot = pyplot.plot(x_float_list, y_float_list, **kwds)
+    myplot = pyplot.plot(multilist[0], multilist[1], **kwds)
     pyplot.xlabel(x_axis_string)
     pyplot.ylabel(y_axis_string)
     pyplot.xlim  (x_min_max[0], x_min_max[1])
@@ -151,12 +151,13 @@ def make_multigraph(x_float_list_of_lists, x_axis_string,
     for a_list in x_float_list_of_lists:
         total_x_list += a_list
     for a_list in y_float_list_of_lists:  total_y_list += a_list
-    x_min_max = min_max(total_x_list, margin=rg.graph_margin)
-    y_min_max = min_max(total_y_list, margin=rg.graph_margin)
+    x_min_max = xboa.common.min_max(total_x_list)
+    y_min_max = xboa.common.min_max(total_y_list)
     for index in range( len(x_float_list_of_lists) ):
+        kwd_args = {}
         if index < len(kwds):
             kwd_args = kwds[index]
-        multilist = [x_float_list_of_lists[index], y_float_list_of_lists[index]]
+        multilist = [list(x_float_list_of_lists[index]), list(y_float_list_of_lists[index])]
         xboa.common.multisort(multilist)
         myplot = pyplot.plot(multilist[0], multilist[1], **kwd_args)
     pyplot.xlabel(x_axis_string)
-- 
2.43.0


From f76fb27ffe2747381d2ec87eb4d0d4269da799d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 030/128] fix: automatic limits of ROOT histograms left out the
 largest value

ROOT bins exclude their upper edge, so with no margin the hit with the
largest value was counted as overflow.
---
 xboa/common/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 4d14982..eb3ed30 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -123,7 +123,7 @@ class rg:
   fill_color             = 0
   graph_fill_color       = 10
   stats                  = False
-  histo_margin           = 0.0 #margin around edge of a histogram inside axes
+  histo_margin           = 1.e-6 #margin around edge of a histogram inside axes; 0 would put the largest value in the overflow bin
   graph_margin           = 0.1 #margin around edge of a graph inside axes
   fit_color              = 4
   fit_style              = 2
-- 
2.43.0


From c8b89976aded89750ccb5a08af48947e4e3bffb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:43 +0000
Subject: [PATCH 031/128] fix: one malformed line aborted the whole load

A word that is not a number, an integer that does not fit or an unknown
particle id raised ValueError, OverflowError or KeyError out of the loading
loop, and every hit of the file was lost. They are bad events, which the
loop counts and skips, like lines with the wrong number of words.
---
 xboa/hit/factory/_builtin_hit_factory.py | 12 +++++++----
 xboa/hit/factory/_line_factory_base.py   | 27 ++++++++++++++++--------
 xboa/hit/factory/_user_hit_factory.py    | 13 +++++++-----
 3 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/xboa/hit/factory/_builtin_hit_factory.py b/xboa/hit/factory/_builtin_hit_factory.py
index dab85d3..7e2bb85 100644
--- a/xboa/hit/factory/_builtin_hit_factory.py
+++ b/xboa/hit/factory/_builtin_hit_factory.py
@@ -15,6 +15,7 @@
 # <http://www.gnu.org/licenses/>.
 
 import xboa.common as common
+import xboa.hit
 from xboa.hit.factory import LineFactoryBase
 
 class BuiltinHitFactory(LineFactoryBase):
@@ -39,10 +40,13 @@ class BuiltinHitFactory(LineFactoryBase):
         hit = self._read_formatted(self.file_formats[format],
                                    self.file_units[format],
                                    self.filehandle, '')
-        if(format.find('icool') > -1 ):
-          hit.set('pid', common.icool_pid_to_pdg[hit.get('pid')])
-        if( format.find('mars') > -1 ):
-          hit.set('pid', common.mars_pid_to_pdg[hit.get('pid')])
+        try:
+          if(format.find('icool') > -1 ):
+            hit.set('pid', common.icool_pid_to_pdg[hit.get('pid')])
+          if( format.find('mars') > -1 ):
+            hit.set('pid', common.mars_pid_to_pdg[hit.get('pid')])
+        except KeyError:
+          raise xboa.hit.BadEventError("Did not recognise "+format+" pid "+str(hit.get('pid')))
         try:
           hit.set('mass', common.pdg_pid_to_mass[abs(hit.get('pid'))])
           hit.mass_shell_condition(self.file_mass_shell[format])
diff --git a/xboa/hit/factory/_line_factory_base.py b/xboa/hit/factory/_line_factory_base.py
index 5c507c9..732844c 100644
--- a/xboa/hit/factory/_line_factory_base.py
+++ b/xboa/hit/factory/_line_factory_base.py
@@ -57,14 +57,23 @@ class LineFactoryBase(HitFactoryBase):
             value = words.pop()
             if key != '':
                 try:
-                    value = xboa.hit.Hit._default_var_types[key](value)
-                # I ran into problems with int > 1000000 written in scientific 
-                # notation by G4BL (urk)
-                except ValueError:
-                    value = float(value)
-                    value = xboa.hit.Hit._default_var_types[key](value)
-                if xboa.hit.Hit._default_var_types[key] == float:
-                    value *= common.units[format_units_dict[key]]
-                a_hit.set(key, value)
+                    value = cls._parse(xboa.hit.Hit._default_var_types[key], value)
+                    if xboa.hit.Hit._default_var_types[key] == float:
+                        value *= common.units[format_units_dict[key]]
+                    a_hit.set(key, value)
+                except (ValueError, OverflowError): # not a number, or not one that fits
+                    raise xboa.hit.BadEventError("Read operation failed with line "+str(line))
         return a_hit
 
+    @classmethod
+    def _parse(cls, var_type, word):
+        """
+        Convert word to var_type
+        """
+        try:
+            return var_type(word)
+        # I ran into problems with int > 1000000 written in scientific 
+        # notation by G4BL (urk)
+        except ValueError:
+            return var_type(float(word))
+
diff --git a/xboa/hit/factory/_user_hit_factory.py b/xboa/hit/factory/_user_hit_factory.py
index 14f8dfb..32b6d31 100644
--- a/xboa/hit/factory/_user_hit_factory.py
+++ b/xboa/hit/factory/_user_hit_factory.py
@@ -66,9 +66,12 @@ class UserHitFactory(LineFactoryBase):
                                    self.format_units_dict,
                                    self.filehandle,
                                    self.mass_shell_condition)
-        if 'mass' not in self.format_list:
-            hit.set('mass', common.pdg_pid_to_mass[abs(hit['pid'])])
-        hit.mass_shell_condition(self.mass_shell_condition)
-        if 'charge' not in self.format_list:
-            hit.set('charge', common.pdg_pid_to_charge[hit['pid']])      
+        try:
+            if 'mass' not in self.format_list:
+                hit.set('mass', common.pdg_pid_to_mass[abs(hit['pid'])])
+            hit.mass_shell_condition(self.mass_shell_condition)
+            if 'charge' not in self.format_list:
+                hit.set('charge', common.pdg_pid_to_charge[hit['pid']])      
+        except KeyError:
+            raise xboa.hit.BadEventError("Did not recognise pid "+str(hit['pid']))
         return hit
-- 
2.43.0


From a098113962dd14a129c74d6943ee8cc2fca34376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 032/128] fix: writing a hit changed its pid, and failures were
 silent

The pid was converted to the convention of the format in the hit itself and
back afterwards, so that a hit came out changed when the conversion is not
one to one or when the write raised; a failing write left half a line that
the next hit continued; and a hit that could not be written was reported
only if it was in the last station.
---
 xboa/hit/_hit.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index a4c2dc4..047cffa 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -403,15 +403,12 @@ class Hit(object):
     """
     if( format.find('maus') > -1 ):
       raise IOError("Can't write single maus hits, only lists of hits")
+    pid = self.get('pid')
     if( format.find('icool') > -1 ):
-      self.set('pid', Common.pdg_pid_to_icool[self.get('pid')])
-    if( format.find('mars') > -1 ):
-      self.set('pid', Common.pdg_pid_to_mars [self.get('pid')])
-    self.__write_formatted(self.__file_formats[format], self.__file_units[format], file_handle)
-    if( format.find('icool') > -1 ):
-      self.set('pid', Common.icool_pid_to_pdg[self.get('pid')])
+      pid = Common.pdg_pid_to_icool[pid]
     if( format.find('mars') > -1 ):
-      self.set('pid', Common.mars_pid_to_pdg [self.get('pid')])
+      pid = Common.pdg_pid_to_mars [pid]
+    self.__write_formatted(self.__file_formats[format], self.__file_units[format], file_handle, pid=pid)
 
   @classmethod
   def write_list_builtin_formatted(cls, list_of_hits, file_type_string, file_name, user_comment=None):
@@ -447,8 +444,10 @@ class Hit(object):
         current_hits.append(hit_in)
       else:
         for hit_out in current_hits:
-          try:    hit_out.write_builtin_formatted(file_type_string, filehandle)
-          except: pass
+          try:
+            hit_out.write_builtin_formatted(file_type_string, filehandle)
+          except:
+            print('Warning - failed to write ',hit_out)
         current_hits = [hit_in]
       old_hit = hit_in
     for hit_out in current_hits:
@@ -725,12 +724,14 @@ class Hit(object):
       self.set('global_weight', set_dict['global_weight'])
 
   #write formatted output - don't touch mass or pid beyond reading them
-  def __write_formatted(self, format_list, format_units_dict, file_handle, separator=' '):
+  def __write_formatted(self, format_list, format_units_dict, file_handle, separator=' ', pid=None):
+    line = ''
     for key in format_list:
-      if key == '': value = 0
+      if   key == '': value = 0
+      elif key == 'pid' and pid is not None: value = pid #pid in the convention of the format
       else:         value = Hit._default_var_types[key](self.get(key)/Common.units[ format_units_dict[key] ])
-      file_handle.write( str( value )+separator)
-    file_handle.write('\n')
+      line += str( value )+separator
+    file_handle.write(line+'\n')
 
   # extract virtual hits from the root tree
   def __get_maus_root_virtual_hits(mc_event, track_number):
-- 
2.43.0


From 46bdddbf2e652c9de2809c99500bc3fd1c4c5c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:16 +0000
Subject: [PATCH 033/128] fix: set_g4bl_unit changed the writer of one format
 only

Neither the reader nor g4beamline_bl_track_file_2 followed the selected
length unit, so that hits written in cm were read back a factor 10 too small.
---
 xboa/hit/_hit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 047cffa..ae94d7d 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -693,9 +693,10 @@ class Hit(object):
 
     e.g. set_g4bl_unit('m') would set the length unit to metres
     """
-    Hit.__file_units['g4beamline_bl_track_file']['x'] = unit
-    Hit.__file_units['g4beamline_bl_track_file']['y'] = unit
-    Hit.__file_units['g4beamline_bl_track_file']['z'] = unit
+    for file_units in Hit.__file_units, xboa.hit.factory.BuiltinHitFactory.file_units:
+      for format in 'g4beamline_bl_track_file', 'g4beamline_bl_track_file_2':
+        for key in 'x', 'y', 'z':
+          file_units[format][key] = unit
   set_g4bl_unit = staticmethod(set_g4bl_unit)
 
   def __getstate__(self):
-- 
2.43.0


From 7bbdc1aee68c15f343c60b2f5c874f9c52321fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:16 +0000
Subject: [PATCH 034/128] fix: g4beamline files did not say which length unit
 they are in

Reading a file with a cm header line selects cm for everything that is
written afterwards, without a trace in the file; and such a file, or any
other without the line, was read in whichever unit came last.
---
 xboa/hit/_hit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index ae94d7d..cd5db4c 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -483,6 +483,9 @@ class Hit(object):
     """
     if user_comment == None: file_header = Hit.__file_headers[file_type_string].replace(str('<user>'), str(Hit.__default_user_string))
     else:                    file_header = Hit.__file_headers[file_type_string].replace(str('<user>'), str(user_comment))
+    if file_type_string.find('g4beamline') > -1: #length unit can change, so say which it is
+      unit = Hit.__file_units[file_type_string]['x']
+      file_header += '#'+' '.join([unit]*3)+' MeV/c MeV/c MeV/c ns - - - - -\n'
     return file_header
   file_header = staticmethod(file_header)
 
-- 
2.43.0


From c1915d929251b3784afd26eaf973c7f228338180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 035/128] fix: spill and global_weight columns of a user format
 raised KeyError

Both are variables that can be set and got, but had no type for reading and
writing. The global weight is set once the whole line is known, as it belongs
to the particle with the spill, event and particle number of the line.
---
 xboa/hit/_hit.py                       | 2 +-
 xboa/hit/factory/_line_factory_base.py | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index cd5db4c..77c7198 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -835,7 +835,7 @@ class Hit(object):
                            'l_kin':get_l_kin,'':__do_nothing}
   __set_variables        = {'p':set_p,'x\'':set_xP,'y\'':set_yP,'t\'':set_tP,'ct':set_ct,'kinetic_energy':set_ek,'':__do_nothing}
   _default_var_types    = {'x':float,'y':float,'z':float,'t':float,'px':float,'py':float,'pz':float,'energy':float,'bx':float,'by':float,'bz':float,
-                            'ex':float,'ey':float,'ez':float,'eventNumber':int, 'event_number':int, 'particleNumber':int, 'particle_number':int, 'pid':int,'status':int,'station':int,'local_weight':float,
+                            'ex':float,'ey':float,'ez':float,'eventNumber':int, 'event_number':int, 'particleNumber':int, 'particle_number':int, 'pid':int,'status':int,'station':int,'spill':int,'local_weight':float,'global_weight':float,
                             'sx':float,'sy':float,'sz':float,'mass':float,'path_length':float,'proper_time':float,'e_dep':float, 'charge':float}
 
   __get_keys = []
diff --git a/xboa/hit/factory/_line_factory_base.py b/xboa/hit/factory/_line_factory_base.py
index 732844c..e0069cb 100644
--- a/xboa/hit/factory/_line_factory_base.py
+++ b/xboa/hit/factory/_line_factory_base.py
@@ -53,6 +53,7 @@ class LineFactoryBase(HitFactoryBase):
         if not(len(words) == len(format_list)): 
             raise xboa.hit.BadEventError("Read operation failed with line "+str(line))
         a_hit = xboa.hit.Hit()
+        global_weight = None
         for key in format_list:
             value = words.pop()
             if key != '':
@@ -60,9 +61,14 @@ class LineFactoryBase(HitFactoryBase):
                     value = cls._parse(xboa.hit.Hit._default_var_types[key], value)
                     if xboa.hit.Hit._default_var_types[key] == float:
                         value *= common.units[format_units_dict[key]]
-                    a_hit.set(key, value)
+                    if key == 'global_weight':
+                        global_weight = value
+                    else:
+                        a_hit.set(key, value)
                 except (ValueError, OverflowError): # not a number, or not one that fits
                     raise xboa.hit.BadEventError("Read operation failed with line "+str(line))
+        if global_weight != None: # belongs to the particle the line identifies
+            a_hit.set('global_weight', global_weight)
         return a_hit
 
     @classmethod
-- 
2.43.0


From 5349b2476ad8f2d1e7ae383d269a0dd90ca03fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 036/128] fix: no MAUS JSON file could be read

dict.iteritems is gone from python 3.
---
 xboa/hit/factory/_maus_json_hit_factory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xboa/hit/factory/_maus_json_hit_factory.py b/xboa/hit/factory/_maus_json_hit_factory.py
index e8a0ad3..5ba41a6 100644
--- a/xboa/hit/factory/_maus_json_hit_factory.py
+++ b/xboa/hit/factory/_maus_json_hit_factory.py
@@ -130,10 +130,10 @@ class MausJsonHitFactory(HitFactoryBase):
         xboa_dict = {}
         three_vec_conversions = cls._maus_three_vec_conversions[format]
         conversion_dict = cls._maus_variable_conversions[format]
-        for maus_name, xboa_suffix in three_vec_conversions.iteritems():
-          for maus_xyz, value in maus_dict[maus_name].iteritems():
+        for maus_name, xboa_suffix in three_vec_conversions.items():
+          for maus_xyz, value in maus_dict[maus_name].items():
             xboa_dict[xboa_suffix+maus_xyz] = value
-        for maus_key, xboa_key in conversion_dict.iteritems():
+        for maus_key, xboa_key in conversion_dict.items():
           xboa_dict[xboa_key] = maus_dict[maus_key]
         xboa_dict['event_number'] = event_number
         if 'mass' not in xboa_dict.keys():
-- 
2.43.0


From 3c045fa956a2bfdd64a3c9dff21dd26ebf47eb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:19 +0000
Subject: [PATCH 037/128] fix: a broken or empty piece of a MAUS JSON file lost
 the rest

A line that is not a JSON document, for example the truncated last line or
a blank one, aborted the load; an event without hits of the requested type
lost the hits of all later events of the spill.
---
 xboa/hit/factory/_maus_json_hit_factory.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/xboa/hit/factory/_maus_json_hit_factory.py b/xboa/hit/factory/_maus_json_hit_factory.py
index 5ba41a6..eca2222 100644
--- a/xboa/hit/factory/_maus_json_hit_factory.py
+++ b/xboa/hit/factory/_maus_json_hit_factory.py
@@ -59,7 +59,11 @@ class MausJsonHitFactory(HitFactoryBase):
                 line = self.fin.readline()
                 if line == "":
                     raise xboa.hit.BadEventError("Reached the end of the file")
-                new_line = json.loads(line)
+                try:
+                    new_line = json.loads(line)
+                except ValueError:
+                    print("Warning - failed to parse a line of the file")
+                    continue
                 if "maus_event_type" in new_line and \
                    new_line["maus_event_type"] == "Spill":
                     found_spill = True
@@ -98,7 +102,7 @@ class MausJsonHitFactory(HitFactoryBase):
         Read a virtual hits from the json_document
         """
         for ev, mc_event in enumerate(self.spill["mc_events"]):
-            for virtual_hit in mc_event["virtual_hits"]:
+            for virtual_hit in mc_event.get("virtual_hits", []):
                 hit = self.hit_from_maus_object("virtual_hit", virtual_hit, ev)
                 hit["spill"] = self.spill["spill_number"]
                 self.hits.append(hit)
@@ -108,7 +112,7 @@ class MausJsonHitFactory(HitFactoryBase):
         Read a virtual hits from the json_document
         """
         for ev, mc_event in enumerate(self.spill["mc_events"]):
-            for virtual_hit in mc_event["special_virtual_hits"]:
+            for virtual_hit in mc_event.get("special_virtual_hits", []):
                 hit = self.hit_from_maus_object("special_virtual_hit", virtual_hit, ev)
                 hit["spill"] = self.spill["spill_number"]
                 self.hits.append(hit)
@@ -118,6 +122,8 @@ class MausJsonHitFactory(HitFactoryBase):
         Read primaries from the json_document
         """
         for ev, mc_event in enumerate(self.spill["mc_events"]):
+            if "primary" not in mc_event:
+                continue
             hit = self.hit_from_maus_object("primary", mc_event["primary"], ev)
             hit["spill"] = self.spill["spill_number"]
             self.hits.append(hit)
-- 
2.43.0


From 4fd533850c3b34c8ead7dc90610eab0b26bd207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:19 +0000
Subject: [PATCH 038/128] fix: read_maus_json_file read the first of the
 requested types only

The file handle was at the end of the file for all the others.
---
 xboa/bunch/_bunch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index b0f30af..f59c6ab 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -465,6 +465,7 @@ class Bunch:
     json_file = open(file_name, 'r')
     hits = []
     for maus_type in list_of_maus_types:
+        json_file.seek(0)
         fac = xboa.hit.factory.MausJsonHitFactory(json_file, maus_type)
         while number_of_hits < 0 or len(hits) < number_of_hits:
             try:
-- 
2.43.0


From 0f497d09ce3860a01af0a88723df148adf38a499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:19 +0000
Subject: [PATCH 039/128] fix: number_of_hits of MAUS files counted hits that
 were filtered out

and was applied to each file of a pattern rather than to the bunch, unlike
in the other formats.
---
 xboa/bunch/_bunch.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index f59c6ab..bae2ac1 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -316,7 +316,7 @@ class Bunch:
           print("Loading", file_name)
           hit_list += Bunch.read_maus_root_file(
                                           file_name,
-                                          number_of_hits,
+                                          number_of_hits - len(hit_list) if number_of_hits >= 0 else -1,
                                           list_of_maus_types=[file_type_string],
                                           test_function=test_function
                                   )
@@ -327,10 +327,10 @@ class Bunch:
           print("Loading", file_name)
           hit_list += Bunch.read_maus_json_file(
                                           file_name,
-                                          number_of_hits,
-                                          list_of_maus_types=[file_type_string]
+                                          number_of_hits - len(hit_list) if number_of_hits >= 0 else -1,
+                                          list_of_maus_types=[file_type_string],
+                                          test_function=test_function
                                   )
-      hit_list = [hit for hit in hit_list if test_function == None or test_function(hit)]
       return Bunch.new_from_hits(hit_list)
     bunch = Bunch()
     bad_event_counter = 0
@@ -454,12 +454,16 @@ class Bunch:
   def read_maus_json_file(file_name, number_of_hits=-1,
                           list_of_maus_types=['maus_json_virtual_hit',
                                               'maus_json_primary',
-                                              'maus_json_special_virtual_hit']):
+                                              'maus_json_special_virtual_hit'],
+                          test_function=None):
     """
     Initialise a bunch from a MAUS file.
 
     - file_name      = string that defines the file_name to be used
+    - number_of_hits = integer maximum number of hits to read in. If negative,
+      this variable is ignored.
     - list_of_maus_types = loads all specified types from the MAUS file
+    - test_function = return hits for which test_function(hit) == True
     """
     config.has_json()
     json_file = open(file_name, 'r')
@@ -469,9 +473,11 @@ class Bunch:
         fac = xboa.hit.factory.MausJsonHitFactory(json_file, maus_type)
         while number_of_hits < 0 or len(hits) < number_of_hits:
             try:
-                hits.append(fac.make_hit())
+                hit = fac.make_hit()
             except BadEventError:
                 break
+            if test_function == None or test_function(hit):
+                hits.append(hit)
     json_file.close()
     return hits
   read_maus_json_file = staticmethod(read_maus_json_file)
-- 
2.43.0


From 5205329250a042d0fee2147a29ec23a74c09b7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:19 +0000
Subject: [PATCH 040/128] fix: order of hits loaded from a file pattern
 depended on the file system

glob returns files in arbitrary order, so that the same files gave different
bunches, and number_of_hits selected different hits.
---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index bae2ac1..7771620 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -307,7 +307,7 @@ class Bunch:
                      str(file_type_string)+' - try one of '+\
                      str(Hit.file_types())
         raise IOError(err_string)
-    file_name_list = glob.glob(file_name_glob)
+    file_name_list = sorted(glob.glob(file_name_glob))
     if len(file_name_list) == 0:
         raise IOError("Could not find file matching name "+str(file_name_glob))
     if file_type_string.find('maus_root') > -1:
-- 
2.43.0


From 257b1b4f2fbcd74b56c647815f2968eeece53d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 041/128] fix: maus_json_special_virtual_hit is listed as a
 file type but could not be written

KeyError from every table that describes the format; the entries are those of
the reader.
---
 xboa/hit/_hit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 77c7198..343e773 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -856,16 +856,19 @@ class Hit(object):
 
   __maus_three_vec_conversions = { # maus three vectors are sub-dicts of virtual_hit
     "maus_json_virtual_hit":{"position":"", "momentum":"p", "b_field":"b", "e_field":"e"},
+    "maus_json_special_virtual_hit":{"position":"", "momentum":"p"},
     "maus_json_primary":{"position":"", "momentum":"p"}
   }
 
   __maus_variable_conversions = {
     "maus_json_virtual_hit":{"station_id":"station", "particle_id":"pid", "track_id":"particle_number", "time":"t", "mass":"mass", "charge":"charge", "proper_time":"proper_time", "path_length":"path_length"},
+    "maus_json_special_virtual_hit":{"particle_id":"pid", "track_id":"particle_number", "time":"t", "mass":"mass", "charge":"charge", "path_length":"path_length", "energy_deposited":"e_dep"},
     "maus_json_primary":{"particle_id":"pid", "time":"t", "energy":"energy"} # we also force "mass" from "pid"
   }
 
   __maus_paths             = {
       "maus_json_virtual_hit":["mc_events", ["particle_number"], "virtual_hits", ["station"]],
+      "maus_json_special_virtual_hit":["mc_events", ["particle_number"], "special_virtual_hits", ["station"]],
       "maus_json_primary":["mc_events", ["particle_number"], "primary"],
   }
 
@@ -899,6 +902,7 @@ class Hit(object):
     'MadX'         : {},
     'mars_1'       : {'eventNumber':'','pid':'','x':'mm','y':'mm','z':'mm','px':'GeV/c','py':'GeV/c','pz':'GeV/c','energy':'GeV','ct':'cm','local_weight':''},
     'maus_json_virtual_hit': {},
+    'maus_json_special_virtual_hit': {},
     'maus_json_primary': {},
     }
 
@@ -912,6 +916,7 @@ class Hit(object):
     'MadX':'',
     'mars_1':'',
     'maus_json_virtual_hit':'',
+    'maus_json_special_virtual_hit':'',
     'maus_json_primary':'',
   }
   __default_user_string = 'File generated by X_BOA'
-- 
2.43.0


From 6ad7cc6733868fba99a83e57cd27706b1bc4f5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 042/128] fix: MAUS JSON files were not closed after writing

so that the end of the file could be missing until the handle was collected.
---
 xboa/hit/_hit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 343e773..f306074 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -434,6 +434,7 @@ class Hit(object):
         item["maus_event_type"] = "Spill"
         item["spill_number"] = spill_number
         print(json.dumps(item), file=filehandle)
+      filehandle.close()
       return
     sort_key = lambda hit: hit["station"]
     list_of_hits = sorted(list_of_hits, key=sort_key)
-- 
2.43.0


From 2321491ece8e2f230a021e832376d3a6127d745b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 043/128] fix: new_list_from_maus_json and _root raised, and
 hit_generator gave one hit

The names and the order of the factory arguments were wrong, and the
generator yielded at most two hits, printing as it went.
---
 xboa/hit/_hit.py                      |  4 ++--
 xboa/hit/factory/_hit_factory_base.py | 17 +++++++----------
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index f306074..31c87db 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -199,7 +199,7 @@ class Hit(object):
     Returns a list of hit objects. Station number will be taken from the relevant maus_type. event_number will be given by the spill_number. track_number will be given by
     the index on mc_events or recon_events
     """
-    fac = xboa.hit.factory.factory.MausRootHitFactory(format, root_tree, entry_number)
+    fac = xboa.hit.factory.MausRootHitFactory(root_tree, format, entry_number)
     hit_list = [hit for hit in fac.hit_generator()]
     return hit_list
 
@@ -215,7 +215,7 @@ class Hit(object):
     relevant maus_type. event_number will be given by the spill_number. 
     track_number will be given by the index on mc_events or recon_events.
     """
-    fac = xboa.hit.factory.factory.MausJsonHitFactory(format, file_handle)
+    fac = xboa.hit.factory.MausJsonHitFactory(filehandle, format)
     hit_list = [hit for hit in fac.hit_generator()]
     return hit_list
     
diff --git a/xboa/hit/factory/_hit_factory_base.py b/xboa/hit/factory/_hit_factory_base.py
index d51d445..f11f122 100644
--- a/xboa/hit/factory/_hit_factory_base.py
+++ b/xboa/hit/factory/_hit_factory_base.py
@@ -33,18 +33,15 @@ class HitFactoryBase(object):
         raise NotImplementedError("make_hit not implemented")
 
     def hit_generator(self):
-        try:
-            print("gen in")
-            yield self.make_hit()
-            print("gen out")
-        except (EOFError, xboa.hit.BadEventError):
-            self.new_spill()
+        """
+        Generate hits until there are no more
+        """
+        while True:
             try:
-                yield self.make_hit()
+                hit = self.make_hit()
             except (EOFError, xboa.hit.BadEventError):
-                raise StopIteration("Finished")
-        except StopIteration:
-            raise
+                return
+            yield hit
 
     def new_spill(self):
         """
-- 
2.43.0


From 43ca478e3f8f56957ede4b227776435e41d8b66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 044/128] fix: MAUS ROOT primaries had no charge

It was looked up by the charge, which is still 0, and not by the pid.
---
 xboa/hit/factory/_maus_root_hit_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/hit/factory/_maus_root_hit_factory.py b/xboa/hit/factory/_maus_root_hit_factory.py
index 2bcb986..783dc58 100644
--- a/xboa/hit/factory/_maus_root_hit_factory.py
+++ b/xboa/hit/factory/_maus_root_hit_factory.py
@@ -171,7 +171,7 @@ class MausRootHitFactory(HitFactoryBase):
                 hit["mass"] = 0.
                 self.bad_pid(hit["pid"])
             try:
-                hit["charge"] = common.pdg_pid_to_charge[hit["charge"]]
+                hit["charge"] = common.pdg_pid_to_charge[hit["pid"]]
             except KeyError:
                 hit["charge"] = 0.
                 self.bad_pid(hit["pid"])
-- 
2.43.0


From 086e6a02d1d0efc860a46515d81fc13b4ceed3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:17 +0000
Subject: [PATCH 045/128] fix: an integer too large for a hit aborted the whole
 load

Hit.set reports a value that does not fit as IndexError.
---
 xboa/hit/factory/_line_factory_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/hit/factory/_line_factory_base.py b/xboa/hit/factory/_line_factory_base.py
index e0069cb..93330a5 100644
--- a/xboa/hit/factory/_line_factory_base.py
+++ b/xboa/hit/factory/_line_factory_base.py
@@ -65,7 +65,7 @@ class LineFactoryBase(HitFactoryBase):
                         global_weight = value
                     else:
                         a_hit.set(key, value)
-                except (ValueError, OverflowError): # not a number, or not one that fits
+                except (ValueError, OverflowError, IndexError): # not a number, or not one that fits
                     raise xboa.hit.BadEventError("Read operation failed with line "+str(line))
         if global_weight != None: # belongs to the particle the line identifies
             a_hit.set('global_weight', global_weight)
-- 
2.43.0


From 34764d734fbdb18326ebfc78a4747d98c58e0344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 046/128] fix: reading MAUS scifi track points ended in a
 RuntimeError

StopIteration raised in a generator is an error since python 3.7.
---
 xboa/hit/factory/_maus_root_recon_hit_factory.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/xboa/hit/factory/_maus_root_recon_hit_factory.py b/xboa/hit/factory/_maus_root_recon_hit_factory.py
index 3d9872c..71525d0 100644
--- a/xboa/hit/factory/_maus_root_recon_hit_factory.py
+++ b/xboa/hit/factory/_maus_root_recon_hit_factory.py
@@ -129,7 +129,6 @@ class MausRootReconHitFactory(HitFactoryBase):
                 hit["spill"] = self.spill_number
                 hit["particle_number"] = track_i
                 yield hit
-        raise StopIteration("Out of events")
 
     def _read_tof_01_space_points(self, tof_event):
         """
-- 
2.43.0


From c26c22d6efcab9afbf5d5084b1e8eab673c44533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:25 +0000
Subject: [PATCH 047/128] fix: keyword names of WeightContext calls were read
 from freed strings

---
 xboa/core/pylib/PyWeightContext.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/xboa/core/pylib/PyWeightContext.cc b/xboa/core/pylib/PyWeightContext.cc
index d4b47f6..cf275d2 100644
--- a/xboa/core/pylib/PyWeightContext.cc
+++ b/xboa/core/pylib/PyWeightContext.cc
@@ -40,10 +40,9 @@ std::string get_default_weight_docstring =
 std::string("\n");
 
 
-// A whole world of pain to make a non-const c-string. There must be an easier way!
-char* cstring(std::string word) {
-    char* dest = const_cast<char*>(word.data());
-    return dest;
+// Make a non-const c-string; word must outlive the pointer, e.g. be a literal
+char* cstring(const char* word) {
+    return const_cast<char*>(word);
 }
 
 typedef WeightContext::HitId HitId;
-- 
2.43.0


From 1ee7c3aef1b1e16829bb0d6c42f21a54a7eda9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:25 +0000
Subject: [PATCH 048/128] fix: objects claiming to be a WeightContext were used
 as one

---
 xboa/core/pylib/PyWeightContext.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/xboa/core/pylib/PyWeightContext.cc b/xboa/core/pylib/PyWeightContext.cc
index cf275d2..a5f131f 100644
--- a/xboa/core/pylib/PyWeightContext.cc
+++ b/xboa/core/pylib/PyWeightContext.cc
@@ -352,10 +352,8 @@ PyWeightContext* C_API::create_empty_weightcontext() {
 }
 
 bool C_API::is_PyWeightContext(PyObject* obj) {
-     if (PyObject_IsInstance(obj, (PyObject*)&PyWeightContextType)) {
-        return true;
-    }
-    return false;
+    // not PyObject_IsInstance, which believes an object's __class__ attribute
+    return obj != NULL && PyObject_TypeCheck(obj, &PyWeightContextType);
 }
 
 /** NOTE this is the reference counting for the smart pointers */
-- 
2.43.0


From 2ab550035f25bc61875f6e4cf977f11d6d17459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 049/128] fix: instances of classes inheriting from
 WeightContext had no weights and crashed

---
 xboa/core/pylib/PyWeightContext.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/xboa/core/pylib/PyWeightContext.cc b/xboa/core/pylib/PyWeightContext.cc
index a5f131f..532148e 100644
--- a/xboa/core/pylib/PyWeightContext.cc
+++ b/xboa/core/pylib/PyWeightContext.cc
@@ -166,9 +166,9 @@ PyObject* richCompare(PyObject* self, PyObject* other, int op) {
     Py_RETURN_RICHCOMPARE(pywc1->cppcontext_.get(), pywc2->cppcontext_.get(), op);
 }
 
-PyObject *_alloc(PyTypeObject *type, Py_ssize_t nitems) {
-    // allocate with python, as classes that inherit from this one are larger
-    PyObject* self = PyType_GenericAlloc(type, nitems);
+PyObject *_new(PyTypeObject *type, PyObject *args, PyObject *kwds) {
+    // called for classes that inherit from this one also (tp_alloc is not)
+    PyObject* self = type->tp_alloc(type, 0);
     if (self != NULL) {
         PyWeightContext* pywc = reinterpret_cast<PyWeightContext*>(self);
         new (&pywc->cppcontext_) SmartPointer<WeightContext>(new WeightContext());
@@ -317,7 +317,7 @@ static PyTypeObject PyWeightContextType = {
     0,                         /* tp_descr_set */
     0,                         /* tp_dictoffset */
     (initproc)_init,      /* tp_init */
-    (allocfunc)_alloc,    /* tp_alloc, called by new */
+    0,                    /* tp_alloc, inherited */
     0,                  /* tp_new */
     0,                  /* tp_free, inherited */
     0,                  /* tp_is_gc */
@@ -348,7 +348,7 @@ static struct PyModuleDef weight_context_def = {
 };
 
 PyWeightContext* C_API::create_empty_weightcontext() {
-    return reinterpret_cast<PyWeightContext*>(_alloc(&PyWeightContextType, 0));
+    return reinterpret_cast<PyWeightContext*>(_new(&PyWeightContextType, NULL, NULL));
 }
 
 bool C_API::is_PyWeightContext(PyObject* obj) {
@@ -363,7 +363,7 @@ std::map<WeightContext*, std::size_t>* weightcontext_smartpointer_context =
 PyMODINIT_FUNC PyInit__weight_context(void) {
     SmartPointer<WeightContext>::set_context(weightcontext_smartpointer_context);
 
-    PyWeightContextType.tp_new = PyType_GenericNew;
+    PyWeightContextType.tp_new = _new;
     if (PyType_Ready(&PyWeightContextType) < 0) {
         return NULL;
     }
-- 
2.43.0


From 752c8da4a74cc2a219ba1cb1849afd15fa6a7669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 050/128] fix: cut_double called the comparator after is_global
 had raised

---
 xboa/core/pylib/PyBunchcore.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xboa/core/pylib/PyBunchcore.cc b/xboa/core/pylib/PyBunchcore.cc
index 9e63156..c8d2e98 100644
--- a/xboa/core/pylib/PyBunchcore.cc
+++ b/xboa/core/pylib/PyBunchcore.cc
@@ -349,7 +349,9 @@ PyObject* cut_double(PyObject* self, PyObject *args, PyObject *kwds) {
         return NULL;
     }
     // convert to cpp
-    bool is_global = py_is_global == NULL || PyObject_IsTrue(py_is_global) == 1;
+    int is_global = py_is_global == NULL ? 1 : PyObject_IsTrue(py_is_global);
+    if (is_global == -1)
+        return NULL; // not a truth value
     std::string cut_variable(cut_var_c_str);
     utils::PythonComparator comp(py_comparator);
     // call bunchcore core function
-- 
2.43.0


From 71ec66500aef3152a2e062bbf4cb366d57684453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:06 +0000
Subject: [PATCH 051/128] fix: build_ellipse_2d raised ZeroDivisionError, not
 ValueError, for beta 0

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 7771620..f32733e 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1455,11 +1455,11 @@ class Bunch:
     """
     config.has_numpy()
     cov = matrix(numpy.zeros((2,2)))
-    gamma = (1.+alpha**2)/beta
     if beta <= 0.:
       raise ValueError("Beta "+str(beta)+" must be positive")
     if emittance <= 0.:
       raise ValueError("Emittance "+str(emittance)+" must be positive")
+    gamma = (1.+alpha**2)/beta
     if geometric:
       cov[0,0] = beta *emittance
       cov[1,0] = -alpha*emittance
-- 
2.43.0


From 174b66769626a2e706084dc00a2a7bf29560b3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:38 +0000
Subject: [PATCH 052/128] fix: light nuclei were listed with charge 0

---
 xboa/common/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index eb3ed30..1be1fa3 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -88,7 +88,7 @@ pdg_pid_to_mass  = {0:0, 11:0.510998910, 12:0., 13:105.6583668, 14:0., 22:0., 11
 pdg_pid_to_name  = {0:'none', 11:'e-', 12:'electron neutrino', 13:'mu-', 14:'muon neutrino', 22:'photon', 111:'pi0', 211:'pi+', 321:'K+', 2112:'neutron', 2212:'proton', 1000010020:'deuterium', 1000010030:'tritium', 1000020030:'3He', 1000020040:'4He', 130:'K0L', 310:'K0S', 311:'K0', 3122:'lambda',
 -11:'e+', -12:'electron antineutrino', -13:'mu+', -14:'muon antineutrino', -211:'pi-', -321:'K-', -2112:'antineutron', -2212:'antiproton', -3122:'antilambda'}
 
-pdg_pid_to_charge  = {0:0, 11:-1, 12:0, 13:-1, 14:0, 22:0, 111:0, 211:+1, 321:+1, 2112:0, 2212:+1, 1000010020:0, 1000010030:0, 1000020030:0, 1000020040:0, 130:0, 310:0, 311:0, 3122:0, -11:+1, -12:0, -13:+1, -14:0, -211:-1, -321:-1, -2112:0, -2212:-1, -3122:0}
+pdg_pid_to_charge  = {0:0, 11:-1, 12:0, 13:-1, 14:0, 22:0, 111:0, 211:+1, 321:+1, 2112:0, 2212:+1, 1000010020:+1, 1000010030:+1, 1000020030:+2, 1000020040:+2, 130:0, 310:0, 311:0, 3122:0, -11:+1, -12:0, -13:+1, -14:0, -211:-1, -321:-1, -2112:0, -2212:-1, -3122:0}
 
 
 constants        = {'c_light':299.792458, 'pi':3.14159265,'echarge':1}
-- 
2.43.0


From 955c2a768926f7c074478eb18f1dad812f555cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:38 +0000
Subject: [PATCH 053/128] fix: the anti K0 that MARS files may hold had neither
 name nor charge

---
 xboa/common/_common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 1be1fa3..6ce0b2c 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -86,9 +86,9 @@ for k,v in mars_pid_to_pdg.items():
 
 pdg_pid_to_mass  = {0:0, 11:0.510998910, 12:0., 13:105.6583668, 14:0., 22:0., 111:134.9766, 211:139.57018, 321:493.667, 2112:939.56536, 2212:938.271996, 1000010020:1876.1239, 1000010030:2809.432, 1000020030:2809.41346, 1000020040: 3728.4001, 130:497.614, 310:497.614, 311:497.614, 3122:1115.683}
 pdg_pid_to_name  = {0:'none', 11:'e-', 12:'electron neutrino', 13:'mu-', 14:'muon neutrino', 22:'photon', 111:'pi0', 211:'pi+', 321:'K+', 2112:'neutron', 2212:'proton', 1000010020:'deuterium', 1000010030:'tritium', 1000020030:'3He', 1000020040:'4He', 130:'K0L', 310:'K0S', 311:'K0', 3122:'lambda',
--11:'e+', -12:'electron antineutrino', -13:'mu+', -14:'muon antineutrino', -211:'pi-', -321:'K-', -2112:'antineutron', -2212:'antiproton', -3122:'antilambda'}
+-11:'e+', -12:'electron antineutrino', -13:'mu+', -14:'muon antineutrino', -211:'pi-', -321:'K-', -311:'antiK0', -2112:'antineutron', -2212:'antiproton', -3122:'antilambda'}
 
-pdg_pid_to_charge  = {0:0, 11:-1, 12:0, 13:-1, 14:0, 22:0, 111:0, 211:+1, 321:+1, 2112:0, 2212:+1, 1000010020:+1, 1000010030:+1, 1000020030:+2, 1000020040:+2, 130:0, 310:0, 311:0, 3122:0, -11:+1, -12:0, -13:+1, -14:0, -211:-1, -321:-1, -2112:0, -2212:-1, -3122:0}
+pdg_pid_to_charge  = {0:0, 11:-1, 12:0, 13:-1, 14:0, 22:0, 111:0, 211:+1, 321:+1, 2112:0, 2212:+1, 1000010020:+1, 1000010030:+1, 1000020030:+2, 1000020040:+2, 130:0, 310:0, 311:0, 3122:0, -11:+1, -12:0, -13:+1, -14:0, -211:-1, -321:-1, -2112:0, -2212:-1, -311:0, -3122:0}
 
 
 constants        = {'c_light':299.792458, 'pi':3.14159265,'echarge':1}
-- 
2.43.0


From 518a4cd3f9c525a273907d3aa875cdd1d848859c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:38 +0000
Subject: [PATCH 054/128] fix: substitute emptied a file that was both input
 and output

---
 xboa/common/_common.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 6ce0b2c..cae3430 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -146,14 +146,13 @@ def substitute(file_name_in, file_name_out, switch_dict):
 
   e.g. common.substitute('file.in', 'file.out', {'energy':'momentum'})
   """
-  fin  = open(file_name_in,  'r')
-  fout = open(file_name_out, 'w')
-  for line in fin:
-    for key, value in switch_dict.items():
-      line = line.replace(str(key), str(value))
-    fout.write(line)
-  fin.close()
-  fout.close()
+  with open(file_name_in, 'r') as fin: # the output may be the same file
+    lines = fin.readlines()
+  with open(file_name_out, 'w') as fout:
+    for line in lines:
+      for key, value in switch_dict.items():
+        line = line.replace(str(key), str(value))
+      fout.write(line)
 
 wrapped_y_function = None
 def __y_function_wrapper(x_list_of_lists):
-- 
2.43.0


From 5896d7787e305088e95db52dfe28a6a831f70b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:38 +0000
Subject: [PATCH 055/128] fix: fit_ellipse normalised its cut for two
 dimensions whatever the points

---
 xboa/common/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index cae3430..e22ec3d 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -977,7 +977,7 @@ def _get_fit_ellipse_covariance_matrix(points, weights, in_cut):
 
 def _update_fit_ellipse_cut(points, cov_inv, mean, eps_cut):
     n_points = len(points)
-    n_dim = 2
+    n_dim = len(mean)
     in_cut = [True for i in range(n_points)]
     sqrt_det_inv = numpy.linalg.det(cov_inv)**(1./float(n_dim))
     for i in range(n_points):
-- 
2.43.0


From 304457ad3c207dc51abfab53af083a6f56f7f4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:08 +0000
Subject: [PATCH 056/128] fix: an exception that cannot be pickled lost the
 results of every job

---
 xboa/common/_common.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index e22ec3d..ae0f1e7 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -914,8 +914,12 @@ def __function_with_queue(args):
   (function_call, queue, function_arg, index) = args
   try:
     queue.put((index, function_call(*function_arg)))
-  except:
-    queue.put((index, sys.exc_info()[1]))
+  except BaseException as error:
+    error.__traceback__ = None # do not keep this frame, with queue, alive
+    try:
+      queue.put((index, error))
+    except Exception: # not every exception can be sent to another process
+      queue.put((index, RuntimeError(type(error).__name__+': '+str(error))))
 
 def process_list(function_call, list_of_args, max_n_processes):
   """
-- 
2.43.0


From 10bcd956faaab6e7ec293a5f8b2bcee23226d27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:18 +0000
Subject: [PATCH 057/128] fix: a running subprocess kept the program from
 ending

---
 xboa/common/_common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index ae0f1e7..9c03071 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -55,6 +55,7 @@ except ImportError:
     pass
 try:
     import multiprocessing
+    import multiprocessing.util # its exit handler waits for children; it has to be registered before __atexit
 except ImportError:
     pass
 
-- 
2.43.0


From 6a4cb72f31fc0f54736428f8de4ba79074e27eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:52 +0000
Subject: [PATCH 058/128] fix: tracking processes opened their pickle files in
 text mode

---
 xboa/tracking/tracking_process/_bsub_process.py     |  5 ++---
 xboa/tracking/tracking_process/_tracking_process.py | 13 +++++++------
 .../tracking_process/xboa_tracking_process.py       |  8 ++++----
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/xboa/tracking/tracking_process/_bsub_process.py b/xboa/tracking/tracking_process/_bsub_process.py
index eb455ae..4d95a9e 100644
--- a/xboa/tracking/tracking_process/_bsub_process.py
+++ b/xboa/tracking/tracking_process/_bsub_process.py
@@ -46,9 +46,8 @@ class BSubProcess(TrackingProcess):
         self.queue = queue
         self.job_time = job_time
         out_path = os.path.join(self.out_dir, self.pickle_jar)
-        process_out = open(out_path, "w")
-        pickle.dump(self, process_out)
-        process_out.close()
+        with open(out_path, "wb") as process_out:
+            pickle.dump(self, process_out)
 
     def start(self):
         """
diff --git a/xboa/tracking/tracking_process/_tracking_process.py b/xboa/tracking/tracking_process/_tracking_process.py
index cde9ce5..8b15db8 100644
--- a/xboa/tracking/tracking_process/_tracking_process.py
+++ b/xboa/tracking/tracking_process/_tracking_process.py
@@ -69,8 +69,9 @@ class TrackingProcess(object):
         Set the hit list over which the TrackingProcess should run
         """
         self.hit_list = hit_list
-        process_out = open(os.path.join(self.out_dir, self.pickle_jar), "w")
-        pickle.dump(self, process_out)
+        out_path = os.path.join(self.out_dir, self.pickle_jar)
+        with open(out_path, "wb") as process_out:
+            pickle.dump(self, process_out)
 
     def start(self):
         """
@@ -139,8 +140,8 @@ class TrackingProcess(object):
         if not os.path.exists(return_path):
             raise RuntimeError("The TrackingProcess finished without leaving "+\
                                "a return value")
-        fin = open(return_path)
-        self.return_value = pickle.load(fin)
+        with open(return_path, "rb") as fin:
+            self.return_value = pickle.load(fin)
         return self.return_value
 
     @classmethod
@@ -149,8 +150,8 @@ class TrackingProcess(object):
         Instantiate a TrackingProcess from pickle directory
         - pickle_dir: directory where pickled data is stored.
         """
-        fin = open(os.path.join(pickle_dir, cls.pickle_jar), "r")
-        process = pickle.load(fin)
+        with open(os.path.join(pickle_dir, cls.pickle_jar), "rb") as fin:
+            process = pickle.load(fin)
         return process
 
     # I know these names are inscrutable - but I couldn't resist. I like
diff --git a/xboa/tracking/tracking_process/xboa_tracking_process.py b/xboa/tracking/tracking_process/xboa_tracking_process.py
index 494b9e4..170d49a 100755
--- a/xboa/tracking/tracking_process/xboa_tracking_process.py
+++ b/xboa/tracking/tracking_process/xboa_tracking_process.py
@@ -40,15 +40,15 @@ def main():
     """Run the TrackingProcess"""
     args = parse_args()
     out_dir = args.out_dir 
-    fin = open(os.path.join(out_dir, TrackingProcess.pickle_jar))
-    tracking_process = pickle.load(fin)
+    with open(os.path.join(out_dir, TrackingProcess.pickle_jar), "rb") as fin:
+        tracking_process = pickle.load(fin)
     # clear any old data; always want to get new data
     if os.path.exists(TrackingProcess.pickle_sandwich):
         os.remove(TrackingProcess.pickle_sandwich)
     # run the data and dump the output
     hits = tracking_process.run()
-    fout = open(os.path.join(out_dir, TrackingProcess.pickle_sandwich), "w")
-    pickle.dump(hits, fout)
+    with open(os.path.join(out_dir, TrackingProcess.pickle_sandwich), "wb") as fout:
+        pickle.dump(hits, fout)
 
 if __name__ == "__main__":
     main()
-- 
2.43.0


From ea10c0f07467b9e6d0d8d51286f4d1d249a132a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:52 +0000
Subject: [PATCH 059/128] fix: MultiTrack sliced the hits with a float

---
 xboa/tracking/_multitrack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/tracking/_multitrack.py b/xboa/tracking/_multitrack.py
index db7b933..6f35826 100644
--- a/xboa/tracking/_multitrack.py
+++ b/xboa/tracking/_multitrack.py
@@ -65,7 +65,7 @@ class MultiTrack(TrackingBase):
         self.job_list = []
         self.last = []
         n_hits = len(hit_list)
-        n_hits_per_process = n_hits/int(self.n_processes)
+        n_hits_per_process = n_hits//int(self.n_processes)
         remainder = n_hits % int(self.n_processes)
         
         for i in range(self.n_processes):
-- 
2.43.0


From b0ae2cfa44dcde7c3ff5d434249a6b90fad99855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:52 +0000
Subject: [PATCH 060/128] fix: MultiTrack.track_one used a member that does not
 exist and returned nothing

---
 xboa/tracking/_multitrack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xboa/tracking/_multitrack.py b/xboa/tracking/_multitrack.py
index 6f35826..c713f7e 100644
--- a/xboa/tracking/_multitrack.py
+++ b/xboa/tracking/_multitrack.py
@@ -87,7 +87,9 @@ class MultiTrack(TrackingBase):
         """
         Just call track_one on the hit
         """
-        self.tracking.track_one(a_hit)
+        hit_list = self.tracking_job.tracking.track_one(a_hit)
+        self.last = [hit_list]
+        return hit_list
 
     def track_many(self, hit_list):
         """
-- 
2.43.0


From 94a400b7ac7a91fe279d55247740289a997b5cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:52 +0000
Subject: [PATCH 061/128] fix: a tracking process that failed returned the hits
 of an earlier run or half a file

---
 xboa/tracking/tracking_process/_bsub_process.py         | 1 +
 xboa/tracking/tracking_process/_this_node_process.py    | 1 +
 xboa/tracking/tracking_process/_tracking_process.py     | 9 +++++++++
 xboa/tracking/tracking_process/xboa_tracking_process.py | 8 ++++----
 4 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/xboa/tracking/tracking_process/_bsub_process.py b/xboa/tracking/tracking_process/_bsub_process.py
index 4d95a9e..dedfdac 100644
--- a/xboa/tracking/tracking_process/_bsub_process.py
+++ b/xboa/tracking/tracking_process/_bsub_process.py
@@ -56,6 +56,7 @@ class BSubProcess(TrackingProcess):
         if self.is_alive():
             raise RuntimeError("Attempt to start a process that is already "+\
                                "started")
+        self.clear_return_value()
         log = os.path.join(self.out_dir, self.std_out)
         err = os.path.join(self.out_dir, self.std_err)
         proc_output = subprocess.check_output(
diff --git a/xboa/tracking/tracking_process/_this_node_process.py b/xboa/tracking/tracking_process/_this_node_process.py
index 3d9fda2..ac128a4 100644
--- a/xboa/tracking/tracking_process/_this_node_process.py
+++ b/xboa/tracking/tracking_process/_this_node_process.py
@@ -50,6 +50,7 @@ class ThisNodeProcess(TrackingProcess):
         if self.is_alive():
             raise RuntimeError("Attempt to start a process that is already "+\
                                "started")
+        self.clear_return_value()
         self.proc = subprocess.Popen([self.run_executable,
                                       "--out-dir", self.out_dir])
         self.pid = self.proc.pid
diff --git a/xboa/tracking/tracking_process/_tracking_process.py b/xboa/tracking/tracking_process/_tracking_process.py
index 8b15db8..5f7fb0b 100644
--- a/xboa/tracking/tracking_process/_tracking_process.py
+++ b/xboa/tracking/tracking_process/_tracking_process.py
@@ -106,6 +106,15 @@ class TrackingProcess(object):
         raise NotImplementedError("A virtual method was called on "+\
                            "TrackingProcess base class that was not overloaded")
 
+    def clear_return_value(self):
+        """
+        Remove the output of an earlier run, so that it is not mistaken for the
+        output of a new one
+        """
+        return_path = os.path.join(self.out_dir, self.pickle_sandwich)
+        if os.path.exists(return_path):
+            os.remove(return_path)
+
     def run(self):
         """
         Run the tracking in the calling process
diff --git a/xboa/tracking/tracking_process/xboa_tracking_process.py b/xboa/tracking/tracking_process/xboa_tracking_process.py
index 170d49a..f99bcbc 100755
--- a/xboa/tracking/tracking_process/xboa_tracking_process.py
+++ b/xboa/tracking/tracking_process/xboa_tracking_process.py
@@ -42,13 +42,13 @@ def main():
     out_dir = args.out_dir 
     with open(os.path.join(out_dir, TrackingProcess.pickle_jar), "rb") as fin:
         tracking_process = pickle.load(fin)
-    # clear any old data; always want to get new data
-    if os.path.exists(TrackingProcess.pickle_sandwich):
-        os.remove(TrackingProcess.pickle_sandwich)
     # run the data and dump the output
     hits = tracking_process.run()
-    with open(os.path.join(out_dir, TrackingProcess.pickle_sandwich), "wb") as fout:
+    out_path = os.path.join(out_dir, TrackingProcess.pickle_sandwich)
+    # a process that dies while writing should not leave half an output
+    with open(out_path+".tmp", "wb") as fout:
         pickle.dump(hits, fout)
+    os.rename(out_path+".tmp", out_path)
 
 if __name__ == "__main__":
     main()
-- 
2.43.0


From 126237e51a2146b79819d4b350a0304b505ebed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:52 +0000
Subject: [PATCH 062/128] fix: a tracking process could not be given new hits
 once it had run

---
 xboa/tracking/tracking_process/_this_node_process.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xboa/tracking/tracking_process/_this_node_process.py b/xboa/tracking/tracking_process/_this_node_process.py
index ac128a4..a586138 100644
--- a/xboa/tracking/tracking_process/_this_node_process.py
+++ b/xboa/tracking/tracking_process/_this_node_process.py
@@ -43,6 +43,14 @@ class ThisNodeProcess(TrackingProcess):
         TrackingProcess.__init__(self, tracking)
         self.proc = None
 
+    def __getstate__(self):
+        """
+        The running process is not part of the data that is pickled or copied
+        """
+        state = self.__dict__.copy()
+        state['proc'] = None
+        return state
+
     def start(self):
         """
         Start the tracking by opening a subprocess and calling run()
-- 
2.43.0


From 582f317975f9e50ee1055a82431ab8c8368a61dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:52 +0000
Subject: [PATCH 063/128] fix: BSubProcess searched for text in the bytes
 printed by bsub

---
 xboa/tracking/tracking_process/_bsub_process.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xboa/tracking/tracking_process/_bsub_process.py b/xboa/tracking/tracking_process/_bsub_process.py
index dedfdac..b5b8a8d 100644
--- a/xboa/tracking/tracking_process/_bsub_process.py
+++ b/xboa/tracking/tracking_process/_bsub_process.py
@@ -66,7 +66,8 @@ class BSubProcess(TrackingProcess):
                                       '-o', log,
                                       '-e', err,
                                       self.run_executable,
-                                      "--out-dir", self.out_dir])
+                                      "--out-dir", self.out_dir],
+                                     universal_newlines=True)
         start_index = proc_output.find("<")+1
         end_index = proc_output.find(">")
         self.pid = int(proc_output[start_index:end_index])
@@ -77,7 +78,8 @@ class BSubProcess(TrackingProcess):
         """
         if self.pid == None:
             return False
-        proc_output = subprocess.check_output(['bjobs', '-l', str(self.pid)])
+        proc_output = subprocess.check_output(['bjobs', '-l', str(self.pid)],
+                                              universal_newlines=True)
         status = self._get_substr(proc_output, 'Status <', '>')
         if status in ["PEND", "RUN", "WAIT"]:
             return True
-- 
2.43.0


From 0b5e516064741737ca3edaa6ca070c36731055c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 064/128] fix: closed orbit generators ended with RuntimeError,
 as StopIteration may not leave a generator

---
 .../closed_orbit/_ellipse_closed_orbit_finder.py      | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
index 7064b72..5421773 100644
--- a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
+++ b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
@@ -74,7 +74,7 @@ class EllipseClosedOrbitFinder(object):
         while True:
             for key in keys:
                 if step[key] >= step_end_dict[key]:
-                    raise StopIteration("Run out of steps at "+json.dumps(step))
+                    return # run out of steps
                 next_hit[key] = step[key]
             hit_list = self.tracking.track_one(next_hit)
             x_list = [[hit[key] for key in keys] for hit in hit_list]
@@ -128,20 +128,15 @@ class EllipseClosedOrbitFinder(object):
                                                           self.eps_max, True)
             except  (numpy.linalg.linalg.LinAlgError, ValueError):
                 if len(x_list) > number_of_points:
-                    raise StopIteration("Closed orbit has reached numerical "+\
-                                        "precision limit. Nice!")
+                    return # reached numerical precision limit. Nice!
                 else:
                     raise ValueError("Failed to find ellipse determinant.")
 
             yield my_co
             if my_co.get_mean_noise() < my_co.get_sigma_noise():
-                raise StopIteration("Closed orbit finder has reached "+\
-                                    "convergence limit. Tracking noise is "+\
-                                    "greater than ellipse size.")
+                return # tracking noise is greater than ellipse size
             for i, var in enumerate(keys):
                 next_hit[var] = my_co.centre[i]
-        raise StopIteration("Closed orbit finder has finished iterating without converging.")
- 
 
     def check_closed_orbit(self, test_variable_dict, number_of_points):
         """
-- 
2.43.0


From e28707070305d2ee22a97dcb8ac0b303e96dc841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 065/128] fix: closed orbit finder without an iteration limit
 compared an int with None

---
 xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
index 5421773..b6c700b 100644
--- a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
+++ b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
@@ -120,7 +120,7 @@ class EllipseClosedOrbitFinder(object):
         next_hit = self.seed.deepcopy()
         noise_mean = None
         iteration = 0
-        while iteration < max_iterations or max_iterations == None:
+        while max_iterations == None or iteration < max_iterations:
             iteration += 1
             x_list = self._get_points(keys, next_hit, number_of_points)
             try:
-- 
2.43.0


From 636c48549997ffea53e07999ec3b7b465467b289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 066/128] fix: closed orbit scan stopped early when a step fell
 on the end of an inner variable

---
 xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
index b6c700b..67eeb30 100644
--- a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
+++ b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
@@ -84,7 +84,7 @@ class EllipseClosedOrbitFinder(object):
             i = len(keys)-1
             key = keys[i]
             step[key] += step_size_dict[key]
-            while step[key] > step_end_dict[key] and i > 0:
+            while step[key] >= step_end_dict[key] and i > 0:
                 step[key] = step_start_dict[key]
                 i -= 1
                 key = keys[i]
-- 
2.43.0


From 4849cd79a9ca0d2d47e01bdd8f29d171e69d163e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 067/128] fix: closed orbit finder raised IndexError when the
 first particle was lost

---
 xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
index 67eeb30..34afca8 100644
--- a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
+++ b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
@@ -173,7 +173,7 @@ class EllipseClosedOrbitFinder(object):
             hit_list.append(next_hit)
         while len(hit_list) < number_of_points:
             hit_list += self.tracking.track_one(next_hit)[1:]
-            if hit_list[-1] == next_hit:
+            if len(hit_list) == 0 or hit_list[-1] == next_hit:
                 raise RuntimeError("Tracking failed to generate an ellipse")
             next_hit = hit_list[-1]
         x_list = [[hit[var] for var in keys] for hit in hit_list]
-- 
2.43.0


From 78492cb38e8fccdecc3dddef472e358977e8463e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 068/128] fix: FFTTuneFinder deleted the last element of the
 data given by the caller

---
 xboa/algorithms/tune/_fft_tune.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xboa/algorithms/tune/_fft_tune.py b/xboa/algorithms/tune/_fft_tune.py
index 2198b44..3800edf 100644
--- a/xboa/algorithms/tune/_fft_tune.py
+++ b/xboa/algorithms/tune/_fft_tune.py
@@ -78,12 +78,13 @@ class FFTTuneFinder(object):
 
         Returns the principle Fourier frequency that is not 0.
         """
-        if self.u == None:
+        if self.u is None:
             raise ValueError("No data set for Fourier Transform")
         if len(self.u) % 2 == 0:
-            if self.up != None:
-                del self.up[-1]
-            del self.u[-1]
+            # make new lists, so that the data of the caller is left alone
+            if self.up is not None:
+                self.up = self.up[:-1]
+            self.u = self.u[:-1]
         if tune_tolerance == None:
             tune_tolerance = 1./len(self.u)/100.
         self._fft_find_peaks()
-- 
2.43.0


From c3639529758eeb6b4d5c60d64d63284e344b2fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 069/128] fix: FFTTuneFinder never used its slow transform and
 kept the peaks of older data

---
 xboa/algorithms/tune/_fft_tune.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/xboa/algorithms/tune/_fft_tune.py b/xboa/algorithms/tune/_fft_tune.py
index 3800edf..d0fe1fc 100644
--- a/xboa/algorithms/tune/_fft_tune.py
+++ b/xboa/algorithms/tune/_fft_tune.py
@@ -88,7 +88,6 @@ class FFTTuneFinder(object):
         if tune_tolerance == None:
             tune_tolerance = 1./len(self.u)/100.
         self._fft_find_peaks()
-        self._get_max_peak()
         if len(self.peak_x_list) == 0:
             self._sft_find_peaks(tune_tolerance)
         self._get_max_peak()
@@ -261,9 +260,7 @@ class FFTTuneFinder(object):
         Run the peak finder
         """
         peak_index_list = sorted(self._peak_finder.find_peaks(self.k_mag_y))
-        if len(peak_index_list) == 0:
-            return
-        if peak_index_list[0] == 0:
+        if len(peak_index_list) > 0 and peak_index_list[0] == 0:
             peak_index_list.pop(0)
         self.peak_x_list = [self.k_mag_x[i] for i in peak_index_list]
         self.peak_y_list = [self.k_mag_y[i] for i in peak_index_list]
-- 
2.43.0


From 176bea74feb35e4c76c3e12a8a12c58802c0c536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 070/128] fix: FFTTuneFinder scaled every tune by n/(n+1)

---
 xboa/algorithms/tune/_fft_tune.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/algorithms/tune/_fft_tune.py b/xboa/algorithms/tune/_fft_tune.py
index d0fe1fc..aa5df8e 100644
--- a/xboa/algorithms/tune/_fft_tune.py
+++ b/xboa/algorithms/tune/_fft_tune.py
@@ -252,7 +252,7 @@ class FFTTuneFinder(object):
         fft = numpy.fft.rfft(numpy.array(self.u))
         k_list = [[float(numpy.real(z)), float(numpy.imag(z))] for z in fft]
         self.k_mag_y = [(z[0]**2+z[1]**2)**0.5 for z in k_list]
-        self.k_mag_x = [i/2./float(len(k_list)) for i, z in enumerate(k_list)]
+        self.k_mag_x = [i/float(len(self.u)) for i, z in enumerate(k_list)]
         self._find_peaks()
 
     def _find_peaks(self):
@@ -334,7 +334,7 @@ class FFTTuneFinder(object):
         for m, a_m in enumerate(self.u):
             if self.use_hanning_filter:
                 hanning = 2.*math.sin(math.pi*m/n)**2.
-            f = 2.*math.pi*m*k_x*(n+1)/n
+            f = 2.*math.pi*m*k_x
             dy = hanning*a_m*math.cos(f)
             dz = hanning*a_m*math.sin(f)
             y_point += dy
-- 
2.43.0


From 4d4f4542eb742e9f13dab8010d3ffba51a86df76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 071/128] fix: DPhiTuneFinder mixed the phase advances of all
 data that it has seen

---
 xboa/algorithms/tune/_dphi_tune.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/algorithms/tune/_dphi_tune.py b/xboa/algorithms/tune/_dphi_tune.py
index d449e4b..c991a11 100644
--- a/xboa/algorithms/tune/_dphi_tune.py
+++ b/xboa/algorithms/tune/_dphi_tune.py
@@ -70,6 +70,7 @@ class DPhiTuneFinder(object):
         points = zip(self.u, self.up)
         plot_x, plot_y = [], []
         self.point_circles = []
+        self.dphi = []
         for point in points:
             point_array = numpy.array([point[0]-self.centre[0],
                                     point[1]-self.centre[1]])
-- 
2.43.0


From 40c74be372acf9af9f1dee9b8d0a7b9acd722739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 072/128] fix: RefinePeakFinder used a float to slice the data

---
 xboa/algorithms/peak_finder/_refine_peak_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/peak_finder/_refine_peak_finder.py b/xboa/algorithms/peak_finder/_refine_peak_finder.py
index ed74369..ede7418 100644
--- a/xboa/algorithms/peak_finder/_refine_peak_finder.py
+++ b/xboa/algorithms/peak_finder/_refine_peak_finder.py
@@ -133,7 +133,7 @@ class RefinePeakFinder(object):
                     fit_quality, hist, graph, fit = self._peak_fit(data, peak, delta_fit, self.delta_seed)
                 except Exception:
                     break
-            delta_fit /= 2
+            delta_fit //= 2
             fit_quality, hist, graph, fit = self._peak_fit(data, peak, delta_fit, self.delta_seed)
             if self.draw:
                 canvas = common.make_root_canvas("values")
-- 
2.43.0


From ff94fc98a1f91996bbe902511d36d99f7ffe37ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 073/128] fix: RefinePeakFinder judged each peak by the fit
 quality of the one before

---
 xboa/algorithms/peak_finder/_refine_peak_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/peak_finder/_refine_peak_finder.py b/xboa/algorithms/peak_finder/_refine_peak_finder.py
index ede7418..102e876 100644
--- a/xboa/algorithms/peak_finder/_refine_peak_finder.py
+++ b/xboa/algorithms/peak_finder/_refine_peak_finder.py
@@ -123,9 +123,9 @@ class RefinePeakFinder(object):
         # chi2 gives estimate of fit errors
         this_max_delta = min(len(data), self.max_delta)
         peak_with_errors = []
-        fit_quality = 0.
         fail_list = []
         for peak in self.peak_list:
+            fit_quality = 0.
             delta_fit = self.delta_seed
             while fit_quality < 1. and delta_fit < this_max_delta:
                 delta_fit *= 2
-- 
2.43.0


From 1d09dd22011df18a178736c3a351c6f48334d8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 074/128] fix: make_root_graph could not sort a range or a
 tuple

---
 xboa/common/_common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 9c03071..f7266ab 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -588,8 +588,8 @@ def make_root_graph(name_string, x_float_list, x_axis_string, y_float_list, y_ax
   Return value is a tuple of (histogram, graph)
   """
   config.has_root()
-  x_float_list = copy.deepcopy(x_float_list)
-  y_float_list = copy.deepcopy(y_float_list)
+  x_float_list = list(x_float_list)
+  y_float_list = list(y_float_list)
   if(len(x_float_list) == 0 or len(x_float_list) != len(y_float_list)):
     raise IndexError('Attempt to draw graph with no x-points, or different number of x to y points')
 #  name_string += " "+str(len(_hist_persistent))
-- 
2.43.0


From d1d3cdab601823baa59217b0a42fa2305daa924e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 075/128] fix: clear_root never let go of the graphs

---
 xboa/common/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index f7266ab..2c550a8 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -750,7 +750,7 @@ def clear_root():
   for graph in _graph_persistent:  del(graph)
   _canvas_persistent = []
   _hist_persistent = []
-  _canvas_persistent = []
+  _graph_persistent = []
 
 def wait_for_matplot():
   """Show any plots made using matplotlib on the screen"""
-- 
2.43.0


From 8d4ec05425361d8d3c19cb44b923053ca438b51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 076/128] fix: FFTTuneFinder refined a peak at zero frequency
 with the other end of the spectrum

---
 xboa/algorithms/tune/_fft_tune.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xboa/algorithms/tune/_fft_tune.py b/xboa/algorithms/tune/_fft_tune.py
index aa5df8e..0f2783f 100644
--- a/xboa/algorithms/tune/_fft_tune.py
+++ b/xboa/algorithms/tune/_fft_tune.py
@@ -281,6 +281,8 @@ class FFTTuneFinder(object):
         peak_index = self.k_mag_x.index(k_x)
         if peak_index+1 == len(self.k_mag_y):
             peak_index -= 1
+        elif peak_index == 0: # there is nothing to the left of it
+            peak_index += 1
         y_values = [self.k_mag_y[peak_index-1],
                     self.k_mag_y[peak_index],
                     self.k_mag_y[peak_index+1]]
-- 
2.43.0


From f6b1d8ebb42f387ee044b6fa3493f0b1cafccae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 077/128] fix: peak fits started from the errors of the last
 fit and could get stuck

---
 xboa/algorithms/peak_finder/_refine_peak_finder.py          | 2 ++
 xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/xboa/algorithms/peak_finder/_refine_peak_finder.py b/xboa/algorithms/peak_finder/_refine_peak_finder.py
index 102e876..8d1f321 100644
--- a/xboa/algorithms/peak_finder/_refine_peak_finder.py
+++ b/xboa/algorithms/peak_finder/_refine_peak_finder.py
@@ -103,6 +103,8 @@ class RefinePeakFinder(object):
         for i in range(3):
             fit.ReleaseParameter(i)
             fit.SetParameter(i, 0.)
+            # ROOT takes its first steps from the errors of the last fit
+            fit.SetParError(i, 0.)
         #QNOS: Quiet, Do not store graphics, Dont draw
         graph.Fit(fit, 'QNO')
         delta_list = [y_list[i]-fit.Eval(x) for i, x in enumerate(x_list)]
diff --git a/xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py b/xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py
index aa4e40b..ed42725 100644
--- a/xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py
+++ b/xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py
@@ -52,6 +52,8 @@ class UphillDownhillPeakFinder(object):
             graph = ROOT.TGraph(len(x_list))
             for i in range(5):
                 self.fit.SetParameter(i, 0.)
+                # ROOT takes its first steps from the errors of the last fit
+                self.fit.SetParError(i, 0.)
             for i in range(2, 5):
                 self.fit.FixParameter(i, 0.)
             self.fit.SetRange(min(y_list), max(y_list))
-- 
2.43.0


From d8a8d755a04f20aae82c42b7529bb163a03f5864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 078/128] fix: DecoupledTransferMatrix used a float dimension
 and could not be made

---
 xboa/algorithms/decoupled_transfer_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/algorithms/decoupled_transfer_matrix.py b/xboa/algorithms/decoupled_transfer_matrix.py
index 8fd19eb..f5ba594 100644
--- a/xboa/algorithms/decoupled_transfer_matrix.py
+++ b/xboa/algorithms/decoupled_transfer_matrix.py
@@ -25,14 +25,14 @@ class DecoupledTransferMatrix(object):
         self.m = numpy.array(transfer_matrix)
         if self.m.shape[0] != self.m.shape[1]:
             raise ValueError("Transfer matrix was not square")
-        if (self.m.shape[0]/2)*2 != self.m.shape[0]:
+        if (self.m.shape[0]//2)*2 != self.m.shape[0]:
             raise ValueError("Transfer matrix had odd size (should be even)")
         det_m = numpy.linalg.det(self.m)
         if abs(det_m - 1) > self.det_tolerance:
             raise ValueError("Transfer matrix determinant deviated from 1 by "+\
               str(det_m - 1)+" - DecoupledTransferMatrix.det_tolerance was "+\
               str(self.det_tolerance) )
-        self.dim = self.m.shape[0]/2
+        self.dim = self.m.shape[0]//2
         self.m_evalue, self.m_evector = numpy.linalg.eig(self.m)
         self.t_evector = None
         self.t_evalue = None
-- 
2.43.0


From 827d8a93229e204351ebc5be597b9b923099b20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 079/128] fix: DecoupledTransferMatrix took the second plane
 from the eigenvectors of the first

---
 xboa/algorithms/decoupled_transfer_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/decoupled_transfer_matrix.py b/xboa/algorithms/decoupled_transfer_matrix.py
index f5ba594..6bcf759 100644
--- a/xboa/algorithms/decoupled_transfer_matrix.py
+++ b/xboa/algorithms/decoupled_transfer_matrix.py
@@ -52,7 +52,7 @@ class DecoupledTransferMatrix(object):
         self.v_t = numpy.zeros([self.dim*2, self.dim*2]) # real
         for i in range(self.dim):
             j = 2*i
-            evector = numpy.transpose(self.m_evector)[i]
+            evector = numpy.transpose(self.m_evector)[j]
             phi_i = numpy.angle(evector[j])
             exp_phi_i = numpy.exp(1j*phi_i)
             try:
-- 
2.43.0


From 5d13bf9d567ff523ceff97aeecdd30736e87296c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 080/128] fix: DecoupledTransferMatrix made ellipses that did
 not have the eigenemittances asked for

---
 xboa/algorithms/decoupled_transfer_matrix.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xboa/algorithms/decoupled_transfer_matrix.py b/xboa/algorithms/decoupled_transfer_matrix.py
index 6bcf759..6c9a8c1 100644
--- a/xboa/algorithms/decoupled_transfer_matrix.py
+++ b/xboa/algorithms/decoupled_transfer_matrix.py
@@ -75,6 +75,11 @@ class DecoupledTransferMatrix(object):
             self.v_t[j, j+1] = -sign*alpha_i
             self.v_t[j+1, j] = -sign*alpha_i
             self.v_t[j+1, j+1] = sign*(1+alpha_i*alpha_i)/beta_i
+            # eigenvectors are defined up to a factor; r should be symplectic
+            # so that it does not change the emittances
+            norm = abs(numpy.imag(numpy.sum(
+                              numpy.conj(evector[0::2])*evector[1::2])))
+            self.m_evector[:, j:j+2] /= norm**0.5
         self.r = numpy.dot(self.m_evector, numpy.linalg.inv(self.t_evector))
         r_inv = numpy.linalg.inv(self.r)
         self.t = numpy.dot(r_inv, numpy.dot(self.m, self.r))
-- 
2.43.0


From 69df97495f835f12a965f834b44a1ab9b7e775bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 081/128] fix: CutSmoothing used a float range

---
 xboa/algorithms/smoothing/_cut_smoothing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/algorithms/smoothing/_cut_smoothing.py b/xboa/algorithms/smoothing/_cut_smoothing.py
index 83354d6..615fab7 100644
--- a/xboa/algorithms/smoothing/_cut_smoothing.py
+++ b/xboa/algorithms/smoothing/_cut_smoothing.py
@@ -72,13 +72,13 @@ class CutSmoothing(object):
                                  " not equal to "+str(n_signal))
         will_cut_data = [False]*n_signal
 
-        for i in range(n_signal/self.step):
+        for i in range(n_signal//self.step):
             data_mean = numpy.mean(signal[i*self.step:(i+1)*self.step])
             for j in range(i*self.step, (i+1)*self.step):
                 will_cut_data[j] = abs(signal[j]-data_mean) > self.cut_range
 
         data_mean = numpy.mean(signal[n_signal-self.step:n_signal])
-        for j in range((n_signal/self.step)*self.step, n_signal):
+        for j in range((n_signal//self.step)*self.step, n_signal):
             will_cut_data[j] = abs(signal[j]-data_mean) > self.cut_range
 
         table_out = copy.deepcopy(table)
-- 
2.43.0


From 05dd52d3d71203502b720556576368c0b8568ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 082/128] fix: CutSmoothing cut short data against the mean of
 its last few points

---
 xboa/algorithms/smoothing/_cut_smoothing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/smoothing/_cut_smoothing.py b/xboa/algorithms/smoothing/_cut_smoothing.py
index 615fab7..a7c8acf 100644
--- a/xboa/algorithms/smoothing/_cut_smoothing.py
+++ b/xboa/algorithms/smoothing/_cut_smoothing.py
@@ -77,7 +77,7 @@ class CutSmoothing(object):
             for j in range(i*self.step, (i+1)*self.step):
                 will_cut_data[j] = abs(signal[j]-data_mean) > self.cut_range
 
-        data_mean = numpy.mean(signal[n_signal-self.step:n_signal])
+        data_mean = numpy.mean(signal[max(0, n_signal-self.step):n_signal])
         for j in range((n_signal//self.step)*self.step, n_signal):
             will_cut_data[j] = abs(signal[j]-data_mean) > self.cut_range
 
-- 
2.43.0


From 473fbca39a77088ab90db6c28c4dc9723738b066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 083/128] fix: the smoothing module could not be imported
 without ROOT

---
 xboa/algorithms/smoothing/_fit_smoothing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xboa/algorithms/smoothing/_fit_smoothing.py b/xboa/algorithms/smoothing/_fit_smoothing.py
index 9d9eec6..a5275f7 100644
--- a/xboa/algorithms/smoothing/_fit_smoothing.py
+++ b/xboa/algorithms/smoothing/_fit_smoothing.py
@@ -1,5 +1,7 @@
-import copy
-import ROOT
+try:
+    import ROOT
+except ImportError:
+    pass
 
 class FitSmoothing(object):
     def __init__(self, fit_function):
-- 
2.43.0


From e44a7dc2468746fc20db48cca6a984c34ac16722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 084/128] fix: Voronoi weighting used python 2 zip and xrange
 and could not run

---
 xboa/bunch/weighting/_hull_content.py      | 5 +++--
 xboa/bunch/weighting/_voronoi_weighting.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/xboa/bunch/weighting/_hull_content.py b/xboa/bunch/weighting/_hull_content.py
index 392ac42..4994c15 100644
--- a/xboa/bunch/weighting/_hull_content.py
+++ b/xboa/bunch/weighting/_hull_content.py
@@ -18,6 +18,7 @@
 HullContent class should be imported directly from xboa.bunch.weighting
 """
 
+import math
 import multiprocessing
 import signal
 import os
@@ -88,7 +89,7 @@ def _get_cm_matrix(simplex, triangulation, dimension):
             point_i = triangulation.points[vertex_i]
             point_j = triangulation.points[vertex_j]
             square = [(point_i[d] - point_j[d])**2 \
-                                             for d in xrange(dimension)]
+                                             for d in range(dimension)]
             length_sq = sum(square)
             elements[i+1, j+1] = length_sq
             elements[j+1, i+1] = length_sq
@@ -109,7 +110,7 @@ def _tile_content(args):
         content = 0.
         triangulation = scipy.spatial.Delaunay(points)
         coefficient = (-1)**(dimension+1)/2.**dimension
-        coefficient /= numpy.math.factorial(dimension)**2.
+        coefficient /= math.factorial(dimension)**2.
         for simplex in triangulation.simplices:
             elements = _get_cm_matrix(simplex, triangulation, dimension)
             det = numpy.linalg.det(elements)
diff --git a/xboa/bunch/weighting/_voronoi_weighting.py b/xboa/bunch/weighting/_voronoi_weighting.py
index ee23c01..72b4990 100644
--- a/xboa/bunch/weighting/_voronoi_weighting.py
+++ b/xboa/bunch/weighting/_voronoi_weighting.py
@@ -144,7 +144,7 @@ class VoronoiWeighting(object):
         Returns None (the bunch is weighted "in-place")
         """
         self.real_points = bunch.list_get_hit_variable(self.weight_variables)
-        self.real_points = zip(*tuple(self.real_points))
+        self.real_points = list(zip(*tuple(self.real_points)))
         self.real_points = numpy.array(self.real_points)
         if self.voronoi_bound != None:
             self.real_points, not_cut = \
-- 
2.43.0


From 01341dc5edb83c435b48a6d121536f0e6f81da5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 085/128] fix: VoronoiWeighting could not be given a mean of
 more than one dimension

---
 xboa/bunch/weighting/_voronoi_weighting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/weighting/_voronoi_weighting.py b/xboa/bunch/weighting/_voronoi_weighting.py
index 72b4990..4cb51ff 100644
--- a/xboa/bunch/weighting/_voronoi_weighting.py
+++ b/xboa/bunch/weighting/_voronoi_weighting.py
@@ -99,7 +99,7 @@ class VoronoiWeighting(object):
         config.has_numpy()
         config.has_scipy()
         self.dim = len(weight_variables)
-        if weight_mean == None:
+        if weight_mean is None:
             weight_mean = numpy.array([0.]*self.dim)
         if (self.dim,) != numpy.shape(weight_mean):
             raise ValueError("weight_mean shape "+\
-- 
2.43.0


From 415e7b88414e239542ec2348ba8e6704c88578da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 086/128] fix: Voronoi projections always drew the first two
 coordinates of the points

---
 xboa/bunch/weighting/_voronoi_weighting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xboa/bunch/weighting/_voronoi_weighting.py b/xboa/bunch/weighting/_voronoi_weighting.py
index 4cb51ff..93b1613 100644
--- a/xboa/bunch/weighting/_voronoi_weighting.py
+++ b/xboa/bunch/weighting/_voronoi_weighting.py
@@ -219,7 +219,7 @@ class VoronoiWeighting(object):
            projection_axes[1] not in self.weight_variables:
             raise ValueError("Projection axes "+str(projection_axes)+\
                              " should be a subset of weight_variables "+
-                             str(weight_variables))
+                             str(self.weight_variables))
         if self.tesselation == None:
             raise ValueError("Need to apply_weights before tesselation can be"+
                              "plotted")
@@ -231,9 +231,9 @@ class VoronoiWeighting(object):
         y_list = [vertex[proj[1]] for vertex in self.tesselation.vertices]
         points = numpy.transpose(self.real_points)
         hist, points_graph = common.make_root_graph(title,
-                                                    points[0][lower:upper],
+                                                    points[proj[0]][lower:upper],
                                                     projection_axes[0],
-                                                    points[1][lower:upper],
+                                                    points[proj[1]][lower:upper],
                                                     projection_axes[1])
         if fill_option != None and fill_option != 'none':
             hist.SetTitle('Color by '+fill_option)
-- 
2.43.0


From 9855140a627ab30ab57a32c80526b64d6c2ea228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 087/128] fix: HullContent only worked for a list of regions
 counting up from 0

---
 xboa/bunch/weighting/_hull_content.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/weighting/_hull_content.py b/xboa/bunch/weighting/_hull_content.py
index 4994c15..5016736 100644
--- a/xboa/bunch/weighting/_hull_content.py
+++ b/xboa/bunch/weighting/_hull_content.py
@@ -65,14 +65,14 @@ class HullContent(object):
         """
         Recalculate the tile content list
         """
-        job_list = [None]*len(self.region_list)
+        job_list = []
         for i in self.region_list:
             tile_index = self.tesselation.point_region[i]
             region = self.tesselation.regions[tile_index]
             tile_index = self.tesselation.point_region[i]
             region = self.tesselation.regions[tile_index]
             points = numpy.array([self.tesselation.vertices[j] for j in region])
-            job_list[i] = (region, points)
+            job_list.append((region, points))
         self.tile_content_list = self.pool.map(_tile_content, job_list)
 
 def _init_worker():
-- 
2.43.0


From 1235b594bf01859ace7a84e25a4d91c1f763513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 088/128] fix: MultipoleWeighting solved the transpose of its
 equations and missed its target

---
 xboa/bunch/weighting/_multipole_weighting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/weighting/_multipole_weighting.py b/xboa/bunch/weighting/_multipole_weighting.py
index cdaa280..31399e5 100644
--- a/xboa/bunch/weighting/_multipole_weighting.py
+++ b/xboa/bunch/weighting/_multipole_weighting.py
@@ -122,7 +122,7 @@ class MultipoleWeighting(object):
                 list_ij = [list_i[i1]+list_j[i1] \
                                            for i1, index_i in enumerate(list_i)]
                 m_matrix[i, j] = \
-                      self._v_f(list_ij) - self._v_f(list_i) * self._v_g(list_j)
+                      self._v_f(list_ij) - self._v_g(list_i) * self._v_f(list_j)
         m_inverse = numpy.linalg.inv(m_matrix)
         u_vector = numpy.zeros([len(self.v_g_index_by_power)])
         for i, list_i in enumerate(self.v_g_index_by_power):
-- 
2.43.0


From 12b4146189fb05b165790bfdfc4a723c869082da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 089/128] fix: MultipoleWeighting took an ellipse about the
 mean for moments about 0

---
 xboa/bunch/weighting/_multipole_weighting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xboa/bunch/weighting/_multipole_weighting.py b/xboa/bunch/weighting/_multipole_weighting.py
index 31399e5..9e970f5 100644
--- a/xboa/bunch/weighting/_multipole_weighting.py
+++ b/xboa/bunch/weighting/_multipole_weighting.py
@@ -172,7 +172,8 @@ class MultipoleWeighting(object):
               indices.append([0]*n_vars)
               indices[-1][i] += 1
               indices[-1][j] += 1
-              moments.append(target_ellipse[i, j])
+              # the ellipse is about the mean, the moments are about 0
+              moments.append(target_ellipse[i, j]+target_mean[i]*target_mean[j])
         self.set_target_moments(indices, moments)
 
 def index_by_power():
-- 
2.43.0


From d2ef96f2a98fbdbfb199df083724aa57949e2525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 090/128] fix: MultipoleWeighting accepted the same moment
 twice unless they were neighbours

---
 xboa/bunch/weighting/_multipole_weighting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/weighting/_multipole_weighting.py b/xboa/bunch/weighting/_multipole_weighting.py
index 9e970f5..d070a36 100644
--- a/xboa/bunch/weighting/_multipole_weighting.py
+++ b/xboa/bunch/weighting/_multipole_weighting.py
@@ -102,8 +102,8 @@ class MultipoleWeighting(object):
                 if type(index) != type(0):
                     raise ValueError("Index type is non-integer")
 
-        for i, item in enumerate(moment_index_list[1:]):
-            if item == moment_index_list[i]:
+        for i, item in enumerate(moment_index_list):
+            if item in moment_index_list[:i]:
                raise ValueError("Indices should be unique")
         # zip and sort
         sorted_list = sorted(zip(moment_index_list, moment_list))
-- 
2.43.0


From cc60b5e011b017d78a1e258179cad408c732d7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 091/128] fix: MultipoleWeighting used some other moment where
 maximum_pole was too small

---
 xboa/bunch/weighting/_multipole_weighting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xboa/bunch/weighting/_multipole_weighting.py b/xboa/bunch/weighting/_multipole_weighting.py
index d070a36..6008a5a 100644
--- a/xboa/bunch/weighting/_multipole_weighting.py
+++ b/xboa/bunch/weighting/_multipole_weighting.py
@@ -135,6 +135,10 @@ class MultipoleWeighting(object):
         Get the element in v_f corresponding to index_list
         """
         index = bisect.bisect_left(self.v_f_index_by_power, index_list)
+        if index == len(self.v_f_index_by_power) or \
+           self.v_f_index_by_power[index] != index_list:
+            raise ValueError("maximum_pole "+str(self.maximum_moment)+\
+                             " is too small for the target moments")
         v_f_ = self.v_f_list[index]
         return v_f_
 
-- 
2.43.0


From 8eb12b264362afe0081534355ad85038052bd4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 092/128] fix: closed orbit plots multiplied by the unit of the
 axis where it divides

---
 .../closed_orbit/_ellipse_closed_orbit_finder.py          | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
index 34afca8..12c6ac1 100644
--- a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
+++ b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
@@ -285,9 +285,9 @@ class EllipseClosedOrbitFinderIteration(object):
         """
         config.has_root()
         x_var = self.keys.index(x_axis_string)
-        x_list = [x[x_var]*common.units[x_axis_units] for x in self.points]
+        x_list = [x[x_var]/common.units[x_axis_units] for x in self.points]
         y_var = self.keys.index(y_axis_string)
-        y_list = [x[y_var]*common.units[y_axis_units] for x in self.points]
+        y_list = [x[y_var]/common.units[y_axis_units] for x in self.points]
         if x_axis_units != '':
             x_axis_string += ' ['+x_axis_units+']'
         if y_axis_units != '':
@@ -342,9 +342,9 @@ class EllipseClosedOrbitFinderIteration(object):
         """
         config.has_matplotlib()
         x_var = self.keys.index(x_axis_string)
-        x_list = [x[x_var]*common.units[x_axis_units] for x in self.points]
+        x_list = [x[x_var]/common.units[x_axis_units] for x in self.points]
         y_var = self.keys.index(y_axis_string)
-        y_list = [x[y_var]*common.units[y_axis_units] for x in self.points]
+        y_list = [x[y_var]/common.units[y_axis_units] for x in self.points]
         if x_axis_units != '':
             x_axis_string += ' ['+x_axis_units+']'
         if y_axis_units != '':
-- 
2.43.0


From b93f51a32f5e4a598673f6bb183f062d5348321a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 093/128] fix: closed orbit plots drew the ellipse in other
 units than the points

---
 .../closed_orbit/_ellipse_closed_orbit_finder.py       | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
index 12c6ac1..c0b0852 100644
--- a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
+++ b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
@@ -306,10 +306,14 @@ class EllipseClosedOrbitFinderIteration(object):
         graph.Draw('p')
         ellipse = None
         if type(self.centre) != type(None):
-            ell_centre = [self.centre[x_var], self.centre[y_var]]
+            x_unit = common.units[x_axis_units]
+            y_unit = common.units[y_axis_units]
+            ell_centre = [self.centre[x_var]/x_unit, self.centre[y_var]/y_unit]
             ell_matrix = [
-                [self.ellipse[x_var, x_var], self.ellipse[x_var, y_var]],
-                [self.ellipse[x_var, y_var], self.ellipse[y_var, y_var]]
+                [self.ellipse[x_var, x_var]/x_unit/x_unit,
+                 self.ellipse[x_var, y_var]/x_unit/y_unit],
+                [self.ellipse[x_var, y_var]/x_unit/y_unit,
+                 self.ellipse[y_var, y_var]/y_unit/y_unit]
             ]
             ell_matrix = numpy.array(ell_matrix)
             contours = [self.get_mean_noise()]
-- 
2.43.0


From ddb5ff8936388dc2999daaed5d1f32f9523f5f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 094/128] fix: min_max left out items with small or negative
 weights, histograms lost them

---
 xboa/common/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 2c550a8..4063712 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -265,7 +265,7 @@ def min_max(x_float_list, weight_list=[], margin = 0.1, xmin=None, xmax=None):
   if len(weight_list) == len(x_float_list):
     new_floats =  []
     for ind in range(len(weight_list)):
-      if weight_list[ind] > 1e-6:
+      if weight_list[ind] != 0.:
         new_floats.append(x_float_list[ind]) 
   if len(new_floats) == 0: x = [0.,0.]
   else:                      x = [min(new_floats), max(new_floats)]
-- 
2.43.0


From fbb95a4b799b8343ea5ce5776583dd945ef6aeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 095/128] fix: fit_ellipse took any small ellipse for converged
 before it applied the cut

---
 xboa/common/_common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 4063712..942c27f 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -1021,7 +1021,9 @@ def fit_ellipse(points, eps_cut, weights=None, max_number_of_iterations = 10, ve
         weights = [1.,]*n_points
     iterations = 0
     try:
-        while abs(numpy.linalg.det(cov)-old_det) > float_tolerance and \
+        # relative, so that it means the same to a small ellipse
+        while abs(numpy.linalg.det(cov)-old_det) > \
+              float_tolerance*abs(numpy.linalg.det(cov)) and \
               iterations < max_number_of_iterations:
             iterations += 1
             my_sum = 0
-- 
2.43.0


From b399233c6baf450ccc22ffa5ea2875d307cd77a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 096/128] fix: fit_ellipse gave an empty ellipse at 0 where the
 cut left no points

---
 xboa/common/_common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 942c27f..692f61b 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -965,6 +965,8 @@ def _sum_weight(weights, in_cut):
 def _get_fit_ellipse_covariance_matrix(points, weights, in_cut):
     n_points = len(points)
     sum_weight = _sum_weight(weights, in_cut)
+    if sum_weight == 0:
+        raise ZeroDivisionError("No weight in the ellipse cut")
     dimension = len(points[0])
     mean = numpy.zeros(dimension)
     cov = numpy.zeros([dimension, dimension])
-- 
2.43.0


From df94b55849f868abfb1d89835926b540a67fa0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 097/128] fix: fit_ellipse lost the covariance of points far
 from 0 to rounding

---
 xboa/common/_common.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 692f61b..4e03bfb 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -975,11 +975,13 @@ def _get_fit_ellipse_covariance_matrix(points, weights, in_cut):
             a_point = points[i]
             for j in range(dimension):
                 mean[j] += a_point[j]/sum_weight*weights[i]
+    # about the mean; subtracting it at the end loses a small ellipse far from 0
+    for i in range(n_points):
+        if in_cut[i]:
+            delta = [points[i][j]-mean[j] for j in range(dimension)]
+            for j in range(dimension):
                 for k in range(dimension):
-                    cov[j, k] += a_point[j]*a_point[k]/sum_weight*weights[i]
-    for i in range(dimension):
-        for j in range(dimension):
-            cov[i, j] -= mean[i]*mean[j]
+                    cov[j, k] += delta[j]*delta[k]/sum_weight*weights[i]
     return mean, cov
 
 def _update_fit_ellipse_cut(points, cov_inv, mean, eps_cut):
-- 
2.43.0


From 8c635e016071cbd7ec7d65661084367731e91ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 098/128] fix: kill_all_subprocesses returned before the
 subprocesses had died

---
 xboa/common/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 4e03bfb..af9e537 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -800,7 +800,7 @@ def kill_all_subprocesses():
   """
   for ps in __mp_subprocesses:
     ps.terminate()
-    time.sleep(0.01) #dont ask me why this is necessary...
+    ps.join(5.) # it takes a moment to die
   for pid in __fk_subprocesses:
     os.kill(pid, signal.SIGKILL)
 
-- 
2.43.0


From 6ff3cbcaa2f204083c23de2af505771c02c1bf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:19 +0000
Subject: [PATCH 099/128] fix: Bunch lost every calculation that needs numpy
 when matplotlib was missing

---
 xboa/bunch/_bunch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index f32733e..806c69d 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -37,11 +37,14 @@ except ImportError:
   pass
 try:
   import numpy
-  import matplotlib
   from numpy import matrix
   from numpy import linalg
 except ImportError:
   pass
+try:
+  import matplotlib
+except ImportError:
+  pass
 
 import xboa.common as Common
 import xboa.common.config as config
-- 
2.43.0


From 6fba750a5209382afe76466b971a10d2eae8455a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:19 +0000
Subject: [PATCH 100/128] fix: get_amplitude did not say that it needs numpy

---
 xboa/bunch/_bunch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 806c69d..05d5161 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1217,6 +1217,7 @@ class Bunch:
     will return
         emittance*(x,px,y,py)^T*V^{-1}(x,px,y,py)*(x,px,y,py)
     """
+    config.has_numpy()
     if geometric == None: geometric = Bunch.__geometric_momentum
     cov_list  = Bunch.axis_list_to_covariance_list(axis_list, geometric)
     if mean_dict == {}:   
-- 
2.43.0


From 630681fe0da07efafb8d139fa3edbbe049f29c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:19 +0000
Subject: [PATCH 101/128] fix: build_penn_ellipse did not say that it needs
 numpy

---
 xboa/bunch/_bunch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 05d5161..e6eef5c 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1516,6 +1516,7 @@ class Bunch:
 
     Output ellipse is a 4*4 matrix with elements v_ij where i,j indexes the vector (x,px,y,py)
     """
+    config.has_numpy()
     if beta_t <= 0.:
       raise ValueError("Beta "+str(beta_t)+" must be positive")
     if emittance_t <= 0.:
-- 
2.43.0


From b0a10bb9749e87ddc4d2e71f0426472da5e357c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:19 +0000
Subject: [PATCH 102/128] fix: kolmogorov_smirnov_test did not say that it
 needs ROOT

---
 xboa/common/_common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index af9e537..0c2e8a8 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -811,6 +811,7 @@ def kolmogorov_smirnov_test(list_1, list_2):
   - list_2 = list of floats that are sampled from other some parent distribution
   Returns double between 0. and 1. giving probability that list_1 and list_2 have the same parent distribution.
   """
+  config.has_root()
   list_1 = sorted(list_1)
   list_2 = sorted(list_2)
   c_array_1 = ctypes.c_double*len(list_1)
-- 
2.43.0


From 43b5b9daeb61cd971a61c21420951bb16e9e7cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:19 +0000
Subject: [PATCH 103/128] fix: process_list did not say that it needs
 multiprocessing

---
 xboa/common/_common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 0c2e8a8..51a430a 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -938,6 +938,7 @@ def process_list(function_call, list_of_args, max_n_processes):
   the time.sleep function with inputs 3, 6 and 2 across 2 cores and return 
   list like [None, None, None].
   """
+  config.has_multiprocessing()
   manager = multiprocessing.Manager()
   queue = manager.Queue() # queue stores return values
   pool = multiprocessing.Pool(max_n_processes) # pool runs multiprocess
-- 
2.43.0


From b46127d5bfa20f6c53f8ce7d4659a0da929f19d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 104/128] fix: get_emittance did not say that it needs numpy

---
 xboa/bunch/_bunch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index e6eef5c..010e27b 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1135,6 +1135,7 @@ class Bunch:
           Cov(x,px) Var(px,px)
     and |V| is the determinant.
     """
+    config.has_numpy()
     if geometric is None: geometric = Bunch.__geometric_momentum
     cov_list  = Bunch.axis_list_to_covariance_list(axis_list, geometric)
     my_cov    = copy.deepcopy(covariance_matrix)
-- 
2.43.0


From 6391311496ff913ccc578e43b6a733ddba3dca0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 105/128] fix: fit_ellipse and make_root_ellipse_function did
 not say that they need numpy

---
 xboa/common/_common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 51a430a..d27900d 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -1019,6 +1019,7 @@ def fit_ellipse(points, eps_cut, weights=None, max_number_of_iterations = 10, ve
     points on the ellipse is given by (x-<x>)^T*V^{-1}*(x-<x>) where x is a
     particle vector and V is the defining matrix.
     """
+    config.has_numpy()
     n_points = len(points)
     old_det = 1.
     mean, cov = numpy.ones([2]), numpy.ones([2, 2])
@@ -1068,6 +1069,7 @@ def make_root_ellipse_function(mean, cov, contours=None, xmin=-1e3, xmax=1e3, ym
     the number of points in plot (func.SetNpy).
     """
     config.has_root()
+    config.has_numpy()
     mat_inv = numpy.linalg.inv(cov)
     fit_func_str = "[2]*(x-[0])**2+[4]*(y-[1])**2+2*[3]*(x-[0])*(y-[1])"
     fit_func = ROOT.TF2("ellipse", fit_func_str)
-- 
2.43.0


From 60bff3ee9c9dfd3a3328f3d3275d5633edb4e8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 106/128] fix: RefinePeakFinder.find_peak_errors did not say
 that it needs numpy

---
 xboa/algorithms/peak_finder/_refine_peak_finder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/algorithms/peak_finder/_refine_peak_finder.py b/xboa/algorithms/peak_finder/_refine_peak_finder.py
index 8d1f321..8004eb6 100644
--- a/xboa/algorithms/peak_finder/_refine_peak_finder.py
+++ b/xboa/algorithms/peak_finder/_refine_peak_finder.py
@@ -123,6 +123,7 @@ class RefinePeakFinder(object):
         # we want to fit for x = my + c
         # c is the peak
         # chi2 gives estimate of fit errors
+        common.config.has_numpy()
         this_max_delta = min(len(data), self.max_delta)
         peak_with_errors = []
         fail_list = []
-- 
2.43.0


From c699193c9a834a1bcb33f0ee210dc6cb25b54790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 107/128] fix: subprocess forked under ROOT where it is
 documented to raise an ImportError

---
 xboa/common/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index d27900d..54d8333 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -782,7 +782,6 @@ def subprocess(function, args):
   except:
     try: 
       config.has_root()
-      raise ImportError('Error - attempt to make a subprocess using fork when ROOT library is active')
     except ImportError:
       pid = os.fork()
       if pid == 0:
@@ -792,6 +791,7 @@ def subprocess(function, args):
       else:
         __fk_subprocesses.append(pid)
         return pid
+    raise ImportError('Error - attempt to make a subprocess using fork when ROOT library is active')
  
 def kill_all_subprocesses():
   """
-- 
2.43.0


From 67f6005761a2d64e715ea3aed7c43cdaeb582013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:07 +0000
Subject: [PATCH 108/128] fix: UphillDownhillPeakFinder did not say that it
 needs ROOT

---
 xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py b/xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py
index ed42725..aa7dd13 100644
--- a/xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py
+++ b/xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py
@@ -29,6 +29,7 @@ class UphillDownhillPeakFinder(object):
         """
         Initialise the peak finder
         """
+        common.config.has_root()
         self.fit = ROOT.TF1("fit","[0]+[1]*x+[2]*x*x+[3]*x*x*x+[4]*x*x*x", 0., 1.)
 
     def _get_derivative(self, data):
-- 
2.43.0


From da205f3f984bfd42bc6688d7e3642d746a2837a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:27 +0000
Subject: [PATCH 109/128] fix: FFTTuneFinder took the lower of two peaks when
 refining split a peak

---
 xboa/algorithms/tune/_fft_tune.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xboa/algorithms/tune/_fft_tune.py b/xboa/algorithms/tune/_fft_tune.py
index 0f2783f..a382979 100644
--- a/xboa/algorithms/tune/_fft_tune.py
+++ b/xboa/algorithms/tune/_fft_tune.py
@@ -309,9 +309,10 @@ class FFTTuneFinder(object):
         # if new_y is lowest, the peak has split and we split the recursion 
         # (this is a bit dodgy)
         elif y_values[0] > new_y and y_values[1] > new_y:
-            new_peak_index = self.k_mag_y.index(y_values[0])
-            self._recursive_refine_peak(self.k_mag_x[new_peak_index], x_tolerance)
-            new_peak_index = self.k_mag_y.index(y_values[1])
+            peaks = [self._recursive_refine_peak(x, x_tolerance)
+                                                           for x in x_values]
+            return max(peaks,
+                       key = lambda x: self.k_mag_y[self.k_mag_x.index(x)])
         # if y_values[0] is highest, peak index is unchanged
         elif y_values[0] > y_values[1]:
             new_peak_index = peak_index
-- 
2.43.0


From 3d2999e015fd1903fb646ce6ee166a8162bf0000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:40 +0000
Subject: [PATCH 110/128] fix: hit_equality ignored its float_tolerance

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 010e27b..e2c4a59 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -630,7 +630,7 @@ class Bunch:
     """
     if len(self) != len(target): return False
     for i in range( len(self) ):
-      if self[i] != target[i]: return False
+      if self[i].__ne__(target[i], float_tolerance): return False
     return True
 
   def conditional_remove(self, variable_value_dict, comparator, value_is_nsigma_bool = False):
-- 
2.43.0


From 1e6372c0454d9c483695e11750c6ce3865bbd899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:27 +0000
Subject: [PATCH 111/128] fix: make_root_histogram ignored its line_width

---
 xboa/common/_common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 54d8333..e1deec8 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -443,6 +443,7 @@ def make_root_histogram(name_string, x_float_list, x_axis_string, n_x_bins, y_fl
   _hist_persistent.append(hist)
   hist.SetLineColor(line_color)
   hist.SetLineStyle(line_style)
+  hist.SetLineWidth(line_width)
   if fill_color!=None: hist.SetFillColor(fill_color)
   hist.SetStats(stats)
   return hist
-- 
2.43.0


From fb5041e4375881a441f478017b513b56fa8f7815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:27 +0000
Subject: [PATCH 112/128] fix: Bunch.root_histogram never drew the stats box it
 was asked for

---
 xboa/bunch/_bunch.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index e2c4a59..8fabb45 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1656,7 +1656,6 @@ class Bunch:
       canvas.cd()
     hist = Common.make_root_histogram(name, x_points, x_name, nx_bins, y_points, y_name, ny_bins, weights, xmin, xmax, ymin, ymax,
                         line_color, line_style, line_width, fill_color, stats, hist_title_string)
-    hist.SetStats(False)
     hist.Draw(draw_option)
     canvas.Update()
     return (canvas, hist)
-- 
2.43.0


From 9b487513964229d803391ac27a8edab188540b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:34 +0000
Subject: [PATCH 113/128] fix: steps of a particle with unknown pid made a MAUS
 ROOT file unreadable

---
 xboa/hit/factory/_maus_root_hit_factory.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/xboa/hit/factory/_maus_root_hit_factory.py b/xboa/hit/factory/_maus_root_hit_factory.py
index 783dc58..7dd505a 100644
--- a/xboa/hit/factory/_maus_root_hit_factory.py
+++ b/xboa/hit/factory/_maus_root_hit_factory.py
@@ -138,8 +138,16 @@ class MausRootHitFactory(HitFactoryBase):
                     hit["station"] = step_index
                     hit["pid"] = track.GetParticleId()
                     hit["particle_number"] = track.GetTrackId()
-                    hit["mass"] = common.pdg_pid_to_mass[abs(hit["pid"])]
-                    hit["charge"] = common.pdg_pid_to_charge[hit["pid"]]
+                    try:
+                        hit["mass"] = common.pdg_pid_to_mass[abs(hit["pid"])]
+                    except KeyError:
+                        hit["mass"] = 0.
+                        self.bad_pid(hit["pid"])
+                    try:
+                        hit["charge"] = common.pdg_pid_to_charge[hit["pid"]]
+                    except KeyError:
+                        hit["charge"] = 0.
+                        self.bad_pid(hit["pid"])
                     hit["proper_time"] = step.GetProperTime()
                     hit["path_length"] = step.GetPathLength()
                     hit["spill"] = self.spill_number
-- 
2.43.0


From ee09b93c45db4e325fefe5745bf0aaa1666625a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:35 +0000
Subject: [PATCH 114/128] fix: hit_generator of a text file stopped at the
 first line that is not a hit

---
 xboa/hit/factory/_line_factory_base.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/xboa/hit/factory/_line_factory_base.py b/xboa/hit/factory/_line_factory_base.py
index 93330a5..ff02dca 100644
--- a/xboa/hit/factory/_line_factory_base.py
+++ b/xboa/hit/factory/_line_factory_base.py
@@ -39,6 +39,19 @@ class LineFactoryBase(HitFactoryBase):
         """
         raise NotImplementedError("read_hit not implemented")
 
+    def hit_generator(self):
+        """
+        Generate hits until the end of the file, skipping lines that are not hits
+        """
+        while True:
+            try:
+                hit = self.make_hit()
+            except EOFError:
+                return
+            except xboa.hit.BadEventError:
+                continue
+            yield hit
+
     @classmethod
     def _read_formatted(cls, format_list, format_units_dict, file_handle, mass_shell_condition):
         """
-- 
2.43.0


From 6efed77db8b2711d31b1dc859f6619b955d64981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:55 +0000
Subject: [PATCH 115/128] fix: the tile with the highest value is drawn with
 the highest colour

Rounding of the last bound could give it a colour index off the end of the
palette, which wrapped round to the lowest colour.
---
 xboa/bunch/weighting/_voronoi_weighting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xboa/bunch/weighting/_voronoi_weighting.py b/xboa/bunch/weighting/_voronoi_weighting.py
index 93b1613..e62b573 100644
--- a/xboa/bunch/weighting/_voronoi_weighting.py
+++ b/xboa/bunch/weighting/_voronoi_weighting.py
@@ -280,7 +280,9 @@ class VoronoiWeighting(object):
         n_colors = ROOT.TColor.GetNumberOfColors()
         bounds = [min(fill_data)+i*(max(fill_data)-min(fill_data))/(n_colors-1)\
                                                      for i in range(n_colors)]
-        fill_colors = [bisect.bisect_left(bounds, fill) for fill in fill_data]
+        # rounding can put the highest bound just below the highest value
+        fill_colors = [min(bisect.bisect_left(bounds, fill), n_colors-1) \
+                                                         for fill in fill_data]
         fill_colors = [ROOT.TColor.GetColorPalette(i) for i in fill_colors]
         return fill_colors
 
-- 
2.43.0


From d0a5bcdd2426c40126e2c75450397193986ef19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:55 +0000
Subject: [PATCH 116/128] fix: plot of a tesselation before weights are applied
 raises the ValueError it documents

---
 xboa/bunch/weighting/_voronoi_weighting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/weighting/_voronoi_weighting.py b/xboa/bunch/weighting/_voronoi_weighting.py
index e62b573..12e2d96 100644
--- a/xboa/bunch/weighting/_voronoi_weighting.py
+++ b/xboa/bunch/weighting/_voronoi_weighting.py
@@ -211,8 +211,6 @@ class VoronoiWeighting(object):
         config.has_root()
         if lower == None:
             lower = 0
-        if upper == None:
-            upper = len(self.real_points)
         if len(projection_axes) != 2:
             raise ValueError("Expected projection axes of length 2")
         if projection_axes[0] not in self.weight_variables or \
@@ -223,6 +221,8 @@ class VoronoiWeighting(object):
         if self.tesselation == None:
             raise ValueError("Need to apply_weights before tesselation can be"+
                              "plotted")
+        if upper == None:
+            upper = len(self.real_points)
         title = "tesselation_"+str(projection_axes[0])+"_"+\
                 str(projection_axes[1])
         canvas = common.make_root_canvas(title)
-- 
2.43.0


From 45c347d6bd2f64226c822d422c047596b62df06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:55 +0000
Subject: [PATCH 117/128] fix: a bad number of processes for HullContent is
 reported as such

It was masked by an AttributeError, as there was no pool to terminate.
---
 xboa/bunch/weighting/_hull_content.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xboa/bunch/weighting/_hull_content.py b/xboa/bunch/weighting/_hull_content.py
index 5016736..777a6d0 100644
--- a/xboa/bunch/weighting/_hull_content.py
+++ b/xboa/bunch/weighting/_hull_content.py
@@ -50,11 +50,11 @@ class HullContent(object):
         """
         config.has_numpy()
         config.has_scipy()
+        self.tesselation = tesselation
+        self.region_list = region_list
+        self.tile_content_list = None
+        self.pool = multiprocessing.Pool(n_procs, _init_worker)
         try:
-            self.tesselation = tesselation
-            self.region_list = region_list
-            self.pool = multiprocessing.Pool(n_procs, _init_worker)
-            self.tile_content_list = None
             self.recalculate()
         except:
             self.pool.terminate()
-- 
2.43.0


From 15267752ae6891c555f4d17973a9fd81acabc1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:37 +0000
Subject: [PATCH 118/128] fix: decoupled phase advance has the sign that
 belongs to positive beta

Phase advances above pi came out as those below, with a sine of the wrong sign
for the beta, alpha and gamma which are given.
---
 xboa/algorithms/decoupled_transfer_matrix.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xboa/algorithms/decoupled_transfer_matrix.py b/xboa/algorithms/decoupled_transfer_matrix.py
index 6c9a8c1..a168eb9 100644
--- a/xboa/algorithms/decoupled_transfer_matrix.py
+++ b/xboa/algorithms/decoupled_transfer_matrix.py
@@ -67,10 +67,12 @@ class DecoupledTransferMatrix(object):
             self.t_evector[j+1, j] = 1./cmath.sqrt(beta_i)*(-alpha_i+1j)*exp_phi_i
             self.t_evector[j,   j+1] = numpy.conj(self.t_evector[j, j])
             self.t_evector[j+1, j+1] = numpy.conj(self.t_evector[j+1, j])
-            self.phase[i] = phase_i
             sign = 1.
             if beta_i < 0:
                 sign = -1.
+            # the optical functions are given for positive beta, so that the
+            # phase advance has to go the way of that ellipse
+            self.phase[i] = sign*phase_i
             self.v_t[j, j] = sign*beta_i
             self.v_t[j, j+1] = -sign*alpha_i
             self.v_t[j+1, j] = -sign*alpha_i
@@ -159,6 +161,8 @@ class DecoupledTransferMatrix(object):
                 [self.t[j+1, j], self.t[j+1, j+1]-cos_mu]
             ])
             det_j = cmath.sqrt(numpy.linalg.det(j_matrix))
+            if math.sin(self.phase[i]) < 0.:
+                det_j *= -1.
             j_matrix /= det_j
             print(("Sin", i, det_j, math.sin(self.phase[i])))
             print(("Beta", i, j_matrix[0, 1], self.v_t[j, j]))
-- 
2.43.0


From 25e7d683de63e74fe1d00d76e58f1e6301be4cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:45 +0000
Subject: [PATCH 119/128] fix: clear_global_weights left hits at a default
 weight other than 1

---
 xboa/core/cpplib/Hitcore.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xboa/core/cpplib/Hitcore.cc b/xboa/core/cpplib/Hitcore.cc
index ef01c0b..6ddb989 100644
--- a/xboa/core/cpplib/Hitcore.cc
+++ b/xboa/core/cpplib/Hitcore.cc
@@ -30,6 +30,8 @@ SmartPointer<WeightContext>* Hitcore::weightContext = new SmartPointer<WeightCon
 
 void Hitcore::clear_global_weights() {
     (*weightContext)->clearWeights();
+    // hits that are not in the context have the default weight
+    (*weightContext)->setDefaultWeight(1.);
 }
 
 Hitcore::Hitcore()
-- 
2.43.0


From bc245c31ce5b4e68e4b2b35dc2ed68b8429a85f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:35 +0000
Subject: [PATCH 120/128] fix: OpalHitFactory could not be constructed

---
 xboa/hit/factory/_opal_hit_factory.py | 39 +++++++++++++++++----------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/xboa/hit/factory/_opal_hit_factory.py b/xboa/hit/factory/_opal_hit_factory.py
index 9f51f7d..2883abd 100644
--- a/xboa/hit/factory/_opal_hit_factory.py
+++ b/xboa/hit/factory/_opal_hit_factory.py
@@ -15,6 +15,8 @@
 # along with xboa in the doc folder.  If not, see 
 # <http://www.gnu.org/licenses/>.
 
+import xboa.common as common
+import xboa.hit
 from xboa.hit.factory import LineFactoryBase
 
 class OpalHitFactory(LineFactoryBase):
@@ -22,13 +24,13 @@ class OpalHitFactory(LineFactoryBase):
     Factory class for line by line reads of OPAL output files
     """
     def __init__(self, pid, probes, ignore_probes, filehandle):
-        super(LineFactoryBase.__init__(self))
-        if pid not in Common.pdg_pid_to_mass or \
-           pid not in Common.pdg_pid_to_charge:
-            raise
+        super(OpalHitFactory, self).__init__()
+        if abs(pid) not in common.pdg_pid_to_mass or \
+           pid not in common.pdg_pid_to_charge:
+            raise KeyError("Did not recognise pid "+str(pid))
         self.pid = pid
         self.probes = probes
-        self.ignore_probes = []
+        self.ignore_probes = ignore_probes
         self.filehandle = filehandle
 
     # read beam loss hit
@@ -44,24 +46,33 @@ class OpalHitFactory(LineFactoryBase):
         probes = self.probes
         pid = self.pid
         try:
-          line = self.filehandle.next()
+          line = next(self.filehandle)
         except StopIteration:
           raise EOFError("End of file reached")
         words = line.split()
-        if words[0] in self.ignore_probes:
-          raise BadEventError("Failed to parse event")
         if not len(words) == 10:
-          raise BadEventError("Failed to parse event")
+          raise xboa.hit.BadEventError("Failed to parse event")
+        if words[0] in self.ignore_probes:
+          raise xboa.hit.BadEventError("Failed to parse event")
+        try:
+          hit_dict = dict( (key, float(words[i+1]) ) for i, key in enumerate(['x', 'y', 'z', 'px', 'py', 'pz']))
+          hit_dict['t'] = float(words[9])
+          hit_dict['event_number'] = int(words[7])
+          turn = int(words[8])
+        except ValueError:
+          raise xboa.hit.BadEventError("Failed to parse event")
         if words[0] not in probes.keys():
           probes[words[0]] = len(probes.keys())
-        hit_dict = dict( (key, float(words[i+1]) ) for i, key in enumerate(['x', 'y', 'z', 'px', 'py', 'pz', 'event_number', 'station', 't']))
         hit_dict['pid'] = pid
-        hit_dict['mass'] = Common.pdg_pid_to_mass[abs(pid)]
-        hit_dict['charge'] = Common.pdg_pid_to_charge[pid]
-        hit_dict['station'] = probes[words[0]]+len(probes)*(int(words[8])-1)
+        hit_dict['mass'] = common.pdg_pid_to_mass[abs(pid)]
+        hit_dict['charge'] = common.pdg_pid_to_charge[pid]
+        hit_dict['station'] = probes[words[0]]+len(probes)*(turn-1)
         for item in ['px', 'py', 'pz']:
           hit_dict[item] *= hit_dict['mass']
-        hit = Hit.new_from_dict(hit_dict)
+        try:
+          hit = xboa.hit.Hit.new_from_dict(hit_dict)
+        except (ValueError, OverflowError): # an integer that does not fit
+          raise xboa.hit.BadEventError("Failed to parse event")
         hit.mass_shell_condition('energy')
         return hit
 
-- 
2.43.0


From e6dea523f68e497c1105b5d334a69aa5ef109085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:48 +0000
Subject: [PATCH 121/128] fix: File_Convert could not be run: imports, origin
 of the rotation, plots

---
 xboa/examples/File_Convert.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/xboa/examples/File_Convert.py b/xboa/examples/File_Convert.py
index 11b4995..d607822 100755
--- a/xboa/examples/File_Convert.py
+++ b/xboa/examples/File_Convert.py
@@ -141,11 +141,7 @@ Obviously feel free to take this python script as a basis to hack with...
 """
 
 try:
-  import common
-  import hit
-  from hit import Hit
-  import bunch
-  from bunch import Bunch
+  from xboa.bunch import Bunch
 except ImportError:
   print('Error during x-boa import. Check your x-boa installation is in the PYTHONPATH environment variable')
   raise ImportError
@@ -217,6 +213,7 @@ def rotate(lines, bunch):
       for i in range(1,len(line)): variables.append(line[i])
     if line[0] == 'origin': origin[line[1]] = float(line[2])
   if len(variables) <= 1: return
+  for variable in variables: origin.setdefault(variable, 0.)
   import numpy
   target_matrix    = numpy.zeros( (len(variables),len(variables)))
   for line in lines:
@@ -226,7 +223,7 @@ def rotate(lines, bunch):
       target_matrix[i1,i2] = float(line[3])
       target_matrix[i2,i1] = float(line[3])
   print('Rotation in variables\n',variables,'\nto matrix\n',target_matrix,'\nabout origin\n',origin)
-  bunch.transform_to(variables, target_matrix, origin)
+  bunch.transform_to(variables, target_matrix, origin_dict=origin)
   print('gives\n',bunch.covariance_matrix(variables, origin))
 
 def translate(lines, bunch):
@@ -250,13 +247,13 @@ def plots(lines, bunch, do_in):
   histogram_format = 'png'
   print('Making plots')
   for line in lines:
-    if line[0] == 'histogram_format': histogram_format = line[0]
+    if line[0] == 'plot_format': histogram_format = line[1]
   for line in lines:
-    if line[0] == 'histogram_in'  and do_in:     bunch.root_histogram(line[1], line[2]).Print(line[1]+'_in.'+histogram_format)
-    if line[0] == 'histogram_out' and not do_in: bunch.root_histogram(line[1], line[2]).Print(line[1]+'_out.'+histogram_format)
-    if line[0] == 'scatter_in'  and do_in:       bunch.root_scatter_graph(line[1], line[3], line[2], line[4])\
+    if line[0] == 'histogram_in'  and do_in:     bunch.root_histogram(line[1], line[2])[0].Print(line[1]+'_in.'+histogram_format)
+    if line[0] == 'histogram_out' and not do_in: bunch.root_histogram(line[1], line[2])[0].Print(line[1]+'_out.'+histogram_format)
+    if line[0] == 'scatter_in'  and do_in:       bunch.root_scatter_graph(line[1], line[3], line[2], line[4])[0]\
                                                       .Print(line[1]+'_vs_'+line[3]+'_in.'+histogram_format)
-    if line[0] == 'scatter_out' and not do_in:   bunch.root_scatter_graph(line[1], line[3], line[2], line[4])\
+    if line[0] == 'scatter_out' and not do_in:   bunch.root_scatter_graph(line[1], line[3], line[2], line[4])[0]\
                                                       .Print(line[1]+'_vs_'+line[3]+'_out.'+histogram_format)
 
 def main(argv=None):
@@ -264,7 +261,7 @@ def main(argv=None):
   if len(sys.argv) > 1: 
     (arg_name,dummy,argument) = sys.argv[1].partition('=')
     if arg_name == '-c': contname = argument
-    else: print('Warning - didnt recognise command line argument',arg)
+    else: print('Warning - didnt recognise command line argument',arg_name)
   
   if sys.argv[0].find( 'File_Convert' ) > -1:
     if debug: file_convert(contname)
-- 
2.43.0


From ca96ab0f0cf468ffda5b78f34b18195c0aa265df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:27 +0000
Subject: [PATCH 122/128] fix: examples used integer division and names of
 python 2 or older versions

---
 xboa/examples/Example_3.py    | 4 ++--
 xboa/examples/closed_orbit.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/xboa/examples/Example_3.py b/xboa/examples/Example_3.py
index 6b5eb8f..f50db25 100755
--- a/xboa/examples/Example_3.py
+++ b/xboa/examples/Example_3.py
@@ -56,8 +56,8 @@ n_stations = len(bunch_list)
 bunch_list[0].root_histogram('amplitude x y','mm')
 
 #plot transverse amplitude at a few points in the linac; look to see how much the amplitude blurs
-bunch_list[n_stations/3].root_histogram('amplitude x y','mm')
-bunch_list[2*n_stations/3].root_histogram('amplitude x y','mm')
+bunch_list[n_stations//3].root_histogram('amplitude x y','mm')
+bunch_list[2*n_stations//3].root_histogram('amplitude x y','mm')
 bunch_list[-1].root_histogram('amplitude x y','mm')
 
 #clear weights
diff --git a/xboa/examples/closed_orbit.py b/xboa/examples/closed_orbit.py
index 4758f7c..7194c26 100755
--- a/xboa/examples/closed_orbit.py
+++ b/xboa/examples/closed_orbit.py
@@ -10,7 +10,7 @@ import numpy
 import xboa.common as common
 from xboa.hit import Hit
 from xboa.tracking import MatrixTracking
-from xboa.algorithms import EllipseClosedOrbitFinder
+from xboa.algorithms.closed_orbit import EllipseClosedOrbitFinder
 
 
 def get_tracking_object():
@@ -72,7 +72,7 @@ def find_closed_orbit():
     canvas = None
     for i, my_co in enumerate(co_generator):
         print("gen", i)
-        canvas, hist, ellipse, graph = my_co.plot_ellipse(
+        canvas, hist, ellipse, graph = my_co.plot_ellipse_root(
                                                    "x", "x'",
                                                    "mm", "", canvas=canvas)
 
-- 
2.43.0


From ad0ff3057414e41e023c0c89e4fbef68251b09e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:27 +0000
Subject: [PATCH 123/128] fix: XBOA9f could not be run: it imported a module of
 python 2

---
 xboa/examples/XBOA9f | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/xboa/examples/XBOA9f b/xboa/examples/XBOA9f
index af649f9..52937d4 100755
--- a/xboa/examples/XBOA9f
+++ b/xboa/examples/XBOA9f
@@ -103,7 +103,6 @@ try:
   import operator
   import math
   import string
-  import exceptions
 except ImportError:
   print('Error during python import. Check your python installation.')
   raise ImportError
@@ -131,8 +130,7 @@ def ecalc9f(data_filename_string, data_filetype_string, control_filename_string,
     try:
       print(bunch)
       get_bunch_data(control_data, bunch_out, bunch, use_ref_p_in_cut)
-    except:
-      if sys.exc_info()[0] == exceptions.KeyboardInterrupt: raise exceptions.KeyboardInterrupt
+    except Exception:
       sys.excepthook(sys.exc_info()[0], sys.exc_info()[1], sys.exc_info()[2])
       print('Error handling station')
   Common.multisort(bunch_out)
@@ -142,7 +140,7 @@ def ecalc9f(data_filename_string, data_filetype_string, control_filename_string,
       if bunch_out[j][i] >= 0.: out.write(' ') #account for - sign - must be a better way!!!
       out.write(type_to_format[type(bunch_out[j][i])] %bunch_out[j][i]+'  ')
     out.write('\n')
-  if not string.lower(plot_format) == 'no' or string.lower(plot_format) == 'n':
+  if not plot_format.lower() in ('no', 'n'):
     try:
       make_root_plots(bunch_out, bunch_list, plot_format)
     except ImportError:
-- 
2.43.0


From 223efa6470c8e010031f2cdedc9ac57b9d03be17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:37 +0000
Subject: [PATCH 124/128] fix: XBOA9f did the opposite of --weight-event and
 --weight-no-event

---
 xboa/examples/XBOA9f | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/examples/XBOA9f b/xboa/examples/XBOA9f
index 52937d4..bdf2179 100755
--- a/xboa/examples/XBOA9f
+++ b/xboa/examples/XBOA9f
@@ -160,7 +160,7 @@ def weight_handler(end_cut, weight_filename_string, weight_filetype_string, weig
   if weight_filename_string != None:
     print('Reading weight file ',weight_filename_string,' of type ',weight_filetype_string)
     weight_bunch = Bunch.new_from_read_builtin(weight_filetype_string, weight_filename_string)
-    if weight_use_ev_number:
+    if not weight_use_ev_number:
       for i in range( len(weight_bunch) ):
         weight_bunch[i]['eventNumber'] = i
     for hit in weight_bunch:
-- 
2.43.0


From 015de609faea7a71ba01fb12b47c8b298d6d4b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:37 +0000
Subject: [PATCH 125/128] fix: XBOA9f plotted the first station as the last

---
 xboa/examples/XBOA9f | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/examples/XBOA9f b/xboa/examples/XBOA9f
index bdf2179..9d974e2 100755
--- a/xboa/examples/XBOA9f
+++ b/xboa/examples/XBOA9f
@@ -465,7 +465,7 @@ def make_root_plots(bunch_data, bunch_list, format_string):
       for my_format in format_string.split(','):
         canvas.Print(name+'.'+my_format)
   bunch_in  = bunch_list[0]
-  bunch_out = bunch_list[0]
+  bunch_out = bunch_list[-1]
   for my_format in format_string.split(','):
     bunch_in .root_histogram('amplitude [\'x\',\'y\']', x_axis_units='m')[0].Print('amp_in.'+my_format)
     bunch_out.root_histogram('amplitude [\'x\',\'y\']', x_axis_units='m')[0].Print('amp_out.'+my_format)
-- 
2.43.0


From d3fd1f6ba8c6c7a4eaedd8237b76c0cacabaafd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:26 +0000
Subject: [PATCH 126/128] fix: XBOA9f moved the particles while it calculated
 their amplitudes

The plots were then made of the moved beam.
---
 xboa/examples/XBOA9f | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/xboa/examples/XBOA9f b/xboa/examples/XBOA9f
index 9d974e2..e916018 100755
--- a/xboa/examples/XBOA9f
+++ b/xboa/examples/XBOA9f
@@ -283,13 +283,13 @@ def ecalc_amplitude(bunch, hit, beta_t, alpha_t, gamma_t, ldim, mean_pz, bz, mea
   """
   Ecalc has a slightly different way of defining (awkward?) amplitude
   """
-  hit['x'] -= mean_x
-  hit['y'] -= mean_y
-  hit['px'] -= mean_px
-  hit['py'] -= mean_py
+  x  = hit['x'] - mean_x
+  y  = hit['y'] - mean_y
+  px = hit['px'] - mean_px
+  py = hit['py'] - mean_py
   kappa = Common.constants['c_light']*bz/2./mean_pz
-  amp2  = beta_t/mean_pz *(hit['px']**2.+hit['py']**2.) + gamma_t*mean_pz*(hit['x']**2. +hit['y']**2. )\
-          + 2.*alpha_t*(hit['x']*hit['px']+hit['y']*hit['py']) + 2.*(beta_t*kappa - ldim)*(hit['x']*hit['py'] - hit['px']*hit['y'])
+  amp2  = beta_t/mean_pz *(px**2.+py**2.) + gamma_t*mean_pz*(x**2. +y**2. )\
+          + 2.*alpha_t*(x*px+y*py) + 2.*(beta_t*kappa - ldim)*(x*py - px*y)
   amp2 /= hit['mass']
   return amp2
 
-- 
2.43.0


From debf263c7248e39fd8927a0ea315f2c1b3185bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:33 +0000
Subject: [PATCH 127/128] fix: EllipseClosedOrbitFinder did not raise the
 RuntimeError it describes when it fails to fit an ellipse

---
 xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
index c0b0852..58ca396 100644
--- a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
+++ b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
@@ -130,7 +130,7 @@ class EllipseClosedOrbitFinder(object):
                 if len(x_list) > number_of_points:
                     return # reached numerical precision limit. Nice!
                 else:
-                    raise ValueError("Failed to find ellipse determinant.")
+                    raise RuntimeError("Failed to find ellipse determinant.")
 
             yield my_co
             if my_co.get_mean_noise() < my_co.get_sigma_noise():
-- 
2.43.0


From fee29166174d17cafd7562530594dd9f7e410480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:15 +0000
Subject: [PATCH 128/128] Revert the changes to the examples: they are left as
 they came

---
 xboa/examples/Example_3.py    |  4 ++--
 xboa/examples/File_Convert.py | 21 ++++++++++++---------
 xboa/examples/XBOA9f          | 22 ++++++++++++----------
 xboa/examples/closed_orbit.py |  4 ++--
 4 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/xboa/examples/Example_3.py b/xboa/examples/Example_3.py
index f50db25..6b5eb8f 100755
--- a/xboa/examples/Example_3.py
+++ b/xboa/examples/Example_3.py
@@ -56,8 +56,8 @@ n_stations = len(bunch_list)
 bunch_list[0].root_histogram('amplitude x y','mm')
 
 #plot transverse amplitude at a few points in the linac; look to see how much the amplitude blurs
-bunch_list[n_stations//3].root_histogram('amplitude x y','mm')
-bunch_list[2*n_stations//3].root_histogram('amplitude x y','mm')
+bunch_list[n_stations/3].root_histogram('amplitude x y','mm')
+bunch_list[2*n_stations/3].root_histogram('amplitude x y','mm')
 bunch_list[-1].root_histogram('amplitude x y','mm')
 
 #clear weights
diff --git a/xboa/examples/File_Convert.py b/xboa/examples/File_Convert.py
index d607822..11b4995 100755
--- a/xboa/examples/File_Convert.py
+++ b/xboa/examples/File_Convert.py
@@ -141,7 +141,11 @@ Obviously feel free to take this python script as a basis to hack with...
 """
 
 try:
-  from xboa.bunch import Bunch
+  import common
+  import hit
+  from hit import Hit
+  import bunch
+  from bunch import Bunch
 except ImportError:
   print('Error during x-boa import. Check your x-boa installation is in the PYTHONPATH environment variable')
   raise ImportError
@@ -213,7 +217,6 @@ def rotate(lines, bunch):
       for i in range(1,len(line)): variables.append(line[i])
     if line[0] == 'origin': origin[line[1]] = float(line[2])
   if len(variables) <= 1: return
-  for variable in variables: origin.setdefault(variable, 0.)
   import numpy
   target_matrix    = numpy.zeros( (len(variables),len(variables)))
   for line in lines:
@@ -223,7 +226,7 @@ def rotate(lines, bunch):
       target_matrix[i1,i2] = float(line[3])
       target_matrix[i2,i1] = float(line[3])
   print('Rotation in variables\n',variables,'\nto matrix\n',target_matrix,'\nabout origin\n',origin)
-  bunch.transform_to(variables, target_matrix, origin_dict=origin)
+  bunch.transform_to(variables, target_matrix, origin)
   print('gives\n',bunch.covariance_matrix(variables, origin))
 
 def translate(lines, bunch):
@@ -247,13 +250,13 @@ def plots(lines, bunch, do_in):
   histogram_format = 'png'
   print('Making plots')
   for line in lines:
-    if line[0] == 'plot_format': histogram_format = line[1]
+    if line[0] == 'histogram_format': histogram_format = line[0]
   for line in lines:
-    if line[0] == 'histogram_in'  and do_in:     bunch.root_histogram(line[1], line[2])[0].Print(line[1]+'_in.'+histogram_format)
-    if line[0] == 'histogram_out' and not do_in: bunch.root_histogram(line[1], line[2])[0].Print(line[1]+'_out.'+histogram_format)
-    if line[0] == 'scatter_in'  and do_in:       bunch.root_scatter_graph(line[1], line[3], line[2], line[4])[0]\
+    if line[0] == 'histogram_in'  and do_in:     bunch.root_histogram(line[1], line[2]).Print(line[1]+'_in.'+histogram_format)
+    if line[0] == 'histogram_out' and not do_in: bunch.root_histogram(line[1], line[2]).Print(line[1]+'_out.'+histogram_format)
+    if line[0] == 'scatter_in'  and do_in:       bunch.root_scatter_graph(line[1], line[3], line[2], line[4])\
                                                       .Print(line[1]+'_vs_'+line[3]+'_in.'+histogram_format)
-    if line[0] == 'scatter_out' and not do_in:   bunch.root_scatter_graph(line[1], line[3], line[2], line[4])[0]\
+    if line[0] == 'scatter_out' and not do_in:   bunch.root_scatter_graph(line[1], line[3], line[2], line[4])\
                                                       .Print(line[1]+'_vs_'+line[3]+'_out.'+histogram_format)
 
 def main(argv=None):
@@ -261,7 +264,7 @@ def main(argv=None):
   if len(sys.argv) > 1: 
     (arg_name,dummy,argument) = sys.argv[1].partition('=')
     if arg_name == '-c': contname = argument
-    else: print('Warning - didnt recognise command line argument',arg_name)
+    else: print('Warning - didnt recognise command line argument',arg)
   
   if sys.argv[0].find( 'File_Convert' ) > -1:
     if debug: file_convert(contname)
diff --git a/xboa/examples/XBOA9f b/xboa/examples/XBOA9f
index e916018..af649f9 100755
--- a/xboa/examples/XBOA9f
+++ b/xboa/examples/XBOA9f
@@ -103,6 +103,7 @@ try:
   import operator
   import math
   import string
+  import exceptions
 except ImportError:
   print('Error during python import. Check your python installation.')
   raise ImportError
@@ -130,7 +131,8 @@ def ecalc9f(data_filename_string, data_filetype_string, control_filename_string,
     try:
       print(bunch)
       get_bunch_data(control_data, bunch_out, bunch, use_ref_p_in_cut)
-    except Exception:
+    except:
+      if sys.exc_info()[0] == exceptions.KeyboardInterrupt: raise exceptions.KeyboardInterrupt
       sys.excepthook(sys.exc_info()[0], sys.exc_info()[1], sys.exc_info()[2])
       print('Error handling station')
   Common.multisort(bunch_out)
@@ -140,7 +142,7 @@ def ecalc9f(data_filename_string, data_filetype_string, control_filename_string,
       if bunch_out[j][i] >= 0.: out.write(' ') #account for - sign - must be a better way!!!
       out.write(type_to_format[type(bunch_out[j][i])] %bunch_out[j][i]+'  ')
     out.write('\n')
-  if not plot_format.lower() in ('no', 'n'):
+  if not string.lower(plot_format) == 'no' or string.lower(plot_format) == 'n':
     try:
       make_root_plots(bunch_out, bunch_list, plot_format)
     except ImportError:
@@ -160,7 +162,7 @@ def weight_handler(end_cut, weight_filename_string, weight_filetype_string, weig
   if weight_filename_string != None:
     print('Reading weight file ',weight_filename_string,' of type ',weight_filetype_string)
     weight_bunch = Bunch.new_from_read_builtin(weight_filetype_string, weight_filename_string)
-    if not weight_use_ev_number:
+    if weight_use_ev_number:
       for i in range( len(weight_bunch) ):
         weight_bunch[i]['eventNumber'] = i
     for hit in weight_bunch:
@@ -283,13 +285,13 @@ def ecalc_amplitude(bunch, hit, beta_t, alpha_t, gamma_t, ldim, mean_pz, bz, mea
   """
   Ecalc has a slightly different way of defining (awkward?) amplitude
   """
-  x  = hit['x'] - mean_x
-  y  = hit['y'] - mean_y
-  px = hit['px'] - mean_px
-  py = hit['py'] - mean_py
+  hit['x'] -= mean_x
+  hit['y'] -= mean_y
+  hit['px'] -= mean_px
+  hit['py'] -= mean_py
   kappa = Common.constants['c_light']*bz/2./mean_pz
-  amp2  = beta_t/mean_pz *(px**2.+py**2.) + gamma_t*mean_pz*(x**2. +y**2. )\
-          + 2.*alpha_t*(x*px+y*py) + 2.*(beta_t*kappa - ldim)*(x*py - px*y)
+  amp2  = beta_t/mean_pz *(hit['px']**2.+hit['py']**2.) + gamma_t*mean_pz*(hit['x']**2. +hit['y']**2. )\
+          + 2.*alpha_t*(hit['x']*hit['px']+hit['y']*hit['py']) + 2.*(beta_t*kappa - ldim)*(hit['x']*hit['py'] - hit['px']*hit['y'])
   amp2 /= hit['mass']
   return amp2
 
@@ -465,7 +467,7 @@ def make_root_plots(bunch_data, bunch_list, format_string):
       for my_format in format_string.split(','):
         canvas.Print(name+'.'+my_format)
   bunch_in  = bunch_list[0]
-  bunch_out = bunch_list[-1]
+  bunch_out = bunch_list[0]
   for my_format in format_string.split(','):
     bunch_in .root_histogram('amplitude [\'x\',\'y\']', x_axis_units='m')[0].Print('amp_in.'+my_format)
     bunch_out.root_histogram('amplitude [\'x\',\'y\']', x_axis_units='m')[0].Print('amp_out.'+my_format)
diff --git a/xboa/examples/closed_orbit.py b/xboa/examples/closed_orbit.py
index 7194c26..4758f7c 100755
--- a/xboa/examples/closed_orbit.py
+++ b/xboa/examples/closed_orbit.py
@@ -10,7 +10,7 @@ import numpy
 import xboa.common as common
 from xboa.hit import Hit
 from xboa.tracking import MatrixTracking
-from xboa.algorithms.closed_orbit import EllipseClosedOrbitFinder
+from xboa.algorithms import EllipseClosedOrbitFinder
 
 
 def get_tracking_object():
@@ -72,7 +72,7 @@ def find_closed_orbit():
     canvas = None
     for i, my_co in enumerate(co_generator):
         print("gen", i)
-        canvas, hist, ellipse, graph = my_co.plot_ellipse_root(
+        canvas, hist, ellipse, graph = my_co.plot_ellipse(
                                                    "x", "x'",
                                                    "mm", "", canvas=canvas)
 
-- 
2.43.0

