From 90f0121d0fb504dad26dcf7da4c487359ba73050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 01/35] fix: a failed or interrupted save keeps the previous
 file

---
 panels/shell.py                       | 28 ++++++++++++++++++++++++++-
 panels/stiffpanelbay/stiffpanelbay.py |  3 ++-
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 59ef4dd..fad0ca9 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -1,5 +1,9 @@
 import gc
+import os
 import pickle
+import shutil
+import threading
+from contextlib import contextmanager
 from multiprocessing import cpu_count
 
 import numpy as np
@@ -24,6 +28,28 @@ def load(name):
         return pickle.load(open(name + '.Shell', 'rb'))
 
 
+@contextmanager
+def open_replacing(name):
+    # The file opened here replaces ``name`` only once it is complete, such
+    # that a failed or interrupted save leaves the existing file intact
+    name = os.path.realpath(name)
+    tmp = '{0}.{1}-{2}.tmp'.format(name, os.getpid(), threading.get_ident())
+    try:
+        with open(tmp, 'wb') as f:
+            yield f
+            f.flush()
+            os.fsync(f.fileno())
+        if os.path.exists(name):
+            shutil.copymode(name, tmp)
+        os.replace(tmp, name)
+    except BaseException:
+        try:
+            os.remove(tmp)
+        except OSError:
+            pass
+        raise
+
+
 def check_c(c, size):
     # Conducts a check on c
     if not isinstance(c, np.ndarray):
@@ -1214,6 +1240,6 @@ class Shell(object):
 
         self._clear_matrices()
 
-        with open(name, 'wb') as f:
+        with open_replacing(name) as f:
             pickle.dump(self, f, protocol=pickle.HIGHEST_PROTOCOL)
 
diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 0d44397..4c3854a 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -9,6 +9,7 @@ from structsolve.sparseutils import finalize_symmetric_matrix, make_skew_symmetr
 
 from panels.logger import msg
 from panels import Shell, modelDB as panelmDB
+from panels.shell import open_replacing
 from panels.stiffener import BladeStiff1D, BladeStiff2D
 
 
@@ -1423,7 +1424,7 @@ class StiffPanelBay(object):
 
         self._clear_matrices()
 
-        with open(name, 'wb') as f:
+        with open_replacing(name) as f:
             pickle.dump(self, f, protocol=pickle.HIGHEST_PROTOCOL)
 
 
-- 
2.43.0


From 03c9e0be396d25806f032ec5eafe4d3a25e5ff2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 02/35] fix: load() finds files saved under a name that
 contains the extension

---
 panels/shell.py                       | 2 +-
 panels/stiffpanelbay/stiffpanelbay.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index fad0ca9..10e3465 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -22,7 +22,7 @@ DOUBLE = np.float64
 
 
 def load(name):
-    if '.Shell' in name:
+    if name.endswith('.Shell'):
         return pickle.load(open(name, 'rb'))
     else:
         return pickle.load(open(name + '.Shell', 'rb'))
diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 4c3854a..000b2d5 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -17,7 +17,7 @@ DOUBLE = np.float64
 
 
 def load(name):
-    if '.StiffPanelBay' in name:
+    if name.endswith('.StiffPanelBay'):
         return pickle.load(open(name, 'rb'))
     else:
         return pickle.load(open(name + '.StiffPanelBay', 'rb'))
-- 
2.43.0


From 4066d9c3f9c92b72f74ed1b660daf48b3ba215dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 03/35] fix: field evaluation does not depend on unchecked
 allocations

---
 panels/models/clpt_bardell_field.pyx | 145 +++++++--------------------
 1 file changed, 35 insertions(+), 110 deletions(-)

diff --git a/panels/models/clpt_bardell_field.pyx b/panels/models/clpt_bardell_field.pyx
index b310687..07229f1 100644
--- a/panels/models/clpt_bardell_field.pyx
+++ b/panels/models/clpt_bardell_field.pyx
@@ -5,7 +5,6 @@
 #cython: profile=False
 #cython: infer_types=False
 import numpy as np
-from libc.stdlib cimport malloc, free
 from cython.parallel import prange
 
 # \panels\panels\core\src
@@ -19,7 +18,8 @@ cdef extern from 'bardell_functions.hpp':
 
 DOUBLE = np.float64
 
-cdef int NMAX = 30
+cdef enum:
+    NMAX = 30
 cdef int DOF = 3
 
 
@@ -189,19 +189,12 @@ cdef void cfuvw(double *c, int m, int n, double a, double b, double *xs,
         double y1w, double y1wr, double y2w, double y2wr) nogil:
     cdef int i, j, col, pti
     cdef double x, y, u, v, w, xi, eta
-    cdef double *fu
-    cdef double *fv
-    cdef double *fw
-    cdef double *gu
-    cdef double *gv
-    cdef double *gw
-
-    fu = <double *>malloc(NMAX * sizeof(double *))
-    gu = <double *>malloc(NMAX * sizeof(double *))
-    fv = <double *>malloc(NMAX * sizeof(double *))
-    gv = <double *>malloc(NMAX * sizeof(double *))
-    fw = <double *>malloc(NMAX * sizeof(double *))
-    gw = <double *>malloc(NMAX * sizeof(double *))
+    cdef double[NMAX] fu
+    cdef double[NMAX] fv
+    cdef double[NMAX] fw
+    cdef double[NMAX] gu
+    cdef double[NMAX] gv
+    cdef double[NMAX] gw
 
     for pti in range(size):
         x = xs[pti]
@@ -232,13 +225,6 @@ cdef void cfuvw(double *c, int m, int n, double a, double b, double *xs,
         vs[pti] = v
         ws[pti] = w
 
-    free(fu)
-    free(gu)
-    free(fv)
-    free(gv)
-    free(fw)
-    free(gw)
-
 
 cdef void cfwx(double *c, int m, int n, double a, double b, double *xs,
         double *ys, int size, double *wxs,
@@ -246,11 +232,8 @@ cdef void cfwx(double *c, int m, int n, double a, double b, double *xs,
         double y1w, double y1wr, double y2w, double y2wr) nogil:
     cdef int i, j, col, pti
     cdef double x, y, wx, xi, eta
-    cdef double *fwxi
-    cdef double *gw
-
-    fwxi = <double *>malloc(NMAX * sizeof(double *))
-    gw = <double *>malloc(NMAX * sizeof(double *))
+    cdef double[NMAX] fwxi
+    cdef double[NMAX] gw
 
     for pti in range(size):
         x = xs[pti]
@@ -271,9 +254,6 @@ cdef void cfwx(double *c, int m, int n, double a, double b, double *xs,
 
         wxs[pti] = wx
 
-    free(fwxi)
-    free(gw)
-
 
 cdef void cfwy(double *c, int m, int n, double a, double b, double *xs,
         double *ys, int size, double *wys,
@@ -281,11 +261,8 @@ cdef void cfwy(double *c, int m, int n, double a, double b, double *xs,
         double y1w, double y1wr, double y2w, double y2wr) nogil:
     cdef int i, j, col, pti
     cdef double x, y, wy, xi, eta
-    cdef double *fw
-    cdef double *gweta
-
-    fw = <double *>malloc(NMAX * sizeof(double *))
-    gweta = <double *>malloc(NMAX * sizeof(double *))
+    cdef double[NMAX] fw
+    cdef double[NMAX] gweta
 
     for pti in range(size):
         x = xs[pti]
@@ -306,8 +283,6 @@ cdef void cfwy(double *c, int m, int n, double a, double b, double *xs,
 
         wys[pti] = wy
 
-    free(fw)
-    free(gweta)
 
 
 def fg(double[:, ::1] g, double x, double y, object s):
@@ -339,27 +314,14 @@ cdef void cfg(double[:,::1] g, int m, int n,
               double y1w, double y1wr, double y2w, double y2wr) nogil:
     cdef int i, j, col
     cdef double xi, eta
-    cdef double *fu
-    cdef double *fv
-    cdef double *fw
-    cdef double *fw_xi
-    cdef double *gu
-    cdef double *gv
-    cdef double *gw
-    cdef double *gw_eta
-
-    fu = <double *>malloc(NMAX * sizeof(double *))
-    # NMAX defined earlier
-    # <double *> = explicitly casting the result of malloc to a pointer to double. 
-    #  result of malloc = initially a generic pointer (void*). By casting it to a double*, you inform
-    # the compiler that you intend to treat the allocated memory as if it stores a double 
-    gu = <double *>malloc(NMAX * sizeof(double *))
-    fv = <double *>malloc(NMAX * sizeof(double *))
-    gv = <double *>malloc(NMAX * sizeof(double *))
-    fw = <double *>malloc(NMAX * sizeof(double *))
-    fw_xi = <double *>malloc(NMAX * sizeof(double *))
-    gw = <double *>malloc(NMAX * sizeof(double *))
-    gw_eta = <double *>malloc(NMAX * sizeof(double *))
+    cdef double[NMAX] fu
+    cdef double[NMAX] fv
+    cdef double[NMAX] fw
+    cdef double[NMAX] fw_xi
+    cdef double[NMAX] gu
+    cdef double[NMAX] gv
+    cdef double[NMAX] gw
+    cdef double[NMAX] gw_eta
 
     xi = 2*x/a - 1.
     eta = 2*y/b - 1.
@@ -383,14 +345,6 @@ cdef void cfg(double[:,::1] g, int m, int n,
             g[3, col+2] = -(2/a)*fw_xi[i]*gw[j]
             g[4, col+2] = -(2/b)*fw[i]*gw_eta[j]
 
-    free(fu)
-    free(gu)
-    free(fv)
-    free(gv)
-    free(fw)
-    free(fw_xi)
-    free(gw)
-    free(gw_eta)
 
 # *c passed as pointer - modifies it wo needing to pass it back
 '''
@@ -412,38 +366,24 @@ cdef void cfstrain(double *c, int m, int n, double a, double b,
     cdef double exx, eyy, gxy, kxx, kyy, kxy
     cdef int flagcyl
 
-    cdef double *fu
-    cdef double *fuxi
-    cdef double *fv
-    cdef double *fvxi
-    cdef double *fw
-    cdef double *fwxi
-    cdef double *fwxixi
-
-    cdef double *gu
-    cdef double *gueta
-    cdef double *gv
-    cdef double *gveta
-    cdef double *gw
-    cdef double *gweta
-    cdef double *gwetaeta
+    cdef double[NMAX] fu
+    cdef double[NMAX] fuxi
+    cdef double[NMAX] fv
+    cdef double[NMAX] fvxi
+    cdef double[NMAX] fw
+    cdef double[NMAX] fwxi
+    cdef double[NMAX] fwxixi
+
+    cdef double[NMAX] gu
+    cdef double[NMAX] gueta
+    cdef double[NMAX] gv
+    cdef double[NMAX] gveta
+    cdef double[NMAX] gw
+    cdef double[NMAX] gweta
+    cdef double[NMAX] gwetaeta
 
     cdef double wxi, weta
 
-    fu = <double *>malloc(NMAX * sizeof(double *))
-    fuxi = <double *>malloc(NMAX * sizeof(double *))
-    gu = <double *>malloc(NMAX * sizeof(double *))
-    gueta = <double *>malloc(NMAX * sizeof(double *))
-    fv = <double *>malloc(NMAX * sizeof(double *))
-    fvxi = <double *>malloc(NMAX * sizeof(double *))
-    gv = <double *>malloc(NMAX * sizeof(double *))
-    gveta = <double *>malloc(NMAX * sizeof(double *))
-    fw = <double *>malloc(NMAX * sizeof(double *))
-    fwxi = <double *>malloc(NMAX * sizeof(double *))
-    fwxixi = <double *>malloc(NMAX * sizeof(double *))
-    gw = <double *>malloc(NMAX * sizeof(double *))
-    gweta = <double *>malloc(NMAX * sizeof(double *))
-    gwetaeta = <double *>malloc(NMAX * sizeof(double *))
 
     if r == 0:
         flagcyl = 0
@@ -518,18 +458,3 @@ cdef void cfstrain(double *c, int m, int n, double a, double b,
         kxys[pti] = kxy
 
     # Frees up the allocated mem
-    free(fu)
-    free(fuxi)
-    free(gu)
-    free(gueta)
-    free(fv)
-    free(fvxi)
-    free(gv)
-    free(gveta)
-    free(fw)
-    free(fwxi)
-    free(fwxixi)
-    free(gw)
-    free(gweta)
-    free(gwetaeta)
-
-- 
2.43.0


From 53ba6e5eececde4a5802206a3e91f014bba5681d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 04/35] fix: assembling does not modify the connectivity given
 by the user

---
 panels/multidomain/multidomain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index a53fe8b..c52b40e 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -777,6 +777,7 @@ class MultiDomain(object):
         # Looping through each connection pair 
         for connecti in conn:
             # connecti = ith connection pair
+            connecti = dict(connecti) #NOTE the definition given by the user must not change
             p1_temp = connecti['p1']
             p2_temp = connecti['p2']
             if p1_temp.col_start < p2_temp.col_start:
-- 
2.43.0


From 00faf086026840651d174324baf9c017f5e832bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 05/35] fix: connections are those of the current panels and
 connectivity

---
 panels/multidomain/multidomain.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index c52b40e..dce9d37 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -767,9 +767,6 @@ class MultiDomain(object):
                 raise RuntimeError('No connectivity dictionary defined!')
             conn = self.conn
 
-        if self.kC_conn is not None:
-            return self.kC_conn
-
         size = self.get_size()
 
         kC_conn = 0.
-- 
2.43.0


From 281c1a4d783e5614c772916030a222e0c3841522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 06/35] fix: tangent stiffness matrix of assemblies

---
 panels/multidomain/multidomain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index dce9d37..3685897 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -1012,7 +1012,7 @@ class MultiDomain(object):
             if p.row_start is None or p.col_start is None:
                 raise ValueError('Shell attributes "row_start" and "col_start" must be defined!')
             kT += p.calc_kC(c=c, size=size, row0=p.row_start, col0=p.col_start,
-                    silent=silent, finalize=False, inc=inc, NLgeom=True)
+                    silent=silent, finalize=False, NLgeom=True)
             kT += p.calc_kG(c=c, size=size, row0=p.row_start,
                     col0=p.col_start, silent=silent, finalize=False, NLgeom=True)
         if finalize:
-- 
2.43.0


From 1be6985a836d5381aefb5500a8f617d63caee373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 07/35] fix: position of the panels in an assembly is always
 the current one

---
 panels/multidomain/multidomain.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 3685897..2e9ba4e 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -82,9 +82,15 @@ class MultiDomain(object):
         self.panels = panels
         self.size = None
         self.out_num_cores = 4
+        self._set_positions()
+
+
+    def _set_positions(self):
+        # The panels may belong to other assemblies, or have a new number of
+        # terms since the last time they were used here
         row0 = 0
         col0 = 0
-        for p in panels:
+        for p in self.panels:
             assert isinstance(p, Shell) # Check if its Shell obj
             # This actually modifies the shell obj (i.e. passed panels)
             p.row_start = row0 # 1st panel starts at 0,0. Rest start at end of last matrix  --- Assembly of Kp_i from the paper
@@ -99,6 +105,7 @@ class MultiDomain(object):
         '''
         Size of K of a single panel
         '''
+        self._set_positions()
         self.size = sum([3*p.m*p.n for p in self.panels])
         return self.size
 
@@ -382,6 +389,7 @@ class MultiDomain(object):
         stored as parameters with the same name in the ``Shell`` object.
 
         """
+        self._set_positions()
         res = dict(x=[], y=[], u=[], v=[], w=[], phix=[], phiy=[])
         for panel in self.panels:
             if panel.group != group:
@@ -435,6 +443,7 @@ class MultiDomain(object):
         """
         
         # res = results
+        self._set_positions()
         res = dict(x=[], y=[], exx=[], eyy=[], gxy=[], kxx=[], kyy=[], kxy=[])
         for panel in self.panels:
             # If that panel's (in the MD assembly) group is not whose strain u want, skip it
@@ -494,6 +503,7 @@ class MultiDomain(object):
             ``(x, y, Nxx, Nyy, Nxy, Mxx, Myy, Mxy)``.
 
         """
+        self._set_positions()
         res = dict(x=[], y=[], Nxx=[], Nyy=[], Nxy=[], Mxx=[], Myy=[], Mxy=[])
         for panel in self.panels:
             if panel.group != group:
@@ -562,6 +572,7 @@ class MultiDomain(object):
         stored as parameters with the same name in the ``Shell`` object.
 
         """
+        self._set_positions()
         res = dict(x=[], y=[], u=[], v=[], w=[], phix=[], phiy=[])
         for panel in self.panels:
             if panel.group != group:
@@ -631,6 +642,7 @@ class MultiDomain(object):
         
         
         # res = results
+        self._set_positions()
         res = dict(x=[], y=[], exx=[], eyy=[], gxy=[], kxx=[], kyy=[], kxy=[])
         for panel in self.panels:
             # If that panel's (in the MD assembly) group is not whose strain u want, skip it
@@ -701,6 +713,7 @@ class MultiDomain(object):
             ``(x, y, Nxx, Nyy, Nxy, Mxx, Myy, Mxy)``.
 
         """
+        self._set_positions()
         res = dict(x=[], y=[], Nxx=[], Nyy=[], Nxy=[], Mxx=[], Myy=[], Mxy=[])
         for panel in self.panels:
             if panel.group != group:
-- 
2.43.0


From d19bebd4eb031e19a126743b523c78f2c541a9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 08/35] fix: default sampling points are those of each panel of
 the group

---
 panels/multidomain/multidomain.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 2e9ba4e..f3f5940 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -584,14 +584,16 @@ class MultiDomain(object):
             
             if x_gauss is None and y_gauss is None:
                 raise ValueError('Sampling points in atleast x or y should be specified')
+            x_panel = x_gauss
+            y_panel = y_gauss
             if x_gauss is None:
                 no_grid_x = 50
-                x_gauss = linspace(0, panel.a, no_grid_x)
+                x_panel = linspace(0, panel.a, no_grid_x)
             if y_gauss is None:
                 no_grid_y = 50
-                y_gauss = linspace(0, panel.b, no_grid_y)
+                y_panel = linspace(0, panel.b, no_grid_y)
             
-            xs, ys = np.meshgrid(x_gauss, y_gauss, copy=False)
+            xs, ys = np.meshgrid(x_panel, y_panel, copy=False)
             # Scalar inputs are converted to 1D arrays, whilst higher-dimensional inputs are preserved
             xs = np.atleast_1d(np.array(xs, dtype=DOUBLE))
             ys = np.atleast_1d(np.array(ys, dtype=DOUBLE))
@@ -656,14 +658,16 @@ class MultiDomain(object):
             
             if x_gauss is None and y_gauss is None:
                 raise ValueError('Sampling points in atleast x or y should be specified')
+            x_panel = x_gauss
+            y_panel = y_gauss
             if x_gauss is None:
                 no_grid_x = 50
-                x_gauss = linspace(0, panel.a, no_grid_x)
+                x_panel = linspace(0, panel.a, no_grid_x)
             if y_gauss is None:
                 no_grid_y = 50
-                y_gauss = linspace(0, panel.b, no_grid_y)
+                y_panel = linspace(0, panel.b, no_grid_y)
             
-            xs, ys = np.meshgrid(x_gauss, y_gauss, copy=False)
+            xs, ys = np.meshgrid(x_panel, y_panel, copy=False)
             # Scalar inputs are converted to 1D arrays, whilst higher-dimensional inputs are preserved
             xs = np.atleast_1d(np.array(xs, dtype=DOUBLE))
             ys = np.atleast_1d(np.array(ys, dtype=DOUBLE))
@@ -725,14 +729,16 @@ class MultiDomain(object):
             
             if x_gauss is None and y_gauss is None:
                 raise ValueError('Sampling points in atleast x or y should be specified')
+            x_panel = x_gauss
+            y_panel = y_gauss
             if x_gauss is None:
                 no_grid_x = 50
-                x_gauss = linspace(0, panel.a, no_grid_x)
+                x_panel = linspace(0, panel.a, no_grid_x)
             if y_gauss is None:
                 no_grid_y = 50
-                y_gauss = linspace(0, panel.b, no_grid_y)
+                y_panel = linspace(0, panel.b, no_grid_y)
             
-            xs, ys = np.meshgrid(x_gauss, y_gauss, copy=False)
+            xs, ys = np.meshgrid(x_panel, y_panel, copy=False)
             # Scalar inputs are converted to 1D arrays, whilst higher-dimensional inputs are preserved
             xs = np.atleast_1d(np.array(xs, dtype=DOUBLE))
             ys = np.atleast_1d(np.array(ys, dtype=DOUBLE))
-- 
2.43.0


From 52baef5c6e0fe49d22ca6c973324136a8e1d65ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 09/35] fix: operations do not require another one to have been
 called before

---
 panels/multidomain/multidomain.py |  8 ++++++++
 panels/shell.py                   | 19 +++++++++++++++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index f3f5940..41be68e 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -396,6 +396,7 @@ class MultiDomain(object):
                 continue
             c_panel = c[panel.col_start: panel.col_end]
             c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
+            panel._rebuild_model()
             model = panel.model
             fuvw = modelDB.db[model]['field'].fuvw
             x, y, shape = default_field(panel, gridx, gridy)
@@ -451,6 +452,7 @@ class MultiDomain(object):
                 continue
             c_panel = c[panel.col_start: panel.col_end]
             c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
+            panel._rebuild_model()
             model = panel.model
             # In panels\panels\models - for plates, clpt_bardell_field
             fstrain = modelDB.db[model]['field'].fstrain
@@ -510,6 +512,8 @@ class MultiDomain(object):
                 continue
             c_panel = c[panel.col_start: panel.col_end]
             c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
+            if panel.stack:
+                panel._rebuild()
             model = panel.model
             fstrain = modelDB.db[model]['field'].fstrain
             x, y, shape = default_field(panel, gridx, gridy)
@@ -579,6 +583,7 @@ class MultiDomain(object):
                 continue
             c_panel = c[panel.col_start: panel.col_end]
             c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
+            panel._rebuild_model()
             model = panel.model
             fuvw = modelDB.db[model]['field'].fuvw
             
@@ -652,6 +657,7 @@ class MultiDomain(object):
                 continue
             c_panel = c[panel.col_start: panel.col_end]
             c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
+            panel._rebuild_model()
             model = panel.model
             # In panels\panels\models - for plates, clpt_bardell_field
             fstrain = modelDB.db[model]['field'].fstrain
@@ -724,6 +730,8 @@ class MultiDomain(object):
                 continue
             c_panel = c[panel.col_start: panel.col_end]
             c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
+            if panel.stack:
+                panel._rebuild()
             model = panel.model
             fstrain = modelDB.db[model]['field'].fstrain
             
diff --git a/panels/shell.py b/panels/shell.py
index 10e3465..94d7d0f 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -264,7 +264,7 @@ class Shell(object):
         gc.collect()
 
 
-    def _rebuild(self):
+    def _rebuild_model(self):
         self.nx = max(self.nx, self.m)
         self.ny = max(self.ny, self.n)
         if self.model is None:
@@ -279,6 +279,12 @@ class Shell(object):
             raise ValueError('ERROR - valid models are:\n    ' +
                      '\n    '.join(valid_models))
 
+        self.r = self.r if self.r is not None else 0.
+
+
+    def _rebuild(self):
+        self._rebuild_model()
+
         if not self.stack:
             raise ValueError('stack must be defined')
 
@@ -324,6 +330,8 @@ class Shell(object):
             obtained by the :method:`.Shell.get_size`
 
         """
+        if self.model is None:
+            self._rebuild_model()
         dofs = modelDB.db[self.model]['dofs']
         self.size = dofs*self.m*self.n
         return self.size
@@ -603,6 +611,7 @@ class Shell(object):
 
         """
         msg('Calculating kM... ', level=2, silent=silent)
+        self._rebuild()
         analytical_kM = True
         nx = self.nx if nx is None else nx
         ny = self.ny if ny is None else ny
@@ -655,7 +664,7 @@ class Shell(object):
         r"""Calculate the aerodynamic matrix using the linear piston theory
         """
         msg('Calculating kA... ', level=2, silent=silent)
-
+        self._rebuild_model()
 
         matrices_num = modelDB.db[self.model]['matrices_num']
 
@@ -762,6 +771,7 @@ class Shell(object):
         c = np.ascontiguousarray(c, dtype=DOUBLE)
 
         xs, ys, xshape, yshape = self._default_field(xs, ys, gridx, gridy)
+        self._rebuild_model()
         fuvw = modelDB.db[self.model]['field'].fuvw
         us, vs, ws, phixs, phiys = fuvw(c, self, xs, ys, self.out_num_cores)
 
@@ -807,6 +817,7 @@ class Shell(object):
         """
         c = np.ascontiguousarray(c, dtype=DOUBLE)
         xs, ys, xshape, yshape = self._default_field(xs, ys, gridx, gridy)
+        self._rebuild_model()
         fstrain = modelDB.db[self.model]['field'].fstrain
         exx, eyy, gxy, kxx, kyy, kxy = fstrain(c, self, xs, ys, self.out_num_cores, int(NLgeom))
 
@@ -862,6 +873,8 @@ class Shell(object):
         kyy = fields['kyy']
         kxy = fields['kxy']
         if ABD is None:
+            if self.stack:
+                self._rebuild()
             ABD = self.ABD
         if ABD is None:
             raise ValueError('Laminate ABD matrix not defined for shell')
@@ -1099,6 +1112,7 @@ class Shell(object):
            account in the calculations.
 
         """
+        self._rebuild_model()
         fg = modelDB.db[self.model]['field'].fg
         size = self.get_size()
         g = np.zeros((5, size), dtype=DOUBLE)
@@ -1193,6 +1207,7 @@ class Shell(object):
 
         """
         msg('Calculating internal forces...', level=2, silent=silent)
+        self._rebuild()
         model = self.model
         if not model in modelDB.db.keys():
             raise ValueError(
-- 
2.43.0


From 8ebe3c223e203412805b8380aa79534484149496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 10/35] fix: model and laminate follow the current definition
 of the shell

---
 panels/shell.py | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 94d7d0f..9a2b711 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -115,6 +115,7 @@ class Shell(object):
         'num_eigvalues', 'num_eigvalues_print',
         'out_num_cores', 'increments', 'results',
         'lam', 'matrices', 'fields', 'plot_mesh',
+        '_derived',
         ]
 
     def __init__(self, a=None, b=None, r=None,
@@ -247,6 +248,9 @@ class Shell(object):
         for k, v in kwargs.items():
             setattr(self, k, v)
 
+        # attributes calculated from others, and what they were calculated from
+        self._derived = {}
+
         self._clear_matrices()
 
 
@@ -264,14 +268,29 @@ class Shell(object):
         gc.collect()
 
 
+    def _set_derived(self, name, value, *source):
+        self._derived = dict(self._derived, **{name: (value, source)})
+        setattr(self, name, value)
+
+
+    def _reset_derived(self, name, *source):
+        # Discards what was calculated from values that changed since then,
+        # anything set by the user is kept
+        value, old_source = self._derived.get(name, (None, source))
+        if value is not None and getattr(self, name) is value and old_source != source:
+            setattr(self, name, None)
+
+
     def _rebuild_model(self):
         self.nx = max(self.nx, self.m)
         self.ny = max(self.ny, self.n)
+        self._reset_derived('model', self.r or None)
         if self.model is None:
-            if self.r is None:
-                self.model = 'plate_clpt_donnell_bardell'
-            elif self.r is not None:
-                self.model = 'cylshell_clpt_donnell_bardell'
+            if not self.r: #NOTE r=0. is adopted for plates
+                model = 'plate_clpt_donnell_bardell'
+            else:
+                model = 'cylshell_clpt_donnell_bardell'
+            self._set_derived('model', model, self.r or None)
 
         valid_models = sorted(modelDB.db.keys())
 
@@ -288,18 +307,23 @@ class Shell(object):
         if not self.stack:
             raise ValueError('stack must be defined')
 
+        num = len(self.stack)
+        laminaprop = tuple(self.laminaprop) if self.laminaprop is not None else None
+        self._reset_derived('laminaprops', num, laminaprop)
         if not self.laminaprops:
             if not self.laminaprop:
                 raise ValueError('laminaprop must be defined')
-            self.laminaprops = [self.laminaprop for i in self.stack]
+            self._set_derived('laminaprops', [self.laminaprop for i in self.stack], num, laminaprop)
 
+        self._reset_derived('rhos', num, self.rho)
         if not self.rhos:
-            self.rhos = [self.rho for i in self.stack]
+            self._set_derived('rhos', [self.rho for i in self.stack], num, self.rho)
 
+        self._reset_derived('plyts', num, self.plyt)
         if not self.plyts:
             if self.plyt is None:
                 raise ValueError('plyt must be defined')
-            self.plyts = [self.plyt for i in self.stack]
+            self._set_derived('plyts', [self.plyt for i in self.stack], num, self.plyt)
 
         if self.stack is not None:
             lam = laminated_plate(stack=self.stack, plyts=self.plyts,
-- 
2.43.0


From 9e50bcdbacd0a612167d5b68dabad8c30c511c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 11/35] fix: aerodynamic matrix follows the current flow
 conditions

---
 panels/shell.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 9a2b711..3da5dc5 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -704,9 +704,7 @@ class Shell(object):
                 raise ValueError('Mach number cannot be a NoneValue')
             elif self.Mach < 1:
                 raise ValueError('Mach number must be >= 1')
-            elif self.Mach == 1:
-                self.Mach = 1.0001
-            Mach = self.Mach
+            Mach = self.Mach if self.Mach != 1 else 1.0001
             beta = self.rho_air * self.V**2 / (Mach**2 - 1)**0.5
             if self.r != 0.:
                 gamma = beta*1./(2.*self.r*(Mach**2 - 1)**0.5)
@@ -716,15 +714,20 @@ class Shell(object):
             beta = self.beta
             gamma = self.gamma if self.gamma is not None else 0.
 
+        beta_bkp, gamma_bkp = self.beta, self.gamma
         self.beta = beta
         self.gamma = gamma
-
-        if self.flow.lower() == 'x':
-            kA = matrices_num.fkAx_num(self, size, row0, col0, self.nx, self.ny)
-        elif self.flow.lower() == 'y':
-            kA = matrices_num.fkAy_num(self, size, row0, col0, self.nx, self.ny)
-        else:
-            raise ValueError('Invalid flow value, must be x or y')
+        try:
+            if self.flow.lower() == 'x':
+                kA = matrices_num.fkAx_num(self, size, row0, col0, self.nx, self.ny)
+            elif self.flow.lower() == 'y':
+                kA = matrices_num.fkAy_num(self, size, row0, col0, self.nx, self.ny)
+            else:
+                raise ValueError('Invalid flow value, must be x or y')
+        finally:
+            #NOTE otherwise the next calculation would ignore changes in the
+            #     flow conditions
+            self.beta, self.gamma = beta_bkp, gamma_bkp
 
         if finalize:
             assert np.any(np.isnan(kA.data)) == False
-- 
2.43.0


From 08b13e5931619a6e7268ef527334e06d9cb99855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 12/35] fix: bays: aerodynamic matrix uses the flow of the bay,
 stiffener base offset follows the skin

---
 panels/stiffener/bladestiff2d.py      |  1 +
 panels/stiffpanelbay/stiffpanelbay.py | 11 +++++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/panels/stiffener/bladestiff2d.py b/panels/stiffener/bladestiff2d.py
index f4d0c50..af094ed 100644
--- a/panels/stiffener/bladestiff2d.py
+++ b/panels/stiffener/bladestiff2d.py
@@ -92,6 +92,7 @@ class BladeStiff2D(object):
             h = 0.5*sum(self.panel1.plyts) + 0.5*sum(self.panel2.plyts)
             hb = sum(self.bplyts)
             self.dpb = h/2. + hb/2.
+            self.base.offset = -h/2.-hb/2.
             self.base.lam = laminated_plate(self.bstack, plyts=self.bplyts,
                                             laminaprops=self.blaminaprops,
                                             offset=(-h/2.-hb/2.))
diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 000b2d5..15fb688 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -706,9 +706,7 @@ class StiffPanelBay(object):
         if self.beta is None:
             if self.Mach < 1:
                 raise ValueError('Mach number must be >= 1')
-            elif self.Mach == 1:
-                self.Mach = 1.0001
-            Mach = self.Mach
+            Mach = self.Mach if self.Mach != 1 else 1.0001
             beta = self.rho_air * self.V**2 / (Mach**2 - 1)**0.5
             if r != 0.:
                 gamma = beta*1./(2.*self.r*(Mach**2 - 1)**0.5)
@@ -738,7 +736,12 @@ class StiffPanelBay(object):
         p.size = self.size
         p.V = self.V
         p.r = self.r
-        p.calc_kA(silent=True, finalize=False)
+        beta_bkp, gamma_bkp = p.beta, p.gamma
+        p.beta, p.gamma = beta, gamma
+        try:
+            p.calc_kA(size=self.get_size(), silent=True, finalize=False)
+        finally:
+            p.beta, p.gamma = beta_bkp, gamma_bkp
         kA = p.matrices['kA']
 
         assert np.any(np.isnan(kA.data)) == False
-- 
2.43.0


From 83db34421d2aff22f90cdcfe22c3df3392417778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 13/35] fix: stiffness with constant stresses or variable
 laminates without c

---
 panels/shell.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/panels/shell.py b/panels/shell.py
index 3da5dc5..b38ebec 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -498,7 +498,7 @@ class Shell(object):
         ny = self.ny if ny is None else ny
         self.r = self.r if self.r is not None else 0.
 
-        if c is None and ABDnxny is None:
+        if c is None:
             # Empty c if the interest is only on the heterogeneous
             # laminate properties
             c = np.zeros(size, dtype=DOUBLE)
@@ -525,7 +525,10 @@ class Shell(object):
             if c_cte is not None:
                 msg('NOTE: constant stress state taken into account by c_cte', level=3, silent=silent)
                 check_c(c_cte, size)
+                c_cte = np.ascontiguousarray(c_cte, dtype=DOUBLE)
                 analytical_kG = False
+            else:
+                c_cte = np.zeros(size, dtype=DOUBLE)
             # This calc KG0 - Geo stiff mat at initial membrane stress state (SA formulation paper - eq 12) and adds it to K0 calc earlier
             
             # WHY IS KG0 ADDED TO KC ???????????????????????????
-- 
2.43.0


From 3c94ee6a7ed395206e853b102c2b1a74df1060d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 14/35] fix: matrices of shells that cover part of the domain
 are integrated over that part

---
 panels/shell.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index b38ebec..cecc033 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -361,6 +361,12 @@ class Shell(object):
         return self.size
 
 
+    def _is_partial(self):
+        #NOTE the analytical matrices are always integrated over the full domain
+        return ((self.x1 != -1 and self.x2 != -1)
+                or (self.y1 != -1 and self.y2 != -1))
+
+
     def _default_field(self, xs, ys, gridx, gridy):
         if xs is None or ys is None:
             xs = linspace(0, self.a, gridx)
@@ -474,8 +480,8 @@ class Shell(object):
             size = int(size) + self.get_size()
         msg('Calculating kC... ', level=2, silent=silent)
 
-        analytical_kC = True
-        analytical_kG = True
+        analytical_kC = not self._is_partial()
+        analytical_kG = not self._is_partial()
         # This means a linear analysis is already performed (check panels\tests\tests_shell\test_nonlinear.py)
         # So, the next step is NL. So no analytical
         if c is not None:
@@ -567,7 +573,7 @@ class Shell(object):
             size = self.get_size()
         elif isinstance(size, str):
             size = int(size) + self.get_size()
-        analytical_kG = True
+        analytical_kG = not self._is_partial()
         if c is not None:
             check_c(c, size)
             c = np.ascontiguousarray(c, dtype=DOUBLE)
@@ -639,7 +645,7 @@ class Shell(object):
         """
         msg('Calculating kM... ', level=2, silent=silent)
         self._rebuild()
-        analytical_kM = True
+        analytical_kM = not self._is_partial()
         nx = self.nx if nx is None else nx
         ny = self.ny if ny is None else ny
 
-- 
2.43.0


From 39b832e3ab3f1b256d276a91e8c091e180753256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 15/35] fix: bays: external forces, displacements at given
 points and on any stiffener

---
 panels/stiffpanelbay/stiffpanelbay.py | 40 +++++++++++++--------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 15fb688..3f78481 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -215,11 +215,14 @@ class StiffPanelBay(object):
             The size of the stiffness matrices.
 
         """
+        if self.model is None:
+            self._rebuild()
         dofs = panelmDB.db[self.model]['dofs']
         self.size = dofs*self.m*self.n
 
         for s in self.bladestiff2ds:
-            self.size += s.flange.get_size()
+            if s.flange is not None:
+                self.size += s.flange.get_size()
 
         for s in self.tstiff2ds:
             self.size += s.base.get_size() + s.flange.get_size()
@@ -847,10 +850,7 @@ class StiffPanelBay(object):
         a = self.a
         b = self.b
 
-        if xs is None or ys is None:
-            xs, ys, xshape, yshape = self._default_field(xs, a, ys, b, gridx, gridy)
-        else:
-            xshape = xs.shape
+        xs, ys, xshape, yshape = self._default_field(xs, a, ys, b, gridx, gridy)
 
         if c.shape[0] == self.get_size():
             dofs = panelmDB.db[self.model]['dofs']
@@ -929,8 +929,8 @@ class StiffPanelBay(object):
         for i, s in enumerate(self.stiffeners):
             if i > 0:
                 s_1 = self.stiffeners[i-1]
-                if isinstance(s, BladeStiff2D):
-                    row_init += s_1.get_size()
+                if isinstance(s_1, BladeStiff2D) and s_1.flange is not None:
+                    row_init += s_1.flange.get_size()
             if i == si:
                 break
 
@@ -948,10 +948,7 @@ class StiffPanelBay(object):
         else:
             raise ValueError('c must be the full vector of Ritz constants')
 
-        if xs is None or ys is None:
-            xs, ys, xshape, yshape = self._default_field(xs, self.a, ys, bstiff, gridx, gridy)
-        else:
-            xshape = xs.shape
+        xs, ys, xshape, yshape = self._default_field(xs, self.a, ys, bstiff, gridx, gridy)
 
         if region.lower() == 'flange':
             fuvw = panelmDB.db[s.flange.model]['field'].fuvw
@@ -1446,32 +1443,35 @@ class StiffPanelBay(object):
 
         """
         msg('Calculating external forces...', level=2, silent=silent)
+        self._rebuild()
         dofs = panelmDB.db[self.model]['dofs']
         fg = panelmDB.db[self.model]['field'].fg
 
         # punctual forces on skin
         size = dofs*self.m*self.n
-        g = np.zeros((3, size), dtype=DOUBLE)
+        g = np.zeros((5, size), dtype=DOUBLE) # rows u, v, w, phix, phiy
         fext_skin = np.zeros(size, dtype=DOUBLE)
         for i, force in enumerate(self.forces_skin):
             x, y, fx, fy, fz = force
             fg(g, x, y, self)
 
-            fpt = np.array([[fx, fy, fz]])
+            fpt = np.array([[fx, fy, fz, 0, 0]])
             fext_skin += fpt.dot(g).ravel()
 
         fext = fext_skin
         # punctual forces on bladestiff2ds
         # flange
         for s in self.bladestiff2ds:
+            if s.flange is None:
+                continue
             fg_flange = panelmDB.db[s.flange.model]['field'].fg
             size = s.flange.get_size()
-            g_flange = np.zeros((3, size), dtype=DOUBLE)
+            g_flange = np.zeros((5, size), dtype=DOUBLE)
             fext_stiffener = np.zeros(size, dtype=DOUBLE)
-            for i, force in enumerate(s.flange.forces):
+            for i, force in enumerate(s.forces_flange):
                 xf, yf, fx, fy, fz = force
                 fg_flange(g_flange, xf, yf, s.flange)
-                fpt = np.array([[fx, fy, fz]])
+                fpt = np.array([[fx, fy, fz, 0, 0]])
                 fext_stiffener += fpt.dot(g_flange).ravel()
 
             fext = np.concatenate((fext, fext_stiffener))
@@ -1480,24 +1480,24 @@ class StiffPanelBay(object):
         for s in self.tstiff2ds:
             # base
             size = s.base.get_size()
-            g_base = np.zeros((3, size), dtype=DOUBLE)
+            g_base = np.zeros((5, size), dtype=DOUBLE)
             fext_base = np.zeros(size, dtype=DOUBLE)
             fg_base = panelmDB.db[s.base.model]['field'].fg
             for i, force in enumerate(s.base.forces):
                 xb, yb, fx, fy, fz = force
                 fg_base(g_base, xb, yb, s.base)
-                fpt = np.array([[fx, fy, fz]])
+                fpt = np.array([[fx, fy, fz, 0, 0]])
                 fext_base += fpt.dot(g_base).ravel()
 
             # flange
             size = s.flange.get_size()
-            g_flange = np.zeros((3, size), dtype=DOUBLE)
+            g_flange = np.zeros((5, size), dtype=DOUBLE)
             fext_flange = np.zeros(size, dtype=DOUBLE)
             fg_flange = panelmDB.db[s.flange.model]['field'].fg
             for i, force in enumerate(s.flange.forces):
                 xf, yf, fx, fy, fz = force
                 fg_flange(g_flange, xf, yf, s.flange)
-                fpt = np.array([[fx, fy, fz]])
+                fpt = np.array([[fx, fy, fz, 0, 0]])
                 fext_flange += fpt.dot(g_flange).ravel()
 
             fext = np.concatenate((fext, fext_base, fext_flange))
-- 
2.43.0


From c36b68dff86783a3f3e5b97421422ba82c4bd2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:48 +0000
Subject: [PATCH 16/35] fix: plots leave results intact, also when they fail,
 and close their figures

---
 panels/multidomain/multidomain.py     |  2 ++
 panels/plot_shell.py                  | 38 +++++++++++++++++----
 panels/stiffpanelbay/stiffpanelbay.py | 49 ++++++++++++---------------
 3 files changed, 55 insertions(+), 34 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 41be68e..0b0d8ba 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -11,6 +11,7 @@ from panels import Shell
 from panels.logger import msg, warn
 from panels.shell import DOUBLE, check_c
 import panels.modelDB as modelDB
+from panels.plot_shell import closing_figures
 
 from . import connections
 
@@ -110,6 +111,7 @@ class MultiDomain(object):
         return self.size
 
 
+    @closing_figures
     def plot(self, c, group, invert_y=False, vec='w', filename='', ax=None,
             figsize=(3.5, 2.), save=True, title='', identify=False,
             show_boundaries=False, boundary_line='--k', boundary_linewidth=1.,
diff --git a/panels/plot_shell.py b/panels/plot_shell.py
index a164724..53fe529 100644
--- a/panels/plot_shell.py
+++ b/panels/plot_shell.py
@@ -1,5 +1,6 @@
 import platform
 from copy import deepcopy
+from functools import wraps
 
 from numpy import linspace
 import matplotlib
@@ -11,6 +12,37 @@ import matplotlib.cm as cm
 from .logger import msg, warn
 
 
+def closing_figures(plot):
+    # Closes the figures of a plot that fails
+    @wraps(plot)
+    def wrapper(*args, **kwargs):
+        existing = plt.get_fignums()
+        try:
+            return plot(*args, **kwargs)
+        except BaseException:
+            for num in plt.get_fignums():
+                if num not in existing:
+                    plt.close(num)
+            raise
+    return wrapper
+
+
+def keeping_results(plot):
+    # Plotting, also when it fails, does not change the results of the shell
+    @wraps(plot)
+    def wrapper(shell, *args, **kwargs):
+        mesh_bkp, fields_bkp = deepcopy((shell.plot_mesh, shell.fields))
+        try:
+            return plot(shell, *args, **kwargs)
+        finally:
+            if mesh_bkp['Xs'] is not None:
+                shell.plot_mesh.update(mesh_bkp)
+                shell.fields.update(fields_bkp)
+    return wrapper
+
+
+@closing_figures
+@keeping_results
 def plot_shell(shell, c, invert_y=False, vec='w', deform_u=False,
         deform_u_sf=100., filename='', ax=None, figsize=(3.5, 2.),
         save=True, title='', colorbar=False, cbar_nticks=2,
@@ -98,8 +130,6 @@ def plot_shell(shell, c, invert_y=False, vec='w', deform_u=False,
     """
     msg('Plotting contour...')
 
-    fields_bkp = deepcopy(shell.fields)
-
     msg('Computing field variables...', level=1)
     displs = ['u', 'v', 'w', 'phix', 'phiy']
     strains = ['exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy', 'gyz', 'gxz']
@@ -207,10 +237,6 @@ def plot_shell(shell, c, invert_y=False, vec='w', deform_u=False,
                     bbox_inches='tight', pad_inches=0.05, dpi=dpi)
         plt.close()
 
-    for k, v in fields_bkp.items():
-        if v is not None:
-            shell.fields[k] = v
-
     msg('finished!')
 
     return ax
diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 3f78481..f63fee8 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -1,5 +1,6 @@
 import gc
 import pickle
+from functools import wraps
 from multiprocessing import cpu_count
 
 import numpy as np
@@ -10,6 +11,7 @@ from structsolve.sparseutils import finalize_symmetric_matrix, make_skew_symmetr
 from panels.logger import msg
 from panels import Shell, modelDB as panelmDB
 from panels.shell import open_replacing
+from panels.plot_shell import closing_figures
 from panels.stiffener import BladeStiff1D, BladeStiff2D
 
 
@@ -23,6 +25,21 @@ def load(name):
         return pickle.load(open(name + '.StiffPanelBay', 'rb'))
 
 
+def keeping_results(plot):
+    # Plotting, also when it fails, does not change the results of the bay
+    names = ['u', 'v', 'w', 'phix', 'phiy', 'Xs', 'Ys']
+    @wraps(plot)
+    def wrapper(bay, *args, **kwargs):
+        bkp = [getattr(bay, name) for name in names]
+        try:
+            return plot(bay, *args, **kwargs)
+        finally:
+            if bay.Xs is not None and bkp[names.index('Xs')] is not None:
+                for name, value in zip(names, bkp):
+                    setattr(bay, name, value)
+    return wrapper
+
+
 class StiffPanelBay(object):
     r"""Stiffened Shell Bay
 
@@ -967,6 +984,8 @@ class StiffPanelBay(object):
         return self.u, self.v, self.w, self.phix, self.phiy
 
 
+    @closing_figures
+    @keeping_results
     def plot_skin(self, c, invert_y=False, plot_type=1, vec='w',
             deform_u=False, deform_u_sf=100., filename='', ax=None,
             figsize=(3.5, 2.), save=True, title='', colorbar=False,
@@ -1067,9 +1086,6 @@ class StiffPanelBay(object):
         """
         msg('Plotting contour...', silent=silent)
 
-        ubkp, vbkp, wbkp, phixbkp, phiybkp = (self.u, self.v, self.w,
-                                              self.phix, self.phiy)
-
         import matplotlib
         import matplotlib.pyplot as plt
 
@@ -1169,22 +1185,13 @@ class StiffPanelBay(object):
                         bbox_inches='tight', pad_inches=0.05, dpi=dpi)
             plt.close()
 
-        if ubkp is not None:
-            self.u = ubkp
-        if vbkp is not None:
-            self.v = vbkp
-        if wbkp is not None:
-            self.w = wbkp
-        if phixbkp is not None:
-            self.phix = phixbkp
-        if phiybkp is not None:
-            self.phiy = phiybkp
-
         msg('finished!', silent=silent)
 
         return ax
 
 
+    @closing_figures
+    @keeping_results
     def plot_stiffener(self, c, si, region='flange', invert_y=False,
             plot_type=1, vec='w', deform_u=False, deform_u_sf=100.,
             filename='', ax=None, figsize=(3.5, 2.), save=True, title='',
@@ -1289,9 +1296,6 @@ class StiffPanelBay(object):
         """
         msg('Plotting contour...', silent=silent)
 
-        ubkp, vbkp, wbkp, phixbkp, phiybkp = (self.u, self.v, self.w,
-                                              self.phix, self.phiy)
-
         import matplotlib.pyplot as plt
         import matplotlib
 
@@ -1393,17 +1397,6 @@ class StiffPanelBay(object):
                         bbox_inches='tight', pad_inches=0.05, dpi=dpi)
             plt.close()
 
-        if ubkp is not None:
-            self.u = ubkp
-        if vbkp is not None:
-            self.v = vbkp
-        if wbkp is not None:
-            self.w = wbkp
-        if phixbkp is not None:
-            self.phix = phixbkp
-        if phiybkp is not None:
-            self.phiy = phiybkp
-
         msg('finished!', silent=silent)
 
         return ax
-- 
2.43.0


From bb62fa1190eb9a08371a159be55cb298fb8c3b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 17/35] fix: linear stiffness of laminates forced to be
 orthotropic

---
 panels/models/cylshell_clpt_donnell_bardell.pyx | 2 +-
 panels/models/plate_clpt_donnell_bardell.pyx    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/models/cylshell_clpt_donnell_bardell.pyx b/panels/models/cylshell_clpt_donnell_bardell.pyx
index c800f12..56a0362 100644
--- a/panels/models/cylshell_clpt_donnell_bardell.pyx
+++ b/panels/models/cylshell_clpt_donnell_bardell.pyx
@@ -75,7 +75,7 @@ def fk0(object shell, int size, int row0, int col0):
     a = shell.a
     b = shell.b
     r = shell.r
-    F = shell.lam.ABD
+    F = shell.ABD
     m = shell.m
     n = shell.n
     x1u = shell.x1u; x1ur = shell.x1ur; x2u = shell.x2u; x2ur = shell.x2ur
diff --git a/panels/models/plate_clpt_donnell_bardell.pyx b/panels/models/plate_clpt_donnell_bardell.pyx
index 71b0f50..9f4dc0a 100644
--- a/panels/models/plate_clpt_donnell_bardell.pyx
+++ b/panels/models/plate_clpt_donnell_bardell.pyx
@@ -73,7 +73,7 @@ def fk0(object shell, int size, int row0, int col0):
         raise ValueError('a Shell object must be given as input')
     a = shell.a
     b = shell.b
-    F = shell.lam.ABD
+    F = shell.ABD
     m = shell.m
     n = shell.n
     x1u = shell.x1u; x1ur = shell.x1ur; x2u = shell.x2u; x2ur = shell.x2ur
-- 
2.43.0


From 38fa78bfe2af06015d283495c2f4a2f5f95f68d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 18/35] fix: internal forces are arrays, such that those of
 assemblies can be summed

---
 panels/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/shell.py b/panels/shell.py
index cecc033..bc01624 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -1268,7 +1268,7 @@ class Shell(object):
         ABDnxny = self.ABD if ABDnxny is None else ABDnxny
 
         c = np.ascontiguousarray(c, dtype=DOUBLE)
-        fint = calc_fint(c, ABDnxny, self, size, col0, nx, ny)
+        fint = np.asarray(calc_fint(c, ABDnxny, self, size, col0, nx, ny))
 
         gc.collect()
 
-- 
2.43.0


From b023b57fb5df4b124ec4f0b97267a844e05ef192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 19/35] fix: traction separation connection does not require a
 previous calculation

---
 panels/multidomain/multidomain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 0b0d8ba..fc61578 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -910,6 +910,8 @@ class MultiDomain(object):
             # Traction Seperation Law introduced at the interface
             elif connection_function == 'SB_TSL':
                 tsl_type = connecti['tsl_type']
+                pA._rebuild()
+                pB._rebuild()
                 kt = connections.calc_kw_tsl(pA, pB, tsl_type)
                 print(kt)
                 
-- 
2.43.0


From 63ae18aaed7276cf2682f703a158ce45f9e15517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 20/35] fix: bays: aerodynamic matrix and skin forces as first
 calculation

---
 panels/models/clpt_bardell_field.pyx  | 4 ++--
 panels/stiffpanelbay/stiffpanelbay.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/panels/models/clpt_bardell_field.pyx b/panels/models/clpt_bardell_field.pyx
index 07229f1..1b2dbb0 100644
--- a/panels/models/clpt_bardell_field.pyx
+++ b/panels/models/clpt_bardell_field.pyx
@@ -289,8 +289,8 @@ def fg(double[:, ::1] g, double x, double y, object s):
     # Accessing the contiguous memory layout for C 
     # ::1 at the 2nd position means that the elements in this 2nd dimension will be 1 element apart in memory.
     
-    if s.__class__.__name__ != 'Shell':
-        raise ValueError('A Shell object must be passed')
+    if s.__class__.__name__ not in ('Shell', 'StiffPanelBay'):
+        raise ValueError('A Shell or StiffPanelBay object must be passed')
     a = s.a
     b = s.b
     m = s.m
diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index f63fee8..ea360d9 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -753,7 +753,7 @@ class StiffPanelBay(object):
         p.Mach = self.Mach
         p.rho_air = self.rho_air
         p.speed_sound = self.speed_sound
-        p.size = self.size
+        p.size = self.get_size()
         p.V = self.V
         p.r = self.r
         beta_bkp, gamma_bkp = p.beta, p.gamma
-- 
2.43.0


From ca3e83945ae99779794eda8247b9d67fc92307de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:28 +0000
Subject: [PATCH 21/35] fix: bays: aerodynamic matrix does not undo the radius
 of the first panel

---
 panels/stiffpanelbay/stiffpanelbay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index ea360d9..4e4896a 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -755,7 +755,7 @@ class StiffPanelBay(object):
         p.speed_sound = self.speed_sound
         p.size = self.get_size()
         p.V = self.V
-        p.r = self.r
+        p.r = r
         beta_bkp, gamma_bkp = p.beta, p.gamma
         p.beta, p.gamma = beta, gamma
         try:
-- 
2.43.0


From 8833a2cd084e597de955b63557322abf4a0fddcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:16 +0000
Subject: [PATCH 22/35] fix: bays: stiffeners between panels of which only one
 was calculated

---
 panels/stiffener/bladestiff1d.py | 2 +-
 panels/stiffener/bladestiff2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/stiffener/bladestiff1d.py b/panels/stiffener/bladestiff1d.py
index 015c9ec..c04231b 100644
--- a/panels/stiffener/bladestiff1d.py
+++ b/panels/stiffener/bladestiff1d.py
@@ -63,7 +63,7 @@ class BladeStiff1D(object):
         assert self.panel1.model == self.panel2.model
         assert self.panel1.m == self.panel2.m
         assert self.panel1.n == self.panel2.n
-        assert self.panel1.r == self.panel2.r
+        assert (self.panel1.r or 0.) == (self.panel2.r or 0.) #NOTE None and 0. are both used for plates
 
         if self.fstack is not None:
             self.hf = sum(self.fplyts)
diff --git a/panels/stiffener/bladestiff2d.py b/panels/stiffener/bladestiff2d.py
index af094ed..c3aa1dd 100644
--- a/panels/stiffener/bladestiff2d.py
+++ b/panels/stiffener/bladestiff2d.py
@@ -82,7 +82,7 @@ class BladeStiff2D(object):
         assert self.panel1.model == self.panel2.model
         assert self.panel1.m == self.panel2.m
         assert self.panel1.n == self.panel2.n
-        assert self.panel1.r == self.panel2.r
+        assert (self.panel1.r or 0.) == (self.panel2.r or 0.) #NOTE None and 0. are both used for plates
         if self.flange is not None:
             self.flange.lam = laminated_plate(self.flange.stack, plyts=self.flange.plyts,
                                             laminaprops=self.flange.laminaprops)
-- 
2.43.0


From c96d986e785f8b3a96fb9a919f33ae289777e4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:23 +0000
Subject: [PATCH 23/35] fix: bays and shells with distributed prescribed
 displacements can be saved

---
 panels/shell.py                       | 18 ++++++++++++------
 panels/stiffpanelbay/stiffpanelbay.py |  4 +---
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index bc01624..628bc58 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -4,6 +4,7 @@ import pickle
 import shutil
 import threading
 from contextlib import contextmanager
+from functools import partial
 from multiprocessing import cpu_count
 
 import numpy as np
@@ -50,6 +51,11 @@ def open_replacing(name):
         raise
 
 
+def _scaled(k, func, t):
+    # At module level such that shells that use it can be saved
+    return k*func(t)
+
+
 def check_c(c, size):
     # Conducts a check on c
     if not isinstance(c, np.ndarray):
@@ -1059,15 +1065,15 @@ class Shell(object):
         if (ku is not None) or (funcu is not None): # ku or funcu is specified
             if ku is None or funcu is None: # if atmost 1 is specified for u means u is to be specified, but is currently incomplete
                 raise ValueError('Both ku and funcu must be specified')
-            new_funcu = lambda y: ku*funcu(y) # y is param in ftn 
+            new_funcu = partial(_scaled, ku, funcu) # y is param in ftn 
         if (kv is not None) or (funcv is not None):
             if kv is None or funcv is None:
                 raise ValueError('Both kv and funcv must be specified')
-            new_funcv = lambda y: kv*funcv(y)
+            new_funcv = partial(_scaled, kv, funcv)
         if (kw is not None) or (funcw is not None):
             if kw is None or funcw is None:
                 raise ValueError('Both kw and funcw must be specified')
-            new_funcw = lambda y: kw*funcw(y)
+            new_funcw = partial(_scaled, kw, funcw)
         if cte:
             self.distr_pds.append([x, None, new_funcu, new_funcv, new_funcw])
         else:
@@ -1105,15 +1111,15 @@ class Shell(object):
         if (ku is not None) or (funcu is not None):
             if ku is None or funcu is None:
                 raise ValueError('Both ku and funcu must be specified')
-            new_funcu = lambda x: ku*funcu(x)
+            new_funcu = partial(_scaled, ku, funcu)
         if (kv is not None) or (funcv is not None):
             if kv is None or funcv is None:
                 raise ValueError('Both kv and funcv must be specified')
-            new_funcv = lambda x: kv*funcv(x)
+            new_funcv = partial(_scaled, kv, funcv)
         if (kw is not None) or (funcw is not None):
             if kw is None or funcw is None:
                 raise ValueError('Both kw and funcw must be specified')
-            new_funcw = lambda x: kw*funcw(x)
+            new_funcw = partial(_scaled, kw, funcw)
         if cte:
             self.distr_pds.append([None, y, new_funcu, new_funcv, new_funcw])
         else:
diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 4e4896a..cd75e2d 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -150,9 +150,7 @@ class StiffPanelBay(object):
         self.Ys = None
 
         for panel in self.panels:
-            panel.kC = None
-            panel.kM = None
-            panel.kG = None
+            panel._clear_matrices()
 
         for s in self.bladestiff1ds:
             s.kC = None
-- 
2.43.0


From 8df65ac783f76e9220e2ed565ba8ddca59897945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:35 +0000
Subject: [PATCH 24/35] fix: aerodynamic matrix does not touch the flow
 conditions, also when interrupted

---
 panels/shell.py                       | 26 ++++++++++++--------------
 panels/stiffpanelbay/stiffpanelbay.py | 10 +++-------
 2 files changed, 15 insertions(+), 21 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 628bc58..6dfddfc 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -4,6 +4,7 @@ import pickle
 import shutil
 import threading
 from contextlib import contextmanager
+from copy import copy
 from functools import partial
 from multiprocessing import cpu_count
 
@@ -729,20 +730,17 @@ class Shell(object):
             beta = self.beta
             gamma = self.gamma if self.gamma is not None else 0.
 
-        beta_bkp, gamma_bkp = self.beta, self.gamma
-        self.beta = beta
-        self.gamma = gamma
-        try:
-            if self.flow.lower() == 'x':
-                kA = matrices_num.fkAx_num(self, size, row0, col0, self.nx, self.ny)
-            elif self.flow.lower() == 'y':
-                kA = matrices_num.fkAy_num(self, size, row0, col0, self.nx, self.ny)
-            else:
-                raise ValueError('Invalid flow value, must be x or y')
-        finally:
-            #NOTE otherwise the next calculation would ignore changes in the
-            #     flow conditions
-            self.beta, self.gamma = beta_bkp, gamma_bkp
+        #NOTE the flow conditions of the shell are not touched, otherwise the
+        #     next calculation would ignore changes in them
+        shell = copy(self)
+        shell.beta = beta
+        shell.gamma = gamma
+        if self.flow.lower() == 'x':
+            kA = matrices_num.fkAx_num(shell, size, row0, col0, self.nx, self.ny)
+        elif self.flow.lower() == 'y':
+            kA = matrices_num.fkAy_num(shell, size, row0, col0, self.nx, self.ny)
+        else:
+            raise ValueError('Invalid flow value, must be x or y')
 
         if finalize:
             assert np.any(np.isnan(kA.data)) == False
diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index cd75e2d..c05f907 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -1,5 +1,6 @@
 import gc
 import pickle
+from copy import copy
 from functools import wraps
 from multiprocessing import cpu_count
 
@@ -742,7 +743,7 @@ class StiffPanelBay(object):
         #FIXME this only works if the first panel represent the full
         #      stiffpanelbay domain (mainly integration interval, boundary
         #      conditions)
-        p = self.panels[0]
+        p = copy(self.panels[0])
         #FIXME the initialization below looks terrible
         #      we should move as quick as possible to the strategy of using
         #      classes more to carry data, avoiding these intrincated methods
@@ -754,13 +755,8 @@ class StiffPanelBay(object):
         p.size = self.get_size()
         p.V = self.V
         p.r = r
-        beta_bkp, gamma_bkp = p.beta, p.gamma
         p.beta, p.gamma = beta, gamma
-        try:
-            p.calc_kA(size=self.get_size(), silent=True, finalize=False)
-        finally:
-            p.beta, p.gamma = beta_bkp, gamma_bkp
-        kA = p.matrices['kA']
+        kA = p.calc_kA(size=self.get_size(), silent=True, finalize=False)
 
         assert np.any(np.isnan(kA.data)) == False
         assert np.any(np.isinf(kA.data)) == False
-- 
2.43.0


From e5613c7cac1f247c659a2ccf3f006312f5be4789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:04 +0000
Subject: [PATCH 25/35] fix: bays: deformed plots do not deform the points
 where displacements were calculated

---
 panels/stiffpanelbay/stiffpanelbay.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index c05f907..0ebbab2 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -1126,8 +1126,8 @@ class StiffPanelBay(object):
                 self.uvw_skin(c, xs=xs, ys=ys, gridx=gridx, gridy=gridy)
             field_u = self.u
             field_v = self.v
-            y -= deform_u_sf*field_u
-            x += deform_u_sf*field_v
+            y = y - deform_u_sf*field_u
+            x = x + deform_u_sf*field_v
         contour = ax.contourf(x, y, field, levels=levels)
 
         if colorbar:
@@ -1338,8 +1338,8 @@ class StiffPanelBay(object):
                                    gridx=gridx, gridy=gridy)
             field_u = self.u
             field_v = self.v
-            y -= deform_u_sf*field_u
-            x += deform_u_sf*field_v
+            y = y - deform_u_sf*field_u
+            x = x + deform_u_sf*field_v
         contour = ax.contourf(x, y, field, levels=levels)
 
         if colorbar:
-- 
2.43.0


From 1e0f4db9b520edb4164445e694e86dc2239870f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 26/35] fix: cylinders: each panel is loaded with its own Nxx

---
 panels/multidomain/cylinder.py                 | 2 +-
 panels/multidomain/cylinder_blade_stiffened.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/multidomain/cylinder.py b/panels/multidomain/cylinder.py
index 816182d..0d74630 100644
--- a/panels/multidomain/cylinder.py
+++ b/panels/multidomain/cylinder.py
@@ -168,7 +168,7 @@ def cylinder_compression_lb_Nxx_from_static(height, r, stack, plyt, laminaprop,
         raise ValueError('The length of "Nxxs" must be the same as "npanels"')
 
     for i, p in enumerate(assy.panels):
-        p.add_distr_load_fixed_x(p.a, lambda y: Nxxs[i], None, None)
+        p.add_distr_load_fixed_x(p.a, lambda y, Nxx=Nxxs[i]: Nxx, None, None)
         p.x2u = 1
 
     fext = assy.calc_fext(silent=True)
diff --git a/panels/multidomain/cylinder_blade_stiffened.py b/panels/multidomain/cylinder_blade_stiffened.py
index b8e25fe..4a098a8 100644
--- a/panels/multidomain/cylinder_blade_stiffened.py
+++ b/panels/multidomain/cylinder_blade_stiffened.py
@@ -229,7 +229,7 @@ def cylinder_blade_stiffened_compression_lb_Nxx_from_static(height, r, stack,
         elif 'blade' in p.group:
             i_blade += 1
             Nxx = Nxxs_blade[i_blade]
-        p.add_distr_load_fixed_x(p.a, lambda y: Nxx, None, None)
+        p.add_distr_load_fixed_x(p.a, lambda y, Nxx=Nxx: Nxx, None, None)
 
     fext = assy.calc_fext(silent=True)
 
-- 
2.43.0


From 8a7b7158219c14d4aa758b2bb11c1d1e7f3ad37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 27/35] fix: cylinder_spla applies its axial load and uses the
 installed structsolve

---
 panels/multidomain/cylinder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/panels/multidomain/cylinder.py b/panels/multidomain/cylinder.py
index 0d74630..5693a60 100644
--- a/panels/multidomain/cylinder.py
+++ b/panels/multidomain/cylinder.py
@@ -220,14 +220,14 @@ def cylinder_spla(height, r, stack, plyt, laminaprop,
         p.x2u = 1
 
     for p in assy.panels:
-        p.add_distr_load_fixed_x(p.a, lambda y: p.Nxx, None, None)
+        p.add_distr_load_fixed_x(p.a, lambda y: Nxx, None, None)
 
     p_spla = assy.panels[0]
     p_spla.add_point_load(p_spla.a/2, p_spla.b/2, 0, 0, -SPLA, cte=True)
 
     assy.conn = conns
-    analysis = Analysis(assy.calc_fext, assy.calc_kC, assy.calc_fint,
-            assy.calc_kT)
+    analysis = Analysis(assy.calc_fext, assy.calc_fint, assy.calc_kC,
+            assy.calc_kG)
     analysis.NL_method = 'NR'
     analysis.modified_NR = False
     analysis.line_search = False
-- 
2.43.0


From 5ac414bb8e31bffa3a5210821e18950a2e4c95ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 28/35] fix: assemblies accept NLgeom as shells do, nonlinear
 analyses of assemblies run

---
 panels/multidomain/multidomain.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index fc61578..148e743 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -935,7 +935,8 @@ class MultiDomain(object):
         return kC_conn
 
 
-    def calc_kC(self, conn=None, c=None, silent=False, finalize=True, inc=1.):
+    def calc_kC(self, conn=None, c=None, silent=False, finalize=True, inc=1.,
+            NLgeom=False):
         """Calculate the constitutive stiffness matrix of the assembly
         --- this is kP (made by diagonally assemblying kP_i from the MD paper)
 
@@ -955,6 +956,9 @@ class MultiDomain(object):
             symmetric, should be ``False`` when assemblying.
         inc : float, optional
             Dummy argument needed for non-linear analyses.
+        NLgeom : bool, optional
+            Flag to indicate whether geometrically non-linearities should be
+            considered.
 
         """
         size = self.get_size()
@@ -968,7 +972,7 @@ class MultiDomain(object):
                 raise ValueError('Shell attributes "row_start" and "col_start" must be defined!')
             # Calc Kc per panel (from the Shell class)
             kC += p.calc_kC(c=c, row0=p.row_start, col0=p.col_start, size=size,
-                    silent=silent, finalize=False) 
+                    silent=silent, finalize=False, NLgeom=NLgeom)
 
         # Make the matrix symm at the end
         if finalize:
@@ -984,7 +988,7 @@ class MultiDomain(object):
         return kC
 
 
-    def calc_kG(self, c=None, silent=False, finalize=True):
+    def calc_kG(self, c=None, silent=False, finalize=True, NLgeom=False):
         """Calculate the geometric stiffness matrix of the assembly
 
         Parameters
@@ -998,6 +1002,9 @@ class MultiDomain(object):
         finalize : bool, optional
             Asserts validity of output data and makes the output matrix
             symmetric, should be ``False`` when assemblying.
+        NLgeom : bool, optional
+            Flag to indicate whether geometrically non-linearities should be
+            considered.
 
         """
         size = self.get_size()
@@ -1010,7 +1017,7 @@ class MultiDomain(object):
             if p.row_start is None or p.col_start is None:
                 raise ValueError('Shell attributes "row_start" and "col_start" must be defined!')
             kG += p.calc_kG(c=c, row0=p.row_start, col0=p.col_start, size=size,
-                            silent=silent, finalize=False)
+                            silent=silent, finalize=False, NLgeom=NLgeom)
         if finalize:
             kG = finalize_symmetric_matrix(kG)
         self.kG = kG
-- 
2.43.0


From 15a14dfe38310699c0a149da013504acd26aae44 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 29/35] fix: amplitudes that do not fit the model are refused

---
 panels/multidomain/multidomain.py | 18 ++++++++++++------
 panels/shell.py                   |  5 +++++
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 148e743..1c1e5f9 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -391,7 +391,8 @@ class MultiDomain(object):
         stored as parameters with the same name in the ``Shell`` object.
 
         """
-        self._set_positions()
+        c = np.ascontiguousarray(c, dtype=DOUBLE)
+        check_c(c, self.get_size())
         res = dict(x=[], y=[], u=[], v=[], w=[], phix=[], phiy=[])
         for panel in self.panels:
             if panel.group != group:
@@ -446,7 +447,8 @@ class MultiDomain(object):
         """
         
         # res = results
-        self._set_positions()
+        c = np.ascontiguousarray(c, dtype=DOUBLE)
+        check_c(c, self.get_size())
         res = dict(x=[], y=[], exx=[], eyy=[], gxy=[], kxx=[], kyy=[], kxy=[])
         for panel in self.panels:
             # If that panel's (in the MD assembly) group is not whose strain u want, skip it
@@ -507,7 +509,8 @@ class MultiDomain(object):
             ``(x, y, Nxx, Nyy, Nxy, Mxx, Myy, Mxy)``.
 
         """
-        self._set_positions()
+        c = np.ascontiguousarray(c, dtype=DOUBLE)
+        check_c(c, self.get_size())
         res = dict(x=[], y=[], Nxx=[], Nyy=[], Nxy=[], Mxx=[], Myy=[], Mxy=[])
         for panel in self.panels:
             if panel.group != group:
@@ -578,7 +581,8 @@ class MultiDomain(object):
         stored as parameters with the same name in the ``Shell`` object.
 
         """
-        self._set_positions()
+        c = np.ascontiguousarray(c, dtype=DOUBLE)
+        check_c(c, self.get_size())
         res = dict(x=[], y=[], u=[], v=[], w=[], phix=[], phiy=[])
         for panel in self.panels:
             if panel.group != group:
@@ -651,7 +655,8 @@ class MultiDomain(object):
         
         
         # res = results
-        self._set_positions()
+        c = np.ascontiguousarray(c, dtype=DOUBLE)
+        check_c(c, self.get_size())
         res = dict(x=[], y=[], exx=[], eyy=[], gxy=[], kxx=[], kyy=[], kxy=[])
         for panel in self.panels:
             # If that panel's (in the MD assembly) group is not whose strain u want, skip it
@@ -725,7 +730,8 @@ class MultiDomain(object):
             ``(x, y, Nxx, Nyy, Nxy, Mxx, Myy, Mxy)``.
 
         """
-        self._set_positions()
+        c = np.ascontiguousarray(c, dtype=DOUBLE)
+        check_c(c, self.get_size())
         res = dict(x=[], y=[], Nxx=[], Nyy=[], Nxy=[], Mxx=[], Myy=[], Mxy=[])
         for panel in self.panels:
             if panel.group != group:
diff --git a/panels/shell.py b/panels/shell.py
index 6dfddfc..054a676 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -809,6 +809,7 @@ class Shell(object):
 
         """
         c = np.ascontiguousarray(c, dtype=DOUBLE)
+        check_c(c, self.get_size())
 
         xs, ys, xshape, yshape = self._default_field(xs, ys, gridx, gridy)
         self._rebuild_model()
@@ -856,6 +857,7 @@ class Shell(object):
 
         """
         c = np.ascontiguousarray(c, dtype=DOUBLE)
+        check_c(c, self.get_size())
         xs, ys, xshape, yshape = self._default_field(xs, ys, gridx, gridy)
         self._rebuild_model()
         fstrain = modelDB.db[self.model]['field'].fstrain
@@ -1272,6 +1274,9 @@ class Shell(object):
         ABDnxny = self.ABD if ABDnxny is None else ABDnxny
 
         c = np.ascontiguousarray(c, dtype=DOUBLE)
+        check_c(c, size)
+        if col0 < 0 or col0 + self.get_size() > size:
+            raise ValueError('The terms of the shell, starting at col0, must fit in "size"')
         fint = np.asarray(calc_fint(c, ABDnxny, self, size, col0, nx, ny))
 
         gc.collect()
-- 
2.43.0


From 6c1ce0368880e81764e0f12ae4012a189d871bc4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 30/35] fix: laminates whose plies are not all defined are
 refused

---
 panels/shell.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/panels/shell.py b/panels/shell.py
index 054a676..260fd43 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -332,6 +332,10 @@ class Shell(object):
                 raise ValueError('plyt must be defined')
             self._set_derived('plyts', [self.plyt for i in self.stack], num, self.plyt)
 
+        for name in ('plyts', 'laminaprops', 'rhos'):
+            if len(getattr(self, name)) != num:
+                raise ValueError('%s must have one value for each ply in stack' % name)
+
         if self.stack is not None:
             lam = laminated_plate(stack=self.stack, plyts=self.plyts,
                                       laminaprops=self.laminaprops,
-- 
2.43.0


From 1623955bfc4dec748af786432228dc588573c0eb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 31/35] fix: connections with panels that are not in the
 assembly are refused

---
 panels/multidomain/multidomain.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 1c1e5f9..a45abc4 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -812,6 +812,11 @@ class MultiDomain(object):
             connecti = dict(connecti) #NOTE the definition given by the user must not change
             p1_temp = connecti['p1']
             p2_temp = connecti['p2']
+            if p1_temp is p2_temp:
+                raise ValueError('A panel cannot be connected with itself')
+            for p in (p1_temp, p2_temp):
+                if not any(p is panel for panel in self.panels):
+                    raise ValueError('Connection with a panel that is not in the assembly')
             if p1_temp.col_start < p2_temp.col_start:
                 pA = p1_temp
                 pB = p2_temp
-- 
2.43.0


From 5341bd007e3209b9fb42adf62dcb4c5fcaaddce4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:20:29 +0000
Subject: [PATCH 32/35] fix: more terms or integration points than available
 are refused

---
 panels/shell.py                       | 20 ++++++++++++++++++++
 panels/stiffpanelbay/stiffpanelbay.py |  5 ++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/panels/shell.py b/panels/shell.py
index 260fd43..993dbcc 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -57,6 +57,18 @@ def _scaled(k, func, t):
     return k*func(t)
 
 
+def check_terms(m, n):
+    # The models hold the first 30 of Bardell's functions
+    if not (1 <= m <= 30 and 1 <= n <= 30):
+        raise ValueError('The number of terms "m" and "n" must be between 1 and 30')
+
+
+def check_points(nx, ny):
+    # The points and weights available in legendre_gauss_quadrature
+    if not (2 <= nx <= 64 and 2 <= ny <= 64):
+        raise ValueError('The number of integration points must be between 2 and 64')
+
+
 def check_c(c, size):
     # Conducts a check on c
     if not isinstance(c, np.ndarray):
@@ -289,6 +301,7 @@ class Shell(object):
 
 
     def _rebuild_model(self):
+        check_terms(self.m, self.n)
         self.nx = max(self.nx, self.m)
         self.ny = max(self.ny, self.n)
         self._reset_derived('model', self.r or None)
@@ -367,6 +380,7 @@ class Shell(object):
         """
         if self.model is None:
             self._rebuild_model()
+        check_terms(self.m, self.n)
         dofs = modelDB.db[self.model]['dofs']
         self.size = dofs*self.m*self.n
         return self.size
@@ -533,6 +547,7 @@ class Shell(object):
             kC = matrices.fk0(self, size, row0, col0)
         # This is what happens for NL Geo
         else:
+            check_points(nx, ny)
             kC = matrices_num.fkC_num(c, ABDnxny, self,
                      size, row0, col0, nx, ny, NLgeom=int(NLgeom))
 
@@ -552,6 +567,7 @@ class Shell(object):
             if analytical_kG:
                 kC += matrices.fkG0(self.Nxx_cte, self.Nyy_cte, self.Nxy_cte, self, size, row0, col0)
             else:
+                check_points(nx, ny)
                 kC += matrices_num.fkG_num(c_cte, ABDnxny, self,
                         size, row0, col0, nx, ny, NLgeom,
                         self.Nxx_cte, self.Nyy_cte, self.Nxy_cte)
@@ -611,6 +627,7 @@ class Shell(object):
         else:
             if ABDnxny is None:
                 ABDnxny = self._get_lam_ABD()
+            check_points(nx, ny)
             kG = matrices_num.fkG_num(c, ABDnxny, self, size, row0, col0,
                                       nx, ny, int(NLgeom), self.Nxx, self.Nyy, self.Nxy)
 
@@ -690,6 +707,7 @@ class Shell(object):
             kM = matrices.fkM(self, self.offset, size, row0, col0)
         else:
             hrho_input = np.concatenate((h_nxny[..., None], rho_nxny[..., None]), axis=2)
+            check_points(nx, ny)
             kM = matrices_num.fkM_num(self, self.offset, hrho_input, size, row0, col0, nx, ny)
 
         if finalize:
@@ -739,6 +757,7 @@ class Shell(object):
         shell = copy(self)
         shell.beta = beta
         shell.gamma = gamma
+        check_points(self.nx, self.ny)
         if self.flow.lower() == 'x':
             kA = matrices_num.fkAx_num(shell, size, row0, col0, self.nx, self.ny)
         elif self.flow.lower() == 'y':
@@ -1277,6 +1296,7 @@ class Shell(object):
         ny = self.ny if ny is None else ny
         ABDnxny = self.ABD if ABDnxny is None else ABDnxny
 
+        check_points(nx, ny)
         c = np.ascontiguousarray(c, dtype=DOUBLE)
         check_c(c, size)
         if col0 < 0 or col0 + self.get_size() > size:
diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 0ebbab2..e105778 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -11,7 +11,7 @@ from structsolve.sparseutils import finalize_symmetric_matrix, make_skew_symmetr
 
 from panels.logger import msg
 from panels import Shell, modelDB as panelmDB
-from panels.shell import open_replacing
+from panels.shell import open_replacing, check_terms
 from panels.plot_shell import closing_figures
 from panels.stiffener import BladeStiff1D, BladeStiff2D
 
@@ -180,6 +180,8 @@ class StiffPanelBay(object):
 
         for p in self.panels:
             p._rebuild()
+            if p.m != self.m or p.n != self.n:
+                raise ValueError('The panels and the bay must have the same "m" and "n"')
             if self.model is not None:
                 assert self.model == p.model
             else:
@@ -233,6 +235,7 @@ class StiffPanelBay(object):
         """
         if self.model is None:
             self._rebuild()
+        check_terms(self.m, self.n)
         dofs = panelmDB.db[self.model]['dofs']
         self.size = dofs*self.m*self.n
 
-- 
2.43.0


From 7eefc777150e17088d99d533009a52a372ace8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:31 +0000
Subject: [PATCH 33/35] fix: panels of an assembly without terms are refused

---
 panels/multidomain/multidomain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index a45abc4..82970d9 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -9,7 +9,7 @@ from structsolve.sparseutils import finalize_symmetric_matrix
 
 from panels import Shell
 from panels.logger import msg, warn
-from panels.shell import DOUBLE, check_c
+from panels.shell import DOUBLE, check_c, check_terms
 import panels.modelDB as modelDB
 from panels.plot_shell import closing_figures
 
@@ -106,6 +106,8 @@ class MultiDomain(object):
         '''
         Size of K of a single panel
         '''
+        for p in self.panels:
+            check_terms(p.m, p.n)
         self._set_positions()
         self.size = sum([3*p.m*p.n for p in self.panels])
         return self.size
-- 
2.43.0


From 2eead0d9c51f3ceab996414696798e66a3109e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:24 +0000
Subject: [PATCH 34/35] fix: line penalties act on the displacement they are
 given for

fkCld_xcte and fkCld_ycte placed the stiffnesses of u and v at the
positions of w, so that prescribing u or v along a line constrained w.
---
 panels/multidomain/connections/kCpd.pyx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/panels/multidomain/connections/kCpd.pyx b/panels/multidomain/connections/kCpd.pyx
index c4563fa..ee1d323 100644
--- a/panels/multidomain/connections/kCpd.pyx
+++ b/panels/multidomain/connections/kCpd.pyx
@@ -256,12 +256,12 @@ def fkCld_xcte(double ku, double kv, double kw, object p, double xp,
                         fBw = f(k, xip, x1w, x1wr, x2w, x2wr)
             
                         c += 1
-                        kCld_xcter[c] = row+2
-                        kCld_xctec[c] = col+2
+                        kCld_xcter[c] = row+0
+                        kCld_xctec[c] = col+0
                         kCld_xctev[c] += ku*b*fAu*fBu*gAugBu/2.
                         c += 1
-                        kCld_xcter[c] = row+2
-                        kCld_xctec[c] = col+2
+                        kCld_xcter[c] = row+1
+                        kCld_xctec[c] = col+1
                         kCld_xctev[c] += kv*b*fAv*fBv*gAvgBv/2.
                         c += 1
                         kCld_xcter[c] = row+2
@@ -380,12 +380,12 @@ def fkCld_ycte(double ku, double kv, double kw, object p, double yp,
                         gBw = f(l, etap, y1w, y1wr, y2w, y2wr)
             
                         c += 1
-                        kCld_ycter[c] = row+2
-                        kCld_yctec[c] = col+2
+                        kCld_ycter[c] = row+0
+                        kCld_yctec[c] = col+0
                         kCld_yctev[c] += ku*a*fAufBu*gAu*gBu/2.
                         c += 1
-                        kCld_ycter[c] = row+2
-                        kCld_yctec[c] = col+2
+                        kCld_ycter[c] = row+1
+                        kCld_yctec[c] = col+1
                         kCld_yctev[c] += kv*a*fAvfBv*gAv*gBv/2.
                         c += 1
                         kCld_ycter[c] = row+2
-- 
2.43.0


From 54ed37513e319a69375d8edd6a28b0d37ac6f1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:33 +0000
Subject: [PATCH 35/35] fix: stiffeners counted from the end are found

uvw_stiffener with a negative index used the Ritz constants of another
flange.
---
 panels/stiffpanelbay/stiffpanelbay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index e105778..8f090d6 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -945,7 +945,7 @@ class StiffPanelBay(object):
                 s_1 = self.stiffeners[i-1]
                 if isinstance(s_1, BladeStiff2D) and s_1.flange is not None:
                     row_init += s_1.flange.get_size()
-            if i == si:
+            if s is stiff: #NOTE si may be negative
                 break
 
         if region.lower() == 'flange':
-- 
2.43.0

