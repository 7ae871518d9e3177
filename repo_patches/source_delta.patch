From ebf353a2a6bb4c4e3d06bdb97fc082cf76382715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 01/44] fix: mjd2000 for dates outside the range of nanosecond
 precision

---
 chaosmagpy/data_utils.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index cb076d9..66b3d74 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -438,29 +438,35 @@ datetime.datetime(2002, 3, 4)])
 
     if (np.issubdtype(year.dtype, np.dtype(dt.datetime).type) or
             np.issubdtype(year.dtype, np.datetime64)):
-        datetime = year.astype('datetime64[ns]')
+        if year.dtype == object:  # datetime objects resolve microseconds
+            year = year.astype('datetime64[us]')
+
+        date = year.astype('datetime64[D]')
+        time = year - date  # time of day
 
     else:
         # build iso datetime string with str_ (supported in NumPy >= 2.0)
-        year = np.asarray(year, dtype=np.str_)
+        year = np.char.zfill(np.asarray(year, dtype=np.str_), 4)
         month = np.char.zfill(np.asarray(month, dtype=np.str_), 2)
         day = np.char.zfill(np.asarray(day, dtype=np.str_), 2)
 
         year_month = np.char.add(np.char.add(year, '-'), month)
-        datetime = np.char.add(np.char.add(year_month, '-'), day)
+        date = np.char.add(np.char.add(year_month, '-'), day)
 
-        datetime = datetime.astype('datetime64[ns]')
+        date = date.astype('datetime64[D]')
 
         # not use iadd here because it doesn't broadcast arrays
-        datetime = (datetime + np.asarray(hour, dtype='timedelta64[h]')
-                    + np.asarray(minute, dtype='timedelta64[m]')
-                    + np.asarray(second, dtype='timedelta64[s]')
-                    + np.asarray(microsecond, dtype='timedelta64[us]')
-                    + np.asarray(nanosecond, dtype='timedelta64[ns]'))
+        time = (np.asarray(hour, dtype='timedelta64[h]')
+                + np.asarray(minute, dtype='timedelta64[m]')
+                + np.asarray(second, dtype='timedelta64[s]')
+                + np.asarray(microsecond, dtype='timedelta64[us]')
+                + np.asarray(nanosecond, dtype='timedelta64[ns]'))
 
-    nanoseconds = datetime - np.datetime64('2000-01-01', 'ns')
+    # treat days separately, they can exceed the range of nanosecond precision
+    days = date - np.datetime64('2000-01-01', 'D')
 
-    return nanoseconds / np.timedelta64(1, 'D')  # fraction of days
+    # fraction of days
+    return days / np.timedelta64(1, 'D') + time / np.timedelta64(1, 'D')
 
 
 def timestamp(time):
-- 
2.43.0


From 52ea0d9a37898513af9f21da2cf19224fddddb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 02/44] fix: accept all integer types in is_leap_year

---
 chaosmagpy/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index 66b3d74..502d48b 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -528,7 +528,7 @@ def is_leap_year(year):
 
     year = np.asarray(year)
 
-    if not np.issubdtype(year.dtype, int):
+    if not np.issubdtype(year.dtype, np.integer):
         raise TypeError('Expected integer values as the input year. Use '
                         'numpy.floor to extract the integer year '
                         'from decimal years.')
-- 
2.43.0


From 021bb0982d204482ac5f8768d48867a0d8d4fc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 03/44] fix: restore configuration when an exception leaves the
 context

---
 chaosmagpy/config_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index 50b3525..701953e 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -291,8 +291,10 @@ class BasicConfig(dict):
         """
         old_value = self.__getitem__(key)
         self.__setitem__(key, value)
-        yield
-        self.__setitem__(key, old_value)
+        try:
+            yield
+        finally:
+            self.__setitem__(key, old_value)
 
 
 # load defaults
-- 
2.43.0


From 36714b29f967719de8d9138a384c1cb97898ca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 04/44] fix: keep configuration defaults separate from current
 values

---
 chaosmagpy/config_utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index 701953e..5786cc5 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -76,6 +76,7 @@ be accessed after importing chaosmagpy through:
 
 import os
 import re
+import copy
 import json
 import numpy as np
 import warnings
@@ -206,14 +207,15 @@ class BasicConfig(dict):
             Single keyword that is reset to the default.
 
         """
-        self.__setitem__(key, self.defaults[key][0])
+        self.__setitem__(key, copy.deepcopy(self.defaults[key][0]))
 
     def fullreset(self):
         """
         Load all default values.
 
         """
-        super().update({key: val for key, (val, _) in self.defaults.items()})
+        super().update({key: copy.deepcopy(val) for key, (val, _)
+                        in self.defaults.items()})
 
     def load(self, filepath):
         """
@@ -298,7 +300,8 @@ class BasicConfig(dict):
 
 
 # load defaults
-basicConfig = BasicConfig({key: val for key, (val, _) in DEFAULTS.items()})
+basicConfig = BasicConfig({key: copy.deepcopy(val) for key, (val, _)
+                           in DEFAULTS.items()})
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 1aba31965568ed2501652d5e80a63fca7b59f7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 05/44] fix: restore configuration context without checking the
 old value again

---
 chaosmagpy/config_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index 5786cc5..e495216 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -296,7 +296,8 @@ class BasicConfig(dict):
         try:
             yield
         finally:
-            self.__setitem__(key, old_value)
+            # put back as is, the value may not be valid anymore (e.g. path)
+            super().__setitem__(key, old_value)
 
 
 # load defaults
-- 
2.43.0


From 99671a28f6c6a5054ae9352098fd31123e1f50f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 06/44] fix: reject colatitudes outside of the bounds if poles
 are included

---
 chaosmagpy/model_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index 02c8b78..d7dc09d 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -501,7 +501,7 @@ def synth_values(coeffs, radius, theta, phi, *, nmax=None, nmin=None,
     theta_max = np.amax(theta)
 
     if (theta_min <= 0.0) or (theta_max >= 180.0):
-        if (theta_min == 0.0) or (theta_max == 180.0):
+        if (theta_min >= 0.0) and (theta_max <= 180.0):
             warnings.warn('Input coordinates include the poles.')
             poles = True
         else:
@@ -790,7 +790,7 @@ def design_gauss(radius, theta, phi, nmax, *, nmin=None, mmax=None,
 
     # check if poles are included
     if (theta_min <= 0.0) or (theta_max >= 180.0):
-        if (theta_min == 0.0) or (theta_max == 180.0):
+        if (theta_min >= 0.0) and (theta_max <= 180.0):
             warnings.warn('Input coordinates include the poles.')
             poles = True
         else:
-- 
2.43.0


From 53e53c52ec116374066cda571280efcaf0ac7352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 07/44] fix: NaN in azimuthal component very close to the poles

---
 chaosmagpy/model_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index d7dc09d..03eba6a 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -925,7 +925,7 @@ def legendre_poly(nmax, theta):
     """
 
     costh = np.cos(np.radians(theta))
-    sinth = np.sqrt(1-costh**2)
+    sinth = np.sin(np.radians(theta))  # accurate also close to the poles
 
     Pnm = np.zeros((nmax+1, nmax+2) + costh.shape)
     Pnm[0, 0] = 1.  # is copied into trailing dimensions
-- 
2.43.0


From 414b5bd08c2858cd052ad8052f61b4ca148ad4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 08/44] fix: missing factorials in extrapolation beyond degree
 one

---
 chaosmagpy/chaos.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index a602014..216d00f 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -37,6 +37,7 @@ import hdf5storage as hdf
 import h5py
 import textwrap
 import datetime
+from math import factorial
 from timeit import default_timer as timer
 from . import coordinate_utils as cu
 from . import model_utils as mu
@@ -200,8 +201,8 @@ class Base(object):
             if key > 0:
                 for x in [start, end]:  # left and right
                     bin = np.zeros((self.order, 1, dim))
-                    for k in range(key):
-                        bin[-1-k] = PP(x, nu=k)
+                    for k in range(key):  # Taylor coefficients
+                        bin[-1-k] = PP(x, nu=k) / factorial(k)
                     PP.extend(bin, np.array([x]))
 
             else:  # no extrapolation
-- 
2.43.0


From 8bc8c0998fd02ee775a94b539c96169aa616b44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 09/44] fix: order of the spline in extrapolation warning

---
 chaosmagpy/chaos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 216d00f..b0a24e6 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -190,7 +190,7 @@ class Base(object):
                 try:
                     message = rev_dkey[key]
                 except KeyError:
-                    message = 'order-{key} spline'
+                    message = f'order-{key} spline'
 
             warnings.warn("Requested coefficients are "
                           "outside of the model time period from "
-- 
2.43.0


From 06b8df70604bea50021598c5be2c508bac16c41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 10/44] fix: derivatives at the end of the model if other times
 are outside

---
 chaosmagpy/chaos.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index b0a24e6..cafbdd4 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -150,6 +150,8 @@ class Base(object):
             self.coeffs[..., :dim].astype(float),
             self.breaks.astype(float), extrapolate=True)
 
+        spline = PP.derivative(nu=deriv)  # valid on the closed model interval
+
         start = self.breaks[0]
         end = self.breaks[-1]
 
@@ -209,7 +211,12 @@ class Base(object):
                 PP.extrapolate = False
 
         PP = PP.derivative(nu=deriv)
-        coeffs = PP(time) * 365.25**deriv
+        coeffs = PP(time)
+
+        # end point is inside the model interval and not extrapolated
+        coeffs[np.asarray(time) == end] = spline(end)
+
+        coeffs *= 365.25**deriv
 
         return coeffs
 
-- 
2.43.0


From c5032274f855865c70280fac9cfa6fc46a08e07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 11/44] fix: frequency vectors in synth_rotate_gauss

---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 199b6d6..0b1d176 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -239,7 +239,7 @@ def synth_rotate_gauss(time, frequency, spectrum, scaled=None):
     time = np.array(time[..., None, None, None], dtype=float)
     frequency = 2*np.pi*np.array(frequency, dtype=float)
     if frequency.ndim == 1:
-        frequency.reshape(-1, 1, 1)
+        frequency = frequency.reshape(-1, 1, 1)
     spectrum = np.array(spectrum, dtype=complex)
 
     # output of shape (..., k, n, m)
-- 
2.43.0


From 0c4abfd1db8083152814a09c251d852d419d9fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 12/44] fix: scaled flag in synth_rotate_gauss as loaded from
 npz-file

---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 0b1d176..d31c81c 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -249,7 +249,7 @@ def synth_rotate_gauss(time, frequency, spectrum, scaled=None):
     harmonics = np.empty(freq_t.shape, dtype=complex)
     harmonics = np.cos(freq_t) + 1j*np.sin(freq_t)
 
-    if scaled is False:
+    if not scaled:
         # scale non-offset coefficients by 2 before synthesizing matrices
         harmonics = np.where(frequency > 0.0, 2*harmonics, harmonics)
 
-- 
2.43.0


From e232bc499d965108775b1e1b715bcf554e670495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 13/44] fix: NaN zenith angle at the sub-solar point and its
 antipode

---
 chaosmagpy/coordinate_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index d31c81c..23651cf 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -824,7 +824,8 @@ def zenith_angle(time, theta, phi):
     cos_zeta = (np.cos(theta)*np.cos(colat) +
                 np.sin(theta)*np.sin(colat)*np.cos(azim - phi))
 
-    return np.degrees(np.arccos(cos_zeta))
+    # round-off errors may exceed the domain of arccos
+    return np.degrees(np.arccos(np.clip(cos_zeta, -1., 1.)))
 
 
 def spherical_to_cartesian(radius, theta, phi):
-- 
2.43.0


From 5066e0c5e4c771d4f80352148ac5d64abfa08936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 14/44] fix: local time of 24 hours due to round-off

---
 chaosmagpy/coordinate_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 23651cf..0ded5eb 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -1635,7 +1635,8 @@ def local_time(time, phi):
 
     """
 
-    return np.remainder(time + phi/360, 1)*24
+    # repeat since round-off can yield 1 for tiny negative numbers
+    return np.remainder(np.remainder(time + phi/360, 1), 1)*24
 
 
 def q_response_1D(periods, sigma, radius, n, kind=None):
-- 
2.43.0


From 1606197eb7d30541c4e942dc9dc70c15942c43f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 15/44] fix: complex apparent resistivity for quadratic layers

---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 0ded5eb..4306c67 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -1886,7 +1886,7 @@ def q_response_1D(periods, sigma, radius, n, kind=None):
         # Compute the C-response (in km)
         C = 1/(omega*mu*Y[:, 0])/1e3
 
-        rho_a = mu*omega*np.abs(C*1000)**2  # rho_a in (Ohm*m)
+        rho_a = mu*np.abs(omega)*np.abs(C*1000)**2  # rho_a in (Ohm*m)
         phi = 90 + 57.3*np.angle(C)  # phase phi in degrees
 
         # Q-response
-- 
2.43.0


From e234ab2b5dbe0eb0f8df93d61b33b73a913adfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 16/44] fix: sine of the colatitude exactly zero at the south
 pole

---
 chaosmagpy/model_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index 03eba6a..580ad67 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -925,7 +925,8 @@ def legendre_poly(nmax, theta):
     """
 
     costh = np.cos(np.radians(theta))
-    sinth = np.sin(np.radians(theta))  # accurate also close to the poles
+    # accurate close to the poles and exactly zero at the poles
+    sinth = np.abs(np.sin(np.radians(np.minimum(theta, 180. - np.asarray(theta)))))
 
     Pnm = np.zeros((nmax+1, nmax+2) + costh.shape)
     Pnm[0, 0] = 1.  # is copied into trailing dimensions
-- 
2.43.0


From 0d9516217a2b48abcedd7b83d2b03484434af6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 17/44] fix: number of samples between breaks in SHC-files

---
 chaosmagpy/chaos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index cafbdd4..9525239 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -744,8 +744,8 @@ class BaseModel(Base):
             times = np.array([], dtype=float)
 
             for start, end in zip(self.breaks[:-1], self.breaks[1:]):
-                delta = (end - start) / step
-                times = np.append(times, np.arange(start, end, delta))
+                times = np.append(times, np.linspace(start, end, num=step,
+                                                     endpoint=False))
 
             times = np.append(times, self.breaks[-1])
 
-- 
2.43.0


From a4cefeb74c06d6ed2e88d7cece7a4fc21137191f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 18/44] fix: Euler angles without pre-rotation angles in the
 meta data

---
 chaosmagpy/chaos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 9525239..58680d7 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -1017,7 +1017,7 @@ class CHAOS(object):
 
                 try:
                     Euler_prerotation = meta['params']['Euler_prerotation'][k]
-                except KeyError:
+                except (KeyError, TypeError):  # also if None
                     Euler_prerotation = None
 
                 model = Base(
-- 
2.43.0


From 35abaf290de34625c9a6a658bf4faf282f8edf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 19/44] fix: do not modify the list of satellites when loading
 a MAT-file

---
 chaosmagpy/chaos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 58680d7..8404256 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2527,6 +2527,8 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
     if satellites is None:
         satellites = ['oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b',
                       'swarm_c', 'cryosat-2_1', 'cryosat-2_2', 'cryosat-2_3']
+    else:
+        satellites = list(satellites)  # do not change the input
 
     mat_contents = du.load_matfile(filepath)
 
-- 
2.43.0


From e15434282e3711edd2cad3057bee0e96742d2a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 20/44] fix: do not modify the spectrum when plotting it

---
 chaosmagpy/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/plot_utils.py b/chaosmagpy/plot_utils.py
index 51227d4..4a7b42c 100644
--- a/chaosmagpy/plot_utils.py
+++ b/chaosmagpy/plot_utils.py
@@ -257,7 +257,7 @@ def plot_power_spectrum(spectrum, **kwargs):
     ylabel = kwargs.pop('ylabel')
 
     degrees = np.arange(1, spectrum.shape[0] + 1, step=1.0)
-    spectrum[spectrum == 0] = np.nan  # remove non-positive values for log
+    spectrum = np.where(spectrum == 0, np.nan, spectrum)  # remove zeros for log
 
     # create axis handle
     fig, ax = plt.subplots(1, 1, sharex=True, sharey=True, figsize=figsize)
-- 
2.43.0


From fb421caf4b77086a1aa4fafb452406b86c3169a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 21/44] fix: leap years of 8-bit integers

---
 chaosmagpy/data_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index 502d48b..16c33db 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -533,6 +533,8 @@ def is_leap_year(year):
                         'numpy.floor to extract the integer year '
                         'from decimal years.')
 
+    year = year.astype(np.int64)  # small types cannot represent 400
+
     return np.logical_and(np.remainder(year, 4) == 0,
                           np.logical_or(np.remainder(year, 100) != 0,
                                         np.remainder(year, 400) == 0))
-- 
2.43.0


From 4f7af39251e9d4fb5524024107005e7e1b7f2da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 22/44] fix: repeated interior knots in pp_from_bspline

---
 chaosmagpy/model_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index 580ad67..2cb562a 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -257,8 +257,8 @@ def pp_from_bspline(coeffs, knots, order):
         bs = BSpline(knots, coeffs[:, d], degree)
         pp = PPoly.from_spline(bs, extrapolate=False)
 
-        # remove endpoint multiplicities
-        coeffs_pp[:, :, d] = pp.c[:, degree:(degree+pieces)]
+        # remove multiplicities of endpoints and interior knots
+        coeffs_pp[:, :, d] = pp.c[:, np.diff(knots) > 0]
 
     return coeffs_pp, breaks
 
-- 
2.43.0


From f250a0abfaf7ea6b7115d9d1f011152e7ee562e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 23/44] fix: sensitivity of integer coefficients

---
 chaosmagpy/model_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index 2cb562a..b59e33f 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -1158,7 +1158,7 @@ def sensitivity(coeffs, coeffs_true):
 
     nmax = int(np.sqrt(coeffs.size + 1) - 1)
 
-    S = coeffs - coeffs_true
+    S = (coeffs - coeffs_true).astype(float)
 
     # apply degree-dependent scaling
     for n in range(1, nmax+1):
-- 
2.43.0


From f5be41a9308625fcd7a8ddc990d4784240d7eedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 24/44] fix: NaN geodetic coordinates at the poles

---
 chaosmagpy/coordinate_utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 4306c67..9acdb3d 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -992,9 +992,8 @@ def geo_to_gg(radius, theta, B_radius=None, B_theta=None):
 
     Notes
     -----
-    Round-off errors might lead to a failure of the algorithm especially but
-    not exclusively for points close to the geographic poles. Corresponding
-    geodetic coordinates are returned as NaN.
+    The algorithm might fail for points in the deep interior of the ellipsoid.
+    Corresponding geodetic coordinates are returned as NaN.
 
     References
     ----------
@@ -1035,8 +1034,10 @@ def geo_to_gg(radius, theta, B_radius=None, B_theta=None):
 
     Q = np.sqrt(1. + 2*e4*P)
 
-    r0 = -P*e2*r / (1. + Q) + np.sqrt(
-        0.5*a2*(1. + 1./Q) - P*(1. - e2)*z2 / (Q*(1. + Q)) - 0.5*P*r2)
+    # vanishes at the poles, where round-off may turn it negative
+    r02 = 0.5*a2*(1. + 1./Q) - P*(1. - e2)*z2 / (Q*(1. + Q)) - 0.5*P*r2
+
+    r0 = -P*e2*r / (1. + Q) + np.sqrt(np.maximum(r02, 0.))
 
     U = np.sqrt((r - e2*r0)**2 + z2)
 
-- 
2.43.0


From dddc3089ca47fbbb7308160b76714a831207d3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:20 +0000
Subject: [PATCH 25/44] fix: accept a single period in q_response_1D

---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 9acdb3d..5ed2fbf 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -1718,7 +1718,7 @@ def q_response_1D(periods, sigma, radius, n, kind=None):
     if kind is None:
         kind = 'quadratic'
 
-    periods = np.asarray(periods, dtype=float)  # ensure numpy array
+    periods = np.atleast_1d(np.asarray(periods, dtype=float))  # ensure vector
     if periods.ndim > 1:
         raise ValueError("Input ``periods`` must be a vector.")
 
-- 
2.43.0


From 79193c1da421d276f830a4cfba88e9b8d5914539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 26/44] fix: reject unknown sources in the CHAOS model call

---
 chaosmagpy/chaos.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 8404256..5ae7c61 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -1121,6 +1121,13 @@ str, {'internal', 'external'}
 
         source_list = np.ravel(np.array(source_list))
 
+        for source in source_list:
+            if source not in ['tdep', 'static', 'gsm', 'sm']:
+                raise ValueError(
+                    f'Unknown source "{source}" in "source_list". Use '
+                    '"tdep", "static", "gsm" and/or "sm", or either '
+                    '"internal" or "external".')
+
         verbose = bool(verbose)
 
         # get shape of broadcasted result
-- 
2.43.0


From 7aad35154cdfe356945a82a81c2e9ff776bec776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 27/44] fix: GSM field of a model without static internal part

---
 chaosmagpy/chaos.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 5ae7c61..f8a0f7d 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -1580,9 +1580,14 @@ str, {'internal', 'external'}
         # ensure ndarray input
         time = np.asarray(time, dtype=float)
 
-        # use static part to define modelled period
-        start = self.model_static.breaks[0]
-        end = self.model_static.breaks[-1]
+        # use internal part to define modelled period
+        model = self.model_static or self.model_tdep
+
+        if model is None:
+            start, end = -np.inf, np.inf
+        else:
+            start = model.breaks[0]
+            end = model.breaks[-1]
 
         if np.amin(time) < start or np.amax(time) > end:
             warnings.warn(
-- 
2.43.0


From 3a2e1f2a013a55f25cb5ff6accd0523424962264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 28/44] fix: save static internal field of a model without
 time-dependent part

---
 chaosmagpy/chaos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index f8a0f7d..27f8281 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2239,7 +2239,8 @@ str, {'internal', 'external'}
                 raise ValueError("Static internal field coefficients "
                                  "are missing.")
 
-            nmin = self.model_tdep.nmax + 1
+            # without time-dependent part, start with the first degree
+            nmin = 1 if self.model_tdep is None else self.model_tdep.nmax + 1
             nmax = self.model_static.nmax
             order = 1
 
-- 
2.43.0


From da21babf8b74a99dfda91779e9c4c491bdee33c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:41 +0000
Subject: [PATCH 29/44] fix: save Euler angles of satellites with the same
 number of bins

---
 chaosmagpy/chaos.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 27f8281..12fbfc9 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2314,6 +2314,13 @@ str, {'internal', 'external'}
             # write Euler angles to matfile for each satellite
             satellites = self.meta['satellites']
 
+            def to_cell(arrays):
+                # object array of arrays, also if they have the same shape
+                cell = np.empty((len(arrays),), dtype='object')
+                for k, array in enumerate(arrays):
+                    cell[k] = array
+                return cell
+
             t_break_Euler = []  # list of Euler angle breaks for satellites
             alpha = []  # list of alpha for each satellite
             beta = []  # list of beta for each satellite
@@ -2333,16 +2340,16 @@ str, {'internal', 'external'}
                 gamma.append(self.model_euler[satellite].coeffs[
                     0, :, 2].reshape((-1, 1)).astype(float))
 
-            hdf.write(np.array(t_break_Euler, dtype='object'),
+            hdf.write(to_cell(t_break_Euler),
                       path='/model_Euler/t_break_Euler/',
                       filename=filepath, matlab_compatible=True)
-            hdf.write(np.array(alpha, dtype='object'),
+            hdf.write(to_cell(alpha),
                       path='/model_Euler/alpha/',
                       filename=filepath, matlab_compatible=True)
-            hdf.write(np.array(beta, dtype='object'),
+            hdf.write(to_cell(beta),
                       path='/model_Euler/beta/',
                       filename=filepath, matlab_compatible=True)
-            hdf.write(np.array(gamma, dtype='object'),
+            hdf.write(to_cell(gamma),
                       path='/model_Euler/gamma/',
                       filename=filepath, matlab_compatible=True)
 
-- 
2.43.0


From 602ae7a924d72a2c11095a2a6f32abfe197c7d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:41 +0000
Subject: [PATCH 30/44] fix: load Euler angles of a single satellite

---
 chaosmagpy/chaos.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 12fbfc9..27d44d6 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2618,6 +2618,12 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
     else:
         # append generic satellite name if more data available or reduce
         t_break_Euler = model_euler['t_break_Euler']
+
+        if t_break_Euler.dtype != 'object':  # unpacked, if single satellite
+            t_break_Euler = [t_break_Euler]
+            model_euler = {angle: [np.reshape(model_euler[angle], (-1, 1))]
+                           for angle in ['alpha', 'beta', 'gamma']}
+
         n = len(t_break_Euler)
         m = len(satellites)
 
-- 
2.43.0


From a446c073668e5fa68c37c0e3a65825bf4349dc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:42 +0000
Subject: [PATCH 31/44] fix: load SM baseline corrections given in a single bin

---
 chaosmagpy/chaos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 27d44d6..f86b767 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2602,7 +2602,7 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
         # reshape to comply with scipy PPoly coefficients
         coeffs_delta = dict()
         coeffs_delta['q10'] = model_ext['q10'].reshape((1, -1))
-        qs11 = model_ext['qs11']
+        qs11 = model_ext['qs11'].reshape((-1, 2))  # also if single bin
         coeffs_delta['q11'] = qs11[:, 0].reshape((1, -1))
         coeffs_delta['s11'] = qs11[:, 1].reshape((1, -1))
 
-- 
2.43.0


From ba0c948cc0740122dc559f8bf0ce559f80a5ef20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:42 +0000
Subject: [PATCH 32/44] fix: save calibration parameters such that they can be
 loaded

---
 chaosmagpy/chaos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index f86b767..8f0a996 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2359,7 +2359,8 @@ str, {'internal', 'external'}
             for satellite, model in self.model_cal.items():
                 cal.append(model.to_ppdict())
 
-            hdf.write(np.array(cal, dtype=object),
+            # 2-D as in MATLAB so that it can be loaded again
+            hdf.write(np.array(cal, dtype=object).reshape((1, -1)),
                       path='/pp_CAL/',
                       filename=filepath, matlab_compatible=True)
 
-- 
2.43.0


From aa96a8e2933b5bd9e20481b68845379381eb70cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:01 +0000
Subject: [PATCH 33/44] fix: load pre-rotation of a single satellite

---
 chaosmagpy/chaos.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 8f0a996..003e8f0 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2666,7 +2666,12 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
     # load additional parameters
     try:
         params = mat_contents['params']
-        dict_params = {'Euler_prerotation': params['Euler_prerotation']}
+        prerotation = params['Euler_prerotation']
+
+        if np.shape(prerotation) == (3,):  # squeezed, if single satellite
+            prerotation = np.reshape(prerotation, (1, 3))
+
+        dict_params = {'Euler_prerotation': prerotation}
 
     except KeyError as err:
         warnings.warn(f'Missing params dictionary of Euler prerotation: {err}')
-- 
2.43.0


From eecc1a943abcb7c0854eda3601a061edc55fe44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:11 +0000
Subject: [PATCH 34/44] fix: save SHC-file of a single snapshot at a scalar
 time

---
 chaosmagpy/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index 16c33db..76b2eec 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -318,7 +318,7 @@ def save_shcfile(time, coeffs, order=None, filepath=None, nmin=None, nmax=None,
 
     """
 
-    time = np.asarray(time, dtype=float)
+    time = np.atleast_1d(np.asarray(time, dtype=float))
 
     order = 1 if order is None else int(order)
 
-- 
2.43.0


From 41dbfabe2912c5e143b8a86ff245717da1f278ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 35/44] fix: reject configuration vectors that are not numeric

---
 chaosmagpy/config_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index e495216..e865531 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -124,7 +124,7 @@ def check_string(s):
 def check_vector(s, len=None):
     """Check that input is vector of required length."""
     try:
-        s = np.array(s)
+        s = np.array(s, dtype=float)
         assert s.ndim == 1
         if len is not None:
             if s.size != len:
-- 
2.43.0


From e61d8139bbdddb471a0e3687cf63cb89f01d80cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 36/44] fix: reset configuration also if the default file is
 missing

---
 chaosmagpy/config_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index e865531..a57c5a4 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -207,7 +207,7 @@ class BasicConfig(dict):
             Single keyword that is reset to the default.
 
         """
-        self.__setitem__(key, copy.deepcopy(self.defaults[key][0]))
+        super().__setitem__(key, copy.deepcopy(self.defaults[key][0]))
 
     def fullreset(self):
         """
-- 
2.43.0


From 70e7fc4a1df264fee69d55352d893e385cba8421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:15 +0000
Subject: [PATCH 37/44] fix: keep file paths in the configuration as strings

---
 chaosmagpy/config_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index a57c5a4..2d55576 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -91,6 +91,7 @@ def check_path_exists(s):
     """Check that path to file exists."""
     if s is None or s == 'None':
         return None
+    s = os.fsdecode(s)  # string also for path-like objects
     if os.path.exists(s):
         return s
     else:
-- 
2.43.0


From 3353514ff221d6c23dce17d6c259cad51be25619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:55 +0000
Subject: [PATCH 38/44] fix: units of the first derivative as documented (no
 doubled braces)

---
 chaosmagpy/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index 76b2eec..6046319 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -700,7 +700,7 @@ def gauss_units(deriv=None):
     if deriv == 0:
         units = 'nT'
     elif deriv == 1:
-        units = '$\\mathrm{{nT}}/\\mathrm{{yr}}$'
+        units = '$\\mathrm{nT}/\\mathrm{yr}$'
     else:
         units = '$\\mathrm{{nT}}/\\mathrm{{yr}}^{{{:}}}$'.format(deriv)
 
-- 
2.43.0


From 1490b55b0b73af831e32ba80fd676b038570ce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:09 +0000
Subject: [PATCH 39/44] fix: titles of maps show the maximum degree that is
 drawn

---
 chaosmagpy/chaos.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 003e8f0..833df6a 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -575,14 +575,6 @@ class BaseModel(Base):
         # remove keywords that are not intended for pcolormesh
         nmax = kwargs.pop('nmax')
         deriv = kwargs.pop('deriv')
-        titles = [f'$B_r$ ($n\\leq{nmax}$, deriv={deriv})',
-                  f'$B_\\theta$ ($n\\leq{nmax}$, deriv={deriv})',
-                  f'$B_\\phi$ ($n\\leq{nmax}$, deriv={deriv})']
-
-        # add plot_maps options to dictionary
-        kwargs.setdefault('label', du.gauss_units(deriv))
-        kwargs.setdefault('titles', titles)
-
         # handle optional argument: nmax > coefficient nmax
         if nmax > self.nmax:
             warnings.warn(
@@ -591,6 +583,14 @@ class BaseModel(Base):
                     nmax, self.nmax))
             nmax = self.nmax
 
+        titles = [f'$B_r$ ($n\\leq{nmax}$, deriv={deriv})',
+                  f'$B_\\theta$ ($n\\leq{nmax}$, deriv={deriv})',
+                  f'$B_\\phi$ ($n\\leq{nmax}$, deriv={deriv})']
+
+        # add plot_maps options to dictionary
+        kwargs.setdefault('label', du.gauss_units(deriv))
+        kwargs.setdefault('titles', titles)
+
         time = np.array(time, dtype=float)
         theta = np.linspace(1, 179, num=320)
         phi = np.linspace(-180, 180, num=640)
-- 
2.43.0


From 20e37c9c4a0ee53e41394acdfed4c5a84f9f095e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:11 +0000
Subject: [PATCH 40/44] fix: accept whole numbers as breaks and coefficients in
 synth_from_pp

---
 chaosmagpy/model_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index b59e33f..17a8e65 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -332,8 +332,8 @@ def synth_from_pp(breaks, order, coeffs, time, radius, theta, phi, *,
     # set grid option to false
     grid = False if grid is None else grid
 
-    PP = PPoly.construct_fast(coeffs[..., :nmax*(nmax+2)], breaks,
-                              extrapolate=False)
+    PP = PPoly.construct_fast(coeffs[..., :nmax*(nmax+2)].astype(float),
+                              breaks.astype(float), extrapolate=False)
 
     PP = PP.derivative(nu=deriv)
     gauss_coeffs = PP(time) * 365.25**deriv
-- 
2.43.0


From a8df696e0878fd37cc39319f9cc17dede548e581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:33 +0000
Subject: [PATCH 41/44] fix: save CHAOS models without complete metadata to
 MAT-files

---
 chaosmagpy/chaos.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 833df6a..b97c3e9 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2312,7 +2312,8 @@ str, {'internal', 'external'}
 
         if self.model_euler:
             # write Euler angles to matfile for each satellite
-            satellites = self.meta['satellites']
+            satellites = (self.meta or {}).get(
+                'satellites', tuple(self.model_euler))
 
             def to_cell(arrays):
                 # object array of arrays, also if they have the same shape
@@ -2370,7 +2371,7 @@ str, {'internal', 'external'}
 
             hdf.write(g, path='/g', filename=filepath, matlab_compatible=True)
 
-        if self.meta:
+        if self.meta and 'params' in self.meta:
             hdf.write(self.meta['params'], path='/params', filename=filepath,
                       matlab_compatible=True)
 
-- 
2.43.0


From 3aa3ab9cf01e40e5c87d52b124b2d12dabb7e148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:05 +0000
Subject: [PATCH 42/44] fix: missing (NaN) values hid poles, invalid
 colatitudes and times outside of the model

---
 chaosmagpy/chaos.py            | 10 +++++++---
 chaosmagpy/coordinate_utils.py |  2 +-
 chaosmagpy/model_utils.py      | 10 ++++++----
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index b97c3e9..2ea1116 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -155,7 +155,9 @@ class Base(object):
         start = self.breaks[0]
         end = self.breaks[-1]
 
-        if (np.amin(time) < start) or (np.amax(time) > end):
+        # ignore NaN, e.g. for missing data
+        if (np.fmin.reduce(np.ravel(time)) < start
+                or np.fmax.reduce(np.ravel(time)) > end):
 
             dkey = {
                 'linear': 2,
@@ -1589,7 +1591,8 @@ str, {'internal', 'external'}
             start = model.breaks[0]
             end = model.breaks[-1]
 
-        if np.amin(time) < start or np.amax(time) > end:
+        if (np.fmin.reduce(np.ravel(time)) < start
+                or np.fmax.reduce(np.ravel(time)) > end):
             warnings.warn(
                 'Requested coefficients are outside of the '
                 f'model period from {start} to {end}. Doing linear '
@@ -1797,7 +1800,8 @@ str, {'internal', 'external'}
         # ensure ndarray input
         time = np.asarray(time, dtype=float)
 
-        if np.amin(time) < start or np.amax(time) > end:
+        if (np.fmin.reduce(np.ravel(time)) < start
+                or np.fmax.reduce(np.ravel(time)) > end):
             warnings.warn(
                 'Requested coefficients are outside of the '
                 f'model period from {start} to {end}. Doing linear '
diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 5ed2fbf..45871cd 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -1266,7 +1266,7 @@ def basevectors_use(theta, phi):
     theta = np.array(np.radians(theta))
     phi = np.array(np.radians(phi))
 
-    if (np.amin(theta) == 0.) or (np.amax(theta) == np.pi):
+    if np.any((theta == 0.) | (theta == np.pi)):
         raise ValueError("Basevectors are not defined at poles.")
 
     grid_shape = np.broadcast(theta, phi).shape
diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index 17a8e65..71e773a 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -497,8 +497,9 @@ def synth_values(coeffs, radius, theta, phi, *, nmax=None, nmin=None,
     theta = np.asarray(theta, dtype=float)
     phi = np.asarray(phi, dtype=float)
 
-    theta_min = np.amin(theta)
-    theta_max = np.amax(theta)
+    # ignore NaN, e.g. for missing data
+    theta_min = np.fmin.reduce(np.ravel(theta))
+    theta_max = np.fmax.reduce(np.ravel(theta))
 
     if (theta_min <= 0.0) or (theta_max >= 180.0):
         if (theta_min >= 0.0) and (theta_max <= 180.0):
@@ -785,8 +786,9 @@ def design_gauss(radius, theta, phi, nmax, *, nmin=None, mmax=None,
 
     shape = b.shape
 
-    theta_min = np.amin(theta)
-    theta_max = np.amax(theta)
+    # ignore NaN, e.g. for missing data
+    theta_min = np.fmin.reduce(np.ravel(theta))
+    theta_max = np.fmax.reduce(np.ravel(theta))
 
     # check if poles are included
     if (theta_min <= 0.0) or (theta_max >= 180.0):
-- 
2.43.0


From 5d1a037d4f7a1eefea9f6a4501cbf67b009edef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:05 +0000
Subject: [PATCH 43/44] fix: integer arrays overflowed in spectra, coordinates
 and the position of the Sun

---
 chaosmagpy/coordinate_utils.py |  6 ++++++
 chaosmagpy/model_utils.py      | 10 +++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 45871cd..f7b8bae 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -755,6 +755,7 @@ def sun_position(time):
     Geophysical%20Coordinate%20Transformations.htm#appendix2>`_
 
     """
+    time = np.asarray(time, dtype=float)  # no overflow of integers
     rad = np.pi / 180
     year = 2000  # reference year for mjd2000
     assert np.all((year + time // 365.25) < 2099) \
@@ -875,6 +876,9 @@ def cartesian_to_spherical(x, y, z):
         Longitude in degrees :math:`(-180^\\circ,180^\\circ]`.
     """
 
+    # no overflow of integers
+    x, y, z = (np.asarray(c, dtype=float) for c in (x, y, z))
+
     radius = np.sqrt(x**2 + y**2 + z**2)
     theta = np.arctan2(np.sqrt(x**2 + y**2), z)
     phi = np.arctan2(y, x)
@@ -928,6 +932,8 @@ def gg_to_geo(height, beta, X=None, Z=None):
     a = config_utils.basicConfig['params.ellipsoid'][0]  # equatorial radius
     b = config_utils.basicConfig['params.ellipsoid'][1]  # polar radius
 
+    height = np.asarray(height, dtype=float)  # no overflow of integers
+
     # convert geodetic colatitude to latitude
     alpha = np.radians(90. - beta)
 
diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index 71e773a..d65aba0 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -1024,6 +1024,8 @@ def power_spectrum(coeffs, radius=None, *, nmax=None, source=None, axis=None):
 
     """
 
+    coeffs = np.asarray(coeffs, dtype=float)  # no overflow of integers
+
     axis = -1 if axis is None else int(axis)
     if radius is None:
         r = 1
@@ -1102,6 +1104,9 @@ def degree_correlation(coeffs_1, coeffs_2):
             'Number of coefficients must be the same '
             '({0} != {1}).'.format(coeffs_1.size, coeffs_2.size))
 
+    coeffs_1 = coeffs_1.astype(float)  # no overflow of integers
+    coeffs_2 = coeffs_2.astype(float)
+
     nmax = int(np.sqrt(coeffs_1.size + 1) - 1)
 
     C_n = np.zeros((nmax,))
@@ -1160,7 +1165,10 @@ def sensitivity(coeffs, coeffs_true):
 
     nmax = int(np.sqrt(coeffs.size + 1) - 1)
 
-    S = (coeffs - coeffs_true).astype(float)
+    coeffs = coeffs.astype(float)  # no overflow of integers
+    coeffs_true = coeffs_true.astype(float)
+
+    S = coeffs - coeffs_true
 
     # apply degree-dependent scaling
     for n in range(1, nmax+1):
-- 
2.43.0


From 55e3d74bdbfd3a1387293576aa40d0e151a41534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:05 +0000
Subject: [PATCH 44/44] fix: collocation matrix of integer knots failed

---
 chaosmagpy/model_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index d65aba0..ebceb07 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -178,7 +178,8 @@ def colloc_matrix(x, knots, order, deriv=None):
         return np.zeros((max(x.size, 1), knots.size - order))
 
     else:
-        # create spline using scipy.interpolate
+        # create spline using scipy.interpolate, which requires floats
+        knots = np.asarray(knots, dtype=float)
         coll = np.empty((max(x.size, 1), knots.size - order))
 
         for n in range(knots.size - order):
-- 
2.43.0

