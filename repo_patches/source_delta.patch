From ad4f560b8840c3f10cb93b8344e631b54bf03b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:11 +0000
Subject: [PATCH 01/22] fix: default w_y keeps the fill factor given along x
 (it was inverted)

---
 src/pybsm/simulation/sensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/simulation/sensor.py b/src/pybsm/simulation/sensor.py
index e54c823..7f8a609 100644
--- a/src/pybsm/simulation/sensor.py
+++ b/src/pybsm/simulation/sensor.py
@@ -191,7 +191,7 @@ class Sensor:
 
         if w_y is None:
             # Assume is same fill factor as along the x.
-            self.w_y = p_x / self.w_x * self.p_y
+            self.w_y = self.w_x / self.p_x * self.p_y
         else:
             self.w_y = w_y
 
-- 
2.43.0


From 548c41addbece9c2c22328cb76ee86a8f19cb0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:11 +0000
Subject: [PATCH 02/22] fix: emissive NIIRS bookkeeping sets the background
 temperature, not the target twice

---
 src/pybsm/metrics/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index 423e7ac..a699df1 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -314,7 +314,7 @@ def niirs(sensor: Sensor, scenario: Scenario, interp: Optional[bool] = False) ->
         nm.scenario.target_reflectance = 0.0
         nm.scenario.background_reflectance = 0.0
         nm.scenario.target_temperature = 282.0
-        nm.scenario.target_temperature = 280.0
+        nm.scenario.background_temperature = 280.0
 
     else:
         is_emissive = 0
@@ -475,7 +475,7 @@ def niirs5(sensor: Sensor, scenario: Scenario, interp: Optional[bool] = False) -
         nm.scenario.target_reflectance = 0.0
         nm.scenario.background_reflectance = 0.0
         nm.scenario.target_temperature = 282.0
-        nm.scenario.target_temperature = 280.0
+        nm.scenario.background_temperature = 280.0
 
     else:
         is_emissive = 0
-- 
2.43.0


From a255aecb395f23a21fd2eebf6ea69be0bf9fc921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:11 +0000
Subject: [PATCH 03/22] fix: niirs5 no longer overwrites the caller's filter
 kernel

---
 src/pybsm/metrics/functional.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index a699df1..d35335b 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -15,6 +15,7 @@ Maintainer: Kitware, Inc. <nrtk@kitware.com>
 """
 
 # standard library imports
+import copy
 import inspect
 import os
 import warnings
@@ -551,9 +552,10 @@ def niirs5(sensor: Sensor, scenario: Scenario, interp: Optional[bool] = False) -
     nm.uu, nm.vv = np.meshgrid(u_rng, v_rng)  # meshgrid of spatial frequencies out to the optics cutoff
     nm.df = u_rng[1] - u_rng[0]  # spatial frequency step size
 
-    sensor.filter_kernel = np.array([1])  # ensures that sharpening is turned off.  Not valid for GIQE5
+    otf_sensor = copy.copy(sensor)  # the caller's sensor keeps its own kernel
+    otf_sensor.filter_kernel = np.array([1])  # ensures that sharpening is turned off.  Not valid for GIQE5
     nm.otf = otf.functional.common_OTFs(
-        sensor,
+        otf_sensor,
         scenario,
         nm.uu,
         nm.vv,
-- 
2.43.0


From 5e0302646d495e64d1b7257a992c79f65e8c27aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:11 +0000
Subject: [PATCH 04/22] fix: reflectance_to_photoelectrons uses the requested
 target temperature

---
 src/pybsm/radiance/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/radiance/functional.py b/src/pybsm/radiance/functional.py
index 98e7e93..7c494e1 100755
--- a/src/pybsm/radiance/functional.py
+++ b/src/pybsm/radiance/functional.py
@@ -583,8 +583,8 @@ def reflectance_to_photoelectrons(
     for idx in np.arange(ref.size):
         # Calculate the total radiance from the target including both
         # reflection of the solar illumination and the radiative emission from
-        # the object assumed to be at 300 K.
-        target_radiance = total_radiance(atm, ref[idx], 300.0)
+        # the object assumed to be at target_temp (300 K by default).
+        target_radiance = total_radiance(atm, ref[idx], target_temp)
 
         wavelengths = atm[:, 0]
 
-- 
2.43.0


From 179f0a050755405145205e4373a648d7da6b9748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:11 +0000
Subject: [PATCH 05/22] fix: GIQE 4 noise coefficient is 0.344 (Leachtenauer et
 al. 1997)

---
 src/pybsm/metrics/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index d35335b..95009ef 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -117,7 +117,7 @@ def giqe4(rer: float, gsd: float, eho: float, ng: float, snr: float, elev_angle:
     # fact that only one direction in the gsd is distorted by projection into
     # the ground plane
 
-    niirs = 10.251 - c_1 * np.log10(gsd_gp / 0.0254) + c_2 * np.log10(rer) - 0.656 * eho - 0.334 * ng / snr
+    niirs = 10.251 - c_1 * np.log10(gsd_gp / 0.0254) + c_2 * np.log10(rer) - 0.656 * eho - 0.344 * ng / snr
     # note that, within the GIQE, gsd is defined in inches, hence the
     # conversion
     return niirs, gsd_gp
-- 
2.43.0


From 3c5ef3d579063ff3899c99c29af10866ac41b1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:49 +0000
Subject: [PATCH 06/22] fix: noise_gain accepts unit-sum kernels whose float
 sum is off by rounding

---
 src/pybsm/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/noise.py b/src/pybsm/noise.py
index 1c15e28..1cabcf2 100755
--- a/src/pybsm/noise.py
+++ b/src/pybsm/noise.py
@@ -53,7 +53,7 @@ def noise_gain(kernel: np.ndarray) -> float:
         ValueError:
             if values in kernel do not sum to 1
     """
-    if np.sum(kernel) != 1.0:
+    if not np.isclose(np.sum(kernel), 1.0):
         raise ValueError("Kernel does not sum to 1")
 
     ng = np.sqrt(np.sum(np.sum(kernel**2)))
-- 
2.43.0


From 7493035504844f443c0e1e494d586b9c249792d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:49 +0000
Subject: [PATCH 07/22] fix: slice_otf samples along the requested direction at
 every angle

---
 src/pybsm/otf/functional.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 0c0486d..713a611 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -1171,15 +1171,16 @@ def slice_otf(otf: np.ndarray, ang: float) -> np.ndarray:
             one-dimensional OTF in the direction of angle; the sample spacing
             of o_slice is the same as the original otf
     """
-    u = np.linspace(-1.0, 1.0, otf.shape[0])
-    v = np.linspace(1.0, -1.0, otf.shape[1])
+    u = np.linspace(-1.0, 1.0, otf.shape[1])
+    v = np.linspace(-1.0, 1.0, otf.shape[0])
     r = np.arange(0.0, 1.0, u[1] - u[0])
 
-    f = interpolate.interp2d(u, v, otf)
-    o_slice = np.diag(f(r * np.cos(ang), r * np.sin(ang)))
-    # the interpolator, f, calculates a bunch of points that we don't really
-    # need since everything but the diagonal is thrown away.  It works but
-    # it's inefficient.
+    # the rows of otf run from v = 1 down to v = -1 but the interpolator needs
+    # ascending coordinates
+    f = interpolate.RegularGridInterpolator(
+        (v, u), otf[::-1, :], bounds_error=False, fill_value=None
+    )
+    o_slice = f(np.stack([r * np.sin(ang), r * np.cos(ang)], axis=-1))
 
     return o_slice
 
-- 
2.43.0


From a3f130ef254765ebef1c79e4d34b5ff405fcc655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:49 +0000
Subject: [PATCH 08/22] fix: defocused circular aperture OTF follows the
 Hopkins series

---
 src/pybsm/otf/functional.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 713a611..4996c79 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -234,16 +234,16 @@ def circular_aperture_OTF_with_defocus(  # noqa: N802
     beta = np.arccos(0.5 * s)
 
     if defocus:
-        defocus_otf = 2 / (np.pi * alpha) * np.cos(alpha * 0.5 * s) * (
+        defocus_otf = 4 / (np.pi * alpha) * np.cos(alpha * 0.5 * s) * (
             beta * jn(1, alpha)
-            + 1 / 2.0 * np.sin(2 * beta * (jn(1, alpha) - jn(3, alpha)))
-            - 1 / 4.0 * np.sin(4 * beta * (jn(3, alpha) - jn(5, alpha)))
-            + 1 / 6.0 * np.sin(6 * beta * (jn(5, alpha) - jn(7, alpha)))
-        ) - 2 / (np.pi * alpha) * np.sin(alpha * 0.5 * s) * (
-            np.sin(beta * (jn(0, alpha) - jn(2, alpha)))
-            - 1 / 3.0 * np.sin(3 * beta * (jn(2, alpha) - jn(4, alpha)))
-            + 1 / 5.0 * np.sin(5 * beta * (jn(4, alpha) - jn(6, alpha)))
-            - 1 / 7.0 * np.sin(7 * beta * (jn(6, alpha) - jn(8, alpha)))
+            + 1 / 2.0 * np.sin(2 * beta) * (jn(1, alpha) - jn(3, alpha))
+            - 1 / 4.0 * np.sin(4 * beta) * (jn(3, alpha) - jn(5, alpha))
+            + 1 / 6.0 * np.sin(6 * beta) * (jn(5, alpha) - jn(7, alpha))
+        ) - 4 / (np.pi * alpha) * np.sin(alpha * 0.5 * s) * (
+            np.sin(beta) * (jn(0, alpha) - jn(2, alpha))
+            - 1 / 3.0 * np.sin(3 * beta) * (jn(2, alpha) - jn(4, alpha))
+            + 1 / 5.0 * np.sin(5 * beta) * (jn(4, alpha) - jn(6, alpha))
+            - 1 / 7.0 * np.sin(7 * beta) * (jn(6, alpha) - jn(8, alpha))
         )
 
         defocus_otf[rho == 0] = 1
-- 
2.43.0


From 005896fc7bbc1f24635e1c7f3aa74a2487ee8934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:49 +0000
Subject: [PATCH 09/22] fix: obscured aperture OTF is continuous where rho
 equals (1-eta)*D/(2*lambda)

---
 src/pybsm/otf/functional.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 4996c79..92d57be 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -158,10 +158,13 @@ def circular_aperture_OTF(  # noqa: N802
     b = np.nan_to_num(b)  # noqa: N806
 
     # region where (rho < ((1.0-eta)*r0/2.0)):
-    c_1 = -2.0 * eta**2.0 * (rho < (1.0 - eta) * r0 / 2.0)  # noqa: N806
+    # (decided by the argument of arccos below so that, whatever the rounding,
+    # every frequency falls in exactly one of the two regions)
+    cos_phi = (1.0 + eta**2.0 - (2.0 * rho / r0) ** 2) / 2.0 / eta
+    c_1 = -2.0 * eta**2.0 * (cos_phi > 1.0)  # noqa: N806
 
     # region where (rho <= ((1.0+eta)*r0/2.0)):
-    phi = np.arccos((1.0 + eta**2.0 - (2.0 * rho / r0) ** 2) / 2.0 / eta)
+    phi = np.arccos(cos_phi)
     c_2 = (  # noqa: N806
         2.0 * eta * np.sin(phi) / np.pi
         + (1.0 + eta**2.0) * phi / np.pi
-- 
2.43.0


From 3697d5146cdbe8642299842ad43805c2cc9705ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:49 +0000
Subject: [PATCH 10/22] fix: otf_to_psf keeps the whole kernel when it is
 smaller than the crop window

---
 src/pybsm/otf/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 92d57be..5692e3a 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -952,7 +952,7 @@ def otf_to_psf(otf: np.ndarray, df: float, dx_out: float) -> np.ndarray:
         tuple(
             [
                 slice(
-                    int(np.floor(d / 2 - k_size / 2)),
+                    max(0, int(np.floor(d / 2 - k_size / 2))),
                     int(np.ceil(d / 2 + k_size / 2)),
                 )
                 for d in x.shape
-- 
2.43.0


From 3cad7e8426e1b303f85ed6ccfad08671bad8fd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:49 +0000
Subject: [PATCH 11/22] fix: interpolated atmospheres use the 32.5 m altitude
 that the database contains

---
 src/pybsm/simulation/scenario.py | 2 +-
 src/pybsm/utils.py               | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pybsm/simulation/scenario.py b/src/pybsm/simulation/scenario.py
index b5c7617..f431802 100644
--- a/src/pybsm/simulation/scenario.py
+++ b/src/pybsm/simulation/scenario.py
@@ -35,7 +35,7 @@ class Scenario:
         with 5 km visibility)
     :parameter altitude:
         sensor height above ground level in meters; the database includes the
-        following altitude options: 2 32.55 75 150 225 500 meters, 1000 to
+        following altitude options: 2 32.5 75 150 225 500 meters, 1000 to
         12000 in 1000 meter steps, and 14000 to 20000 in 2000 meter steps,
         24500
     :parameter ground_range:
diff --git a/src/pybsm/utils.py b/src/pybsm/utils.py
index 3dfca4f..3169096 100644
--- a/src/pybsm/utils.py
+++ b/src/pybsm/utils.py
@@ -44,7 +44,7 @@ def load_database_atmosphere_no_interp(
 
     :param altitude:
         sensor height above ground level in meters.  The database includes the
-        following altitude options: 2 32.55 75 150 225 500 meters, 1000 to
+        following altitude options: 2 32.5 75 150 225 500 meters, 1000 to
         12000 in 1000 meter steps, and 14000 to 20000 in 2000 meter steps,
         24500 meters
     :param ground_range:
@@ -197,7 +197,7 @@ def load_database_atmosphere(
     altitude_array = np.array(
         [
             2,
-            32.55,
+            32.5,
             75,
             150,
             225,
-- 
2.43.0


From 0f10ec18587d626650cc331067843599fe779dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:49 +0000
Subject: [PATCH 12/22] fix: plot_common_MTFs passes valid annotate arguments

---
 src/pybsm/metrics/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index 95009ef..df36e33 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -745,8 +745,8 @@ def plot_common_MTFs(metrics: Metrics, orientation_angle: float = 0.0) -> int:
     plt.annotate(
         "",
         xy=(nyquist, 0),
-        xy_text=(nyquist, 0.1),
-        arrow_props=dict(face_color="black", shrink=0.05),
+        xytext=(nyquist, 0.1),
+        arrowprops=dict(facecolor="black", shrink=0.05),
     )
     return 0
 
-- 
2.43.0


From 6ddb332463e0613ea1c046e664ef68912968b1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:11 +0000
Subject: [PATCH 13/22] fix: stray irradiance given to the sensor reaches the
 focal plane

---
 src/pybsm/radiance/functional.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pybsm/radiance/functional.py b/src/pybsm/radiance/functional.py
index 7c494e1..96d83ac 100755
--- a/src/pybsm/radiance/functional.py
+++ b/src/pybsm/radiance/functional.py
@@ -444,6 +444,7 @@ def photon_detector_SNR(  # noqa: N802
             sensor.D,
             sensor.f,
         )
+        + sensor.other_irradiance
     )
 
     # initial estimate of  total detected target and background photoelectrons
@@ -621,6 +622,7 @@ def reflectance_to_photoelectrons(
             sensor.D,
             sensor.f,
         )
+        other_irradiance = other_irradiance + sensor.other_irradiance
 
         tgt_n_rate, tgt_FPA_irradiance, weights = signal_rate(  # noqa: N806
             wavelengths,
-- 
2.43.0


From 3cf706d42355ecb5ba79bf9cdb8ee4fdf9b8686e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:21 +0000
Subject: [PATCH 14/22] fix: nadir angle is never nan when looking straight
 down

---
 src/pybsm/geospatial.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pybsm/geospatial.py b/src/pybsm/geospatial.py
index 82399cb..7829494 100755
--- a/src/pybsm/geospatial.py
+++ b/src/pybsm/geospatial.py
@@ -126,7 +126,10 @@ def nadir_angle(h_target: float, h_sensor: float, slant_range: float) -> float:
     a = r_earth + h_sensor
     b = slant_range
     c = r_earth + h_target
-    nadir = np.arccos(-1.0 * (c**2.0 - a**2.0 - b**2.0) / (2.0 * a * b))
+    cos_nadir = -1.0 * (c**2.0 - a**2.0 - b**2.0) / (2.0 * a * b)
+
+    # looking straight down, rounding can push the cosine just past one
+    nadir = np.arccos(np.clip(cos_nadir, -1.0, 1.0))
 
     return nadir
 
-- 
2.43.0


From 1c10b0abd2f0bc232968f38c775e0f6b682b2e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:43 +0000
Subject: [PATCH 15/22] fix: otf_to_psf centres the zero frequency of odd-sized
 OTFs

---
 src/pybsm/otf/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 5692e3a..1e7702c 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -934,7 +934,7 @@ def otf_to_psf(otf: np.ndarray, df: float, dx_out: float) -> np.ndarray:
             "OpenCV not found. Please install 'pybsm[graphics]' or 'pybsm[headless]'."
         )
     # transform the psf
-    psf = np.real(np.fft.fftshift(np.fft.ifft2(np.fft.fftshift(otf))))
+    psf = np.real(np.fft.fftshift(np.fft.ifft2(np.fft.ifftshift(otf))))
 
     # determine image space sampling
     dx_in = 1 / (otf.shape[0] * df)
-- 
2.43.0


From 161e7d3bd1994f253d25520057a934bdb15c95eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:49 +0000
Subject: [PATCH 16/22] fix: a one-row filter kernel contributes to the system
 OTF

---
 src/pybsm/otf/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 1e7702c..e46dd1b 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -1403,7 +1403,7 @@ def common_OTFs(  # noqa: N802
     otf.wav_OTF = weighted_by_wavelength(mtf_wavelengths, mtf_weights, wav_function)
 
     # filter OTF (e.g. a sharpening filter but it could be anything)
-    if sensor.filter_kernel.shape[0] > 1:
+    if sensor.filter_kernel.size > 1:
         # note that we're assuming equal ifovs in the x and y directions
         otf.filter_OTF = filter_OTF(uu, vv, sensor.filter_kernel, sensor.p_x / sensor.f)
     else:
-- 
2.43.0


From 8d03f1fb1325a530f8f2455a663a073121ed1c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:43 +0000
Subject: [PATCH 17/22] fix: img_to_reflectance refuses a single calibration
 point instead of returning nan

---
 src/pybsm/simulation/functional.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pybsm/simulation/functional.py b/src/pybsm/simulation/functional.py
index 089da12..dc7b6a5 100755
--- a/src/pybsm/simulation/functional.py
+++ b/src/pybsm/simulation/functional.py
@@ -122,11 +122,15 @@ def img_to_reflectance(
 
     :raises:
         ValueError:
-            if img, pix_values, or refl_values have a length < 2
+            if pix_values or refl_values have a length < 2
 
     :WARNING:
         Output can be nan if all input arrays have the same values.
     """
+    # a single point does not define a line (interp1d would quietly return nan)
+    if np.size(pix_values) < 2 or np.size(refl_values) < 2:
+        raise ValueError("At least two pixel values with known reflectance are required.")
+
     f = interpolate.interp1d(
         pix_values,
         refl_values,
-- 
2.43.0


From 1210d7ad0a60227cf8ac16e28e2d67f0093bb7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:20 +0000
Subject: [PATCH 18/22] fix: otf_to_psf gives rectangular OTFs the right
 spacing along each axis

---
 src/pybsm/otf/functional.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index e46dd1b..6249f65 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -936,12 +936,13 @@ def otf_to_psf(otf: np.ndarray, df: float, dx_out: float) -> np.ndarray:
     # transform the psf
     psf = np.real(np.fft.fftshift(np.fft.ifft2(np.fft.ifftshift(otf))))
 
-    # determine image space sampling
-    dx_in = 1 / (otf.shape[0] * df)
+    # determine image space sampling (an otf may be rectangular)
+    dx_in = 1 / (otf.shape[1] * df)
+    dy_in = 1 / (otf.shape[0] * df)
 
     # resample to the desired sample size
     new_x = max([1, int(psf.shape[1] * dx_in / dx_out)])
-    new_y = max([1, int(psf.shape[0] * dx_in / dx_out)])
+    new_y = max([1, int(psf.shape[0] * dy_in / dx_out)])
     psf = cv2.resize(psf, (new_x, new_y)).astype(np.float64)
 
     # ensure that the psf sums to 1
-- 
2.43.0


From e3afeda0d1b7e562331eb5c76dabeb737076452d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:26 +0000
Subject: [PATCH 19/22] fix: otf_to_psf keeps the energy of upsampled kernels
 and accepts small OTFs

---
 src/pybsm/otf/functional.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 6249f65..f996be6 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -962,10 +962,12 @@ def otf_to_psf(otf: np.ndarray, df: float, dx_out: float) -> np.ndarray:
     ]
 
     # find the support region of the blur kernel
-    for ii in np.arange(10, np.min(otf.shape), 5):
+    for ii in np.arange(10, np.max(psf.shape), 5):
         psf_out = get_middle(psf, ii)
         if psf_out.sum() > 0.95:  # note the 0.95 is heuristic (but seems to work well)
             break
+    else:
+        psf_out = psf  # no smaller window holds enough of the kernel
 
     # make up for cropped out portions of the psf
     psf_out = psf_out / psf_out.sum()  # bug fix 3 April 2020
-- 
2.43.0


From f57b60cbf088f0b0e71ce7923d02a43dbedf2d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:42 +0000
Subject: [PATCH 20/22] fix: apply_otf_to_image convolves with the blur kernel
 instead of correlating

---
 src/pybsm/otf/functional.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index f996be6..b10b55d 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -1291,8 +1291,11 @@ def apply_otf_to_image(
         )
     psf = otf_to_psf(otf, df, 2 * np.arctan(ref_gsd / 2 / ref_range))
 
-    # filter the image
-    blur_img = cv2.filter2D(ref_img, -1, psf)
+    # filter the image (filter2D correlates, so turn the kernel around its
+    # centre, which depends on the parity of the otf, to convolve; this matters
+    # if the OTF is complex)
+    anchor = tuple((k - 1 + n % 2) // 2 for k, n in zip(psf.shape[::-1], otf.shape[::-1]))
+    blur_img = cv2.filter2D(ref_img, -1, cv2.flip(psf, -1), anchor=anchor)
 
     # resample the image to the camera's ifov
     sim_img = resample_2D(blur_img, ref_gsd / ref_range, ifov)
-- 
2.43.0


From a600da91313c0cf5ef077c8e4e3630806593523d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:08 +0000
Subject: [PATCH 21/22] fix: diffusion_OTF no longer wraps 32-bit integer
 frequencies

---
 src/pybsm/otf/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index b10b55d..825c1fa 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -459,7 +459,7 @@ def diffusion_OTF(  # noqa: N802
     ) -> float:
         return 1.0 - np.exp(-alpha * ald) / (1.0 + alpha * al)
 
-    rho = np.sqrt(u**2 + v**2)
+    rho = np.sqrt(u**2.0 + v**2.0)
 
     al_rho = np.sqrt((1.0 / al0**2 + (2.0 * np.pi * rho / f) ** 2) ** (-1))
 
-- 
2.43.0


From 277236db4c8c5655efc390744289ce157d288e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:57 +0000
Subject: [PATCH 22/22] fix: filter_OTF no longer cuts off kernels wider than
 100 taps

---
 src/pybsm/otf/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 825c1fa..2143edc 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -518,8 +518,8 @@ def filter_OTF(  # noqa: N802
     """
     # most filter kernels are only a few pixels wide so we'll use zero-padding
     # to make the OTF larger.  The exact size doesn't matter too much
-    # because the result is interpolated
-    n = 100  # array size for the transform
+    # because the result is interpolated, as long as the whole kernel fits
+    n = max(100, *kernel.shape)  # array size for the transform
 
     # transform of the kernel
     xfer_fcn = np.abs(np.fft.fftshift(np.fft.fft2(kernel, [n, n])))
-- 
2.43.0

