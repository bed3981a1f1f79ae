From d6ade8bc77f2de809f43f65e8d9f9af0d326ec83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:58 +0000
Subject: [PATCH 001/109] fix: UpdateManager no longer alters user input;
 restart restores the initial parameters

---
 lenstronomy/Workflow/update_manager.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Workflow/update_manager.py b/lenstronomy/Workflow/update_manager.py
index bedbf0e..b2982a9 100644
--- a/lenstronomy/Workflow/update_manager.py
+++ b/lenstronomy/Workflow/update_manager.py
@@ -36,6 +36,8 @@ class UpdateManager(object):
         self.kwargs_model = kwargs_model
         self.kwargs_constraints = kwargs_constraints
         self.kwargs_likelihood = kwargs_likelihood
+        # the parameter settings are evolved by this class and must not alter the user input
+        kwargs_params = copy.deepcopy(kwargs_params)
 
         if kwargs_model.get("lens_model_list", None) is not None:
             (
@@ -151,7 +153,7 @@ class UpdateManager(object):
                 self._special_lower,
                 self._special_upper,
             ) = ({}, {}, {}, {}, {})
-        self._kwargs_temp = self.init_kwargs
+        self._kwargs_temp = copy.deepcopy(self.init_kwargs)
 
     # TODO: check compatibility with number of point sources provided as well as other parameter labeling
     # TODO: give raise statement if sigma value is =0
@@ -339,7 +341,7 @@ class UpdateManager(object):
 
         :return:
         """
-        self._kwargs_temp = self.init_kwargs
+        self._kwargs_temp = copy.deepcopy(self.init_kwargs)
 
     @property
     def parameter_state(self):
-- 
2.43.0


From 5e6c69f5bf85e6a2a892974a7d6e8260a8045541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:58 +0000
Subject: [PATCH 002/109] fix: keep_frame_fixed stores a copy of the parameter
 state instead of an alias

---
 lenstronomy/Workflow/multi_band_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Workflow/multi_band_manager.py b/lenstronomy/Workflow/multi_band_manager.py
index f51bfa8..86ea325 100644
--- a/lenstronomy/Workflow/multi_band_manager.py
+++ b/lenstronomy/Workflow/multi_band_manager.py
@@ -67,7 +67,9 @@ class MultiBandUpdateManager(UpdateManager):
         for j in frame_list_fixed:
             if self._index_lens_model_list[j] is not None:
                 for i in self._index_lens_model_list[j]:
-                    self._lens_fixed[i] = self._kwargs_temp["kwargs_lens"][i]
+                    self._lens_fixed[i] = copy.deepcopy(
+                        self._kwargs_temp["kwargs_lens"][i]
+                    )
 
     def undo_frame_fixed(self, frame_list):
         """
-- 
2.43.0


From 652493d7e5a2a48f730cca948475fc349174958c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:17 +0000
Subject: [PATCH 003/109] fix: SinglePlane applies the source-redshift scaling
 when a single component is selected

---
 lenstronomy/LensModel/single_plane.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/LensModel/single_plane.py b/lenstronomy/LensModel/single_plane.py
index 81aa8a6..60ffe20 100644
--- a/lenstronomy/LensModel/single_plane.py
+++ b/lenstronomy/LensModel/single_plane.py
@@ -93,7 +93,8 @@ class SinglePlane(ProfileListBase):
 
         # NOTE: jax arrays are converted back into regular numpy arrays in cases where use_jax is True.
         if isinstance(k, int):
-            return np.asarray(self.func_list[k].function(x, y, **kwargs[k]))
+            potential = self.func_list[k].function(x, y, **kwargs[k])
+            return np.asarray(potential) * self._alpha_scaling
         bool_list = self._bool_list(k)
         potential = np.zeros_like(x)
         for i, func in enumerate(self.func_list):
@@ -118,7 +119,10 @@ class SinglePlane(ProfileListBase):
         # NOTE: jax arrays are converted back into regular numpy arrays in cases where use_jax is True.
         if isinstance(k, int):
             f_x, f_y = self.func_list[k].derivatives(x, y, **kwargs[k])
-            return np.asarray(f_x), np.asarray(f_y)
+            return (
+                np.asarray(f_x) * self._alpha_scaling,
+                np.asarray(f_y) * self._alpha_scaling,
+            )
         bool_list = self._bool_list(k)
         f_x, f_y = np.zeros_like(x), np.zeros_like(x)
         for i, func in enumerate(self.func_list):
@@ -151,10 +155,10 @@ class SinglePlane(ProfileListBase):
         if isinstance(k, int):
             f_xx, f_xy, f_yx, f_yy = self.func_list[k].hessian(x, y, **kwargs[k])
             return (
-                np.asarray(f_xx),
-                np.asarray(f_xy),
-                np.asarray(f_yx),
-                np.asarray(f_yy),
+                np.asarray(f_xx) * self._alpha_scaling,
+                np.asarray(f_xy) * self._alpha_scaling,
+                np.asarray(f_yx) * self._alpha_scaling,
+                np.asarray(f_yy) * self._alpha_scaling,
             )
 
         bool_list = self._bool_list(k)
-- 
2.43.0


From fad5bbc257123d8ad41d2d241b9a9d9dd8c45574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:17 +0000
Subject: [PATCH 004/109] fix: hessian_z1z2 starts the ray at theta_y, not
 theta_x, in the y-direction

---
 lenstronomy/LensModel/MultiPlane/multi_plane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/MultiPlane/multi_plane.py b/lenstronomy/LensModel/MultiPlane/multi_plane.py
index 626d520..ee3efb6 100644
--- a/lenstronomy/LensModel/MultiPlane/multi_plane.py
+++ b/lenstronomy/LensModel/MultiPlane/multi_plane.py
@@ -586,7 +586,7 @@ class MultiPlane(object):
 
         T_0z1 = self._multi_plane_base._cosmo_bkg.T_xy(0, z1)
         x = theta_x * T_0z1
-        y = theta_x * T_0z1
+        y = theta_y * T_0z1
         x_s0, y_s0, _, _ = self.ray_shooting_partial_comoving(
             x=x,
             y=y,
-- 
2.43.0


From 8528152bcecba900e2195537662ec46ed696400e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:17 +0000
Subject: [PATCH 005/109] fix: time delay only counts the deflectors in front
 of the source

---
 lenstronomy/LensModel/MultiPlane/multi_plane_base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LensModel/MultiPlane/multi_plane_base.py b/lenstronomy/LensModel/MultiPlane/multi_plane_base.py
index deb1c8f..959c94b 100644
--- a/lenstronomy/LensModel/MultiPlane/multi_plane_base.py
+++ b/lenstronomy/LensModel/MultiPlane/multi_plane_base.py
@@ -353,11 +353,12 @@ class MultiPlaneBase(ProfileListBase):
 
         # NOTE: jax arrays are converted back into regular numpy arrays in cases where use_jax is True.
 
-        i = 0
+        i_last = None
         z_lens_last = 0
         for i, index in enumerate(self._sorted_redshift_index):
             z_lens = self._lens_redshift_list[index]
             if z_lens <= z_stop:
+                i_last = i
                 T_ij = self._T_ij_list[i]
                 x_new, y_new = self._ray_step(x, y, alpha_x, alpha_y, T_ij)
                 if i == 0:
@@ -379,6 +380,9 @@ class MultiPlaneBase(ProfileListBase):
 
                 dt_grav += dt_grav_new
                 z_lens_last = z_lens
+        if i_last is None:
+            # no deflector in front of z_stop: the light travels on a straight path
+            return np.asarray(dt_geo), np.asarray(dt_grav)
         if T_ij_end is None:
             T_ij_end = self._cosmo_bkg.T_xy(z_lens_last, z_stop)
         T_ij = T_ij_end
@@ -386,7 +390,7 @@ class MultiPlaneBase(ProfileListBase):
         if T_z_stop is None:
             T_z_stop = self._cosmo_bkg.T_xy(0, z_stop)
         T_j = T_z_stop
-        T_i = self._T_z_list[i]
+        T_i = self._T_z_list[i_last]
         beta_i_x, beta_i_y = x / T_i, y / T_i
         beta_j_x, beta_j_y = x_new / T_j, y_new / T_j
         dt_geo_new = self._geometrical_delay(
-- 
2.43.0


From 160d5083a66da6d68f8c75e2329aab6d119bebd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:41 +0000
Subject: [PATCH 006/109] fix: partial evaluation of multi-source-plane light
 selects components by their own index

---
 lenstronomy/ImSim/image2source_mapping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/ImSim/image2source_mapping.py b/lenstronomy/ImSim/image2source_mapping.py
index 2cb55e3..da5f8d1 100644
--- a/lenstronomy/ImSim/image2source_mapping.py
+++ b/lenstronomy/ImSim/image2source_mapping.py
@@ -269,7 +269,7 @@ class Image2SourceMapping(object):
                     scale_factor = self._deflection_scaling_list[i]
                     x_source = x - x_alpha * scale_factor
                     y_source = y - y_alpha * scale_factor
-                    if k is None or k == i:
+                    if k is None or i in np.atleast_1d(k):
                         flux += self._light_model.surface_brightness(
                             x_source, y_source, kwargs_source, k=i
                         )
@@ -301,7 +301,7 @@ class Image2SourceMapping(object):
                             T_ij_end=T_ij_end,
                         )
 
-                    if k is None or k == i:
+                    if k is None or index_source in np.atleast_1d(k):
                         flux += self._light_model.surface_brightness(
                             x_source, y_source, kwargs_source, k=index_source
                         )
-- 
2.43.0


From 814af1c4026cb042eb8e1bda8f497a72ad7ef35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:13 +0000
Subject: [PATCH 007/109] fix: sources in front of the lens model's source
 redshift are ray-traced to their own redshift

---
 lenstronomy/ImSim/image2source_mapping.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/ImSim/image2source_mapping.py b/lenstronomy/ImSim/image2source_mapping.py
index da5f8d1..5b4c0b6 100644
--- a/lenstronomy/ImSim/image2source_mapping.py
+++ b/lenstronomy/ImSim/image2source_mapping.py
@@ -87,8 +87,9 @@ class Image2SourceMapping(object):
                         "the one specified in the lens model."
                     )
 
-            # turn off multi source plane if all sources are at the same redshift
-            if len(list(set(self._source_redshift_list))) == 1:
+            # turn off multi source plane if all sources are at the source redshift of
+            # the lens model
+            if set(self._source_redshift_list) == {self._lens_model.z_source}:
                 self._multi_source_plane = False
                 self._sorted_source_redshift_index = [0]
             else:
-- 
2.43.0


From 508085e4198ca592d0b726c1071ba2ba28fdfe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:38 +0000
Subject: [PATCH 008/109] fix: PSF.set_pixel_size discards all kernels derived
 from the previous pixel size

---
 lenstronomy/Data/psf.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/Data/psf.py b/lenstronomy/Data/psf.py
index 6602610..ba660b3 100644
--- a/lenstronomy/Data/psf.py
+++ b/lenstronomy/Data/psf.py
@@ -245,10 +245,14 @@ class PSF(object):
         """
         self._pixel_size = delta_pix
         if self.psf_type == "GAUSSIAN":
-            try:
-                del self._kernel_point_source
-            except:
-                pass
+            # kernels derived from the previous pixel size are not valid anymore
+            for name in (
+                "_kernel_point_source",
+                "_kernel_pixel",
+                "_kernel_point_source_supersampled",
+            ):
+                if hasattr(self, name):
+                    delattr(self, name)
 
     @property
     def psf_variance_map(self):
-- 
2.43.0


From 3dbc568ae0c5fa4808910755756b06fbf346e82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:38 +0000
Subject: [PATCH 009/109] fix: PSF returns the same supersampled kernel
 regardless of which factors were requested before

---
 lenstronomy/Data/psf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/Data/psf.py b/lenstronomy/Data/psf.py
index ba660b3..1c2be6e 100644
--- a/lenstronomy/Data/psf.py
+++ b/lenstronomy/Data/psf.py
@@ -80,6 +80,7 @@ class PSF(object):
                 kernel_point_source_ /= np.sum(kernel_point_source_)
             if point_source_supersampling_factor > 1:
                 self._kernel_point_source_supersampled = kernel_point_source_
+                self._kernel_point_source_supersampled_init = kernel_point_source_
                 self._point_source_supersampling_factor = (
                     point_source_supersampling_factor
                 )
@@ -177,12 +178,11 @@ class PSF(object):
         ):
             kernel_point_source_supersampled = self._kernel_point_source_supersampled
             return kernel_point_source_supersampled
-        if hasattr(self, "_kernel_point_source_init") and hasattr(
+        if hasattr(self, "_kernel_point_source_supersampled_init") and hasattr(
             self, "_point_source_supersampling_factor_init"
         ):
             if self._point_source_supersampling_factor_init == supersampling_factor:
-                kernel_point_source_supersampled = self._kernel_point_source_init
-                return kernel_point_source_supersampled
+                return self._kernel_point_source_supersampled_init
 
         if self.psf_type == "GAUSSIAN":
             sigma = util.fwhm2sigma(self._fwhm)
-- 
2.43.0


From 4bf3bf83c64e19e4307e5b74d43a0650befa5414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:38 +0000
Subject: [PATCH 010/109] fix: ImageData.update_data rejects data with either
 axis of different length

---
 lenstronomy/Data/imaging_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Data/imaging_data.py b/lenstronomy/Data/imaging_data.py
index 88a2ff3..ec1e2b5 100644
--- a/lenstronomy/Data/imaging_data.py
+++ b/lenstronomy/Data/imaging_data.py
@@ -142,7 +142,7 @@ class ImageData(PixelGrid, ImageNoise, AngularSensitivity):
         :return: None
         """
         ny, nx = np.shape(image_data)
-        if not self._nx == nx and not self._ny == ny:
+        if self._nx != nx or self._ny != ny:
             raise ValueError(
                 "shape of new data %s %s must equal old data %s %s!"
                 % (nx, ny, self._nx, self._ny)
-- 
2.43.0


From a449a05a2c65495898897413d9620bdd2140c995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:38 +0000
Subject: [PATCH 011/109] fix: shifting the coordinate system of a pixel grid
 also shifts the pixel coordinates

---
 lenstronomy/Data/coord_transforms.py |  6 ++++--
 lenstronomy/Data/pixel_grid.py       | 11 +++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Data/coord_transforms.py b/lenstronomy/Data/coord_transforms.py
index aa19cec..6276044 100644
--- a/lenstronomy/Data/coord_transforms.py
+++ b/lenstronomy/Data/coord_transforms.py
@@ -187,8 +187,10 @@ class Coordinates(object):
             dec_shift -= self._dec_at_xy_0
         else:
             ra_shift, dec_shift = x_shift, y_shift
-        self._ra_at_xy_0 += ra_shift
-        self._dec_at_xy_0 += dec_shift
+        self._ra_at_xy_0 = self._ra_at_xy_0 + ra_shift
+        self._dec_at_xy_0 = self._dec_at_xy_0 + dec_shift
+        self._ra_at_xy_0_ref = self._ra_at_xy_0_ref + ra_shift
+        self._dec_at_xy_0_ref = self._dec_at_xy_0_ref + dec_shift
         self._x_at_radec_0, self._y_at_radec_0 = util.map_coord2pix(
             -self._ra_at_xy_0, -self._dec_at_xy_0, 0, 0, self._transform_angle2pix
         )
diff --git a/lenstronomy/Data/pixel_grid.py b/lenstronomy/Data/pixel_grid.py
index d36b7c2..c271994 100644
--- a/lenstronomy/Data/pixel_grid.py
+++ b/lenstronomy/Data/pixel_grid.py
@@ -53,6 +53,17 @@ class PixelGrid(Coordinates):
             self._x_grid, self._y_grid = self.coordinate_grid(self._nx, self._ny)
         return updated_bool
 
+    def shift_coordinate_system(self, x_shift, y_shift, pixel_unit=False):
+        """Shifts the coordinate system and the pixel grid with it.
+
+        :param x_shift: shift in x (or RA)
+        :param y_shift: shift in y (or DEC)
+        :param pixel_unit: bool, if True, units of pixels in input, otherwise RA/DEC
+        :return: updated data class with change in coordinate system
+        """
+        Coordinates.shift_coordinate_system(self, x_shift, y_shift, pixel_unit)
+        self._x_grid, self._y_grid = self.coordinate_grid(self._nx, self._ny)
+
     @property
     def num_pixel(self):
         """
-- 
2.43.0


From 304b79b503ed8b8e9101b00dd0984916a4119b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:38 +0000
Subject: [PATCH 012/109] fix: SERSIC_ELLIPSE_Q_PHI counts its linear parameter

---
 lenstronomy/LightModel/linear_basis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/LightModel/linear_basis.py b/lenstronomy/LightModel/linear_basis.py
index 8e65696..2c5fd52 100644
--- a/lenstronomy/LightModel/linear_basis.py
+++ b/lenstronomy/LightModel/linear_basis.py
@@ -142,6 +142,7 @@ class LinearBasis(LightModelBase):
                 "SERSIC",
                 "SERSIC_ELLIPSE",
                 "SERSIC_ELLIPSE_FLEXION",
+                "SERSIC_ELLIPSE_Q_PHI",
                 "TRIPLE_CHAMELEON",
                 "UNIFORM",
             ]:
-- 
2.43.0


From ba9743c998d1a9410945a8e7e7cf45abd6edf0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:45 +0000
Subject: [PATCH 013/109] fix: partial supersampled grid marks the sub-pixels
 of the selected pixels

---
 lenstronomy/ImSim/Numerics/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/Numerics/grid.py b/lenstronomy/ImSim/Numerics/grid.py
index df0cfce..c4d329b 100644
--- a/lenstronomy/ImSim/Numerics/grid.py
+++ b/lenstronomy/ImSim/Numerics/grid.py
@@ -284,7 +284,7 @@ class RegularGrid(Coordinates1D):
         :return: 1d array of equivalent mask in subgrid resolution
         """
         idex_sub = np.repeat(idex_mask, subgrid_res, axis=0)
-        idex_sub = util.array2image(idex_sub, nx=nx, ny=ny * subgrid_res)
+        idex_sub = util.array2image(idex_sub, nx=nx * subgrid_res, ny=ny)
         idex_sub = np.repeat(idex_sub, subgrid_res, axis=0)
         idex_sub = util.image2array(idex_sub)
         return idex_sub
-- 
2.43.0


From b61a514268666c7a61e22b70d3fea36851bc5d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:45 +0000
Subject: [PATCH 014/109] fix: sub-frame of the evaluated pixels keeps its
 position in the image and may be rectangular

---
 lenstronomy/ImSim/Numerics/grid.py              |  2 +-
 lenstronomy/ImSim/Numerics/numerics_subframe.py | 14 +++++++-------
 lenstronomy/Util/util.py                        | 14 ++++++++------
 3 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/lenstronomy/ImSim/Numerics/grid.py b/lenstronomy/ImSim/Numerics/grid.py
index c4d329b..307c457 100644
--- a/lenstronomy/ImSim/Numerics/grid.py
+++ b/lenstronomy/ImSim/Numerics/grid.py
@@ -218,7 +218,7 @@ class RegularGrid(Coordinates1D):
         )
 
         x_grid_sub, y_grid_sub = util.make_subgrid(
-            self._x_grid, self._y_grid, self._supersampling_factor
+            self._x_grid, self._y_grid, self._supersampling_factor, nx=nx, ny=ny
         )
         self._ra_subgrid = x_grid_sub[self._compute_indexes]
         self._dec_subgrid = y_grid_sub[self._compute_indexes]
diff --git a/lenstronomy/ImSim/Numerics/numerics_subframe.py b/lenstronomy/ImSim/Numerics/numerics_subframe.py
index 2d450ff..21aaaa3 100644
--- a/lenstronomy/ImSim/Numerics/numerics_subframe.py
+++ b/lenstronomy/ImSim/Numerics/numerics_subframe.py
@@ -132,10 +132,10 @@ class NumericsSubFrame(PointSourceRendering):
         :return: 2d numpy array of size of image with added zeros on their edges
         """
         if self._subframe_calc is True:
-            image = np.zeros((self._nx, self._ny))
+            image = np.zeros((self._ny, self._nx))
             image[
-                self._x_min_sub : self._x_max_sub + 1,
                 self._y_min_sub : self._y_max_sub + 1,
+                self._x_min_sub : self._x_max_sub + 1,
             ] = image_sub_frame
         else:
             image = image_sub_frame
@@ -149,10 +149,10 @@ class NumericsSubFrame(PointSourceRendering):
             self._x_max_sub, self._y_max_sub = self._nx, self._ny
         else:
             self._subframe_calc = True
-            self._x_min_sub = np.min(np.where(flux_evaluate_indexes)[0])
-            self._x_max_sub = np.max(np.where(flux_evaluate_indexes)[0])
-            self._y_min_sub = np.min(np.where(flux_evaluate_indexes)[1])
-            self._y_max_sub = np.max(np.where(flux_evaluate_indexes)[1])
+            self._x_min_sub = np.min(np.where(flux_evaluate_indexes)[1])
+            self._x_max_sub = np.max(np.where(flux_evaluate_indexes)[1])
+            self._y_min_sub = np.min(np.where(flux_evaluate_indexes)[0])
+            self._y_max_sub = np.max(np.where(flux_evaluate_indexes)[0])
 
     def _cut_frame(self, image):
         """
@@ -162,8 +162,8 @@ class NumericsSubFrame(PointSourceRendering):
         """
         if self._subframe_calc is True and image is not None:
             return image[
-                self._x_min_sub : self._x_max_sub + 1,
                 self._y_min_sub : self._y_max_sub + 1,
+                self._x_min_sub : self._x_max_sub + 1,
             ]
         else:
             return image
diff --git a/lenstronomy/Util/util.py b/lenstronomy/Util/util.py
index 45d6ada..c5a814f 100644
--- a/lenstronomy/Util/util.py
+++ b/lenstronomy/Util/util.py
@@ -689,24 +689,26 @@ def hyper2F2_array(a, b, c, d, x):
 
 
 @export
-def make_subgrid(ra_coord, dec_coord, subgrid_res=2):
+def make_subgrid(ra_coord, dec_coord, subgrid_res=2, nx=0, ny=0):
     """Return a grid with subgrid resolution.
 
     :param ra_coord:
     :param dec_coord:
     :param subgrid_res:
+    :param nx: number of pixels in x-axis (optional, required for non-square grids)
+    :param ny: number of pixels in y-axis (optional, required for non-square grids)
     :return:
     """
-    ra_array = array2image(ra_coord)
-    dec_array = array2image(dec_coord)
-    n = len(ra_array)
+    ra_array = array2image(ra_coord, nx, ny)
+    dec_array = array2image(dec_coord, nx, ny)
+    n_y, n_x = np.shape(ra_array)
     d_ra_x = ra_array[0][1] - ra_array[0][0]
     d_ra_y = ra_array[1][0] - ra_array[0][0]
     d_dec_x = dec_array[0][1] - dec_array[0][0]
     d_dec_y = dec_array[1][0] - dec_array[0][0]
 
-    ra_array_new = np.zeros((n * subgrid_res, n * subgrid_res))
-    dec_array_new = np.zeros((n * subgrid_res, n * subgrid_res))
+    ra_array_new = np.zeros((n_y * subgrid_res, n_x * subgrid_res))
+    dec_array_new = np.zeros((n_y * subgrid_res, n_x * subgrid_res))
     for i in range(0, subgrid_res):
         for j in range(0, subgrid_res):
             ra_array_new[i::subgrid_res, j::subgrid_res] = (
-- 
2.43.0


From f8f207caf5997c725d8b2e7a2c83ac66ab4a0486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:45 +0000
Subject: [PATCH 015/109] fix: adaptive grid accepts the mask of evaluated
 pixels

---
 lenstronomy/ImSim/Numerics/grid.py     | 6 ++++--
 lenstronomy/ImSim/Numerics/numerics.py | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/ImSim/Numerics/grid.py b/lenstronomy/ImSim/Numerics/grid.py
index 307c457..b0b4ff9 100644
--- a/lenstronomy/ImSim/Numerics/grid.py
+++ b/lenstronomy/ImSim/Numerics/grid.py
@@ -41,6 +41,8 @@ class AdaptiveGrid(Coordinates1D):
         self._x_grid, self._y_grid = self.coordinate_grid(nx, ny)
         if flux_evaluate_indexes is None:
             flux_evaluate_indexes = np.ones_like(self._x_grid, dtype=bool)
+        else:
+            flux_evaluate_indexes = util.image2array(flux_evaluate_indexes)
         supersampled_indexes1d = util.image2array(supersampling_indexes)
         self._high_res_indexes1d = (supersampled_indexes1d) & (flux_evaluate_indexes)
         self._low_res_indexes1d = (np.invert(supersampled_indexes1d)) & (
@@ -103,7 +105,7 @@ class AdaptiveGrid(Coordinates1D):
         array[self._low_res_indexes1d] = low_res_values
         array_low_res_partial = self._average_subgrid(supersampled_values)
         array[self._high_res_indexes1d] = array_low_res_partial
-        return util.array2image(array)
+        return util.array2image(array, self._nx, self._ny)
 
     def _high_res_image(self, supersampled_values):
         """
@@ -113,8 +115,8 @@ class AdaptiveGrid(Coordinates1D):
         """
         high_res = np.zeros(
             (
-                self._nx * self._supersampling_factor,
                 self._ny * self._supersampling_factor,
+                self._nx * self._supersampling_factor,
             )
         )
         count = 0
diff --git a/lenstronomy/ImSim/Numerics/numerics.py b/lenstronomy/ImSim/Numerics/numerics.py
index 5269ee7..8b3dc4e 100644
--- a/lenstronomy/ImSim/Numerics/numerics.py
+++ b/lenstronomy/ImSim/Numerics/numerics.py
@@ -80,7 +80,7 @@ class Numerics(PointSourceRendering):
         transform_pix2angle = pixel_grid.transform_pix2angle
         ra_at_xy_0, dec_at_xy_0 = pixel_grid.radec_at_xy_0
         if supersampled_indexes is None:
-            supersampled_indexes = np.zeros((nx, ny), dtype=bool)
+            supersampled_indexes = np.zeros((ny, nx), dtype=bool)
         if (
             compute_mode == "adaptive"
         ):  # or (compute_mode == 'regular' and supersampling_convolution is False and supersampling_factor > 1):
-- 
2.43.0


From 213a0c7ca05f13cec28ff0b9aeecd33aefd43397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:40 +0000
Subject: [PATCH 016/109] fix: SourcePositions.image_amplitude does not alter
 the amplitudes of the user

---
 lenstronomy/PointSource/Types/source_position.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lenstronomy/PointSource/Types/source_position.py b/lenstronomy/PointSource/Types/source_position.py
index 4a82889..fcaa570 100644
--- a/lenstronomy/PointSource/Types/source_position.py
+++ b/lenstronomy/PointSource/Types/source_position.py
@@ -110,8 +110,7 @@ class SourcePositions(PSBase):
                 point_amp = _expand_to_array(point_amp, len(x_pos))
         mag_pert = kwargs_ps.get("mag_pert", 1)
         mag_pert = _shrink_array(mag_pert, len(point_amp))
-        point_amp *= np.array(mag_pert)
-        return np.array(point_amp)
+        return np.array(point_amp) * np.array(mag_pert)
 
     def source_amplitude(self, kwargs_ps, kwargs_lens=None):
         """Intrinsic brightness amplitude of point source When brightnesses are defined
-- 
2.43.0


From 8543250f29bd9e9a60f4c3fb127742efb749084a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:40 +0000
Subject: [PATCH 017/109] fix: intrinsic amplitude of SOURCE_POSITION uses the
 absolute magnification

---
 lenstronomy/PointSource/Types/source_position.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/PointSource/Types/source_position.py b/lenstronomy/PointSource/Types/source_position.py
index fcaa570..cbf83bd 100644
--- a/lenstronomy/PointSource/Types/source_position.py
+++ b/lenstronomy/PointSource/Types/source_position.py
@@ -129,5 +129,5 @@ class SourcePositions(PSBase):
             ra_image, dec_image = self.image_position(kwargs_ps, kwargs_lens)
             mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
             point_amp = kwargs_ps["point_amp"]
-            source_amp = np.mean(np.array(point_amp) / np.array(mag))
+            source_amp = np.mean(np.array(point_amp) / np.array(np.abs(mag)))
         return np.array(source_amp)
-- 
2.43.0


From 7cb973ed97b4d2287f5f63b3639ea18f022353b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:40 +0000
Subject: [PATCH 018/109] fix: SourcePositions.image_amplitude passes the
 settings of the lens equation solver on

---
 lenstronomy/PointSource/Types/source_position.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lenstronomy/PointSource/Types/source_position.py b/lenstronomy/PointSource/Types/source_position.py
index cbf83bd..aa6224b 100644
--- a/lenstronomy/PointSource/Types/source_position.py
+++ b/lenstronomy/PointSource/Types/source_position.py
@@ -94,13 +94,11 @@ class SourcePositions(PSBase):
             if x_pos is not None and y_pos is not None:
                 ra_image, dec_image = x_pos, y_pos
             else:
-                if kwargs_lens_eqn_solver is None:
-                    kwargs_lens_eqn_solver = {}
                 ra_image, dec_image = self.image_position(
                     kwargs_ps,
                     kwargs_lens=kwargs_lens,
                     magnification_limit=magnification_limit,
-                    **kwargs_lens_eqn_solver
+                    kwargs_lens_eqn_solver=kwargs_lens_eqn_solver,
                 )
             mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
             point_amp = kwargs_ps["source_amp"] * np.abs(mag)
-- 
2.43.0


From 8a6ee0f57a5c30191fa8c9766d23c9c6a2f180c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:40 +0000
Subject: [PATCH 019/109] fix: width_search_factor widens the search window for
 point source images

---
 lenstronomy/PointSource/point_source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index dc06ee5..68a0b86 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -269,8 +269,8 @@ class PointSource(object):
         """
         x_image_list = []
         y_image_list = []
-        if width_search_factor != 1 and hasattr(
-            self._kwargs_lens_eqn_solver, "search_window"
+        if (
+            width_search_factor != 1 and "search_window" in self._kwargs_lens_eqn_solver
         ):
             kwargs_lens_eqn_solver = copy.deepcopy(self._kwargs_lens_eqn_solver)
             kwargs_lens_eqn_solver["search_window"] *= width_search_factor
-- 
2.43.0


From f109ea2cfc4107aae170f700048be8e97b1f0c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:40 +0000
Subject: [PATCH 020/109] fix: point source amplitudes respect the
 magnification limit of the image positions

---
 lenstronomy/PointSource/point_source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index 68a0b86..167a2e3 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -372,6 +372,7 @@ class PointSource(object):
                 image_amp = model.image_amplitude(
                     kwargs_ps=kwargs_ps[i],
                     kwargs_lens=kwargs_lens,
+                    magnification_limit=self._magnification_limit,
                     kwargs_lens_eqn_solver=self._kwargs_lens_eqn_solver,
                 )
                 if self._flux_from_point_source_list[i]:
-- 
2.43.0


From 8654db7b9645192b18267bafc876be7a7c7a5e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:40 +0000
Subject: [PATCH 021/109] fix: point source responses and position checks use
 the redshift of the point source

---
 lenstronomy/PointSource/point_source.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index 167a2e3..eeab98c 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -424,6 +424,7 @@ class PointSource(object):
                     if with_amp:
                         mag = self.image_amplitude(kwargs_ps, kwargs_lens, k=i)[0]
                     else:
+                        self._lens_model.change_source_redshift(self._redshift_list[i])
                         mag = self._lens_model.magnification(x_pos, y_pos, kwargs_lens)
                         mag = np.abs(mag)
                     amp.append(list(mag))
@@ -499,7 +500,7 @@ class PointSource(object):
             if model in ["LENSED_POSITION", "SOURCE_POSITION"]:
                 x_pos = x_image_list[i]
                 y_pos = y_image_list[i]
-                # TODO: ray-trace to specific source redshift
+                self._lens_model.change_source_redshift(self._redshift_list[i])
                 x_source, y_source = self._lens_model.ray_shooting(
                     x_pos, y_pos, kwargs_lens
                 )
-- 
2.43.0


From b6f7561bbea72d90fbc1ca02cf955e9a6ac26ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:40 +0000
Subject: [PATCH 022/109] fix: PointSource keeps its own copy of the lens
 equation solver settings

---
 lenstronomy/PointSource/point_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index eeab98c..f5c33d6 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -127,7 +127,7 @@ class PointSource(object):
                 )
         if kwargs_lens_eqn_solver is None:
             kwargs_lens_eqn_solver = {}
-        self._kwargs_lens_eqn_solver = kwargs_lens_eqn_solver
+        self._kwargs_lens_eqn_solver = dict(kwargs_lens_eqn_solver)
         self._magnification_limit = magnification_limit
         self._save_cache = save_cache
 
-- 
2.43.0


From 78ca8c344eaabee9882d29096fcf6a9579704eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:23 +0000
Subject: [PATCH 023/109] fix: set_dynamic restores the position convention
 chosen at initialization

---
 lenstronomy/LensModel/MultiPlane/multi_plane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/MultiPlane/multi_plane.py b/lenstronomy/LensModel/MultiPlane/multi_plane.py
index ee3efb6..6ca8122 100644
--- a/lenstronomy/LensModel/MultiPlane/multi_plane.py
+++ b/lenstronomy/LensModel/MultiPlane/multi_plane.py
@@ -691,7 +691,7 @@ class MultiPlane(object):
 
         :return:
         """
-        self.ignore_observed_positions = False
+        self.ignore_observed_positions = self.kwargs_class["ignore_observed_positions"]
         self._multi_plane_base.set_dynamic()
 
     @staticmethod
-- 
2.43.0


From 8e94aae212e472a50c9f3c27a7df417d08b1ceae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:23 +0000
Subject: [PATCH 024/109] fix: changing the source redshift or cosmology keeps
 the static multi-plane position convention

---
 lenstronomy/LensModel/lens_model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lenstronomy/LensModel/lens_model.py b/lenstronomy/LensModel/lens_model.py
index 61dd42e..0900c99 100644
--- a/lenstronomy/LensModel/lens_model.py
+++ b/lenstronomy/LensModel/lens_model.py
@@ -618,7 +618,10 @@ class LensModel(object):
                 # TODO: is it possible to not re-initialize it for performance improvements?
                 kwargs_lens_class = self.lens_model.kwargs_class
                 kwargs_lens_class["z_source"] = z_source
+                ignore_observed_positions = self.lens_model.ignore_observed_positions
                 self.lens_model = MultiPlane(**kwargs_lens_class)
+                # keep the position convention when in static mode
+                self.lens_model.ignore_observed_positions = ignore_observed_positions
         else:
             if self._los_effects is True:
                 raise NotImplementedError(
@@ -666,7 +669,10 @@ class LensModel(object):
                 # TODO: is it possible to not re-initialize it for performance improvements?
                 kwargs_lens_class = self.lens_model.kwargs_class
                 kwargs_lens_class["cosmo"] = cosmo
+                ignore_observed_positions = self.lens_model.ignore_observed_positions
                 self.lens_model = MultiPlane(**kwargs_lens_class)
+                # keep the position convention when in static mode
+                self.lens_model.ignore_observed_positions = ignore_observed_positions
         else:
             if self.z_lens is not None and self.z_source is not None:
                 alpha_scaling = self._lensCosmo.beta_double_source_plane(
-- 
2.43.0


From a8fc3ec07d3815eff57219a117162556591191d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:54 +0000
Subject: [PATCH 025/109] fix: joint linear inversion evaluates the point
 source errors with the special parameters

---
 lenstronomy/ImSim/MultiBand/joint_linear.py                 | 4 +++-
 lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/ImSim/MultiBand/joint_linear.py b/lenstronomy/ImSim/MultiBand/joint_linear.py
index 3573b02..870126d 100644
--- a/lenstronomy/ImSim/MultiBand/joint_linear.py
+++ b/lenstronomy/ImSim/MultiBand/joint_linear.py
@@ -71,7 +71,9 @@ class JointLinear(MultiLinear):
             kwargs_extinction,
             kwargs_special,
         )
-        C_D_response, model_error_list = self.error_response(kwargs_lens, kwargs_ps)
+        C_D_response, model_error_list = self.error_response(
+            kwargs_lens, kwargs_ps, kwargs_special=kwargs_special
+        )
         d = self.data_response
         param, cov_param, wls_model = de_lens.get_param_WLS(
             A.T, 1 / C_D_response, d, inv_bool=inv_bool
diff --git a/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py b/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
index 96a52dc..43cf3c8 100644
--- a/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
+++ b/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
@@ -102,7 +102,9 @@ class JointLinear_VaryBG(MultiLinear):
             kwargs_extinction,
             kwargs_special,
         )
-        C_D_response, model_error_list = self.error_response(kwargs_lens, kwargs_ps)
+        C_D_response, model_error_list = self.error_response(
+            kwargs_lens, kwargs_ps, kwargs_special=kwargs_special
+        )
         d = self.data_response
         param, cov_param, wls_model = de_lens.get_param_WLS(
             A.T, 1 / C_D_response, d, inv_bool=inv_bool
-- 
2.43.0


From 7a5597fce8ce8083ec50486007688d4b11458e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:54 +0000
Subject: [PATCH 026/109] fix: joint linear likelihood checks the sign of the
 amplitudes of the linear solution

---
 lenstronomy/ImSim/MultiBand/joint_linear.py         | 13 ++++++++++++-
 .../ImSim/MultiBand/joint_linear_vary_background.py | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/ImSim/MultiBand/joint_linear.py b/lenstronomy/ImSim/MultiBand/joint_linear.py
index 870126d..1196989 100644
--- a/lenstronomy/ImSim/MultiBand/joint_linear.py
+++ b/lenstronomy/ImSim/MultiBand/joint_linear.py
@@ -1,6 +1,7 @@
 from lenstronomy.ImSim.MultiBand.multi_linear import MultiLinear
 import lenstronomy.ImSim.de_lens as de_lens
 
+import copy
 import numpy as np
 
 __all__ = ["JointLinear"]
@@ -220,8 +221,18 @@ class JointLinear(MultiLinear):
             marg_const = de_lens.marginalization_new(cov_matrix, d_prior=linear_prior)
             logL += marg_const
         if check_positive_flux is True and self._num_bands > 0:
+            _, kwargs_source_, kwargs_lens_light_, kwargs_ps_ = (
+                self.update_linear_kwargs(
+                    param,
+                    0,
+                    copy.deepcopy(kwargs_lens),
+                    copy.deepcopy(kwargs_source),
+                    copy.deepcopy(kwargs_lens_light),
+                    copy.deepcopy(kwargs_ps),
+                )
+            )
             bool_ = self._image_model_list[0].check_positive_flux(
-                kwargs_source, kwargs_lens_light, kwargs_ps
+                kwargs_source_, kwargs_lens_light_, kwargs_ps_
             )
             if bool_ is False:
                 logL -= 10**5
diff --git a/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py b/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
index 43cf3c8..9300ab2 100644
--- a/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
+++ b/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
@@ -1,6 +1,7 @@
 from lenstronomy.ImSim.MultiBand.multi_linear import MultiLinear
 import lenstronomy.ImSim.de_lens as de_lens
 
+import copy
 import numpy as np
 
 __all__ = ["JointLinear_VaryBG"]
@@ -257,8 +258,18 @@ class JointLinear_VaryBG(MultiLinear):
             marg_const = de_lens.marginalization_new(cov_matrix, d_prior=linear_prior)
             logL += marg_const
         if check_positive_flux is True and self._num_bands > 0:
+            _, kwargs_source_, kwargs_lens_light_, kwargs_ps_ = (
+                self.update_linear_kwargs(
+                    param,
+                    0,
+                    copy.deepcopy(kwargs_lens),
+                    copy.deepcopy(kwargs_source),
+                    copy.deepcopy(kwargs_lens_light),
+                    copy.deepcopy(kwargs_ps),
+                )
+            )
             bool_ = self._image_model_list[0].check_positive_flux(
-                kwargs_source, kwargs_lens_light, kwargs_ps
+                kwargs_source_, kwargs_lens_light_, kwargs_ps_
             )
             if bool_ is False:
                 logL -= 10**5
-- 
2.43.0


From d5f31853b13e736c81d8a04d633adbca7996a88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:54 +0000
Subject: [PATCH 027/109] fix: residuals of each computed band use the model of
 the same band

---
 lenstronomy/ImSim/MultiBand/multi_data_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/MultiBand/multi_data_base.py b/lenstronomy/ImSim/MultiBand/multi_data_base.py
index ecdd25e..f0f6d68 100644
--- a/lenstronomy/ImSim/MultiBand/multi_data_base.py
+++ b/lenstronomy/ImSim/MultiBand/multi_data_base.py
@@ -84,9 +84,12 @@ class MultiDataBase(object):
         index = 0
         for i in range(self._num_bands):
             if self._compute_bool[i] is True:
+                # the lists contain either all bands or only those being computed
+                index_model = i if len(model_list) == self._num_bands else index
+                index_error = i if len(error_map_list) == self._num_bands else index
                 residual_list.append(
                     self._image_model_list[i].reduced_residuals(
-                        model_list[index], error_map=error_map_list[index]
+                        model_list[index_model], error_map=error_map_list[index_error]
                     )
                 )
                 index += 1
-- 
2.43.0


From ab9365f9227995504a8dc39dd21063558eb85af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:16 +0000
Subject: [PATCH 028/109] fix: joint linear mode counts the shared linear
 parameters once

---
 lenstronomy/ImSim/MultiBand/joint_linear.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lenstronomy/ImSim/MultiBand/joint_linear.py b/lenstronomy/ImSim/MultiBand/joint_linear.py
index 1196989..a158285 100644
--- a/lenstronomy/ImSim/MultiBand/joint_linear.py
+++ b/lenstronomy/ImSim/MultiBand/joint_linear.py
@@ -117,6 +117,24 @@ class JointLinear(MultiLinear):
                     A = np.append(A, A_i, axis=1)
         return A
 
+    def num_param_linear(
+        self, kwargs_lens, kwargs_source, kwargs_lens_light, kwargs_ps
+    ):
+        """Number of linear coefficients, which are shared among all the bands.
+
+        :param kwargs_lens: list of lens model keyword arguments
+        :param kwargs_source: list of source light model keyword arguments
+        :param kwargs_lens_light: list of lens light model keyword arguments
+        :param kwargs_ps: list of point source model keyword arguments
+        :return: number of linear coefficients to be solved for in the linear inversion
+        """
+        for i in range(self._num_bands):
+            if self._compute_bool[i] is True:
+                return self._image_model_list[i].num_param_linear(
+                    kwargs_lens, kwargs_source, kwargs_lens_light, kwargs_ps
+                )
+        return 0
+
     @property
     def data_response(self):
         """Returns the 1d array of the data element that is fitted for (including
-- 
2.43.0


From 4554e94374b9f6207b6ed117eed294b456a16a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:20 +0000
Subject: [PATCH 029/109] fix: lens equation solver leaves the static mode also
 when no candidate is found

---
 lenstronomy/LensModel/Solver/lens_equation_solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/LensModel/Solver/lens_equation_solver.py b/lenstronomy/LensModel/Solver/lens_equation_solver.py
index f0e2651..d05397f 100644
--- a/lenstronomy/LensModel/Solver/lens_equation_solver.py
+++ b/lenstronomy/LensModel/Solver/lens_equation_solver.py
@@ -345,6 +345,7 @@ class LensEquationSolver(object):
                 "coordinates %s and %s " % (len(x_mins), x_mins, y_mins)
             )
         if len(x_mins) < 1:
+            self.lensModel.set_dynamic()
             return x_mins, y_mins
         if initial_guess_cut:
             mag = np.abs(self.lensModel.magnification(x_mins, y_mins, kwargs_lens))
-- 
2.43.0


From 586f08353f1ef46859e1d956c77ac090c472ff58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:20 +0000
Subject: [PATCH 030/109] fix: non-linear lens equation solver compares the
 distance with the precision limit

---
 lenstronomy/LensModel/Solver/lens_equation_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/Solver/lens_equation_solver.py b/lenstronomy/LensModel/Solver/lens_equation_solver.py
index d05397f..75ae9af 100644
--- a/lenstronomy/LensModel/Solver/lens_equation_solver.py
+++ b/lenstronomy/LensModel/Solver/lens_equation_solver.py
@@ -503,7 +503,7 @@ class LensEquationSolver(object):
                 tol=precision_limit**2,
                 method="Nelder-Mead",
             )
-            delta = self._root(result.x, kwargs_lens, source_x, source_y)
+            delta = np.sqrt(self._root(result.x, kwargs_lens, source_x, source_y))
             x_guess, y_guess = result.x[0], result.x[1]
 
         else:
-- 
2.43.0


From 7c060cb2096ef5526e31dbdf38554c29699b4187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:36 +0000
Subject: [PATCH 031/109] fix: analytical solver accounts for the center of the
 convergence sheet

---
 lenstronomy/LensModel/Solver/lens_equation_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LensModel/Solver/lens_equation_solver.py b/lenstronomy/LensModel/Solver/lens_equation_solver.py
index 75ae9af..7874f26 100644
--- a/lenstronomy/LensModel/Solver/lens_equation_solver.py
+++ b/lenstronomy/LensModel/Solver/lens_equation_solver.py
@@ -202,8 +202,8 @@ class LensEquationSolver(object):
                 1 - kappa
             )  # a mass sheet that compensates the convergence field
             # source position mapping
-            x_ = (x - ra0) / lambda_mst
-            y_ = (y - dec0) / lambda_mst
+            x_ = (x - kappa * ra0) / lambda_mst
+            y_ = (y - kappa * dec0) / lambda_mst
             # lens mapping
             # power-law scaling with mst
             # alpha = theta_E * (r2 / theta_E**2) ** (1 - gamma / 2.0)
-- 
2.43.0


From 1f21800ec651f21c0141f0c1c73149aab5522045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:36 +0000
Subject: [PATCH 032/109] fix: analytical solver accepts the convergence sheet
 at any position of the lens model list

---
 lenstronomy/LensModel/Solver/lens_equation_solver.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/LensModel/Solver/lens_equation_solver.py b/lenstronomy/LensModel/Solver/lens_equation_solver.py
index 7874f26..7077f0d 100644
--- a/lenstronomy/LensModel/Solver/lens_equation_solver.py
+++ b/lenstronomy/LensModel/Solver/lens_equation_solver.py
@@ -201,22 +201,21 @@ class LensEquationSolver(object):
             lambda_mst = (
                 1 - kappa
             )  # a mass sheet that compensates the convergence field
+            # removing of kwargs_lens of "CONVERGENCE" profile
+            kwargs_lens_.pop(index_convergence)
+            lens_model_list.pop(index_convergence)
             # source position mapping
             x_ = (x - kappa * ra0) / lambda_mst
             y_ = (y - kappa * dec0) / lambda_mst
             # lens mapping
             # power-law scaling with mst
             # alpha = theta_E * (r2 / theta_E**2) ** (1 - gamma / 2.0)
-            gamma = kwargs_lens[0]["gamma"] if "gamma" in kwargs_lens[0] else 2
+            gamma = kwargs_lens_[0]["gamma"] if "gamma" in kwargs_lens_[0] else 2
 
             kwargs_lens_[0]["theta_E"] /= lambda_mst ** (1.0 / (gamma - 1))
             if "SHEAR" in lens_model_list:
                 kwargs_lens_[1]["gamma1"] /= lambda_mst
                 kwargs_lens_[1]["gamma2"] /= lambda_mst
-
-            # removing of kwargs_lens of "CONVERGENCE" profile
-            kwargs_lens_.pop(index_convergence)
-            lens_model_list.pop(index_convergence)
         else:
             kwargs_lens_ = copy.deepcopy(kwargs_lens)
             x_, y_ = x, y
@@ -228,7 +227,7 @@ class LensEquationSolver(object):
 
         # re-scale solutions if source redshift has changed (i.e. alpha_scaling != 1)
 
-        gamma = kwargs_lens[0]["gamma"] if "gamma" in kwargs_lens[0] else 2
+        gamma = kwargs_lens_[0]["gamma"] if "gamma" in kwargs_lens_[0] else 2
         kwargs_lens_[0]["theta_E"] *= alpha_scaling ** (1.0 / (gamma - 1))
         if "SHEAR" in lens_model_list:
             kwargs_lens_[1]["gamma1"] *= alpha_scaling
-- 
2.43.0


From 84a24d93bc9ea7e4f530fe40e57e27cf32aaf8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:36 +0000
Subject: [PATCH 033/109] fix: PSO particles remember the best position they
 have visited

---
 lenstronomy/Sampling/Samplers/pso.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/Samplers/pso.py b/lenstronomy/Sampling/Samplers/pso.py
index ff1d1ec..e80b360 100644
--- a/lenstronomy/Sampling/Samplers/pso.py
+++ b/lenstronomy/Sampling/Samplers/pso.py
@@ -144,7 +144,10 @@ class ParticleSwarmOptimizer(object):
                     # print("new global best found %i %s"%(i,
                     # self.global_best.__str__()))
 
-                if particle.fitness > particle.personal_best.fitness:
+                if (
+                    particle is particle.personal_best
+                    or particle.fitness > particle.personal_best.fitness
+                ):
                     particle.update_personal_best()
 
             if i >= max_iter:
-- 
2.43.0


From 8314942ecf3240aa2ba0a86833d8ff471e3bb993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:04 +0000
Subject: [PATCH 034/109] fix: several log-sampling settings of the same lens
 model all apply

---
 lenstronomy/Sampling/parameters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/parameters.py b/lenstronomy/Sampling/parameters.py
index 1556b09..2f41735 100644
--- a/lenstronomy/Sampling/parameters.py
+++ b/lenstronomy/Sampling/parameters.py
@@ -865,7 +865,9 @@ class Param(object):
         for setting in log_sampling_lens:
             i_1, param_list = setting
             if type(param_list) == list:
-                kwargs_logsampling_lens[i_1] = param_list
+                kwargs_logsampling_lens[i_1] = (
+                    kwargs_logsampling_lens[i_1] + param_list
+                )
             else:
                 raise TypeError(
                     "Bad format for constraint setting: got %s. This should be in the format [[i_1, ['param_name1', 'param_name2', ...]], [...], ...]"
-- 
2.43.0


From 18dc20ccd25048882b2b6bce644bd33edacc920f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:04 +0000
Subject: [PATCH 035/109] fix: point source solver uses the sampled lens
 redshifts

---
 lenstronomy/Sampling/parameters.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lenstronomy/Sampling/parameters.py b/lenstronomy/Sampling/parameters.py
index 2f41735..113f17e 100644
--- a/lenstronomy/Sampling/parameters.py
+++ b/lenstronomy/Sampling/parameters.py
@@ -388,6 +388,7 @@ class Param(object):
         except:
             self._num_images = 0
         self._solver_type = solver_type
+        self._solver_param_module = solver_param_module
         if self._solver_type == "NONE" or self._solver_type is None:
             self._solver = False
         else:
@@ -1015,6 +1016,13 @@ class Param(object):
             self._image2SourceMapping = Image2SourceMapping(
                 lens_model=self._lens_model_class, source_model=self._source_model_class
             )
+            if self._solver is True:
+                self._solver_module = Solver(
+                    solver_type=self._solver_type,
+                    lensModel=self._lens_model_class,
+                    num_images=self._num_images,
+                    parameter_module=self._solver_param_module,
+                )
 
     def check_solver(self, kwargs_lens, kwargs_ps):
         """Test whether the image positions map back to the same source position :param
-- 
2.43.0


From b25f4af6bb2506719adbb8fd521befe1bf050980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:04 +0000
Subject: [PATCH 036/109] fix: best fit maps parameters joint with an
 image-plane source to the source plane

---
 lenstronomy/Sampling/parameters.py     | 18 ++++++++++++++++++
 lenstronomy/Workflow/update_manager.py |  3 +++
 2 files changed, 21 insertions(+)

diff --git a/lenstronomy/Sampling/parameters.py b/lenstronomy/Sampling/parameters.py
index 113f17e..6e043ee 100644
--- a/lenstronomy/Sampling/parameters.py
+++ b/lenstronomy/Sampling/parameters.py
@@ -759,6 +759,24 @@ class Param(object):
                     kwargs["center_y"] = y_mapped
         return kwargs_source_copy
 
+    def update_joint_source(self, kwargs_source, kwargs_tracer_source):
+        """Sets the source and tracer parameters that are joint with a source.
+
+        :param kwargs_source: source light model keyword argument list
+        :param kwargs_tracer_source: tracer source model keyword argument list
+        :return: source and tracer source keyword argument lists with joint parameters
+        """
+        kwargs_source = copy.deepcopy(kwargs_source)
+        kwargs_source = self._update_joint_param(
+            kwargs_source, kwargs_source, self._joint_source_with_source
+        )
+        kwargs_tracer_source = self._update_joint_param(
+            kwargs_source,
+            copy.deepcopy(kwargs_tracer_source),
+            self._joint_source_light_with_tracer,
+        )
+        return kwargs_source, kwargs_tracer_source
+
     def _update_source_joint_with_point_source(
         self,
         kwargs_lens_list,
diff --git a/lenstronomy/Workflow/update_manager.py b/lenstronomy/Workflow/update_manager.py
index b2982a9..cb3fefa 100644
--- a/lenstronomy/Workflow/update_manager.py
+++ b/lenstronomy/Workflow/update_manager.py
@@ -385,6 +385,9 @@ class UpdateManager(object):
             source_temp = self.param_class.image2source_plane(
                 source_temp, lens_temp, special_temp
             )
+            source_temp, tracer_source_temp = self.param_class.update_joint_source(
+                source_temp, tracer_source_temp
+            )
         return {
             "kwargs_lens": lens_temp,
             "kwargs_source": source_temp,
-- 
2.43.0


From 8aa84944fe6d7f2543e4c80b888ea0898f1ce388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:04 +0000
Subject: [PATCH 037/109] fix: setting a parameter value leaves earlier results
 and user input unchanged

---
 lenstronomy/Workflow/update_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/Workflow/update_manager.py b/lenstronomy/Workflow/update_manager.py
index cb3fefa..43b87cb 100644
--- a/lenstronomy/Workflow/update_manager.py
+++ b/lenstronomy/Workflow/update_manager.py
@@ -448,6 +448,8 @@ class UpdateManager(object):
             lens_light = []
         if ps is None:
             ps = []
+        # do not alter models that were handed in or out earlier
+        self._kwargs_temp = copy.deepcopy(self._kwargs_temp)
         for items, kwargs_key in zip(
             [lens, source, lens_light, ps],
             ["kwargs_lens", "kwargs_source", "kwargs_lens_light", "kwargs_ps"],
-- 
2.43.0


From d97de4176bbba5699e773d547e1056203c82b501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:04 +0000
Subject: [PATCH 038/109] fix: updating the model, constraint and likelihood
 options leaves the user input unchanged

---
 lenstronomy/Workflow/update_manager.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/Workflow/update_manager.py b/lenstronomy/Workflow/update_manager.py
index 43b87cb..fd7d486 100644
--- a/lenstronomy/Workflow/update_manager.py
+++ b/lenstronomy/Workflow/update_manager.py
@@ -33,9 +33,10 @@ class UpdateManager(object):
          'special': [kwargs_init, kwargs_sigma, kwargs_fixed, kwargs_lower, kwargs_upper]
 
         """
-        self.kwargs_model = kwargs_model
-        self.kwargs_constraints = kwargs_constraints
-        self.kwargs_likelihood = kwargs_likelihood
+        # options may be updated by this class and must not alter the user input
+        self.kwargs_model = dict(kwargs_model)
+        self.kwargs_constraints = dict(kwargs_constraints)
+        self.kwargs_likelihood = dict(kwargs_likelihood)
         # the parameter settings are evolved by this class and must not alter the user input
         kwargs_params = copy.deepcopy(kwargs_params)
 
-- 
2.43.0


From c5d7ad85c5771c0e7490fba5060aae7dee22a86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:04 +0000
Subject: [PATCH 039/109] fix: fit_sequence does not alter the fitting list of
 the user

---
 lenstronomy/Workflow/fitting_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Workflow/fitting_sequence.py b/lenstronomy/Workflow/fitting_sequence.py
index 1c73575..1ceeb5d 100644
--- a/lenstronomy/Workflow/fitting_sequence.py
+++ b/lenstronomy/Workflow/fitting_sequence.py
@@ -90,7 +90,7 @@ class FittingSequence(object):
         chain_list = []
         for i, fitting in enumerate(fitting_list):
             fitting_type = fitting[0]
-            kwargs = fitting[1]
+            kwargs = copy.copy(fitting[1])  # the user input is not to be altered
 
             if fitting_type in [
                 "PSO",
-- 
2.43.0


From b909a257223cf61dc57b299fdb7a0aa04aca6591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:04 +0000
Subject: [PATCH 040/109] fix: flux calibration applies to the following
 fitting steps

---
 lenstronomy/Workflow/fitting_sequence.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Workflow/fitting_sequence.py b/lenstronomy/Workflow/fitting_sequence.py
index 1ceeb5d..16d2de8 100644
--- a/lenstronomy/Workflow/fitting_sequence.py
+++ b/lenstronomy/Workflow/fitting_sequence.py
@@ -743,7 +743,9 @@ class FittingSequence(object):
             scaling_lower_limit=scaling_lower_limit,
             scaling_upper_limit=scaling_upper_limit,
         )
-        self.multi_band_list = multi_band_list
+        # update in place such that all following steps use the calibrated data
+        for i, band in enumerate(multi_band_list):
+            self.multi_band_list[i] = band
         return 0
 
     def update_settings(
-- 
2.43.0


From 5f911a1f2dde0e5350dd1f38c6bfb07aef20a2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:04 +0000
Subject: [PATCH 041/109] fix: nested sampling with dynesty sets the maximum
 likelihood sample as best fit

---
 lenstronomy/Workflow/fitting_sequence.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Workflow/fitting_sequence.py b/lenstronomy/Workflow/fitting_sequence.py
index 16d2de8..6a67b14 100644
--- a/lenstronomy/Workflow/fitting_sequence.py
+++ b/lenstronomy/Workflow/fitting_sequence.py
@@ -539,6 +539,7 @@ class FittingSequence(object):
             samples, means, logZ, logZ_err, logL, results_object = sampler.run(
                 dypolychord_dynamic_goal, kwargs_run
             )
+            best_fit_sample = samples[-1]
 
         elif sampler_type == "MultiNest":
             sampler = MultiNestSampler(
@@ -556,6 +557,7 @@ class FittingSequence(object):
             samples, means, logZ, logZ_err, logL, results_object = sampler.run(
                 kwargs_run
             )
+            best_fit_sample = samples[-1]
         else:
             sampler = DynestySampler(
                 self.likelihood_class,
@@ -571,9 +573,11 @@ class FittingSequence(object):
             samples, means, logZ, logZ_err, logL, results_object = sampler.run(
                 kwargs_run
             )
+            # samples are resampled in random order, logL belongs to the weighted samples
+            best_fit_sample = results_object.samples[np.argmax(logL)]
 
         # update current best fit values
-        self._update_state(samples[-1])
+        self._update_state(best_fit_sample)
 
         output = [
             sampler_type,
-- 
2.43.0


From c86b8d689506316f8a7dcea4cac130c4f175d67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:04 +0000
Subject: [PATCH 042/109] fix: Cobaya step sets its best fit as the current
 state

---
 lenstronomy/Workflow/fitting_sequence.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/Workflow/fitting_sequence.py b/lenstronomy/Workflow/fitting_sequence.py
index 6a67b14..7d51085 100644
--- a/lenstronomy/Workflow/fitting_sequence.py
+++ b/lenstronomy/Workflow/fitting_sequence.py
@@ -167,6 +167,7 @@ class FittingSequence(object):
                 best_fit_kwargs = self.param_class.args2kwargs(
                     best_fit_values, bijective=True
                 )
+                self._updateManager.update_param_state(**best_fit_kwargs)
                 # collect the products
                 mh_output = [updated_info, sampler_type, best_fit_kwargs]
                 # append the products to the chain list
-- 
2.43.0


From c52c34fc2d08b78bc7a4d0dc34f861d868439229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:27 +0000
Subject: [PATCH 043/109] fix: converting a sampled vector to a model never
 alters the vector

---
 lenstronomy/Sampling/parameters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/parameters.py b/lenstronomy/Sampling/parameters.py
index 6e043ee..da33203 100644
--- a/lenstronomy/Sampling/parameters.py
+++ b/lenstronomy/Sampling/parameters.py
@@ -569,7 +569,8 @@ class Param(object):
         """
         i = 0
         if self._jax is False:
-            args = np.atleast_1d(args)
+            # copy, such that neither the vector nor the model can alter the other
+            args = np.array(args, ndmin=1)
             impose_bound = True
         # Turn off bound checks for kwargs_special when being called from JAXtronomy
         else:
-- 
2.43.0


From 8f960102a9a39b72237040e507126b7cb4d9e182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:05 +0000
Subject: [PATCH 044/109] fix: inverse of combined mass and general scaling
 restores the sampled lens parameters

---
 lenstronomy/Sampling/parameters.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Sampling/parameters.py b/lenstronomy/Sampling/parameters.py
index da33203..77b8498 100644
--- a/lenstronomy/Sampling/parameters.py
+++ b/lenstronomy/Sampling/parameters.py
@@ -924,6 +924,22 @@ class Param(object):
         if not (self._mass_scaling or self._general_scaling):
             return kwargs_lens_updated
 
+        # the inverse undoes the scalings in the opposite order of their application
+        if inverse is True:
+            self._update_general_scaling(kwargs_special, kwargs_lens_updated, inverse)
+            self._update_mass_scaling(kwargs_special, kwargs_lens_updated, inverse)
+        else:
+            self._update_mass_scaling(kwargs_special, kwargs_lens_updated, inverse)
+            self._update_general_scaling(kwargs_special, kwargs_lens_updated, inverse)
+        return kwargs_lens_updated
+
+    def _update_mass_scaling(self, kwargs_special, kwargs_lens_updated, inverse):
+        """Applies the mass scaling (or its inverse) in place.
+
+        :param kwargs_special: keyword arguments of the 'special' arguments
+        :param kwargs_lens_updated: lens model keyword argument list to be updated
+        :param inverse: bool, if True, performs the inverse scaling
+        """
         # TODO: remove separate logic for mass scaling. either deprecate it
         # entirely, implement the details as a special case of general_scaling
         if self._mass_scaling:
@@ -944,6 +960,13 @@ class Param(object):
                     elif "k_eff" in kwargs:
                         kwargs["k_eff"] *= scale_factor
 
+    def _update_general_scaling(self, kwargs_special, kwargs_lens_updated, inverse):
+        """Applies the general scaling (or its inverse) in place.
+
+        :param kwargs_special: keyword arguments of the 'special' arguments
+        :param kwargs_lens_updated: lens model keyword argument list to be updated
+        :param inverse: bool, if True, performs the inverse scaling
+        """
         if self._general_scaling:
             for param_name in self._general_scaling_masks.keys():
                 factors = kwargs_special[f"{param_name}_scale_factor"]
@@ -962,8 +985,6 @@ class Param(object):
                                 * kwargs[param_name] ** _pows[scale_idx - 1]
                             )
 
-        return kwargs_lens_updated
-
     def _add_fixed_lens(self, kwargs_fixed, kwargs_init):
         kwargs_fixed_update = copy.deepcopy(kwargs_fixed)
         if self._solver is True:
-- 
2.43.0


From 5d93dbb2dc0029d2ffabc229b51dfabacbcd9f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:33 +0000
Subject: [PATCH 045/109] fix: observed lens positions are converted with the
 distance of their own lens plane

---
 lenstronomy/LensModel/MultiPlane/multi_plane.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/MultiPlane/multi_plane.py b/lenstronomy/LensModel/MultiPlane/multi_plane.py
index 6ca8122..0da81d2 100644
--- a/lenstronomy/LensModel/MultiPlane/multi_plane.py
+++ b/lenstronomy/LensModel/MultiPlane/multi_plane.py
@@ -766,7 +766,9 @@ class LensedLocation(object):
                 T_ij_end=None,
             )
 
-            T = self._multiplane.T_z_list[ind]
+            # T_z_list is in ascending order of redshifts
+            index = list(self._multiplane.sorted_redshift_index).index(ind)
+            T = self._multiplane.T_z_list[index]
             new_kwargs[ind]["center_x"] = x / T
             new_kwargs[ind]["center_y"] = y / T
 
-- 
2.43.0


From 4d5685c5bd820359709db8c643b9c5df5a02f949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:33 +0000
Subject: [PATCH 046/109] fix: time delay of a source in the plane of a
 deflector is finite

---
 lenstronomy/LensModel/MultiPlane/multi_plane_base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/LensModel/MultiPlane/multi_plane_base.py b/lenstronomy/LensModel/MultiPlane/multi_plane_base.py
index 959c94b..bb9afe8 100644
--- a/lenstronomy/LensModel/MultiPlane/multi_plane_base.py
+++ b/lenstronomy/LensModel/MultiPlane/multi_plane_base.py
@@ -393,10 +393,11 @@ class MultiPlaneBase(ProfileListBase):
         T_i = self._T_z_list[i_last]
         beta_i_x, beta_i_y = x / T_i, y / T_i
         beta_j_x, beta_j_y = x_new / T_j, y_new / T_j
-        dt_geo_new = self._geometrical_delay(
-            beta_i_x, beta_i_y, beta_j_x, beta_j_y, T_i, T_j, T_ij
-        )
-        dt_geo += dt_geo_new
+        if T_ij > 0:
+            dt_geo_new = self._geometrical_delay(
+                beta_i_x, beta_i_y, beta_j_x, beta_j_y, T_i, T_j, T_ij
+            )
+            dt_geo += dt_geo_new
         return np.asarray(dt_geo), np.asarray(dt_grav)
 
     @staticmethod
-- 
2.43.0


From 81662236885ba211e3604a833fe47c10bd39c562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:59 +0000
Subject: [PATCH 047/109] fix: point source positions are only kept in cache
 when the cache is switched on

---
 lenstronomy/PointSource/point_source_cached.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/PointSource/point_source_cached.py b/lenstronomy/PointSource/point_source_cached.py
index 52a0e42..08aa16c 100644
--- a/lenstronomy/PointSource/point_source_cached.py
+++ b/lenstronomy/PointSource/point_source_cached.py
@@ -64,26 +64,32 @@ class PointSourceCached(object):
                 or not hasattr(self, "_x_image_add")
                 or not hasattr(self, "_y_image_add")
             ):
-                self._x_image_add, self._y_image_add = self._model.image_position(
+                x_image_add, y_image_add = self._model.image_position(
                     kwargs_ps,
                     kwargs_lens=kwargs_lens,
                     magnification_limit=magnification_limit,
                     kwargs_lens_eqn_solver=kwargs_lens_eqn_solver,
                     additional_images=additional_images,
                 )
+                if not self._save_cache:
+                    return x_image_add, y_image_add
+                self._x_image_add, self._y_image_add = x_image_add, y_image_add
             return self._x_image_add, self._y_image_add
         if (
             not self._save_cache
             or not hasattr(self, "_x_image")
             or not hasattr(self, "_y_image")
         ):
-            self._x_image, self._y_image = self._model.image_position(
+            x_image, y_image = self._model.image_position(
                 kwargs_ps,
                 kwargs_lens=kwargs_lens,
                 magnification_limit=magnification_limit,
                 kwargs_lens_eqn_solver=kwargs_lens_eqn_solver,
                 additional_images=additional_images,
             )
+            if not self._save_cache:
+                return x_image, y_image
+            self._x_image, self._y_image = x_image, y_image
         return self._x_image, self._y_image
 
     def source_position(self, kwargs_ps, kwargs_lens=None):
@@ -98,9 +104,12 @@ class PointSourceCached(object):
             or not hasattr(self, "_x_source")
             or not hasattr(self, "_y_source")
         ):
-            self._x_source, self._y_source = self._model.source_position(
+            x_source, y_source = self._model.source_position(
                 kwargs_ps, kwargs_lens=kwargs_lens
             )
+            if not self._save_cache:
+                return x_source, y_source
+            self._x_source, self._y_source = x_source, y_source
         return self._x_source, self._y_source
 
     def image_amplitude(
-- 
2.43.0


From 5eaa94cc25afa2ce0ebbef0783e81d47af370567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:59 +0000
Subject: [PATCH 048/109] fix: point source cache is switched off after every
 likelihood call

---
 lenstronomy/Sampling/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/likelihood.py b/lenstronomy/Sampling/likelihood.py
index f498b40..9717b6e 100644
--- a/lenstronomy/Sampling/likelihood.py
+++ b/lenstronomy/Sampling/likelihood.py
@@ -438,7 +438,7 @@ class Likelihood(object):
                 if verbose is True:
                     print("tracer logL = %s" % logL_tracer)
                 logL += logL_tracer
-            self._reset_point_source_cache(bool_input=False)
+        self._reset_point_source_cache(bool_input=False)
         return logL  # , None
 
     @staticmethod
-- 
2.43.0


From a64eaacd3e3870a5e0a06f430d7674631ad3ff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:31 +0000
Subject: [PATCH 049/109] fix: PSF iterations do not reuse point source
 positions of a previous model

---
 lenstronomy/Workflow/psf_fitting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Workflow/psf_fitting.py b/lenstronomy/Workflow/psf_fitting.py
index 9aae293..ff1eb9b 100644
--- a/lenstronomy/Workflow/psf_fitting.py
+++ b/lenstronomy/Workflow/psf_fitting.py
@@ -98,7 +98,8 @@ class PsfFitting(object):
          passed to update_psf() method
         :return: keyword argument of PSF constructor for PSF() class with updated PSF
         """
-        self._image_model_class.PointSource.set_save_cache(True)
+        # image positions are the same in all iterations
+        self._image_model_class.reset_point_source_cache(cache=True)
         if "kernel_point_source_init" not in kwargs_psf:
             kernel_point_source_init = copy.deepcopy(kwargs_psf["kernel_point_source"])
         else:
@@ -156,6 +157,7 @@ class PsfFitting(object):
         else:
             kwargs_psf_final["psf_variance_map"] = error_map_final
         kwargs_psf_final["kernel_point_source_init"] = kernel_point_source_init
+        self._image_model_class.reset_point_source_cache(cache=False)
         return kwargs_psf_final
 
     def update_psf(
-- 
2.43.0


From 07081e90cff456695e1572f831e1ca8f3fcde00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:34 +0000
Subject: [PATCH 050/109] fix: switching the point source cache off drops the
 saved positions

---
 lenstronomy/PointSource/point_source.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index f5c33d6..535a2af 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -197,6 +197,8 @@ class PointSource(object):
         :return: updated class and subclass instances to either save or not save the
             point source information in cache
         """
+        if not save_cache:
+            self.delete_lens_model_cache()
         self._set_save_cache(save_cache)
         self._save_cache = save_cache
 
-- 
2.43.0


From 31800293fa7c7862aaa0ad5a98cc8f7a2eab1806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:01 +0000
Subject: [PATCH 051/109] fix: CTNFW_GAUSS_DEC has separate center_x and
 center_y parameters

---
 lenstronomy/LensModel/Profiles/gauss_decomposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/Profiles/gauss_decomposition.py b/lenstronomy/LensModel/Profiles/gauss_decomposition.py
index 4ca089e..49d4d79 100644
--- a/lenstronomy/LensModel/Profiles/gauss_decomposition.py
+++ b/lenstronomy/LensModel/Profiles/gauss_decomposition.py
@@ -555,7 +555,7 @@ class CTNFWGaussDec(GaussDecompositionAbstract3D):
     """This class computes the lensing properties of an projection from a spherical
     cored-truncated NFW profile using Shajib (2019)'s Gauss decomposition method."""
 
-    param_names = ["r_s", "r_core", "r_trunc", "a", "rho_s", "center_x" "center_y"]
+    param_names = ["r_s", "r_core", "r_trunc", "a", "rho_s", "center_x", "center_y"]
     lower_limit_default = {
         "r_s": 0,
         "r_core": 0,
-- 
2.43.0


From 2261cde5d09d2c24a37c67cfb164c87b9ce1f679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:47 +0000
Subject: [PATCH 052/109] fix: GreenBoschNFW does not answer with the
 interpolation of previous parameters

---
 lenstronomy/LensModel/Profiles/greenboschnfw.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/LensModel/Profiles/greenboschnfw.py b/lenstronomy/LensModel/Profiles/greenboschnfw.py
index 53cb413..fc3ebac 100644
--- a/lenstronomy/LensModel/Profiles/greenboschnfw.py
+++ b/lenstronomy/LensModel/Profiles/greenboschnfw.py
@@ -253,6 +253,8 @@ class GreenBoschNFW(LensProfileBase):
             kappa_vals.append(kappa)
 
         kappa_r = np.array(kappa_vals)
+        # the interpolation of the previous parameters is not valid anymore
+        self._rad_interp.set_dynamic()
         self._last_params = params
         self._cached = (kappa_r, r_bin)
 
-- 
2.43.0


From 8f04cd891e76fc10843b4ef77da1cef1e9e95d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:47 +0000
Subject: [PATCH 053/109] fix: static mode keeps several BPL components apart

---
 lenstronomy/LensModel/profile_list_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/LensModel/profile_list_base.py b/lenstronomy/LensModel/profile_list_base.py
index df6ecdc..3f79f82 100644
--- a/lenstronomy/LensModel/profile_list_base.py
+++ b/lenstronomy/LensModel/profile_list_base.py
@@ -110,6 +110,7 @@ _SUPPORTED_MODELS = [
 # interpolated. This list does not need to include profiles with different initialization settings,
 # e.g. GNFW, since that is handled automatically in _load_model_instances()
 DYNAMIC_PROFILES = [
+    "BPL",
     "CHAMELEON",
     "CTNFW_GAUSS_DEC",
     "DOUBLE_CHAMELEON",
-- 
2.43.0


From 0d9c63a19f7e950c078c52360e770fd209f4f47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:47 +0000
Subject: [PATCH 054/109] fix: static mode is available for lens models with a
 SYNTHESIS profile

---
 lenstronomy/LensModel/Profiles/synthesis.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/synthesis.py b/lenstronomy/LensModel/Profiles/synthesis.py
index 12cccae..a291d12 100644
--- a/lenstronomy/LensModel/Profiles/synthesis.py
+++ b/lenstronomy/LensModel/Profiles/synthesis.py
@@ -74,14 +74,18 @@ class SynthesisProfile(LensProfileBase):
         second_term = np.matmul(MTinvC, Y)
         return np.matmul(first_term, second_term)
 
-    def set_static(self, linear_weights):
+    def set_static(self, linear_weights=None, **kwargs):
         """Sets weights to be static self values. Useful to call e.g. function many
         times with the same kwargs. If kwargs_target or kwargs_list change, need to
         rerun linear fit by using set_dynamic.
 
-        :param linear_weights: output of LinearWeightMLEFit
+        :param linear_weights: output of LinearWeightMLEFit. If None, the weights are
+            fit for the target profile parameters in kwargs
+        :param kwargs: parameters of the target profile
         :return: self weights set
         """
+        if linear_weights is None:
+            linear_weights = self._linear_weight_mle_fit([kwargs], self.kwargs_list)
         self._static = True
         self._linear_weights = linear_weights
 
-- 
2.43.0


From 9ad60e3373c0b9bdc550827efca229669d16ba5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:16 +0000
Subject: [PATCH 055/109] fix: dynamic mode of RADIAL_INTERPOL also forgets the
 enclosed mass

---
 lenstronomy/LensModel/Profiles/radial_interpolated.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/LensModel/Profiles/radial_interpolated.py b/lenstronomy/LensModel/Profiles/radial_interpolated.py
index af2f4d8..64c3920 100644
--- a/lenstronomy/LensModel/Profiles/radial_interpolated.py
+++ b/lenstronomy/LensModel/Profiles/radial_interpolated.py
@@ -245,6 +245,8 @@ class RadialInterpolate(LensProfileBase):
 
         :return: no return, deletes pre-computed variables for certain lens models
         """
+        if hasattr(self, "_interp_m_enclosed"):
+            del self._interp_m_enclosed
         if hasattr(self, "_interp_m_enclosed_over_r"):
             del self._interp_m_enclosed_over_r
         if hasattr(self, "_interp_kappa"):
-- 
2.43.0


From 8fa325a2909fc4cdb1393434e034ec77f0ca7615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:16 +0000
Subject: [PATCH 056/109] fix: potential with line-of-sight corrections does
 not depend on the position of the LOS model in the list

---
 lenstronomy/LensModel/LineOfSight/single_plane_los.py       | 4 ++--
 .../LensModel/LineOfSight/single_plane_los_flexion.py       | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/LensModel/LineOfSight/single_plane_los.py b/lenstronomy/LensModel/LineOfSight/single_plane_los.py
index 44ad5af..5ca1093 100644
--- a/lenstronomy/LensModel/LineOfSight/single_plane_los.py
+++ b/lenstronomy/LensModel/LineOfSight/single_plane_los.py
@@ -399,7 +399,7 @@ class SinglePlaneLOS(SinglePlane):
               In the presence of LOS corrections, a lensing system does not always\
               derive from a potential.")
 
-        # kwargs_main, kwargs_los = self.split_lens_los(kwargs)
-        potential = self._main_lens.potential(x, y, kwargs, k=k)
+        kwargs_main = [kwarg for i, kwarg in enumerate(kwargs) if i != self._index_los]
+        potential = self._main_lens.potential(x, y, kwargs_main, k=k)
 
         return potential
diff --git a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
index b2c9092..378bc6e 100644
--- a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
+++ b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
@@ -594,7 +594,9 @@ class SinglePlaneLOSFlexion(SinglePlane):
               In the presence of LOS corrections, a lensing system does not always\
               derive from a potential.")
 
-        # kwargs_main, kwargs_los = self.split_lens_los(kwargs)
-        potential = self._main_lens.potential(x, y, kwargs, k=k)
+        kwargs_main = [
+            kwarg for i, kwarg in enumerate(kwargs) if i != self._index_los_flexion
+        ]
+        potential = self._main_lens.potential(x, y, kwargs_main, k=k)
 
         return potential
-- 
2.43.0


From 266073118b99d7a5866bcc448780e1ec3bba56bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:36 +0000
Subject: [PATCH 057/109] fix: point source models can be selected by lists, as
 documented

---
 lenstronomy/PointSource/point_source.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index 535a2af..c13566c 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -1,5 +1,6 @@
 import numpy as np
 import copy
+from lenstronomy.Util.util import convert_bool_list
 from lenstronomy.PointSource.point_source_cached import PointSourceCached
 
 __all__ = ["PointSource"]
@@ -278,8 +279,9 @@ class PointSource(object):
             kwargs_lens_eqn_solver["search_window"] *= width_search_factor
         else:
             kwargs_lens_eqn_solver = self._kwargs_lens_eqn_solver
+        bool_list = convert_bool_list(len(self._point_source_list), k=k)
         for i, model in enumerate(self._point_source_list):
-            if k is None or k == i:
+            if bool_list[i]:
                 kwargs = kwargs_ps[i]
                 x_image, y_image = model.image_position(
                     kwargs,
@@ -369,8 +371,9 @@ class PointSource(object):
         :return: list of image amplitudes per model component
         """
         amp_list = []
+        bool_list = convert_bool_list(len(self._point_source_list), k=k)
         for i, model in enumerate(self._point_source_list):
-            if k is None or k == i:
+            if bool_list[i]:
                 image_amp = model.image_amplitude(
                     kwargs_ps=kwargs_ps[i],
                     kwargs_lens=kwargs_lens,
-- 
2.43.0


From 030f8d62872822f291d33b37ebef76ae5e03bad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:33 +0000
Subject: [PATCH 058/109] fix: the variance map of an updated PSF enters the
 error model

---
 lenstronomy/ImSim/image_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/ImSim/image_model.py b/lenstronomy/ImSim/image_model.py
index eaf0213..bb5ea00 100644
--- a/lenstronomy/ImSim/image_model.py
+++ b/lenstronomy/ImSim/image_model.py
@@ -732,6 +732,7 @@ class ImageModel(object):
         """
         self.PSF = psf_class
         self.PSF.set_pixel_size(self.Data.pixel_width)
+        self._psf_error_map = self.PSF.psf_variance_map_bool
         self.ImageNumerics = NumericsSubFrame(
             pixel_grid=self.Data, psf=self.PSF, **self._kwargs_numerics
         )
-- 
2.43.0


From 47e65fcd7cadc1547e04a2ddf2fae2d93b703f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:33 +0000
Subject: [PATCH 059/109] fix: updating the data of an image model updates its
 coordinates, flux scaling and primary beam

---
 lenstronomy/ImSim/image_model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/image_model.py b/lenstronomy/ImSim/image_model.py
index bb5ea00..463e215 100644
--- a/lenstronomy/ImSim/image_model.py
+++ b/lenstronomy/ImSim/image_model.py
@@ -744,7 +744,13 @@ class ImageModel(object):
         :return: no return. Class is updated.
         """
         self.Data = data_class
-        self.ImageNumerics._PixelGrid = data_class
+        self._flux_scaling = getattr(self.Data, "flux_scaling", 1)
+        self._pb = getattr(self.Data, "primary_beam", None)
+        self._pb_1d = None if self._pb is None else util.image2array(self._pb)
+        self.PSF.set_pixel_size(self.Data.pixel_width)
+        self.ImageNumerics = NumericsSubFrame(
+            pixel_grid=self.Data, psf=self.PSF, **self._kwargs_numerics
+        )
 
     @property
     def num_data_evaluate(self):
-- 
2.43.0


From 25b6c28a9bd6487ef92901ea4afe08c268b52128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:33 +0000
Subject: [PATCH 060/109] fix: exposure map of the user is not altered

---
 lenstronomy/Data/image_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Data/image_noise.py b/lenstronomy/Data/image_noise.py
index a0ef6a8..3695766 100644
--- a/lenstronomy/Data/image_noise.py
+++ b/lenstronomy/Data/image_noise.py
@@ -42,7 +42,7 @@ class ImageNoise(object):
                 if exposure_time <= 10 ** (-10):
                     exposure_time = 10 ** (-10)
             else:
-                exposure_time[exposure_time <= 10 ** (-10)] = 10 ** (-10)
+                exposure_time = np.maximum(exposure_time, 10 ** (-10))
         self._exp_map = exposure_time
         self._background_rms = background_rms
         self._noise_map = noise_map
-- 
2.43.0


From 2665a455555208ffc52aa9ced15335655dec974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:33 +0000
Subject: [PATCH 061/109] fix: PSF kernels of integer type can be normalized

---
 lenstronomy/Data/psf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Data/psf.py b/lenstronomy/Data/psf.py
index 1c2be6e..769a230 100644
--- a/lenstronomy/Data/psf.py
+++ b/lenstronomy/Data/psf.py
@@ -77,7 +77,9 @@ class PSF(object):
             else:
                 kernel_point_source_ = copy.deepcopy(kernel_point_source)
             if kernel_point_source_normalisation is True:
-                kernel_point_source_ /= np.sum(kernel_point_source_)
+                kernel_point_source_ = kernel_point_source_ / np.sum(
+                    kernel_point_source_
+                )
             if point_source_supersampling_factor > 1:
                 self._kernel_point_source_supersampled = kernel_point_source_
                 self._kernel_point_source_supersampled_init = kernel_point_source_
-- 
2.43.0


From 0a982f766526dd97387a446bf67bd5696089a19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:12 +0000
Subject: [PATCH 062/109] fix: normalizing or cutting a kernel does not alter
 the kernel handed in

---
 lenstronomy/Util/kernel_util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lenstronomy/Util/kernel_util.py b/lenstronomy/Util/kernel_util.py
index 98c76d4..ef60239 100644
--- a/lenstronomy/Util/kernel_util.py
+++ b/lenstronomy/Util/kernel_util.py
@@ -128,8 +128,7 @@ def kernel_norm(kernel):
     :return: normalisation of the psf kernel
     """
     norm = np.sum(np.array(kernel))
-    kernel /= norm
-    return kernel
+    return kernel / norm
 
 
 @export
-- 
2.43.0


From c6b72317a9b17013e243d1d2640594d8b127c0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:12 +0000
Subject: [PATCH 063/109] fix: shape of a supersampled kernel does not depend
 on the normalization of the kernel

---
 lenstronomy/Util/kernel_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/kernel_util.py b/lenstronomy/Util/kernel_util.py
index ef60239..291eaae 100644
--- a/lenstronomy/Util/kernel_util.py
+++ b/lenstronomy/Util/kernel_util.py
@@ -178,7 +178,7 @@ def subgrid_kernel(kernel, subgrid_res, odd=False, num_iter=100):
             kernel_pixel = averaging_even_kernel(kernel_subgrid, subgrid_res)
         else:
             kernel_pixel = util.averaging(kernel_subgrid, num_grid=nx_new, num_pix=nx)
-        delta = kernel - kernel_pixel
+        delta = kernel / norm_kernel - kernel_pixel
         temp_kernel = kernel_input + delta
         kernel_subgrid = image_util.re_size_array(
             x_in, y_in, temp_kernel, x_out, y_out
-- 
2.43.0


From 61aea5284bc9d976a4f79b8e2fbef8ca96c8adfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:12 +0000
Subject: [PATCH 064/109] fix: empty variance map of a Gaussian PSF follows the
 size of the kernel

---
 lenstronomy/Data/psf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Data/psf.py b/lenstronomy/Data/psf.py
index 769a230..c3f083e 100644
--- a/lenstronomy/Data/psf.py
+++ b/lenstronomy/Data/psf.py
@@ -267,7 +267,7 @@ class PSF(object):
         :rtype: 2d numpy array of size of the PSF in pixel size (not supersampled)
         """
         if not hasattr(self, "_psf_variance_map"):
-            self._psf_variance_map = np.zeros_like(self.kernel_point_source)
+            return np.zeros_like(self.kernel_point_source)
         return self._psf_variance_map
 
     @property
-- 
2.43.0


From a5820c684e09e81bcb52ea8038203913ddf6fd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:57 +0000
Subject: [PATCH 065/109] fix: SHAPELETS_CART is centered on its center also
 when evaluated at a single position

---
 .../LensModel/Profiles/shapelet_pot_cartesian.py  | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/shapelet_pot_cartesian.py b/lenstronomy/LensModel/Profiles/shapelet_pot_cartesian.py
index 5bedbd9..8470e05 100644
--- a/lenstronomy/LensModel/Profiles/shapelet_pot_cartesian.py
+++ b/lenstronomy/LensModel/Profiles/shapelet_pot_cartesian.py
@@ -28,7 +28,8 @@ class CartShapelets(LensProfileBase):
         n_order = self._get_num_n(len(coeffs))
         n = len(np.atleast_1d(x))
         if n <= 1:
-            f_ = self._shapeletOutput(x, y, beta, shapelets, precalc=False)
+            x_, y_ = x - center_x, y - center_y
+            f_ = self._shapeletOutput(x_, y_, beta, shapelets, precalc=False)
         else:
             H_x, H_y = self.pre_calc(x, y, beta, n_order, center_x, center_y)
             f_ = self._shapeletOutput(H_x, H_y, beta, shapelets)
@@ -42,8 +43,9 @@ class CartShapelets(LensProfileBase):
         dy_shapelets = self._dy_shapelets(shapelets, beta)
         n = len(np.atleast_1d(x))
         if n <= 1:
-            f_x = self._shapeletOutput(x, y, beta, dx_shapelets, precalc=False)
-            f_y = self._shapeletOutput(x, y, beta, dy_shapelets, precalc=False)
+            x_, y_ = x - center_x, y - center_y
+            f_x = self._shapeletOutput(x_, y_, beta, dx_shapelets, precalc=False)
+            f_y = self._shapeletOutput(x_, y_, beta, dy_shapelets, precalc=False)
         else:
             H_x, H_y = self.pre_calc(x, y, beta, n_order + 1, center_x, center_y)
             f_x = self._shapeletOutput(H_x, H_y, beta, dx_shapelets)
@@ -60,9 +62,10 @@ class CartShapelets(LensProfileBase):
         dxy_shapelets = self._dxy_shapelets(shapelets, beta)
         n = len(np.atleast_1d(x))
         if n <= 1:
-            f_xx = self._shapeletOutput(x, y, beta, dxx_shapelets, precalc=False)
-            f_yy = self._shapeletOutput(x, y, beta, dyy_shapelets, precalc=False)
-            f_xy = self._shapeletOutput(x, y, beta, dxy_shapelets, precalc=False)
+            x_, y_ = x - center_x, y - center_y
+            f_xx = self._shapeletOutput(x_, y_, beta, dxx_shapelets, precalc=False)
+            f_yy = self._shapeletOutput(x_, y_, beta, dyy_shapelets, precalc=False)
+            f_xy = self._shapeletOutput(x_, y_, beta, dxy_shapelets, precalc=False)
         else:
             H_x, H_y = self.pre_calc(x, y, beta, n_order + 2, center_x, center_y)
             f_xx = self._shapeletOutput(H_x, H_y, beta, dxx_shapelets)
-- 
2.43.0


From b05cc4bfda0675824b224b5c5efad54150aca57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:57 +0000
Subject: [PATCH 066/109] fix: LINEAR and LINEAR_ELLIPSE light can be evaluated
 at a single position

---
 lenstronomy/LightModel/Profiles/linear.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lenstronomy/LightModel/Profiles/linear.py b/lenstronomy/LightModel/Profiles/linear.py
index 660ea77..f8bf43f 100644
--- a/lenstronomy/LightModel/Profiles/linear.py
+++ b/lenstronomy/LightModel/Profiles/linear.py
@@ -41,8 +41,7 @@ class Linear(object):
         """
         dis = np.sqrt((x - center_x) ** 2 + (y - center_y) ** 2)
         f = amp * (k / amp * dis + 1)
-        f[f < 0] = 0
-        return f
+        return np.maximum(f, 0)
 
     def total_flux(self, amp, k, center_x=0, center_y=0):
         """Integrated flux of the profile.
-- 
2.43.0


From 2426be870275b79f461a29eed4d76f3836fbc304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:57 +0000
Subject: [PATCH 067/109] fix: upper limits of the ellipticity of
 LINEAR_ELLIPSE are above the lower limits

---
 lenstronomy/LightModel/Profiles/linear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LightModel/Profiles/linear.py b/lenstronomy/LightModel/Profiles/linear.py
index f8bf43f..487d7cf 100644
--- a/lenstronomy/LightModel/Profiles/linear.py
+++ b/lenstronomy/LightModel/Profiles/linear.py
@@ -74,8 +74,8 @@ class LinearEllipse(object):
     upper_limit_default = {
         "k": 1000,
         "amp": 100,
-        "e1": -0.5,
-        "e2": -0.5,
+        "e1": 0.5,
+        "e2": 0.5,
         "center_x": 100,
         "center_y": 100,
     }
-- 
2.43.0


From ed10bbe3547081b8b029bb70e5f23b8c0429017f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:39 +0000
Subject: [PATCH 068/109] fix: upper limits of the ellipticity of Gaussian
 light profiles are above the lower limits

---
 lenstronomy/LightModel/Profiles/gaussian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/LightModel/Profiles/gaussian.py b/lenstronomy/LightModel/Profiles/gaussian.py
index 74806de..0c7b2e4 100644
--- a/lenstronomy/LightModel/Profiles/gaussian.py
+++ b/lenstronomy/LightModel/Profiles/gaussian.py
@@ -87,8 +87,8 @@ class GaussianEllipse(object):
     upper_limit_default = {
         "amp": 1000,
         "sigma": 100,
-        "e1": -0.5,
-        "e2": -0.5,
+        "e1": 0.5,
+        "e2": 0.5,
         "center_x": 100,
         "center_y": 100,
     }
@@ -247,8 +247,8 @@ class MultiGaussianEllipse(object):
     upper_limit_default = {
         "amp": 1000,
         "sigma": 100,
-        "e1": -0.5,
-        "e2": -0.5,
+        "e1": 0.5,
+        "e2": 0.5,
         "center_x": 100,
         "center_y": 100,
     }
-- 
2.43.0


From 9055b7cab6f78270994fd186b4dc1a4e8c63658c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:39 +0000
Subject: [PATCH 069/109] fix: the surface density of ElliSLICE has default
 limits

---
 lenstronomy/LensModel/Profiles/elliptical_density_slice.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/LensModel/Profiles/elliptical_density_slice.py b/lenstronomy/LensModel/Profiles/elliptical_density_slice.py
index ee0f98d..10eabde 100644
--- a/lenstronomy/LensModel/Profiles/elliptical_density_slice.py
+++ b/lenstronomy/LensModel/Profiles/elliptical_density_slice.py
@@ -41,6 +41,7 @@ class ElliSLICE(LensProfileBase):
         "a": 0.0,
         "b": 0.0,
         "psi": -90.0 / 180.0 * np.pi,
+        "sigma_0": 0.0,
         "center_x": -100.0,
         "center_y": -100.0,
     }
@@ -48,6 +49,7 @@ class ElliSLICE(LensProfileBase):
         "a": 100.0,
         "b": 100.0,
         "psi": 90.0 / 180.0 * np.pi,
+        "sigma_0": 100.0,
         "center_x": 100.0,
         "center_y": 100.0,
     }
-- 
2.43.0


From 5438ba812c65da27fd5bd37674ece26c4d778e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:39 +0000
Subject: [PATCH 070/109] fix: the half-light radius of CORE_SERSIC has default
 limits

---
 lenstronomy/LightModel/Profiles/sersic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/LightModel/Profiles/sersic.py b/lenstronomy/LightModel/Profiles/sersic.py
index 486f8a8..815bbe4 100644
--- a/lenstronomy/LightModel/Profiles/sersic.py
+++ b/lenstronomy/LightModel/Profiles/sersic.py
@@ -222,6 +222,7 @@ class CoreSersic(SersicUtil):
     ]
     lower_limit_default = {
         "amp": 0,
+        "R_sersic": 0,
         "Rb": 0,
         "n_sersic": 0.5,
         "gamma": 0,
@@ -232,6 +233,7 @@ class CoreSersic(SersicUtil):
     }
     upper_limit_default = {
         "amp": 100,
+        "R_sersic": 100,
         "Rb": 100,
         "n_sersic": 8,
         "gamma": 10,
-- 
2.43.0


From 52c0fc8eb185e84a282c044635db36e9ae3bc869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:57 +0000
Subject: [PATCH 071/109] fix: all likelihood terms are evaluated with the
 sampled cosmology of the current model

---
 lenstronomy/Sampling/likelihood.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lenstronomy/Sampling/likelihood.py b/lenstronomy/Sampling/likelihood.py
index 9717b6e..24b89fa 100644
--- a/lenstronomy/Sampling/likelihood.py
+++ b/lenstronomy/Sampling/likelihood.py
@@ -8,6 +8,7 @@ from lenstronomy.Sampling.Likelihoods.flux_ratio_likelihood import FluxRatioLike
 from lenstronomy.Sampling.Likelihoods.prior_likelihood import PriorLikelihood
 from lenstronomy.Sampling.Likelihoods.kinematic_2D_likelihood import KinLikelihood
 import lenstronomy.Util.class_creator as class_creator
+from lenstronomy.Util.cosmo_util import get_astropy_cosmology
 import numpy as np
 
 __all__ = ["Likelihood"]
@@ -293,6 +294,7 @@ class Likelihood(object):
             _,
         ) = class_creator.create_class_instances(all_models=True, **kwargs_model)
         self.PointSource = point_source_class
+        self._lens_model_class = lens_model_class
 
         if self._time_delay_likelihood is True:
             self.time_delay_likelihood = TimeDelayLikelihood(
@@ -574,3 +576,10 @@ class Likelihood(object):
                 kwargs_tracer=self._kwargs_tracer,
             )
         # TODO remove redundancies with Param() calls updates
+        if self._lens_model_class.cosmology_sampling:
+            self._lens_model_class.update_cosmology(
+                get_astropy_cosmology(
+                    cosmology_model=self._lens_model_class.cosmology_model,
+                    param_kwargs=kwargs_special,
+                )
+            )
-- 
2.43.0


From 60315929d4df54493d83c54e694b233732bc762f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:41 +0000
Subject: [PATCH 072/109] fix: the point source solver uses the sampled
 cosmology

---
 lenstronomy/Sampling/parameters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/Sampling/parameters.py b/lenstronomy/Sampling/parameters.py
index 77b8498..d6a6d6f 100644
--- a/lenstronomy/Sampling/parameters.py
+++ b/lenstronomy/Sampling/parameters.py
@@ -1063,6 +1063,8 @@ class Param(object):
                     num_images=self._num_images,
                     parameter_module=self._solver_param_module,
                 )
+        # distances of the sampled cosmology or distance ratios
+        self._image2SourceMapping.update_distances(kwargs_special)
 
     def check_solver(self, kwargs_lens, kwargs_ps):
         """Test whether the image positions map back to the same source position :param
-- 
2.43.0


From db749c94b3b494daaca9ce2a8523ba1c2541fbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:25 +0000
Subject: [PATCH 073/109] fix: an undefined (NaN) likelihood is a large
 penalty, as intended

---
 lenstronomy/Sampling/Likelihoods/image_likelihood.py    | 2 +-
 lenstronomy/Sampling/Likelihoods/position_likelihood.py | 2 +-
 lenstronomy/Sampling/Likelihoods/tracer_likelihood.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/Sampling/Likelihoods/image_likelihood.py b/lenstronomy/Sampling/Likelihoods/image_likelihood.py
index a16dd7a..d041d19 100644
--- a/lenstronomy/Sampling/Likelihoods/image_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/image_likelihood.py
@@ -82,7 +82,7 @@ class ImageLikelihood(object):
             linear_prior=self._linear_prior,
             check_positive_flux=self._check_positive_flux,
         )
-        if np.isnan(logL) is True:
+        if np.isnan(logL):
             return -(10**15), param
         return logL, param
 
diff --git a/lenstronomy/Sampling/Likelihoods/position_likelihood.py b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
index b5f12f1..2588081 100644
--- a/lenstronomy/Sampling/Likelihoods/position_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
@@ -199,7 +199,7 @@ class PositionLikelihood(object):
             )
             dist = (delta_x**2 + delta_y**2) / sigma**2 / 2
             logL = -np.sum(dist)
-            if np.isnan(logL) is True:
+            if np.isnan(logL):
                 return -(10**15)
             return logL
         else:
diff --git a/lenstronomy/Sampling/Likelihoods/tracer_likelihood.py b/lenstronomy/Sampling/Likelihoods/tracer_likelihood.py
index c16686f..9932e05 100644
--- a/lenstronomy/Sampling/Likelihoods/tracer_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/tracer_likelihood.py
@@ -71,7 +71,7 @@ class TracerLikelihood(object):
             kwargs_extinction=kwargs_extinction,
             kwargs_special=kwargs_special,
         )
-        if np.isnan(logL) is True:
+        if np.isnan(logL):
             return -(10**15)
         return logL
 
-- 
2.43.0


From 29344c175caa3ca7b6ec80b1ea7c62c0f57e218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:25 +0000
Subject: [PATCH 074/109] fix: number of time-delay data is the number of
 measured delays

---
 lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
index 318828a..f192b2a 100644
--- a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
@@ -237,4 +237,4 @@ class TimeDelayLikelihood(object):
 
         :return: number of time delay measurements
         """
-        return len(self._delays_measured)
+        return int(sum(np.sum(mask) for mask in self._measurement_bool_list))
-- 
2.43.0


From 50b577c632177faad770796528d6401fdeb67c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:25 +0000
Subject: [PATCH 075/109] fix: likelihood of bimodal time delays does not
 underflow

---
 lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
index f192b2a..3c3e281 100644
--- a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
@@ -164,7 +164,7 @@ class TimeDelayLikelihood(object):
                     logL2 = self._log_delay_masked(
                         delay_days=delay_days, mask=mask, i=1
                     )
-                    logL_sum = np.log(np.exp(logL1) + np.exp(logL2))
+                    logL_sum = np.logaddexp(logL1, logL2)
                     logL += logL_sum
                 else:
                     logL += self._log_delay_masked(
-- 
2.43.0


From e6d34e14ae0cc0fe17dc24edc060e402b9b81fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:25 +0000
Subject: [PATCH 076/109] fix: list of measured delays handed in is not altered

---
 lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
index 3c3e281..fea82b5 100644
--- a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
@@ -90,6 +90,7 @@ class TimeDelayLikelihood(object):
                 raise ValueError(
                     "time_delay_measurement_bool_list must have the same length as the number of point sources."
                 )
+            time_delay_measurement_bool_list = list(time_delay_measurement_bool_list)
             for i in range(self._num_point_sources):
                 if isinstance(
                     time_delay_measurement_bool_list[i], (bool, np.bool_, int)
-- 
2.43.0


From 795e1e79aae0d371a0bed15d219e18d0b5e9a723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:25 +0000
Subject: [PATCH 077/109] fix: source plane covariance for lensing matrices
 that are not symmetric (multi-plane)

---
 lenstronomy/Sampling/Likelihoods/position_likelihood.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Sampling/Likelihoods/position_likelihood.py b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
index 2588081..cee0701 100644
--- a/lenstronomy/Sampling/Likelihoods/position_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
@@ -335,5 +335,5 @@ def image2source_covariance(A, Sigma_theta):
     A: Hessian lensing matrix
     Sigma_theta: image plane covariance matrix of uncertainties
     """
-    ATSigma = np.matmul(A.T, Sigma_theta)
-    return np.matmul(ATSigma, A)
+    ASigma = np.matmul(A, Sigma_theta)
+    return np.matmul(ASigma, A.T)
-- 
2.43.0


From 723da6d4a0f7331dac4dfcefd3784025b46b1b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:25 +0000
Subject: [PATCH 078/109] fix: priors from samples on special and extinction
 parameters are not ignored

---
 .../Sampling/Likelihoods/prior_likelihood.py  | 39 +++++++++++++++++--
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/Sampling/Likelihoods/prior_likelihood.py b/lenstronomy/Sampling/Likelihoods/prior_likelihood.py
index 02203b9..5f20ef1 100644
--- a/lenstronomy/Sampling/Likelihoods/prior_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/prior_likelihood.py
@@ -73,7 +73,16 @@ class PriorLikelihood(object):
             self._prior_source_kde,
             self._prior_lens_light_kde,
             self._prior_ps_kde,
-        ) = (prior_lens_kde, prior_source_kde, prior_lens_light_kde, prior_ps_kde)
+            self._prior_special_kde,
+            self._prior_extinction_kde,
+        ) = (
+            prior_lens_kde,
+            prior_source_kde,
+            prior_lens_light_kde,
+            prior_ps_kde,
+            prior_special_kde,
+            prior_extinction_kde,
+        )
         (
             self._prior_lens_lognormal,
             self._prior_source_lognormal,
@@ -94,7 +103,8 @@ class PriorLikelihood(object):
         self._kde_source_list = self._init_kde(prior_source_kde)
         self._kde_lens_light_list = self._init_kde(prior_lens_light_kde)
         self._kde_ps_list = self._init_kde(prior_ps_kde)
-        self._kde_lens_light_list = self._init_kde(prior_lens_light_kde)
+        self._kde_special_list = self._init_kde(prior_special_kde)
+        self._kde_extinction_list = self._init_kde(prior_extinction_kde)
 
     @staticmethod
     def _init_kde(prior_list_kde):
@@ -107,7 +117,7 @@ class PriorLikelihood(object):
             return 0
         kde_list = []
         for prior in prior_list_kde:
-            index, param_name, samples = prior
+            samples = prior[-1]
             kde_list.append(KDE1D(values=samples))
         return kde_list
 
@@ -161,6 +171,12 @@ class PriorLikelihood(object):
             kwargs_lens_light, self._prior_lens_light_kde, self._kde_lens_light_list
         )
         logL += self._prior_kde_list(kwargs_ps, self._prior_ps_kde, self._kde_ps_list)
+        logL += self._prior_kde(
+            kwargs_special, self._prior_special_kde, self._kde_special_list
+        )
+        logL += self._prior_kde_list(
+            kwargs_extinction, self._prior_extinction_kde, self._kde_extinction_list
+        )
         return logL
 
     @staticmethod
@@ -181,6 +197,23 @@ class PriorLikelihood(object):
             logL += np.log(likelihood)
         return logL
 
+    @staticmethod
+    def _prior_kde(kwargs, prior_list, kde_list):
+        """Prior computation for a keyword argument (not list thereof)
+
+        :param kwargs: keyword argument
+        :param prior_list: prior list
+        :param kde_list: list of kernel density estimators of the prior list
+        :return: logL
+        """
+        if prior_list is None:
+            return 0
+        logL = 0
+        for i in range(len(prior_list)):
+            param_name, values = prior_list[i]
+            logL += np.log(kde_list[i].likelihood(kwargs[param_name])[0])
+        return logL
+
     @staticmethod
     def _prior_kwargs_list(kwargs_list, prior_list):
         """
-- 
2.43.0


From bd1d7bf09ab207a084350e4cd62d6ca185e87969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:36 +0000
Subject: [PATCH 079/109] fix: astrometric offsets stay with their images when
 others have no flux or are not selected

---
 lenstronomy/ImSim/image_model.py        | 40 +++++++++++++++++++++++--
 lenstronomy/PointSource/point_source.py |  8 +++--
 2 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/lenstronomy/ImSim/image_model.py b/lenstronomy/ImSim/image_model.py
index 463e215..d4a4d42 100644
--- a/lenstronomy/ImSim/image_model.py
+++ b/lenstronomy/ImSim/image_model.py
@@ -572,11 +572,19 @@ class ImageModel(object):
         if self.PointSource is None:
             return point_source_image
         ra_pos, dec_pos, amp = self.PointSource.point_source_list(
-            kwargs_ps, kwargs_lens=kwargs_lens, k=k
+            kwargs_ps, kwargs_lens=kwargs_lens, k=k, remove_zero_amp=False
         )
         ra_pos, dec_pos = self._displace_astrometry(
-            ra_pos, dec_pos, kwargs_special=kwargs_special
+            ra_pos,
+            dec_pos,
+            kwargs_special=self._select_displacements(
+                kwargs_special, kwargs_ps, kwargs_lens, k=k
+            ),
         )
+        # images with zero amplitude do not have to be rendered
+        amp = np.array(amp)
+        ra_pos, dec_pos = np.array(ra_pos)[amp != 0], np.array(dec_pos)[amp != 0]
+        amp = amp[amp != 0]
 
         # Scale point source amplitude (amp) by the primary beam response, if applicable.
         if apply_primary_beam and self._pb is not None:
@@ -836,7 +844,11 @@ class ImageModel(object):
                     )
                     if len(ra_pos) > 0:
                         ra_pos, dec_pos = self._displace_astrometry(
-                            ra_pos, dec_pos, kwargs_special=kwargs_special
+                            ra_pos,
+                            dec_pos,
+                            kwargs_special=self._select_displacements(
+                                kwargs_special, kwargs_ps, kwargs_lens, k=k
+                            ),
                         )
                         error_map += self.ImageNumerics.psf_variance_map(
                             ra_pos,
@@ -847,6 +859,28 @@ class ImageModel(object):
                         )
         return error_map
 
+    def _select_displacements(self, kwargs_special, kwargs_ps, kwargs_lens, k=None):
+        """Selects the astrometric shifts that belong to the images of a subset of the
+        point source models.
+
+        :param kwargs_special: keyword arguments, can contain 'delta_x_image' and
+            'delta_y_image' in order of the images of all point source models
+        :param kwargs_ps: point source keyword arguments
+        :param kwargs_lens: lens model keyword arguments
+        :param k: None, int or list of int's of the point source models being selected
+        :return: kwargs_special with the shifts of the selected point source models
+        """
+        if k is None or kwargs_special is None or "delta_x_image" not in kwargs_special:
+            return kwargs_special
+        x_pos_list, _ = self.PointSource.image_position(kwargs_ps, kwargs_lens)
+        bool_list = util.convert_bool_list(len(x_pos_list), k=k)
+        selected = np.repeat(bool_list, [len(x_pos) for x_pos in x_pos_list])
+        kwargs_special = dict(kwargs_special)
+        for name in ["delta_x_image", "delta_y_image"]:
+            delta = np.array(kwargs_special[name])
+            kwargs_special[name] = delta[: len(selected)][selected[: len(delta)]]
+        return kwargs_special
+
     @staticmethod
     def _displace_astrometry(x_pos, y_pos, kwargs_special=None):
         """Displaces point sources by shifts specified in kwargs_special.
diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index c13566c..4ce40f8 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -305,7 +305,9 @@ class PointSource(object):
                 y_image_list.append(y_image)
         return x_image_list, y_image_list
 
-    def point_source_list(self, kwargs_ps, kwargs_lens, k=None, with_amp=True):
+    def point_source_list(
+        self, kwargs_ps, kwargs_lens, k=None, with_amp=True, remove_zero_amp=True
+    ):
         """Returns the coordinates and amplitudes of all point sources in a single
         array.
 
@@ -315,6 +317,8 @@ class PointSource(object):
             models in the return
         :param with_amp: bool, if False, ignores the amplitude parameters in the return
             and instead provides ones for each point source image
+        :param remove_zero_amp: bool, if True, images with zero amplitude are left out
+            (only when with_amp is True)
         :return: ra_array, dec_array, amp_array
         """
         # here we save the cache of the individual models but do not overwrite the class boolean variable to do so
@@ -333,7 +337,7 @@ class PointSource(object):
         for i, ra in enumerate(ra_list):
             for j in range(len(ra)):
                 # Remove images with zero amplitude so that they do not have to be rendered.
-                if with_amp is True and amp_list[i][j] == 0:
+                if remove_zero_amp and with_amp is True and amp_list[i][j] == 0:
                     continue
 
                 ra_array.append(ra_list[i][j])
-- 
2.43.0


From 5af6ee0657508fe5a8be1cf5dafee34e2a682ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:29 +0000
Subject: [PATCH 080/109] fix: point sources leave the source redshift of the
 lens model they share unchanged

---
 lenstronomy/PointSource/Types/base_ps.py      | 25 +++++++++++++
 .../PointSource/Types/lensed_position.py      | 10 +++++-
 .../PointSource/Types/source_position.py      |  4 +++
 lenstronomy/PointSource/point_source.py       | 35 +++++++++++++++----
 4 files changed, 67 insertions(+), 7 deletions(-)

diff --git a/lenstronomy/PointSource/Types/base_ps.py b/lenstronomy/PointSource/Types/base_ps.py
index cf61233..d296c86 100644
--- a/lenstronomy/PointSource/Types/base_ps.py
+++ b/lenstronomy/PointSource/Types/base_ps.py
@@ -1,9 +1,34 @@
 from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver
+import functools
 import numpy as np
 
 __all__ = ["PSBase", "_expand_to_array", "_shrink_array"]
 
 
+def _keep_source_redshift(func):
+    """Decorator for methods that change the source redshift of the lens model to the
+    one of a point source.
+
+    The lens model is shared with other parts of the model and recovers its source
+    redshift when the method is done.
+
+    :param func: method of a class with a _lens_model attribute
+    :return: wrapped method
+    """
+
+    @functools.wraps(func)
+    def wrapper(self, *args, **kwargs):
+        lens_model = self._lens_model
+        z_source = getattr(lens_model, "z_source", None)
+        try:
+            return func(self, *args, **kwargs)
+        finally:
+            if z_source is not None:
+                lens_model.change_source_redshift(z_source)
+
+    return wrapper
+
+
 class PSBase(object):
     """Base point source type class."""
 
diff --git a/lenstronomy/PointSource/Types/lensed_position.py b/lenstronomy/PointSource/Types/lensed_position.py
index 0561e44..7941840 100644
--- a/lenstronomy/PointSource/Types/lensed_position.py
+++ b/lenstronomy/PointSource/Types/lensed_position.py
@@ -1,5 +1,9 @@
 import numpy as np
-from lenstronomy.PointSource.Types.base_ps import PSBase, _expand_to_array
+from lenstronomy.PointSource.Types.base_ps import (
+    PSBase,
+    _expand_to_array,
+    _keep_source_redshift,
+)
 
 __all__ = ["LensedPositions"]
 
@@ -22,6 +26,7 @@ class LensedPositions(PSBase):
     #    super(LensedPositions, self).__init__(lens_model=lens_model, fixed_magnification=fixed_magnification,
     #                                          additional_image=additional_image)
 
+    @_keep_source_redshift
     def image_position(
         self,
         kwargs_ps,
@@ -64,6 +69,7 @@ class LensedPositions(PSBase):
             dec_image = kwargs_ps["dec_image"]
         return np.array(ra_image), np.array(dec_image)
 
+    @_keep_source_redshift
     def source_position(self, kwargs_ps, kwargs_lens=None):
         """Original source position (prior to lensing)
 
@@ -92,6 +98,7 @@ class LensedPositions(PSBase):
         y_source = np.mean(y_source)
         return np.array(x_source), np.array(y_source)
 
+    @_keep_source_redshift
     def image_amplitude(
         self,
         kwargs_ps,
@@ -145,6 +152,7 @@ class LensedPositions(PSBase):
                 point_amp = _expand_to_array(point_amp, len(x_pos))
         return np.array(point_amp)
 
+    @_keep_source_redshift
     def source_amplitude(self, kwargs_ps, kwargs_lens=None):
         """Intrinsic brightness amplitude of point source When brightnesses are defined
         in magnified on-sky positions, the intrinsic brightness is computed as the mean
diff --git a/lenstronomy/PointSource/Types/source_position.py b/lenstronomy/PointSource/Types/source_position.py
index aa6224b..7c9d8fa 100644
--- a/lenstronomy/PointSource/Types/source_position.py
+++ b/lenstronomy/PointSource/Types/source_position.py
@@ -1,5 +1,6 @@
 import numpy as np
 from lenstronomy.PointSource.Types.base_ps import (
+    _keep_source_redshift,
     PSBase,
     _expand_to_array,
     _shrink_array,
@@ -21,6 +22,7 @@ class SourcePositions(PSBase):
     :param mag_pert: optional list of fractional magnification pertubations applied to point source images
     """
 
+    @_keep_source_redshift
     def image_position(
         self,
         kwargs_ps,
@@ -65,6 +67,7 @@ class SourcePositions(PSBase):
         dec_source = kwargs_ps["dec_source"]
         return np.array(ra_source), np.array(dec_source)
 
+    @_keep_source_redshift
     def image_amplitude(
         self,
         kwargs_ps,
@@ -110,6 +113,7 @@ class SourcePositions(PSBase):
         mag_pert = _shrink_array(mag_pert, len(point_amp))
         return np.array(point_amp) * np.array(mag_pert)
 
+    @_keep_source_redshift
     def source_amplitude(self, kwargs_ps, kwargs_lens=None):
         """Intrinsic brightness amplitude of point source When brightnesses are defined
         in magnified on-sky positions, the intrinsic brightness is computed as the mean
diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index 4ce40f8..47f3f10 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -2,6 +2,7 @@ import numpy as np
 import copy
 from lenstronomy.Util.util import convert_bool_list
 from lenstronomy.PointSource.point_source_cached import PointSourceCached
+from lenstronomy.PointSource.Types.base_ps import _keep_source_redshift
 
 __all__ = ["PointSource"]
 
@@ -433,8 +434,7 @@ class PointSource(object):
                     if with_amp:
                         mag = self.image_amplitude(kwargs_ps, kwargs_lens, k=i)[0]
                     else:
-                        self._lens_model.change_source_redshift(self._redshift_list[i])
-                        mag = self._lens_model.magnification(x_pos, y_pos, kwargs_lens)
+                        mag = self._magnification(i, x_pos, y_pos, kwargs_lens)
                         mag = np.abs(mag)
                     amp.append(list(mag))
                 else:
@@ -494,6 +494,32 @@ class PointSource(object):
                         param.append(a)
         return param
 
+    @_keep_source_redshift
+    def _magnification(self, i, x_pos, y_pos, kwargs_lens):
+        """Lensing magnification at the redshift of a point source model.
+
+        :param i: index of point source model
+        :param x_pos: image position
+        :param y_pos: image position
+        :param kwargs_lens: lens model keyword argument list
+        :return: magnification
+        """
+        self._lens_model.change_source_redshift(self._redshift_list[i])
+        return self._lens_model.magnification(x_pos, y_pos, kwargs_lens)
+
+    @_keep_source_redshift
+    def _ray_shooting(self, i, x_pos, y_pos, kwargs_lens):
+        """Ray-tracing to the redshift of a point source model.
+
+        :param i: index of point source model
+        :param x_pos: image position
+        :param y_pos: image position
+        :param kwargs_lens: lens model keyword argument list
+        :return: source position
+        """
+        self._lens_model.change_source_redshift(self._redshift_list[i])
+        return self._lens_model.ray_shooting(x_pos, y_pos, kwargs_lens)
+
     def check_image_positions(self, kwargs_ps, kwargs_lens, tolerance=0.001):
         """Checks whether the point sources in kwargs_ps satisfy the lens equation with
         a tolerance (computed by ray-tracing in the source plane)
@@ -509,10 +535,7 @@ class PointSource(object):
             if model in ["LENSED_POSITION", "SOURCE_POSITION"]:
                 x_pos = x_image_list[i]
                 y_pos = y_image_list[i]
-                self._lens_model.change_source_redshift(self._redshift_list[i])
-                x_source, y_source = self._lens_model.ray_shooting(
-                    x_pos, y_pos, kwargs_lens
-                )
+                x_source, y_source = self._ray_shooting(i, x_pos, y_pos, kwargs_lens)
                 dist = np.sqrt(
                     (x_source - x_source[0]) ** 2 + (y_source - y_source[0]) ** 2
                 )
-- 
2.43.0


From d18fbb7779d493146ad7d6ffbef33ff4166ab7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:12 +0000
Subject: [PATCH 081/109] fix: stochastic lens equation solver does not list an
 image twice

---
 lenstronomy/LensModel/Solver/lens_equation_solver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/Solver/lens_equation_solver.py b/lenstronomy/LensModel/Solver/lens_equation_solver.py
index 7077f0d..bd55112 100644
--- a/lenstronomy/LensModel/Solver/lens_equation_solver.py
+++ b/lenstronomy/LensModel/Solver/lens_equation_solver.py
@@ -93,7 +93,11 @@ class LensEquationSolver(object):
                 x_solve.append(result.x[0])
                 y_solve.append(result.x[1])
 
-        x_mins, y_mins = image_util.findOverlap(x_solve, y_solve, precision_limit)
+        # a precision in the source plane translates to at most its square root in the
+        # image plane (at a fold)
+        x_mins, y_mins = image_util.findOverlap(
+            x_solve, y_solve, np.sqrt(precision_limit)
+        )
         if arrival_time_sort:
             x_mins, y_mins = self.sort_arrival_times(x_mins, y_mins, kwargs_lens)
         self.lensModel.set_dynamic()
-- 
2.43.0


From 8c2b3d6eb01ecb5324214ac2e595aad9f23771fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:26 +0000
Subject: [PATCH 082/109] fix: strength of shear and ellipticity are kept when
 the solver sets their direction

---
 lenstronomy/LensModel/lens_param.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lenstronomy/LensModel/lens_param.py b/lenstronomy/LensModel/lens_param.py
index 866de1b..4e2c8e1 100644
--- a/lenstronomy/LensModel/lens_param.py
+++ b/lenstronomy/LensModel/lens_param.py
@@ -189,6 +189,20 @@ class LensParam(object):
                         "f_yy",
                     ]:
                         pass
+                    elif (
+                        self._solver_type == "THETA_E_PHI"
+                        and k == 1
+                        and name == "gamma1"
+                    ):
+                        # the direction of the shear is solved for, its strength sampled
+                        args.append(np.hypot(kwargs["gamma1"], kwargs["gamma2"]))
+                    elif (
+                        self._solver_type == "THETA_E_ELLIPSE"
+                        and k == 0
+                        and name == "e1"
+                    ):
+                        # the position angle is solved for, the ellipticity sampled
+                        args.append(np.hypot(kwargs["e1"], kwargs["e2"]))
                     # elif self._solver_type == 'PROFILE_SHEAR' and k == 1:
                     #    if name == 'e1':
                     #        _, gamma_ext = param_util.ellipticity2phi_gamma(kwargs['e1'], kwargs['e2'])
-- 
2.43.0


From 2eb5573f96fecf050b54dc8b8f4c19a40fefc7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:40 +0000
Subject: [PATCH 083/109] fix: frames that are one pixel wide can be evaluated
 on the regular grid

---
 lenstronomy/ImSim/Numerics/grid.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/ImSim/Numerics/grid.py b/lenstronomy/ImSim/Numerics/grid.py
index b0b4ff9..b968cde 100644
--- a/lenstronomy/ImSim/Numerics/grid.py
+++ b/lenstronomy/ImSim/Numerics/grid.py
@@ -219,8 +219,16 @@ class RegularGrid(Coordinates1D):
             flux_evaluate_indexes, self._supersampling_factor, self._nx, self._ny
         )
 
-        x_grid_sub, y_grid_sub = util.make_subgrid(
-            self._x_grid, self._y_grid, self._supersampling_factor, nx=nx, ny=ny
+        # coordinates of the sub-pixels
+        offset = -1 / 2.0 + 1 / (2.0 * self._supersampling_factor)
+        ra_0_sub, dec_0_sub = self.map_pix2coord(offset, offset)
+        sub_grid = Coordinates1D(
+            np.array(transform_pix2angle) / self._supersampling_factor,
+            ra_0_sub,
+            dec_0_sub,
+        )
+        x_grid_sub, y_grid_sub = sub_grid.coordinate_grid(
+            nx * self._supersampling_factor, ny * self._supersampling_factor
         )
         self._ra_subgrid = x_grid_sub[self._compute_indexes]
         self._dec_subgrid = y_grid_sub[self._compute_indexes]
-- 
2.43.0


From 02b2a62608581107380071ef0eae5f3b9fd4a234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:40 +0000
Subject: [PATCH 084/109] fix: kernels of any odd size can be degraded by an
 odd factor

---
 lenstronomy/Util/kernel_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/kernel_util.py b/lenstronomy/Util/kernel_util.py
index 291eaae..eb80c50 100644
--- a/lenstronomy/Util/kernel_util.py
+++ b/lenstronomy/Util/kernel_util.py
@@ -439,7 +439,7 @@ def degrade_kernel(kernel_super, degrading_factor):
 def averaging_odd_kernel(kernel_super, degrading_factor):
     """"""
     n_kernel = len(kernel_super)
-    num_pix = int(round(n_kernel / degrading_factor))
+    num_pix = int(np.ceil(n_kernel / degrading_factor))
     if num_pix % 2 == 0:
         num_pix += 1
     n_high = num_pix * degrading_factor
-- 
2.43.0


From 6cd80a8d6fa1f16b4f836a0144b917d7aebf5adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:40 +0000
Subject: [PATCH 085/109] fix: partial images of rectangular frames have the
 shape of the frame

---
 lenstronomy/ImSim/Numerics/partial_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/Numerics/partial_image.py b/lenstronomy/ImSim/Numerics/partial_image.py
index e565721..c6a37be 100644
--- a/lenstronomy/ImSim/Numerics/partial_image.py
+++ b/lenstronomy/ImSim/Numerics/partial_image.py
@@ -14,7 +14,7 @@ class PartialImage(object):
         :param partial_read_bools: 2d numpy array of bools indicating which indexes to be processed
         """
         self._partial_read_bools = np.array(partial_read_bools, dtype=bool)
-        self._nx, self._ny = np.shape(partial_read_bools)
+        self._ny, self._nx = np.shape(partial_read_bools)
         self._partial_read_bools_array = util.image2array(partial_read_bools)
         self._num_partial = int(np.sum(self._partial_read_bools_array))
 
-- 
2.43.0


From 9ab32a996876d04d27aa19c5b4d23e20104be2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:16 +0000
Subject: [PATCH 086/109] fix: options of profiles are selected together with
 the models of a band

---
 lenstronomy/Util/class_creator.py | 44 ++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/lenstronomy/Util/class_creator.py b/lenstronomy/Util/class_creator.py
index 6ace033..b64a359 100644
--- a/lenstronomy/Util/class_creator.py
+++ b/lenstronomy/Util/class_creator.py
@@ -14,6 +14,18 @@ import warnings
 export, __all__ = exporter()
 
 
+def _select(values, indexes):
+    """Selects the entries of a list that belong to the models of a band.
+
+    :param values: list with an entry per model, or None
+    :param indexes: indexes of the models of the band
+    :return: list with an entry per model of the band, or None
+    """
+    if values is None:
+        return None
+    return [values[k] for k in indexes]
+
+
 @export
 def create_class_instances(
     lens_model_list=None,
@@ -144,7 +156,11 @@ def create_class_instances(
         lens_model_list_i = lens_model_list
         lens_redshift_list_i = lens_redshift_list
         observed_convention_index_i = observed_convention_index
+        lens_profile_kwargs_list_i = lens_profile_kwargs_list
     else:
+        lens_profile_kwargs_list_i = _select(
+            lens_profile_kwargs_list, index_lens_model_list[band_index]
+        )
         lens_model_list_i = [
             lens_model_list[k] for k in index_lens_model_list[band_index]
         ]
@@ -176,7 +192,7 @@ def create_class_instances(
         cosmology_sampling=cosmology_sampling,
         cosmology_model=cosmology_model,
         observed_convention_index=observed_convention_index_i,
-        profile_kwargs_list=lens_profile_kwargs_list,
+        profile_kwargs_list=lens_profile_kwargs_list_i,
         decouple_multi_plane=decouple_multi_plane,
         kwargs_multiplane_model=kwargs_multiplane_model,
     )
@@ -187,11 +203,11 @@ def create_class_instances(
             z_lens=z_lens,
             z_source=z_source,
             z_source_convention=z_source_convention,
-            lens_redshift_list=lens_redshift_list,
+            lens_redshift_list=lens_redshift_list_i,
             multi_plane=multi_plane,
             cosmo=cosmo,
-            observed_convention_index=observed_convention_index,
-            profile_kwargs_list=lens_profile_kwargs_list,
+            observed_convention_index=observed_convention_index_i,
+            profile_kwargs_list=lens_profile_kwargs_list_i,
             decouple_multi_plane=decouple_multi_plane,
             kwargs_multiplane_model=kwargs_multiplane_model_point_source,
         )
@@ -202,7 +218,12 @@ def create_class_instances(
         source_light_model_list_i = source_light_model_list
         source_deflection_scaling_list_i = source_deflection_scaling_list
         source_redshift_list_i = source_redshift_list
+        source_light_profile_kwargs_list_i = source_light_profile_kwargs_list
     else:
+        source_light_profile_kwargs_list_i = _select(
+            source_light_profile_kwargs_list,
+            index_source_light_model_list[band_index],
+        )
         source_light_model_list_i = [
             source_light_model_list[k]
             for k in index_source_light_model_list[band_index]
@@ -225,18 +246,22 @@ def create_class_instances(
         light_model_list=source_light_model_list_i,
         deflection_scaling_list=source_deflection_scaling_list_i,
         source_redshift_list=source_redshift_list_i,
-        profile_kwargs_list=source_light_profile_kwargs_list,
+        profile_kwargs_list=source_light_profile_kwargs_list_i,
     )
 
     if index_lens_light_model_list is None or all_models is True:
         lens_light_model_list_i = lens_light_model_list
+        lens_light_profile_kwargs_list_i = lens_light_profile_kwargs_list
     else:
+        lens_light_profile_kwargs_list_i = _select(
+            lens_light_profile_kwargs_list, index_lens_light_model_list[band_index]
+        )
         lens_light_model_list_i = [
             lens_light_model_list[k] for k in index_lens_light_model_list[band_index]
         ]
     lens_light_model_class = LightModel(
         light_model_list=lens_light_model_list_i,
-        profile_kwargs_list=lens_light_profile_kwargs_list,
+        profile_kwargs_list=lens_light_profile_kwargs_list_i,
     )
 
     point_source_model_list_i = point_source_model_list
@@ -296,11 +321,16 @@ def create_class_instances(
             optical_depth_model_list[k]
             for k in index_optical_depth_model_list[band_index]
         ]
+        optical_depth_profile_kwargs_list_i = _select(
+            optical_depth_profile_kwargs_list,
+            index_optical_depth_model_list[band_index],
+        )
     else:
         optical_depth_model_list_i = optical_depth_model_list
+        optical_depth_profile_kwargs_list_i = optical_depth_profile_kwargs_list
     extinction_class = DifferentialExtinction(
         optical_depth_model=optical_depth_model_list_i,
-        profile_kwargs_list=optical_depth_profile_kwargs_list,
+        profile_kwargs_list=optical_depth_profile_kwargs_list_i,
         tau0_index=tau0_index,
     )
     return (
-- 
2.43.0


From e22d8124aa3ec22865baa950c5ca46960f62a88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:50 +0000
Subject: [PATCH 087/109] fix: dynesty returns the likelihood of each of the
 samples it returns

---
 lenstronomy/Sampling/Samplers/dynesty_sampler.py | 4 +++-
 lenstronomy/Workflow/fitting_sequence.py         | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/Sampling/Samplers/dynesty_sampler.py b/lenstronomy/Sampling/Samplers/dynesty_sampler.py
index 96ef27e..e1b955f 100644
--- a/lenstronomy/Sampling/Samplers/dynesty_sampler.py
+++ b/lenstronomy/Sampling/Samplers/dynesty_sampler.py
@@ -115,7 +115,9 @@ class DynestySampler(NestedSampler):
         means, covs = self._dyfunc.mean_and_cov(samples_w, weights)
 
         # Resample weighted samples to get equally weighted (aka unweighted) samples
-        samples = self._dyfunc.resample_equal(samples_w, weights)
+        # together with their likelihood
+        indexes = self._dyfunc.resample_equal(np.arange(len(weights)), weights)
+        samples, log_l = samples_w[indexes], log_l[indexes]
 
         return samples, means, log_z, log_z_err, log_l, results
 
diff --git a/lenstronomy/Workflow/fitting_sequence.py b/lenstronomy/Workflow/fitting_sequence.py
index 7d51085..ac15a7c 100644
--- a/lenstronomy/Workflow/fitting_sequence.py
+++ b/lenstronomy/Workflow/fitting_sequence.py
@@ -574,8 +574,9 @@ class FittingSequence(object):
             samples, means, logZ, logZ_err, logL, results_object = sampler.run(
                 kwargs_run
             )
-            # samples are resampled in random order, logL belongs to the weighted samples
-            best_fit_sample = results_object.samples[np.argmax(logL)]
+            # the best of all samples, also of those that are not among the
+            # equally weighted ones
+            best_fit_sample = results_object.samples[np.argmax(results_object.logl)]
 
         # update current best fit values
         self._update_state(best_fit_sample)
-- 
2.43.0


From 4c109840e421d9618f54f54cfaad8c9690bb033f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:50 +0000
Subject: [PATCH 088/109] fix: cobaya samples every entry of parameters with
 several entries

---
 lenstronomy/Sampling/Samplers/cobaya_sampler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/Samplers/cobaya_sampler.py b/lenstronomy/Sampling/Samplers/cobaya_sampler.py
index 69ee969..f161db8 100644
--- a/lenstronomy/Sampling/Samplers/cobaya_sampler.py
+++ b/lenstronomy/Sampling/Samplers/cobaya_sampler.py
@@ -33,7 +33,13 @@ class CobayaSampler(object):
         # get the logL and parameter info from Likelihood
         self._check_install()
         self._likelihood_module = likelihood_class
-        self._num_params, self._param_names = self._likelihood_module.param.num_param()
+        self._num_params, names = self._likelihood_module.param.num_param()
+        # cobaya refers to parameters by name: parameters with several entries
+        # (e.g. image positions) share a name and are numbered
+        self._param_names = [
+            name if names.count(name) == 1 else "%s_%s" % (name, names[:i].count(name))
+            for i, name in enumerate(names)
+        ]
         (
             self._lower_limit,
             self._upper_limit,
-- 
2.43.0


From b2856e78010d217148f03abc32dbefc14b8d5e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:34 +0000
Subject: [PATCH 089/109] fix: the hole of a rotated frame aperture is rotated
 as well

---
 lenstronomy/GalKin/aperture_types.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/GalKin/aperture_types.py b/lenstronomy/GalKin/aperture_types.py
index 5c508a5..3b20319 100644
--- a/lenstronomy/GalKin/aperture_types.py
+++ b/lenstronomy/GalKin/aperture_types.py
@@ -266,8 +266,11 @@ class Frame(ApertureBase):
             self._angle,
         )
         bins = np.zeros_like(x_grid, dtype=int)
-        mask_inner = (np.abs(x_grid - center_ra) < width_inner / 2) & (
-            np.abs(y_grid - center_dec) < width_inner / 2
+        x_frame, y_frame = _rotate(
+            x_grid - center_ra, y_grid - center_dec, angle=-angle
+        )
+        mask_inner = (np.abs(x_frame) < width_inner / 2) & (
+            np.abs(y_frame) < width_inner / 2
         )
         bins[mask_inner] = -1
 
-- 
2.43.0


From 47cbc7bce688270f0b170fe328fd0bac1c364c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:34 +0000
Subject: [PATCH 090/109] fix: shells of an aperture are centred on the
 aperture

---
 lenstronomy/GalKin/aperture_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/GalKin/aperture_types.py b/lenstronomy/GalKin/aperture_types.py
index 3b20319..bf0620b 100644
--- a/lenstronomy/GalKin/aperture_types.py
+++ b/lenstronomy/GalKin/aperture_types.py
@@ -348,7 +348,7 @@ class Shell(ApertureBase):
             self._center_ra,
             self._center_dec,
         )
-        r_grid = np.sqrt(x_grid**2 + y_grid**2)
+        r_grid = np.sqrt((x_grid - center_ra) ** 2 + (y_grid - center_dec) ** 2)
         bins = np.zeros_like(x_grid, dtype=int)
         bins[r_grid < self._r_in] = -1
         bins[r_grid > self._r_out] = -1
@@ -518,7 +518,7 @@ class IFUShells(ApertureBase):
             center_ra,
             center_dec,
         )
-        r_grid = np.sqrt(x_grid**2 + y_grid**2)
+        r_grid = np.sqrt((x_grid - center_ra) ** 2 + (y_grid - center_dec) ** 2)
         bins = np.ones_like(x_grid, dtype=int) * -1
         for i in range(len(r_bins) - 1):
             mask = (r_grid >= r_bins[i]) & (r_grid < r_bins[i + 1])
-- 
2.43.0


From 85bea487005d4554a73db74e14ff7b94ca467a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:09 +0000
Subject: [PATCH 091/109] fix: positions are assigned to pixels of rotated or
 flipped IFU grids

---
 lenstronomy/GalKin/aperture_types.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lenstronomy/GalKin/aperture_types.py b/lenstronomy/GalKin/aperture_types.py
index bf0620b..8ca0d5b 100644
--- a/lenstronomy/GalKin/aperture_types.py
+++ b/lenstronomy/GalKin/aperture_types.py
@@ -443,7 +443,7 @@ class IFUGrid(ApertureBase):
         :param dec: angular coordinate of photon/ray
         :return: bool, True if photon/ray is within the slit, False otherwise, index of shell
         """
-        return grid_ifu_select(ra, dec, self._x_grid, self._y_grid)
+        return grid_ifu_select(ra, dec, self._x_grid, self._y_grid, self._angle)
 
     @property
     def num_segments(self):
@@ -465,17 +465,21 @@ class IFUGrid(ApertureBase):
 
 
 @export
-def grid_ifu_select(ra, dec, x_grid, y_grid):
+def grid_ifu_select(ra, dec, x_grid, y_grid, angle=0):
     """
 
     :param ra: angular coordinate of photon/ray
     :param dec: angular coordinate of photon/ray
     :param x_grid: array of x_grid bins
     :param y_grid: array of y_grid bins
+    :param angle: position angle of the grid in radians
     :return: boolean, True if within the grid range, False otherwise
     """
-    x_pixel_size = x_grid[0, 1] - x_grid[0, 0]
-    y_pixel_size = y_grid[1, 0] - y_grid[0, 0]
+    # rotate to align with RA axis
+    ra, dec = _rotate(ra, dec, angle=-angle)
+    x_grid, y_grid = _rotate(x_grid, y_grid, angle=-angle)
+    x_pixel_size = np.abs(x_grid[0, 1] - x_grid[0, 0])
+    y_pixel_size = np.abs(y_grid[1, 0] - y_grid[0, 0])
 
     for i in range(x_grid.shape[0]):
         for j in range(x_grid.shape[1]):
@@ -605,7 +609,9 @@ class IFUBinned(ApertureBase):
         :param dec: angular coordinate of photon/ray
         :return: bool, True if photon/ray is within the slit, False otherwise, and bin id
         """
-        in_grid, grid_loc = grid_ifu_select(ra, dec, self._x_grid, self._y_grid)
+        in_grid, grid_loc = grid_ifu_select(
+            ra, dec, self._x_grid, self._y_grid, self._angle
+        )
         if in_grid:
             bin_id = self.bins[grid_loc]
             if bin_id > -1:
-- 
2.43.0


From 980ff5394b022125eab4c1c186e0527545775b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:56 +0000
Subject: [PATCH 092/109] fix: dispersion maps of rectangular, off-centre and
 rotated IFU grids

---
 lenstronomy/GalKin/aperture_types.py |  5 +++++
 lenstronomy/GalKin/galkin.py         | 30 +++++++++++-----------------
 2 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/lenstronomy/GalKin/aperture_types.py b/lenstronomy/GalKin/aperture_types.py
index 8ca0d5b..ada864d 100644
--- a/lenstronomy/GalKin/aperture_types.py
+++ b/lenstronomy/GalKin/aperture_types.py
@@ -101,6 +101,11 @@ class ApertureBase:
     def delta_pix(self):
         return self._delta_pix
 
+    @property
+    def angle(self):
+        """Position angle in radians."""
+        return self._angle
+
     @property
     def padding_arcsec(self):
         return self._padding_arcsec
diff --git a/lenstronomy/GalKin/galkin.py b/lenstronomy/GalKin/galkin.py
index 9352d0c..c874cce 100644
--- a/lenstronomy/GalKin/galkin.py
+++ b/lenstronomy/GalKin/galkin.py
@@ -1,5 +1,6 @@
 from lenstronomy.GalKin.observation import GalkinObservation
 from lenstronomy.GalKin.galkin_model import GalkinModel
+from lenstronomy.GalKin.aperture_types import make_supersampled_grid, _rotate
 
 import numpy as np
 from scipy.signal import convolve2d
@@ -175,8 +176,10 @@ class Galkin(GalkinModel, GalkinObservation):
 
         :return: delta_x, delta_y
         """
-        x_grid = self._aperture.x_grid
-        y_grid = self._aperture.y_grid
+        # rotate to align with RA axis
+        x_grid, y_grid = _rotate(
+            self._aperture.x_grid, self._aperture.y_grid, angle=-self._aperture.angle
+        )
         delta_x = x_grid[0, 1] - x_grid[0, 0]
         delta_y = y_grid[1, 0] - y_grid[0, 0]
 
@@ -193,22 +196,14 @@ class Galkin(GalkinModel, GalkinObservation):
         mass_center_x, mass_center_y = self._extract_center(kwargs_mass)
 
         delta_x, delta_y = self._delta_pix_xy()
-        assert np.abs(delta_x) == np.abs(delta_y)
+        assert np.isclose(np.abs(delta_x), np.abs(delta_y), rtol=1e-3)
 
         x_grid = self._aperture.x_grid
         y_grid = self._aperture.y_grid
 
-        new_delta_x = delta_x / supersampling_factor
-        new_delta_y = delta_y / supersampling_factor
-        x_start = x_grid[0, 0] - delta_x / 2.0 * (1 - 1 / supersampling_factor)
-        x_end = x_grid[0, -1] + delta_x / 2.0 * (1 - 1 / supersampling_factor)
-        y_start = y_grid[0, 0] - delta_y / 2.0 * (1 - 1 / supersampling_factor)
-        y_end = y_grid[-1, 0] + delta_y / 2.0 * (1 - 1 / supersampling_factor)
-
-        xs = np.arange(x_start, x_end * (1 + 1e-6), new_delta_x)
-        ys = np.arange(y_start, y_end * (1 + 1e-6), new_delta_y)
-
-        x_grid_supersampled, y_grid_supersmapled = np.meshgrid(xs, ys)
+        x_grid_supersampled, y_grid_supersmapled = make_supersampled_grid(
+            x_grid, y_grid, supersampling_factor, angle=self._aperture.angle
+        )
 
         log10_radial_distance_from_center = np.log10(
             np.sqrt(
@@ -295,8 +290,7 @@ class Galkin(GalkinModel, GalkinObservation):
             log10_radial_distance_from_center,
         ) = self._get_grid(kwargs_mass, supersampling_factor=supersampling_factor)
 
-        x_grid = self._aperture.x_grid
-        y_grid = self._aperture.y_grid
+        num_pix_y, num_pix_x = self._aperture.x_grid.shape
 
         mass_center_x, mass_center_y = self._extract_center(kwargs_mass)
         R_max = np.sqrt(
@@ -365,14 +359,14 @@ class Galkin(GalkinModel, GalkinObservation):
         else:
             sigma_IR_integrated = (
                 sigma2_IR_convolved.reshape(
-                    len(x_grid), supersampling_factor, len(y_grid), supersampling_factor
+                    num_pix_y, supersampling_factor, num_pix_x, supersampling_factor
                 )
                 .sum(3)
                 .sum(1)
             )
             IR_integrated = (
                 IR_convolved.reshape(
-                    len(x_grid), supersampling_factor, len(y_grid), supersampling_factor
+                    num_pix_y, supersampling_factor, num_pix_x, supersampling_factor
                 )
                 .sum(3)
                 .sum(1)
-- 
2.43.0


From cde86158a52d2c345c4f01ce5adb128fecb734c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:08 +0000
Subject: [PATCH 093/109] fix: distance modulus in absolute2apparent_magnitude

---
 lenstronomy/Util/data_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/data_util.py b/lenstronomy/Util/data_util.py
index 77da0dd..628b0bf 100644
--- a/lenstronomy/Util/data_util.py
+++ b/lenstronomy/Util/data_util.py
@@ -80,7 +80,7 @@ def absolute2apparent_magnitude(absolute_magnitude, d_parsec):
     :param d_parsec: distance to object in units parsec
     :return: apparent magnitude
     """
-    m_apparent = 5.8 * (np.log10(d_parsec) - 1) + absolute_magnitude
+    m_apparent = 5.0 * (np.log10(d_parsec) - 1) + absolute_magnitude
     return m_apparent
 
 
-- 
2.43.0


From 0d338bf2a22824b89bd6cd460a641ad6f4e243d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:08 +0000
Subject: [PATCH 094/109] fix: concentration from density normalization at more
 than one redshift

---
 lenstronomy/Cosmo/gnfw_param.py | 3 ++-
 lenstronomy/Cosmo/nfw_param.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Cosmo/gnfw_param.py b/lenstronomy/Cosmo/gnfw_param.py
index e93b232..3772d7e 100644
--- a/lenstronomy/Cosmo/gnfw_param.py
+++ b/lenstronomy/Cosmo/gnfw_param.py
@@ -130,7 +130,7 @@ class GNFWParam(object):
         :rtype: float
         """
         c_array = np.linspace(0.1, 30, 100)
-        if not hasattr(self, "_rho0_c_gamma_in_interps"):
+        if not hasattr(self, "_rho0_c_gamma_in_interps") or self._rho0_c_z != z:
             gamma_in_array = np.linspace(0.1, 2.99, 100)
             self._rho0_c_gamma_in_interps = []
 
@@ -142,6 +142,7 @@ class GNFWParam(object):
                         gamma_in_array, rho0_array, w=None, bbox=[None, None], k=3
                     )
                 )
+            self._rho0_c_z = z  # redshift the interpolation is valid for
 
         rho0_interp = [interp(gamma_in) for interp in self._rho0_c_gamma_in_interps]
 
diff --git a/lenstronomy/Cosmo/nfw_param.py b/lenstronomy/Cosmo/nfw_param.py
index 598971d..c8d8dd7 100644
--- a/lenstronomy/Cosmo/nfw_param.py
+++ b/lenstronomy/Cosmo/nfw_param.py
@@ -102,13 +102,14 @@ class NFWParam(object):
         :return: concentration parameter c
         :rtype: float
         """
-        if not hasattr(self, "_c_rho0_interp"):
+        if not hasattr(self, "_c_rho0_interp") or self._c_rho0_z != z:
             c_array = np.linspace(0.1, 30, 100)
             rho0_array = self.rho0_c(c_array, z)
 
             self._c_rho0_interp = interpolate.InterpolatedUnivariateSpline(
                 rho0_array, c_array, w=None, bbox=[None, None], k=3
             )
+            self._c_rho0_z = z  # redshift the interpolation is valid for
         return self._c_rho0_interp(rho0)
 
     @staticmethod
-- 
2.43.0


From 2ff981605f6465af8abdf39d85a5e84be1612e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:34 +0000
Subject: [PATCH 095/109] fix: TNFW mass_3d: truncation radius in units of the
 scale radius

---
 lenstronomy/LensModel/Profiles/tnfw.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/tnfw.py b/lenstronomy/LensModel/Profiles/tnfw.py
index 8c3e130..4464ffe 100644
--- a/lenstronomy/LensModel/Profiles/tnfw.py
+++ b/lenstronomy/LensModel/Profiles/tnfw.py
@@ -206,17 +206,18 @@ class TNFW(LensProfileBase):
 
         x = r * Rs**-1
         x = np.maximum(x, self._s)
+        tau = r_trunc * Rs**-1
         func = (
-            r_trunc**2
+            tau**2
             * (
-                -2 * x * (1 + r_trunc**2)
-                + 4 * (1 + x) * r_trunc * np.arctan(x / r_trunc)
-                - 2 * (1 + x) * (-1 + r_trunc**2) * np.log(Rs)
-                + 2 * (1 + x) * (-1 + r_trunc**2) * np.log(Rs * (1 + x))
-                + 2 * (1 + x) * (-1 + r_trunc**2) * np.log(Rs * r_trunc)
-                - (1 + x) * (-1 + r_trunc**2) * np.log(Rs**2 * (x**2 + r_trunc**2))
+                -2 * x * (1 + tau**2)
+                + 4 * (1 + x) * tau * np.arctan(x / tau)
+                - 2 * (1 + x) * (-1 + tau**2) * np.log(Rs)
+                + 2 * (1 + x) * (-1 + tau**2) * np.log(Rs * (1 + x))
+                + 2 * (1 + x) * (-1 + tau**2) * np.log(Rs * tau)
+                - (1 + x) * (-1 + tau**2) * np.log(Rs**2 * (x**2 + tau**2))
             )
-        ) / (2.0 * (1 + x) * (1 + r_trunc**2) ** 2)
+        ) / (2.0 * (1 + x) * (1 + tau**2) ** 2)
 
         m_3d = 4 * np.pi * Rs**3 * rho0 * func
         return m_3d
-- 
2.43.0


From 602bd8665972caa18322ccbe4dc2362af9c796eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:40 +0000
Subject: [PATCH 096/109] fix: mst_invariant_differential around the center of
 the profile

---
 lenstronomy/Analysis/lens_profile.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Analysis/lens_profile.py b/lenstronomy/Analysis/lens_profile.py
index 1bbfd22..cb468fd 100644
--- a/lenstronomy/Analysis/lens_profile.py
+++ b/lenstronomy/Analysis/lens_profile.py
@@ -275,7 +275,11 @@ class LensProfileAnalysis(object):
             dphi_rad_drad,
             dphi_rad_dtan,
         ) = ext.radial_tangential_differentials(
-            x, y, kwargs_lens, center_x=center_x, center_y=center_y
+            center_x + x,
+            center_y + y,
+            kwargs_lens,
+            center_x=center_x,
+            center_y=center_y,
         )
         xi = np.mean(dlambda_rad_drad / lambda_rad)
         return xi
-- 
2.43.0


From 489562bf9dcf7d3c3afdb6f99d7fa1119ed82e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:40 +0000
Subject: [PATCH 097/109] fix: mst_invariant_differential of the selected lens
 models

---
 lenstronomy/Analysis/lens_profile.py           |  1 +
 lenstronomy/LensModel/lens_model_extensions.py | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/Analysis/lens_profile.py b/lenstronomy/Analysis/lens_profile.py
index cb468fd..f481585 100644
--- a/lenstronomy/Analysis/lens_profile.py
+++ b/lenstronomy/Analysis/lens_profile.py
@@ -280,6 +280,7 @@ class LensProfileAnalysis(object):
             kwargs_lens,
             center_x=center_x,
             center_y=center_y,
+            k=model_list_bool,
         )
         xi = np.mean(dlambda_rad_drad / lambda_rad)
         return xi
diff --git a/lenstronomy/LensModel/lens_model_extensions.py b/lenstronomy/LensModel/lens_model_extensions.py
index ff8d213..64b491f 100644
--- a/lenstronomy/LensModel/lens_model_extensions.py
+++ b/lenstronomy/LensModel/lens_model_extensions.py
@@ -523,15 +523,18 @@ class LensModelExtensions(object):
             dec_caustic_list.append(dec_caustics)
         return ra_crit_list, dec_crit_list, ra_caustic_list, dec_caustic_list
 
-    def hessian_eigenvectors(self, x, y, kwargs_lens, diff=None):
+    def hessian_eigenvectors(self, x, y, kwargs_lens, diff=None, k=None):
         """Computes magnification eigenvectors at position (x, y)
 
         :param x: x-position
         :param y: y-position
         :param kwargs_lens: lens model keyword arguments
+        :param k: only evaluate the k-th lens model (or subset of lens models)
         :return: radial stretch, tangential stretch
         """
-        f_xx, f_xy, f_yx, f_yy = self._lensModel.hessian(x, y, kwargs_lens, diff=diff)
+        f_xx, f_xy, f_yx, f_yy = self._lensModel.hessian(
+            x, y, kwargs_lens, k=k, diff=diff
+        )
         if isinstance(x, int) or isinstance(x, float):
             A = np.array([[1 - f_xx, f_xy], [f_yx, 1 - f_yy]])
             w, v = np.linalg.eig(A)
@@ -562,6 +565,7 @@ class LensModelExtensions(object):
         ra_0=0,
         dec_0=0,
         coordinate_frame_definitions=False,
+        k=None,
     ):
         """Computes the radial and tangential stretches at a given position.
 
@@ -569,10 +573,11 @@ class LensModelExtensions(object):
         :param y: y-position
         :param kwargs_lens: lens model keyword arguments
         :param diff: float or None, finite average differential scale
+        :param k: only evaluate the k-th lens model (or subset of lens models)
         :return: radial stretch, tangential stretch
         """
         w1, w2, v11, v12, v21, v22 = self.hessian_eigenvectors(
-            x, y, kwargs_lens, diff=diff
+            x, y, kwargs_lens, diff=diff, k=k
         )
         v_x, v_y = x - ra_0, y - dec_0
 
@@ -646,6 +651,7 @@ class LensModelExtensions(object):
         center_y=0,
         smoothing_3rd=0.001,
         smoothing_2nd=None,
+        k=None,
     ):
         """Computes the differentials in stretches and directions.
 
@@ -660,6 +666,7 @@ class LensModelExtensions(object):
             angle
         :param smoothing_2nd: float or None, finite average differential scale of
             Hessian
+        :param k: only evaluate the k-th lens model (or subset of lens models)
         :return:
         """
         (
@@ -677,6 +684,7 @@ class LensModelExtensions(object):
             ra_0=center_x,
             dec_0=center_y,
             coordinate_frame_definitions=True,
+            k=k,
         )
         x0 = x - center_x
         y0 = y - center_y
@@ -705,6 +713,7 @@ class LensModelExtensions(object):
             ra_0=center_x,
             dec_0=center_y,
             coordinate_frame_definitions=True,
+            k=k,
         )
         dx_rad = x + smoothing_3rd * v1_rad
         dy_rad = y + smoothing_3rd * v2_rad
@@ -723,6 +732,7 @@ class LensModelExtensions(object):
             ra_0=center_x,
             dec_0=center_y,
             coordinate_frame_definitions=True,
+            k=k,
         )
 
         # eigenvalue differentials in tangential and radial direction
-- 
2.43.0


From dfce12ad331435f577071ee68796bd641cfe72d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:44 +0000
Subject: [PATCH 098/109] fix: LightProfile.delete_cache forgets the
 distribution of 3d radii

draw_light_3d() kept drawing from the first light profile, so a second
Galkin.dispersion() with other light parameters was weighted with the old light.
---
 lenstronomy/GalKin/light_profile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/GalKin/light_profile.py b/lenstronomy/GalKin/light_profile.py
index d96f3a5..8b7065f 100644
--- a/lenstronomy/GalKin/light_profile.py
+++ b/lenstronomy/GalKin/light_profile.py
@@ -295,6 +295,8 @@ class LightProfile(object):
             del self._light_cdf_log
         if hasattr(self, "_light_cdf"):
             del self._light_cdf
+        if hasattr(self, "_light_3d_cdf_log"):
+            del self._light_3d_cdf_log
         if hasattr(self, "_f_light_3d"):
             del self._f_light_3d
         if hasattr(self, "_kwargs_light_circularized"):
-- 
2.43.0


From d147694d04d1641d4e99a24405effbfc5d300c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:44 +0000
Subject: [PATCH 099/109] fix: dispersion_map_grid_convolved clears the cache
 of the kinematics

Like dispersion() and dispersion_map(); a second map with other parameters
repeated the first one.
---
 lenstronomy/GalKin/galkin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/GalKin/galkin.py b/lenstronomy/GalKin/galkin.py
index c874cce..d423a23 100644
--- a/lenstronomy/GalKin/galkin.py
+++ b/lenstronomy/GalKin/galkin.py
@@ -374,6 +374,7 @@ class Galkin(GalkinModel, GalkinObservation):
 
         sigma2_grid = sigma_IR_integrated / IR_integrated
 
+        self.numerics.delete_cache()
         # apply unit conversion from arc seconds and deflections to physical velocity
         # dispersion in (km/s)
         return np.sqrt(sigma2_grid) / 1000.0  # in units of km/s
-- 
2.43.0


From f1febc5b001fcc560a9372e42bf6dec9c2b8edbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:44 +0000
Subject: [PATCH 100/109] fix: AnalyticKinematics.delete_cache clears the light
 profile, too

---
 lenstronomy/GalKin/analytic_kinematics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/GalKin/analytic_kinematics.py b/lenstronomy/GalKin/analytic_kinematics.py
index ad46a12..56bc11b 100644
--- a/lenstronomy/GalKin/analytic_kinematics.py
+++ b/lenstronomy/GalKin/analytic_kinematics.py
@@ -364,3 +364,4 @@ class AnalyticKinematics(Anisotropy):
         """
         if hasattr(self, "_interp_sigma_r2"):
             del self._interp_sigma_r2
+        self.light_profile.delete_cache()
-- 
2.43.0


From ebcaef83a3ac67d384bf71363642ef4e2ac6af45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:44 +0000
Subject: [PATCH 101/109] fix: analytic kinematics leave the mass arguments
 alone

The normalisation was written into the caller's keyword arguments and
re-used when the Einstein radius, slope or cosmology was changed.
---
 lenstronomy/GalKin/analytic_kinematics.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/GalKin/analytic_kinematics.py b/lenstronomy/GalKin/analytic_kinematics.py
index 56bc11b..91954af 100644
--- a/lenstronomy/GalKin/analytic_kinematics.py
+++ b/lenstronomy/GalKin/analytic_kinematics.py
@@ -185,13 +185,11 @@ class AnalyticKinematics(Anisotropy):
         """
         a = self._get_hernquist_scale_radius(kwargs_light)
 
-        if "rho0_r0_gamma" not in kwargs_mass:
-            kwargs_mass["rho0_r0_gamma"] = self._rho0_r0_gamma(
-                kwargs_mass["theta_E"], kwargs_mass["gamma"]
-            )
-
         gamma = kwargs_mass["gamma"]
-        rho0_r0_gamma = kwargs_mass["rho0_r0_gamma"]
+        if "rho0_r0_gamma" in kwargs_mass:
+            rho0_r0_gamma = kwargs_mass["rho0_r0_gamma"]
+        else:
+            rho0_r0_gamma = self._rho0_r0_gamma(kwargs_mass["theta_E"], gamma)
         r_ani = kwargs_anisotropy["r_ani"]
 
         return a, gamma, rho0_r0_gamma, r_ani
-- 
2.43.0


From e6a08a81ee010caaba33522ec30aa83fbd104617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:44 +0000
Subject: [PATCH 102/109] fix: cylindrically aligned constant anisotropy

beta was the anisotropy of the symmetry axis in the equatorial plane and vice
versa, and not the function whose derivative was returned.
---
 lenstronomy/GalKin/anisotropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/GalKin/anisotropy.py b/lenstronomy/GalKin/anisotropy.py
index 7480676..e359e05 100644
--- a/lenstronomy/GalKin/anisotropy.py
+++ b/lenstronomy/GalKin/anisotropy.py
@@ -118,7 +118,7 @@ class Anisotropy(object):
                 def beta_fun(r, theta):
                     # angular variation
                     ratio = np.sqrt(1 - beta_const)
-                    beta = 1 - ratio ** (2 * np.cos(2 * theta))
+                    beta = 1 - ratio ** (-2 * np.cos(2 * theta))
                     beta_dtheta = (
                         -4
                         * np.log(ratio)
-- 
2.43.0


From d3c6cc197d819122290e35ce7d628482c7120268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:44 +0000
Subject: [PATCH 103/109] fix: KinematicsAPI uses the settings of the
 multi-Gaussian expansions

---
 lenstronomy/Analysis/kinematics_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/Analysis/kinematics_api.py b/lenstronomy/Analysis/kinematics_api.py
index a598bd4..ebc7653 100644
--- a/lenstronomy/Analysis/kinematics_api.py
+++ b/lenstronomy/Analysis/kinematics_api.py
@@ -421,6 +421,7 @@ class KinematicsAPI(object):
             theta_E=theta_E,
             model_kinematics_bool=self._lens_model_kinematics_bool,
             gamma=gamma,
+            kwargs_mge=self._kwargs_mge_mass,
             analytic_kinematics=self._analytic_kinematics,
         )
         light_profile_list, kwargs_light = self.kinematic_light_profile(
@@ -429,6 +430,7 @@ class KinematicsAPI(object):
             MGE_fit=self._MGE_light,
             model_kinematics_bool=self._light_model_kinematics_bool,
             Hernquist_approx=self._Hernquist_approx,
+            kwargs_mge=self._kwargs_mge_light,
             analytic_kinematics=self._analytic_kinematics,
         )
 
-- 
2.43.0


From a04d2a10906e5481affa0cf6f3e29ec5b01d70b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:01 +0000
Subject: [PATCH 104/109] fix: multi-Gaussian expansion of the selected light
 components

The selected profiles were paired with the arguments of the first components.
---
 lenstronomy/Analysis/kinematics_api.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lenstronomy/Analysis/kinematics_api.py b/lenstronomy/Analysis/kinematics_api.py
index ebc7653..8647895 100644
--- a/lenstronomy/Analysis/kinematics_api.py
+++ b/lenstronomy/Analysis/kinematics_api.py
@@ -791,6 +791,11 @@ class KinematicsAPI(object):
                 kwargs_light.append(kwargs_lens_light_i)
 
         if MGE_fit is True:
+            kwargs_lens_light = [
+                kwargs_lens_light[i]
+                for i in range(len(self._lens_light_model_list))
+                if model_kinematics_bool[i] is True
+            ]
             MGE_light_fitter = MGELight(light_profile_list, kwargs_mge)
             amps, sigmas = MGE_light_fitter.mge_fit(kwargs_lens_light, r_eff)
             kwargs_light = [{"amp": amps, "sigma": sigmas}]
-- 
2.43.0


From 37710e3b7672f3922ca938009eb16c4eef9b152c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:01 +0000
Subject: [PATCH 105/109] fix: kinematics are centred on the selected lens
 models

The centre was the one of the first lens model, whether or not it is part of
the deflector.
---
 lenstronomy/Analysis/kinematics_api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Analysis/kinematics_api.py b/lenstronomy/Analysis/kinematics_api.py
index 8647895..73bd1fa 100644
--- a/lenstronomy/Analysis/kinematics_api.py
+++ b/lenstronomy/Analysis/kinematics_api.py
@@ -544,6 +544,7 @@ class KinematicsAPI(object):
             return None, {"theta_E": theta_E, "gamma": gamma}
         mass_profile_list = []
         kwargs_profile = []
+        kwargs_selected = []
         self._black_hole_mass = 0.0
         if model_kinematics_bool is None:
             model_kinematics_bool = [True] * len(kwargs_lens)
@@ -585,6 +586,7 @@ class KinematicsAPI(object):
                         kwargs_lens_i["e1"] = 0.0
                         kwargs_lens_i["e2"] = 0.0
                 kwargs_profile.append(kwargs_lens_i)
+                kwargs_selected.append(kwargs_lens[i])
 
         if MGE_fit is True:
             kwargs_lens_mge = [
@@ -601,7 +603,7 @@ class KinematicsAPI(object):
             else:
                 mass_profile_list = ["MULTI_GAUSSIAN_ELLIPSE_KAPPA"]
                 kwargs_profile = self._copy_ellip(kwargs_profile, kwargs_lens_mge)
-        kwargs_profile = self._copy_centers(kwargs_profile, kwargs_lens)
+        kwargs_profile = self._copy_centers(kwargs_profile, kwargs_selected)
         return mass_profile_list, kwargs_profile
 
     def kinematic_light_profile(
-- 
2.43.0


From 97a6f0a6e28e434baa5bf07b430bd9e8671daafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:41 +0000
Subject: [PATCH 106/109] fix: KinematicsAPI remembers that each observation
 has its own light profile

After a computation with the Hernquist approximation or analytic kinematics the
light profiles of several observations were taken for the components of one.
---
 lenstronomy/Analysis/kinematics_api.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/Analysis/kinematics_api.py b/lenstronomy/Analysis/kinematics_api.py
index 73bd1fa..f455ef9 100644
--- a/lenstronomy/Analysis/kinematics_api.py
+++ b/lenstronomy/Analysis/kinematics_api.py
@@ -642,8 +642,10 @@ class KinematicsAPI(object):
                     'half light radius "r_eff" needs to be set to allow for analytic '
                     "kinematics to be computed!"
                 )
-            self._multi_light_profile = False
-            return None, {"r_eff": r_eff}
+            kwargs_light = {"r_eff": r_eff}
+            if self._multi_light_profile is True:
+                kwargs_light = [kwargs_light] * len(kwargs_lens_light)
+            return None, kwargs_light
         light_profile_list = []
         kwargs_light = []
         if Hernquist_approx is True:
@@ -654,7 +656,8 @@ class KinematicsAPI(object):
                 )
             light_profile_list = ["HERNQUIST"]
             kwargs_light = [{"Rs": r_eff * 0.551, "amp": 1.0}]
-            self._multi_light_profile = False
+            if self._multi_light_profile is True:
+                kwargs_light = [kwargs_light] * len(kwargs_lens_light)
             return light_profile_list, kwargs_light
         if model_kinematics_bool is None:
             model_kinematics_bool = [True] * len(self._lens_light_model_list)
-- 
2.43.0


From 3cd2d162ae528c1f5de8b5a395fa13a347f2efa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:56 +0000
Subject: [PATCH 107/109] fix: set_static of a CHAMELEON that is already static
 uses the new parameters

---
 lenstronomy/LensModel/Profiles/chameleon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/LensModel/Profiles/chameleon.py b/lenstronomy/LensModel/Profiles/chameleon.py
index 3b732e0..e640d60 100644
--- a/lenstronomy/LensModel/Profiles/chameleon.py
+++ b/lenstronomy/LensModel/Profiles/chameleon.py
@@ -225,6 +225,7 @@ class Chameleon(LensProfileBase):
         :param center_y:
         :return:
         """
+        self.set_dynamic()
         self._static = True
         (
             self._theta_convert_static,
-- 
2.43.0


From 424627344532b19e9d14c3041319a83a86856aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:56 +0000
Subject: [PATCH 108/109] fix: set_static of a multi-plane model that is
 already static uses the new parameters

---
 lenstronomy/LensModel/MultiPlane/multi_plane.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/LensModel/MultiPlane/multi_plane.py b/lenstronomy/LensModel/MultiPlane/multi_plane.py
index 0da81d2..de87a19 100644
--- a/lenstronomy/LensModel/MultiPlane/multi_plane.py
+++ b/lenstronomy/LensModel/MultiPlane/multi_plane.py
@@ -682,6 +682,7 @@ class MultiPlane(object):
         :return: lens model keyword argument list with positional parameters all in flat sky coordinates
         """
 
+        self.set_dynamic()
         kwargs = self.observed2flat_convention(kwargs)
         self.ignore_observed_positions = True
         return self._multi_plane_base.set_static(kwargs)
-- 
2.43.0


From 098d2e9576262143a42df3cc73128b821f848925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:50 +0000
Subject: [PATCH 109/109] fix: samples of a chain with other parameters are not
 re-used to start an MCMC run

---
 lenstronomy/Workflow/fitting_sequence.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lenstronomy/Workflow/fitting_sequence.py b/lenstronomy/Workflow/fitting_sequence.py
index ac15a7c..67b557f 100644
--- a/lenstronomy/Workflow/fitting_sequence.py
+++ b/lenstronomy/Workflow/fitting_sequence.py
@@ -69,6 +69,7 @@ class FittingSequence(object):
             num_bands=len(self.multi_band_list),
         )
         self._mcmc_init_samples = None
+        self._mcmc_init_param_list = None
         self._psf_iteration_memory = []
         self._psf_iteration_index = 0  # index of the sequence of the PSF iteration (how many times it is being run)
 
@@ -366,6 +367,13 @@ class FittingSequence(object):
         # run MCMC
         if init_samples is not None and re_use_samples is True:
             num_samples, num_param_prev = np.shape(init_samples)
+            if (
+                init_samples is self._mcmc_init_samples
+                and param_list != self._mcmc_init_param_list
+            ):
+                raise ValueError(
+                    "Can not re-use previous MCMC samples as the parameters have changed!"
+                )
             if num_param_prev == num_param:
                 print("re-using previous samples to initialize the next MCMC run.")
                 idxs = np.random.choice(len(init_samples), n_walkers)
@@ -411,6 +419,7 @@ class FittingSequence(object):
             output = [sampler_type, samples, param_list, dist]
 
         self._mcmc_init_samples = samples  # overwrites previous samples to continue from there in the next MCMC run
+        self._mcmc_init_param_list = param_list
         return output
 
     def pso(
-- 
2.43.0

