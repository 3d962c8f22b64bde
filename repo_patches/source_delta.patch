From dee1c19461379e585bc169d731602935e98d9645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:00 +0000
Subject: [PATCH 001/109] fix: reject non-finite matrices in Rotation

The determinant test was written so that a NaN determinant passed it, and a
matrix with NaN entries became a Rotation made of NaNs.
---
 include/huira_impl/core/rotation.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/core/rotation.ipp b/include/huira_impl/core/rotation.ipp
index 42329bc..59af6cd 100644
--- a/include/huira_impl/core/rotation.ipp
+++ b/include/huira_impl/core/rotation.ipp
@@ -531,7 +531,7 @@ void Rotation<T>::set_matrix_(Mat3<T> matrix)
 {
     constexpr T loose_epsilon = static_cast<T>(1e-3);
     T det = glm::determinant(matrix);
-    if (std::fabs(det - 1.0) > loose_epsilon) {
+    if (!(std::fabs(det - 1.0) <= loose_epsilon)) {
         HUIRA_THROW_ERROR(
             "Rotation matrix must have a determinant close to 1. Given matrix has determinant: " +
             std::to_string(det));
-- 
2.43.0


From cb60191ead84f6b7bd48652cfa205794268a37f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 002/109] fix: Transform::to_matrix mixes rows and columns

Mat4 is column-major (glm): column i is scaled by scale[i] and the translation
is the last column, so that to_matrix() * point agrees with apply_to_point.
---
 include/huira_impl/core/transform.ipp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/core/transform.ipp b/include/huira_impl/core/transform.ipp
index 9d1af84..d127aed 100644
--- a/include/huira_impl/core/transform.ipp
+++ b/include/huira_impl/core/transform.ipp
@@ -37,14 +37,14 @@ Mat4<T> Transform<T>::to_matrix() const
     Mat3<T> rot_basis = rotation.local_to_parent_matrix();
     for (int i = 0; i < 3; ++i) {
         for (int j = 0; j < 3; ++j) {
-            result[i][j] = rot_basis[i][j] * scale[j];
+            result[i][j] = rot_basis[i][j] * scale[i];
         }
     }
 
     // Apply position
-    result[0][3] = position.x;
-    result[1][3] = position.y;
-    result[2][3] = position.z;
+    result[3][0] = position.x;
+    result[3][1] = position.y;
+    result[3][2] = position.z;
 
     // Set homogeneous coordinate
     result[3][3] = T(1);
-- 
2.43.0


From d89ed0bb9f5bc5af8b716f698ffef8a459081315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 003/109] fix: Transform::inverse drops the rotation term of
 the velocity

The inverse of a rotating, displaced frame sees the parent origin move with
w x p - v, so that t * t.inverse() is at rest.
---
 include/huira_impl/core/transform.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/core/transform.ipp b/include/huira_impl/core/transform.ipp
index d127aed..c751e69 100644
--- a/include/huira_impl/core/transform.ipp
+++ b/include/huira_impl/core/transform.ipp
@@ -122,8 +122,9 @@ Transform<T> Transform<T>::inverse() const
     // Inverse position: undo the rotation and scale
     result.position = result.rotation * (-position * result.scale);
 
-    // Inverse velocity (in the new frame)
-    result.velocity = result.rotation * (-velocity * result.scale);
+    // Inverse velocity (in the new frame): the parent origin as seen from the moving frame
+    result.velocity =
+        result.rotation * ((glm::cross(angular_velocity, position) - velocity) * result.scale);
 
     // Inverse angular velocity
     result.angular_velocity = result.rotation * (-angular_velocity);
-- 
2.43.0


From 2312d7dfc7eb84bf4433a2e07b62a178e03ad162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 004/109] fix: a mile is 1609.344 m, not 1609.34 m

---
 include/huira/units/units.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira/units/units.hpp b/include/huira/units/units.hpp
index d738f4b..dbafaae 100644
--- a/include/huira/units/units.hpp
+++ b/include/huira/units/units.hpp
@@ -54,7 +54,7 @@ using AstronomicalUnit = Quantity<Length, std::ratio<149597870700, 1>>;
 
 using Foot = Quantity<Length, std::ratio<381, 1250>>;
 using Yard = Quantity<Length, std::ratio<1143, 1250>>;
-using Mile = Quantity<Length, std::ratio<80467, 50>>;
+using Mile = Quantity<Length, std::ratio<201168, 125>>;
 /// @}
 
 /// @defgroup mass_units Mass Units
-- 
2.43.0


From ecf254aa2c3f3c01720e0b9588393ab990fa6e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:53 +0000
Subject: [PATCH 005/109] fix: aberrated directions miss Lorentz factors and
 are not unit length

---
 include/huira_impl/core/physics.ipp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/core/physics.ipp b/include/huira_impl/core/physics.ipp
index b2a6204..b25f37d 100644
--- a/include/huira_impl/core/physics.ipp
+++ b/include/huira_impl/core/physics.ipp
@@ -249,15 +249,16 @@ inline Vec3<double> compute_aberrated_direction(Vec3<double> direction, Vec3<dou
 
         // Relativistic Aberration Formula
         //    Transforms the direction vector 'u' into the moving frame 'u_app'.
-        //    Formula: u_app = (u + beta + (gamma / (1+gamma)) * (u . beta) * beta)
-        //                     ----------------------------------------------------
+        //    Formula: u_app = (u + gamma * beta + (gamma^2 / (1+gamma)) * (u . beta) * beta)
+        //                     --------------------------------------------------------------
         //                             gamma * (1 + u . beta)
         //
         // Because 'u' is (Observer -> Object) and we move 'v',
         // the object should appear shifted TOWARDS 'v'.
-        // (u + beta) in the numerator achieves this correctly.
+        // (u + gamma * beta) in the numerator achieves this correctly.
 
-        Vec3<double> num = direction + beta + (gamma / (1.0 + gamma)) * u_dot_beta * beta;
+        Vec3<double> num =
+            direction + gamma * beta + (gamma * gamma / (1.0 + gamma)) * u_dot_beta * beta;
         double den = gamma * (1.0 + u_dot_beta);
 
         return num / den;
-- 
2.43.0


From fd5615505904d0aeb4c5eef52455b2ddd75b21e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:53 +0000
Subject: [PATCH 006/109] fix: RGB to spectral conversion takes the RGB range
 from the red bin only

---
 include/huira_impl/core/spectral_bins.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/core/spectral_bins.ipp b/include/huira_impl/core/spectral_bins.ipp
index 8c11cee..5306f12 100644
--- a/include/huira_impl/core/spectral_bins.ipp
+++ b/include/huira_impl/core/spectral_bins.ipp
@@ -799,7 +799,7 @@ TSpectral convert_rgb_to_spectral(const RGB& rgb)
         // Determine overlap between TSpectral's full range and RGB's full range
         constexpr double spectral_min = TSpectral::get_bin(0).min_wavelength;
         constexpr double spectral_max = TSpectral::get_bin(TSpectral::size() - 1).max_wavelength;
-        constexpr double rgb_min = RGB::get_bin(0).min_wavelength; // 380nm (blue bin min)
+        constexpr double rgb_min = RGB::get_bin(2).min_wavelength; // 380nm (blue bin min)
         constexpr double rgb_max = RGB::get_bin(0).max_wavelength; // 750nm (red bin max)
 
         constexpr double overlap_min = std::max(spectral_min, rgb_min);
-- 
2.43.0


From 7c8df0e43a6f3645550ae5b1733c94556390132d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:53 +0000
Subject: [PATCH 007/109] fix: a short initializer list leaves spectral bins
 uninitialized

---
 include/huira_impl/core/spectral_bins.ipp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/huira_impl/core/spectral_bins.ipp b/include/huira_impl/core/spectral_bins.ipp
index 5306f12..5137a44 100644
--- a/include/huira_impl/core/spectral_bins.ipp
+++ b/include/huira_impl/core/spectral_bins.ipp
@@ -40,6 +40,7 @@ constexpr SpectralBins<N, Args...>::SpectralBins(std::initializer_list<float> in
     if (init.size() == 1) {
         data_.fill(*init.begin());
     } else {
+        data_.fill(0.0f);
         std::copy(init.begin(),
                   std::next(init.begin(), static_cast<std::ptrdiff_t>(std::min(init.size(), N))),
                   data_.begin());
-- 
2.43.0


From 48ec4dc9f688432e656fdb67aabb6f280ac616a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 008/109] fix: OpenCV distortion adds the undistorted point
 twice

---
 include/huira_impl/cameras/distortion/opencv_distortion.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/cameras/distortion/opencv_distortion.ipp b/include/huira_impl/cameras/distortion/opencv_distortion.ipp
index 6040246..71457be 100644
--- a/include/huira_impl/cameras/distortion/opencv_distortion.ipp
+++ b/include/huira_impl/cameras/distortion/opencv_distortion.ipp
@@ -71,7 +71,8 @@ OpenCVDistortion<TSpectral>::compute_delta_(BasePixel<TFloat> homogeneous_coords
             static_cast<TFloat>(coefficients_.s3) * r2 +
             static_cast<TFloat>(coefficients_.s4) * r4};
 
-    return radial_factor * homogeneous_coords_tf + tangential_and_prism;
+    // The delta is relative to the undistorted coordinates
+    return (radial_factor - TFloat{1}) * homogeneous_coords_tf + tangential_and_prism;
 }
 
 /**
-- 
2.43.0


From 26228fc625cb88fc4765aade15173ccf77d03633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:03 +0000
Subject: [PATCH 009/109] fix: set_intrinsic_matrix reads the principal point
 from the bottom row

---
 include/huira_impl/cameras/camera_model.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 7be37bc..fe84b47 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -226,10 +226,11 @@ void CameraModel<TSpectral>::set_intrinsic_matrix(const Mat3<float>& intrinsic_m
                                                   const Resolution& resolution,
                                                   units::Millimeter anchor_focal_length)
 {
+    // Mat3 is column-major: the principal point is in the third column
     this->set_intrinsics(intrinsic_matrix[0][0],
                          intrinsic_matrix[1][1],
-                         intrinsic_matrix[0][2],
-                         intrinsic_matrix[1][2],
+                         intrinsic_matrix[2][0],
+                         intrinsic_matrix[2][1],
                          resolution,
                          anchor_focal_length);
 }
-- 
2.43.0


From bdaa6712fbff6f7b027f0a790e5cc59ea309b48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:03 +0000
Subject: [PATCH 010/109] fix: the camera frustum leaves out the last pixel row
 and column

---
 include/huira_impl/cameras/camera_model.ipp | 63 ++++++++++++---------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index fe84b47..7b8bcfa 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -728,37 +728,48 @@ void CameraModel<TSpectral>::compute_frustum_()
         ydir = Vec3<float>{0, -1, 0};
     }
 
-    // Initialize the frustum side planes:
-    Vec3<float> left_extrema{0, 0, 0};
-    float left_min_dot = 100.f;
-
-    Vec3<float> right_extrema{0, 0, 0};
-    float right_min_dot = 100.f;
-
-    Vec3<float> top_extrema{0, 0, 0};
-    float top_min_dot = 100.f;
-
-    Vec3<float> bottom_extrema{0, 0, 0};
-    float bottom_min_dot = 100.f;
-
-    auto update = [&](int i, int j, Vec3<float>& extrema, float& min_dot) {
-        Ray<TSpectral> ray = cast_ray(i, j);
-        Vec3<float> direction = ray.direction();
+    // The directions through the sensor border that lie furthest out on each side:
+    Vec3<float> left_extrema = zdir;
+    Vec3<float> right_extrema = zdir;
+    Vec3<float> top_extrema = zdir;
+    Vec3<float> bottom_extrema = zdir;
+    float x_min = std::numeric_limits<float>::infinity();
+    float x_max = -std::numeric_limits<float>::infinity();
+    float y_min = std::numeric_limits<float>::infinity();
+    float y_max = -std::numeric_limits<float>::infinity();
+
+    auto update = [&](int i, int j) {
+        Vec3<float> direction = glm::normalize(
+            pixel_to_direction_<float>(Pixel{static_cast<float>(i), static_cast<float>(j)}));
         float d = glm::dot(direction, zdir);
-        if (d < min_dot) {
-            extrema = direction;
-            min_dot = d;
+        float x = glm::dot(direction, xdir) / d;
+        float y = glm::dot(direction, ydir) / d;
+        if (x < x_min) {
+            x_min = x;
+            left_extrema = direction;
+        }
+        if (x > x_max) {
+            x_max = x;
+            right_extrema = direction;
+        }
+        if (y < y_min) {
+            y_min = y;
+            top_extrema = direction;
+        }
+        if (y > y_max) {
+            y_max = y;
+            bottom_extrema = direction;
         }
     };
 
-    // Loop over all edge-pixels
-    for (int i = 0; i < res.x; ++i) {
-        update(i, 0, top_extrema, top_min_dot);
-        update(i, res.y - 1, bottom_extrema, bottom_min_dot);
+    // Loop over the outer edges of all border pixels
+    for (int i = 0; i <= res.x; ++i) {
+        update(i, 0);
+        update(i, res.y);
     }
-    for (int j = 1; j < res.y - 1; ++j) {
-        update(0, j, left_extrema, left_min_dot);
-        update(res.x - 1, j, right_extrema, right_min_dot);
+    for (int j = 1; j < res.y; ++j) {
+        update(0, j);
+        update(res.x, j);
     }
 
     // Form the frustum planes:
-- 
2.43.0


From 7280917e0d41cb33607dff830723e4f3b4f275a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:19 +0000
Subject: [PATCH 011/109] fix: camera caches go stale when the camera is
 reconfigured

---
 include/huira/cameras/camera_model.hpp      | 13 +++++-
 include/huira_impl/cameras/camera_model.ipp | 52 ++++++++++++---------
 2 files changed, 40 insertions(+), 25 deletions(-)

diff --git a/include/huira/cameras/camera_model.hpp b/include/huira/cameras/camera_model.hpp
index f4aa44e..0058b1b 100644
--- a/include/huira/cameras/camera_model.hpp
+++ b/include/huira/cameras/camera_model.hpp
@@ -62,7 +62,11 @@ class CameraModel : public SceneObject<CameraModel<TSpectral>> {
     void set_opencv_distortion(OpenCVCoefficients coeffs);
     void set_owen_distortion(OwenCoefficients coeffs);
 
-    void delete_distortion() { distortion_ = nullptr; }
+    void delete_distortion()
+    {
+        distortion_ = nullptr;
+        compute_intrinsics_();
+    }
 
     template <IsSensor<TSpectral> TSensor, typename... Args>
     void set_sensor(Args&&... args);
@@ -152,7 +156,11 @@ class CameraModel : public SceneObject<CameraModel<TSpectral>> {
         return FrameBuffer<TSpectral>(resolution());
     }
 
-    void use_blender_convention(bool value = true) { blender_convention_ = value; }
+    void use_blender_convention(bool value = true)
+    {
+        blender_convention_ = value;
+        compute_intrinsics_();
+    }
     bool is_blender_convention() const { return blender_convention_; }
 
   protected:
@@ -185,6 +193,7 @@ class CameraModel : public SceneObject<CameraModel<TSpectral>> {
 
     bool is_explicit_matrix_ = false;
     void compute_intrinsics_();
+    void update_aperture_products_();
 
     bool depth_of_field_ = false;
 
diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 7b8bcfa..e488dbb 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -33,22 +33,18 @@ CameraModel<TSpectral>::CameraModel()
 template <IsSpectral TSpectral>
 void CameraModel<TSpectral>::set_focal_length(units::Millimeter focal_length)
 {
-    is_explicit_matrix_ = false;
-    focal_length_ = focal_length.to_si_f();
+    float new_focal_length = focal_length.to_si_f();
 
-    if (focal_length_ <= 0 || std::isinf(focal_length_) || std::isnan(focal_length_)) {
+    if (new_focal_length <= 0 || std::isinf(new_focal_length) || std::isnan(new_focal_length)) {
         HUIRA_THROW_ERROR(
             "CameraModel::set_focal_length - Focal length must be a positive finite value: " +
-            std::to_string(focal_length_));
+            std::to_string(new_focal_length));
     }
 
+    is_explicit_matrix_ = false;
+    focal_length_ = new_focal_length;
+
     compute_intrinsics_();
-    if (use_aperture_psf_) {
-        units::Meter f(focal_length_);
-        units::Meter px(sensor_->pixel_pitch().x);
-        units::Meter py(sensor_->pixel_pitch().y);
-        psf_ = aperture_->make_psf(f, px, py, psf_->get_radius(), psf_->get_banks());
-    }
 }
 
 /**
@@ -63,8 +59,7 @@ template <IsDistortion<TSpectral> TDistortion, typename... Args>
 void CameraModel<TSpectral>::set_distortion(Args&&... args)
 {
     distortion_ = std::make_unique<TDistortion>(std::forward<Args>(args)...);
-    compute_distortion_field_();
-    compute_frustum_();
+    compute_intrinsics_();
 }
 
 /**
@@ -293,6 +288,7 @@ template <IsAperture TAperture, typename... Args>
 void CameraModel<TSpectral>::set_aperture(Args&&... args)
 {
     aperture_ = std::make_unique<TAperture>(std::forward<Args>(args)...);
+    update_aperture_products_();
 }
 
 /**
@@ -408,11 +404,7 @@ void CameraModel<TSpectral>::set_focus_distance(units::Meter focus_distance)
         HUIRA_THROW_ERROR("CameraModel::set_focus_distance - Focus distance is too small");
     }
     d_ = focus_distance_;
-
-    units::Meter pitch_x(sensor_->pixel_pitch().x);
-    units::Meter pitch_y(sensor_->pixel_pitch().y);
-    this->aperture_->build_defocus_kernel(
-        this->get_diopters(), this->focal_length(), pitch_x, pitch_y, 16);
+    update_aperture_products_();
 }
 
 /**
@@ -576,12 +568,7 @@ void CameraModel<TSpectral>::set_fstop(float fstop)
     units::Meter aperture_diameter(focal_length_ / fstop);
     units::SquareMeter aperture_area = PI<float>() * (aperture_diameter * aperture_diameter) / 4.f;
     this->aperture_->set_area(aperture_area);
-    if (use_aperture_psf_) {
-        units::Meter f(focal_length_);
-        units::Meter px(sensor_->pixel_pitch().x);
-        units::Meter py(sensor_->pixel_pitch().y);
-        psf_ = aperture_->make_psf(f, px, py, psf_->get_radius(), psf_->get_banks());
-    }
+    update_aperture_products_();
 }
 
 /**
@@ -610,8 +597,27 @@ void CameraModel<TSpectral>::compute_intrinsics_()
         fy_ = focal_length_ / sensor_->pixel_pitch().y;
     }
 
+    if (distortion_) {
+        compute_distortion_field_();
+    }
     compute_frustum_();
     compute_pixel_solid_angles_();
+    update_aperture_products_();
+}
+
+/**
+ * @brief Rebuild the PSF and the defocus kernel derived from the aperture and the optics.
+ */
+template <IsSpectral TSpectral>
+void CameraModel<TSpectral>::update_aperture_products_()
+{
+    units::Meter f(focal_length_);
+    units::Meter px(sensor_->pixel_pitch().x);
+    units::Meter py(sensor_->pixel_pitch().y);
+    if (use_aperture_psf_) {
+        psf_ = aperture_->make_psf(f, px, py, psf_->get_radius(), psf_->get_banks());
+    }
+    aperture_->build_defocus_kernel(this->get_diopters(), f, px, py, 16);
 }
 
 template <IsSpectral TSpectral>
-- 
2.43.0


From fe226b1924fe3114402e4285879cfad36bba02ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 012/109] fix: DeterministicSampler default constructor does
 not compile

---
 include/huira/render/sampler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira/render/sampler.hpp b/include/huira/render/sampler.hpp
index f27ccb7..94933da 100644
--- a/include/huira/render/sampler.hpp
+++ b/include/huira/render/sampler.hpp
@@ -32,7 +32,7 @@ class RandomSampler : public Sampler<TFloat> {
 template <IsFloatingPoint TFloat>
 class DeterministicSampler : public Sampler<TFloat> {
   public:
-    DeterministicSampler() : value_1d(TFloat(0.5)), value_2d{TFloat(0.5)(0.5)} {}
+    DeterministicSampler() : value_1d(TFloat(0.5)), value_2d{TFloat(0.5), TFloat(0.5)} {}
     DeterministicSampler(TFloat v1d, Vec2<TFloat> v2d) : value_1d(v1d), value_2d(v2d) {}
 
     TFloat get_1d() override { return value_1d; }
-- 
2.43.0


From 3f5be871347c82d783a94fddaf58fa969ff31d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:32 +0000
Subject: [PATCH 013/109] fix: with distortion, rays ignore the extent of the
 last pixel row and column

---
 include/huira_impl/cameras/camera_model.ipp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index e488dbb..7aaf793 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -483,8 +483,8 @@ Ray<TSpectral> CameraModel<TSpectral>::cast_ray(const Pixel& pixel, Sampler<floa
     Vec3<float> origin{0, 0, 0};
     Vec3<float> direction{0, 0, 1};
     if (distortion_) {
-        float u = pixel[0] / static_cast<float>(rx_ - 1);
-        float v = pixel[1] / static_cast<float>(ry_ - 1);
+        float u = pixel[0] / rx_;
+        float v = pixel[1] / ry_;
         direction = distortion_field_.sample_bilinear<WrapMode::Clamp>(u, v);
     } else {
         direction = pixel_to_direction_<float>(pixel);
@@ -512,8 +512,8 @@ Ray<TSpectral> CameraModel<TSpectral>::cast_ray(const Pixel& pixel) const
     Vec3<float> origin{0, 0, 0};
     Vec3<float> direction{0, 0, 1};
     if (distortion_) {
-        float u = pixel[0] / static_cast<float>(rx_ - 1);
-        float v = pixel[1] / static_cast<float>(ry_ - 1);
+        float u = pixel[0] / rx_;
+        float v = pixel[1] / ry_;
         direction = distortion_field_.sample_bilinear<WrapMode::Clamp>(u, v);
     } else {
         direction = pixel_to_direction_<float>(pixel);
@@ -653,10 +653,11 @@ void CameraModel<TSpectral>::compute_distortion_field_()
 {
     Resolution res = sensor_->resolution();
 
-    distortion_field_ = Image<Vec3<float>>(res, Vec3<float>{0, 0, 0});
+    // One direction per pixel corner, so that the field covers the whole sensor
+    distortion_field_ = Image<Vec3<float>>(Resolution(res.x + 1, res.y + 1), Vec3<float>{0, 0, 0});
 
-    for (int x = 0; x < res.x; ++x) {
-        for (int y = 0; y < res.y; ++y) {
+    for (int x = 0; x <= res.x; ++x) {
+        for (int y = 0; y <= res.y; ++y) {
             Pixel pixel{static_cast<float>(x), static_cast<float>(y)};
             distortion_field_(x, y) = glm::normalize(pixel_to_direction_<float>(pixel));
         }
-- 
2.43.0


From 8dd3d087e7a91351ab793591fc08de2f62b391b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:33 +0000
Subject: [PATCH 014/109] fix: with distortion, the focal surface is a sphere
 instead of the focal plane

---
 include/huira_impl/cameras/camera_model.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 7aaf793..1df8fc5 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -659,7 +659,8 @@ void CameraModel<TSpectral>::compute_distortion_field_()
     for (int x = 0; x <= res.x; ++x) {
         for (int y = 0; y <= res.y; ++y) {
             Pixel pixel{static_cast<float>(x), static_cast<float>(y)};
-            distortion_field_(x, y) = glm::normalize(pixel_to_direction_<float>(pixel));
+            // Not normalized: unit depth, as without distortion (the focal surface is a plane)
+            distortion_field_(x, y) = pixel_to_direction_<float>(pixel);
         }
     }
 }
-- 
2.43.0


From 5e9f16d0080e6a8f94db04321b5a969775ecaa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 015/109] fix: Image::at accepts negative and NaN coordinates

---
 include/huira_impl/images/image.ipp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index 6d583b0..69bd188 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -290,7 +290,7 @@ const PixelT& Image<PixelT>::at(std::size_t index) const
 template <IsImagePixel PixelT>
 PixelT& Image<PixelT>::at(int x, int y)
 {
-    if (x >= resolution_.width || y >= resolution_.height) {
+    if (x < 0 || y < 0 || x >= resolution_.width || y >= resolution_.height) {
         HUIRA_THROW_ERROR("Image::at: coordinates out of bounds");
     }
     return data_[to_linear(x, y)];
@@ -307,7 +307,7 @@ PixelT& Image<PixelT>::at(int x, int y)
 template <IsImagePixel PixelT>
 const PixelT& Image<PixelT>::at(int x, int y) const
 {
-    if (x >= resolution_.width || y >= resolution_.height) {
+    if (x < 0 || y < 0 || x >= resolution_.width || y >= resolution_.height) {
         HUIRA_THROW_ERROR("Image::at: coordinates out of bounds");
     }
     return data_[to_linear(x, y)];
@@ -325,12 +325,14 @@ const PixelT& Image<PixelT>::at(int x, int y) const
 template <IsImagePixel PixelT>
 PixelT& Image<PixelT>::at(const Pixel& pixel)
 {
+    // The comparisons also reject NaN
+    if (!(pixel.x >= 0.f && pixel.x < static_cast<float>(resolution_.width) && pixel.y >= 0.f &&
+          pixel.y < static_cast<float>(resolution_.height))) {
+        HUIRA_THROW_ERROR("Image::at: pixel coordinates out of bounds");
+    }
     // TODO Do proper rounding/conversion
     auto x = static_cast<int>(pixel.x);
     auto y = static_cast<int>(pixel.y);
-    if (x >= resolution_.width || y >= resolution_.height) {
-        HUIRA_THROW_ERROR("Image::at: pixel coordinates out of bounds");
-    }
     return data_[to_linear(x, y)];
 }
 
@@ -346,12 +348,14 @@ PixelT& Image<PixelT>::at(const Pixel& pixel)
 template <IsImagePixel PixelT>
 const PixelT& Image<PixelT>::at(const Pixel& pixel) const
 {
+    // The comparisons also reject NaN
+    if (!(pixel.x >= 0.f && pixel.x < static_cast<float>(resolution_.width) && pixel.y >= 0.f &&
+          pixel.y < static_cast<float>(resolution_.height))) {
+        HUIRA_THROW_ERROR("Image::at: pixel coordinates out of bounds");
+    }
     // TODO Do proper rounding/conversion
     auto x = static_cast<int>(pixel.x);
     auto y = static_cast<int>(pixel.y);
-    if (x >= resolution_.width || y >= resolution_.height) {
-        HUIRA_THROW_ERROR("Image::at: pixel coordinates out of bounds");
-    }
     return data_[to_linear(x, y)];
 }
 
-- 
2.43.0


From cae21bdb60c68af2390f05e4fc6a2e85cff1c4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 016/109] fix: image sizes overflow int and negative sizes are
 accepted

---
 include/huira_impl/images/image.ipp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index 69bd188..6d6d3c9 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -9,6 +9,17 @@
 #include "fftw3.h"
 
 namespace huira {
+namespace detail {
+/// Number of pixels of an image; negative sizes are rejected.
+inline std::size_t image_pixel_count(int width, int height)
+{
+    if (width < 0 || height < 0) {
+        HUIRA_THROW_ERROR("Image: width and height must not be negative");
+    }
+    return static_cast<std::size_t>(width) * static_cast<std::size_t>(height);
+}
+} // namespace detail
+
 
 /**
  * @brief Default constructor creating an empty image.
@@ -27,7 +38,7 @@ Image<PixelT>::Image() : data_{}, resolution_{0, 0}
  */
 template <IsImagePixel PixelT>
 Image<PixelT>::Image(Resolution resolution)
-    : data_(static_cast<std::size_t>(resolution.x * resolution.y)), resolution_{resolution}
+    : data_(detail::image_pixel_count(resolution.x, resolution.y)), resolution_{resolution}
 {
 }
 
@@ -41,7 +52,7 @@ Image<PixelT>::Image(Resolution resolution)
  */
 template <IsImagePixel PixelT>
 Image<PixelT>::Image(Resolution resolution, const PixelT& fill_value)
-    : data_(static_cast<std::size_t>(resolution.x * resolution.y), fill_value),
+    : data_(detail::image_pixel_count(resolution.x, resolution.y), fill_value),
       resolution_{resolution}
 {
 }
@@ -56,7 +67,7 @@ Image<PixelT>::Image(Resolution resolution, const PixelT& fill_value)
  */
 template <IsImagePixel PixelT>
 Image<PixelT>::Image(int width, int height)
-    : data_(static_cast<std::size_t>(width * height)), resolution_{width, height}
+    : data_(detail::image_pixel_count(width, height)), resolution_{width, height}
 {
 }
 
@@ -71,7 +82,7 @@ Image<PixelT>::Image(int width, int height)
  */
 template <IsImagePixel PixelT>
 Image<PixelT>::Image(int width, int height, const PixelT& fill_value)
-    : data_(static_cast<std::size_t>(width * height), fill_value), resolution_{width, height}
+    : data_(detail::image_pixel_count(width, height), fill_value), resolution_{width, height}
 {
 }
 
@@ -581,7 +592,8 @@ Image<float> Image<PixelT>::get_channel(std::size_t channel) const
 template <IsImagePixel PixelT>
 std::size_t Image<PixelT>::to_linear(int x, int y) const noexcept
 {
-    return static_cast<std::size_t>(y * resolution_.width + x);
+    return static_cast<std::size_t>(y) * static_cast<std::size_t>(resolution_.width) +
+           static_cast<std::size_t>(x);
 }
 
 /**
-- 
2.43.0


From 10cc8ea7095313a96e2a18b7d23ebdc7f9fa577c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 017/109] fix: sampling an image at non-finite or huge
 coordinates reads out of bounds

---
 include/huira_impl/images/image.ipp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index 6d6d3c9..379b05f 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -608,6 +608,15 @@ template <IsImagePixel PixelT>
 template <WrapMode W>
 float Image<PixelT>::wrap_coordinate(float coord, float max) const noexcept
 {
+    if (std::isnan(coord)) {
+        return 0.0f;
+    }
+    if constexpr (W != WrapMode::Clamp) {
+        if (std::isinf(coord)) {
+            return 0.0f;
+        }
+    }
+
     if constexpr (W == WrapMode::Clamp) {
         return std::clamp(coord, 0.0f, max);
     } else if constexpr (W == WrapMode::Repeat) {
@@ -618,10 +627,10 @@ float Image<PixelT>::wrap_coordinate(float coord, float max) const noexcept
         return coord;
     } else if constexpr (W == WrapMode::Mirror) {
         coord = std::fabs(coord);
-        int period = static_cast<int>(coord / max);
-        coord = std::fmod(coord, max);
-        if (period % 2 == 1) {
-            coord = max - coord;
+        // Position within one period (there and back)
+        coord = std::fmod(coord, 2.0f * max);
+        if (coord > max) {
+            coord = 2.0f * max - coord;
         }
         return std::clamp(coord, 0.0f, max);
     } else {
-- 
2.43.0


From eea57f42c115038217eb1ea9db501ae6de14dad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 018/109] fix: bilinear samples of integer images are truncated

---
 include/huira_impl/images/image.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index 379b05f..d8ab8be 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -452,6 +452,9 @@ PixelT Image<PixelT>::sample_bilinear(float u, float v) const
                        static_cast<float>(p10) * fx * (1.0f - fy) +
                        static_cast<float>(p01) * (1.0f - fx) * fy +
                        static_cast<float>(p11) * fx * fy;
+        if constexpr (std::is_integral_v<PixelT>) {
+            result = std::round(result);
+        }
         return static_cast<PixelT>(result);
     } else if constexpr (is_vec3_v<PixelT>) {
         using S = typename Traits::Scalar;
-- 
2.43.0


From bb7d348f9402106f0f43004ffa8309b35d9a195b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 019/109] fix: convolution with a small kernel mirrors the
 kernel

---
 include/huira_impl/images/image.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index d8ab8be..0c3d53f 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -655,12 +655,12 @@ void Image<PixelT>::convolve_direct_(const Image<PixelT>& kernel)
         for (int x = 0; x < this->width(); ++x) {
             PixelT sum{};
             for (int ky = 0; ky < kh; ++ky) {
-                int sy = y + ky - kcy;
+                int sy = y - (ky - kcy);
                 if (sy < 0 || sy >= this->height()) {
                     continue;
                 }
                 for (int kx = 0; kx < kw; ++kx) {
-                    int sx = x + kx - kcx;
+                    int sx = x - (kx - kcx);
                     if (sx < 0 || sx >= this->width()) {
                         continue;
                     }
-- 
2.43.0


From 096dc7384d8293dbd1b7a5e7e4e6f85d0706d29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 020/109] fix: pixel conversion to integers overflows,
 truncates negative values and casts NaN

---
 .../huira_impl/images/io/convert_pixel.ipp    | 29 ++++++++++++++-----
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/huira_impl/images/io/convert_pixel.ipp b/include/huira_impl/images/io/convert_pixel.ipp
index bb12849..a930abb 100644
--- a/include/huira_impl/images/io/convert_pixel.ipp
+++ b/include/huira_impl/images/io/convert_pixel.ipp
@@ -1,3 +1,4 @@
+#include <cmath>
 #include <limits>
 
 #include "huira/concepts/numeric_concepts.hpp"
@@ -7,6 +8,24 @@
 #include "huira/util/logger.hpp"
 
 namespace huira {
+namespace detail {
+/// Maps [0, 1] to the full range of T, rounding to nearest; values outside are clamped, NaN is 0.
+template <typename T>
+T normalized_to_integer(float normalized)
+{
+    if (!(normalized > 0.0f)) {
+        return std::numeric_limits<T>::min();
+    }
+    if (normalized >= 1.0f) {
+        return std::numeric_limits<T>::max();
+    }
+    const double type_min = static_cast<double>(std::numeric_limits<T>::min());
+    const double type_max = static_cast<double>(std::numeric_limits<T>::max());
+    const double scaled = static_cast<double>(normalized) * (type_max - type_min);
+    return static_cast<T>(std::floor(type_min + scaled + 0.5));
+}
+} // namespace detail
+
 template <IsNonSpectralPixel T>
 T convert_float_to_pixel(float value)
 {
@@ -100,19 +119,13 @@ template <IsUnsignedInteger T>
 T float_to_integer(float value, float min_range, float max_range)
 {
     float normalized = (value - min_range) / (max_range - min_range);
-    normalized = std::clamp(normalized, 0.0f, 1.0f);
-    return static_cast<T>(normalized * static_cast<float>(std::numeric_limits<T>::max()) + 0.5f);
+    return detail::normalized_to_integer<T>(normalized);
 }
 
 template <IsSignedInteger T>
 T float_to_integer(float value, float min_range, float max_range)
 {
-    float type_min = static_cast<float>(std::numeric_limits<T>::min());
-    float type_max = static_cast<float>(std::numeric_limits<T>::max());
-
     float normalized = (value - min_range) / (max_range - min_range);
-    normalized = std::clamp(normalized, 0.0f, 1.0f);
-
-    return static_cast<T>(type_min + normalized * (type_max - type_min) + 0.5f);
+    return detail::normalized_to_integer<T>(normalized);
 }
 } // namespace huira
-- 
2.43.0


From 4e699a8d2a572606c17195e5e2101794b246ff7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 021/109] fix: BMP reader reads out of bounds for negative,
 zero or huge dimensions

---
 include/huira_impl/images/io/bmp_io.ipp | 28 +++++++++++++++----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/include/huira_impl/images/io/bmp_io.ipp b/include/huira_impl/images/io/bmp_io.ipp
index 3d68983..17920c9 100644
--- a/include/huira_impl/images/io/bmp_io.ipp
+++ b/include/huira_impl/images/io/bmp_io.ipp
@@ -3,6 +3,7 @@
 #include <cstdio>
 #include <cstring>
 #include <filesystem>
+#include <limits>
 #include <utility>
 #include <vector>
 
@@ -65,7 +66,7 @@ inline BMPData read_bmp_raw_(const unsigned char* data, std::size_t size)
                           std::to_string(dib_size) + ")");
     }
 
-    if (size < 14 + dib_size) {
+    if (size - 14 < dib_size) {
         HUIRA_THROW_ERROR("read_bmp_raw_ - Data truncated in DIB header");
     }
 
@@ -92,6 +93,10 @@ inline BMPData read_bmp_raw_(const unsigned char* data, std::size_t size)
                           "), only 24 and 32 supported");
     }
 
+    if (raw_width <= 0 || raw_height == 0 || raw_height == std::numeric_limits<int32_t>::min()) {
+        HUIRA_THROW_ERROR("read_bmp_raw_ - Invalid BMP dimensions");
+    }
+
     int width = static_cast<int>(raw_width);
     bool flip_vertical = (raw_height > 0);
     int height = (raw_height > 0) ? static_cast<int>(raw_height) : static_cast<int>(-raw_height);
@@ -102,29 +107,30 @@ inline BMPData read_bmp_raw_(const unsigned char* data, std::size_t size)
 
     // BMP rows are padded to 4-byte boundaries
     std::size_t row_stride =
-        (static_cast<std::size_t>(width * file_channels) + 3) & ~static_cast<std::size_t>(3);
-
-    std::size_t required_size =
-        static_cast<std::size_t>(pixel_offset) + row_stride * static_cast<std::size_t>(height);
-    if (size < required_size) {
-        HUIRA_THROW_ERROR("read_bmp_raw_ - Data truncated in pixel data (need " +
-                          std::to_string(required_size) + ", have " + std::to_string(size) + ")");
+        (static_cast<std::size_t>(width) * static_cast<std::size_t>(file_channels) + 3) &
+        ~static_cast<std::size_t>(3);
+    if (pixel_offset > size ||
+        row_stride > (size - pixel_offset) / static_cast<std::size_t>(height)) {
+        HUIRA_THROW_ERROR("read_bmp_raw_ - Data truncated in pixel data (have " +
+                          std::to_string(size) + " bytes)");
     }
 
     const unsigned char* pixel_data = data + pixel_offset;
 
     // Convert from BGR(A) bottom-up to RGB(A) top-down
     std::vector<unsigned char> raw_data(static_cast<std::size_t>(width) *
-                                        static_cast<std::size_t>(height * out_channels));
+                                        static_cast<std::size_t>(height) *
+                                        static_cast<std::size_t>(out_channels));
 
     for (int y = 0; y < height; ++y) {
         int src_y = flip_vertical ? (height - 1 - y) : y;
         const unsigned char* src_row = pixel_data + static_cast<std::size_t>(src_y) * row_stride;
 
         for (int x = 0; x < width; ++x) {
-            std::size_t src_idx = static_cast<std::size_t>(x * file_channels);
+            std::size_t src_idx = static_cast<std::size_t>(x) * static_cast<std::size_t>(file_channels);
             std::size_t dst_idx =
-                (static_cast<std::size_t>(y * width) + static_cast<std::size_t>(x)) *
+                (static_cast<std::size_t>(y) * static_cast<std::size_t>(width) +
+                 static_cast<std::size_t>(x)) *
                 static_cast<std::size_t>(out_channels);
 
             // BMP stores BGR(A), convert to RGB(A)
-- 
2.43.0


From 1e61a1b2ec527e2cff7619b3a86c6fd638343450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 022/109] fix: TGA reader accesses memory out of bounds for
 malformed files

---
 include/huira_impl/images/io/tga_io.ipp | 27 ++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/images/io/tga_io.ipp b/include/huira_impl/images/io/tga_io.ipp
index 2a2fd28..301b82a 100644
--- a/include/huira_impl/images/io/tga_io.ipp
+++ b/include/huira_impl/images/io/tga_io.ipp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
 #include <cstring>
@@ -114,6 +115,19 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
         pos += cm_size;
     }
 
+    // 8-bit gray, 24/32-bit colors, or 8/16-bit indices into a map of 24/32-bit colors
+    bool supported_depth = (pixel_depth == 24 || pixel_depth == 32);
+    if (is_color_mapped) {
+        supported_depth = (pixel_depth == 8 || pixel_depth == 16) && !color_map.empty() &&
+                          (cm_entry_size == 24 || cm_entry_size == 32);
+    } else if (is_gray) {
+        supported_depth = (pixel_depth == 8);
+    }
+    if (!supported_depth) {
+        HUIRA_THROW_ERROR("read_tga_raw_ - Unsupported TGA bit depth (" +
+                          std::to_string(static_cast<int>(pixel_depth)) + ")");
+    }
+
     // Determine pixel format
     int file_channels;
     if (is_color_mapped) {
@@ -173,10 +187,14 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
                 if (pos + bytes_to_read > size) {
                     HUIRA_THROW_ERROR("read_tga_raw_ - Unexpected end of RLE data");
                 }
-                std::memcpy(
-                    &pixel_indices[pixels_decoded * index_bytes], data + pos, bytes_to_read);
+                // The last packet may hold more pixels than the image
+                std::size_t pixels_used =
+                    std::min(static_cast<std::size_t>(count), num_pixels - pixels_decoded);
+                std::memcpy(&pixel_indices[pixels_decoded * index_bytes],
+                            data + pos,
+                            pixels_used * index_bytes);
                 pos += bytes_to_read;
-                pixels_decoded += static_cast<std::size_t>(count);
+                pixels_decoded += pixels_used;
             }
         }
     } else {
@@ -211,6 +229,9 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
                 } else if (pixel_depth == 16) {
                     std::memcpy(&index, &pixel_indices[src_pixel * 2], sizeof(uint16_t));
                 }
+                if (index < cm_first_index || index - cm_first_index >= cm_length) {
+                    HUIRA_THROW_ERROR("read_tga_raw_ - Color map index out of range");
+                }
                 index = static_cast<uint16_t>(index - cm_first_index);
                 const unsigned char* src_ptr =
                     &color_map[static_cast<std::size_t>(index) *
-- 
2.43.0


From 98b069f20a8908f79dc7c72b1035dd711b99f281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 023/109] fix: HDR images stored bottom-up or right-to-left are
 read mirrored

---
 include/huira_impl/images/io/hdr_io.ipp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/io/hdr_io.ipp b/include/huira_impl/images/io/hdr_io.ipp
index 0b98c33..66d0e59 100644
--- a/include/huira_impl/images/io/hdr_io.ipp
+++ b/include/huira_impl/images/io/hdr_io.ipp
@@ -166,14 +166,20 @@ inline HDRData read_hdr_raw_(const unsigned char* data, std::size_t size)
         return false;
     };
 
+    bool bottom_up = false;
+    bool right_to_left = false;
     if (parse_resolution("-Y", "+X")) {
         /* Standard top-to-bottom, left-to-right */
     } else if (parse_resolution("+Y", "+X")) {
         /* Bottom-to-top variant */
+        bottom_up = true;
     } else if (parse_resolution("-Y", "-X")) {
         /* Right-to-left variant */
+        right_to_left = true;
     } else if (parse_resolution("+Y", "-X")) {
         /* Both flipped */
+        bottom_up = true;
+        right_to_left = true;
     } else {
         HUIRA_THROW_ERROR("read_hdr_raw_ - Unsupported resolution format: \"" + line + "\"");
     }
@@ -258,8 +264,10 @@ inline HDRData read_hdr_raw_(const unsigned char* data, std::size_t size)
         // Convert RGBE scanline to float RGB
         for (int x = 0; x < width; ++x) {
             std::size_t src = static_cast<std::size_t>(x) * 4;
-            std::size_t dst = (static_cast<std::size_t>(y) * static_cast<std::size_t>(width) +
-                               static_cast<std::size_t>(x)) *
+            int dst_x = right_to_left ? (width - 1 - x) : x;
+            int dst_y = bottom_up ? (height - 1 - y) : y;
+            std::size_t dst = (static_cast<std::size_t>(dst_y) * static_cast<std::size_t>(width) +
+                               static_cast<std::size_t>(dst_x)) *
                               3;
 
             rgbe_to_float_(&scanline[src], raw_data[dst], raw_data[dst + 1], raw_data[dst + 2]);
-- 
2.43.0


From c27cdda8120242ab3cce8360571e49743ed4c49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 024/109] fix: short HDR scanlines are never run-length encoded

---
 include/huira_impl/images/io/hdr_io.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/images/io/hdr_io.ipp b/include/huira_impl/images/io/hdr_io.ipp
index 66d0e59..2976f15 100644
--- a/include/huira_impl/images/io/hdr_io.ipp
+++ b/include/huira_impl/images/io/hdr_io.ipp
@@ -203,7 +203,8 @@ inline HDRData read_hdr_raw_(const unsigned char* data, std::size_t size)
                               std::to_string(y));
         }
 
-        bool is_new_rle = (header[0] == 2 && header[1] == 2 &&
+        // Only scanlines of 8 to 32767 pixels are run-length encoded
+        bool is_new_rle = (width >= 8 && width <= 32767 && header[0] == 2 && header[1] == 2 &&
                            ((static_cast<int>(header[2]) << 8) | header[3]) == width);
 
         if (is_new_rle) {
-- 
2.43.0


From 70ac862ffa7793218d69d3376a59d0babdcff02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:02 +0000
Subject: [PATCH 025/109] fix: depth map of a constant depth is NaN

---
 include/huira/images/color_map.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira/images/color_map.hpp b/include/huira/images/color_map.hpp
index 51f9b4a..c7eef8a 100644
--- a/include/huira/images/color_map.hpp
+++ b/include/huira/images/color_map.hpp
@@ -42,7 +42,9 @@ inline Image<huira::RGB> depth_map(Image<float> depth)
             output[i] = huira::RGB{1, 1, 1};
             continue;
         }
-        float d = 0.8f * (depth[i] - min_depth) / (max_depth - min_depth);
+        // Everything at one depth is nearest
+        float range = max_depth - min_depth;
+        float d = range > 0.f ? 0.8f * (depth[i] - min_depth) / range : 0.f;
         output[i] = huira::RGB{d, d, d};
     }
     return output;
-- 
2.43.0


From e81006a4c07cd14457b199ea35c13b39f28e3b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 026/109] fix: defocus kernels cut the blur disc off at its
 right and lower edge

---
 include/huira_impl/cameras/apertures/aperture.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/cameras/apertures/aperture.ipp b/include/huira_impl/cameras/apertures/aperture.ipp
index 298e915..0e4dbde 100644
--- a/include/huira_impl/cameras/apertures/aperture.ipp
+++ b/include/huira_impl/cameras/apertures/aperture.ipp
@@ -31,7 +31,8 @@ void Aperture<TSpectral>::build_defocus_kernel(units::Diopter defocus,
     }
 
     defocus_cache_.radius = blur_radius_pixels;
-    defocus_cache_.half_extent = std::max(1, static_cast<int>(std::ceil(blur_radius_pixels)));
+    // One pixel more than the radius, for the sub-pixel offset (up to one pixel) and the soft edge
+    defocus_cache_.half_extent = static_cast<int>(std::ceil(blur_radius_pixels)) + 1;
     defocus_cache_.banks = banks;
     defocus_cache_.dim = 2 * defocus_cache_.half_extent + 1;
 
-- 
2.43.0


From 0e2241da161a5d68cbec150d038f1c1d56c67e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:48 +0000
Subject: [PATCH 027/109] fix: sensor noise draws from a distribution of zero
 deviation

---
 include/huira_impl/cameras/sensors/simple_sensor.ipp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/cameras/sensors/simple_sensor.ipp b/include/huira_impl/cameras/sensors/simple_sensor.ipp
index 737dc77..2440270 100644
--- a/include/huira_impl/cameras/sensors/simple_sensor.ipp
+++ b/include/huira_impl/cameras/sensors/simple_sensor.ipp
@@ -35,9 +35,10 @@ inline float noise_and_adc(float signal_e,
 
     float bias = 0.f;
     if (config.simulate_noise) {
-        std::normal_distribution<float> shot_dist(0.0f, std::sqrt(accumulated_e));
-        accumulated_e += shot_dist(rng);
-        accumulated_e += read_noise_dist(rng);
+        // Standard normal draws are scaled, as a distribution may not have zero deviation
+        std::normal_distribution<float> shot_dist(0.0f, 1.0f);
+        accumulated_e += shot_dist(rng) * std::sqrt(accumulated_e);
+        accumulated_e += read_noise_dist(rng) * config.read_noise;
         bias = config.bias_level_dn;
     }
 
@@ -73,7 +74,7 @@ void SimpleSensor<TSpectral>::readout(FrameBuffer<TSpectral>& fb, units::Second
 
     // TODO Move this somewhere else?
     static std::mt19937 rng(1);
-    std::normal_distribution<float> read_noise_dist(0.0f, this->config_.read_noise);
+    std::normal_distribution<float> read_noise_dist(0.0f, 1.0f);
 
     const TSpectral photon_energy = TSpectral::photon_energies();
     float max_dn = std::pow(2.f, static_cast<float>(this->config_.bit_depth)) - 1.f;
-- 
2.43.0


From 492f72794f961f4745c075ce7c857cb82748b99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:38 +0000
Subject: [PATCH 028/109] fix: trajectory arcs lose plane crossings when slow
 or nearly uniform

---
 include/huira_impl/render/trajectory_arc.ipp | 97 +++++++++-----------
 1 file changed, 41 insertions(+), 56 deletions(-)

diff --git a/include/huira_impl/render/trajectory_arc.ipp b/include/huira_impl/render/trajectory_arc.ipp
index 769d5bd..3d3bdba 100644
--- a/include/huira_impl/render/trajectory_arc.ipp
+++ b/include/huira_impl/render/trajectory_arc.ipp
@@ -279,14 +279,15 @@ TrajectoryArc::solve_quadratic_(float a, float b, float c, float t_min, float t_
     }
 
     std::vector<float> roots;
-    if (discriminant < eps) {
+    float sqrt_d = std::sqrt(discriminant);
+    float q = -0.5f * (b + std::copysign(sqrt_d, b));
+    if (discriminant == 0.0f || q == 0.0f) {
+        // Double root (q == 0 only when b and c both vanish):
         float t = -b / (2.0f * a);
         if (t >= t_min - eps && t <= t_max + eps) {
             roots.push_back(std::clamp(t, t_min, t_max));
         }
     } else {
-        float sqrt_d = std::sqrt(discriminant);
-        float q = -0.5f * (b + std::copysign(sqrt_d, b));
         float t1 = q / a;
         float t2 = c / q;
 
@@ -320,69 +321,53 @@ TrajectoryArc::solve_cubic_(float a, float b, float c, float d, float t_min, flo
         return solve_quadratic_(b, c, d, t_min, t_max);
     }
 
-    float p = b / a;
-    float q = c / a;
-    float r = d / a;
+    // The depressed form cancels badly when the cubic term is small (nearly uniform motion),
+    // so the closed form is evaluated in double precision:
+    const double p = static_cast<double>(b) / static_cast<double>(a);
+    const double q = static_cast<double>(c) / static_cast<double>(a);
+    const double r = static_cast<double>(d) / static_cast<double>(a);
 
-    float p2 = p * p;
-    float A = q - p2 / 3.0f;
-    float B = r - p * q / 3.0f + 2.0f * p2 * p / 27.0f;
+    const double p2 = p * p;
+    const double A = q - p2 / 3.0;
+    const double B = r - p * q / 3.0 + 2.0 * p2 * p / 27.0;
 
-    float discriminant = -4.0f * A * A * A - 27.0f * B * B;
+    const double discriminant = -4.0 * A * A * A - 27.0 * B * B;
 
     std::vector<float> roots;
-    float offset = -p / 3.0f;
-
-    if (discriminant > eps) {
-        float m = 2.0f * std::sqrt(-A / 3.0f);
-        float theta = std::acos(3.0f * B / (A * m)) / 3.0f;
-
-        for (int k = 0; k < 3; ++k) {
-            float u = m * std::cos(theta - 2.0f * PI<float>() * static_cast<float>(k) / 3.0f);
-            float t = u + offset;
-            if (t >= t_min - eps && t <= t_max + eps) {
-                roots.push_back(std::clamp(t, t_min, t_max));
+    const double offset = -p / 3.0;
+    const auto add_root = [&](double u) {
+        float t = static_cast<float>(u + offset);
+        if (t >= t_min - eps && t <= t_max + eps) {
+            t = std::clamp(t, t_min, t_max);
+            if (roots.empty() || std::abs(t - roots.back()) > eps) {
+                roots.push_back(t);
             }
         }
-    } else if (discriminant < -eps) {
-        float sqrtQ3 = std::sqrt(-A / 3.0f);
-        float cosh_val = std::abs(B) / (sqrtQ3 * sqrtQ3 * sqrtQ3) * 1.5f;
-
-        float u;
-        if (A < 0.0f) {
-            float acosh_val = std::log(cosh_val + std::sqrt(cosh_val * cosh_val - 1.0f));
-            u = -2.0f * std::copysign(sqrtQ3, B) * std::cosh(acosh_val / 3.0f);
-        } else {
-            float asinh_val = std::log(cosh_val + std::sqrt(cosh_val * cosh_val + 1.0f));
-            u = -2.0f * std::copysign(std::sqrt(A / 3.0f), B) * std::sinh(asinh_val / 3.0f);
-        }
+    };
 
-        float t = u + offset;
-        if (t >= t_min - eps && t <= t_max + eps) {
-            roots.push_back(std::clamp(t, t_min, t_max));
+    if (discriminant > 0.0) {
+        const double m = 2.0 * std::sqrt(-A / 3.0);
+        const double theta = std::acos(std::clamp(3.0 * B / (A * m), -1.0, 1.0)) / 3.0;
+        for (int k = 0; k < 3; ++k) {
+            add_root(m * std::cos(theta - 2.0 * PI<double>() * static_cast<double>(k) / 3.0));
         }
-    } else {
-        if (std::abs(B) < eps) {
-            float t = offset;
-            if (t >= t_min - eps && t <= t_max + eps) {
-                roots.push_back(std::clamp(t, t_min, t_max));
-            }
+    } else if (discriminant < 0.0) {
+        const double s = std::sqrt(std::abs(A) / 3.0);
+        const double s3 = s * s * s;
+        if (s3 == 0.0) {
+            add_root(-std::cbrt(B));
+        } else if (A < 0.0) {
+            const double cosh_val = std::max(std::abs(B) / (2.0 * s3), 1.0);
+            add_root(-2.0 * std::copysign(s, B) * std::cosh(std::acosh(cosh_val) / 3.0));
         } else {
-            float u1 = 3.0f * B / A;
-            float u2 = -u1 / 2.0f;
-
-            float t1 = u1 + offset;
-            float t2 = u2 + offset;
-
-            if (t1 >= t_min - eps && t1 <= t_max + eps) {
-                roots.push_back(std::clamp(t1, t_min, t_max));
-            }
-            if (t2 >= t_min - eps && t2 <= t_max + eps) {
-                if (roots.empty() || std::abs(t2 - roots.back()) > eps) {
-                    roots.push_back(std::clamp(t2, t_min, t_max));
-                }
-            }
+            add_root(-2.0 * s * std::sinh(std::asinh(B / (2.0 * s3)) / 3.0));
         }
+    } else if (A == 0.0 || B == 0.0) {
+        add_root(0.0);
+    } else {
+        const double u1 = 3.0 * B / A;
+        add_root(u1);
+        add_root(-u1 / 2.0);
     }
 
     std::sort(roots.begin(), roots.end());
-- 
2.43.0


From 802d37781572402e04ef7fd401717b51afdbfbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:22 +0000
Subject: [PATCH 029/109] fix: ellipsoid accepts a NaN hit for rays tangential
 at their origin

---
 include/huira_impl/geometry/ellipsoid.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/geometry/ellipsoid.ipp b/include/huira_impl/geometry/ellipsoid.ipp
index 030b8a0..5daf337 100644
--- a/include/huira_impl/geometry/ellipsoid.ipp
+++ b/include/huira_impl/geometry/ellipsoid.ipp
@@ -139,8 +139,9 @@ void Ellipsoid<TSpectral>::intersect_callback(const RTCIntersectFunctionNArgumen
 
     // A lambda allows us to cleanly test t0, and if rejected by alpha, test t1
     auto test_hit = [&](float t_candidate) -> bool {
-        if (t_candidate < RTCRayN_tnear(ray, args->N, 0) ||
-            t_candidate > RTCRayN_tfar(ray, args->N, 0)) {
+        // Negated so that NaN (a ray leaving tangentially from the surface) is no hit:
+        if (!(t_candidate >= RTCRayN_tnear(ray, args->N, 0) &&
+              t_candidate <= RTCRayN_tfar(ray, args->N, 0))) {
             return false;
         }
 
-- 
2.43.0


From f8c658ec26c2aa96320f227273750878fd692ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:21 +0000
Subject: [PATCH 030/109] fix: a default ray's reciprocal direction is not that
 of its direction

---
 include/huira/geometry/ray.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira/geometry/ray.hpp b/include/huira/geometry/ray.hpp
index 102c181..26e5c38 100644
--- a/include/huira/geometry/ray.hpp
+++ b/include/huira/geometry/ray.hpp
@@ -32,7 +32,9 @@ class Ray {
   private:
     Vec3<float> origin_{0, 0, 0};
     Vec3<float> direction_{0, 0, -1};
-    Vec3<float> reciprocal_direction_{0, 0, -1};
+    Vec3<float> reciprocal_direction_{std::numeric_limits<float>::infinity(),
+                                      std::numeric_limits<float>::infinity(),
+                                      -1};
 };
 
 struct HitRecord {
-- 
2.43.0


From 3def3cba722254251e71dbf2ff483ed11c9edcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:19 +0000
Subject: [PATCH 031/109] fix: materials without a usable tangent got a NaN
 shading frame

---
 include/huira_impl/materials/material.ipp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/materials/material.ipp b/include/huira_impl/materials/material.ipp
index cc88999..a389485 100644
--- a/include/huira_impl/materials/material.ipp
+++ b/include/huira_impl/materials/material.ipp
@@ -54,9 +54,16 @@ MaterialEval<TSpectral> Material<TSpectral>::evaluate(const Interaction<TSpectra
     }
 
     // Keep the original tangent/bitangent, just orthogonalize against new normal
-    shading_isect.tangent = glm::normalize(
-        isect.tangent - glm::dot(isect.tangent, shading_isect.normal_s) * shading_isect.normal_s);
-    shading_isect.bitangent = glm::cross(shading_isect.normal_s, shading_isect.tangent);
+    const Vec3<float> tangent =
+        isect.tangent - glm::dot(isect.tangent, shading_isect.normal_s) * shading_isect.normal_s;
+    if (glm::dot(tangent, tangent) > 1e-12f) {
+        shading_isect.tangent = glm::normalize(tangent);
+        shading_isect.bitangent = glm::cross(shading_isect.normal_s, shading_isect.tangent);
+    } else {
+        // No usable tangent: any frame around the normal will do
+        build_default_tangent_frame(
+            shading_isect.normal_s, shading_isect.tangent, shading_isect.bitangent);
+    }
 
     MaterialEval<TSpectral> result{};
     result.params = params;
-- 
2.43.0


From 4311c38fcc1bc73993449297181242c7bd779ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:13 +0000
Subject: [PATCH 032/109] fix: a sphere light's total power was given to every
 spectral bin

---
 include/huira_impl/assets/lights/sphere_light.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/lights/sphere_light.ipp b/include/huira_impl/assets/lights/sphere_light.ipp
index 1a7bd93..4d149a0 100644
--- a/include/huira_impl/assets/lights/sphere_light.ipp
+++ b/include/huira_impl/assets/lights/sphere_light.ipp
@@ -72,7 +72,7 @@ void SphereLight<TSpectral>::set_spectral_power(const units::Watt& power)
 
     // L = Phi / (4 * pi^2 * r^2)
     float surface_area = 4.0f * PI<float>() * radius_ * radius_;
-    this->radiance_ = TSpectral{power_si / (PI<float>() * surface_area)};
+    this->radiance_ = TSpectral::from_total(power_si) / (PI<float>() * surface_area);
 }
 
 template <IsSpectral TSpectral>
-- 
2.43.0


From 481d76ae2e07ce8245b0ae32ffebf76406834d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:13 +0000
Subject: [PATCH 033/109] fix: leaving an overlapping volume that is not the
 innermost entered it again

---
 include/huira/volumes/medium_stack.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/huira/volumes/medium_stack.hpp b/include/huira/volumes/medium_stack.hpp
index 3c952a0..8c89fea 100644
--- a/include/huira/volumes/medium_stack.hpp
+++ b/include/huira/volumes/medium_stack.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <array>
 #include <cstddef>
 
@@ -53,7 +54,12 @@ class MediumStack {
             return;
         }
 
-        if (size_ > 0 && entries_[size_ - 1].primitive == primitive) {
+        // Volumes may overlap, so the one being left need not be the one on top
+        const auto end = entries_.begin() + static_cast<std::ptrdiff_t>(size_);
+        const auto it = std::find_if(
+            entries_.begin(), end, [&](const Entry& e) { return e.primitive == primitive; });
+        if (it != end) {
+            std::move(it + 1, end, it);
             --size_;
         } else if (size_ < CAPACITY) {
             entries_[size_] = {primitive, medium};
-- 
2.43.0


From 30fc25661f539d4ae21b4877ec3fdd1f060f5f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:06 +0000
Subject: [PATCH 034/109] fix: observed Tycho-2 positions were read one column
 too far right

---
 include/huira_impl/stars/io/load_tycho2.ipp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/huira_impl/stars/io/load_tycho2.ipp b/include/huira_impl/stars/io/load_tycho2.ipp
index 81c3769..e4c4b18 100644
--- a/include/huira_impl/stars/io/load_tycho2.ipp
+++ b/include/huira_impl/stars/io/load_tycho2.ipp
@@ -89,19 +89,19 @@ std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
                 star_data[i].RA = RA * PI<double>() / 180.;
                 star_data[i].DEC = DEC * PI<double>() / 180.;
             } else {
-                // Observed position at bytes 153-165 and 166-178
-                double RA = read_entry_(line, 153, 165);
-                double DEC = read_entry_(line, 166, 178);
+                // Observed position at bytes 152-164 and 165-177
+                double RA = read_entry_(line, 152, 164);
+                double DEC = read_entry_(line, 165, 177);
                 if (std::isnan(RA) || std::isnan(DEC)) {
                     continue;
                 }
                 star_data[i].RA = RA * PI<double>() / 180.;
                 star_data[i].DEC = DEC * PI<double>() / 180.;
 
-                // Epoch of observed position: epRA at bytes 179-183, epDE at 184-188
+                // Epoch of observed position: epRA at bytes 178-182, epDE at 183-187
                 // These are "epoch - 1990", so add 1990 to get Julian year
-                double epRA = read_entry_(line, 179, 183);
-                double epDE = read_entry_(line, 184, 188);
+                double epRA = read_entry_(line, 178, 182);
+                double epDE = read_entry_(line, 183, 187);
                 if (std::isnan(epRA) || std::isnan(epDE)) {
                     continue;
                 }
-- 
2.43.0


From 5557fbd9c73170663f2e3b34082ccc6307bdc31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:43 +0000
Subject: [PATCH 035/109] fix: Tycho-2 records took stale values from rejected
 lines and lost or overran the last one

---
 include/huira_impl/stars/io/load_tycho2.ipp | 87 ++++++++++-----------
 1 file changed, 42 insertions(+), 45 deletions(-)

diff --git a/include/huira_impl/stars/io/load_tycho2.ipp b/include/huira_impl/stars/io/load_tycho2.ipp
index e4c4b18..a3e631d 100644
--- a/include/huira_impl/stars/io/load_tycho2.ipp
+++ b/include/huira_impl/stars/io/load_tycho2.ipp
@@ -1,5 +1,6 @@
 #include <algorithm>
 #include <cstddef>
+#include <cstdint>
 #include <filesystem>
 #include <fstream>
 #include <limits>
@@ -12,17 +13,6 @@
 namespace fs = std::filesystem;
 
 namespace huira {
-static std::size_t count_lines_(const fs::path& filepath)
-{
-    std::ifstream file(filepath, std::ios::binary);
-
-    // Count new-lines:
-    auto count =
-        std::count(std::istreambuf_iterator<char>(file), std::istreambuf_iterator<char>(), '\n');
-
-    return static_cast<std::size_t>(count);
-}
-
 static bool has_mean_position_(const std::string& line)
 {
     if (line.size() < 14) {
@@ -57,25 +47,37 @@ static bool is_valid_line_(const std::string& line)
     return !line.empty() && std::isdigit(static_cast<unsigned char>(line[0]));
 }
 
+static bool read_id_(const std::string& line, std::uint64_t& id)
+{
+    double tyc1 = read_entry_(line, 0, 4);
+    double tyc2 = read_entry_(line, 5, 10);
+    double tyc3 = read_entry_(line, 11, 12);
+    if (!(tyc1 >= 0. && tyc1 < 16384. && tyc2 >= 0. && tyc2 < 65536. && tyc3 >= 0. &&
+          tyc3 < 16.)) {
+        return false;
+    }
+    id = pack_tycho2_id(static_cast<uint16_t>(tyc1),
+                        static_cast<uint16_t>(tyc2),
+                        static_cast<uint8_t>(tyc3));
+    return true;
+}
+
 std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
 {
-    std::vector<StarData> star_data(count_lines_(filepath));
+    std::vector<StarData> star_data;
     std::ifstream file(filepath);
     if (!file.is_open()) {
         HUIRA_THROW_ERROR("read_tycho2_dat - Failed to open file: " + filepath.string());
     }
 
     std::string line;
-    std::size_t i = 0;
     while (std::getline(file, line)) {
         if (is_valid_line_(line)) {
             // Read identifer:
-            int tyc1 = static_cast<int>(read_entry_(line, 0, 4));
-            int tyc2 = static_cast<int>(read_entry_(line, 5, 10));
-            int tyc3 = static_cast<int>(read_entry_(line, 11, 12));
-            star_data[i].id = pack_tycho2_id(static_cast<uint16_t>(tyc1),
-                                             static_cast<uint16_t>(tyc2),
-                                             static_cast<uint8_t>(tyc3));
+            StarData star;
+            if (!read_id_(line, star.id)) {
+                continue;
+            }
 
             float epochRA = 2000.0;
             float epochDEC = 2000.0;
@@ -86,8 +88,8 @@ std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
                 if (std::isnan(RA) || std::isnan(DEC)) {
                     continue;
                 }
-                star_data[i].RA = RA * PI<double>() / 180.;
-                star_data[i].DEC = DEC * PI<double>() / 180.;
+                star.RA = RA * PI<double>() / 180.;
+                star.DEC = DEC * PI<double>() / 180.;
             } else {
                 // Observed position at bytes 152-164 and 165-177
                 double RA = read_entry_(line, 152, 164);
@@ -95,8 +97,8 @@ std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
                 if (std::isnan(RA) || std::isnan(DEC)) {
                     continue;
                 }
-                star_data[i].RA = RA * PI<double>() / 180.;
-                star_data[i].DEC = DEC * PI<double>() / 180.;
+                star.RA = RA * PI<double>() / 180.;
+                star.DEC = DEC * PI<double>() / 180.;
 
                 // Epoch of observed position: epRA at bytes 178-182, epDE at 183-187
                 // These are "epoch - 1990", so add 1990 to get Julian year
@@ -114,14 +116,14 @@ std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
             double pmRA = read_entry_(line, 41, 48);
             double pmDEC = read_entry_(line, 49, 56);
             if (!std::isnan(pmRA)) {
-                star_data[i].pmRA = static_cast<float>(pmRA);
+                star.pmRA = static_cast<float>(pmRA);
             }
             if (!std::isnan(pmDEC)) {
-                star_data[i].pmDEC = static_cast<float>(pmDEC);
+                star.pmDEC = static_cast<float>(pmDEC);
             }
 
             // Normalize to epoch J2000.0
-            star_data[i].normalize_epoch(epochRA, epochDEC);
+            star.normalize_epoch(epochRA, epochDEC);
 
             // BT magnitude at bytes 110-116, VT at 123-129
             double BTmag = read_entry_(line, 110, 116);
@@ -129,34 +131,30 @@ std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
             if (std::isnan(BTmag) && std::isnan(VTmag)) {
                 continue;
             }
-            star_data[i].process_magnitude(BTmag, VTmag);
-            i++;
+            star.process_magnitude(BTmag, VTmag);
+            star_data.push_back(star);
         }
     }
 
-    star_data.resize(i);
     return star_data;
 }
 
 std::vector<StarData> read_tycho2_suppl(const fs::path& filepath)
 {
-    std::vector<StarData> star_data(count_lines_(filepath));
+    std::vector<StarData> star_data;
     std::ifstream file(filepath);
     if (!file.is_open()) {
         HUIRA_THROW_ERROR("read_tycho2_suppl - Failed to open file: " + filepath.string());
     }
 
     std::string line;
-    std::size_t i = 0;
     while (std::getline(file, line)) {
         if (is_valid_line_(line)) {
             // Read identifer:
-            int tyc1 = static_cast<int>(read_entry_(line, 0, 4));
-            int tyc2 = static_cast<int>(read_entry_(line, 5, 10));
-            int tyc3 = static_cast<int>(read_entry_(line, 11, 12));
-            star_data[i].id = pack_tycho2_id(static_cast<uint16_t>(tyc1),
-                                             static_cast<uint16_t>(tyc2),
-                                             static_cast<uint8_t>(tyc3));
+            StarData star;
+            if (!read_id_(line, star.id)) {
+                continue;
+            }
 
             // Supplement position at bytes 15-27 and 28-40
             double RA = read_entry_(line, 15, 27);
@@ -164,21 +162,21 @@ std::vector<StarData> read_tycho2_suppl(const fs::path& filepath)
             if (std::isnan(RA) || std::isnan(DEC)) {
                 continue;
             }
-            star_data[i].RA = RA * PI<double>() / 180.;
-            star_data[i].DEC = DEC * PI<double>() / 180.;
+            star.RA = RA * PI<double>() / 180.;
+            star.DEC = DEC * PI<double>() / 180.;
 
             // Proper motion at bytes 42-49 and 50-57
             double pmRA = read_entry_(line, 41, 48);
             double pmDEC = read_entry_(line, 49, 56);
             if (!std::isnan(pmRA)) {
-                star_data[i].pmRA = static_cast<float>(pmRA);
+                star.pmRA = static_cast<float>(pmRA);
             }
             if (!std::isnan(pmDEC)) {
-                star_data[i].pmDEC = static_cast<float>(pmDEC);
+                star.pmDEC = static_cast<float>(pmDEC);
             }
 
             // Normalize to epoch J2000.0
-            star_data[i].normalize_epoch(1991.25f, 1991.25f);
+            star.normalize_epoch(1991.25f, 1991.25f);
 
             // BT magnitude at bytes 83-89, VT at 96-102
             double BTmag = read_entry_(line, 83, 89);
@@ -186,12 +184,11 @@ std::vector<StarData> read_tycho2_suppl(const fs::path& filepath)
             if (std::isnan(BTmag) && std::isnan(VTmag)) {
                 continue;
             }
-            star_data[i].process_magnitude(BTmag, VTmag);
-            i++;
+            star.process_magnitude(BTmag, VTmag);
+            star_data.push_back(star);
         }
     }
 
-    star_data.resize(i);
     return star_data;
 }
 } // namespace huira
-- 
2.43.0


From 004bc8afcc091ee5b7eca0a9405ed82a621966c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:43 +0000
Subject: [PATCH 036/109] fix: truncated star catalogues were read as garbage
 stars

---
 include/huira_impl/stars/io/star_catalog.ipp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/huira_impl/stars/io/star_catalog.ipp b/include/huira_impl/stars/io/star_catalog.ipp
index 30d9dac..0569a1f 100644
--- a/include/huira_impl/stars/io/star_catalog.ipp
+++ b/include/huira_impl/stars/io/star_catalog.ipp
@@ -80,6 +80,15 @@ StarCatalog StarCatalog::read_star_data(const fs::path& filepath, float maximum_
                           ").  Please re-generate.");
     }
 
+    // The file must hold all the stars it declares
+    in.seekg(0, std::ios::end);
+    const std::streamoff file_size = in.tellg();
+    if (!in || file_size < static_cast<std::streamoff>(sizeof(HrscHeader)) ||
+        header.star_count >
+            (static_cast<std::uint64_t>(file_size) - sizeof(HrscHeader)) / sizeof(StarData)) {
+        HUIRA_THROW_ERROR("StarCatalog - Truncated file: " + filepath.string());
+    }
+
     // Binary search on file to find cutoff index
     std::uint64_t low = 0, high = header.star_count;
     StarData temp;
-- 
2.43.0


From 0a482bba97d1868d4a8c28ace4908208f7728c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:58 +0000
Subject: [PATCH 037/109] fix: angular velocities from SPICE frames were
 rotated twice

---
 include/huira_impl/core/spice.ipp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/core/spice.ipp b/include/huira_impl/core/spice.ipp
index 72fd408..331ea8d 100644
--- a/include/huira_impl/core/spice.ipp
+++ b/include/huira_impl/core/spice.ipp
@@ -357,12 +357,12 @@ sxform(const std::string& FROM, const std::string& TO, const huira::Time& time)
                             static_cast<T>(matrix[1][2]),
                             static_cast<T>(matrix[2][2])};
 
-    huira::Vec3<T> ang_vel_local{static_cast<T>(angular_velocity[0]),
-                                 static_cast<T>(angular_velocity[1]),
-                                 static_cast<T>(angular_velocity[2])};
+    // SPICE gives the angular velocity of TO in the axes of FROM, which is the parent:
+    huira::Vec3<T> ang_vel_parent{static_cast<T>(angular_velocity[0]),
+                                  static_cast<T>(angular_velocity[1]),
+                                  static_cast<T>(angular_velocity[2])};
 
     Rotation<T> rotation_obj = huira::Rotation<T>::from_parent_to_local(rotation);
-    huira::Vec3<T> ang_vel_parent = rotation_obj * ang_vel_local;
 
     // SPICE represents tha passive rotation of parent-to-local:
     return {rotation_obj, ang_vel_parent};
-- 
2.43.0


From d853352399e2bf72c1a120920007d8a92c20ccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:58 +0000
Subject: [PATCH 038/109] fix: eccentric orbits took the semi-major axis for
 the periapsis distance

---
 include/huira/scene/state_callbacks/keplerian_orbit.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira/scene/state_callbacks/keplerian_orbit.hpp b/include/huira/scene/state_callbacks/keplerian_orbit.hpp
index addb655..c598e4c 100644
--- a/include/huira/scene/state_callbacks/keplerian_orbit.hpp
+++ b/include/huira/scene/state_callbacks/keplerian_orbit.hpp
@@ -18,7 +18,8 @@ struct KeplerianOrbitCallback : public PositionCallback {
                            const Time& epoch,
                            double mu)
     {
-        elements_[0] = a.to_si() / 1000.0;
+        // conics takes the periapsis distance
+        elements_[0] = a.to_si() * (1.0 - e) / 1000.0;
         elements_[1] = e;
         elements_[2] = i.to_si();
         elements_[3] = raan.to_si();
-- 
2.43.0


From f3723c6873eca5ac6e55664383ffeaf265212731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:30 +0000
Subject: [PATCH 039/109] fix: rotation and frame queries checked the
 position's mode

---
 include/huira_impl/scene/node.ipp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 5bc5ba2..590b0a2 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -587,7 +587,7 @@ Vec3<double> Node<TSpectral>::get_static_position() const
 template <IsSpectral TSpectral>
 Rotation<double> Node<TSpectral>::get_static_rotation() const
 {
-    if (position_mode_ != TransformMode::MANUAL_TRANSFORM) {
+    if (rotation_mode_ != TransformMode::MANUAL_TRANSFORM) {
         HUIRA_THROW_ERROR(
             this->get_info() +
             " - cannot get static rotation when rotation mode is not MANUAL_TRANSFORM");
@@ -612,7 +612,7 @@ Vec3<double> Node<TSpectral>::get_static_velocity() const
 template <IsSpectral TSpectral>
 Vec3<double> Node<TSpectral>::get_static_angular_velocity() const
 {
-    if (position_mode_ != TransformMode::MANUAL_TRANSFORM) {
+    if (rotation_mode_ != TransformMode::MANUAL_TRANSFORM) {
         HUIRA_THROW_ERROR(
             this->get_info() +
             " - cannot get static angular velocity when rotation mode is not MANUAL_TRANSFORM");
@@ -633,7 +633,7 @@ std::string Node<TSpectral>::get_spice_origin() const
 template <IsSpectral TSpectral>
 std::string Node<TSpectral>::get_spice_frame() const
 {
-    if (position_mode_ != TransformMode::SPICE_TRANSFORM) {
+    if (rotation_mode_ != TransformMode::SPICE_TRANSFORM) {
         HUIRA_THROW_ERROR(this->get_info() +
                           " - cannot get spice frame when rotation mode is not SPICE_TRANSFORM");
     }
-- 
2.43.0


From d6aab621ce3d6a550b41678449d7a220355dc3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:30 +0000
Subject: [PATCH 040/109] fix: set_manual_transform had no effect on nodes
 driven otherwise before

---
 include/huira_impl/scene/node.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 590b0a2..d016f52 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -223,6 +223,10 @@ void Node<TSpectral>::set_manual_transform(const Transform<double>& transform)
 
     this->local_transform_ = transform;
     this->body_frame_rates_ = false;
+    this->position_mode_ = TransformMode::MANUAL_TRANSFORM;
+    this->rotation_mode_ = TransformMode::MANUAL_TRANSFORM;
+    this->spice_origin_ = "";
+    this->spice_frame_ = "";
 }
 
 /**
-- 
2.43.0


From 36697bd571a1ae6d42afcb627361dad19a699b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:30 +0000
Subject: [PATCH 041/109] fix: an angular velocity set after body rates was
 taken for body rates

---
 include/huira_impl/scene/node.ipp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index d016f52..0a44d00 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -161,6 +161,7 @@ void Node<TSpectral>::set_angular_velocity(const Vec3<double>& angular_velocity)
     }
 
     this->local_transform_.angular_velocity = angular_velocity;
+    this->body_frame_rates_ = false;
 }
 
 /**
-- 
2.43.0


From b898633623066533b5bcf7e725c456c350df1964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:30 +0000
Subject: [PATCH 042/109] fix: body angular rates were reported as if in the
 parent's axes

---
 include/huira_impl/scene/node.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 0a44d00..15c8720 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -571,7 +571,9 @@ Node<TSpectral>::get_local_rotation_at_(const Time& epoch, const Time& t_obs, do
             }
         }
 
-        local_transform_at_time.angular_velocity = local_transform_.angular_velocity;
+        // Angular velocities are expressed in the parent's axes
+        local_transform_at_time.angular_velocity =
+            body_frame_rates_ ? local_transform_at_time.rotation * omega : omega;
     } else {
         // This is not expected to happen since the setters should prevent it
         HUIRA_THROW_ERROR("get_local_rotation_at_ - Unknown rotation_mode_");
-- 
2.43.0


From aa9b5b038efdb073a6cd134260dcba0210b9524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:30 +0000
Subject: [PATCH 043/109] fix: SPICE states under a moving parent ignored the
 parent's motion

---
 include/huira_impl/scene/node.ipp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 15c8720..905bf44 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -474,9 +474,12 @@ Node<TSpectral>::get_ssb_transform_(const Time& epoch, const Time& t_obs, double
         // Convert SPICE SSB result to local frame
         auto [pos, vel, _] =
             spice::spkezr<double>(this->spice_origin_, t_emit, "J2000", "NONE", "SSB");
-        Transform<double> parent_inv = parent_ssb.inverse();
-        local.position = parent_inv.apply_to_point(pos);
-        local.velocity = parent_inv.apply_to_direction(vel);
+        Transform<double> ssb{};
+        ssb.position = pos;
+        ssb.velocity = vel;
+        Transform<double> relative = parent_ssb.inverse() * ssb;
+        local.position = relative.position;
+        local.velocity = relative.velocity;
     } else if (position_mode_ == TransformMode::MANUAL_TRANSFORM) {
         auto pos = get_local_position_at_(epoch, t_obs, dt);
         local.position = pos.position;
@@ -485,9 +488,12 @@ Node<TSpectral>::get_ssb_transform_(const Time& epoch, const Time& t_obs, double
 
     if (rotation_mode_ == TransformMode::SPICE_TRANSFORM) {
         auto [rotation, ang_vel] = spice::sxform<double>("J2000", this->spice_frame_, t_emit);
-        Transform<double> parent_inv = parent_ssb.inverse();
-        local.rotation = parent_inv.rotation * rotation;
-        local.angular_velocity = parent_inv.apply_to_direction(ang_vel);
+        Transform<double> ssb{};
+        ssb.rotation = rotation;
+        ssb.angular_velocity = ang_vel;
+        Transform<double> relative = parent_ssb.inverse() * ssb;
+        local.rotation = relative.rotation;
+        local.angular_velocity = relative.angular_velocity;
     } else if (rotation_mode_ == TransformMode::MANUAL_TRANSFORM) {
         auto rot = get_local_rotation_at_(epoch, t_obs, dt);
         local.rotation = rot.rotation;
-- 
2.43.0


From d02b98fb19d921293dfe435be4247757a490b282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:07 +0000
Subject: [PATCH 044/109] fix: renaming an object to its own name appended a
 number

---
 include/huira_impl/scene/name_registry.ipp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/scene/name_registry.ipp b/include/huira_impl/scene/name_registry.ipp
index 7ebb185..e33f4bd 100644
--- a/include/huira_impl/scene/name_registry.ipp
+++ b/include/huira_impl/scene/name_registry.ipp
@@ -57,12 +57,11 @@ void NameRegistry<T>::remove(std::shared_ptr<T> object)
 template <typename T>
 void NameRegistry<T>::set_name(std::shared_ptr<T> object, std::string name)
 {
-    std::string new_name = make_unique_name_(name);
     std::string old_name = object->name();
-
-    if (new_name == old_name) {
+    if (name == old_name) {
         return;
     }
+    std::string new_name = make_unique_name_(name);
 
     name_registry_.erase(old_name);
     name_registry_[new_name] = object;
-- 
2.43.0


From 69d513fb0a432245853a818aae6f3d66b9235366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:48 +0000
Subject: [PATCH 045/109] fix: frames and instances, and assets with instances,
 could not be deleted

---
 include/huira/scene/name_registry.hpp      |  2 ++
 include/huira_impl/scene/frame_node.ipp    |  7 ++++++-
 include/huira_impl/scene/name_registry.ipp | 12 ++++++++++++
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/huira/scene/name_registry.hpp b/include/huira/scene/name_registry.hpp
index e921009..8e9527e 100644
--- a/include/huira/scene/name_registry.hpp
+++ b/include/huira/scene/name_registry.hpp
@@ -21,6 +21,8 @@ class NameRegistry {
     void remove(std::shared_ptr<T> object);
     void set_name(std::shared_ptr<T> object, std::string name);
 
+    bool contains(const std::shared_ptr<T>& object) const;
+
     std::size_t size() const { return objects_.size(); }
 
     auto begin() { return objects_.begin(); }
diff --git a/include/huira_impl/scene/frame_node.ipp b/include/huira_impl/scene/frame_node.ipp
index f75b271..2aa4b7e 100644
--- a/include/huira_impl/scene/frame_node.ipp
+++ b/include/huira_impl/scene/frame_node.ipp
@@ -55,7 +55,12 @@ void FrameNode<TSpectral>::delete_child(std::weak_ptr<Node<TSpectral>> child_wea
     auto it = std::find(children_.begin(), children_.end(), child);
     if (it != children_.end()) {
         HUIRA_LOG_INFO(this->get_info() + " - Deleting " + child->get_info());
-        this->scene_->node_registry_.remove(child);
+        // Only named nodes are registered:
+        if (this->scene_ != nullptr && this->scene_->node_registry_.contains(child)) {
+            this->scene_->node_registry_.remove(child);
+        } else {
+            child->set_scene_owned(false);
+        }
         children_.erase(it);
     }
 }
diff --git a/include/huira_impl/scene/name_registry.ipp b/include/huira_impl/scene/name_registry.ipp
index e33f4bd..e63f82e 100644
--- a/include/huira_impl/scene/name_registry.ipp
+++ b/include/huira_impl/scene/name_registry.ipp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cstddef>
 #include <memory>
 #include <string>
@@ -83,6 +84,17 @@ std::shared_ptr<T> NameRegistry<T>::lookup(const std::string& name) const
     return it->second;
 }
 
+/**
+ * @brief Check whether an object is in the registry.
+ * @param object Object to look for
+ * @return bool True if the object has been added and not removed
+ */
+template <typename T>
+bool NameRegistry<T>::contains(const std::shared_ptr<T>& object) const
+{
+    return std::find(objects_.begin(), objects_.end(), object) != objects_.end();
+}
+
 /**
  * @brief Make a name unique within the registry.
  * @param name Desired name
-- 
2.43.0


From 310bac3a014d39ae0224b5f9830fa1ef1fc0f514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:48 +0000
Subject: [PATCH 046/109] fix: models kept pointers to deleted primitives

---
 include/huira/assets/model.hpp     | 4 ++++
 include/huira_impl/scene/scene.ipp | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/include/huira/assets/model.hpp b/include/huira/assets/model.hpp
index 8cddd63..56f38a3 100644
--- a/include/huira/assets/model.hpp
+++ b/include/huira/assets/model.hpp
@@ -16,6 +16,9 @@ namespace fs = std::filesystem;
 
 namespace huira {
 
+template <IsSpectral TSpectral>
+class Scene;
+
 template <IsSpectral TSpectral>
 class SceneView;
 
@@ -61,6 +64,7 @@ class Model : public SceneObject<Model<TSpectral>> {
     void print_node_(const Node<TSpectral>* node, const std::string& prefix, bool is_last) const;
 
     friend class ModelLoader<TSpectral>;
+    friend class Scene<TSpectral>;
     friend class SceneView<TSpectral>;
 };
 
diff --git a/include/huira_impl/scene/scene.ipp b/include/huira_impl/scene/scene.ipp
index eb4445d..4673ac5 100644
--- a/include/huira_impl/scene/scene.ipp
+++ b/include/huira_impl/scene/scene.ipp
@@ -1149,6 +1149,13 @@ void Scene<TSpectral>::prune_graph_references_(TAssetPtr target_ptr)
     if (root_node_) {
         prune_references(root_node_.get());
     }
+
+    // Models have graphs of their own:
+    for (const auto& model : models_) {
+        if (model->root_node_) {
+            prune_references(model->root_node_.get());
+        }
+    }
 }
 
 /**
-- 
2.43.0


From 705c4903c7cbac5474f46f8b5384e7c3b9bd2112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 047/109] fix: asteroid distances were multiplied by the
 astronomical unit

---
 include/huira_impl/assets/unresolved/unresolved_asteroid.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp b/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
index c925429..919a9f1 100644
--- a/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
@@ -179,8 +179,8 @@ void UnresolvedAsteroid<TSpectral>::resolve_irradiance(
             double phi2 = asteroid_phi2(alpha_rad);
             double reduced_mag = H_ - 2.5 * std::log10((1.0 - G_) * phi1 + G_ * phi2);
 
-            double r_au = r_m * AU<double>();
-            double delta_au = delta_m * AU<double>();
+            double r_au = r_m / AU<double>();
+            double delta_au = delta_m / AU<double>();
             double apparent_visual_mag = reduced_mag + 5.0 * std::log10(r_au * delta_au);
 
             TSpectral computed_irradiance =
-- 
2.43.0


From d48e64e210f7cdd293a52cb92797e5e269cd2cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 048/109] fix: the phase angle of a fully lit sphere could be
 not a number

---
 include/huira_impl/assets/unresolved/unresolved_sphere.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
index 01292a0..806f85f 100644
--- a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
@@ -137,7 +137,7 @@ void UnresolvedLambertianSphere<TSpectral>::resolve_irradiance(
             TSpectral incident_irradiance =
                 light_->irradiance_at(self_transform.position, light_inst.transforms[0]);
 
-            float phase = std::acos(glm::dot(V, L));
+            float phase = std::acos(glm::clamp(glm::dot(V, L), -1.0f, 1.0f));
             float A = PI<float>() * radius_ * radius_; // Cross-sectional area
             TSpectral reflectedPower =
                 albedo_ * A * incident_irradiance * lambert_phase_function(phase);
-- 
2.43.0


From 256808aec743b3fece5f314ef39f6cc9b8a5dd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 049/109] fix: Lambertian spheres reflected three eighths of
 the light they should

---
 include/huira_impl/assets/unresolved/unresolved_sphere.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
index 806f85f..25844af 100644
--- a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
@@ -142,8 +142,9 @@ void UnresolvedLambertianSphere<TSpectral>::resolve_irradiance(
             TSpectral reflectedPower =
                 albedo_ * A * incident_irradiance * lambert_phase_function(phase);
 
+            // The phase function integrates to 3/2 pi over the sphere of directions
             TSpectral reflected_irradiance =
-                reflectedPower / (4 * PI<float>() * distance * distance);
+                reflectedPower / (1.5f * PI<float>() * distance * distance);
 
             if (!reflected_irradiance.valid()) {
                 HUIRA_THROW_ERROR("UnresolvedLambertianSphere::resolve_irradiance - Computed "
-- 
2.43.0


From 1dc0e9d31a83bdc24e66a8056c4909b0ffe970f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:01 +0000
Subject: [PATCH 050/109] fix: instances of an unresolved object all shone as
 the last one

---
 include/huira/scene/scene_view_types.hpp | 1 +
 include/huira_impl/render/renderer.ipp   | 4 +---
 include/huira_impl/scene/scene_view.ipp  | 6 ++++++
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/huira/scene/scene_view_types.hpp b/include/huira/scene/scene_view_types.hpp
index 196bf34..488ab35 100644
--- a/include/huira/scene/scene_view_types.hpp
+++ b/include/huira/scene/scene_view_types.hpp
@@ -35,6 +35,7 @@ template <IsSpectral TSpectral>
 struct UnresolvedInstance {
     std::shared_ptr<UnresolvedObject<TSpectral>> unresolved_object;
     std::vector<Transform<float>> transforms; // Transform at N times
+    std::vector<TSpectral> irradiances;       // Irradiance at N times
 };
 
 /**
diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index aaa8f07..8448cce 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -674,8 +674,6 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
     std::vector<RenderItem<TSpectral>> items;
     items.reserve(scene_view.stars_.size() + scene_view.unresolved_objects_.size());
 
-    const auto& times = scene_view.temporal_samples_;
-
     for (const auto& star : scene_view.stars_) {
         std::vector<Vec3<float>> directions(star.size());
         std::vector<TSpectral> irradiances(star.size());
@@ -691,7 +689,7 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
         std::vector<TSpectral> irradiances(instance.transforms.size());
         for (std::size_t i = 0; i < instance.transforms.size(); ++i) {
             directions[i] = glm::normalize(instance.transforms[i].position);
-            irradiances[i] = instance.unresolved_object->get_irradiance(times[i]);
+            irradiances[i] = instance.irradiances[i];
         }
         TrajectoryArc arc(directions);
         items.push_back({arc, irradiances, stamp_radius});
diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 091e9e4..c0159f6 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -138,6 +138,12 @@ SceneView<TSpectral>::SceneView(const Scene<TSpectral>& scene,
         // interval
         unresolved_object.unresolved_object->resolve_irradiance(unresolved_object.transforms[0],
                                                                 lights_);
+
+        // Instances share the object, which keeps the irradiance resolved last only:
+        for (const Time& time : temporal_samples_) {
+            unresolved_object.irradiances.push_back(
+                unresolved_object.unresolved_object->get_irradiance(time));
+        }
     }
 
     build_tlas_();
-- 
2.43.0


From a19457915f308ac10d8afef6e6c60c42a9f99e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:39 +0000
Subject: [PATCH 051/109] fix: the exponent of the first H-G phase function was
 0.64, not 0.63

---
 include/huira_impl/assets/unresolved/unresolved_asteroid.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp b/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
index 919a9f1..28f1234 100644
--- a/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
@@ -25,7 +25,7 @@ namespace huira {
 static inline double asteroid_phi1(double alpha)
 {
     double A = 3.33;
-    double B = 0.64;
+    double B = 0.63;
     return std::exp(-A * std::pow(std::tan(alpha / 2.), B));
 };
 
-- 
2.43.0


From 23ef43bf4d3ddc8decea66a89f8e2931a7efd088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:39 +0000
Subject: [PATCH 052/109] fix: a sphere in front of its light had a negative
 irradiance

---
 include/huira_impl/assets/unresolved/unresolved_sphere.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
index 25844af..95df1fd 100644
--- a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cmath>
 #include <memory>
 #include <vector>
@@ -24,7 +25,9 @@ namespace huira {
  */
 static inline float lambert_phase_function(float phase)
 {
-    return (std::sin(phase) + (PI<float>() - phase) * std::cos(phase)) / PI<float>();
+    // Rounding may leave the unlit side slightly negative
+    return std::max(
+        0.0f, (std::sin(phase) + (PI<float>() - phase) * std::cos(phase)) / PI<float>());
 };
 
 /**
-- 
2.43.0


From ff70cbe57e6eaea89b927ca556c89bfea321677c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:19 +0000
Subject: [PATCH 053/109] fix: world normals were turned by the inverse of the
 camera's rotation

---
 include/huira_impl/scene/scene_view.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index c0159f6..3011192 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -62,7 +62,7 @@ SceneView<TSpectral>::SceneView(const Scene<TSpectral>& scene,
 
         observer_transforms[i] = obs_ssb;
         observer_inverses[i] = obs_ssb.inverse();
-        camera_to_world_[i] = static_cast<Transform<float>>(observer_inverses[i]);
+        camera_to_world_[i] = static_cast<Transform<float>>(obs_ssb);
     }
 
     // Copy the background radiance:
-- 
2.43.0


From 2324f9d722502661e1cc882b16148804bc96a561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:19 +0000
Subject: [PATCH 054/109] fix: stars were aberrated in every observation mode,
 unlike everything else

---
 include/huira_impl/scene/scene_view.ipp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 3011192..e5be397 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -122,8 +122,11 @@ SceneView<TSpectral>::SceneView(const Scene<TSpectral>& scene,
         std::vector<Star<TSpectral>> star_samples(temporal_samples_.size());
         for (std::size_t j = 0; j < temporal_samples_.size(); ++j) {
             // Compute stellar aberration:
-            Vec3<double> aberrated_direction =
-                compute_aberrated_direction(direction, observer_transforms[j].velocity);
+            Vec3<double> aberrated_direction = direction;
+            if (obs_mode == ObservationMode::ABERRATED_STATE) {
+                aberrated_direction =
+                    compute_aberrated_direction(direction, observer_transforms[j].velocity);
+            }
             Vec3<double> apparent_direction =
                 observer_transforms[j].rotation.inverse() * aberrated_direction;
             star_samples[j] = Star<TSpectral>(apparent_direction, irradiance);
-- 
2.43.0


From 2e69900300db9b34850fcd22940a1210a43b6fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:19 +0000
Subject: [PATCH 055/109] fix: the rotation and scale of moving instances were
 dropped between time samples

---
 include/huira_impl/render/renderer.ipp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 8448cce..63e6c45 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -91,13 +91,14 @@ inline Transform<float> interpolate_transform(const std::vector<Transform<float>
     result.position =
         transforms[idx].position * (1.0f - frac) + transforms[idx + 1].position * frac;
 
-    // Slerp rotation (assuming you are using glm::quat for rotations)
+    // Slerp rotation
     auto quat = transforms[idx].rotation.local_to_parent_quaternion();
     auto next_quat = transforms[idx + 1].rotation.local_to_parent_quaternion();
-    result.rotation.from_local_to_parent(glm::slerp(quat, next_quat, frac));
+    result.rotation =
+        Rotation<float>::from_local_to_parent(glm::slerp(quat, next_quat, frac));
 
     // Scale interpolation
-    // result.scale = transforms[idx].scale * (1.0f - frac) + transforms[idx + 1].scale * frac;
+    result.scale = transforms[idx].scale * (1.0f - frac) + transforms[idx + 1].scale * frac;
 
     return result;
 }
-- 
2.43.0


From e53fb14b7b182f6524900acffe98853b08dcbd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:19 +0000
Subject: [PATCH 056/109] fix: hits on moving instances were shaded where the
 instance was at first

---
 include/huira/geometry/ray.hpp          |  1 +
 include/huira_impl/render/renderer.ipp  | 32 -------------------
 include/huira_impl/scene/scene_view.ipp | 41 ++++++++++++++++++++++++-
 3 files changed, 41 insertions(+), 33 deletions(-)

diff --git a/include/huira/geometry/ray.hpp b/include/huira/geometry/ray.hpp
index 26e5c38..b9e1362 100644
--- a/include/huira/geometry/ray.hpp
+++ b/include/huira/geometry/ray.hpp
@@ -39,6 +39,7 @@ class Ray {
 
 struct HitRecord {
     float t = std::numeric_limits<float>::infinity(); ///< Ray parameter at hit
+    float time = 0.f;                                 ///< Time of the ray, from 0 to 1
     float u = 0.f;                                    ///< Barycentric u
     float v = 0.f;                                    ///< Barycentric v
     unsigned int inst_id = RTC_INVALID_GEOMETRY_ID;   ///< Instance ID in TLAS
diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 63e6c45..4559f2e 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -71,38 +71,6 @@ inline float power_heuristic(float f_pdf, float g_pdf)
     return f2 / (f2 + g2);
 }
 
-inline Transform<float> interpolate_transform(const std::vector<Transform<float>>& transforms,
-                                              float t)
-{
-    if (transforms.empty()) {
-        return Transform<float>{};
-    }
-    if (transforms.size() == 1) {
-        return transforms[0];
-    }
-
-    float scaled_t = t * static_cast<float>(transforms.size() - 1);
-    std::size_t idx = static_cast<std::size_t>(std::floor(scaled_t));
-    idx = std::min(idx, transforms.size() - 2);
-    float frac = scaled_t - static_cast<float>(idx);
-
-    Transform<float> result;
-    // Linearly interpolate position
-    result.position =
-        transforms[idx].position * (1.0f - frac) + transforms[idx + 1].position * frac;
-
-    // Slerp rotation
-    auto quat = transforms[idx].rotation.local_to_parent_quaternion();
-    auto next_quat = transforms[idx + 1].rotation.local_to_parent_quaternion();
-    result.rotation =
-        Rotation<float>::from_local_to_parent(glm::slerp(quat, next_quat, frac));
-
-    // Scale interpolation
-    result.scale = transforms[idx].scale * (1.0f - frac) + transforms[idx + 1].scale * frac;
-
-    return result;
-}
-
 /**
  * @brief Path trace a scene view into a frame buffer.
  *
diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index e5be397..74257f9 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -169,6 +169,44 @@ struct RayContext : public RTCRayQueryContext {
     const SceneView<TSpectral>* scene_view;
 };
 
+/**
+ * @brief Interpolate the transform of a moving instance.
+ * @param transforms Transforms at uniformly spaced times.
+ * @param t Time, from 0 (first transform) to 1 (last transform).
+ * @return The transform at the given time.
+ */
+inline Transform<float> interpolate_transform(const std::vector<Transform<float>>& transforms,
+                                              float t)
+{
+    if (transforms.empty()) {
+        return Transform<float>{};
+    }
+    if (transforms.size() == 1) {
+        return transforms[0];
+    }
+
+    float scaled_t = t * static_cast<float>(transforms.size() - 1);
+    std::size_t idx = static_cast<std::size_t>(std::floor(scaled_t));
+    idx = std::min(idx, transforms.size() - 2);
+    float frac = scaled_t - static_cast<float>(idx);
+
+    Transform<float> result;
+    // Linearly interpolate position
+    result.position =
+        transforms[idx].position * (1.0f - frac) + transforms[idx + 1].position * frac;
+
+    // Slerp rotation
+    auto quat = transforms[idx].rotation.local_to_parent_quaternion();
+    auto next_quat = transforms[idx + 1].rotation.local_to_parent_quaternion();
+    result.rotation =
+        Rotation<float>::from_local_to_parent(glm::slerp(quat, next_quat, frac));
+
+    // Scale interpolation
+    result.scale = transforms[idx].scale * (1.0f - frac) + transforms[idx + 1].scale * frac;
+
+    return result;
+}
+
 /**
  * @brief Intersect a ray with the scene and return the hit record.
  * @param ray The ray to intersect.
@@ -210,6 +248,7 @@ SceneView<TSpectral>::intersect(const Ray<TSpectral>& ray, float time, unsigned
     HitRecord rec;
     if (rayhit.hit.geomID != RTC_INVALID_GEOMETRY_ID) {
         rec.t = rayhit.ray.tfar;
+        rec.time = time;
         rec.u = rayhit.hit.u;
         rec.v = rayhit.hit.v;
         rec.inst_id = rayhit.hit.instID[0];
@@ -319,7 +358,7 @@ Interaction<TSpectral> SceneView<TSpectral>::resolve_hit(const Ray<TSpectral>& r
     batch.primitive->geometry->compute_surface_interaction(hit, isect);
     isect.wo = -ray.direction();
     const auto& instance_transforms = batch.instances[mapping.instance_index];
-    const Transform<float>& xf = instance_transforms[0];
+    const Transform<float> xf = interpolate_transform(instance_transforms, hit.time);
 
     isect.position = xf.apply_to_point(isect.position);
     isect.normal_g = glm::normalize(xf.apply_to_direction(hit.Ng));
-- 
2.43.0


From 7b18f119b59122c138c54b6f687bec23386d3568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:19 +0000
Subject: [PATCH 057/109] fix: normals of unevenly scaled instances were not
 perpendicular to them

---
 include/huira_impl/scene/scene_view.ipp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 74257f9..f490da6 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -361,11 +361,11 @@ Interaction<TSpectral> SceneView<TSpectral>::resolve_hit(const Ray<TSpectral>& r
     const Transform<float> xf = interpolate_transform(instance_transforms, hit.time);
 
     isect.position = xf.apply_to_point(isect.position);
-    isect.normal_g = glm::normalize(xf.apply_to_direction(hit.Ng));
+    // Normals scale with the inverse:
+    isect.normal_g = glm::normalize(xf.rotation * (hit.Ng / xf.scale));
     isect.normal_g =
         glm::dot(ray.direction(), isect.normal_g) < 0.0f ? isect.normal_g : -isect.normal_g;
-    isect.normal_s = glm::normalize(
-        xf.apply_to_direction(isect.normal_s)); // TODO Do we need to invert this as well?
+    isect.normal_s = glm::normalize(xf.rotation * (isect.normal_s / xf.scale));
     if (glm::dot(isect.normal_s, isect.normal_g) < 0.0f) {
         isect.normal_s = -isect.normal_s;
     }
-- 
2.43.0


From 3e90b7987cbaf5697d59d9bd9609c2fe2039dc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:19 +0000
Subject: [PATCH 058/109] fix: tangents of geometry without tangents were not
 numbers

---
 include/huira_impl/scene/scene_view.ipp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index f490da6..8bb596f 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -370,8 +370,15 @@ Interaction<TSpectral> SceneView<TSpectral>::resolve_hit(const Ray<TSpectral>& r
         isect.normal_s = -isect.normal_s;
     }
 
-    isect.tangent = glm::normalize(xf.apply_to_direction(isect.tangent));
-    isect.bitangent = glm::normalize(xf.apply_to_direction(isect.bitangent));
+    // Geometry without tangents leaves them zero:
+    isect.tangent = xf.apply_to_direction(isect.tangent);
+    isect.bitangent = xf.apply_to_direction(isect.bitangent);
+    if (glm::dot(isect.tangent, isect.tangent) > 0.0f) {
+        isect.tangent = glm::normalize(isect.tangent);
+    }
+    if (glm::dot(isect.bitangent, isect.bitangent) > 0.0f) {
+        isect.bitangent = glm::normalize(isect.bitangent);
+    }
     if (glm::dot(glm::cross(isect.tangent, isect.bitangent), isect.normal_s) < 0.0f) {
         isect.bitangent = -isect.bitangent;
     }
-- 
2.43.0


From d820ae73c3d2aa998a52dee58874c52796101af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:18 +0000
Subject: [PATCH 059/109] fix: hits on geometry without shading normals had
 normals that were not numbers

---
 include/huira_impl/scene/scene_view.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 8bb596f..24842aa 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -365,7 +365,10 @@ Interaction<TSpectral> SceneView<TSpectral>::resolve_hit(const Ray<TSpectral>& r
     isect.normal_g = glm::normalize(xf.rotation * (hit.Ng / xf.scale));
     isect.normal_g =
         glm::dot(ray.direction(), isect.normal_g) < 0.0f ? isect.normal_g : -isect.normal_g;
-    isect.normal_s = glm::normalize(xf.rotation * (isect.normal_s / xf.scale));
+    isect.normal_s = xf.rotation * (isect.normal_s / xf.scale);
+    isect.normal_s = glm::dot(isect.normal_s, isect.normal_s) > 0.0f
+                         ? glm::normalize(isect.normal_s)
+                         : isect.normal_g; // Geometry without shading normals
     if (glm::dot(isect.normal_s, isect.normal_g) < 0.0f) {
         isect.normal_s = -isect.normal_s;
     }
-- 
2.43.0


From 184acc4fd7e600ebdc077f11dff88b45a14a990d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:11 +0000
Subject: [PATCH 060/109] fix: tiles shared a random generator and the ray
 time, so images depended on scheduling

---
 include/huira_impl/render/renderer.ipp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 4559f2e..6d4eaf8 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -106,7 +106,6 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
     int tiles_x = (fb_width + TILE_SIZE - 1) / TILE_SIZE;
     int tiles_y = (fb_height + TILE_SIZE - 1) / TILE_SIZE;
     int num_tiles = tiles_x * tiles_y;
-    float time = 0.f;
     const bool has_motion_blur = scene_view.temporal_samples_.size() > 1;
 
     tbb::parallel_for(
@@ -149,6 +148,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                             Ray<TSpectral> ray = camera->cast_ray(Pixel{sx, sy}, sampler);
 
                             // Motion blur: randomize time sample per ray
+                            float time = 0.f;
                             if (has_motion_blur) {
                                 time = sampler.get_1d(); // [0, 1] maps to shutter interval
                             }
@@ -201,7 +201,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                                                       time);
 
                                             auto sample = light_instance.light->sample_li(
-                                                vol_isect, current_transform, this->sampler_);
+                                                vol_isect, current_transform, sampler);
 
                                             if (!sample) {
                                                 continue;
@@ -360,7 +360,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                             interpolate_transform(light_instance.transforms, time);
 
                                         auto sample = light_instance.light->sample_li(
-                                            isect, current_transform, this->sampler_);
+                                            isect, current_transform, sampler);
 
                                         if (!sample) {
                                             continue;
-- 
2.43.0


From 5ab0e52c6043cd4cf88e90718ea91ee94f2d6b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:11 +0000
Subject: [PATCH 061/109] fix: pixels without surfaces or valid samples were
 not numbers

---
 include/huira_impl/render/renderer.ipp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 6d4eaf8..15d4fe3 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -489,13 +489,17 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                 }
                             }
                         }
-                        float inv_spp = 1.0f / static_cast<float>(samples_taken);
+                        float inv_spp =
+                            samples_taken > 0 ? 1.0f / static_cast<float>(samples_taken) : 0.0f;
 
                         // Average over samples and write to frame buffer:
                         TSpectral avg_radiance = pixel_radiance * inv_spp;
                         TSpectral direct_radiance = pixel_direct_radiance * inv_spp;
                         TSpectral indirect_radiance = pixel_indirect_radiance * inv_spp;
-                        Vec3<float> avg_camera_normals = glm::normalize(camera_normals * inv_spp);
+                        Vec3<float> avg_camera_normals{0.0f};
+                        if (glm::dot(camera_normals, camera_normals) > 0.0f) {
+                            avg_camera_normals = glm::normalize(camera_normals);
+                        }
 
                         if (frame_buffer.has_depth()) {
                             if (closest_depth < std::numeric_limits<float>::infinity()) {
-- 
2.43.0


From 62dfc94f88e98a35aa67784579adfcedcae419a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 062/109] fix: rays leaving an empty medium for the background
 were not numbers

---
 include/huira_impl/render/renderer.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 15d4fe3..3bf04d6 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -244,7 +244,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                         prev_bsdf_pdf = ps.p;
                                         continue;
 
-                                    } else {
+                                    } else if (hit.hit()) {
                                         TSpectral Tr{0.f};
                                         for (std::size_t c = 0; c < TSpectral::size(); ++c) {
                                             Tr[c] = std::exp(-ext[c] * hit.t);
-- 
2.43.0


From 0e5b55306dc607bf466ec627726eebc19e92e389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 063/109] fix: geometry ids were those of the last bounce, and
 zero

---
 include/huira_impl/render/renderer.ipp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 3bf04d6..54e54ce 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -307,10 +307,6 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                     break;
                                 } else {
 
-                                    if (s == 0) {
-                                        geometry_id = hit.geom_id;
-                                    }
-
                                     // Resolve full shading data:
                                     Interaction<TSpectral> isect = scene_view.resolve_hit(ray, hit);
 
@@ -350,6 +346,9 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                     // Record primary ray info:
                                     if (bounce == 0) {
                                         closest_depth = std::min(closest_depth, hit.t);
+                                        if (s == 0) {
+                                            geometry_id = batch.primitive->geometry->id();
+                                        }
                                         camera_normals += shading_isect.normal_s;
                                         albedo_total += params.albedo;
                                     }
-- 
2.43.0


From 8f42e6af4d48dc4004acafe7f90edb0a1dfdcc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 064/109] fix: lights were invisible through surfaces that do
 not scatter

---
 include/huira_impl/render/renderer.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 54e54ce..71cfc5c 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -423,7 +423,9 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                     Vec3<float> bounce_origin =
                                         offset_intersection_(isect.position, bounce_normal);
 
-                                    prev_bsdf_pdf = bs.is_delta ? 0.0f : bs.pdf;
+                                    prev_bsdf_pdf = bs.is_delta
+                                                        ? std::numeric_limits<float>::infinity()
+                                                        : bs.pdf;
                                     prev_isect = shading_isect;
 
                                     throughput = throughput * bs.value;
-- 
2.43.0


From 0cb791a00f8840b687e2e2f1f006c36aa5c3815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 065/109] fix: light scattered by media was counted twice, and
 weighted as seen from another point

---
 include/huira_impl/render/renderer.ipp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 71cfc5c..f0637a4 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -223,8 +223,12 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                             float phase_val =
                                                 opt_mi->phase_function->evaluate(opt_mi->wo, ls.wi);
 
+                                            const float mis_weight =
+                                                power_heuristic(ls.pdf, phase_val);
+
                                             TSpectral Ld = throughput * (ls.Li / ls.pdf) *
-                                                           phase_val * shadow_transmittance;
+                                                           phase_val * mis_weight *
+                                                           shadow_transmittance;
 
                                             if (bounce == 0) {
                                                 direct_radiance += Ld;
@@ -242,6 +246,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                                         ray = Ray<TSpectral>(opt_mi->p, ps.wi);
                                         prev_bsdf_pdf = ps.p;
+                                        prev_isect = vol_isect;
                                         continue;
 
                                     } else if (hit.hit()) {
-- 
2.43.0


From cd58cec663997063eb578053d6d35388de5146e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 066/109] fix: the background turned with the camera

---
 include/huira_impl/render/renderer.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index f0637a4..01215a7 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -261,7 +261,9 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                                 if (!hit.hit()) {
                                     // Sample environment map using ray direction
-                                    Vec3<float> d = glm::normalize(ray.direction());
+                                    Vec3<float> d = glm::normalize(
+                                        interpolate_transform(scene_view.camera_to_world_, time)
+                                            .apply_to_direction(ray.direction()));
                                     float u =
                                         0.5f + std::atan2(d.z, d.x) * (0.5f * INV_PI<float>());
                                     float v = 0.5f - std::asin(std::clamp(d.y, -1.0f, 1.0f)) *
-- 
2.43.0


From 7a9ade5327dfccafa2dfff5b532a10642c4f6d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 067/109] fix: direct, indirect and total received power shared
 one image

---
 include/huira/render/frame_buffer.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/huira/render/frame_buffer.hpp b/include/huira/render/frame_buffer.hpp
index 4e2c499..8f17fb1 100644
--- a/include/huira/render/frame_buffer.hpp
+++ b/include/huira/render/frame_buffer.hpp
@@ -52,17 +52,17 @@ class FrameBuffer {
 
     void enable_received_direct_power(bool enable = true)
     {
-        enable_(received_power_, TSpectral{0}, enable);
+        enable_(received_direct_power_, TSpectral{0}, enable);
     }
-    Image<TSpectral>& received_direct_power() { return received_power_; }
-    bool has_received_direct_power() const { return has_(received_power_); }
+    Image<TSpectral>& received_direct_power() { return received_direct_power_; }
+    bool has_received_direct_power() const { return has_(received_direct_power_); }
 
     void enable_received_indirect_power(bool enable = true)
     {
-        enable_(received_power_, TSpectral{0}, enable);
+        enable_(received_indirect_power_, TSpectral{0}, enable);
     }
-    Image<TSpectral>& received_indirect_power() { return received_power_; }
-    bool has_received_indirect_power() const { return has_(received_power_); }
+    Image<TSpectral>& received_indirect_power() { return received_indirect_power_; }
+    bool has_received_indirect_power() const { return has_(received_indirect_power_); }
 
     void enable_received_power(bool enable = true)
     {
@@ -99,6 +99,12 @@ class FrameBuffer {
         if (has_received_power()) {
             received_power_.fill(TSpectral{0});
         }
+        if (has_received_direct_power()) {
+            received_direct_power_.fill(TSpectral{0});
+        }
+        if (has_received_indirect_power()) {
+            received_indirect_power_.fill(TSpectral{0});
+        }
         if (has_sensor_response()) {
             sensor_response_.fill(SensorT{});
         }
@@ -116,6 +122,8 @@ class FrameBuffer {
     Image<Vec3<float>> world_normals_;
 
     Image<TSpectral> received_power_;
+    Image<TSpectral> received_direct_power_;
+    Image<TSpectral> received_indirect_power_;
     Image<SensorT> sensor_response_;
 
     template <IsImagePixel T>
-- 
2.43.0


From db2b7e085a63c55c005f5e032786b2faeebeb087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 068/109] fix: disabling the sensor response dropped the
 received power

---
 include/huira/render/frame_buffer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira/render/frame_buffer.hpp b/include/huira/render/frame_buffer.hpp
index 8f17fb1..eea0766 100644
--- a/include/huira/render/frame_buffer.hpp
+++ b/include/huira/render/frame_buffer.hpp
@@ -73,7 +73,9 @@ class FrameBuffer {
 
     void enable_sensor_response(bool enable = true)
     {
-        enable_(received_power_, TSpectral{0}, enable); // Sensor response requires received power
+        if (enable) {
+            enable_(received_power_, TSpectral{0}, true); // Sensor response requires received power
+        }
         enable_(sensor_response_, SensorT{}, enable);
     }
     Image<SensorT>& sensor_response() { return sensor_response_; }
-- 
2.43.0


From c9cce5fb72efaaa486dd75e97894d17cd60c9d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 069/109] fix: received power without a sensor response was
 read out into no image

---
 include/huira_impl/render/renderer.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 01215a7..aa519f1 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -58,7 +58,9 @@ void Renderer<TSpectral>::render(SceneView<TSpectral>& scene_view,
         }
     }
 
-    this->get_camera(scene_view)->readout(frame_buffer, scene_view.duration());
+    if (frame_buffer.has_sensor_response()) {
+        this->get_camera(scene_view)->readout(frame_buffer, scene_view.duration());
+    }
 }
 
 inline float power_heuristic(float f_pdf, float g_pdf)
-- 
2.43.0


From 035132a7a0a34882db6bad80094fb34d33afb917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 070/109] fix: two densities of zero had a weight that was not
 a number

---
 include/huira_impl/render/renderer.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index aa519f1..decdad8 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -70,7 +70,7 @@ inline float power_heuristic(float f_pdf, float g_pdf)
     }
     float f2 = f_pdf * f_pdf;
     float g2 = g_pdf * g_pdf;
-    return f2 / (f2 + g2);
+    return f2 > 0.0f ? f2 / (f2 + g2) : 0.0f;
 }
 
 /**
-- 
2.43.0


From 2bf78436b74a6ca1f2496593370d38d570f3a0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 071/109] fix: objects in the frame for a part of the exposure
 shone as if for all of it

---
 include/huira_impl/render/renderer.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index decdad8..f184fca 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -803,7 +803,7 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
                 } else {
                     dt = (params[k + 1] - params[k - 1]) / 2.0f;
                 }
-                float weight = dt / (t_end - t_start); // normalize so weights sum to ~1
+                float weight = dt; // Fraction of the exposure
 
                 // Interpolate irradiance at this parameter value:
                 TSpectral irrad = item.interpolate_irradiances(params[k]);
-- 
2.43.0


From c2a357c05c852966ea5a9ce78f51e559cde9df9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 072/109] fix: points on the far edges read the depth image out
 of bounds

---
 include/huira_impl/render/renderer.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index f184fca..3f4d0d5 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -809,7 +809,7 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
                 TSpectral irrad = item.interpolate_irradiances(params[k]);
                 Vec3<float> dir = arc.evaluate(params[k]);
                 const Pixel& p = pixels[k];
-                if (p.x < 0.f || p.x > res_x || p.y < 0.f || p.y > res_y) {
+                if (!(p.x >= 0.f && p.x < res_x && p.y >= 0.f && p.y < res_y)) {
                     continue;
                 }
 
-- 
2.43.0


From 9028a70441d8c078443ad3b61a49a8feb73e80f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 073/109] fix: unresolved points were drawn half a pixel away
 from where they are seen

---
 include/huira_impl/render/renderer.ipp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 3f4d0d5..1235131 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -826,7 +826,7 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
     const auto& depth_buffer = frame_buffer.depth();
     bool has_depth = frame_buffer.has_depth();
 
-    int margin = stamp_radius;
+    int margin = stamp_radius + 1; // Kernels may be centered one pixel outside
 
     struct TileBuffer {
         Image<TSpectral> buf;
@@ -880,10 +880,11 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
                     TSpectral power = proj.weight * proj.irradiance * projected_area;
 
                     if (stamp_radius > 0) {
-                        float floor_x = std::floor(star_p.x);
-                        float floor_y = std::floor(star_p.y);
-                        float frac_x = star_p.x - floor_x;
-                        float frac_y = star_p.y - floor_y;
+                        // Kernels are centered on the middle of a pixel
+                        float floor_x = std::floor(star_p.x - 0.5f);
+                        float floor_y = std::floor(star_p.y - 0.5f);
+                        float frac_x = star_p.x - 0.5f - floor_x;
+                        float frac_y = star_p.y - 0.5f - floor_y;
 
                         int eff_r = item.effective_radius;
 
@@ -940,8 +941,8 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
                             }
                         }
                     } else {
-                        int px = static_cast<int>(std::round(star_p.x));
-                        int py = static_cast<int>(std::round(star_p.y));
+                        int px = static_cast<int>(std::floor(star_p.x));
+                        int py = static_cast<int>(std::floor(star_p.y));
                         if (px >= local_x0 && px < local_x1 && py >= local_y0 && py < local_y1) {
                             local_buf(px - local_x0, py - local_y0) += power;
                         }
-- 
2.43.0


From 0ad459faff83e87387ba79efeda2116a2fe61403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:52 +0000
Subject: [PATCH 074/109] fix: unresolved objects in front of surfaces were
 hidden by them

---
 include/huira_impl/render/renderer.ipp | 36 ++++++++++++++++++--------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 1235131..9b99b2d 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -570,28 +570,39 @@ template <IsSpectral TSpectral>
 struct RenderItem {
     RenderItem(TrajectoryArc set_arc,
                std::vector<TSpectral> set_irradiance,
+               std::vector<float> set_distances,
                int set_effective_radius)
         : arc(std::move(set_arc)), irradiance(std::move(set_irradiance)),
-          effective_radius(set_effective_radius)
+          distances(std::move(set_distances)), effective_radius(set_effective_radius)
     {
     }
 
     TrajectoryArc arc;
     std::vector<TSpectral> irradiance;
+    std::vector<float> distances; // Empty for stars, which are behind everything
     int effective_radius;
 
-    TSpectral interpolate_irradiances(float t) const
+    template <typename T>
+    static T interpolate(const std::vector<T>& values, float t)
     {
-        if (irradiance.size() == 1) {
-            return irradiance[0];
+        if (values.size() == 1) {
+            return values[0];
         }
 
-        float scaled = t * static_cast<float>(irradiance.size() - 1);
+        float scaled = t * static_cast<float>(values.size() - 1);
         std::size_t lo = static_cast<std::size_t>(std::floor(scaled));
-        lo = std::min(lo, irradiance.size() - 2);
+        lo = std::min(lo, values.size() - 2);
         float frac = scaled - static_cast<float>(lo);
 
-        return irradiance[lo] + frac * (irradiance[lo + 1] - irradiance[lo]);
+        return values[lo] + frac * (values[lo + 1] - values[lo]);
+    }
+
+    TSpectral interpolate_irradiances(float t) const { return interpolate(irradiance, t); }
+
+    float interpolate_distances(float t) const
+    {
+        return distances.empty() ? std::numeric_limits<float>::infinity()
+                                 : interpolate(distances, t);
     }
 
     float max_irradiance() const
@@ -665,17 +676,19 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
             irradiances[i] = star[i].get_irradiance();
         }
         TrajectoryArc arc(directions);
-        items.push_back({arc, irradiances, stamp_radius});
+        items.push_back({arc, irradiances, {}, stamp_radius});
     }
     for (const auto& instance : scene_view.unresolved_objects_) {
         std::vector<Vec3<float>> directions(instance.transforms.size());
         std::vector<TSpectral> irradiances(instance.transforms.size());
+        std::vector<float> distances(instance.transforms.size());
         for (std::size_t i = 0; i < instance.transforms.size(); ++i) {
             directions[i] = glm::normalize(instance.transforms[i].position);
             irradiances[i] = instance.irradiances[i];
+            distances[i] = glm::length(instance.transforms[i].position);
         }
         TrajectoryArc arc(directions);
-        items.push_back({arc, irradiances, stamp_radius});
+        items.push_back({arc, irradiances, distances, stamp_radius});
     }
 
     if (items.empty()) {
@@ -721,6 +734,7 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
         float weight;
         TSpectral irradiance;
         Vec3<float> direction;
+        float distance;
     };
 
     std::vector<std::vector<ProjectedItem>> tile_bins(static_cast<std::size_t>(num_tiles));
@@ -817,7 +831,7 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
                 int ty = std::clamp(static_cast<int>(p.y) / TILE_SIZE, 0, tiles_y - 1);
 
                 tile_bins[static_cast<std::size_t>(ty * tiles_x + tx)].push_back(
-                    {i, p, weight, irrad, dir});
+                    {i, p, weight, irrad, dir, item.interpolate_distances(params[k])});
             }
         }
     }
@@ -868,7 +882,7 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
 
                     bool unobstructed = true;
                     if (has_depth) {
-                        if (!std::isinf(depth_buffer(star_p))) {
+                        if (depth_buffer(star_p) < proj.distance) {
                             unobstructed = false;
                         }
                     }
-- 
2.43.0


From 8ae8aa923df50c25b2098ae9aef5fd1fcdfe9465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:52 +0000
Subject: [PATCH 075/109] fix: stars shone through surfaces unless a depth
 image was asked for

---
 include/huira_impl/render/renderer.ipp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 9b99b2d..64a884d 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -32,12 +32,18 @@ void Renderer<TSpectral>::render(SceneView<TSpectral>& scene_view,
             "Renderer::render - Frame buffer resolution does not match camera resolution.");
     }
 
+    // What is behind a surface is told by its depth
+    const bool keep_depth = frame_buffer.has_depth();
+    frame_buffer.enable_depth();
+
     frame_buffer.clear();
 
     Image<TSpectral> ray_traced_power = this->path_trace_(scene_view, frame_buffer);
 
     Image<TSpectral> star_power = this->render_unresolved_(scene_view, frame_buffer);
 
+    frame_buffer.enable_depth(keep_depth);
+
     if (frame_buffer.has_received_power()) {
         frame_buffer.received_power() = ray_traced_power + star_power;
     }
-- 
2.43.0


From 479ff6801ab1f5a681f767a636eb1145751dcbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:41 +0000
Subject: [PATCH 076/109] fix: emissive surfaces did not shine

---
 include/huira_impl/render/renderer.ipp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 64a884d..d92f9eb 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -368,6 +368,13 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                         albedo_total += params.albedo;
                                     }
 
+                                    // Emission of the surface itself
+                                    if (bounce == 0) {
+                                        direct_radiance += throughput * params.emission;
+                                    } else {
+                                        indirect_radiance += throughput * params.emission;
+                                    }
+
                                     // Direct lighting (next event estimation)
                                     for (const auto& light_instance : lights) {
                                         Transform<float> current_transform =
-- 
2.43.0


From c89363935a49346ddf749a8f3c3e1d38c8318102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:23 +0000
Subject: [PATCH 077/109] fix: surfaces seen through others had their depth
 measured from those

---
 include/huira_impl/render/renderer.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index d92f9eb..2247bfd 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -166,6 +166,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                             TSpectral indirect_radiance{0};
 
                             float prev_roughness = 0.0f;
+                            float passed_distance = 0.0f;
 
                             float prev_bsdf_pdf = 1.0f;
                             Interaction<TSpectral> prev_isect;
@@ -343,6 +344,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                                             ray = Ray<TSpectral>(pass_through_origin,
                                                                  ray.direction());
+                                            passed_distance += hit.t;
 
                                             medium_stack.toggle(batch.primitive.get());
 
@@ -360,7 +362,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                                     // Record primary ray info:
                                     if (bounce == 0) {
-                                        closest_depth = std::min(closest_depth, hit.t);
+                                        closest_depth = std::min(closest_depth, passed_distance + hit.t);
                                         if (s == 0) {
                                             geometry_id = batch.primitive->geometry->id();
                                         }
-- 
2.43.0


From 71e30c51318f613f116b3291a31ae26bd3c43079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:32 +0000
Subject: [PATCH 078/109] fix: convolution with a point-spread function that
 does not exist crashed

---
 include/huira_impl/render/renderer.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 2247bfd..ec1fddc 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -569,7 +569,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
             }
         });
 
-    if (frame_buffer.has_received_power() && camera->convolve_psf_) {
+    if (frame_buffer.has_received_power() && camera->convolve_psf_ && camera->has_psf()) {
         const Image<TSpectral>& psf = camera->get_psf_kernel(0.0f, 0.0f);
         received_power.convolve(psf);
     }
@@ -1022,7 +1022,7 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
                           }
                       });
 
-    if (use_defocus && camera->convolve_psf_) {
+    if (use_defocus && camera->convolve_psf_ && camera->has_psf()) {
         const Image<TSpectral>& psf = camera->get_psf_kernel(0.0f, 0.0f);
         received_power.convolve(psf);
     }
-- 
2.43.0


From 29cd00d5356da7bf52bd54728b22ace8f65647e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:20 +0000
Subject: [PATCH 079/109] fix: mirrored nodes of models could not be loaded

---
 include/huira_impl/assets/io/model_loader.ipp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/io/model_loader.ipp b/include/huira_impl/assets/io/model_loader.ipp
index 1e279f4..b8e7c17 100644
--- a/include/huira_impl/assets/io/model_loader.ipp
+++ b/include/huira_impl/assets/io/model_loader.ipp
@@ -321,10 +321,15 @@ Transform<double> ModelLoader<TSpectral>::convert_transform_(const aiMatrix4x4&
     double scale_y = std::sqrt(col1.x * col1.x + col1.y * col1.y + col1.z * col1.z);
     double scale_z = std::sqrt(col2.x * col2.x + col2.y * col2.y + col2.z * col2.z);
 
+    // A mirrored basis is a rotation with one axis flipped
+    if (glm::dot(glm::cross(col0, col1), col2) < 0.0) {
+        scale_x = -scale_x;
+    }
+
     transform.scale = Vec3<double>{scale_x, scale_y, scale_z};
 
     // Normalize the basis vectors to get the rotation matrix
-    if (scale_x > 1e-10) {
+    if (std::abs(scale_x) > 1e-10) {
         col0.x /= scale_x;
         col0.y /= scale_x;
         col0.z /= scale_x;
-- 
2.43.0


From 3abdecb05723b3782afb0bee4152df9338594a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:20 +0000
Subject: [PATCH 080/109] fix: models with meshes without a material could not
 be loaded

---
 include/huira_impl/assets/io/model_loader.ipp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/huira_impl/assets/io/model_loader.ipp b/include/huira_impl/assets/io/model_loader.ipp
index b8e7c17..96a3e7e 100644
--- a/include/huira_impl/assets/io/model_loader.ipp
+++ b/include/huira_impl/assets/io/model_loader.ipp
@@ -220,18 +220,15 @@ PrimitiveHandle<TSpectral> ModelLoader<TSpectral>::convert_mesh_(const aiMesh* a
     unsigned int material_index = ai_mesh->mMaterialIndex;
     auto mat_it = ctx.material_map.find(material_index);
 
-    MaterialHandle<TSpectral> mat_handle =
-        (mat_it != ctx.material_map.end())
-            ? mat_it->second
-            : MaterialHandle<TSpectral>{std::weak_ptr<Material<TSpectral>>{}};
-
     if (mat_it == ctx.material_map.end()) {
         HUIRA_LOG_WARNING("ModelLoader::convert_mesh_ - No material found for mesh " +
                           std::string(ai_mesh->mName.C_Str()) + " (material index " +
                           std::to_string(material_index) + "). Using default.");
+        return ctx.scene->add_primitive(geom_handle, std::string(ai_mesh->mName.C_Str()));
     }
 
-    return ctx.scene->add_primitive(geom_handle, mat_handle, std::string(ai_mesh->mName.C_Str()));
+    return ctx.scene->add_primitive(
+        geom_handle, mat_it->second, std::string(ai_mesh->mName.C_Str()));
 }
 
 /**
-- 
2.43.0


From 262e8b15586d9c02c145625adcf43ba6a82a04b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:20 +0000
Subject: [PATCH 081/109] fix: models that could not be loaded stayed in the
 scene half loaded

---
 include/huira_impl/assets/io/model_loader.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/io/model_loader.ipp b/include/huira_impl/assets/io/model_loader.ipp
index 96a3e7e..2a53449 100644
--- a/include/huira_impl/assets/io/model_loader.ipp
+++ b/include/huira_impl/assets/io/model_loader.ipp
@@ -63,7 +63,6 @@ ModelLoader<TSpectral>::load(Scene<TSpectral>& scene,
     if (name.empty()) {
         name = file_path.stem().string();
     }
-    scene.models_.add(shared_model, name);
 
     // Create the root node for the model's scene graph
     // Note: We pass nullptr for Scene* since this is a disconnected graph
@@ -109,6 +108,8 @@ ModelLoader<TSpectral>::load(Scene<TSpectral>& scene,
         }
     }
 
+    scene.models_.add(shared_model, name);
+
     HUIRA_LOG_INFO("ModelLoader::load - Model loaded successfully: " + shared_model->get_info());
 
     return shared_model;
-- 
2.43.0


From 83af289f0674ffcc8b012f410e9cc913dc844195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:20 +0000
Subject: [PATCH 082/109] fix: embedded color textures of models were not
 converted to linear light

---
 include/huira_impl/assets/io/model_loader.ipp | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/huira_impl/assets/io/model_loader.ipp b/include/huira_impl/assets/io/model_loader.ipp
index 2a53449..b5f7b2f 100644
--- a/include/huira_impl/assets/io/model_loader.ipp
+++ b/include/huira_impl/assets/io/model_loader.ipp
@@ -610,6 +610,20 @@ inline Image<Vec3<float>> rgb_to_vec3_(const Image<RGB>& rgb)
     return result;
 }
 
+/// Convert sRGB encoded color data to linear light
+inline void linearize_color_(ImageBundle<RGB>& bundle)
+{
+    if (bundle.color_space != ColorSpaceHint::sRGB) {
+        return;
+    }
+    for (std::size_t i = 0; i < bundle.image.size(); ++i) {
+        bundle.image[i][0] = srgb_to_linear(bundle.image[i][0]);
+        bundle.image[i][1] = srgb_to_linear(bundle.image[i][1]);
+        bundle.image[i][2] = srgb_to_linear(bundle.image[i][2]);
+    }
+    bundle.color_space = ColorSpaceHint::Linear;
+}
+
 template <IsSpectral TSpectral, typename TPixel>
 std::pair<Image<TPixel>, Image<float>>
 convert_embedded_raw_(const aiTexture* embedded,
@@ -759,6 +773,9 @@ ModelLoader<TSpectral>::load_material_texture_(const aiMaterial* ai_mat,
                 if constexpr (std::is_same_v<TPixel, TSpectral>) {
                     ImageBundle<RGB> bundle_rgb =
                         load_rgb_from_buffer_(data, size, format, read_alpha);
+                    if (is_color_data) {
+                        linearize_color_(bundle_rgb);
+                    }
                     bundle.image =
                         Image<TSpectral>(bundle_rgb.image.width(), bundle_rgb.image.height());
                     for (int y = 0; y < bundle_rgb.image.height(); ++y) {
@@ -817,13 +834,8 @@ ModelLoader<TSpectral>::load_material_texture_(const aiMaterial* ai_mat,
             if constexpr (std::is_same_v<TPixel, TSpectral>) {
                 ImageBundle<RGB> bundle_rgb = load_rgb_from_file_(resolved_path, read_alpha);
 
-                if (is_color_data && bundle_rgb.color_space == ColorSpaceHint::sRGB) {
-                    for (std::size_t i = 0; i < bundle_rgb.image.size(); ++i) {
-                        bundle_rgb.image[i][0] = srgb_to_linear(bundle_rgb.image[i][0]);
-                        bundle_rgb.image[i][1] = srgb_to_linear(bundle_rgb.image[i][1]);
-                        bundle_rgb.image[i][2] = srgb_to_linear(bundle_rgb.image[i][2]);
-                    }
-                    bundle_rgb.color_space = ColorSpaceHint::Linear;
+                if (is_color_data) {
+                    linearize_color_(bundle_rgb);
                 }
 
                 bundle.image =
-- 
2.43.0


From b0345499f2df0c97a409ee810f5c1aea4341c544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:20 +0000
Subject: [PATCH 083/109] fix: emissive textures of models were not converted
 to linear light

---
 include/huira_impl/assets/io/model_loader.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/io/model_loader.ipp b/include/huira_impl/assets/io/model_loader.ipp
index b5f7b2f..2b1d752 100644
--- a/include/huira_impl/assets/io/model_loader.ipp
+++ b/include/huira_impl/assets/io/model_loader.ipp
@@ -463,7 +463,7 @@ void ModelLoader<TSpectral>::process_materials_(LoadContext& ctx)
 
         // Assign emissive:
         if (auto [tex, _] = load_material_texture_<TSpectral>(
-                ai_mat, aiTextureType_EMISSION_COLOR, ctx, false, false);
+                ai_mat, aiTextureType_EMISSION_COLOR, ctx, false, true);
             tex) {
             material.set_emissive_image(tex.value());
         }
-- 
2.43.0


From bfb2c22064bb7ea0fcafd4b3e3743e64625c8ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:30 +0000
Subject: [PATCH 084/109] fix: linear HDR images were marked as sRGB encoded

---
 include/huira_impl/images/io/hdr_io.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/huira_impl/images/io/hdr_io.ipp b/include/huira_impl/images/io/hdr_io.ipp
index 2976f15..94272cf 100644
--- a/include/huira_impl/images/io/hdr_io.ipp
+++ b/include/huira_impl/images/io/hdr_io.ipp
@@ -303,6 +303,7 @@ inline ImageBundle<RGB> read_image_hdr(const unsigned char* data, std::size_t si
     auto hdr_data = read_hdr_raw_(data, size);
 
     ImageBundle<RGB> bundle{Image<RGB>(hdr_data.resolution)};
+    bundle.color_space = ColorSpaceHint::Linear;
     for (int y = 0; y < hdr_data.height; ++y) {
         for (int x = 0; x < hdr_data.width; ++x) {
             std::size_t idx =
@@ -351,6 +352,7 @@ inline ImageBundle<float> read_image_hdr_mono(const unsigned char* data, std::si
     auto hdr_data = read_hdr_raw_(data, size);
 
     ImageBundle<float> bundle{Image<float>(hdr_data.resolution)};
+    bundle.color_space = ColorSpaceHint::Linear;
 
     for (int y = 0; y < hdr_data.height; ++y) {
         for (int x = 0; x < hdr_data.width; ++x) {
-- 
2.43.0


From 8c2666be0241c5316f62b00fad4175d8d958e1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:05 +0000
Subject: [PATCH 085/109] fix: textures of models lost their opacity when used
 elsewhere first

---
 include/huira_impl/assets/io/model_loader.ipp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/huira_impl/assets/io/model_loader.ipp b/include/huira_impl/assets/io/model_loader.ipp
index 2b1d752..cc0ddff 100644
--- a/include/huira_impl/assets/io/model_loader.ipp
+++ b/include/huira_impl/assets/io/model_loader.ipp
@@ -734,15 +734,17 @@ ModelLoader<TSpectral>::load_material_texture_(const aiMaterial* ai_mat,
     std::optional<TextureHandle<TPixel>> main_handle = std::nullopt;
     std::optional<TextureHandle<float>> alpha_handle = std::nullopt;
 
-    // Check deduplication cache
+    // Check deduplication cache. The same file read in another way is another texture:
+    const std::string cache_key = tex_path_str + (read_alpha ? "?alpha" : "") +
+                                  (tex_type == aiTextureType_NORMALS ? "?normal" : "");
     auto& cache = get_texture_cache_<TPixel>(ctx);
-    auto cache_it = cache.find(tex_path_str);
+    auto cache_it = cache.find(cache_key);
     if (cache_it != cache.end()) {
         main_handle = cache_it->second;
 
         // If the main image was cached, check if we also cached its alpha counterpart
         if (read_alpha) {
-            auto alpha_it = ctx.mono_texture_cache.find(tex_path_str + "_alpha");
+            auto alpha_it = ctx.mono_texture_cache.find(cache_key + "_alpha");
             if (alpha_it != ctx.mono_texture_cache.end()) {
                 alpha_handle = alpha_it->second;
             }
@@ -879,13 +881,13 @@ ModelLoader<TSpectral>::load_material_texture_(const aiMaterial* ai_mat,
         }
         return ctx.scene->add_texture(std::move(bundle.image), tex_name);
     }();
-    cache.emplace(tex_path_str, handle);
+    cache.emplace(cache_key, handle);
     main_handle = handle;
 
     // Register Alpha Texture
     if (has_alpha) {
         auto a_handle = ctx.scene->add_texture(std::move(bundle.alpha), tex_name + "_alpha");
-        ctx.mono_texture_cache.emplace(tex_path_str + "_alpha", a_handle);
+        ctx.mono_texture_cache.emplace(cache_key + "_alpha", a_handle);
         alpha_handle = a_handle;
     }
 
-- 
2.43.0


From 59a68ff6ecc45363f483a6606eab84fd98075d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:56 +0000
Subject: [PATCH 086/109] fix: counts were truncated when written to integer
 FITS files

---
 include/huira_impl/images/io/fits_io.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/images/io/fits_io.ipp b/include/huira_impl/images/io/fits_io.ipp
index b21d3f4..1b8a09a 100644
--- a/include/huira_impl/images/io/fits_io.ipp
+++ b/include/huira_impl/images/io/fits_io.ipp
@@ -636,7 +636,7 @@ inline void write_image_fits(const fs::path& filepath,
             } else {
                 if (is_integer) {
                     float lo = (bit_depth == 8) ? 1.f : 0.f;
-                    px = std::clamp(px * static_cast<float>(adc_max),
+                    px = std::clamp(std::round(px * static_cast<float>(adc_max)),
                                     lo,
                                     static_cast<float>(detail::bitpix_max(bit_depth)));
                 }
-- 
2.43.0


From ab79e41fe17de3f7894994df6a381cb26bbf6ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:56 +0000
Subject: [PATCH 087/109] fix: saturated pixels could not be written to 32-bit
 FITS files

---
 include/huira_impl/images/io/fits_io.ipp | 25 ++++++++++++------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/include/huira_impl/images/io/fits_io.ipp b/include/huira_impl/images/io/fits_io.ipp
index 1b8a09a..1edc644 100644
--- a/include/huira_impl/images/io/fits_io.ipp
+++ b/include/huira_impl/images/io/fits_io.ipp
@@ -609,10 +609,11 @@ inline void write_image_fits(const fs::path& filepath,
 
     // --- Prepare pixel buffer (flip to FITS bottom-up order) ---
     const long npixels = static_cast<long>(w) * h;
-    std::vector<float> buffer(static_cast<std::size_t>(npixels));
+    // In double precision, since floats do not hold every 32-bit count.
+    std::vector<double> buffer(static_cast<std::size_t>(npixels));
 
-    float actual_min = std::numeric_limits<float>::max();
-    float actual_max = -std::numeric_limits<float>::max();
+    double actual_min = std::numeric_limits<double>::max();
+    double actual_max = -std::numeric_limits<double>::max();
 
     long blank_value = 0;
     if (is_integer) {
@@ -622,23 +623,21 @@ inline void write_image_fits(const fs::path& filepath,
     bool has_blank = false;
     for (int y = 0; y < h; ++y) {
         const int fits_row = h - 1 - y;
-        float* dst = buffer.data() + static_cast<std::size_t>(fits_row * w);
+        double* dst = buffer.data() + static_cast<std::size_t>(fits_row * w);
         for (int x = 0; x < w; ++x) {
-            float px = image(x, y);
+            double px = static_cast<double>(image(x, y));
 
             if (!std::isfinite(px)) {
                 if (is_integer) {
-                    dst[x] = static_cast<float>(blank_value);
+                    dst[x] = static_cast<double>(blank_value);
                     has_blank = true;
                 } else {
-                    dst[x] = std::numeric_limits<float>::quiet_NaN();
+                    dst[x] = std::numeric_limits<double>::quiet_NaN();
                 }
             } else {
                 if (is_integer) {
-                    float lo = (bit_depth == 8) ? 1.f : 0.f;
-                    px = std::clamp(std::round(px * static_cast<float>(adc_max)),
-                                    lo,
-                                    static_cast<float>(detail::bitpix_max(bit_depth)));
+                    double lo = (bit_depth == 8) ? 1.0 : 0.0;
+                    px = std::clamp(std::round(px * adc_max), lo, detail::bitpix_max(bit_depth));
                 }
                 dst[x] = px;
                 actual_min = std::min(actual_min, px);
@@ -666,9 +665,9 @@ inline void write_image_fits(const fs::path& filepath,
     }
 
     // --- Write pixels ---
-    // CFITSIO converts TFLOAT → on-disk BITPIX, quantising as needed.
+    // CFITSIO converts TDOUBLE → on-disk BITPIX.
     long fpixel[2] = {1, 1};
-    fits_write_pix(ff.fptr, TFLOAT, fpixel, npixels, buffer.data(), &status);
+    fits_write_pix(ff.fptr, TDOUBLE, fpixel, npixels, buffer.data(), &status);
     detail::fits_check(status, "write pixels");
 }
 
-- 
2.43.0


From 15c68f8bf00ef834afb73b82deffa47cf58c8bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:56 +0000
Subject: [PATCH 088/109] fix: undefined pixels of integer FITS files were read
 as dark ones

---
 include/huira_impl/images/io/fits_io.ipp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/io/fits_io.ipp b/include/huira_impl/images/io/fits_io.ipp
index 1edc644..0192dd3 100644
--- a/include/huira_impl/images/io/fits_io.ipp
+++ b/include/huira_impl/images/io/fits_io.ipp
@@ -283,7 +283,7 @@ inline FitsMetadata read_fits_metadata(fitsfile* fptr)
 
         static const char* known[] = {
             "SIMPLE",   "BITPIX", "NAXIS",   "NAXIS1",  "NAXIS2",   "NAXIS3",   "EXTEND",
-            "BZERO",    "BSCALE", "END",     "OBJECT",  "TELESCOP", "INSTRUME", "OBSERVER",
+            "BZERO",    "BSCALE", "BLANK",   "END",     "OBJECT",  "TELESCOP", "INSTRUME", "OBSERVER",
             "DATE-OBS", "ORIGIN", "EXPTIME", "FILTER",  "BUNIT",    "DATAMIN",  "DATAMAX",
             "SATURATE", "CRPIX1", "CRPIX2",  "CRVAL1",  "CRVAL2",   "CDELT1",   "CDELT2",
             "CTYPE1",   "CTYPE2", "EQUINOX", "RADESYS", nullptr};
@@ -477,7 +477,9 @@ inline std::pair<Image<float>, FitsMetadata> read_image_fits(const fs::path& fil
     long fpixel[2] = {1, 1};
     int anynul = 0;
 
-    fits_read_pix(ff.fptr, TFLOAT, fpixel, npixels, nullptr, buffer.data(), &anynul, &status);
+    // Undefined pixels (BLANK) are read as NaN.
+    float undefined = std::numeric_limits<float>::quiet_NaN();
+    fits_read_pix(ff.fptr, TFLOAT, fpixel, npixels, &undefined, buffer.data(), &anynul, &status);
     detail::fits_check(status, "read pixels");
 
     // --- Normalise integer data to [0, 1] ---
-- 
2.43.0


From 730cc8d670957b1bc69318e92e28713b77732e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:56 +0000
Subject: [PATCH 089/109] fix: images of sensors with more bits than a FITS
 file were clipped

---
 include/huira_impl/images/io/fits_io.ipp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/images/io/fits_io.ipp b/include/huira_impl/images/io/fits_io.ipp
index 0192dd3..8d66ae5 100644
--- a/include/huira_impl/images/io/fits_io.ipp
+++ b/include/huira_impl/images/io/fits_io.ipp
@@ -589,6 +589,8 @@ inline void write_image_fits(const fs::path& filepath,
     if (is_integer) {
         adc_max =
             (sensor_bits > 0) ? (std::pow(2.0, sensor_bits) - 1.0) : detail::bitpix_max(bit_depth);
+        // A sensor with more bits than the file is scaled to the range of the file.
+        adc_max = std::min(adc_max, detail::bitpix_max(bit_depth));
     }
 
     // --- Write metadata ---
@@ -600,10 +602,9 @@ inline void write_image_fits(const fs::path& filepath,
             meta_copy.bunit = "adu";
         }
 
-        // SATURATE = the ADC ceiling (so readers know the dynamic range).
-        if (!meta_copy.saturate) {
-            meta_copy.saturate = adc_max;
-        }
+        // SATURATE = the ADC ceiling (so readers know the dynamic range), whatever
+        // the file the metadata came from had.
+        meta_copy.saturate = adc_max;
     }
 
     detail::write_fits_metadata(ff.fptr, meta_copy, status);
-- 
2.43.0


From 36671ee38a3936b3061e7acdbf29831c86f38569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:56 +0000
Subject: [PATCH 090/109] fix: reading FITS images with further axes of length
 one read past the coordinates

---
 include/huira_impl/images/io/fits_io.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/io/fits_io.ipp b/include/huira_impl/images/io/fits_io.ipp
index 8d66ae5..cbcc7fe 100644
--- a/include/huira_impl/images/io/fits_io.ipp
+++ b/include/huira_impl/images/io/fits_io.ipp
@@ -474,12 +474,13 @@ inline std::pair<Image<float>, FitsMetadata> read_image_fits(const fs::path& fil
     const long npixels = static_cast<long>(width) * height;
     std::vector<float> buffer(static_cast<std::size_t>(npixels));
 
-    long fpixel[2] = {1, 1};
+    // One coordinate per axis, also for axes of length one beyond the second.
+    std::vector<long> fpixel(static_cast<std::size_t>(naxis), 1);
     int anynul = 0;
 
     // Undefined pixels (BLANK) are read as NaN.
     float undefined = std::numeric_limits<float>::quiet_NaN();
-    fits_read_pix(ff.fptr, TFLOAT, fpixel, npixels, &undefined, buffer.data(), &anynul, &status);
+    fits_read_pix(ff.fptr, TFLOAT, fpixel.data(), npixels, &undefined, buffer.data(), &anynul, &status);
     detail::fits_check(status, "read pixels");
 
     // --- Normalise integer data to [0, 1] ---
-- 
2.43.0


From e1a2fdef162c5d366b5b81c78516359c3176112f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:56 +0000
Subject: [PATCH 091/109] fix: CFITSIO's own comments were taken as the image's

---
 include/huira_impl/images/io/fits_io.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/huira_impl/images/io/fits_io.ipp b/include/huira_impl/images/io/fits_io.ipp
index cbcc7fe..744a6ca 100644
--- a/include/huira_impl/images/io/fits_io.ipp
+++ b/include/huira_impl/images/io/fits_io.ipp
@@ -319,6 +319,11 @@ inline FitsMetadata read_fits_metadata(fitsfile* fptr)
             std::string kn(keyname);
 
             if (kn == "COMMENT") {
+                // Written by CFITSIO itself into every file.
+                if (std::strstr(card, "FITS (Flexible Image Transport System) format is") ||
+                    std::strstr(card, "and Astrophysics', volume 376, page 359")) {
+                    continue;
+                }
                 if (std::strlen(card) > 8) {
                     m.comments.emplace_back(card + 8);
                 }
-- 
2.43.0


From a41dd849f0dc6a2b730f3feb02e8203989076f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:16 +0000
Subject: [PATCH 092/109] fix: unsigned FITS images were read as twice too
 bright

---
 include/huira_impl/images/io/fits_io.ipp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/huira_impl/images/io/fits_io.ipp b/include/huira_impl/images/io/fits_io.ipp
index 744a6ca..d003099 100644
--- a/include/huira_impl/images/io/fits_io.ipp
+++ b/include/huira_impl/images/io/fits_io.ipp
@@ -409,8 +409,12 @@ inline double bitpix_max(int bitpix)
         return 255.0;
     case 16:
         return 32767.0;
+    case USHORT_IMG:
+        return 65535.0;
     case 32:
         return 2147483647.0;
+    case ULONG_IMG:
+        return 4294967295.0;
     default:
         return 1.0;
     }
@@ -450,6 +454,14 @@ inline std::pair<Image<float>, FitsMetadata> read_image_fits(const fs::path& fil
     fits_get_img_param(ff.fptr, 3, &bitpix, &naxis, naxes, &status);
     detail::fits_check(status, "get image params");
 
+    // Unsigned images (BZERO) have twice the range of their BITPIX.
+    int equivalent_type = 0;
+    fits_get_img_equivtype(ff.fptr, &equivalent_type, &status);
+    detail::fits_check(status, "get image type");
+    if (equivalent_type == USHORT_IMG || equivalent_type == ULONG_IMG) {
+        bitpix = equivalent_type;
+    }
+
     if (naxis < 2) {
         HUIRA_THROW_ERROR("FITS file has NAXIS=" + std::to_string(naxis) +
                           "; expected at least 2 for an image.");
-- 
2.43.0


From aad0c5059d81992a881bc46d99f8325ebbc20d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:45 +0000
Subject: [PATCH 093/109] fix: writing a spectral image to TIFF did not compile

---
 include/huira_impl/images/io/tiff_io.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index 9f47b9f..490f452 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -796,6 +796,7 @@ inline void write_image_tiff(const fs::path& filepath,
         }
     }
 
-    write_image_tiff(filepath, mono_image, bundle.bit_depth, description, artist);
+    ImageBundle<float> mono_bundle(bundle, std::move(mono_image));
+    write_image_tiff(filepath, mono_bundle, description, artist);
 }
 } // namespace huira
-- 
2.43.0


From c37e199be9f5dad886aeb13aa63da15ef5d39e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:34 +0000
Subject: [PATCH 094/109] fix: TIFF samples were cut off instead of rounded

---
 include/huira_impl/images/io/tiff_io.ipp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index 490f452..bb4475a 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -693,16 +693,13 @@ inline void write_image_tiff(const fs::path& filepath,
             std::size_t offset = x * 3 * bytes_per_sample;
 
             if (bundle.bit_depth == 8) {
-                scanline[offset + 0] =
-                    static_cast<uint8_t>(std::clamp(pixel[0] * 255.0f, 0.0f, 255.0f));
-                scanline[offset + 1] =
-                    static_cast<uint8_t>(std::clamp(pixel[1] * 255.0f, 0.0f, 255.0f));
-                scanline[offset + 2] =
-                    static_cast<uint8_t>(std::clamp(pixel[2] * 255.0f, 0.0f, 255.0f));
+                scanline[offset + 0] = float_to_integer<uint8_t>(pixel[0]);
+                scanline[offset + 1] = float_to_integer<uint8_t>(pixel[1]);
+                scanline[offset + 2] = float_to_integer<uint8_t>(pixel[2]);
             } else {
-                uint16_t r = static_cast<uint16_t>(std::clamp(pixel[0] * 65535.0f, 0.0f, 65535.0f));
-                uint16_t g = static_cast<uint16_t>(std::clamp(pixel[1] * 65535.0f, 0.0f, 65535.0f));
-                uint16_t b = static_cast<uint16_t>(std::clamp(pixel[2] * 65535.0f, 0.0f, 65535.0f));
+                uint16_t r = float_to_integer<uint16_t>(pixel[0]);
+                uint16_t g = float_to_integer<uint16_t>(pixel[1]);
+                uint16_t b = float_to_integer<uint16_t>(pixel[2]);
                 std::memcpy(&scanline[offset + 0], &r, 2);
                 std::memcpy(&scanline[offset + 2], &g, 2);
                 std::memcpy(&scanline[offset + 4], &b, 2);
@@ -765,10 +762,9 @@ inline void write_image_tiff(const fs::path& filepath,
             float pixel = bundle.image(static_cast<int>(x), static_cast<int>(y));
 
             if (bundle.bit_depth == 8) {
-                scanline[x] = static_cast<uint8_t>(std::clamp(pixel * 255.0f, 0.0f, 255.0f));
+                scanline[x] = float_to_integer<uint8_t>(pixel);
             } else {
-                uint16_t value =
-                    static_cast<uint16_t>(std::clamp(pixel * 65535.0f, 0.0f, 65535.0f));
+                uint16_t value = float_to_integer<uint16_t>(pixel);
                 std::memcpy(&scanline[x * 2], &value, 2);
             }
         }
-- 
2.43.0


From 7490dca1e49efa6d2ad38fd263f8eee4875197be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:34 +0000
Subject: [PATCH 095/109] fix: tiles of a TIFF that cannot be read were taken
 as whatever was there

---
 include/huira_impl/images/io/tiff_io.ipp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index bb4475a..2235640 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -348,7 +348,10 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
         if (planar_config == PLANARCONFIG_CONTIG) {
             for (uint32_t ty = 0; ty < height; ty += tile_height) {
                 for (uint32_t tx = 0; tx < width; tx += tile_width) {
-                    TIFFReadTile(tif.get(), tile_buf.data(), tx, ty, 0, 0);
+                    if (TIFFReadTile(tif.get(), tile_buf.data(), tx, ty, 0, 0) < 0) {
+                        HUIRA_THROW_ERROR("read_tiff_raw_ - Failed to read tile at (" +
+                                          std::to_string(tx) + ", " + std::to_string(ty) + ")");
+                    }
 
                     uint32_t eff_tw = std::min(tile_width, width - tx);
                     uint32_t eff_th = std::min(tile_height, height - ty);
@@ -376,7 +379,12 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
             for (uint16_t ch = 0; ch < samples_per_pixel; ++ch) {
                 for (uint32_t ty = 0; ty < height; ty += tile_height) {
                     for (uint32_t tx = 0; tx < width; tx += tile_width) {
-                        TIFFReadTile(tif.get(), tile_buf.data(), tx, ty, 0, ch);
+                        if (TIFFReadTile(tif.get(), tile_buf.data(), tx, ty, 0, ch) < 0) {
+                            HUIRA_THROW_ERROR(
+                                "read_tiff_raw_ - Failed to read tile at (" + std::to_string(tx) +
+                                ", " + std::to_string(ty) + ") channel " +
+                                std::to_string(static_cast<int>(ch)));
+                        }
 
                         uint32_t eff_tw = std::min(tile_width, width - tx);
                         uint32_t eff_th = std::min(tile_height, height - ty);
-- 
2.43.0


From 46cca0c9d5703b1b132b52ea1eb5ee84d67ad1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:34 +0000
Subject: [PATCH 096/109] fix: TIFFs of luminance and colour difference were
 read as red, green and blue

---
 include/huira_impl/images/io/tiff_io.ipp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index 2235640..f26a485 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -138,13 +138,13 @@ inline toff_t tiff_mem_size_(thandle_t handle) noexcept
  * Uses libtiff via TIFFClientOpen with custom memory I/O callbacks. Extracts
  * all channels as separate floating-point arrays. Handles the following:
  *   - Sample formats: uint8, uint16, uint32, float32
- *   - Photometric interpretations: MinIsBlack, MinIsWhite, RGB, Palette, Separated (CMYK)
+ *   - Photometric interpretations: MinIsBlack, MinIsWhite, RGB, Palette, YCbCr, Separated (CMYK)
  *   - Storage: both stripped and tiled TIFFs
  *   - Planar configurations: chunky (interleaved) and separate (planar)
  *   - Extra samples: detects associated/unassociated alpha
  *
  * MinIsWhite images are inverted so that output is always in MinIsBlack convention.
- * Palette images are expanded to RGB(A) via TIFFReadRGBAImageOriented.
+ * Palette and YCbCr images are expanded to RGB(A) via TIFFReadRGBAImageOriented.
  * Signed integer TIFFs are rejected (not supported for texture loading).
  *
  * @param data Pointer to the TIFF data in memory
@@ -253,14 +253,14 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
                           "), only 32-bit float supported");
     }
 
-    // Handle palette images via RGBA fallback
-    if (photometric == PHOTOMETRIC_PALETTE) {
+    // Handle palette and YCbCr images via RGBA fallback
+    if (photometric == PHOTOMETRIC_PALETTE || photometric == PHOTOMETRIC_YCBCR) {
         std::size_t num_pixels = static_cast<std::size_t>(width) * static_cast<std::size_t>(height);
         std::vector<uint32_t> rgba_data(num_pixels);
 
         if (!TIFFReadRGBAImageOriented(
                 tif.get(), width, height, rgba_data.data(), ORIENTATION_TOPLEFT, 0)) {
-            HUIRA_THROW_ERROR("read_tiff_raw_ - Failed to read palette TIFF via RGBA");
+            HUIRA_THROW_ERROR("read_tiff_raw_ - Failed to read TIFF via RGBA");
         }
 
         TIFFData tiff_data{};
-- 
2.43.0


From c25fba750d08317f727db08bd93ddf89c446dd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:34 +0000
Subject: [PATCH 097/109] fix: empty images were written to TIFF without an
 error

---
 include/huira_impl/images/io/tiff_io.ipp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index f26a485..179ad09 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -663,6 +663,10 @@ inline void write_image_tiff(const fs::path& filepath,
         HUIRA_THROW_ERROR("write_image_tiff - Bit depth must be 8 or 16");
     }
 
+    if (bundle.image.width() == 0 || bundle.image.height() == 0) {
+        HUIRA_THROW_ERROR("write_image_tiff - Cannot write empty image: " + filepath.string());
+    }
+
     make_path(filepath);
 
     ScopedTIFF tif(TIFFOpen(filepath.string().c_str(), "w"));
@@ -733,6 +737,10 @@ inline void write_image_tiff(const fs::path& filepath,
         HUIRA_THROW_ERROR("write_image_tiff - Bit depth must be 8 or 16");
     }
 
+    if (bundle.image.width() == 0 || bundle.image.height() == 0) {
+        HUIRA_THROW_ERROR("write_image_tiff - Cannot write empty image: " + filepath.string());
+    }
+
     make_path(filepath);
 
     ScopedTIFF tif(TIFFOpen(filepath.string().c_str(), "w"));
-- 
2.43.0


From 4c72ad3068681f6efb2a1dd00155ade44f26bc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:34 +0000
Subject: [PATCH 098/109] fix: TIFFs of physical values were marked as sRGB

---
 include/huira_impl/images/io/tiff_io.ipp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index 179ad09..0526a57 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -42,6 +42,7 @@ struct TIFFData {
     std::size_t num_channels = 0;
 
     uint16_t photometric = PHOTOMETRIC_MINISBLACK;
+    bool is_float = false;
     bool has_alpha = false;
     int alpha_index = -1;
 };
@@ -471,6 +472,7 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
     tiff_data.channels = std::move(channels);
     tiff_data.num_channels = num_channels;
     tiff_data.photometric = photometric;
+    tiff_data.is_float = is_float;
     tiff_data.has_alpha = has_alpha;
     tiff_data.alpha_index = alpha_index;
 
@@ -511,6 +513,9 @@ read_image_tiff_rgb(const unsigned char* data, std::size_t size, bool read_alpha
     bool extract_alpha = tiff_data.has_alpha && read_alpha;
 
     ImageBundle<RGB> bundle{Image<RGB>(tiff_data.resolution)};
+    if (tiff_data.is_float) {
+        bundle.color_space = ColorSpaceHint::Linear;
+    }
 
     if (extract_alpha) {
         bundle.alpha = Image<float>(tiff_data.resolution, 1.0f);
@@ -592,6 +597,9 @@ read_image_tiff_mono(const unsigned char* data, std::size_t size, bool read_alph
     bool extract_alpha = tiff_data.has_alpha && read_alpha;
 
     ImageBundle<float> bundle{Image<float>(tiff_data.resolution)};
+    if (tiff_data.is_float) {
+        bundle.color_space = ColorSpaceHint::Linear;
+    }
 
     if (extract_alpha) {
         bundle.alpha = Image<float>(tiff_data.resolution, 1.0f);
-- 
2.43.0


From 5a9deb8df0fed4aeaec31be0ff01f9e316e60c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:34 +0000
Subject: [PATCH 099/109] fix: images read from PNG and TIFF lost their bit
 depth

---
 include/huira_impl/images/io/png_io.ipp  | 2 ++
 include/huira_impl/images/io/tiff_io.ipp | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/include/huira_impl/images/io/png_io.ipp b/include/huira_impl/images/io/png_io.ipp
index bd5c189..6464178 100644
--- a/include/huira_impl/images/io/png_io.ipp
+++ b/include/huira_impl/images/io/png_io.ipp
@@ -306,6 +306,7 @@ inline ImageBundle<RGB> read_image_png(const unsigned char* data, std::size_t si
     ImageBundle<RGB> bundle{Image<RGB>(png_data.resolution)};
 
     read_color_space(png_data.color_info, bundle);
+    bundle.bit_depth = png_data.final_bit_depth == 16 ? 16 : 8;
 
     png_data.has_alpha = read_alpha && png_data.has_alpha;
     if (png_data.has_alpha) {
@@ -399,6 +400,7 @@ read_image_png_mono(const unsigned char* data, std::size_t size, bool read_alpha
     ImageBundle<float> bundle{Image<float>(png_data.resolution)};
 
     read_color_space(png_data.color_info, bundle);
+    bundle.bit_depth = png_data.final_bit_depth == 16 ? 16 : 8;
 
     png_data.has_alpha = read_alpha && png_data.has_alpha;
 
diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index 0526a57..8c10300 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -43,6 +43,7 @@ struct TIFFData {
 
     uint16_t photometric = PHOTOMETRIC_MINISBLACK;
     bool is_float = false;
+    int bit_depth = 8;
     bool has_alpha = false;
     int alpha_index = -1;
 };
@@ -473,6 +474,7 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
     tiff_data.num_channels = num_channels;
     tiff_data.photometric = photometric;
     tiff_data.is_float = is_float;
+    tiff_data.bit_depth = bits_per_sample > 8 ? 16 : 8;
     tiff_data.has_alpha = has_alpha;
     tiff_data.alpha_index = alpha_index;
 
@@ -513,6 +515,7 @@ read_image_tiff_rgb(const unsigned char* data, std::size_t size, bool read_alpha
     bool extract_alpha = tiff_data.has_alpha && read_alpha;
 
     ImageBundle<RGB> bundle{Image<RGB>(tiff_data.resolution)};
+    bundle.bit_depth = tiff_data.bit_depth;
     if (tiff_data.is_float) {
         bundle.color_space = ColorSpaceHint::Linear;
     }
@@ -597,6 +600,7 @@ read_image_tiff_mono(const unsigned char* data, std::size_t size, bool read_alph
     bool extract_alpha = tiff_data.has_alpha && read_alpha;
 
     ImageBundle<float> bundle{Image<float>(tiff_data.resolution)};
+    bundle.bit_depth = tiff_data.bit_depth;
     if (tiff_data.is_float) {
         bundle.color_space = ColorSpaceHint::Linear;
     }
-- 
2.43.0


From 61c1d26e2fb1cd894f8dd818b678486e01f6f622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:34 +0000
Subject: [PATCH 100/109] fix: transparency was not written to TIFF

---
 include/huira_impl/images/io/tiff_io.ipp | 59 +++++++++++++++++++++---
 1 file changed, 52 insertions(+), 7 deletions(-)

diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index 8c10300..a67373d 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -679,6 +679,14 @@ inline void write_image_tiff(const fs::path& filepath,
         HUIRA_THROW_ERROR("write_image_tiff - Cannot write empty image: " + filepath.string());
     }
 
+    bool has_alpha = bundle.alpha.width() != 0 && bundle.alpha.height() != 0;
+    if (has_alpha && (bundle.alpha.width() != bundle.image.width() ||
+                      bundle.alpha.height() != bundle.image.height())) {
+        HUIRA_LOG_WARNING("write_image_tiff - alpha and image differ in size. The alpha mask will "
+                          "be ignored.");
+        has_alpha = false;
+    }
+
     make_path(filepath);
 
     ScopedTIFF tif(TIFFOpen(filepath.string().c_str(), "w"));
@@ -692,7 +700,12 @@ inline void write_image_tiff(const fs::path& filepath,
 
     TIFFSetField(tif.get(), TIFFTAG_IMAGEWIDTH, width);
     TIFFSetField(tif.get(), TIFFTAG_IMAGELENGTH, height);
-    TIFFSetField(tif.get(), TIFFTAG_SAMPLESPERPIXEL, 3);
+    const std::size_t channels = has_alpha ? 4 : 3;
+    TIFFSetField(tif.get(), TIFFTAG_SAMPLESPERPIXEL, static_cast<int>(channels));
+    if (has_alpha) {
+        uint16_t extra_sample = EXTRASAMPLE_UNASSALPHA;
+        TIFFSetField(tif.get(), TIFFTAG_EXTRASAMPLES, 1, &extra_sample);
+    }
     TIFFSetField(tif.get(), TIFFTAG_BITSPERSAMPLE, static_cast<uint16_t>(bundle.bit_depth));
     TIFFSetField(tif.get(), TIFFTAG_ORIENTATION, ORIENTATION_TOPLEFT);
     TIFFSetField(tif.get(), TIFFTAG_PLANARCONFIG, PLANARCONFIG_CONTIG);
@@ -708,18 +721,22 @@ inline void write_image_tiff(const fs::path& filepath,
     }
 
     std::size_t bytes_per_sample = static_cast<std::size_t>(bundle.bit_depth) / 8;
-    std::size_t scanline_size = width * 3 * bytes_per_sample;
+    std::size_t scanline_size = width * channels * bytes_per_sample;
     std::vector<unsigned char> scanline(scanline_size);
 
     for (uint32_t y = 0; y < height; ++y) {
         for (uint32_t x = 0; x < width; ++x) {
             RGB pixel = bundle.image(static_cast<int>(x), static_cast<int>(y));
-            std::size_t offset = x * 3 * bytes_per_sample;
+            std::size_t offset = x * channels * bytes_per_sample;
 
             if (bundle.bit_depth == 8) {
                 scanline[offset + 0] = float_to_integer<uint8_t>(pixel[0]);
                 scanline[offset + 1] = float_to_integer<uint8_t>(pixel[1]);
                 scanline[offset + 2] = float_to_integer<uint8_t>(pixel[2]);
+                if (has_alpha) {
+                    scanline[offset + 3] = float_to_integer<uint8_t>(
+                        bundle.alpha(static_cast<int>(x), static_cast<int>(y)));
+                }
             } else {
                 uint16_t r = float_to_integer<uint16_t>(pixel[0]);
                 uint16_t g = float_to_integer<uint16_t>(pixel[1]);
@@ -727,6 +744,11 @@ inline void write_image_tiff(const fs::path& filepath,
                 std::memcpy(&scanline[offset + 0], &r, 2);
                 std::memcpy(&scanline[offset + 2], &g, 2);
                 std::memcpy(&scanline[offset + 4], &b, 2);
+                if (has_alpha) {
+                    uint16_t a = float_to_integer<uint16_t>(
+                        bundle.alpha(static_cast<int>(x), static_cast<int>(y)));
+                    std::memcpy(&scanline[offset + 6], &a, 2);
+                }
             }
         }
 
@@ -753,6 +775,14 @@ inline void write_image_tiff(const fs::path& filepath,
         HUIRA_THROW_ERROR("write_image_tiff - Cannot write empty image: " + filepath.string());
     }
 
+    bool has_alpha = bundle.alpha.width() != 0 && bundle.alpha.height() != 0;
+    if (has_alpha && (bundle.alpha.width() != bundle.image.width() ||
+                      bundle.alpha.height() != bundle.image.height())) {
+        HUIRA_LOG_WARNING("write_image_tiff - alpha and image differ in size. The alpha mask will "
+                          "be ignored.");
+        has_alpha = false;
+    }
+
     make_path(filepath);
 
     ScopedTIFF tif(TIFFOpen(filepath.string().c_str(), "w"));
@@ -766,7 +796,12 @@ inline void write_image_tiff(const fs::path& filepath,
 
     TIFFSetField(tif.get(), TIFFTAG_IMAGEWIDTH, width);
     TIFFSetField(tif.get(), TIFFTAG_IMAGELENGTH, height);
-    TIFFSetField(tif.get(), TIFFTAG_SAMPLESPERPIXEL, 1);
+    const std::size_t channels = has_alpha ? 2 : 1;
+    TIFFSetField(tif.get(), TIFFTAG_SAMPLESPERPIXEL, static_cast<int>(channels));
+    if (has_alpha) {
+        uint16_t extra_sample = EXTRASAMPLE_UNASSALPHA;
+        TIFFSetField(tif.get(), TIFFTAG_EXTRASAMPLES, 1, &extra_sample);
+    }
     TIFFSetField(tif.get(), TIFFTAG_BITSPERSAMPLE, static_cast<uint16_t>(bundle.bit_depth));
     TIFFSetField(tif.get(), TIFFTAG_ORIENTATION, ORIENTATION_TOPLEFT);
     TIFFSetField(tif.get(), TIFFTAG_PLANARCONFIG, PLANARCONFIG_CONTIG);
@@ -782,18 +817,28 @@ inline void write_image_tiff(const fs::path& filepath,
     }
 
     std::size_t bytes_per_sample = static_cast<std::size_t>(bundle.bit_depth) / 8;
-    std::size_t scanline_size = width * bytes_per_sample;
+    std::size_t scanline_size = width * channels * bytes_per_sample;
     std::vector<unsigned char> scanline(scanline_size);
 
     for (uint32_t y = 0; y < height; ++y) {
         for (uint32_t x = 0; x < width; ++x) {
             float pixel = bundle.image(static_cast<int>(x), static_cast<int>(y));
+            std::size_t offset = x * channels * bytes_per_sample;
 
             if (bundle.bit_depth == 8) {
-                scanline[x] = float_to_integer<uint8_t>(pixel);
+                scanline[offset] = float_to_integer<uint8_t>(pixel);
+                if (has_alpha) {
+                    scanline[offset + 1] = float_to_integer<uint8_t>(
+                        bundle.alpha(static_cast<int>(x), static_cast<int>(y)));
+                }
             } else {
                 uint16_t value = float_to_integer<uint16_t>(pixel);
-                std::memcpy(&scanline[x * 2], &value, 2);
+                std::memcpy(&scanline[offset], &value, 2);
+                if (has_alpha) {
+                    uint16_t a = float_to_integer<uint16_t>(
+                        bundle.alpha(static_cast<int>(x), static_cast<int>(y)));
+                    std::memcpy(&scanline[offset + 2], &a, 2);
+                }
             }
         }
 
-- 
2.43.0


From 59ce6e52fd7700008c02a58bfeb710a36de09791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:34 +0000
Subject: [PATCH 101/109] fix: TIFFs stored another way up or on their side
 were read as stored

---
 include/huira_impl/images/io/tiff_io.ipp | 33 ++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index a67373d..2990e15 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -218,6 +218,7 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
     uint16_t sample_format = SAMPLEFORMAT_UINT;
     uint16_t photometric = PHOTOMETRIC_MINISBLACK;
     uint16_t planar_config = PLANARCONFIG_CONTIG;
+    uint16_t orientation = ORIENTATION_TOPLEFT;
 
     TIFFGetField(tif.get(), TIFFTAG_IMAGEWIDTH, &width);
     TIFFGetField(tif.get(), TIFFTAG_IMAGELENGTH, &height);
@@ -226,6 +227,7 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
     TIFFGetFieldDefaulted(tif.get(), TIFFTAG_SAMPLEFORMAT, &sample_format);
     TIFFGetFieldDefaulted(tif.get(), TIFFTAG_PHOTOMETRIC, &photometric);
     TIFFGetFieldDefaulted(tif.get(), TIFFTAG_PLANARCONFIG, &planar_config);
+    TIFFGetFieldDefaulted(tif.get(), TIFFTAG_ORIENTATION, &orientation);
 
     if (width == 0 || height == 0) {
         HUIRA_THROW_ERROR("read_tiff_raw_ - Invalid dimensions (" + std::to_string(width) + " x " +
@@ -466,6 +468,37 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
         }
     }
 
+    // Turn the image so that its first row is the top and its first column the left
+    if (orientation > ORIENTATION_TOPLEFT && orientation <= ORIENTATION_LEFTBOT) {
+        bool transpose = orientation >= ORIENTATION_LEFTTOP;
+        bool flip_rows = orientation == ORIENTATION_BOTRIGHT ||
+                         orientation == ORIENTATION_BOTLEFT ||
+                         orientation == ORIENTATION_RIGHTBOT || orientation == ORIENTATION_RIGHTTOP;
+        bool flip_columns = orientation == ORIENTATION_TOPRIGHT ||
+                            orientation == ORIENTATION_BOTRIGHT ||
+                            orientation == ORIENTATION_RIGHTBOT ||
+                            orientation == ORIENTATION_LEFTBOT;
+
+        uint32_t out_width = transpose ? height : width;
+        std::vector<float> turned(num_pixels);
+        for (auto& channel : channels) {
+            for (uint32_t y = 0; y < height; ++y) {
+                for (uint32_t x = 0; x < width; ++x) {
+                    // With a transpose, stored rows are columns of the image
+                    uint32_t row = flip_rows ? height - 1 - y : y;
+                    uint32_t col = flip_columns ? width - 1 - x : x;
+                    std::size_t dst = transpose ? static_cast<std::size_t>(col) * out_width + row
+                                                : static_cast<std::size_t>(row) * out_width + col;
+                    turned[dst] = channel[static_cast<std::size_t>(y) * width + x];
+                }
+            }
+            std::swap(channel, turned);
+        }
+        if (transpose) {
+            std::swap(width, height);
+        }
+    }
+
     TIFFData tiff_data{};
     tiff_data.resolution = Resolution{static_cast<int>(width), static_cast<int>(height)};
     tiff_data.width = static_cast<int>(width);
-- 
2.43.0


From 85546570a4e005fc9a2f23aa90de188df08f397a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:53 +0000
Subject: [PATCH 102/109] fix: large JPEGs were decoded into a buffer too small
 for them

---
 include/huira_impl/images/io/jpeg_io.ipp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/io/jpeg_io.ipp b/include/huira_impl/images/io/jpeg_io.ipp
index 8edbae2..f6c3a28 100644
--- a/include/huira_impl/images/io/jpeg_io.ipp
+++ b/include/huira_impl/images/io/jpeg_io.ipp
@@ -66,7 +66,9 @@ inline JPEGData read_jpeg_raw_(const unsigned char* data, std::size_t size, bool
 
     int pixel_format = force_gray ? TJPF_GRAY : TJPF_RGB;
     int channels = force_gray ? 1 : 3;
-    std::vector<unsigned char> raw_data(static_cast<std::size_t>(width * height * channels));
+    std::vector<unsigned char> raw_data(static_cast<std::size_t>(width) *
+                                        static_cast<std::size_t>(height) *
+                                        static_cast<std::size_t>(channels));
 
     if (tjDecompress2(decompressor,
                       data,
@@ -167,7 +169,7 @@ inline ImageBundle<float> read_image_jpeg_mono(const unsigned char* data, std::s
 
     ImageBundle<float> bundle{Image<float>(jpeg_data.resolution)};
 
-    for (std::size_t i = 0; i < static_cast<std::size_t>(jpeg_data.width * jpeg_data.height); ++i) {
+    for (std::size_t i = 0; i < jpeg_data.raw_data.size(); ++i) {
         bundle.image[i] = integer_to_float<std::uint8_t>(jpeg_data.raw_data[i]);
     }
 
-- 
2.43.0


From a1efb284cb4115cdbb173a5b8c92b0e2678a8822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:10 +0000
Subject: [PATCH 103/109] fix: a camera given another sensor kept the old one's
 principal point

---
 include/huira_impl/cameras/camera_model.ipp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 1df8fc5..baef4f7 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -104,6 +104,12 @@ template <IsSensor<TSpectral> TSensor, typename... Args>
 void CameraModel<TSpectral>::set_sensor(Args&&... args)
 {
     sensor_ = std::make_unique<TSensor>(std::forward<Args>(args)...);
+
+    // The intrinsics were those of the sensor replaced
+    is_explicit_matrix_ = false;
+    cx_ = static_cast<float>(sensor_->resolution().x) * 0.5f;
+    cy_ = static_cast<float>(sensor_->resolution().y) * 0.5f;
+
     compute_intrinsics_();
 }
 
-- 
2.43.0


From b7f860a9809e2806ae436eb82b374596670fe76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:08 +0000
Subject: [PATCH 104/109] fix: nodes below a deleted frame counted as in the
 scene while held

---
 include/huira_impl/scene/frame_node.ipp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/huira_impl/scene/frame_node.ipp b/include/huira_impl/scene/frame_node.ipp
index 2aa4b7e..78a2f20 100644
--- a/include/huira_impl/scene/frame_node.ipp
+++ b/include/huira_impl/scene/frame_node.ipp
@@ -54,6 +54,13 @@ void FrameNode<TSpectral>::delete_child(std::weak_ptr<Node<TSpectral>> child_wea
 
     auto it = std::find(children_.begin(), children_.end(), child);
     if (it != children_.end()) {
+        // What is below the child goes with it, whoever still holds it
+        if (auto* frame = dynamic_cast<FrameNode<TSpectral>*>(child.get())) {
+            while (!frame->children_.empty()) {
+                frame->delete_child(frame->children_.back());
+            }
+        }
+
         HUIRA_LOG_INFO(this->get_info() + " - Deleting " + child->get_info());
         // Only named nodes are registered:
         if (this->scene_ != nullptr && this->scene_->node_registry_.contains(child)) {
-- 
2.43.0


From acf331bb06c30a5bd90d3a22de8e21bd5ff8a572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:05 +0000
Subject: [PATCH 105/109] fix: crashes hung the process once the crash handler
 was disabled

---
 include/huira_impl/util/logger.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/huira_impl/util/logger.ipp b/include/huira_impl/util/logger.ipp
index 7338960..4b03aa3 100644
--- a/include/huira_impl/util/logger.ipp
+++ b/include/huira_impl/util/logger.ipp
@@ -409,6 +409,9 @@ void Logger::handle_crash(int signal)
 {
     auto& logger = Logger::instance();
     if (!logger.crash_handler_enabled_.load(std::memory_order_relaxed)) {
+        // Returning would resume at the faulting instruction, and fault again
+        std::signal(signal, SIG_DFL);
+        std::raise(signal);
         return;
     }
     // Only print crash report once
-- 
2.43.0


From 7cd6496846a0f8f80fbf7c61811da7af50af34ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:44 +0000
Subject: [PATCH 106/109] fix: star catalogues that could not be written in
 full were reported as written

---
 include/huira_impl/stars/io/star_catalog.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/huira_impl/stars/io/star_catalog.ipp b/include/huira_impl/stars/io/star_catalog.ipp
index 0569a1f..51eb8f1 100644
--- a/include/huira_impl/stars/io/star_catalog.ipp
+++ b/include/huira_impl/stars/io/star_catalog.ipp
@@ -54,6 +54,11 @@ inline void StarCatalog::write_star_data(const fs::path& filepath)
     out.write(reinterpret_cast<const char*>(valid_stars.data()),
               static_cast<std::streamsize>(valid_stars.size() * sizeof(StarData)));
 
+    out.close();
+    if (!out) {
+        HUIRA_THROW_ERROR("StarCatalog - Failed to write: " + filepath.string());
+    }
+
     HUIRA_LOG_INFO("StarCatalog - " + std::to_string(valid_stars.size()) +
                    " stars written to: " + filepath.string());
 }
-- 
2.43.0


From f87fa41b0191d05b8b95115de85e473c8ce4b019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:44 +0000
Subject: [PATCH 107/109] fix: interrupted or unwritable catalogue downloads
 were later taken for complete files

---
 apps/huira_cli/commands/fetch_tycho2.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/apps/huira_cli/commands/fetch_tycho2.cpp b/apps/huira_cli/commands/fetch_tycho2.cpp
index e710e9e..9f7d6f7 100644
--- a/apps/huira_cli/commands/fetch_tycho2.cpp
+++ b/apps/huira_cli/commands/fetch_tycho2.cpp
@@ -73,9 +73,11 @@ static bool download_file(const std::string& url, const fs::path& dest, const Co
     }
 #endif
 
-    std::ofstream out(dest, std::ios::binary);
+    // Only a complete download gets the file's name
+    const fs::path part(dest.string() + ".part");
+    std::ofstream out(part, std::ios::binary);
     if (!out) {
-        std::cerr << "Failed to open output file: " << dest << "\n";
+        std::cerr << "Failed to open output file: " << part << "\n";
         curl_easy_cleanup(curl);
         return false;
     }
@@ -93,10 +95,16 @@ static bool download_file(const std::string& url, const fs::path& dest, const Co
 
     if (res != CURLE_OK) {
         std::cerr << "Download failed: " << curl_easy_strerror(res) << "\n";
-        fs::remove(dest);
+        fs::remove(part);
+        return false;
+    }
+    if (!out) {
+        std::cerr << "Failed to write output file: " << part << "\n";
+        fs::remove(part);
         return false;
     }
 
+    fs::rename(part, dest);
     return true;
 }
 
-- 
2.43.0


From 7e964b5a82746028dd1a4976ad3901946c501f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:44 +0000
Subject: [PATCH 108/109] fix: catalogues could not be downloaded to a new
 directory with a dot in its name

---
 apps/huira_cli/commands/fetch_tycho2.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apps/huira_cli/commands/fetch_tycho2.cpp b/apps/huira_cli/commands/fetch_tycho2.cpp
index 9f7d6f7..547ffd4 100644
--- a/apps/huira_cli/commands/fetch_tycho2.cpp
+++ b/apps/huira_cli/commands/fetch_tycho2.cpp
@@ -111,7 +111,10 @@ static bool download_file(const std::string& url, const fs::path& dest, const Co
 int fetch_tycho2(
     const fs::path& output_dir, const Context& ctx, bool force, bool process, bool clean)
 {
-    huira::make_path(output_dir);
+    // Also for a directory whose name has a dot in it, which make_path takes for a file
+    if (!output_dir.empty()) {
+        fs::create_directories(output_dir);
+    }
 
     constexpr std::string_view base_url = "https://cdsarc.cds.unistra.fr/viz-bin/nph-Cat/txt?I/259";
 
-- 
2.43.0


From 345e48678defd7ffe57ad6aa55d6ae09de033c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:44 +0000
Subject: [PATCH 109/109] fix: certificates named by the user were overridden
 by the system's

---
 apps/huira_cli/commands/fetch_tycho2.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/huira_cli/commands/fetch_tycho2.cpp b/apps/huira_cli/commands/fetch_tycho2.cpp
index 547ffd4..d91fc00 100644
--- a/apps/huira_cli/commands/fetch_tycho2.cpp
+++ b/apps/huira_cli/commands/fetch_tycho2.cpp
@@ -49,10 +49,12 @@ static bool download_file(const std::string& url, const fs::path& dest, const Co
     curl_easy_setopt(curl, CURLOPT_SSL_OPTIONS, CURLSSLOPT_NATIVE_CA);
 #else
     // Search for CA bundle — handles manylinux, conda, and most Linux distros
+    bool ca_found = false;
     for (const char* var : {"SSL_CERT_FILE", "CURL_CA_BUNDLE"}) {
         if (const char* val = std::getenv(var)) {
             if (fs::exists(val)) {
                 curl_easy_setopt(curl, CURLOPT_CAINFO, val);
+                ca_found = true;
                 break;
             }
         }
@@ -66,7 +68,7 @@ static bool download_file(const std::string& url, const fs::path& dest, const Co
         "/usr/local/share/certs/ca-root-nss.crt", // FreeBSD
     };
     for (const char* path : known_ca_paths) {
-        if (fs::exists(path)) {
+        if (!ca_found && fs::exists(path)) {
             curl_easy_setopt(curl, CURLOPT_CAINFO, path);
             break;
         }
-- 
2.43.0

