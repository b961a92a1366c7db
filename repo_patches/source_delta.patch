From 858b9a393a2e3281322a3c0f0db2bd887a1f2d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:21 +0000
Subject: [PATCH 01/37] fix: EngineParameter::setValue updates the engine value
 before notifying the observers

---
 ModelFitting/src/lib/Parameters/EngineParameter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ModelFitting/src/lib/Parameters/EngineParameter.cpp b/ModelFitting/src/lib/Parameters/EngineParameter.cpp
index d3d8bed..3fc1928 100644
--- a/ModelFitting/src/lib/Parameters/EngineParameter.cpp
+++ b/ModelFitting/src/lib/Parameters/EngineParameter.cpp
@@ -37,8 +37,8 @@ double EngineParameter::getEngineToWorldDerivative() const {
 }
 
 void EngineParameter::setValue(const double value) {
-  BasicParameter::setValue(value);
   m_engine_value = m_converter->worldToEngine(value);
+  BasicParameter::setValue(value);
 }
 
 
-- 
2.43.0


From 55f0ab0d9fb06352fddd81ab5610907e684a7662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:21 +0000
Subject: [PATCH 02/37] fix: DependentParameter removes its observers from its
 inputs when destroyed

---
 .../ModelFitting/Parameters/DependentParameter.h    | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ModelFitting/ModelFitting/Parameters/DependentParameter.h b/ModelFitting/ModelFitting/Parameters/DependentParameter.h
index c759a11..6efdac5 100644
--- a/ModelFitting/ModelFitting/Parameters/DependentParameter.h
+++ b/ModelFitting/ModelFitting/Parameters/DependentParameter.h
@@ -65,7 +65,11 @@ public:
     //m_get_value_hook = std::bind(&DependentParameter::getValueHook, this);
   }
 
-  virtual ~DependentParameter() = default;
+  virtual ~DependentParameter() {
+    for (std::size_t i = 0; i < m_params->size(); ++i) {
+      (*m_params)[i]->removeObserver(m_observer_ids[i]);
+    }
+  }
 
   double getValue() const override {
     if (!this->isObserved()) {
@@ -82,6 +86,9 @@ private:
   // Array of the input parameter
   std::shared_ptr<std::array<std::shared_ptr<BasicParameter>, PARAM_NO>> m_params;
 
+  // Ids of the observers registered on the input parameters
+  std::array<std::size_t, PARAM_NO> m_observer_ids {};
+
   /* The two following methods represent the mechanism to loop over
    * the arbitrary number of variadic elements, the first one is called
    * as long as there is more than one elements in the list and the
@@ -117,8 +124,8 @@ private:
   }
 
   template<typename Param>
-  void addParameterObserver(int, Param& param) {
-    param->addObserver([this](double){
+  void addParameterObserver(int index, Param& param) {
+    m_observer_ids[index] = param->addObserver([this](double){
       // Do not bother updating live if there are no observers
       if (this->isObserved()) {
           this->update((*m_params)[0]->getValue());
-- 
2.43.0


From 021bacb9d25b2b8a4a3487364e264e05ef5748c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:21 +0000
Subject: [PATCH 03/37] fix: DependentParameter does not return an outdated
 value once it gets an observer

---
 ModelFitting/ModelFitting/Parameters/DependentParameter.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ModelFitting/ModelFitting/Parameters/DependentParameter.h b/ModelFitting/ModelFitting/Parameters/DependentParameter.h
index 6efdac5..8a4589f 100644
--- a/ModelFitting/ModelFitting/Parameters/DependentParameter.h
+++ b/ModelFitting/ModelFitting/Parameters/DependentParameter.h
@@ -72,7 +72,7 @@ public:
   }
 
   double getValue() const override {
-    if (!this->isObserved()) {
+    if (m_outdated || !this->isObserved()) {
       const_cast<DependentParameter*>(this)->update((*m_params)[0]->getValue());
     }
     return m_value;
@@ -86,6 +86,9 @@ private:
   // Array of the input parameter
   std::shared_ptr<std::array<std::shared_ptr<BasicParameter>, PARAM_NO>> m_params;
 
+  // True if an input has changed since the value was computed
+  bool m_outdated = false;
+
   // Ids of the observers registered on the input parameters
   std::array<std::size_t, PARAM_NO> m_observer_ids {};
 
@@ -120,6 +123,7 @@ private:
     /* Beware that it is the updated value (m_calculator(values...)) that
      * is passed to the setValue
      */
+    m_outdated = false;
     BasicParameter::setValue((*m_calculator)(values...));
   }
 
@@ -129,6 +133,8 @@ private:
       // Do not bother updating live if there are no observers
       if (this->isObserved()) {
           this->update((*m_params)[0]->getValue());
+      } else {
+          m_outdated = true;
       }
     });
   }
-- 
2.43.0


From bff38abdfd98a1aebd73f4269d7fb1b3ba80accc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:21 +0000
Subject: [PATCH 04/37] fix: TransformModelComponent's move constructor takes
 over the decorated component

---
 ModelFitting/src/lib/Models/TransformModelComponent.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ModelFitting/src/lib/Models/TransformModelComponent.cpp b/ModelFitting/src/lib/Models/TransformModelComponent.cpp
index fa87b81..3eecc14 100644
--- a/ModelFitting/src/lib/Models/TransformModelComponent.cpp
+++ b/ModelFitting/src/lib/Models/TransformModelComponent.cpp
@@ -46,7 +46,8 @@ TransformModelComponent::TransformModelComponent(
   assert(m_transform[2] * m_inv_transform[1] + m_transform[3] * m_inv_transform[3] >= 1 - 1e-8);
 }
 
-TransformModelComponent::TransformModelComponent(TransformModelComponent&& other) {
+TransformModelComponent::TransformModelComponent(TransformModelComponent&& other)
+    : m_component(std::move(other.m_component)) {
   for (int i = 0; i < 4; i++) {
     m_transform[i] = other.m_transform[i];
     m_inv_transform[i] = other.m_inv_transform[i];
-- 
2.43.0


From 6552e15da94c31376d98e167d2dddbcc38e67ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:21 +0000
Subject: [PATCH 05/37] fix: RotatedModelComponent's move constructor registers
 its own observer

---
 ModelFitting/src/lib/Models/RotatedModelComponent.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ModelFitting/src/lib/Models/RotatedModelComponent.cpp b/ModelFitting/src/lib/Models/RotatedModelComponent.cpp
index 5714cf9..3497936 100644
--- a/ModelFitting/src/lib/Models/RotatedModelComponent.cpp
+++ b/ModelFitting/src/lib/Models/RotatedModelComponent.cpp
@@ -40,9 +40,13 @@ RotatedModelComponent::RotatedModelComponent(std::unique_ptr<ModelComponent> com
 
 RotatedModelComponent::RotatedModelComponent(RotatedModelComponent&& other)
         : m_component {std::move(other.m_component)},
-          m_rotation_angle{std::move(other.m_rotation_angle)},
-          m_cos{other.m_cos}, m_sin{other.m_sin},
-          m_observer_id (other.m_observer_id) {
+          m_rotation_angle{other.m_rotation_angle},
+          m_cos{other.m_cos}, m_sin{other.m_sin} {
+  // The observer of other refers to other: it is removed by its destructor
+  m_observer_id = m_rotation_angle->addObserver([this](double v){
+    m_cos = std::cos(v);
+    m_sin = std::sin(v);
+  });
 }
 
 RotatedModelComponent::~RotatedModelComponent() {
-- 
2.43.0


From 1369ebb604a0caa3cd936c0c77fab7d5329ef7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 06/37] fix: aperture bounding boxes round their lower corner
 down, so that boxes taken around the origin (transformed apertures) cover the
 shape

---
 SEFramework/src/lib/Aperture/CircularAperture.cpp   | 2 +-
 SEFramework/src/lib/Aperture/EllipticalAperture.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/SEFramework/src/lib/Aperture/CircularAperture.cpp b/SEFramework/src/lib/Aperture/CircularAperture.cpp
index ab5878b..610176b 100644
--- a/SEFramework/src/lib/Aperture/CircularAperture.cpp
+++ b/SEFramework/src/lib/Aperture/CircularAperture.cpp
@@ -77,7 +77,7 @@ SeFloat CircularAperture::getRadiusSquared(SeFloat center_x, SeFloat center_y, S
 }
 
 PixelCoordinate CircularAperture::getMinPixel(SeFloat centroid_x, SeFloat centroid_y) const {
-  return PixelCoordinate(centroid_x - m_radius, centroid_y - m_radius);
+  return PixelCoordinate(std::floor(centroid_x - m_radius), std::floor(centroid_y - m_radius));
 }
 
 PixelCoordinate CircularAperture::getMaxPixel(SeFloat centroid_x, SeFloat centroid_y) const {
diff --git a/SEFramework/src/lib/Aperture/EllipticalAperture.cpp b/SEFramework/src/lib/Aperture/EllipticalAperture.cpp
index 22928bb..dbe43ef 100644
--- a/SEFramework/src/lib/Aperture/EllipticalAperture.cpp
+++ b/SEFramework/src/lib/Aperture/EllipticalAperture.cpp
@@ -78,7 +78,7 @@ PixelCoordinate EllipticalAperture::getMinPixel(SeFloat centroid_x, SeFloat cent
   dy = m_rad_max * std::sqrt(1.0 / (m_cyy - m_cxy * m_cxy / (4.0 * m_cxx)));
 
   // return the absolute values
-  return PixelCoordinate(centroid_x - dx, centroid_y - dy);
+  return PixelCoordinate(std::floor(centroid_x - dx), std::floor(centroid_y - dy));
 }
 
 PixelCoordinate EllipticalAperture::getMaxPixel(SeFloat centroid_x, SeFloat centroid_y) const {
-- 
2.43.0


From 350a617b41815ac7fb65b9efeace0f12b45e6310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:40 +0000
Subject: [PATCH 07/37] fix: mirror pixel of a masked aperture pixel is rounded
 down, a position left of the image no longer reads column 0

---
 SEFramework/src/lib/Aperture/FluxMeasurement.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SEFramework/src/lib/Aperture/FluxMeasurement.cpp b/SEFramework/src/lib/Aperture/FluxMeasurement.cpp
index e64fef6..e6ff26d 100644
--- a/SEFramework/src/lib/Aperture/FluxMeasurement.cpp
+++ b/SEFramework/src/lib/Aperture/FluxMeasurement.cpp
@@ -36,8 +36,8 @@ getMirrorPixel(SeFloat centroid_x, SeFloat centroid_y,
                SeFloat variance_threshold) {
   centroid_x -= min_pixel.m_x;
   centroid_y -= min_pixel.m_y;
-  auto mirror_x = 2 * centroid_x - pixel_x + 0.49999;
-  auto mirror_y = 2 * centroid_y - pixel_y + 0.49999;
+  int mirror_x = std::floor(2 * centroid_x - pixel_x + 0.49999);
+  int mirror_y = std::floor(2 * centroid_y - pixel_y + 0.49999);
   if (img.isInside(mirror_x, mirror_y)) {
     auto variance_tmp = variance_map.getValue(mirror_x, mirror_y);
     if (variance_tmp < variance_threshold) {
-- 
2.43.0


From fe41b3874ce908ed18c23587fe92e00ff9798455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:40 +0000
Subject: [PATCH 08/37] fix: SATURATED flag has a printable name

---
 SEFramework/SEFramework/Source/SourceFlags.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SEFramework/SEFramework/Source/SourceFlags.h b/SEFramework/SEFramework/Source/SourceFlags.h
index 31870cc..c0467e3 100644
--- a/SEFramework/SEFramework/Source/SourceFlags.h
+++ b/SEFramework/SEFramework/Source/SourceFlags.h
@@ -56,6 +56,7 @@ const std::map<Flags, std::string> FlagsStr = {
   {Flags::NONE, "NONE"},
   {Flags::BIASED, "BIASED"},
   {Flags::BLENDED, "BLENDED"},
+  {Flags::SATURATED, "SATURATED"},
   {Flags::BOUNDARY, "BOUNDARY"},
   {Flags::NEIGHBORS, "NEIGHBORS"},
   {Flags::OUTSIDE, "OUTSIDE"},
-- 
2.43.0


From 13cea4d01f88e56b4fe4104a573c64b08cf42556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:25 +0000
Subject: [PATCH 09/37] fix: mirror padding without repeated edge of a one
 pixel wide image divided by zero

---
 SEFramework/SEFramework/Image/PaddedImage.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SEFramework/SEFramework/Image/PaddedImage.h b/SEFramework/SEFramework/Image/PaddedImage.h
index 85bd572..595c687 100644
--- a/SEFramework/SEFramework/Image/PaddedImage.h
+++ b/SEFramework/SEFramework/Image/PaddedImage.h
@@ -58,6 +58,9 @@ inline int Reflect101Coordinates(int N, int v) {
   }
 
   int max = N - 1;
+  if (max == 0) {
+    return 0;
+  }
   v = std::abs(v);
   int offset = v % max;
   int ntimes = v / max;
-- 
2.43.0


From 91c6f4137f8be238aa3da44d15a38c4b107a30c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 10/37] fix: AutoSharp: never request a ring without samples

When the first radius is larger than half a pixel, the ring that starts at
the centre has a circumference of zero at its inner radius, so it got zero
samples and the flux of the central disc was lost.
---
 ModelFitting/src/lib/Models/AutoSharp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ModelFitting/src/lib/Models/AutoSharp.cpp b/ModelFitting/src/lib/Models/AutoSharp.cpp
index 412c079..dd23f83 100644
--- a/ModelFitting/src/lib/Models/AutoSharp.cpp
+++ b/ModelFitting/src/lib/Models/AutoSharp.cpp
@@ -58,7 +58,7 @@ std::pair<double, int> AutoSharp::nextRadiusAndAngleNo(double prev_r) {
                   ? std::min(prev_r * m_log_incr, prev_r + m_max_step)
                   : m_first_r;
   int angle_no = next_r > m_first_pix_r
-                 ? std::ceil(2. * M_PI * prev_r / m_max_step)
+                 ? std::max(1, static_cast<int>(std::ceil(2. * M_PI * prev_r / m_max_step)))
                  : 1;
   return std::make_pair(next_r, angle_no);
 }
-- 
2.43.0


From 5d12624dbf3a3a530017ef83fdd67cdbb2251560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 11/37] fix: ExtendedModel: do not add samples left of or above
 the raster to its first column or row

Converting the coordinate to an integer truncates towards zero, so samples
up to one pixel outside the raster were counted as inside.
---
 ModelFitting/ModelFitting/Models/_impl/ExtendedModel.icpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ModelFitting/ModelFitting/Models/_impl/ExtendedModel.icpp b/ModelFitting/ModelFitting/Models/_impl/ExtendedModel.icpp
index 2543beb..7494832 100644
--- a/ModelFitting/ModelFitting/Models/_impl/ExtendedModel.icpp
+++ b/ModelFitting/ModelFitting/Models/_impl/ExtendedModel.icpp
@@ -41,8 +41,8 @@ namespace _impl {
     ssize_t size_x = Traits::width(image);
     ssize_t size_y = Traits::height(image);
     for (auto& sample : component.getSharpSampling()) {
-      ssize_t image_x = std::get<0>(sample) / pixel_scale + size_x / 2.;
-      ssize_t image_y = std::get<1>(sample) / pixel_scale + size_y / 2.;
+      ssize_t image_x = std::floor(std::get<0>(sample) / pixel_scale + size_x / 2.);
+      ssize_t image_y = std::floor(std::get<1>(sample) / pixel_scale + size_y / 2.);
       if (image_x >= 0 && image_x < size_x && image_y >= 0 && image_y < size_y) {
         Traits::at(image, image_x, image_y) += std::get<2>(sample);
       }
-- 
2.43.0


From 1cb7259493a3559f4f43d99fbc223e133318e595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:53 +0000
Subject: [PATCH 12/37] fix: background scaling read outside an empty list when
 no cell has a positive variance ratio

---
 .../src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp      | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SEImplementation/src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp b/SEImplementation/src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp
index 3c5edac..cc66217 100644
--- a/SEImplementation/src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp
+++ b/SEImplementation/src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp
@@ -59,6 +59,11 @@ static float computeScaling(const std::shared_ptr<VectorImage<DetectionImage::Pi
     }
   }
 
+  // No cell constrains the scaling, for instance if the image has no noise
+  if (ratios.empty()) {
+    return 1.f;
+  }
+
   std::sort(ratios.begin(), ratios.end());
   if (ratios.size() % 2 == 1) {
     return ratios[ratios.size() / 2];
-- 
2.43.0


From 887a7bf8eff8ecc7ae6df2c7e1a851368535e088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:34 +0000
Subject: [PATCH 13/37] fix: the median filter box never reaches outside images
 smaller than half the box

---
 .../SEImplementation/Background/SE/MedianFilter.h          | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/SEImplementation/SEImplementation/Background/SE/MedianFilter.h b/SEImplementation/SEImplementation/Background/SE/MedianFilter.h
index 28b463d..dfd1f7a 100644
--- a/SEImplementation/SEImplementation/Background/SE/MedianFilter.h
+++ b/SEImplementation/SEImplementation/Background/SE/MedianFilter.h
@@ -125,12 +125,7 @@ private:
    *    As many pixels as could be read safely from the image, up to box_size
    */
   static int clip(int position, int box_size, int image_size) {
-    box_size /= 2;
-    if (box_size > position)
-      return position;
-    if (box_size > image_size - position - 1)
-      return image_size - position - 1;
-    return box_size;
+    return std::min(box_size / 2, std::min(position, image_size - position - 1));
   }
 
   /**
-- 
2.43.0


From d68c0cf4998d9c38b964380e3b328fb63d32169e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:06 +0000
Subject: [PATCH 14/37] fix: quad tree range queries compare the range with the
 closest point of a subtree, not its closest corner

---
 SEUtils/SEUtils/_impl/QuadTree.icpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/SEUtils/SEUtils/_impl/QuadTree.icpp b/SEUtils/SEUtils/_impl/QuadTree.icpp
index dccdba2..4c468b5 100644
--- a/SEUtils/SEUtils/_impl/QuadTree.icpp
+++ b/SEUtils/SEUtils/_impl/QuadTree.icpp
@@ -84,12 +84,10 @@ std::vector<T> QuadTree<T>::getPointsWithinRange(Coord c, double range) const {
     std::vector<T> points;
     for (int i=0; i<4; i++) {
       if (m_sub_trees[i] != nullptr) {
-        // compare range with distance to closest corner of subtree
-        auto dx_sq = std::min((c.x - m_sub_trees[i]->m_min.x) * (c.x - m_sub_trees[i]->m_min.x),
-            (c.x - m_sub_trees[i]->m_max.x) * (c.x - m_sub_trees[i]->m_max.x));
-        auto dy_sq = std::min((c.y - m_sub_trees[i]->m_min.y) * (c.y - m_sub_trees[i]->m_min.y),
-            (c.y - m_sub_trees[i]->m_max.y) * (c.y - m_sub_trees[i]->m_max.y));
-        if (dx_sq + dy_sq <= range_sq) {
+        // compare range with distance to closest point of subtree
+        auto dx = std::max(0.0, std::max(m_sub_trees[i]->m_min.x - c.x, c.x - m_sub_trees[i]->m_max.x));
+        auto dy = std::max(0.0, std::max(m_sub_trees[i]->m_min.y - c.y, c.y - m_sub_trees[i]->m_max.y));
+        if (dx * dx + dy * dy <= range_sq) {
           auto subtree_points = m_sub_trees[i]->getPointsWithinRange(c, range);
           points.insert(points.end(), subtree_points.begin(), subtree_points.end());
         }
-- 
2.43.0


From a0fa2f934ec0418cd75fdd20b1eb3b1b9f3fc6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:06 +0000
Subject: [PATCH 15/37] fix: the quad tree does not split a node of coincident
 points forever

---
 SEUtils/SEUtils/_impl/QuadTree.icpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SEUtils/SEUtils/_impl/QuadTree.icpp b/SEUtils/SEUtils/_impl/QuadTree.icpp
index 4c468b5..eb07c4a 100644
--- a/SEUtils/SEUtils/_impl/QuadTree.icpp
+++ b/SEUtils/SEUtils/_impl/QuadTree.icpp
@@ -54,7 +54,8 @@ void QuadTree<T>::add(const T& data) {
     m_sub_trees[quad]->add(data);
   } else {
     addLocally(data);
-    if (m_data.size() >= m_capacity) {
+    // splitting cannot separate coincident points
+    if (m_data.size() >= m_capacity && (m_min.x < m_max.x || m_min.y < m_max.y)) {
       split();
     }
   }
-- 
2.43.0


From 71828bf8f8371caedc1c864159c65d30959f6510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 16/37] fix: compare the layers of the weight cube, not of the
 image cube itself, with the size of the cube

---
 .../python/sourcextractor/config/measurement_config.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEImplementation/python/sourcextractor/config/measurement_config.py b/SEImplementation/python/sourcextractor/config/measurement_config.py
index c275634..0d2549d 100644
--- a/SEImplementation/python/sourcextractor/config/measurement_config.py
+++ b/SEImplementation/python/sourcextractor/config/measurement_config.py
@@ -246,7 +246,7 @@ class MeasurementConfig:
             weight_dims = weight_fits_file.get_dimensions(weight_hdu)
             if len(weight_dims) == 3:
                 # handle weight as data cube
-                if dims[2] != cube_size:
+                if weight_dims[2] != cube_size:
                     raise ValueError("The weight map cube doesn't match the image cube")
 
                 weight_file_list = [weight_fits_file] * cube_size
-- 
2.43.0


From 186b10094a87f72a48889e53f06eb88b5a841d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 17/37] fix: raise an error instead of dropping images when a
 file has fewer weight maps than there are images

---
 .../python/sourcextractor/config/measurement_config.py        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SEImplementation/python/sourcextractor/config/measurement_config.py b/SEImplementation/python/sourcextractor/config/measurement_config.py
index 0d2549d..1553b98 100644
--- a/SEImplementation/python/sourcextractor/config/measurement_config.py
+++ b/SEImplementation/python/sourcextractor/config/measurement_config.py
@@ -119,6 +119,8 @@ class MeasurementConfig:
                 weight_hdu_list = [kwargs.pop("weight_hdu")] * len(image_hdu_list)
             else:    
                 weight_hdu_list = weight_file.hdu_list
+                if len(weight_hdu_list) < len(image_hdu_list):
+                    raise ValueError("There are fewer weight maps than images!")
             weight_file_list = [weight_file] * len(image_hdu_list)
 
         image_list = []
@@ -256,6 +258,8 @@ class MeasurementConfig:
                 # weight is a FITS without a datacube, assume MEF
                 weight_file_list = [weight_fits_file] * cube_size
                 weight_hdu_list = weight_fits_file.hdu_list
+                if len(weight_hdu_list) < cube_size:
+                    raise ValueError("There are fewer weight maps than images!")
                 weight_layer_list = [0] * cube_size
 
         image_list = []
-- 
2.43.0


From a897bfa068019b2ee10a6e698053ce5d81cd424c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 18/37] fix: register every parameter of an output column, and
 reserve its name only when it is added

---
 .../python/sourcextractor/config/measurement_config.py     | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/SEImplementation/python/sourcextractor/config/measurement_config.py b/SEImplementation/python/sourcextractor/config/measurement_config.py
index 1553b98..9b17f21 100644
--- a/SEImplementation/python/sourcextractor/config/measurement_config.py
+++ b/SEImplementation/python/sourcextractor/config/measurement_config.py
@@ -408,8 +408,6 @@ class MeasurementConfig:
         """
         if name in self._used_names:
             raise ValueError('Column {} is already set'.format(name))
-        self._used_names.add(name)
-
         if not isinstance(params, list):
             params = [params]
         param_type = type(params[0])
@@ -420,10 +418,13 @@ class MeasurementConfig:
                 self._column_map[base].append((name, params))
                 known_subclass = True
         if issubclass(param_type, ParameterBase):
-            self.model_fitting._register_parameter(params[0])
+            for param in params:
+                self.model_fitting._register_parameter(param)
 
         if not known_subclass:
             raise TypeError('{} is not a known column type'.format(str(param_type)))
 
+        self._used_names.add(name)
+
 
 global_measurement_config = MeasurementConfig()
-- 
2.43.0


From d8928a8df4c581bbf73f5aa6dc90125c19830092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 19/37] fix: ConstantModel.get_params was nested in to_string,
 so the value of the model was never registered

---
 .../python/sourcextractor/config/model_fitting.py           | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SEImplementation/python/sourcextractor/config/model_fitting.py b/SEImplementation/python/sourcextractor/config/model_fitting.py
index 8b8a304..01db25a 100644
--- a/SEImplementation/python/sourcextractor/config/model_fitting.py
+++ b/SEImplementation/python/sourcextractor/config/model_fitting.py
@@ -530,9 +530,9 @@ class ConstantModel(ModelBase):
             return 'ConstantModel[value={}]'.format(self.value)
         else:
             return 'ConstantModel[value={}]'.format(self.value.id)
-        
-        def get_params(self):
-            return [self.value]
+
+    def get_params(self):
+        return [self.value]
 
 
 class SersicModelBase(CoordinateModelBase):
-- 
2.43.0


From 1bf3ab9b6bebbfb39a31d904146561fd9298a0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 20/37] fix: ComputeGraphModel has a scale and no effective
 radius, describing it raised AttributeError

---
 .../python/sourcextractor/config/model_fitting.py         | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/SEImplementation/python/sourcextractor/config/model_fitting.py b/SEImplementation/python/sourcextractor/config/model_fitting.py
index 01db25a..c066699 100644
--- a/SEImplementation/python/sourcextractor/config/model_fitting.py
+++ b/SEImplementation/python/sourcextractor/config/model_fitting.py
@@ -790,12 +790,12 @@ class ComputeGraphModel(CoordinateModelBase):
         str
         """
         if show_params:
-            return 'ComputeGraph[x_coord={}, y_coord={}, flux={}, effective_radius={}, aspect_ratio={}, angle={}]'.format(
-                self.x_coord, self.y_coord, self.flux, self.effective_radius, self.aspect_ratio,
+            return 'ComputeGraph[x_coord={}, y_coord={}, flux={}, scale={}, aspect_ratio={}, angle={}]'.format(
+                self.x_coord, self.y_coord, self.flux, self.scale, self.aspect_ratio,
                 self.angle)
         else:
-            return 'ComputeGraph[x_coord={}, y_coord={}, flux={}, effective_radius={}, aspect_ratio={}, angle={}]'.format(
-                self.x_coord.id, self.y_coord.id, self.flux.id, self.effective_radius.id,
+            return 'ComputeGraph[x_coord={}, y_coord={}, flux={}, scale={}, aspect_ratio={}, angle={}]'.format(
+                self.x_coord.id, self.y_coord.id, self.flux.id, self.scale.id,
                 self.aspect_ratio.id, self.angle.id)
 
     def get_params(self):
-- 
2.43.0


From 86a7f614244c016a60a9e346bda5301bde41ecca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 21/37] fix: ComputeGraphModel modified the dictionary of
 parameters of its caller

---
 SEImplementation/python/sourcextractor/config/model_fitting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SEImplementation/python/sourcextractor/config/model_fitting.py b/SEImplementation/python/sourcextractor/config/model_fitting.py
index c066699..1522946 100644
--- a/SEImplementation/python/sourcextractor/config/model_fitting.py
+++ b/SEImplementation/python/sourcextractor/config/model_fitting.py
@@ -755,6 +755,7 @@ class ComputeGraphModel(CoordinateModelBase):
         angle_name = "_angle"
         scale_name = "_scale"
 
+        params = dict(params)
         for k in params.keys():
             if not isinstance(params[k], ParameterBase):
                 params[k] = ConstantParameter(params[k])
-- 
2.43.0


From 4310c66bdd37bc7a81075e797a283816f7d81d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 22/37] fix: the two axes of the ellipse in
 get_world_parameters were not perpendicular

---
 .../python/sourcextractor/config/model_fitting.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/python/sourcextractor/config/model_fitting.py b/SEImplementation/python/sourcextractor/config/model_fitting.py
index 1522946..539cd57 100644
--- a/SEImplementation/python/sourcextractor/config/model_fitting.py
+++ b/SEImplementation/python/sourcextractor/config/model_fitting.py
@@ -997,14 +997,14 @@ def get_world_parameters(x, y, radius, angle, ratio):
             x2 = x + math.cos(angle) * radius
             y2 = y + math.sin(angle) * radius
         else:
-            x2 = x + math.sin(angle) * radius * ratio
+            x2 = x - math.sin(angle) * radius * ratio
             y2 = y + math.cos(angle) * radius * ratio
 
         return x2, y2
 
     def get_minor_axis(x, y, radius, angle, ratio):
         if ratio <= 1:
-            x2 = x + math.sin(angle) * radius * ratio
+            x2 = x - math.sin(angle) * radius * ratio
             y2 = y + math.cos(angle) * radius * ratio
         else:
             x2 = x + math.cos(angle) * radius
-- 
2.43.0


From c00ae1cdaa224d05d25185ca578f8d9ee3e31971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 23/37] fix: printing a MeasurementGroup failed when the name
 of a subgroup is not a string

---
 .../python/sourcextractor/config/measurement_images.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEImplementation/python/sourcextractor/config/measurement_images.py b/SEImplementation/python/sourcextractor/config/measurement_images.py
index a5fbbac..29ebb28 100644
--- a/SEImplementation/python/sourcextractor/config/measurement_images.py
+++ b/SEImplementation/python/sourcextractor/config/measurement_images.py
@@ -662,7 +662,7 @@ class MeasurementGroup(object):
                     print('{}  {}'.format(prefix, im), file=file)
         if self.__subgroups:
             print('{}Measurement sub-groups: {}'.format(prefix, ','.join(
-                x for x, _ in self.__subgroups)), file=file)
+                str(x) for x, _ in self.__subgroups)), file=file)
             for name, group in self.__subgroups:
                 print('{}  {}:'.format(prefix, name), file=file)
                 group.print(prefix + '    ', show_images, file=file)
-- 
2.43.0


From c9e892774e83e77eb446cefb85162bc9225ce632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 24/37] fix: accept the lists of targets of
 add_aperture_photometry when registering measurement images

---
 .../python/sourcextractor/config/measurement_config.py         | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SEImplementation/python/sourcextractor/config/measurement_config.py b/SEImplementation/python/sourcextractor/config/measurement_config.py
index 9b17f21..231679e 100644
--- a/SEImplementation/python/sourcextractor/config/measurement_config.py
+++ b/SEImplementation/python/sourcextractor/config/measurement_config.py
@@ -63,6 +63,9 @@ class MeasurementConfig:
         if isinstance(image, MeasurementImage):
             if image.id not in self._measurement_images:
                 self._measurement_images[image.id] = image
+        elif isinstance(image, list):
+            for member in image:
+                self.add_measurement_image(member)
         elif image.is_leaf():
             for member in image:
                 self.add_measurement_image(member)
-- 
2.43.0


From 12a062357d0385c18ab3200a452be57c85723978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:58 +0000
Subject: [PATCH 25/37] fix: the angle of the error ellipse was not that of its
 major axis (sign of the difference of the variances lost, not halved)

---
 .../src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SEImplementation/src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp b/SEImplementation/src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp
index 59c52a8..dd8f3a1 100644
--- a/SEImplementation/src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp
+++ b/SEImplementation/src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp
@@ -97,9 +97,9 @@ void ErrorEllipseTask::computeProperties(SourceInterface& source) const {
 
   // angle of the error ellipse
   SeFloat theta_error, a_error, b_error;
-  SeFloat temp_error = fabs(x_2_error - y_2_error);
-  if (temp_error>0.0)
-	  theta_error = atan2(2.0*x_y_error, temp_error); // when dividing by 2.0 as in SE2 the range is -45 < theta_error < 45 which is smaller than in SE2
+  SeFloat temp_error = x_2_error - y_2_error;
+  if (fabs(temp_error)>0.0)
+	  theta_error = atan2(2.0*x_y_error, temp_error) / 2.0;
   else
 	  theta_error = M_PI /4.0;
 
-- 
2.43.0


From c1b12eb6c6161cc2043389658ed59d6841e508f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:58 +0000
Subject: [PATCH 26/37] fix: the peak of a source without positive filtered
 values was reported as a tiny positive value at (-1, -1)

---
 .../SEImplementation/Plugin/PeakValue/PeakValueTask.h           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEImplementation/SEImplementation/Plugin/PeakValue/PeakValueTask.h b/SEImplementation/SEImplementation/Plugin/PeakValue/PeakValueTask.h
index 1dc7342..f270200 100644
--- a/SEImplementation/SEImplementation/Plugin/PeakValue/PeakValueTask.h
+++ b/SEImplementation/SEImplementation/Plugin/PeakValue/PeakValueTask.h
@@ -43,7 +43,7 @@ public:
 
     auto& coordinates = source.getProperty<PixelCoordinateList>().getCoordinateList();
 
-    DetectionImage::PixelType peak_value = std::numeric_limits<DetectionImage::PixelType>::min();
+    DetectionImage::PixelType peak_value = std::numeric_limits<DetectionImage::PixelType>::lowest();
     DetectionImage::PixelType min_value = std::numeric_limits<DetectionImage::PixelType>::max();
 
     unsigned int index=0;
-- 
2.43.0


From efbd506bd9f3f7efdbfde8f1fcd252815ecc6a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:39 +0000
Subject: [PATCH 27/37] fix: do not keep writing to a tile the cache has
 dropped

WriteableBufferedImage kept the last tile across calls. Once the manager had evicted it, or flushed the cache,
further pixels were written to a tile nobody looks at any more: readers saw the old values and flush() did not
save the new ones.
---
 .../SEFramework/Image/WriteableBufferedImage.h      | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/SEFramework/SEFramework/Image/WriteableBufferedImage.h b/SEFramework/SEFramework/Image/WriteableBufferedImage.h
index d5acb8b..f858fb9 100644
--- a/SEFramework/SEFramework/Image/WriteableBufferedImage.h
+++ b/SEFramework/SEFramework/Image/WriteableBufferedImage.h
@@ -49,18 +49,15 @@ public:
   void setValue(int x, int y, T value) override {
     assert(x >= 0 && y >=0 && x < BufferedImage<T>::m_source->getWidth() && y < BufferedImage<T>::m_source->getHeight());
 
-    if (m_current_tile == nullptr || !m_current_tile->isPixelInTile(x, y)) {
-      m_current_tile = BufferedImage<T>::m_tile_manager->getTileForPixel(x, y, BufferedImage<T>::m_source);
-    }
+    // Always ask the manager: a tile kept from a previous call may have been evicted from the cache or flushed since,
+    // and the pixels written to it would be neither seen by readers nor saved by a flush
+    auto tile = BufferedImage<T>::m_tile_manager->getTileForPixel(x, y, BufferedImage<T>::m_source);
 
-    m_current_tile->setModified(true);
-    m_current_tile->setValue(x, y, value);
+    tile->setModified(true);
+    tile->setValue(x, y, value);
   }
 
   using BufferedImage<T>::getRepr;
-
-private:
-  mutable std::shared_ptr<ImageTile> m_current_tile;
 };
 
 }
-- 
2.43.0


From bba052b6f6f58f2ff1bd6cfdea873e1f2d1d3ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:57 +0000
Subject: [PATCH 28/37] fix: a pixel written while its tile is being saved
 stays marked for saving

The mark was set before the pixel was written and cleared after the tile was saved. A save by another thread (an
eviction) between the two steps of either dropped the mark of a pixel it had not saved, and the pixel was lost.
Mark after writing, and clear the mark before saving.
---
 SEFramework/SEFramework/Image/ImageTile.h             |  3 ++-
 .../SEFramework/Image/WriteableBufferedImage.h        |  3 ++-
 SEFramework/src/lib/Image/ImageTile.cpp               | 11 ++++++++---
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/SEFramework/SEFramework/Image/ImageTile.h b/SEFramework/SEFramework/Image/ImageTile.h
index 779725e..45823c7 100644
--- a/SEFramework/SEFramework/Image/ImageTile.h
+++ b/SEFramework/SEFramework/Image/ImageTile.h
@@ -23,6 +23,7 @@
 
 #ifndef _SEFRAMEWORK_IMAGE_IMAGETILE_H_
 #define _SEFRAMEWORK_IMAGE_IMAGETILE_H_
+#include <atomic>
 #include <iostream>
 #include "SEFramework/Image/Image.h"
 #include "SEFramework/Image/VectorImage.h"
@@ -147,7 +148,7 @@ protected:
   ImageTile& operator=(const ImageTile&) = delete;
   ImageTile& operator=(ImageTile&&) = delete;
 
-  bool m_modified;
+  std::atomic<bool> m_modified;
   ImageType m_image_type;
   std::shared_ptr<ImageSource> m_source;
   int m_x, m_y;
diff --git a/SEFramework/SEFramework/Image/WriteableBufferedImage.h b/SEFramework/SEFramework/Image/WriteableBufferedImage.h
index f858fb9..39fa417 100644
--- a/SEFramework/SEFramework/Image/WriteableBufferedImage.h
+++ b/SEFramework/SEFramework/Image/WriteableBufferedImage.h
@@ -53,8 +53,9 @@ public:
     // and the pixels written to it would be neither seen by readers nor saved by a flush
     auto tile = BufferedImage<T>::m_tile_manager->getTileForPixel(x, y, BufferedImage<T>::m_source);
 
-    tile->setModified(true);
+    // Mark it only once it is written: if another thread saves the tile in between, the mark must not be lost
     tile->setValue(x, y, value);
+    tile->setModified(true);
   }
 
   using BufferedImage<T>::getRepr;
diff --git a/SEFramework/src/lib/Image/ImageTile.cpp b/SEFramework/src/lib/Image/ImageTile.cpp
index 7a74a9a..563f162 100644
--- a/SEFramework/src/lib/Image/ImageTile.cpp
+++ b/SEFramework/src/lib/Image/ImageTile.cpp
@@ -38,9 +38,14 @@ std::shared_ptr<ImageTile> ImageTile::create(ImageType image_type, int x, int y,
 }
 
 void ImageTile::saveIfModified() {
-  if (isModified()) {
-    m_source->saveTile(*this);
-    setModified(false);
+  // Clear the mark before saving: pixels written while the tile is being saved must mark it again
+  if (m_modified.exchange(false)) {
+    try {
+      m_source->saveTile(*this);
+    } catch (...) {
+      setModified(true);
+      throw;
+    }
   }
 }
 
-- 
2.43.0


From d5a377d0be9a029b6697c7e6d45da145d5283d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:42 +0000
Subject: [PATCH 29/37] fix: data cubes: read the depth, check the layer and
 start at the first one

---
 SEFramework/SEFramework/FITS/FitsImageSource.h | 4 ++--
 SEFramework/src/lib/FITS/FitsImageSource.cpp   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/SEFramework/SEFramework/FITS/FitsImageSource.h b/SEFramework/SEFramework/FITS/FitsImageSource.h
index 5686df9..353c7f5 100644
--- a/SEFramework/SEFramework/FITS/FitsImageSource.h
+++ b/SEFramework/SEFramework/FITS/FitsImageSource.h
@@ -133,10 +133,10 @@ private:
 
   int m_width;
   int m_height;
-  int m_depth;
+  int m_depth = 1;
   ImageTile::ImageType m_image_type;
 
-  int m_current_layer;
+  int m_current_layer = 0;
 };
 
 }
diff --git a/SEFramework/src/lib/FITS/FitsImageSource.cpp b/SEFramework/src/lib/FITS/FitsImageSource.cpp
index f68b062..48a8e2e 100644
--- a/SEFramework/src/lib/FITS/FitsImageSource.cpp
+++ b/SEFramework/src/lib/FITS/FitsImageSource.cpp
@@ -94,7 +94,7 @@ FitsImageSource::FitsImageSource(const std::string& filename, int hdu_number,
     switchHdu(fptr, m_hdu_number);
   }
 
-  fits_get_img_param(fptr, 2, &bitpix, &naxis, naxes, &status);
+  fits_get_img_param(fptr, 3, &bitpix, &naxis, naxes, &status);
   if (status != 0 || (naxis != 2 && naxis != 3)) {
     char error_message[32];
     fits_get_errstatus(status, error_message);
@@ -273,7 +273,7 @@ void FitsImageSource::switchHdu(fitsfile *fptr, int hdu_number) const {
 }
 
 void FitsImageSource::setLayer(int layer) {
-  if (layer < 0 && layer >= m_depth) {
+  if (layer < 0 || layer >= m_depth) {
     throw Elements::Exception() << "Trying to access an inexistent data cube layer (" << layer << ") in " << m_filename;
   }
   m_current_layer = layer;
-- 
2.43.0


From 23e300a533197640feaf2e416b142c7f9229074d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:42 +0000
Subject: [PATCH 30/37] fix: an error flushing a tile to a FITS file went
 unnoticed

---
 SEFramework/src/lib/FITS/FitsImageSource.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/SEFramework/src/lib/FITS/FitsImageSource.cpp b/SEFramework/src/lib/FITS/FitsImageSource.cpp
index 48a8e2e..31e63e7 100644
--- a/SEFramework/src/lib/FITS/FitsImageSource.cpp
+++ b/SEFramework/src/lib/FITS/FitsImageSource.cpp
@@ -253,6 +253,12 @@ void FitsImageSource::saveTile(ImageTile& tile) {
         << " status: " << status << " = " << error_message;
   }
   fits_flush_buffer(fptr, 0, &status);
+  if (status != 0) {
+    char error_message[32];
+    fits_get_errstatus(status, error_message);
+    throw Elements::Exception() << "Error flushing image tile to FITS file."
+        << " status: " << status << " = " << error_message;
+  }
 }
 
 void FitsImageSource::switchHdu(fitsfile *fptr, int hdu_number) const {
-- 
2.43.0


From 24d8b9f1034a4cf0e84b1f0f638e4d0d2423b94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:42 +0000
Subject: [PATCH 31/37] fix: errors reading the HDUs and headers of a FITS file
 went unnoticed

---
 SEFramework/src/lib/FITS/FitsFile.cpp | 33 ++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/SEFramework/src/lib/FITS/FitsFile.cpp b/SEFramework/src/lib/FITS/FitsFile.cpp
index 449ced8..02b67a6 100644
--- a/SEFramework/src/lib/FITS/FitsFile.cpp
+++ b/SEFramework/src/lib/FITS/FitsFile.cpp
@@ -175,7 +175,7 @@ void FitsFile::loadInfo() {
   // Number of HDU
   m_image_hdus.clear();
   int number_of_hdus = 0;
-  if (fits_get_num_hdus(ptr, &number_of_hdus, &status) < 0) {
+  if (fits_get_num_hdus(ptr, &number_of_hdus, &status) != 0) {
     char error_message[32];
     fits_get_errstatus(status, error_message);
     throw Elements::Exception() << "Can't get the number of HDUs in FITS file: " << m_path
@@ -208,6 +208,12 @@ void FitsFile::loadInfo() {
 
   // go back to saved HDU
   fits_movabs_hdu(ptr, original_hdu, &hdu_type, &status);
+  if (status != 0) {
+    char error_message[32];
+    fits_get_errstatus(status, error_message);
+    throw Elements::Exception() << "Can't read the HDUs of: " << m_path
+        << " status: " << status << " = " << error_message;
+  }
 
   // load all FITS headers
   loadFitsHeader();
@@ -239,6 +245,13 @@ static std::map<std::string, MetadataEntry> loadHeadersFromFits(fitsfile* fptr)
     fits_read_record(fptr, ++keynum, record, &status);
   }
 
+  if (status != 0) {
+    char error_message[32];
+    fits_get_errstatus(status, error_message);
+    throw Elements::Exception() << "Can't read the FITS headers"
+        << " status: " << status << " = " << error_message;
+  }
+
   return headers;
 }
 
@@ -252,12 +265,24 @@ void FitsFile::loadFitsHeader() {
   int hdu_type = 0;
   for (unsigned int i = 0; i < m_headers.size(); i++) {
     fits_movabs_hdu(m_fits_ptr.get(), i + 1, &hdu_type, &status);  // +1 hdus start at 1
+    if (status != 0) {
+      char error_message[32];
+      fits_get_errstatus(status, error_message);
+      throw Elements::Exception() << "Can't switch HDUs while loading the headers of: " << m_path
+          << " status: " << status << " = " << error_message;
+    }
 
     m_headers[i] = loadHeadersFromFits(m_fits_ptr.get());
   }
 
   // go back to saved HDU
   fits_movabs_hdu(m_fits_ptr.get(), original_hdu, &hdu_type, &status);
+  if (status != 0) {
+    char error_message[32];
+    fits_get_errstatus(status, error_message);
+    throw Elements::Exception() << "Can't switch HDUs after loading the headers of: " << m_path
+        << " status: " << status << " = " << error_message;
+  }
 }
 
 void FitsFile::loadHeadFile() {
@@ -355,6 +380,12 @@ std::vector<int> FitsFile::getDimensions(int hdu) const {
 
   // go back to saved HDU
   fits_movabs_hdu(m_fits_ptr.get(), original_hdu, &hdu_type, &status);
+  if (status != 0) {
+    char error_message[32];
+    fits_get_errstatus(status, error_message);
+    throw Elements::Exception() << "Can't switch HDUs after reading the dimensions of: " << m_path
+        << " status: " << status << " = " << error_message;
+  }
 
   return dims;
 }
-- 
2.43.0


From 231e2b84218b9ec7fa5110fb9a57ceb1d2566796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:56 +0000
Subject: [PATCH 32/37] fix: a .head file with a header per image read past the
 last image HDU

---
 SEFramework/src/lib/FITS/FitsFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEFramework/src/lib/FITS/FitsFile.cpp b/SEFramework/src/lib/FITS/FitsFile.cpp
index 02b67a6..aadcd9e 100644
--- a/SEFramework/src/lib/FITS/FitsFile.cpp
+++ b/SEFramework/src/lib/FITS/FitsFile.cpp
@@ -321,7 +321,7 @@ void FitsFile::loadHeadFile() {
     }
 
     if (boost::to_upper_copy(line) == "END") {
-      current_hdu = *(++hdu_iter);
+      ++hdu_iter;
       is_new_hdu = true;
     } else {
       static boost::regex regex("([^=]{1,8})=([^\\/]*)(\\/ (.*))?");
-- 
2.43.0


From 36a8094e865e2a4eeb1e5822ae86a3e584aaa4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:46 +0000
Subject: [PATCH 33/37] fix: a failed imageToWorld leaked its copy of the
 projection, and a failed copy was used

---
 SEFramework/src/lib/CoordinateSystem/WCS.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/SEFramework/src/lib/CoordinateSystem/WCS.cpp b/SEFramework/src/lib/CoordinateSystem/WCS.cpp
index ac14c06..a1b1676 100644
--- a/SEFramework/src/lib/CoordinateSystem/WCS.cpp
+++ b/SEFramework/src/lib/CoordinateSystem/WCS.cpp
@@ -223,7 +223,9 @@ WorldCoordinate WCS::imageToWorld(ImageCoordinate image_coordinate) const {
   // wcsprm is in/out
   wcsprm wcs_copy;
   wcs_copy.flag = -1;
-  safe_wcssub(true, m_wcs.get(), nullptr, nullptr, &wcs_copy);
+  int copy_status = safe_wcssub(true, m_wcs.get(), nullptr, nullptr, &wcs_copy);
+  std::unique_ptr<wcsprm, int (*)(wcsprm*)> release_copy(&wcs_copy, wcsfree);
+  wcsRaiseOnTransformError(&wcs_copy, copy_status);
 
   // +1 as fits standard coordinates start at 1
   double pc_array[2] {image_coordinate.m_x + 1, image_coordinate.m_y + 1};
@@ -235,7 +237,6 @@ WorldCoordinate WCS::imageToWorld(ImageCoordinate image_coordinate) const {
   int status = 0;
   int ret_val = wcsp2s(&wcs_copy, 1, 1, pc_array, ic_array, &phi, &theta, wc_array, &status);
   wcsRaiseOnTransformError(&wcs_copy, ret_val);
-  wcsfree(&wcs_copy);
 
   return WorldCoordinate(wc_array[0], wc_array[1]);
 }
@@ -244,7 +245,9 @@ ImageCoordinate WCS::worldToImage(WorldCoordinate world_coordinate) const {
   // wcsprm is in/out
   wcsprm wcs_copy;
   wcs_copy.flag = -1;
-  safe_wcssub(true, m_wcs.get(), nullptr, nullptr, &wcs_copy);
+  int copy_status = safe_wcssub(true, m_wcs.get(), nullptr, nullptr, &wcs_copy);
+  std::unique_ptr<wcsprm, int (*)(wcsprm*)> release_copy(&wcs_copy, wcsfree);
+  wcsRaiseOnTransformError(&wcs_copy, copy_status);
 
   double pc_array[2] {0, 0};
   double ic_array[2] {0, 0};
@@ -258,7 +261,6 @@ ImageCoordinate WCS::worldToImage(WorldCoordinate world_coordinate) const {
     pc_array[0] = -std::numeric_limits<double>::infinity();
     pc_array[1] = -std::numeric_limits<double>::infinity();
   }
-  wcsfree(&wcs_copy);
   return ImageCoordinate(pc_array[0] - 1, pc_array[1] - 1); // -1 as fits standard coordinates start at 1
 }
 
-- 
2.43.0


From 30ba20c5cf8fad470100ee86fd991b2394a6586a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:46 +0000
Subject: [PATCH 34/37] fix: coordinate conversions of images with more than
 two axes wrote past the end of their arrays

---
 SEFramework/src/lib/CoordinateSystem/WCS.cpp | 25 +++++++++++++-------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/SEFramework/src/lib/CoordinateSystem/WCS.cpp b/SEFramework/src/lib/CoordinateSystem/WCS.cpp
index a1b1676..3a6645d 100644
--- a/SEFramework/src/lib/CoordinateSystem/WCS.cpp
+++ b/SEFramework/src/lib/CoordinateSystem/WCS.cpp
@@ -27,6 +27,7 @@
 #include <boost/algorithm/string/trim.hpp>
 #include <fitsio.h>
 #include <mutex>
+#include <vector>
 #include <wcslib/dis.h>
 #include <wcslib/wcs.h>
 #include <wcslib/wcsfix.h>
@@ -228,14 +229,18 @@ WorldCoordinate WCS::imageToWorld(ImageCoordinate image_coordinate) const {
   wcsRaiseOnTransformError(&wcs_copy, copy_status);
 
   // +1 as fits standard coordinates start at 1
-  double pc_array[2] {image_coordinate.m_x + 1, image_coordinate.m_y + 1};
+  std::vector<double> pc_array {image_coordinate.m_x + 1, image_coordinate.m_y + 1};
+  // wcslib transforms all the axes, and data cubes have more than two
+  for (int axis = 2; axis < wcs_copy.naxis; ++axis) {
+    pc_array.push_back(wcs_copy.crpix[axis]);
+  }
 
-  double ic_array[2] {0, 0};
-  double wc_array[2] {0, 0};
+  std::vector<double> ic_array(pc_array.size(), 0);
+  std::vector<double> wc_array(pc_array.size(), 0);
   double phi, theta;
 
   int status = 0;
-  int ret_val = wcsp2s(&wcs_copy, 1, 1, pc_array, ic_array, &phi, &theta, wc_array, &status);
+  int ret_val = wcsp2s(&wcs_copy, 1, 1, pc_array.data(), ic_array.data(), &phi, &theta, wc_array.data(), &status);
   wcsRaiseOnTransformError(&wcs_copy, ret_val);
 
   return WorldCoordinate(wc_array[0], wc_array[1]);
@@ -249,13 +254,17 @@ ImageCoordinate WCS::worldToImage(WorldCoordinate world_coordinate) const {
   std::unique_ptr<wcsprm, int (*)(wcsprm*)> release_copy(&wcs_copy, wcsfree);
   wcsRaiseOnTransformError(&wcs_copy, copy_status);
 
-  double pc_array[2] {0, 0};
-  double ic_array[2] {0, 0};
-  double wc_array[2] {world_coordinate.m_alpha, world_coordinate.m_delta};
+  std::vector<double> wc_array {world_coordinate.m_alpha, world_coordinate.m_delta};
+  // wcslib transforms all the axes, and data cubes have more than two
+  for (int axis = 2; axis < wcs_copy.naxis; ++axis) {
+    wc_array.push_back(wcs_copy.crval[axis]);
+  }
+  std::vector<double> pc_array(wc_array.size(), 0);
+  std::vector<double> ic_array(wc_array.size(), 0);
   double phi, theta;
 
   int status = 0;
-  int ret_val = wcss2p(&wcs_copy, 1, 1, wc_array, &phi, &theta, ic_array, pc_array, &status);
+  int ret_val = wcss2p(&wcs_copy, 1, 1, wc_array.data(), &phi, &theta, ic_array.data(), pc_array.data(), &status);
   if (ret_val != WCSERR_SUCCESS) {
     logger.warn() << "Bad worldToImage from RA/Dec: " << wc_array[0] << "/" << wc_array[1];
     pc_array[0] = -std::numeric_limits<double>::infinity();
-- 
2.43.0


From ee902afc179f615c3b3aa5e83fbb69fa1c4923b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:46 +0000
Subject: [PATCH 35/37] fix: WCS leaked the structures of its strict parse, and
 a copied header on errors

---
 SEFramework/src/lib/CoordinateSystem/WCS.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SEFramework/src/lib/CoordinateSystem/WCS.cpp b/SEFramework/src/lib/CoordinateSystem/WCS.cpp
index 3a6645d..4fedd8b 100644
--- a/SEFramework/src/lib/CoordinateSystem/WCS.cpp
+++ b/SEFramework/src/lib/CoordinateSystem/WCS.cpp
@@ -172,9 +172,9 @@ WCS::WCS(const WCS& original) : m_wcs(nullptr, nullptr) {
     throw Elements::Exception() << "Failed to get the FITS headers for the WCS coordinate system when copying WCS";
   }
 
-  init(raw_header, number_of_records);
+  std::unique_ptr<char, void (*)(void*)> release_header(raw_header, free);
 
-  free(raw_header);
+  init(raw_header, number_of_records);
 }
 
 
@@ -192,6 +192,7 @@ void WCS::init(char* headers, int number_of_records) {
   int ret = wcspih(headers, number_of_records, WCSHDR_strict, 2, &nreject_strict, &nwcs, &wcs);
   wcsRaiseOnParseError(ret);
   wcsReportWarnings(wcsprintf_buf());
+  wcsvfree(&nwcs, &wcs);
 
   // Do a second pass, in relaxed mode. We use the result.
   ret = wcspih(headers, number_of_records, WCSHDR_all, 0, &nreject, &nwcs, &wcs);
-- 
2.43.0


From 2ef12398992603bbf6b834e7d548d72bbdfcaacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:40 +0000
Subject: [PATCH 36/37] fix: reject unknown weight types of measurement images
 that have a weight threshold

extractWeightThreshold() looked the type up with operator[], which added
the unknown name to the table as NONE, so the validation that follows in
createWeightMap() accepted it.
---
 .../src/lib/Configuration/MeasurementImageConfig.cpp           | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp b/SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp
index ba81408..e618985 100644
--- a/SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp
+++ b/SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp
@@ -136,8 +136,7 @@ WeightImage::PixelType extractWeightThreshold(const PyMeasurementImage& py_image
     return std::numeric_limits<WeightImage::PixelType>::max();
   }
   WeightImage::PixelType threshold = py_image.weight_threshold;
-  auto weight_type_name = boost::to_upper_copy(py_image.weight_type);
-  switch (weight_type_map[weight_type_name]) {
+  switch (getWeightType(py_image.weight_type, py_image.weight_file)) {
       default:
       case WeightImageConfig::WeightType::WEIGHT_TYPE_FROM_BACKGROUND:
       case WeightImageConfig::WeightType::WEIGHT_TYPE_RMS:
-- 
2.43.0


From 23097fba3476e89488f8837653006e7b5605725d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:40 +0000
Subject: [PATCH 37/37] fix: declare the dependency of the model fitting
 configuration on AssocModeConfig

initialize() consults AssocModeConfig, which was not guaranteed to be
registered or initialised before it.
---
 SEImplementation/src/lib/Configuration/ModelFittingConfig.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SEImplementation/src/lib/Configuration/ModelFittingConfig.cpp b/SEImplementation/src/lib/Configuration/ModelFittingConfig.cpp
index 4d3dc68..a4e226d 100644
--- a/SEImplementation/src/lib/Configuration/ModelFittingConfig.cpp
+++ b/SEImplementation/src/lib/Configuration/ModelFittingConfig.cpp
@@ -139,6 +139,7 @@ struct FunctionFromPython<double(double, const SourceInterface&)> {
 
 ModelFittingConfig::ModelFittingConfig(long manager_id) : Configuration(manager_id) {
   declareDependency<PythonConfig>();
+  declareDependency<AssocModeConfig>();
 }
 
 ModelFittingConfig::~ModelFittingConfig() {
-- 
2.43.0

