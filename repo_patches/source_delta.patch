From b394521e7cb3d9d9e7ee3c29b9a20cfc01c66f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 001/129] fix: deep copies of a map keep landmark colors and
 errors, pano observations and unused rig objects

---
 opensfm/src/map/src/map.cc | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/map/src/map.cc b/opensfm/src/map/src/map.cc
index e260303..b31574d 100644
--- a/opensfm/src/map/src/map.cc
+++ b/opensfm/src/map/src/map.cc
@@ -27,6 +27,14 @@ std::unique_ptr<Map> Map::DeepCopy(const Map& map, bool copy_observations) {
     map_copy->CreateCamera(camera);
   }
 
+  for (const auto& [rig_camera_id, rig_camera] : map.GetRigCameras()) {
+    map_copy->CreateRigCamera(rig_camera);
+  }
+
+  for (const auto& [instance_id, instance] : map.GetRigInstances()) {
+    map_copy->CreateRigInstance(instance_id).SetPose(instance.GetPose());
+  }
+
   const auto& shots = map.GetShots();
   for (const auto& [shot_id, shot] : shots) {
     if (map_copy->HasShot(shot_id)) {
@@ -44,7 +52,12 @@ std::unique_ptr<Map> Map::DeepCopy(const Map& map, bool copy_observations) {
   }
 
   for (const auto& [lm_id, landmark] : map.GetLandmarks()) {
-    map_copy->CreateLandmark(lm_id, landmark.GetGlobalPos());
+    auto& landmark_copy =
+        map_copy->CreateLandmark(lm_id, landmark.GetGlobalPos());
+    landmark_copy.SetColor(landmark.GetColor());
+    if (copy_observations) {
+      landmark_copy.SetReprojectionErrors(landmark.GetReprojectionErrors());
+    }
   }
 
   if (copy_observations) {
@@ -53,6 +66,12 @@ std::unique_ptr<Map> Map::DeepCopy(const Map& map, bool copy_observations) {
         map_copy->AddObservation(shot_id, landmark->id_, obs);
       }
     }
+    for (const auto& [pano_shot_id, pano_shot] : pano_shots) {
+      for (const auto& [landmark, obs] : pano_shot.GetLandmarkObservations()) {
+        map_copy->AddObservation(&map_copy->GetPanoShot(pano_shot_id),
+                                 &map_copy->GetLandmark(landmark->id_), obs);
+      }
+    }
   }
 
   for (const auto& [cam_id, bias] : map.GetBiases()) {
-- 
2.43.0


From ca9d1f53fc8df157b65a1b1572100d07f5f09bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 002/129] fix: feature extraction puts a single end marker,
 which always fits in the queue

---
 opensfm/features_processing.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/opensfm/features_processing.py b/opensfm/features_processing.py
index bca17cb..2573867 100644
--- a/opensfm/features_processing.py
+++ b/opensfm/features_processing.py
@@ -4,7 +4,6 @@ import logging
 import math
 import queue
 import sys
-import threading
 from timeit import default_timer as timer
 from typing import Any, cast, Dict, List, Optional, Tuple, Union
 
@@ -76,7 +75,8 @@ def run_features_processing(data: DataSetBase, images: List[str], force: bool) -
         f"Expecting to queue at most {expected_images} images while parallel processing of {processes} images."
     )
 
-    process_queue: ProcessQueue = queue.Queue(expected_images)
+    # an image and the end marker must fit when reading and detecting in turns
+    process_queue: ProcessQueue = queue.Queue(max(2, expected_images))
     arguments: List[Tuple[str, Union[ProducerArgs, ConsumerArgs]]] = []
 
     if processes == 1:
@@ -155,18 +155,11 @@ class Counter:
     """
 
     def __init__(self) -> None:
-        self.number_of_read = 0
         self.counter: itertools.count[int] = itertools.count()
-        self.read_lock = threading.Lock()
 
-    def increment(self) -> None:
-        next(self.counter)
-
-    def value(self) -> int:
-        with self.read_lock:
-            value = next(self.counter) - self.number_of_read
-            self.number_of_read += 1
-        return value
+    def increment(self) -> int:
+        """Add one and return the new value : each value is returned only once."""
+        return next(self.counter) + 1
 
 
 def process(args: Tuple[str, Union[ProducerArgs, ConsumerArgs]]) -> None:
@@ -199,8 +192,7 @@ def read_images(
         args = (image, image_array, segmentation_array, instances_array, data, force)
 
         queue.put(args, block=True, timeout=full_queue_timeout)
-        counter.increment()
-        if counter.value() == expected:
+        if counter.increment() == expected:
             logger.info("Finished reading images")
             queue.put(None)
 
-- 
2.43.0


From d49d2ee2382b41ca3ae8bc0724ea2abfb9a9ff36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 003/129] fix: parallel_map restores the OpenCV threads when a
 call raises

---
 opensfm/context.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/opensfm/context.py b/opensfm/context.py
index 4cf7558..b4d6814 100644
--- a/opensfm/context.py
+++ b/opensfm/context.py
@@ -52,18 +52,19 @@ def parallel_map(
     threads_used = cv2.getNumThreads()
     cv2.setNumThreads(0)
 
-    num_proc = min(num_proc, len(args))
-    if num_proc <= 1:
-        res = list(map(func, args))
-    else:
-        with parallel_backend("threading", n_jobs=num_proc):
-            batch_size = max(1, int(len(args) / (num_proc * 2)))
-            batch_size = (
-                min(batch_size, max_batch_size) if max_batch_size else batch_size
-            )
-            res = Parallel(batch_size=batch_size)(delayed(func)(arg) for arg in args)
-
-    cv2.setNumThreads(threads_used)
+    try:
+        num_proc = min(num_proc, len(args))
+        if num_proc <= 1:
+            res = list(map(func, args))
+        else:
+            with parallel_backend("threading", n_jobs=num_proc):
+                batch_size = max(1, int(len(args) / (num_proc * 2)))
+                batch_size = (
+                    min(batch_size, max_batch_size) if max_batch_size else batch_size
+                )
+                res = Parallel(batch_size=batch_size)(delayed(func)(arg) for arg in args)
+    finally:
+        cv2.setNumThreads(threads_used)
     return res
 
 
-- 
2.43.0


From 875676b08bbd2349fa8b610448554b36d8b2a06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 004/129] fix: files are put in place only once completely
 written

A stage that stops while writing left a truncated file under its final
name. The next run took it for a finished result (exif, features, words,
depth maps, reference) and failed or went on with it.
---
 opensfm/io.py | 62 +++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 60 insertions(+), 2 deletions(-)

diff --git a/opensfm/io.py b/opensfm/io.py
index e44be61..18fddcc 100644
--- a/opensfm/io.py
+++ b/opensfm/io.py
@@ -3,6 +3,7 @@ import json
 import logging
 import os
 import shutil
+import threading
 from abc import ABC, abstractmethod
 from pathlib import Path
 from typing import (
@@ -1426,6 +1427,63 @@ class IoFilesystemBase(ABC):
     def timestamp(cls, path: str) -> float: ...
 
 
+class _AtomicFile:
+    """File open for writing that takes its place only once completely written.
+
+    The stages skip the outputs that already exist. An interrupted run must
+    therefore not leave a partially written file under its final name.
+    """
+
+    def __init__(self, path: str, mode: str) -> None:
+        self._path: str = os.path.realpath(path)
+        self._tmp_path: str = "{}.{}-{}.tmp".format(
+            self._path, os.getpid(), threading.get_ident()
+        )
+        self._file: IO[Any] = open(self._tmp_path, mode)
+
+    def __getattr__(self, name: str) -> Any:
+        return getattr(self._file, name)
+
+    def __enter__(self) -> "_AtomicFile":
+        return self
+
+    def __exit__(self, exc_type: Any, exc_value: Any, traceback: Any) -> None:
+        if exc_type is None:
+            self.close()
+        else:
+            self._discard()
+
+    def close(self) -> None:
+        if self._file.closed:
+            return
+        try:
+            self._file.close()
+            if os.path.exists(self._path):
+                shutil.copymode(self._path, self._tmp_path)
+            os.replace(self._tmp_path, self._path)
+        except BaseException:
+            self._discard()
+            raise
+
+    def __del__(self) -> None:
+        # some callers leave closing to the garbage collector
+        if "_file" in self.__dict__:
+            self.close()
+
+    def _discard(self) -> None:
+        try:
+            self._file.close()
+        finally:
+            if os.path.exists(self._tmp_path):
+                os.remove(self._tmp_path)
+
+
+def _open_for_writing(path: str, mode: str) -> Any:
+    if os.path.exists(path) and not os.path.isfile(path):
+        return open(path, mode)
+    return _AtomicFile(path, mode)
+
+
 class IoFilesystemDefault(IoFilesystemBase):
     def __init__(self) -> None:
         self.type = "default"
@@ -1462,7 +1520,7 @@ class IoFilesystemDefault(IoFilesystemBase):
 
     @classmethod
     def open_wb(cls, path: str) -> BinaryIO:
-        return open(path, "wb")
+        return _open_for_writing(path, "wb")
 
     @classmethod
     def open_rb(cls, path: str) -> BinaryIO:
@@ -1470,7 +1528,7 @@ class IoFilesystemDefault(IoFilesystemBase):
 
     @classmethod
     def open_wt(cls, path: str) -> TextIO:
-        return open(path, "wt")
+        return _open_for_writing(path, "wt")
 
     @classmethod
     def open_rt(cls, path: str) -> TextIO:
-- 
2.43.0


From 469960b14a452b089da2f91ef0d75ed036949e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 005/129] fix: selection by GPS distance searches among the
 candidates only

The search tree had a spurious point at the reference origin for every
image that is not a candidate. They took the place of actual neighbors.
---
 opensfm/pairs_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/pairs_selection.py b/opensfm/pairs_selection.py
index 223e589..33dfc1c 100644
--- a/opensfm/pairs_selection.py
+++ b/opensfm/pairs_selection.py
@@ -185,7 +185,7 @@ def match_candidates_by_distance(
         logger.warning(f"Couldn't fetch {difference} images. Returning NO pairs.")
         return set()
 
-    points = np.zeros((len(representative_points), 3))
+    points = np.zeros((len(images_cand), 3))
     for i, point_id in enumerate(images_cand):
         points[i] = representative_points[point_id]
 
-- 
2.43.0


From 8dfdb319409e76130338336ede214f6d0cd93084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 006/129] fix: setting a camera's distortion leaves its focal,
 aspect ratio and principal point alone

---
 opensfm/src/geometry/python/pybind.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/geometry/python/pybind.cc b/opensfm/src/geometry/python/pybind.cc
index 1cc4999..1b0e564 100644
--- a/opensfm/src/geometry/python/pybind.cc
+++ b/opensfm/src/geometry/python/pybind.cc
@@ -173,10 +173,17 @@ PYBIND11_MODULE(pygeometry, m) {
             int count = 0;
             for (int i = 0; i < types.size(); ++i) {
               const int type_int = static_cast<int>(types[i]);
-              if (type_int >=
+              const bool is_radial_or_tangential =
+                  type_int >=
                       static_cast<int>(geometry::Camera::Parameters::K1) &&
                   type_int <=
-                      static_cast<int>(geometry::Camera::Parameters::S3)) {
+                      static_cast<int>(geometry::Camera::Parameters::P2);
+              const bool is_thin_prism =
+                  type_int >=
+                      static_cast<int>(geometry::Camera::Parameters::S0) &&
+                  type_int <=
+                      static_cast<int>(geometry::Camera::Parameters::S3);
+              if (is_radial_or_tangential || is_thin_prism) {
                 p.SetParameterValue(types[i], distortion(count++));
               }
             }
-- 
2.43.0


From ef017143e21cc5188a1b40ab82317d2c559a280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 007/129] fix: the bearing of the image center of a dual camera
 is the optical axis

---
 opensfm/src/geometry/camera_projections_functions.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/geometry/camera_projections_functions.h b/opensfm/src/geometry/camera_projections_functions.h
index faf7902..2f16584 100644
--- a/opensfm/src/geometry/camera_projections_functions.h
+++ b/opensfm/src/geometry/camera_projections_functions.h
@@ -180,8 +180,11 @@ struct DualProjection : Functor<3, 1, 2> {
                                   foundation::ManualDiff<ThetaEval<T>, 1, 1>>(
             eval_function, 0, iterations);
 
-    const auto s = tan(theta_refined) / (p[Transition] * tan(theta_refined) +
-                                         (1.0 - p[Transition]) * theta_refined);
+    T s{1.0};
+    if (theta_refined > T(1e-8)) {
+      s = tan(theta_refined) / (p[Transition] * tan(theta_refined) +
+                                (1.0 - p[Transition]) * theta_refined);
+    }
 
     const T x = s * point[0];
     const T y = s * point[1];
-- 
2.43.0


From da856d1a3fa0f259b709ea7d41bc8511dc33e3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:13 +0000
Subject: [PATCH 008/129] fix: bearings of dual cameras converge at wide angles

---
 .../src/geometry/camera_projections_functions.h   | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/opensfm/src/geometry/camera_projections_functions.h b/opensfm/src/geometry/camera_projections_functions.h
index 2f16584..ae841b0 100644
--- a/opensfm/src/geometry/camera_projections_functions.h
+++ b/opensfm/src/geometry/camera_projections_functions.h
@@ -174,11 +174,14 @@ struct DualProjection : Functor<3, 1, 2> {
   static void Backward(const T* point, const T* p, T* bearing) {
     // Perform a bit iterations for finding theta from r
     const T r = sqrt(SquaredNorm(point));
-    ThetaEval<T> eval_function{0, r, p[Transition]};
+    // The function is convex and both r and atan(r / transition) are not below
+    // its root : starting there, the iterations can't jump over the pole of tan
+    ThetaEval<T> eval_function{r, p[Transition]};
+    const T theta_max = atan2(r, p[Transition]);
     const auto theta_refined =
         foundation::NewtonRaphson<ThetaEval<T>, 1, 1,
                                   foundation::ManualDiff<ThetaEval<T>, 1, 1>>(
-            eval_function, 0, iterations);
+            eval_function, r < theta_max ? r : theta_max, iterations);
 
     T s{1.0};
     if (theta_refined > T(1e-8)) {
@@ -194,21 +197,17 @@ struct DualProjection : Functor<3, 1, 2> {
     bearing[2] = inv_norm;
   }
 
-  static constexpr int iterations = 5;
+  static constexpr int iterations = 20;
   template <class T>
   struct ThetaEval {
-    mutable int count;
     const T& r;
     const T& transition;
     T operator()(const T& x) const {
       return transition * tan(x) + (1.0 - transition) * x - r;
     }
     T derivative(const T& x) const {
-      /* Here's some trick : use a half shorter step to prevent gross
-       * overfitting on tan(x) */
-      const T mult = count++ == 0 ? T(2.0) : T(1.0);
       const auto secant = 1.0 / cos(x);
-      return mult * (transition * secant * secant - transition + 1);
+      return transition * secant * secant - transition + 1;
     }
   };
 };
-- 
2.43.0


From abc3a6182b1d7bf106090bdd9746d1966831235b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:13 +0000
Subject: [PATCH 009/129] fix: exact derivative in the inversion of the radial
 distortion

---
 opensfm/src/geometry/camera_distortions_functions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/geometry/camera_distortions_functions.h b/opensfm/src/geometry/camera_distortions_functions.h
index 8baa0a7..253f09d 100644
--- a/opensfm/src/geometry/camera_distortions_functions.h
+++ b/opensfm/src/geometry/camera_distortions_functions.h
@@ -95,7 +95,7 @@ struct Disto2 : Functor<2, 1, 2> {
 
   template <class T>
   static T DistortionDerivative(const T& r2, const T& k1) {
-    return T(1.0) + r2 * T(2.0) * k1;
+    return T(1.0) + r2 * T(3.0) * k1;
   }
 };
 
@@ -197,7 +197,7 @@ struct Disto24 : Functor<2, 2, 2> {
 
   template <class T>
   static T DistortionDerivative(const T& r2, const T& k1, const T& k2) {
-    return T(1.0) + r2 * T(2.0) * (k1 + T(2.0) * k2 * r2);
+    return T(1.0) + r2 * (T(3.0) * k1 + T(5.0) * k2 * r2);
   }
 };
 
-- 
2.43.0


From ee01b5aec76a1bdc692e26ac623aa8141e4a6499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:25 +0000
Subject: [PATCH 010/129] fix: combining masks keeps every pixel that is
 non-zero in both

---
 opensfm/masking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/masking.py b/opensfm/masking.py
index 8fc98f4..d694f59 100644
--- a/opensfm/masking.py
+++ b/opensfm/masking.py
@@ -36,7 +36,7 @@ def combine_masks(
             return mask1
         else:
             mask1, mask2 = _resize_masks_to_match(mask1, mask2)
-            return mask1 & mask2
+            return ((mask1 != 0) & (mask2 != 0)).astype(np.uint8)
 
 
 def _resize_masks_to_match(
-- 
2.43.0


From c95451cd8172aa460cb53529ebacaea279df2496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:33 +0000
Subject: [PATCH 011/129] fix: setting the rotation of a pose moves its origin
 accordingly

---
 opensfm/src/geometry/pose.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/geometry/pose.h b/opensfm/src/geometry/pose.h
index dd13af8..289b9a7 100644
--- a/opensfm/src/geometry/pose.h
+++ b/opensfm/src/geometry/pose.h
@@ -85,7 +85,7 @@ class Pose {
   virtual void SetWorldToCamRotation(const Vec3d& r_cw) {
     const Mat3d R_cw = geometry::VectorToRotationMatrix(r_cw);
     world_to_cam_.block<3, 3>(0, 0) = R_cw;
-    cam_to_world_.block<3, 3>(0, 0) = R_cw.transpose();
+    cam_to_world_ = world_to_cam_.inverse();
     UpdateMinRotations();
   }
 
@@ -96,7 +96,7 @@ class Pose {
 
   virtual void SetWorldToCamRotationMatrix(const Mat3d& R_cw) {
     world_to_cam_.block<3, 3>(0, 0) = R_cw;
-    cam_to_world_.block<3, 3>(0, 0) = R_cw.transpose();
+    cam_to_world_ = world_to_cam_.inverse();
     UpdateMinRotations();
   }
   virtual void SetFromCameraToWorld(const Vec3d& r_wc, const Vec3d& t_wc) {
-- 
2.43.0


From 6684a8a0e1f67b2e4f30e554a0860b676b8055ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 012/129] fix: altitudes of positions next to the poles are
 exact

---
 opensfm/geo.py             | 6 ++++--
 opensfm/src/geo/src/geo.cc | 7 ++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/opensfm/geo.py b/opensfm/geo.py
index 3b8f126..cc71409 100644
--- a/opensfm/geo.py
+++ b/opensfm/geo.py
@@ -72,8 +72,10 @@ def lla_from_ecef(
     lat = np.arctan2(
         z + eb**2 * b * np.sin(theta) ** 3, p - ea**2 * a * np.cos(theta) ** 3
     )
-    N = a / np.sqrt(1 - ea**2 * np.sin(lat) ** 2)
-    alt = p / np.cos(lat) - N
+    # This form stays accurate at the poles, where p and cos(lat) vanish
+    alt = (
+        p * np.cos(lat) + z * np.sin(lat) - a * np.sqrt(1 - ea**2 * np.sin(lat) ** 2)
+    )
     return np.degrees(lat), np.degrees(lon), alt
 
 
diff --git a/opensfm/src/geo/src/geo.cc b/opensfm/src/geo/src/geo.cc
index 5ed9487..9fee96e 100644
--- a/opensfm/src/geo/src/geo.cc
+++ b/opensfm/src/geo/src/geo.cc
@@ -53,9 +53,10 @@ Vec3d LlaFromEcef(const double x, const double y, const double z) {
   const auto lat =
       std::atan2(z + eb * eb * WGS84_b * std::pow(std::sin(theta), 3),
                  p - ea * ea * WGS84_a * std::pow(std::cos(theta), 3));
-  const auto N =
-      WGS84_a / std::sqrt(1.0 - ea * ea * std::pow(std::sin(lat), 2));
-  const auto alt = p / std::cos(lat) - N;
+  // This form stays accurate at the poles, where p and cos(lat) vanish
+  const auto alt =
+      p * std::cos(lat) + z * std::sin(lat) -
+      WGS84_a * std::sqrt(1.0 - ea * ea * std::pow(std::sin(lat), 2));
   return Vec3d(ToDegrees(lat), ToDegrees(lon), alt);
 }
 Vec3d LlaFromEcef(const Vec3d& ecef) {
-- 
2.43.0


From bbc0ac29a98a0605d4d97904b03b3be8bfd25852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:16 +0000
Subject: [PATCH 013/129] fix: the roll of a rotation is right beyond a quarter
 turn

---
 opensfm/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/geometry.py b/opensfm/geometry.py
index 8daf507..4f4179f 100644
--- a/opensfm/geometry.py
+++ b/opensfm/geometry.py
@@ -46,7 +46,7 @@ def roll_from_rotation(rotation_matrix: NDArray) -> float:
     a = np.cross(Rt_ez, [0, 0, 1])
     a /= np.linalg.norm(a)
     b = np.cross(Rt_ex, a)
-    return np.arcsin(np.dot(Rt_ez, b))
+    return np.arctan2(np.dot(Rt_ez, b), np.dot(Rt_ex, a))
 
 
 def rotation_from_ptr_v2(pan: float, tilt: float, roll: float) -> NDArray:
-- 
2.43.0


From 525761763274e572889b07a47dccfe80032d485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:18 +0000
Subject: [PATCH 014/129] fix: a shot keeps its rig when a panorama has the
 same id

---
 opensfm/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/io.py b/opensfm/io.py
index 18fddcc..1ce3bc3 100644
--- a/opensfm/io.py
+++ b/opensfm/io.py
@@ -279,7 +279,8 @@ def rig_instance_camera_per_shot(obj: Dict[str, Any]) -> Dict[str, Tuple[str, st
             s_key: (i_key, c_key)
             for i_key, ri in obj["rig_instances"].items()
             for s_key, c_key in ri["rig_camera_ids"].items()
-            if s_key not in panoshots
+            # a panorama has its own instance; a shot of the same id may be in another
+            if s_key not in panoshots or i_key != types.PANOSHOT_RIG_PREFIX + s_key
         }
     return rig_shots
 
-- 
2.43.0


From 707d1bf695f11d9dd1a3f7e6e9e0ab3dd64c0117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 015/129] fix: keep the observations of a ground control point
 without altitude together

---
 opensfm/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/io.py b/opensfm/io.py
index 1ce3bc3..f6b211d 100644
--- a/opensfm/io.py
+++ b/opensfm/io.py
@@ -896,7 +896,8 @@ def _read_gcp_list_lines(
     for line in lines:
         words = line.split(None, 5)
         easting, northing, alt, pixel_x, pixel_y = map(float, words[:5])
-        key = (easting, northing, alt)
+        # NaN is different from itself, and can't be used to identify a point
+        key = (easting, northing, None if np.isnan(alt) else alt)
 
         shot_tokens = words[5].split(None)
         shot_id = shot_tokens[0]
-- 
2.43.0


From e08a31e38cb609c17b00923a78fc2224acf877a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:37 +0000
Subject: [PATCH 016/129] fix: writing an image no longer swaps the channels of
 the caller's array

---
 opensfm/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opensfm/io.py b/opensfm/io.py
index f6b211d..252a31a 100644
--- a/opensfm/io.py
+++ b/opensfm/io.py
@@ -1331,6 +1331,7 @@ def imwrite_from_fileobject(
 ) -> None:
     """Write an image to a file object"""
     if len(image.shape) == 3:
+        image = image.copy()
         image[:, :, :3] = image[:, :, [2, 1, 0]]  # Turn RGB to BGR (or RGBA to BGRA)
     _, im_buffer = cv2.imencode(ext, image)
     fwb.write(im_buffer)
-- 
2.43.0


From b34119f0c36c126e336c3039bac6fa88deed2ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:11 +0000
Subject: [PATCH 017/129] fix: links of subsets of a dataset given by a
 relative path were broken

---
 opensfm/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/io.py b/opensfm/io.py
index 252a31a..73e82e2 100644
--- a/opensfm/io.py
+++ b/opensfm/io.py
@@ -1519,7 +1519,8 @@ class IoFilesystemDefault(IoFilesystemBase):
 
     @classmethod
     def symlink(cls, src_path: str, dst_path: str, **kwargs: Any) -> None:
-        os.symlink(src_path, dst_path, **kwargs)
+        # The target of a link is relative to the folder of the link
+        os.symlink(os.path.abspath(src_path), dst_path, **kwargs)
 
     @classmethod
     def open_wb(cls, path: str) -> BinaryIO:
-- 
2.43.0


From ecde9dc876809f3f2cc8e0d5803ed7fd79cb9036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:30 +0000
Subject: [PATCH 018/129] fix: making a subset of a dataset failed because its
 images are not there yet

---
 opensfm/dataset.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/opensfm/dataset.py b/opensfm/dataset.py
index a0b5248..fc1deb3 100644
--- a/opensfm/dataset.py
+++ b/opensfm/dataset.py
@@ -663,7 +663,6 @@ class DataSet(DataSetBase):
         folders = ["images", "segmentations", "masks"]
         for folder in folders:
             self.io_handler.mkdir_p(os.path.join(subset_dataset_path, folder))
-        subset_dataset = DataSet(subset_dataset_path, self.io_handler)
 
         files = []
         for method in [
@@ -672,11 +671,9 @@ class DataSet(DataSetBase):
             "_camera_models_overrides_file",
             "_exif_overrides_file",
         ]:
+            src = getattr(self, method)()
             files.append(
-                (
-                    getattr(self, method)(),
-                    getattr(subset_dataset, method)(),
-                )
+                (src, os.path.join(subset_dataset_path, os.path.basename(src)))
             )
         for image in images_subset:
             files.append(
-- 
2.43.0


From 81730052b8f4ee818cc4624c95232143be366ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:35 +0000
Subject: [PATCH 019/129] fix: robust triangulation never tried the last pair
 of observations

---
 opensfm/reconstruction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opensfm/reconstruction.py b/opensfm/reconstruction.py
index 81d00f0..4e0629e 100644
--- a/opensfm/reconstruction.py
+++ b/opensfm/reconstruction.py
@@ -952,8 +952,8 @@ class TrackTriangulator:
 
         thresholds = len(os) * [reproj_threshold]
         min_ray_angle_radians = np.radians(min_ray_angle_degrees)
-        for i in range(ransac_tries):
-            random_id = int(np.random.rand() * (len(all_combinations) - 1))
+        for tries in range(ransac_tries):
+            random_id = int(np.random.rand() * len(all_combinations))
             if random_id in combinatiom_tried:
                 continue
 
@@ -1020,7 +1020,7 @@ class TrackTriangulator:
                     optimal_iter = math.log(1.0 - pout) / math.log(
                         1.0 - inliers_ratio * inliers_ratio
                     )
-                    if optimal_iter <= i:
+                    if optimal_iter <= tries:
                         break
 
         if len(best_inliers) > 1:
-- 
2.43.0


From c21ac0ea492090ceca5002b31087ce7cab00c5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:35 +0000
Subject: [PATCH 020/129] fix: DLT triangulation refined points with bearings
 in camera coordinates

---
 opensfm/reconstruction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/reconstruction.py b/opensfm/reconstruction.py
index 4e0629e..6e73b3c 100644
--- a/opensfm/reconstruction.py
+++ b/opensfm/reconstruction.py
@@ -1102,11 +1102,12 @@ class TrackTriangulator:
                 min_depth,
             )
             if e:
+                world_bs = [Rt[:, :3].T.dot(b) for Rt, b in zip(Rts, bs)]
                 X = pygeometry.point_refinement(
                     # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
                     np.array(os),
                     # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
-                    np.array(bs),
+                    np.array(world_bs),
                     # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
                     X,
                     iterations,
-- 
2.43.0


From c9f004aa49b32d26044494afbc8e2be4200b1a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:44 +0000
Subject: [PATCH 021/129] fix: relative poses of rig cameras depended on the
 orientation of the rig in the world

---
 opensfm/rig.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/opensfm/rig.py b/opensfm/rig.py
index 0c90d50..de4dca1 100644
--- a/opensfm/rig.py
+++ b/opensfm/rig.py
@@ -212,16 +212,16 @@ def compute_relative_pose(
 ) -> Dict[str, pymap.RigCamera]:
     """Compute a rig model relatives poses given poses grouped by rig instance."""
 
-    # Put all poses instances into some canonical frame taken as the mean of their R|t
+    # Put all poses instances into some canonical frame : the mean of their origins
+    # and the rotation of the same RigCamera in all of them (a mean of their
+    # rotations would depend on the orientation of the instance in the world)
     centered_pose_instances = []
     for instance in pose_instances:
         origin_center = np.zeros(3)
-        rotation_center = np.zeros(3)
         for shot, _ in instance:
-            rotation_center += shot.pose.rotation
             origin_center += shot.pose.get_origin()
         origin_center /= len(instance)
-        rotation_center /= len(instance)
+        rotation_center = min(instance, key=lambda x: x[1])[0].pose.rotation
 
         centered_pose_instance = []
         for shot, rig_camera_id in instance:
@@ -243,10 +243,10 @@ def compute_relative_pose(
         for pose, rig_camera_id, camera_id in centered_pose_instance:
             if rig_camera_id not in average_origin:
                 average_origin[rig_camera_id] = np.zeros(3)
-                average_rotation[rig_camera_id] = np.zeros(3)
+                average_rotation[rig_camera_id] = []
                 count_poses[rig_camera_id] = 0
             average_origin[rig_camera_id] += pose.get_origin()
-            average_rotation[rig_camera_id] += pose.rotation
+            average_rotation[rig_camera_id].append(pose.rotation)
             camera_ids[rig_camera_id] = camera_id
             count_poses[rig_camera_id] += 1
 
@@ -254,7 +254,8 @@ def compute_relative_pose(
     rig_cameras: Dict[str, pymap.RigCamera] = {}
     for rig_camera_id, count in count_poses.items():
         o = average_origin[rig_camera_id] / count
-        r = average_rotation[rig_camera_id] / count
+        r = spatial.transform.Rotation.from_rotvec(average_rotation[rig_camera_id])
+        r = r.mean().as_rotvec()
         pose = pygeometry.Pose(r)
         pose.set_origin(o)
         rig_cameras[rig_camera_id] = pymap.RigCamera(pose, rig_camera_id)
-- 
2.43.0


From 08cd8d04d9627fabddf4a8918e91aaaf1b39293c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:15 +0000
Subject: [PATCH 022/129] fix: clustering a dataset of a single image

---
 opensfm/large/tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opensfm/large/tools.py b/opensfm/large/tools.py
index 5dc3f2b..e8e8d5c 100644
--- a/opensfm/large/tools.py
+++ b/opensfm/large/tools.py
@@ -40,6 +40,9 @@ def kmeans(
     criteria = (cv2.TERM_CRITERIA_MAX_ITER, max_iter, 1.0)
     flags = cv2.KMEANS_PP_CENTERS
 
+    # OpenCV takes a single row for as many samples as it has columns
+    samples = samples.reshape(samples.shape[0], 1, -1)
+
     if context.OPENCV3:
         return cv2.kmeans(samples, nclusters, None, criteria, attempts, flags)
     else:
-- 
2.43.0


From 4c0e4647f85c47cfddab933917c8efb316b5ce07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:19 +0000
Subject: [PATCH 023/129] fix: OPK angles from yaw, pitch and roll are relative
 to east, north and up

---
 opensfm/exif.py | 34 +++-------------------------------
 1 file changed, 3 insertions(+), 31 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 9ec9c74..25ff825 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -10,7 +10,6 @@ import numpy as np
 import xmltodict as x2d
 from opensfm import pygeometry
 from opensfm.dataset_base import DataSetBase
-from opensfm.geo import ecef_from_lla
 from opensfm.sensors import camera_calibration, sensor_data
 
 logger: logging.Logger = logging.getLogger(__name__)
@@ -565,36 +564,9 @@ class EXIF:
                 # (Swap X/Y, flip Z)
                 cbb = np.array([[0, 1, 0], [1, 0, 0], [0, 0, -1]])
 
-                delta = 1e-7
-
-                p1 = np.array(
-                    ecef_from_lla(
-                        geo["latitude"] + delta,
-                        geo["longitude"],
-                        geo.get("altitude", 0),
-                    )
-                )
-                p2 = np.array(
-                    ecef_from_lla(
-                        geo["latitude"] - delta,
-                        geo["longitude"],
-                        geo.get("altitude", 0),
-                    )
-                )
-                xnp = p1 - p2
-                m = np.linalg.norm(xnp)
-
-                if m == 0:
-                    logger.debug("Cannot compute OPK angles, divider = 0")
-                    return opk
-
-                # Unit vector pointing north
-                xnp /= m
-
-                znp = np.array([0, 0, -1]).T
-                ynp = np.cross(znp, xnp)
-
-                cen = np.array([xnp, ynp, znp]).T
+                # Unit vectors pointing north, east and down in the (east, north,
+                # up) coordinates that OPK angles are relative to
+                cen = np.array([[0, 1, 0], [1, 0, 0], [0, 0, -1]])
 
                 # OPK rotation matrix
                 ceb = cen.dot(cnb).dot(cbb)
-- 
2.43.0


From dfad47d098d61a19a4b4af1915bf7c7040b63c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:41 +0000
Subject: [PATCH 024/129] fix: time zone offsets of capture times were ignored
 with current exifread versions

---
 opensfm/exif.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 25ff825..048a3e3 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -427,11 +427,23 @@ class EXIF:
                 )
 
         time_strings = [
-            ("EXIF DateTimeOriginal", "EXIF SubSecTimeOriginal", "EXIF Tag 0x9011"),
-            ("EXIF DateTimeDigitized", "EXIF SubSecTimeDigitized", "EXIF Tag 0x9012"),
-            ("Image DateTime", "Image SubSecTime", "Image Tag 0x9010"),
+            (
+                "EXIF DateTimeOriginal",
+                "EXIF SubSecTimeOriginal",
+                ("EXIF OffsetTimeOriginal", "EXIF Tag 0x9011"),
+            ),
+            (
+                "EXIF DateTimeDigitized",
+                "EXIF SubSecTimeDigitized",
+                ("EXIF OffsetTimeDigitized", "EXIF Tag 0x9012"),
+            ),
+            (
+                "Image DateTime",
+                "Image SubSecTime",
+                ("EXIF OffsetTime", "Image Tag 0x9010"),
+            ),
         ]
-        for datetime_tag, subsec_tag, offset_tag in time_strings:
+        for datetime_tag, subsec_tag, offset_tags in time_strings:
             if datetime_tag in self.tags:
                 date_time = self.tags[datetime_tag].values
                 if subsec_tag in self.tags:
@@ -450,7 +462,8 @@ class EXIF:
                     )
                     continue
                 # Test for OffsetTimeOriginal | OffsetTimeDigitized | OffsetTime
-                if offset_tag in self.tags:
+                offset_tag = next((t for t in offset_tags if t in self.tags), None)
+                if offset_tag is not None:
                     offset_time = self.tags[offset_tag].values
                     try:
                         d += datetime.timedelta(
-- 
2.43.0


From 4e274accac9c8ada3a50fc9577a5d7e4064e1230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:41 +0000
Subject: [PATCH 025/129] fix: minutes of positive time zone offsets were added
 instead of subtracted

---
 opensfm/exif.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 048a3e3..bd5116c 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -466,8 +466,10 @@ class EXIF:
                 if offset_tag is not None:
                     offset_time = self.tags[offset_tag].values
                     try:
-                        d += datetime.timedelta(
-                            hours=-int(offset_time[0:3]), minutes=int(offset_time[4:6])
+                        sign = -1 if offset_time[0:1] == "-" else 1
+                        d -= sign * datetime.timedelta(
+                            hours=abs(int(offset_time[0:3])),
+                            minutes=int(offset_time[4:6]),
                         )
                     except (TypeError, ValueError):
                         logger.debug(
-- 
2.43.0


From e27ad55746e8d840d35b7d0d4632a29d1ecec728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:41 +0000
Subject: [PATCH 026/129] fix: the projection type of an image leaked into the
 calibration database

---
 opensfm/exif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index bd5116c..a1aa6a5 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -724,7 +724,8 @@ def calibration_from_metadata(
             or default_calibration(data)
         )
     if "projection_type" not in calib:
-        calib["projection_type"] = pt
+        # The calibration may be the one of the database: leave it as it is
+        calib = {**calib, "projection_type": pt}
     return calib
 
 
-- 
2.43.0


From aa2fc7a1d8bd5f7bd50a4b7cabc4cb5e0a02ef6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:41 +0000
Subject: [PATCH 027/129] fix: calibrations per focal length were ignored for
 makes that have some per model

---
 opensfm/exif.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index a1aa6a5..4d4e30f 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -631,15 +631,9 @@ def hard_coded_calibration(exif: Dict[str, Any]) -> Optional[Dict[str, Any]]:
     models = raw_calibrations[make]
     if "ALL" in models:
         return models["ALL"]
-    if "MODEL" in models:
-        if model not in models["MODEL"]:
-            return None
+    if model in models.get("MODEL", {}):
         return models["MODEL"][model]
-    if "FOCAL" in models:
-        if fmm35 not in models["FOCAL"]:
-            return None
-        return models["FOCAL"][fmm35]
-    return None
+    return models.get("FOCAL", {}).get(fmm35)
 
 
 def focal_ratio_calibration(exif: Dict[str, Any]) -> Optional[Dict[str, Any]]:
-- 
2.43.0


From 6576795b1f75be335451f59fba9322e91cdf5b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:41 +0000
Subject: [PATCH 028/129] fix: the calibration of the Parrot Bebop 2 was never
 found

---
 opensfm/data/camera_calibration.yaml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/data/camera_calibration.yaml b/opensfm/data/camera_calibration.yaml
index 934394d..ceca2f7 100644
--- a/opensfm/data/camera_calibration.yaml
+++ b/opensfm/data/camera_calibration.yaml
@@ -56,9 +56,9 @@
             "hdr-as300": {"focal": 0.3958, "k1": -0.1496, "k2": 0.0201}
         }
     },
-    "PARROT":{
+    "parrot":{
         "MODEL":{
-            "Bebop 2": {"focal": 0.36666666666666666, "projection_type": "fisheye"}
+            "bebop 2": {"focal": 0.36666666666666666, "k1": 0.0, "k2": 0.0, "projection_type": "fisheye"}
         }
     },
     "dji":{
-- 
2.43.0


From be2ba540b10c814605737c559892d928155bf34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:08 +0000
Subject: [PATCH 029/129] fix: calibrations of the database with a single focal
 failed for projections with two

---
 opensfm/exif.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 4d4e30f..0dfb1e3 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -711,6 +711,15 @@ def calibration_from_metadata(
             or focal_xy_calibration(metadata)
             or default_calibration(data)
         )
+        if "focal_x" not in calib:
+            # A calibration of the database with a single focal
+            focal = calib["focal"]
+            calib = {
+                **default_calibration(data),
+                **calib,
+                "focal_x": focal,
+                "focal_y": focal,
+            }
     else:
         calib = (
             hard_coded_calibration(metadata)
-- 
2.43.0


From 38d3e92e9e6cd97ffd2efc084064c29d27f1a2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:08 +0000
Subject: [PATCH 030/129] fix: cameras of type dual could not be created from
 metadata

---
 opensfm/exif.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 0dfb1e3..4bd6e14 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -837,7 +837,11 @@ def camera_from_exif_metadata(
         )
     elif calib_pt == "dual":
         camera = pygeometry.Camera.create_dual(
-            calib["transition"], calib["focal"], calib["k1"], calib["k2"]
+            # Half way between perspective and fisheye when it is unknown
+            calib.get("transition", 0.5),
+            calib["focal"],
+            calib["k1"],
+            calib["k2"],
         )
     elif pygeometry.Camera.is_panorama(calib_pt):
         camera = pygeometry.Camera.create_spherical()
-- 
2.43.0


From 98959981d28288a144074887fc7eaad64daafd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 031/129] fix: EXIF overrides were ignored when metadata is
 extracted again

---
 opensfm/actions/extract_metadata.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/opensfm/actions/extract_metadata.py b/opensfm/actions/extract_metadata.py
index 2ed770b..6b60b27 100644
--- a/opensfm/actions/extract_metadata.py
+++ b/opensfm/actions/extract_metadata.py
@@ -27,10 +27,12 @@ def run_dataset(data: DataSetBase) -> None:
         else:
             logging.info("Extracting EXIF for {}".format(image))
             d = _extract_exif(image, data)
+            if image not in exif_overrides:
+                data.save_exif(image, d)
 
-            if image in exif_overrides:
-                d.update(exif_overrides[image])
-
+        # Overrides also apply to the EXIF of a previous run
+        if image in exif_overrides:
+            d.update(exif_overrides[image])
             data.save_exif(image, d)
 
         if d["camera"] not in camera_models:
-- 
2.43.0


From c5c2f4351935e21a9fc25750d888c33d97bb961e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 032/129] fix: an EXIF latitude without longitude made the
 extraction fail

---
 opensfm/exif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 4bd6e14..6604892 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -347,7 +347,7 @@ class EXIF:
     def extract_lon_lat(self) -> Tuple[Optional[float], Optional[float]]:
         if self.has_dji_latlon():
             lon, lat = self.extract_dji_lon_lat()
-        elif "GPS GPSLatitude" in self.tags:
+        elif "GPS GPSLatitude" in self.tags and "GPS GPSLongitude" in self.tags:
             reflon, reflat = self.extract_ref_lon_lat()
             lat = gps_to_decimal(self.tags["GPS GPSLatitude"].values, reflat)
             lon = gps_to_decimal(self.tags["GPS GPSLongitude"].values, reflon)
-- 
2.43.0


From dc3dae65e7241d4218f62f4ce73f048aad37fa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:30 +0000
Subject: [PATCH 033/129] fix: the GPano projection type given as an XMP
 attribute was ignored

---
 opensfm/exif.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 6604892..d6837c9 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -242,7 +242,10 @@ class EXIF:
 
     def extract_projection_type(self) -> str:
         gpano = get_gpano_from_xmp(self.xmp)
-        return gpano.get("GPano:ProjectionType", "perspective")
+        # XMP properties are either elements or attributes
+        return gpano.get(
+            "GPano:ProjectionType", gpano.get("@GPano:ProjectionType", "perspective")
+        )
 
     def extract_focal(self) -> Tuple[float, float]:
         make, model = self.extract_make(), self.extract_model()
-- 
2.43.0


From edec7cd47e656c3855e87606b8157efc9abe48ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:12 +0000
Subject: [PATCH 034/129] fix: the annotation tool could not load ground
 control points without measured_at

The documented ground_control_points.json has no measured_at, and the tool
stopped with a KeyError when it loaded one.
---
 annotation_gui_gcp/lib/gcp_manager.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/annotation_gui_gcp/lib/gcp_manager.py b/annotation_gui_gcp/lib/gcp_manager.py
index efd9603..ddba7b3 100644
--- a/annotation_gui_gcp/lib/gcp_manager.py
+++ b/annotation_gui_gcp/lib/gcp_manager.py
@@ -70,7 +70,7 @@ class GeodeticMeasurement:
     longitude: float
     latitude: float
     horizontal_std: float  # Standard deviation (m), horizontal.
-    measured_at: int  # Unix time
+    measured_at: int | None = None  # Unix time
     altitude: float | None = None
     vertical_std: float | None = None  # Standard deviation (m), vertical.
 
@@ -79,8 +79,9 @@ class GeodeticMeasurement:
             "latitude": self.latitude,
             "longitude": self.longitude,
             "horizontal_std": self.horizontal_std,
-            "measured_at": self.measured_at,
         }
+        if self.measured_at is not None:
+            d["measured_at"] = self.measured_at
         if self.altitude is not None:
             d["altitude"] = self.altitude
         if self.vertical_std is not None:
@@ -93,7 +94,7 @@ class GeodeticMeasurement:
             longitude=d["longitude"],
             latitude=d["latitude"],
             horizontal_std=d["horizontal_std"],
-            measured_at=d["measured_at"],
+            measured_at=d.get("measured_at"),
             altitude=d.get("altitude"),
             vertical_std=d.get("vertical_std"),
         )
@@ -209,7 +210,7 @@ class GroundControlPointManager:
                 point.geodetic_measurement = GeodeticMeasurement(
                     longitude=geo["longitude"],
                     latitude=geo["latitude"],
-                    measured_at=geo["measured_at"],
+                    measured_at=geo.get("measured_at"),
                     altitude=geo.get("altitude"),
                     horizontal_std=geo.get("horizontal_std", 100),
                     vertical_std=geo.get("vertical_std"),
@@ -284,8 +285,8 @@ class GroundControlPointManager:
         point = self.points[point_id]
         assert self.get_observation(point_id, shot_id) is None
         if geo:
-            mtime = geo["measured_at"]
-            assert isinstance(mtime, int), (
+            mtime = geo.get("measured_at")
+            assert mtime is None or isinstance(mtime, int), (
                 "Measurement time should be integer (unix time)"
             )
             point.geodetic_measurement = GeodeticMeasurement(
-- 
2.43.0


From e2cb623255cde8e65d100c9187e74da3ca6fd313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:12 +0000
Subject: [PATCH 035/129] fix: the annotation tool did not start without
 ground_control_points.json

The file is loaded upon launch only if there is one.  Loading a file without
the selected point also left that point selected, and annotating it failed.
---
 annotation_gui_gcp/lib/GUI.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/annotation_gui_gcp/lib/GUI.py b/annotation_gui_gcp/lib/GUI.py
index cfea5dc..d3c7786 100644
--- a/annotation_gui_gcp/lib/GUI.py
+++ b/annotation_gui_gcp/lib/GUI.py
@@ -160,7 +160,13 @@ class Gui:
                     self.shot_std[shot] = float(std)
 
     def load_gcps(self, filename: str | None = None) -> None:
+        p_gcps = filename or self.path + "/ground_control_points.json"
+        if not os.path.isfile(p_gcps):
+            print(f"There is no {p_gcps} to load")
+            return
         self.gcp_manager.load_from_file(filename)
+        if self.curr_point and not self.gcp_manager.point_exists(self.curr_point):
+            self.curr_point = None
         for view in self.sequence_views + self.cad_views:
             view.display_points()
             view.populate_image_list()
-- 
2.43.0


From cc3b5e5e5b19ac0532d4537f55687af8b02e6019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:12 +0000
Subject: [PATCH 036/129] fix: the control point list offered indices instead
 of point ids

The server sends the points as a list, so that selecting a point activated
the one whose id happens to be its position, or none at all.
---
 annotation_gui_gcp/js/ToolsView.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/annotation_gui_gcp/js/ToolsView.js b/annotation_gui_gcp/js/ToolsView.js
index a7d7a7f..ece6b5b 100644
--- a/annotation_gui_gcp/js/ToolsView.js
+++ b/annotation_gui_gcp/js/ToolsView.js
@@ -13,7 +13,8 @@ function populatePointsList(points) {
         pointListBox.remove(i);
     }
 
-    for (let point_id in points) {
+    for (const point of points) {
+        const point_id = point["id"];
         const opt = document.createElement("option");
         opt.text = "Point " + point_id;
         opt.value = point_id;
-- 
2.43.0


From 05c9c591b4469527150e0239620037b62ecb2788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:05 +0000
Subject: [PATCH 037/129] fix: the viewer and the annotation tool sent files
 from outside of the dataset

A request with .. in its path read any file of the machine, and requests to a
viewer without dataset or for a missing image failed instead of giving 404.
---
 annotation_gui_gcp/lib/image_manager.py |  8 ++++++--
 viewer/server.py                        | 15 +++++++--------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/annotation_gui_gcp/lib/image_manager.py b/annotation_gui_gcp/lib/image_manager.py
index a4271cb..927c2b1 100644
--- a/annotation_gui_gcp/lib/image_manager.py
+++ b/annotation_gui_gcp/lib/image_manager.py
@@ -1,10 +1,12 @@
 # pyre-strict
+import os
 from io import BytesIO
 
-from flask import Response, send_file
+from flask import abort, Response, send_file
 from magic import Magic
 from opensfm import dataset
 from PIL import Image
+from werkzeug.utils import safe_join
 
 
 class ImageManager:
@@ -13,7 +15,9 @@ class ImageManager:
         self.path = path
 
     def get_image(self, image_name: str, max_sz: int = 0) -> Response:
-        path_image = f"{self.path}/images/{image_name}"
+        path_image = safe_join(os.path.abspath(self.path), "images", image_name)
+        if path_image is None or not os.path.isfile(path_image):
+            abort(404)
 
         # Downsample before sending if max_sz
         if max_sz > 0:
diff --git a/viewer/server.py b/viewer/server.py
index c863bec..c627f24 100644
--- a/viewer/server.py
+++ b/viewer/server.py
@@ -4,6 +4,7 @@ import os
 from typing import List
 
 from flask import abort, Flask, jsonify, Response, send_file
+from werkzeug.utils import safe_join
 
 
 app = Flask(__name__, static_folder="./", static_url_path="")
@@ -43,16 +44,12 @@ def get_recs() -> Response:
 
 @app.route("/data/<path:subpath>")
 def get_data(subpath) -> Response:
-    # pyrefly: ignore [no-matching-overload]
-    path = os.path.join(datapath, subpath)
-    return verified_send(path)
+    return verified_send(subpath)
 
 
 @app.route("/image/<shot_id>")
 def get_image(shot_id) -> Response:
-    # pyrefly: ignore [no-matching-overload]
-    path = os.path.join(datapath, IMAGES, shot_id)
-    return verified_send(path)
+    return verified_send(IMAGES, shot_id)
 
 
 def json_files(path) -> List[str]:
@@ -81,8 +78,10 @@ def reconstruction_files(path) -> List[str]:
     return sorted(filter(probably_reconstruction, files))
 
 
-def verified_send(file) -> Response:
-    if os.path.isfile(file):
+def verified_send(*parts) -> Response:
+    """Send a file of the dataset, and nothing outside of it."""
+    file = safe_join(datapath, *parts) if datapath is not None else None
+    if file is not None and os.path.isfile(file):
         return send_file(file)
     else:
         abort(404)
-- 
2.43.0


From d96cc362fede316bfaa56ee88f1a6d7936d5b26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:05 +0000
Subject: [PATCH 038/129] fix: the annotation tool could not show images with
 transparency or palette

---
 annotation_gui_gcp/lib/image_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/annotation_gui_gcp/lib/image_manager.py b/annotation_gui_gcp/lib/image_manager.py
index 927c2b1..e9f53f6 100644
--- a/annotation_gui_gcp/lib/image_manager.py
+++ b/annotation_gui_gcp/lib/image_manager.py
@@ -22,6 +22,8 @@ class ImageManager:
         # Downsample before sending if max_sz
         if max_sz > 0:
             im = Image.open(path_image)
+            if im.mode not in ("L", "RGB"):
+                im = im.convert("RGB")  # JPEG has no transparency or palette
             im.thumbnail((max_sz, max_sz))
 
             im_bytes = BytesIO()
-- 
2.43.0


From ca345bd64ac31d4289d9124fd5e3c623e0d351df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:43 +0000
Subject: [PATCH 039/129] fix: tracks were interpolated the wrong way across
 the antimeridian

A point between longitudes 179.9 and -179.9 was placed near longitude 0, and
tracks without elevations could not be sampled.
---
 opensfm/geotag_from_gpx.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/opensfm/geotag_from_gpx.py b/opensfm/geotag_from_gpx.py
index b68fd1d..375cabc 100644
--- a/opensfm/geotag_from_gpx.py
+++ b/opensfm/geotag_from_gpx.py
@@ -119,6 +119,12 @@ def compute_bearing(
     return bearing
 
 
+def interpolate_lon(a: float, b: float, alpha: float) -> float:
+    """Interpolate longitudes the short way, also across the antimeridian."""
+    delta = (b - a + 180.0) % 360.0 - 180.0
+    return (a + alpha * delta + 180.0) % 360.0 - 180.0
+
+
 def interpolate_lat_lon(
     points: list[tuple[datetime.datetime, float, float, float]],
     t: datetime.datetime,
@@ -150,11 +156,11 @@ def interpolate_lat_lon(
 
     # simple linear interpolation
     lat = (before[1] * dt_after + after[1] * dt_before) / (dt_before + dt_after)
-    lon = (before[2] * dt_after + after[2] * dt_before) / (dt_before + dt_after)
+    lon = interpolate_lon(before[2], after[2], dt_before / (dt_before + dt_after))
 
     bearing = compute_bearing(before[1], before[2], after[1], after[2])
 
-    if before[3] is not None:
+    if before[3] is not None and after[3] is not None:
         ele = (before[3] * dt_after + after[3] * dt_before) / (dt_before + dt_after)
     else:
         ele = None
@@ -189,7 +195,9 @@ def gpx_lerp(
     dt = alpha * (b[0] - a[0]).total_seconds()
     t = a[0] + datetime.timedelta(seconds=dt)
     lat = (1 - alpha) * a[1] + alpha * b[1]
-    lon = (1 - alpha) * a[2] + alpha * b[2]
+    lon = interpolate_lon(a[2], b[2], alpha)
+    if a[3] is None or b[3] is None:
+        return t, lat, lon, None
     alt = (1 - alpha) * a[3] + alpha * b[3]
     return t, lat, lon, alt
 
-- 
2.43.0


From 787b9d05f7f6757e740650d0accea6f86e8b64aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:31 +0000
Subject: [PATCH 040/129] fix: the covered area was measured from the origin
 when all cameras are on one side of it

---
 opensfm/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/stats.py b/opensfm/stats.py
index c2695d2..f46e9d9 100644
--- a/opensfm/stats.py
+++ b/opensfm/stats.py
@@ -326,7 +326,7 @@ def processing_statistics(
         stats["date"] = "unknown"
 
     default_max = 1e30
-    min_x, min_y, max_x, max_y = default_max, default_max, 0, 0
+    min_x, min_y, max_x, max_y = default_max, default_max, -default_max, -default_max
     for rec in reconstructions:
         for shot in rec.shots.values():
             o = shot.pose.get_origin()
-- 
2.43.0


From 53e8fe2c7ab9ce669924c29dd47ccf49770120be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:31 +0000
Subject: [PATCH 041/129] fix: the average length of tracks over two left out
 the shortest length whatever it was

---
 opensfm/stats.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opensfm/stats.py b/opensfm/stats.py
index f46e9d9..2de8813 100644
--- a/opensfm/stats.py
+++ b/opensfm/stats.py
@@ -237,7 +237,8 @@ def reconstruction_statistics(
     )
 
     points_count = stats["reconstructed_points_count"]
-    points_count_over_two = sum(counts[1:])
+    over_two = lengths > 2
+    points_count_over_two = int(sum(counts[over_two]))
     stats["observations_count"] = int(sum(lengths * counts))
     stats["average_track_length"] = (
         # pyrefly: ignore [unsupported-operation]
@@ -245,7 +246,7 @@ def reconstruction_statistics(
     )
     stats["average_track_length_over_two"] = (
         # pyrefly: ignore [unsupported-operation]
-        (int(sum(lengths[1:] * counts[1:])) / points_count_over_two)
+        (int(sum(lengths[over_two] * counts[over_two])) / points_count_over_two)
         if points_count_over_two > 0
         else -1
     )
-- 
2.43.0


From 8b93df023f6ecfd8d655a7aef66244215bb5aefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:31 +0000
Subject: [PATCH 042/129] fix: feature heatmaps and residual grids were made
 for the cameras of the last reconstruction only

---
 opensfm/stats.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/opensfm/stats.py b/opensfm/stats.py
index 2de8813..35d5e6c 100644
--- a/opensfm/stats.py
+++ b/opensfm/stats.py
@@ -834,7 +834,7 @@ def save_heatmap(
             all_projections[shot.camera.id] += shots_projections
 
     for camera_id, projections in all_projections.items():
-        buckets_x, buckets_y = _heatmap_buckets(rec.cameras[camera_id])
+        buckets_x, buckets_y = _heatmap_buckets(all_cameras[camera_id])
         camera_heatmap = np.zeros((buckets_y, buckets_x))
         for x, y in projections:
             k_low_x, k_low_y = -min(x - splatting, 0), -min(y - splatting, 0)
@@ -877,16 +877,16 @@ def save_heatmap(
             fontsize="x-small",
         )
 
-    with io_handler.open_wb(
-        os.path.join(
-            output_path, "heatmap_" + str(camera_id.replace("/", "_")) + ".png"
-        )
-    ) as fwb:
-        plt.savefig(
-            fwb,
-            dpi=300,
-            bbox_inches="tight",
-        )
+        with io_handler.open_wb(
+            os.path.join(
+                output_path, "heatmap_" + str(camera_id.replace("/", "_")) + ".png"
+            )
+        ) as fwb:
+            plt.savefig(
+                fwb,
+                dpi=300,
+                bbox_inches="tight",
+            )
 
 
 def save_residual_grids(
@@ -899,9 +899,11 @@ def save_residual_grids(
     all_errors = {}
 
     scaling = 4
+    all_cameras = {}
     for rec in reconstructions:
-        for camera_id in rec.cameras:
-            all_errors[camera_id] = []
+        for camera in rec.cameras.values():
+            all_errors[camera.id] = []
+            all_cameras[camera.id] = camera
 
     for i in range(len(reconstructions)):
         valid_observations = _get_valid_observations(reconstructions, tracks_manager)(i)
@@ -942,14 +944,14 @@ def save_residual_grids(
     for camera_id, errors in all_errors.items():
         if not errors:
             continue
-        buckets_x, buckets_y = _grid_buckets(rec.cameras[camera_id])
+        buckets_x, buckets_y = _grid_buckets(all_cameras[camera_id])
         camera_array_res = np.zeros((buckets_y, buckets_x, 2))
         camera_array_count = np.full((buckets_y, buckets_x, 1), 1)
         for x, y, e in errors:
             camera_array_res[y, x] += e
             camera_array_count[y, x, 0] += 1
         camera_array_res = np.divide(camera_array_res, camera_array_count)
-        camera = rec.get_camera(camera_id)
+        camera = all_cameras[camera_id]
         w, h = camera.width, camera.height
         normalizer = max(w, h)
 
-- 
2.43.0


From 83d9e6c6ca89ba7fa48d6007842adf301e080569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:45 +0000
Subject: [PATCH 043/129] fix: the angular error of an exact observation could
 be NaN

---
 opensfm/src/map/src/map.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/map/src/map.cc b/opensfm/src/map/src/map.cc
index b31574d..5d745ed 100644
--- a/opensfm/src/map/src/map.cc
+++ b/opensfm/src/map/src/map.cc
@@ -5,6 +5,7 @@
 #include <map/rig.h>
 #include <map/shot.h>
 
+#include <algorithm>
 #include <cmath>
 #include <memory>
 #include <stdexcept>
@@ -552,7 +553,8 @@ Map::ComputeReprojectionErrors(const TracksManager& tracks_manager,
             (find_landmark->second.GetGlobalPos() - shot.GetPose()->GetOrigin())
                 .normalized();
         const Vec3d bearing = shot.Bearing(obs.point).normalized();
-        const double angle = std::acos(point.dot(bearing));
+        const double angle =
+            std::acos(std::min(1.0, std::max(-1.0, point.dot(bearing))));
         per_shot[track_id] = Vec2d::Constant(angle);
       }
     }
-- 
2.43.0


From e49d0a5be80cc38e423b4b2c80e74d86a9b5720f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:45 +0000
Subject: [PATCH 044/129] fix: residual grids divided the sum of the errors of
 a cell by one too many

---
 opensfm/stats.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opensfm/stats.py b/opensfm/stats.py
index 35d5e6c..948e7e5 100644
--- a/opensfm/stats.py
+++ b/opensfm/stats.py
@@ -946,11 +946,13 @@ def save_residual_grids(
             continue
         buckets_x, buckets_y = _grid_buckets(all_cameras[camera_id])
         camera_array_res = np.zeros((buckets_y, buckets_x, 2))
-        camera_array_count = np.full((buckets_y, buckets_x, 1), 1)
+        camera_array_count = np.zeros((buckets_y, buckets_x, 1))
         for x, y, e in errors:
             camera_array_res[y, x] += e
             camera_array_count[y, x, 0] += 1
-        camera_array_res = np.divide(camera_array_res, camera_array_count)
+        camera_array_res = np.divide(
+            camera_array_res, np.maximum(camera_array_count, 1)
+        )
         camera = all_cameras[camera_id]
         w, h = camera.width, camera.height
         normalizer = max(w, h)
-- 
2.43.0


From b83498b3ef3244194fb36415447819b029409345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:13 +0000
Subject: [PATCH 045/129] fix: statistics failed without connected images or
 without reconstruction

---
 opensfm/stats.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/opensfm/stats.py b/opensfm/stats.py
index 948e7e5..3645aa3 100644
--- a/opensfm/stats.py
+++ b/opensfm/stats.py
@@ -516,9 +516,9 @@ def save_matchgraph(
             shot_component[shot] = i
 
     connectivity = tracks_manager.get_all_pairs_connectivity(all_shots, all_points)
-    all_values = connectivity.values()
-    lowest = np.percentile(list(all_values), 5)
-    highest = np.percentile(list(all_values), 95)
+    all_values = list(connectivity.values()) or [0]
+    lowest = np.percentile(all_values, 5)
+    highest = np.percentile(all_values, 95)
 
     plt.clf()
     # pyre-fixme[16]: opensfm pybind / numpy stubs gap — runtime ok.
@@ -659,6 +659,9 @@ def save_topview(
             all_x.append(gps[0])
             all_y.append(gps[1])
 
+    if not all_x:
+        return
+
     # compute camera's XY bounding box
     low_x, high_x = np.min(all_x), np.max(all_x)
     low_y, high_y = np.min(all_y), np.max(all_y)
-- 
2.43.0


From 5b588c94f9cbb82adcd5c913c048f792bcc08e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:01 +0000
Subject: [PATCH 046/129] fix: the report failed for statistics without tracks
 or cameras

---
 opensfm/report.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/opensfm/report.py b/opensfm/report.py
index 8cc9789..81afed4 100644
--- a/opensfm/report.py
+++ b/opensfm/report.py
@@ -208,6 +208,7 @@ class Report:
             geo_string.append("GCP")
 
         ratio_shots = rec_shots / init_shots * 100 if init_shots > 0 else -1
+        ratio_points = rec_points / init_points * 100 if init_points > 0 else -1
         rows = [
             [
                 "Reconstructed Images",
@@ -215,7 +216,7 @@ class Report:
             ],
             [
                 "Reconstructed Points",
-                f"{rec_points} over {init_points} points ({rec_points / init_points * 100:.1f}%)",
+                f"{rec_points} over {init_points} points ({ratio_points:.1f}%)",
             ],
             [
                 "Reconstructed Components",
@@ -248,9 +249,10 @@ class Report:
         topview_grids = [
             f for f in self.io_handler.ls(self.output_path) if f.startswith("topview")
         ]
-        self._make_centered_image(
-            os.path.join(self.output_path, topview_grids[0]), topview_height
-        )
+        if topview_grids:
+            self._make_centered_image(
+                os.path.join(self.output_path, topview_grids[0]), topview_height
+            )
 
         self.pdf.set_xy(self.margin, self.pdf.get_y() + self.margin)
 
@@ -310,7 +312,8 @@ class Report:
                     f"{R[0]:.2f}      {R[1]:.2f}      {R[2]:.2f}",
                 ]
             )
-        self._make_table(columns_names, rows)
+        if rows:
+            self._make_table(columns_names, rows)
 
         self.pdf.set_xy(self.margin, self.pdf.get_y() + self.margin / 2)
 
@@ -321,9 +324,10 @@ class Report:
         heatmaps = [
             f for f in self.io_handler.ls(self.output_path) if f.startswith("heatmap")
         ]
-        self._make_centered_image(
-            os.path.join(self.output_path, heatmaps[0]), heatmap_height
-        )
+        if heatmaps:
+            self._make_centered_image(
+                os.path.join(self.output_path, heatmaps[0]), heatmap_height
+            )
         if len(heatmaps) > 1:
             logger.warning("Please implement multi-model display")
 
-- 
2.43.0


From 3643ab097f16286ac1059c1fabcf7d4402ed5110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:01 +0000
Subject: [PATCH 047/129] fix: the report could show the residuals of a camera
 whose name starts the same

---
 opensfm/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/report.py b/opensfm/report.py
index 81afed4..3037e3f 100644
--- a/opensfm/report.py
+++ b/opensfm/report.py
@@ -387,7 +387,7 @@ class Report:
             residual_grids = [
                 f
                 for f in self.io_handler.ls(self.output_path)
-                if f.startswith("residuals_" + str(camera.replace("/", "_")))
+                if f == "residuals_" + str(camera.replace("/", "_")) + ".png"
             ]
             if not residual_grids:
                 continue
-- 
2.43.0


From 9b694767d61924dcba664ebb524b1b14480dad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:01 +0000
Subject: [PATCH 048/129] fix: the report had no dataset name for a path ending
 in a slash

---
 opensfm/report.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opensfm/report.py b/opensfm/report.py
index 3037e3f..c078578 100644
--- a/opensfm/report.py
+++ b/opensfm/report.py
@@ -16,7 +16,9 @@ logger: logging.Logger = logging.getLogger(__name__)
 class Report:
     def __init__(self, data: DataSet) -> None:
         self.output_path: str = os.path.join(data.data_path, "stats")
-        self.dataset_name: str = os.path.basename(data.data_path)
+        self.dataset_name: str = os.path.basename(
+            os.path.abspath(data.data_path)
+        )
         self.io_handler: io.IoFilesystemBase = data.io_handler
 
         self.mapi_light_light_green = [210, 245, 226]
-- 
2.43.0


From 54faddba03a4ecfc8841d10c0358bb3372ed4711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:22 +0000
Subject: [PATCH 049/129] fix: average the GPS positions of a rig instance once
 all its shots are known in bundle_shot_poses

---
 opensfm/src/sfm/src/ba_helpers.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/opensfm/src/sfm/src/ba_helpers.cc b/opensfm/src/sfm/src/ba_helpers.cc
index e66ba8c..1bcd433 100644
--- a/opensfm/src/sfm/src/ba_helpers.cc
+++ b/opensfm/src/sfm/src/ba_helpers.cc
@@ -500,18 +500,18 @@ py::dict BAHelpers::BundleShotPoses(
       } else {
         fix_instance = true;
       }
+    }
 
-      ba.AddRigInstance(rig_instance_id, instance.GetPose(), shot_cameras,
-                        shot_rig_cameras, fix_instance);
+    ba.AddRigInstance(rig_instance_id, instance.GetPose(), shot_cameras,
+                      shot_rig_cameras, fix_instance);
 
-      // only add averaged rig position constraints to moving instances
-      if (!fix_instance && gps_count > 0) {
-        average_position /= gps_count;
-        average_std /= gps_count;
-        ba.AddRigInstancePositionPrior(rig_instance_id, average_position,
-                                       Vec3d::Constant(average_std),
-                                       gps_scale_group);
-      }
+    // only add averaged rig position constraints to moving instances
+    if (!fix_instance && gps_count > 0) {
+      average_position /= gps_count;
+      average_std /= gps_count;
+      ba.AddRigInstancePositionPrior(rig_instance_id, average_position,
+                                     Vec3d::Constant(average_std),
+                                     gps_scale_group);
     }
   }
 
-- 
2.43.0


From 33a99f98171a69097b374592d566e5b98b8884ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:22 +0000
Subject: [PATCH 050/129] fix: do not detect the alignment method on rows of
 unusable control points

---
 opensfm/src/sfm/src/ba_helpers.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opensfm/src/sfm/src/ba_helpers.cc b/opensfm/src/sfm/src/ba_helpers.cc
index 1bcd433..d5cae01 100644
--- a/opensfm/src/sfm/src/ba_helpers.cc
+++ b/opensfm/src/sfm/src/ba_helpers.cc
@@ -861,6 +861,9 @@ void BAHelpers::AlignmentConstraints(
       }
     }
   }
+  // some control points may not have been usable
+  Xp.conservativeResize(idx, Eigen::NoChange);
+  X.conservativeResize(idx, Eigen::NoChange);
 }
 
 std::string BAHelpers::DetectAlignmentConstraints(
-- 
2.43.0


From 45200d6d8e75165e7a7fb1845d3dd840b3bc6755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:22 +0000
Subject: [PATCH 051/129] fix: use GPS positions in local bundle only when
 their accuracy is known

---
 opensfm/src/sfm/src/ba_helpers.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/sfm/src/ba_helpers.cc b/opensfm/src/sfm/src/ba_helpers.cc
index d5cae01..2eac674 100644
--- a/opensfm/src/sfm/src/ba_helpers.cc
+++ b/opensfm/src/sfm/src/ba_helpers.cc
@@ -192,7 +192,8 @@ py::tuple BAHelpers::BundleLocal(
       if (is_interior) {
         const auto& measurements = shot.GetShotMeasurements();
         if (config["bundle_use_gps"].cast<bool>() &&
-            measurements.gps_position_.HasValue()) {
+            measurements.gps_position_.HasValue() &&
+            measurements.gps_accuracy_.HasValue()) {
           average_position += measurements.gps_position_.Value();
           average_std += measurements.gps_accuracy_.Value();
           ++gps_count;
-- 
2.43.0


From 7d63a783a6aa09518cb89ae34a04542b942e007b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:22 +0000
Subject: [PATCH 052/129] fix: make the parameter barrier vanish in the middle
 of its range

---
 opensfm/src/bundle/error/parameters_errors.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/src/bundle/error/parameters_errors.h b/opensfm/src/bundle/error/parameters_errors.h
index 9e8d9a8..3ffbcd1 100644
--- a/opensfm/src/bundle/error/parameters_errors.h
+++ b/opensfm/src/bundle/error/parameters_errors.h
@@ -27,7 +27,7 @@ struct ParameterBarrier {
     const T zero = 2.0 * ceres::log((T(upper_bound_) - T(lower_bound_)) * 0.5);
     const T penalty = ceres::log(value - T(lower_bound_) + eps) +
                       ceres::log(T(upper_bound_) - value + eps);
-    residuals[0] = penalty + zero;
+    residuals[0] = penalty - zero;
     return true;
   }
 
-- 
2.43.0


From 312cfea8f361efa7aac070008c23c7767e090644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:22 +0000
Subject: [PATCH 053/129] fix: linear motion prior uses the rig camera of its
 third shot when shared with the second

---
 opensfm/src/bundle/src/bundle_adjuster.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/bundle/src/bundle_adjuster.cc b/opensfm/src/bundle/src/bundle_adjuster.cc
index cf0b6e5..9cdd572 100644
--- a/opensfm/src/bundle/src/bundle_adjuster.cc
+++ b/opensfm/src/bundle/src/bundle_adjuster.cc
@@ -1073,9 +1073,12 @@ void BundleAdjuster::Run() {
         cost_function->AddParameterBlock(6);
         linear_motion->shot2_rig_camera_index = parameter_blocks.size();
         parameter_blocks.push_back(shot2_rig_camera);
-      } else {
+      } else if (shot2_rig_camera == shot0_rig_camera) {
         linear_motion->shot2_rig_camera_index =
             linear_motion->shot0_rig_camera_index;
+      } else {
+        linear_motion->shot2_rig_camera_index =
+            linear_motion->shot1_rig_camera_index;
       }
     }
     problem.AddResidualBlock(cost_function, linear_motion_prior_loss_,
-- 
2.43.0


From 86162ce4e2373e71b0e236e625e9ea90f8ac4b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:22 +0000
Subject: [PATCH 054/129] fix: take the EXIF orientation of images into account
 in the up vector prior of bundle adjustment

---
 opensfm/src/sfm/src/ba_helpers.cc | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/sfm/src/ba_helpers.cc b/opensfm/src/sfm/src/ba_helpers.cc
index 2eac674..f053fb1 100644
--- a/opensfm/src/sfm/src/ba_helpers.cc
+++ b/opensfm/src/sfm/src/ba_helpers.cc
@@ -13,6 +13,26 @@
 #include "geo/geo.h"
 #include "map/defines.h"
 
+namespace {
+// Direction of the top of the image in camera coordinates, given its EXIF
+// orientation (see align.get_horizontal_and_vertical_directions)
+Vec3d ImageUpVector(int orientation) {
+  switch (orientation) {
+    case 3:
+    case 4:
+      return Vec3d(0, 1, 0);
+    case 5:
+    case 6:
+      return Vec3d(-1, 0, 0);
+    case 7:
+    case 8:
+      return Vec3d(1, 0, 0);
+    default:
+      return Vec3d(0, -1, 0);
+  }
+}
+}  // namespace
+
 namespace sfm {
 std::pair<std::unordered_set<map::ShotId>, std::unordered_set<map::ShotId>>
 BAHelpers::ShotNeighborhoodIds(map::Map& map,
@@ -608,6 +628,7 @@ py::dict BAHelpers::Bundle(
     align_method = DetectAlignmentConstraints(map, config, gcp);
   }
   bool do_add_align_vector = false;
+  bool use_image_orientation = false;
   Vec3d up_vector = Vec3d::Zero();
   if (align_method.compare("orientation_prior") == 0) {
     const std::string align_orientation_prior =
@@ -617,6 +638,7 @@ py::dict BAHelpers::Bundle(
       up_vector = Vec3d(0, 0, -1);
     } else if (align_orientation_prior.compare("horizontal") == 0) {
       do_add_align_vector = true;
+      use_image_orientation = true;
       up_vector = Vec3d(0, -1, 0);
     }
   }
@@ -688,7 +710,12 @@ py::dict BAHelpers::Bundle(
     // that one doesn't have it's rig counterpart
     if (do_add_align_vector) {
       constexpr double std_dev = 1e-3;
-      ba.AddAbsoluteUpVector(shot.id_, up_vector, std_dev);
+      const auto orientation = shot.GetShotMeasurements().orientation_;
+      const Vec3d shot_up_vector =
+          use_image_orientation && orientation.HasValue()
+              ? ImageUpVector(orientation.Value())
+              : up_vector;
+      ba.AddAbsoluteUpVector(shot.id_, shot_up_vector, std_dev);
     }
 
     // setup observations for any shot type
-- 
2.43.0


From da2254ca6a004825b609d8fc217ec5fbd1947ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:37 +0000
Subject: [PATCH 055/129] fix: apply the prior deviation of k4 in bundle
 adjustment

The deviation given for k4 was never used: k4 got a deviation of zero, which
pinned it to its prior value whatever the observations.
---
 opensfm/src/bundle/src/bundle_adjuster.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opensfm/src/bundle/src/bundle_adjuster.cc b/opensfm/src/bundle/src/bundle_adjuster.cc
index 9cdd572..dadbb6a 100644
--- a/opensfm/src/bundle/src/bundle_adjuster.cc
+++ b/opensfm/src/bundle/src/bundle_adjuster.cc
@@ -55,6 +55,7 @@ geometry::Camera BundleAdjuster::GetDefaultCameraSigma(
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::K1)] = k1_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::K2)] = k2_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::K3)] = k3_sd_;
+  std_dev_map[static_cast<int>(geometry::Camera::Parameters::K4)] = k4_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::P1)] = p1_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::P2)] = p2_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::Transition)] = 1.0;
-- 
2.43.0


From 8a632cab9a09650f095b5c584dff69a22a2f2ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:37 +0000
Subject: [PATCH 056/129] fix: compute covariances of rig instances with
 several shots

The block of a rig instance was listed once per shot, and Ceres ends the
process when a covariance block is given twice.
---
 opensfm/src/bundle/src/bundle_adjuster.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/opensfm/src/bundle/src/bundle_adjuster.cc b/opensfm/src/bundle/src/bundle_adjuster.cc
index dadbb6a..581213e 100644
--- a/opensfm/src/bundle/src/bundle_adjuster.cc
+++ b/opensfm/src/bundle/src/bundle_adjuster.cc
@@ -1137,11 +1137,14 @@ void BundleAdjuster::ComputeCovariances(ceres::Problem* problem) {
     ceres::Covariance covariance(options);
 
     std::vector<std::pair<const double*, const double*>> covariance_blocks;
-    covariance_blocks.reserve(shots_.size());
-    for (auto& [_, shot] : shots_) {
-      covariance_blocks.emplace_back(
-          shot.GetRigInstance()->GetValueData().data(),
-          shot.GetRigInstance()->GetValueData().data());
+    covariance_blocks.reserve(rig_instances_.size());
+    // Shots of a rig instance share its block: Ceres aborts on duplicates
+    for (auto& [_, rig_instance] : rig_instances_) {
+      if (rig_instance.shot_cameras.empty()) {
+        continue;
+      }
+      const auto* data = rig_instance.GetValueData().data();
+      covariance_blocks.emplace_back(data, data);
     }
 
     bool worked = covariance.Compute(covariance_blocks, problem);
-- 
2.43.0


From be20a76ed26ea733a727854610479ba3ab087860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:22 +0000
Subject: [PATCH 057/129] fix: estimate the outlier threshold from no or from
 mixed 2D and 3D errors

---
 opensfm/reconstruction.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/opensfm/reconstruction.py b/opensfm/reconstruction.py
index 6e73b3c..23322ae 100644
--- a/opensfm/reconstruction.py
+++ b/opensfm/reconstruction.py
@@ -1231,10 +1231,13 @@ def get_error_distribution(points: Dict[str, pymap.Landmark]) -> Tuple[float, fl
     all_errors = []
     for track in points.values():
         all_errors += track.reprojection_errors.values()
+    if not all_errors:
+        return np.zeros(2), 0.0
+    # errors have 3 components on spherical cameras and 2 on the others
+    size = max(len(error) for error in all_errors)
+    all_errors = np.array([np.pad(error, (0, size - len(error))) for error in all_errors])
     robust_mean = np.median(all_errors, axis=0)
-    robust_std = 1.486 * np.median(
-        np.linalg.norm(np.array(all_errors) - robust_mean, axis=1)
-    )
+    robust_std = 1.486 * np.median(np.linalg.norm(all_errors - robust_mean, axis=1))
     return robust_mean, robust_std
 
 
-- 
2.43.0


From 926efac3ec9ffc6c61b9a0adf9530789bea661b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:22 +0000
Subject: [PATCH 058/129] fix: use all components of spherical errors to find
 outliers

---
 opensfm/reconstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/reconstruction.py b/opensfm/reconstruction.py
index 23322ae..b37f3b2 100644
--- a/opensfm/reconstruction.py
+++ b/opensfm/reconstruction.py
@@ -1274,7 +1274,7 @@ def remove_outliers(
         for shot_id, error in reconstruction.points[
             point_id
         ].reprojection_errors.items():
-            error_sqr = error[0] ** 2 + error[1] ** 2
+            error_sqr = float(np.dot(error, error))
             if error_sqr > threshold_sqr:
                 outliers.append((point_id, shot_id))
 
-- 
2.43.0


From 7ab453819db1b741c17f90c73a60cd878f084d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:27 +0000
Subject: [PATCH 059/129] fix: take the plane-based motion with most inliers

---
 opensfm/reconstruction.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opensfm/reconstruction.py b/opensfm/reconstruction.py
index b37f3b2..aef8097 100644
--- a/opensfm/reconstruction.py
+++ b/opensfm/reconstruction.py
@@ -326,8 +326,7 @@ def two_view_reconstruction_plane_based(
         inliers = _two_view_reconstruction_inliers(b1, b2, R.T, -R.T.dot(t), threshold)
         motion_inliers.append(inliers)
 
-    # pyre-fixme[6]: For 1st argument expected `Union[_SupportsArray[dtype[typing.Any...
-    best = np.argmax(map(len, motion_inliers))
+    best = np.argmax([len(inliers) for inliers in motion_inliers])
     R, t, n, d = motions[best]
     inliers = motion_inliers[best]
     return cv2.Rodrigues(R)[0].ravel(), t, inliers
-- 
2.43.0


From 5a5489f3ce8c80512641a5312f1cafa94ae8fdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:03 +0000
Subject: [PATCH 060/129] fix: keep all shots and the rig cameras of rigs when
 starting from metadata

---
 opensfm/reconstruction_helpers.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/opensfm/reconstruction_helpers.py b/opensfm/reconstruction_helpers.py
index 688adcf..f3ffeb3 100644
--- a/opensfm/reconstruction_helpers.py
+++ b/opensfm/reconstruction_helpers.py
@@ -87,6 +87,7 @@ def reconstruction_from_metadata(
     """Initialize a reconstruction by using EXIF data for constructing shot poses and cameras."""
     data.init_reference()
     rig_assignments = rig.rig_assignments_per_image(data.load_rig_assignments())
+    rig_cameras = data.load_rig_cameras() if rig_assignments else {}
 
     reconstruction = types.Reconstruction()
     reconstruction.reference = data.load_reference()
@@ -100,8 +101,13 @@ def reconstruction_from_metadata(
             rig_instance_id = image
             rig_camera_id = camera_id
 
-        reconstruction.add_rig_camera(pymap.RigCamera(pygeometry.Pose(), rig_camera_id))
-        reconstruction.add_rig_instance(pymap.RigInstance(rig_instance_id))
+        reconstruction.add_rig_camera(
+            rig_cameras.get(
+                rig_camera_id, pymap.RigCamera(pygeometry.Pose(), rig_camera_id)
+            )
+        )
+        if rig_instance_id not in reconstruction.rig_instances:
+            reconstruction.add_rig_instance(pymap.RigInstance(rig_instance_id))
         shot = reconstruction.create_shot(
             shot_id=image,
             camera_id=camera_id,
@@ -117,11 +123,16 @@ def reconstruction_from_metadata(
         gps_pos = shot.metadata.gps_position.value
 
         rotation = rotation_from_shot_metadata(shot)
-        if rotation is not None:
-            # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
-            shot.pose.set_rotation_matrix(rotation)
+        if rotation is None:
+            rotation = shot.pose.get_rotation_matrix()
+        pose = pygeometry.Pose()
+        # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
+        pose.set_rotation_matrix(rotation)
+        rig_instance = reconstruction.rig_instances[rig_instance_id]
+        rig_instance.update_instance_pose_with_shot(image, pose)
+        # GPS gives the position of the instance, as in the alignment
         # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
-        shot.pose.set_origin(gps_pos)
+        rig_instance.pose.set_origin(gps_pos)
         shot.scale = 1.0
     return reconstruction
 
-- 
2.43.0


From d3c990bace394aeb5c604ae5c4bcaab47068751c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:15 +0000
Subject: [PATCH 061/129] fix: closest rotation between points on a plane with
 their average

---
 opensfm/src/geometry/transform.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/opensfm/src/geometry/transform.h b/opensfm/src/geometry/transform.h
index a2c4662..3dede95 100644
--- a/opensfm/src/geometry/transform.h
+++ b/opensfm/src/geometry/transform.h
@@ -30,13 +30,14 @@ Eigen::Matrix3d RotationBetweenPoints(IT begin, IT end) {
 
   Eigen::JacobiSVD<Eigen::Matrix3d> svd(
       M, Eigen::ComputeFullU | Eigen::ComputeFullV);
-  const Eigen::Matrix3d& U = svd.matrixU();
+  Eigen::Matrix3d U = svd.matrixU();
   const Eigen::Matrix3d& V = svd.matrixV();
-  Eigen::Matrix3d rotation = U * V.transpose();
-  if (rotation.determinant() < 0.) {
-    rotation *= -1.0;
+  // The closest rotation flips the direction of the smallest singular value,
+  // which is undetermined if all points lie on a plane with their average.
+  if (U.determinant() * V.determinant() < 0.) {
+    U.col(2) *= -1.0;
   }
-  return rotation;
+  return U * V.transpose();
 }
 
 template <class IT>
-- 
2.43.0


From 4bcf59223c710dadccfc8fc77359f39ebe615732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:15 +0000
Subject: [PATCH 062/129] fix: compare the scores of relative pose
 decompositions as they are

---
 opensfm/src/geometry/relative_pose.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/geometry/relative_pose.h b/opensfm/src/geometry/relative_pose.h
index f5d2736..68a3a19 100644
--- a/opensfm/src/geometry/relative_pose.h
+++ b/opensfm/src/geometry/relative_pose.h
@@ -33,7 +33,9 @@ Eigen::Matrix<double, 3, 4> RelativePoseFromEssential(
   Eigen::Matrix<double, 2, 3> centers;
   centers.row(0) = Eigen::Vector3d::Zero();
 
-  auto best_decomposition = std::make_pair(0, Eigen::Matrix<double, 3, 4>());
+  // Scores are not integers, and without any the identity is as good as others
+  std::pair<double, Eigen::Matrix<double, 3, 4>> best_decomposition(
+      0.0, Eigen::Matrix<double, 3, 4>::Identity());
   for (int i = 0; i < 2; ++i) {
     Eigen::Vector3d translation;
     if (i == 0) {
-- 
2.43.0


From fa7ae3d5595400b5a6ded57a21cc09a6939e1a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:15 +0000
Subject: [PATCH 063/129] fix: robust estimation of fewer samples than a model
 needs never returned

---
 opensfm/src/robust/robust_estimator.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/opensfm/src/robust/robust_estimator.h b/opensfm/src/robust/robust_estimator.h
index a68ea5e..c983014 100644
--- a/opensfm/src/robust/robust_estimator.h
+++ b/opensfm/src/robust/robust_estimator.h
@@ -42,6 +42,13 @@ ScoreInfo<typename MODEL::Type> Estimate(
   RandomSamplesGenerator<std::mt19937> random_generator;
 
   ScoreInfo<typename MODEL::Type> best_score;
+  best_score.model.setZero();
+  best_score.lo_model.setZero();
+
+  // Too few samples for any model: there would be no distinct ones to draw
+  if (samples.size() < static_cast<size_t>(MODEL::MINIMAL_SAMPLES)) {
+    return best_score;
+  }
   bool should_stop = false;
   std::vector<typename MODEL::Data> inliers_samples;  // Used to gather inliers
   for (int i = 0; i < params.iterations && !should_stop; ++i) {
-- 
2.43.0


From 0de68e41eb17e549eb1ef59b38ff8a59f0d854e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:33 +0000
Subject: [PATCH 064/129] fix: local optimization with fewer inliers than a
 model needs never returned

---
 opensfm/src/robust/robust_estimator.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opensfm/src/robust/robust_estimator.h b/opensfm/src/robust/robust_estimator.h
index c983014..40b3404 100644
--- a/opensfm/src/robust/robust_estimator.h
+++ b/opensfm/src/robust/robust_estimator.h
@@ -79,6 +79,12 @@ ScoreInfo<typename MODEL::Type> Estimate(
       // Run local optimization (inner non-minimal RANSAC on inliers)
       if (best_found && params.use_local_optimization) {
         for (int k = 0; k < params.local_optimization_iterations; ++k) {
+          // A better score might come with fewer inliers than a model needs
+          if (best_score.inliers_indices.size() <
+              static_cast<size_t>(MODEL::MINIMAL_SAMPLES)) {
+            break;
+          }
+
           // Gather inliers and use them for getting random sample
           inliers_samples.clear();
           inliers_samples.reserve(best_score.inliers_indices.size());
-- 
2.43.0


From 4909a6c9b65a6dfbb96adffbcc9cc0efb4720ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:59 +0000
Subject: [PATCH 065/129] fix: three-point pose gave poses of undefined
 numbers, which could win a median score

---
 opensfm/src/geometry/absolute_pose.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/geometry/absolute_pose.h b/opensfm/src/geometry/absolute_pose.h
index 5a75050..35e588b 100644
--- a/opensfm/src/geometry/absolute_pose.h
+++ b/opensfm/src/geometry/absolute_pose.h
@@ -116,7 +116,10 @@ std::vector<Eigen::Matrix<double, 3, 4>> AbsolutePoseThreePoints(IT begin,
     Eigen::Matrix<double, 3, 4> RT;
     RT.block<3, 3>(0, 0) = rotation.transpose();
     RT.block<3, 1>(0, 3) = -rotation.transpose() * translation;
-    RTs.push_back(RT);
+    // A root that is no cosine gives no pose
+    if (RT.allFinite()) {
+      RTs.push_back(RT);
+    }
   }
   return RTs;
 }
-- 
2.43.0


From 4b480423b49cd4ca83ec822703b29ac25d1f7e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:41 +0000
Subject: [PATCH 066/129] fix: undistortion looked half a pixel off the place
 of the ray

---
 opensfm/src/geometry/src/camera.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/geometry/src/camera.cc b/opensfm/src/geometry/src/camera.cc
index 5565f77..68c0f4e 100644
--- a/opensfm/src/geometry/src/camera.cc
+++ b/opensfm/src/geometry/src/camera.cc
@@ -325,8 +325,8 @@ std::pair<MatXf, MatXf> ComputeCameraMapping(const Camera& from,
   MatXf u_from(height, width);
   MatXf v_from(height, width);
 
-  const auto half_width = width * 0.5;
-  const auto half_height = height * 0.5;
+  const auto half_width = (width - 1.0) * 0.5;
+  const auto half_height = (height - 1.0) * 0.5;
 
   for (int v = 0; v < height; ++v) {
     for (int u = 0; u < width; ++u) {
-- 
2.43.0


From 8ffa0d0bec48b935c138833c900e2e1700b4776a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:41 +0000
Subject: [PATCH 067/129] fix: panorama views mixed the colors of the two poles

---
 opensfm/undistort.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opensfm/undistort.py b/opensfm/undistort.py
index 91384b3..948087d 100644
--- a/opensfm/undistort.py
+++ b/opensfm/undistort.py
@@ -398,6 +398,9 @@ def render_perspective_view_of_a_panorama(
     # Sample color
     x = src_pixels_denormalized[..., 0].astype(np.float32)
     y = src_pixels_denormalized[..., 1].astype(np.float32)
+    if borderMode == cv2.BORDER_WRAP:
+        # only longitudes wrap around: the top and bottom rows do not touch
+        y = np.clip(y, 0, image.shape[0] - 1)
     colors = cv2.remap(image, x, y, interpolation, borderMode=borderMode)
 
     return colors
-- 
2.43.0


From d7bc4245b38467392e4b016b1856f36675de25ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:41 +0000
Subject: [PATCH 068/129] fix: observations of undistorted tracks were left at
 their distorted places

---
 opensfm/undistort.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opensfm/undistort.py b/opensfm/undistort.py
index 948087d..ed2a7b7 100644
--- a/opensfm/undistort.py
+++ b/opensfm/undistort.py
@@ -420,6 +420,12 @@ def add_subshot_tracks(
         add_pano_subshot_tracks(tracks_manager, utracks_manager, shot, subshot)
     else:
         for track_id, obs in tracks_manager.get_shot_observations(shot.id).items():
+            # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
+            bearing = shot.camera.pixel_bearing(obs.point)
+            if bearing[2] <= 0:
+                continue
+            # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
+            obs.point = subshot.camera.project(bearing)
             utracks_manager.add_observation(subshot.id, track_id, obs)
 
 
-- 
2.43.0


From 9dd127d444ccaa325c954d9842f3cebf9a574e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:50 +0000
Subject: [PATCH 069/129] fix: bundler export of the undistorted reconstruction
 always failed

---
 opensfm/actions/export_bundler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/actions/export_bundler.py b/opensfm/actions/export_bundler.py
index c54eb77..bbe173b 100644
--- a/opensfm/actions/export_bundler.py
+++ b/opensfm/actions/export_bundler.py
@@ -28,7 +28,7 @@ def run_dataset(
     if undistorted:
         reconstructions = udata.load_undistorted_reconstruction()
         track_manager = udata.load_undistorted_tracks_manager()
-        images = reconstructions[0].shots.keys()
+        images = list(reconstructions[0].shots.keys())
     else:
         reconstructions = data.load_reconstruction()
         track_manager = data.load_tracks_manager()
-- 
2.43.0


From 63d37b50cc6aa8ada01a54e2d7945f939a068ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:50 +0000
Subject: [PATCH 070/129] fix: bundler export failed with brown cameras

---
 opensfm/actions/export_bundler.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/opensfm/actions/export_bundler.py b/opensfm/actions/export_bundler.py
index bbe173b..4d4c096 100644
--- a/opensfm/actions/export_bundler.py
+++ b/opensfm/actions/export_bundler.py
@@ -73,12 +73,8 @@ def export_bundler(
             if shot_id in shots:
                 shot = shots[shot_id]
                 camera = shot.camera
-                if shot.camera.projection_type == "brown":
-                    # Will approximate Brown model, not optimal
-                    # pyrefly: ignore [missing-attribute]
-                    focal_normalized = camera.focal_x
-                else:
-                    focal_normalized = camera.focal
+                # Will approximate Brown model, not optimal
+                focal_normalized = camera.focal
                 scale = max(camera.width, camera.height)
                 focal = focal_normalized * scale
                 k1 = camera.k1
-- 
2.43.0


From 838390eec30afc68be70435fb747780354ceccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:50 +0000
Subject: [PATCH 071/129] fix: bundler export failed when an image of the
 reconstruction is not exported

---
 opensfm/actions/export_bundler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/actions/export_bundler.py b/opensfm/actions/export_bundler.py
index 4d4c096..6f22491 100644
--- a/opensfm/actions/export_bundler.py
+++ b/opensfm/actions/export_bundler.py
@@ -101,7 +101,7 @@ def export_bundler(
             lines.append(" ".join(map(str, color)))
             view_line = []
             for shot_key, obs in view_list.items():
-                if shot_key in shots.keys():
+                if shot_key in shots and shot_key in shots_order:
                     v = obs.point
                     shot_index = shots_order[shot_key]
                     camera = shots[shot_key].camera
-- 
2.43.0


From ff5812680b7b2f3b3afc9657855cd37ffe6cda5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:50 +0000
Subject: [PATCH 072/129] fix: visualsfm export scaled measurements by width
 and height separately

---
 opensfm/actions/export_visualsfm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opensfm/actions/export_visualsfm.py b/opensfm/actions/export_visualsfm.py
index 2f7defb..0124410 100644
--- a/opensfm/actions/export_visualsfm.py
+++ b/opensfm/actions/export_visualsfm.py
@@ -99,8 +99,9 @@ def export(
 
                 if shot_key in shots.keys():
                     v = obs.point
-                    x = (0.5 + v[0]) * shot_size_cache[shot_key][1]
-                    y = (0.5 + v[1]) * shot_size_cache[shot_key][0]
+                    h, w = shot_size_cache[shot_key]
+                    x = v[0] * max(w, h) + 0.5 * w
+                    y = v[1] * max(w, h) + 0.5 * h
                     view_line.append(
                         " ".join(map(str, [shot_index[shot_key], obs.id, x, y]))
                     )
-- 
2.43.0


From fe5c091ad10f0234367574b9b084a96a746e42eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:50 +0000
Subject: [PATCH 073/129] fix: openmvs export gave the working directory as
 mask of images without one

---
 opensfm/actions/export_openmvs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/actions/export_openmvs.py b/opensfm/actions/export_openmvs.py
index 1ef4231..780aab8 100644
--- a/opensfm/actions/export_openmvs.py
+++ b/opensfm/actions/export_openmvs.py
@@ -51,13 +51,13 @@ def export(
 
         if shot.camera.projection_type == "perspective":
             image_path = udata._undistorted_image_file(shot.id)
-            mask_path = udata._undistorted_mask_file(shot.id)
+            mask_path = os.path.abspath(udata._undistorted_mask_file(shot.id))
             if not os.path.isfile(mask_path):
                 mask_path = ""
 
             exporter.add_shot(
                 str(os.path.abspath(image_path)),
-                str(os.path.abspath(mask_path)),
+                str(mask_path),
                 str(shot.id),
                 str(shot.camera.id),
                 shot.pose.get_rotation_matrix(),
-- 
2.43.0


From a716b3abd316fc0aa8ac8ba6b6895ba281ceb970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:50 +0000
Subject: [PATCH 074/129] fix: openmvs export failed on points seen only by
 shots that are not undistorted

---
 opensfm/actions/export_openmvs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opensfm/actions/export_openmvs.py b/opensfm/actions/export_openmvs.py
index 780aab8..0467175 100644
--- a/opensfm/actions/export_openmvs.py
+++ b/opensfm/actions/export_openmvs.py
@@ -64,7 +64,11 @@ def export(
                 shot.pose.get_origin(),
             )
 
+    track_ids = set(tracks_manager.get_track_ids())
     for point in reconstruction.points.values():
+        if point.id not in track_ids:
+            # only seen by shots that could not be undistorted
+            continue
         observations = tracks_manager.get_track_observations(point.id)
 
         if export_only is not None:
-- 
2.43.0


From f59c5a568a0ae1d40ef9931b08296da2caf678e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:50 +0000
Subject: [PATCH 075/129] fix: visualsfm export failed on points seen only by
 shots that are not undistorted

---
 opensfm/actions/export_visualsfm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opensfm/actions/export_visualsfm.py b/opensfm/actions/export_visualsfm.py
index 0124410..38020bb 100644
--- a/opensfm/actions/export_visualsfm.py
+++ b/opensfm/actions/export_visualsfm.py
@@ -81,7 +81,9 @@ def export(
     if with_points:
         skipped_points = 0
         lines.append("")
-        points = reconstruction.points
+        # points only seen by shots that could not be undistorted have no track
+        track_ids = set(tracks_manager.get_track_ids())
+        points = {k: p for k, p in reconstruction.points.items() if k in track_ids}
         lines.append(str(len(points)))
         points_count_index = len(lines) - 1
 
-- 
2.43.0


From a4ee5aaf8349c46f703ce0188f905f0f65cc54fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:50 +0000
Subject: [PATCH 076/129] fix: bundler export failed on points seen only by
 shots that are not undistorted

---
 opensfm/actions/export_bundler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opensfm/actions/export_bundler.py b/opensfm/actions/export_bundler.py
index 6f22491..21ef14c 100644
--- a/opensfm/actions/export_bundler.py
+++ b/opensfm/actions/export_bundler.py
@@ -61,7 +61,9 @@ def export_bundler(
     for j, reconstruction in enumerate(reconstructions):
         lines = []
         lines.append("# Bundle file v0.3")
-        points = reconstruction.points
+        # points only seen by shots that could not be undistorted have no track
+        track_ids = set(track_manager.get_track_ids())
+        points = {k: p for k, p in reconstruction.points.items() if k in track_ids}
         shots = reconstruction.shots
         num_point = len(points)
         num_shot = len(image_list)
-- 
2.43.0


From 564aaf4fa67fac27edfb37bede1009faa2b8b428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:22 +0000
Subject: [PATCH 077/129] fix: pmvs export of undistorted images swapped red
 and blue

---
 opensfm/actions/export_pmvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/actions/export_pmvs.py b/opensfm/actions/export_pmvs.py
index a690fba..51fed8b 100644
--- a/opensfm/actions/export_pmvs.py
+++ b/opensfm/actions/export_pmvs.py
@@ -121,7 +121,7 @@ def export(
         # radially undistort the original image
         camera = shot.camera
         if undistorted:
-            undistorted_image = udata.load_undistorted_image(image)
+            undistorted_image = udata.load_undistorted_image(image)[:, :, ::-1]
         else:
             original_image = data.load_image(image)[:, :, ::-1]
             original_h, original_w = original_image.shape[:2]
-- 
2.43.0


From f4f71813d820693c55af5f08aaf2a779140e2191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:22 +0000
Subject: [PATCH 078/129] fix: pmvs export ignored the list of images to export

---
 opensfm/actions/export_pmvs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opensfm/actions/export_pmvs.py b/opensfm/actions/export_pmvs.py
index 51fed8b..75d9e56 100644
--- a/opensfm/actions/export_pmvs.py
+++ b/opensfm/actions/export_pmvs.py
@@ -91,7 +91,12 @@ def export(
     io.mkdir_p(os.path.join(output_path, "txt"))
     io.mkdir_p(os.path.join(output_path, "models"))
 
-    shot_index = {image: i for i, image in enumerate(reconstruction.shots)}
+    images = [
+        image
+        for image in reconstruction.shots
+        if export_only is None or image in export_only
+    ]
+    shot_index = {image: i for i, image in enumerate(images)}
 
     fvis = open(os.path.join(output_path, "vis.dat"), "w")
     fvis.write("VISDATA\n")
-- 
2.43.0


From 0dfb7f27a460fb8692af6a72b65aad9d449e5489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:22 +0000
Subject: [PATCH 079/129] fix: pmvs export failed on images without tracks

---
 opensfm/actions/export_pmvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/actions/export_pmvs.py b/opensfm/actions/export_pmvs.py
index 75d9e56..4ffb7da 100644
--- a/opensfm/actions/export_pmvs.py
+++ b/opensfm/actions/export_pmvs.py
@@ -110,7 +110,7 @@ def export(
         # vis.dat for this image
         if image_graph:
             adj_indices = []
-            for adj_image in image_graph[image]:
+            for adj_image in image_graph[image] if image in image_graph else []:
                 # pyrefly: ignore [bad-argument-type]
                 weight = float(image_graph[image][adj_image]["weight"])
                 if weight > 0 and adj_image in shot_index:
-- 
2.43.0


From 80fe02412839929dd3ddcf3fee7c386219437705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:22 +0000
Subject: [PATCH 080/129] fix: exporting several things in geographic
 coordinates wrote them over each other

---
 opensfm/actions/export_geocoords.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/opensfm/actions/export_geocoords.py b/opensfm/actions/export_geocoords.py
index 966ef14..a93662c 100644
--- a/opensfm/actions/export_geocoords.py
+++ b/opensfm/actions/export_geocoords.py
@@ -44,26 +44,28 @@ def run_dataset(
     t = _get_transformation(reference, projection)
 
     if transformation:
-        output = output or "geocoords_transformation.txt"
-        output_path = os.path.join(data.data_path, output)
+        output_path = os.path.join(
+            data.data_path, output or "geocoords_transformation.txt"
+        )
         _write_transformation(t, output_path)
 
     if image_positions:
         reconstructions = data.load_reconstruction()
-        output = output or "image_geocoords.tsv"
-        output_path = os.path.join(data.data_path, output)
+        output_path = os.path.join(data.data_path, output or "image_geocoords.tsv")
         _transform_image_positions(reconstructions, t, output_path)
 
     if reconstruction:
         reconstructions = data.load_reconstruction()
         for r in reconstructions:
             _transform_reconstruction(r, t)
-        output = output or "reconstruction.geocoords.json"
-        data.save_reconstruction(reconstructions, output)
+        data.save_reconstruction(
+            reconstructions, output or "reconstruction.geocoords.json"
+        )
 
     if dense:
-        output = output or "undistorted/depthmaps/merged.geocoords.ply"
-        output_path = os.path.join(data.data_path, output)
+        output_path = os.path.join(
+            data.data_path, output or "undistorted/depthmaps/merged.geocoords.ply"
+        )
         udata = data.undistorted_dataset()
         _transform_dense_point_cloud(udata, t, output_path)
 
-- 
2.43.0


From c85c4b73cef5e61d540999146de2d3c8a039a671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:22 +0000
Subject: [PATCH 081/129] fix: reconstructions with rigs could not be exported
 in geographic coordinates

---
 opensfm/actions/export_geocoords.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/opensfm/actions/export_geocoords.py b/opensfm/actions/export_geocoords.py
index a93662c..fb6fa45 100644
--- a/opensfm/actions/export_geocoords.py
+++ b/opensfm/actions/export_geocoords.py
@@ -6,7 +6,7 @@ from typing import List, Sequence
 import numpy as np
 import pyproj
 from numpy.typing import NDArray
-from opensfm import io, types
+from opensfm import io, pygeometry, types
 from opensfm.dataset import DataSet, UndistortedDataSet
 from opensfm.geo import TopocentricConverter
 
@@ -130,10 +130,14 @@ def _transform_reconstruction(
     A, b = transformation[:3, :3], transformation[:3, 3]
     A1 = np.linalg.inv(A)
 
-    for shot in reconstruction.shots.values():
-        R = shot.pose.get_rotation_matrix()
-        shot.pose.set_rotation_matrix(np.dot(R, A1))
-        shot.pose.set_origin(np.dot(A, shot.pose.get_origin()) + b)
+    # the poses of the shots follow the ones of their rig instances
+    for instance in reconstruction.rig_instances.values():
+        R = instance.pose.get_rotation_matrix()
+        o = instance.pose.get_origin()
+        pose = pygeometry.Pose()
+        pose.set_rotation_matrix(np.dot(R, A1))
+        pose.set_origin(np.dot(A, o) + b)
+        instance.pose = pose
 
     for point in reconstruction.points.values():
         point.coordinates = list(np.dot(A, point.coordinates) + b)
-- 
2.43.0


From 431253d58a990c4ba7dd611e077fb0d681d315a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:22 +0000
Subject: [PATCH 082/129] fix: exporting the dense point cloud in geographic
 coordinates always failed

---
 opensfm/actions/export_geocoords.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/opensfm/actions/export_geocoords.py b/opensfm/actions/export_geocoords.py
index fb6fa45..843d2d2 100644
--- a/opensfm/actions/export_geocoords.py
+++ b/opensfm/actions/export_geocoords.py
@@ -151,17 +151,17 @@ def _transform_dense_point_cloud(
     input_path = udata.point_cloud_file()
     with io.open_rt(input_path) as fin:
         with io.open_wt(output_path) as fout:
-            for i, line in enumerate(fin):
-                if i < 13:
+            in_header = True
+            for line in fin:
+                if in_header:
                     fout.write(line)
+                    in_header = line.strip() != "end_header"
                 else:
-                    x, y, z, nx, ny, nz, red, green, blue = line.split()
-                    # pyre-fixme[6]: For 2nd argument expected `Union[Sequence[Sequen...
-                    x, y, z = np.dot(A, map(float, [x, y, z])) + b
-                    # pyre-fixme[6]: For 2nd argument expected `Union[Sequence[Sequen...
-                    nx, ny, nz = np.dot(A, map(float, [nx, ny, nz]))
+                    words = line.split()
+                    x, y, z = np.dot(A, np.array(words[0:3], dtype=float)) + b
+                    nx, ny, nz = np.dot(A, np.array(words[3:6], dtype=float))
                     fout.write(
-                        "{} {} {} {} {} {} {} {} {}\n".format(
-                            x, y, z, nx, ny, nz, red, green, blue
+                        "{} {} {} {} {} {} {}\n".format(
+                            x, y, z, nx, ny, nz, " ".join(words[6:])
                         )
                     )
-- 
2.43.0


From 0366644b33a5182257cad281d688296378424885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:22 +0000
Subject: [PATCH 083/129] fix: colmap export did not scale the principal point
 of fisheye_opencv cameras

---
 opensfm/actions/export_colmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index 1d71461..db7adb9 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -393,8 +393,8 @@ def camera_to_colmap_params(camera: pygeometry.Camera) -> Tuple[float, ...]:
         return f, fy, c_x, c_y, k1, k2, p1, p2, k3, 0.0, 0.0, 0.0
     elif camera.projection_type == "fisheye_opencv":
         fy = f * camera.aspect_ratio
-        cx = w * 0.5 + camera.principal_point[0]
-        cy = h * 0.5 + camera.principal_point[1]
+        cx = w * 0.5 + normalizer * camera.principal_point[0]
+        cy = h * 0.5 + normalizer * camera.principal_point[1]
         k1 = camera.k1
         k2 = camera.k2
         k3 = camera.k3
-- 
2.43.0


From 080891e1464fde3cc1227f5ef2b0edd8a4b4866f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:22 +0000
Subject: [PATCH 084/129] fix: colmap export wrote undefined numbers for shots
 without rotation

---
 opensfm/actions/export_colmap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index db7adb9..ddd6edb 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -667,6 +667,8 @@ def export_points_reconstruction(
 
 def angle_axis_to_quaternion(angle_axis: NDArray) -> List[float]:
     angle = np.linalg.norm(angle_axis)
+    if angle == 0:
+        return [1.0, 0.0, 0.0, 0.0]
 
     x = angle_axis[0] / angle
     y = angle_axis[1] / angle
-- 
2.43.0


From d3f8f177846a4814cf7322589bea32fa3d593da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:22 +0000
Subject: [PATCH 085/129] fix: the tracks of colmap exports referred to
 features that were not listed

---
 opensfm/actions/export_colmap.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index ddd6edb..4f2b6ad 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -588,10 +588,10 @@ def export_images_reconstruction(
                     if point_id in points_map:
                         colmap_point_id = points_map[point_id]
 
-                if colmap_point_id != -1:
-                    x, y = features_map[shot_id][feature_id]
-                    format_line += "%f %f %d "
-                    points_tuple += [x, y, colmap_point_id]
+                # all features are listed, as tracks refer to them by their index
+                x, y = features_map[shot_id][feature_id]
+                format_line += "%f %f %d "
+                points_tuple += [x, y, colmap_point_id]
             format_line += "\n"
 
             if binary:
@@ -599,7 +599,7 @@ def export_images_reconstruction(
                 for i in range(0, len(points_tuple), 3):
                     x, y, colmap_point_id = points_tuple[i : i + 3]
                     fout_bin.write(pack("<2d", x, y))
-                    fout_bin.write(pack("<Q", colmap_point_id))
+                    fout_bin.write(pack("<q", colmap_point_id))
             else:
                 # pyrefly: ignore [unbound-name]
                 fout_txt.write(format_line % tuple(format_tuple + points_tuple))
-- 
2.43.0


From c1eb67fee6b1804e8d59788809447bb539ac44e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:22 +0000
Subject: [PATCH 086/129] fix: binary colmap export failed on image names with
 other than ASCII characters

---
 opensfm/actions/export_colmap.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index 4f2b6ad..f76646b 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -558,8 +558,7 @@ def export_images_reconstruction(
                 fout_bin.write(pack("<I", colmap_shot_id))
                 fout_bin.write(pack("<7d", *(list(q) + list(t))))
                 fout_bin.write(pack("<I", colmap_camera_id))
-                for char in shot_id:
-                    fout_bin.write(pack("<c", char.encode("utf-8")))
+                fout_bin.write(shot_id.encode("utf-8"))
                 fout_bin.write(pack("<c", b"\x00"))
             format_line = "%d %f %f %f %f %f %f %f %d %s\n"
             format_tuple = [
-- 
2.43.0


From 72143be6a77dcde36078883c59c0f40fbe64d9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:22 +0000
Subject: [PATCH 087/129] fix: colmap export did not turn around the geometry
 of pairs whose order is swapped

---
 opensfm/actions/export_colmap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index f76646b..b3601c0 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -341,6 +341,7 @@ class COLMAPDatabase(sqlite3.Connection):
 
         if image_id1 > image_id2:
             matches = matches[:, ::-1]
+            F, E, H = F.T, E.T, np.linalg.inv(H)
 
         pair_id = image_ids_to_pair_id(image_id1, image_id2)
         matches = np.asarray(matches, np.uint32)
-- 
2.43.0


From 507cc99d12cd7a3a26309a9919e4a41adea34769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:22 +0000
Subject: [PATCH 088/129] fix: features of colmap exports were half a pixel off

---
 opensfm/actions/export_colmap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index b3601c0..7c67588 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -448,6 +448,7 @@ def export_features(
         feat = features.denormalized_image_coordinates(
             features_data.points, width, height
         )
+        feat[:, :2] += 0.5  # the center of the first pixel is (0.5, 0.5) in COLMAP
         features_map[image] = feat
         db.add_keypoints(images_map[image], feat)
     return features_map
-- 
2.43.0


From c584e56e0f0e4fa64b4ce3f9d1cf6636782354fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:48 +0000
Subject: [PATCH 089/129] fix: colmap export mixed the points of tracks
 reconstructed more than once

---
 opensfm/actions/export_colmap.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index 7c67588..b49ecba 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -533,7 +533,7 @@ def export_images_reconstruction(
     camera_map: Dict[str, int],
     images_map: Dict[str, int],
     features_map: Dict[str, NDArray],
-    points_map: Dict[str, int],
+    points_map: Dict[Tuple[int, str], int],
     binary: bool = False,
 ) -> None:
     reconstructions = data.load_reconstruction()
@@ -548,7 +548,7 @@ def export_images_reconstruction(
     else:
         fout_txt = data.io_handler.open_wt(os.path.join(path, "images.txt"))
 
-    for reconstruction in reconstructions:
+    for r, reconstruction in enumerate(reconstructions):
         for shot_id, shot in reconstruction.shots.items():
             colmap_camera_id = camera_map[shot.camera.id]
             colmap_shot_id = images_map[shot_id]
@@ -586,8 +586,8 @@ def export_images_reconstruction(
                 colmap_point_id = -1
                 if feature_id in point_per_feat:
                     point_id = point_per_feat[feature_id]
-                    if point_id in points_map:
-                        colmap_point_id = points_map[point_id]
+                    if (r, point_id) in points_map:
+                        colmap_point_id = points_map[(r, point_id)]
 
                 # all features are listed, as tracks refer to them by their index
                 x, y = features_map[shot_id][feature_id]
@@ -608,7 +608,7 @@ def export_images_reconstruction(
 
 def export_points_reconstruction(
     data: DataSet, path: str, images_map: Dict[str, int], binary: bool = False
-) -> Dict[str, int]:
+) -> Dict[Tuple[int, str], int]:
     reconstructions = data.load_reconstruction()
     tracks_manager = data.load_tracks_manager()
 
@@ -624,7 +624,7 @@ def export_points_reconstruction(
         fout_txt = data.io_handler.open_wt(os.path.join(path, "points3D.txt"))
 
     i = 0
-    for reconstruction in reconstructions:
+    for r, reconstruction in enumerate(reconstructions):
         for point in reconstruction.points.values():
             c = point.coordinates
             cl = point.color
@@ -661,7 +661,7 @@ def export_points_reconstruction(
             else:
                 # pyrefly: ignore [unbound-name]
                 fout_txt.write(format_line % tuple(format_tuple + track_tuple))
-            points_map[point.id] = i
+            points_map[(r, point.id)] = i
             i += 1
     return points_map
 
-- 
2.43.0


From 43694b44f838793f1b63ff09b7bede593219f6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:48 +0000
Subject: [PATCH 090/129] fix: PLY files with numbers of views lacked them
 without tracks

---
 opensfm/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/io.py b/opensfm/io.py
index 73e82e2..10cef37 100644
--- a/opensfm/io.py
+++ b/opensfm/io.py
@@ -1154,9 +1154,9 @@ def reconstruction_to_ply(
                 p[0], p[1], p[2], int(c[0]), int(c[1]), int(c[2])
             )
 
-            if point_num_views and tracks_manager:
+            if point_num_views:
                 obs_count = point.number_of_observations()
-                if obs_count == 0:
+                if obs_count == 0 and tracks_manager:
                     obs_count = len(tracks_manager.get_track_observations(point.id))
                 s += " {}".format(obs_count)
 
-- 
2.43.0


From 50f5bc63494713e6470d90c25862adfbc9ab270d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:48 +0000
Subject: [PATCH 091/129] fix: import of colmap reconstructions with more than
 one image failed

---
 bin/import_colmap.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bin/import_colmap.py b/bin/import_colmap.py
index fcdbd8b..5634510 100755
--- a/bin/import_colmap.py
+++ b/bin/import_colmap.py
@@ -66,7 +66,6 @@ def compute_and_save_undistorted_reconstruction(
     urec = types.Reconstruction()
     # pyrefly: ignore [missing-attribute]
     utracks_manager = pymap.TracksManager()
-    undistorted_shots = []
     for shot in reconstruction.shots.values():
         if shot.camera.projection_type == "perspective":
             # pyrefly: ignore [missing-attribute]
@@ -85,14 +84,13 @@ def compute_and_save_undistorted_reconstruction(
         if tracks_manager:
             # pyrefly: ignore [missing-attribute]
             osfm_u.add_subshot_tracks(tracks_manager, utracks_manager, shot, ushot)
-        undistorted_shots.append(ushot)
 
         image = data.load_image(shot.id, unchanged=True, anydepth=True)
         if image is not None:
             max_size = data.config["undistorted_image_max_size"]
             # pyrefly: ignore [missing-attribute]
             undistorted = osfm_u.undistort_image(
-                shot, undistorted_shots, image, cv2.INTER_AREA, max_size
+                shot, [ushot], image, cv2.INTER_AREA, max_size
             )
             for k, v in undistorted.items():
                 udata.save_undistorted_image(k, v)
-- 
2.43.0


From 5bbcb1f4edbe9c2f85bf51a995c3efff4eb810fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:48 +0000
Subject: [PATCH 092/129] fix: import of colmap reconstructions failed for lack
 of an undistorted folder

---
 bin/import_colmap.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bin/import_colmap.py b/bin/import_colmap.py
index 5634510..8896181 100755
--- a/bin/import_colmap.py
+++ b/bin/import_colmap.py
@@ -599,7 +599,11 @@ def main():
 
         # Save undistorted reconstruction as well
         # pyrefly: ignore [missing-attribute]
-        udata = dataset.UndistortedDataSet(data, io_handler=data.io_handler)
+        udata = dataset.UndistortedDataSet(
+            data,
+            os.path.join(data.data_path, "undistorted"),
+            io_handler=data.io_handler,
+        )
         urec = compute_and_save_undistorted_reconstruction(
             reconstruction, tracks_manager, data, udata
         )
-- 
2.43.0


From ee659c976b53164b4e41a98ffe38103a17b1dade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:48 +0000
Subject: [PATCH 093/129] fix: import of colmap databases failed with current
 numpy

---
 bin/import_colmap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bin/import_colmap.py b/bin/import_colmap.py
index 8896181..2ac0bef 100755
--- a/bin/import_colmap.py
+++ b/bin/import_colmap.py
@@ -129,7 +129,7 @@ def import_cameras_images(db, data):
     for row in cursor:
         camera_id, camera_model_id, width, height, prior_focal, params = row
         # pyrefly: ignore [no-matching-overload]
-        params = np.fromstring(params, dtype=np.double)
+        params = np.frombuffer(params, dtype=np.double)
         cam = cam_from_colmap_params(
             camera_model_id, width, height, params, prior_focal
         )
@@ -196,7 +196,7 @@ def import_features(db, data, image_map, camera_map):
         cam = camera_map[camera_id]
 
         # pyrefly: ignore [no-matching-overload]
-        arr = np.fromstring(arr, dtype=np.float32).reshape((n_rows, n_cols))
+        arr = np.frombuffer(arr, dtype=np.float32).reshape((n_rows, n_cols)).copy()
 
         rgb = data.load_image(filename).astype(np.float32)
         xc = np.clip(arr[:, 1].astype(int), 0, rgb.shape[0] - 1)
@@ -226,7 +226,7 @@ def import_features(db, data, image_map, camera_map):
         image_id, n_rows, n_cols, arr = row
         filename, _ = image_map[image_id]
         # pyrefly: ignore [no-matching-overload]
-        descriptors = np.fromstring(arr, dtype=np.uint8).reshape((n_rows, n_cols))
+        descriptors = np.frombuffer(arr, dtype=np.uint8).reshape((n_rows, n_cols))
         kp = keypoints[image_id]
         # pyrefly: ignore [missing-attribute]
         features_data = features.FeaturesData(kp, descriptors, colors[image_id], None)
@@ -248,7 +248,7 @@ def import_matches(db, data, image_map):
     for row in cursor:
         pair_id = row[0]
         # pyrefly: ignore [no-matching-overload]
-        inlier_matches = np.fromstring(row[1], dtype=np.uint32).reshape(-1, 2)
+        inlier_matches = np.frombuffer(row[1], dtype=np.uint32).reshape(-1, 2)
         image_id1, image_id2 = pair_id_to_image_ids(pair_id)
         image_name1 = image_map[image_id1][0]
         image_name2 = image_map[image_id2][0]
-- 
2.43.0


From 3724f551c2c795ed3ad522913bee81a94660dee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:48 +0000
Subject: [PATCH 094/129] fix: import of colmap dropped the second distortion
 of fisheye cameras

---
 bin/import_colmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/import_colmap.py b/bin/import_colmap.py
index 2ac0bef..543ed19 100755
--- a/bin/import_colmap.py
+++ b/bin/import_colmap.py
@@ -299,7 +299,7 @@ def cam_from_colmap_params(camera_model_id, width, height, params, prior_focal=1
         cam = pygeometry.Camera.create_perspective(focal, 0, 0)
     else:  # projection_type == 'fisheye'
         # pyrefly: ignore [missing-attribute]
-        cam = pygeometry.Camera.create_fisheye(focal, params[3], 0)
+        cam = pygeometry.Camera.create_fisheye(focal, params[3], params[4])
     cam.width = width
     cam.height = height
     return cam
-- 
2.43.0


From 739990e0824b73c1b49b7f3eb97f0f986aea6a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:48 +0000
Subject: [PATCH 095/129] fix: observations of imported colmap tracks were not
 normalized

---
 bin/import_colmap.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bin/import_colmap.py b/bin/import_colmap.py
index 543ed19..7f0d529 100755
--- a/bin/import_colmap.py
+++ b/bin/import_colmap.py
@@ -418,16 +418,15 @@ def import_images_reconstruction(path_images, keypoints, rec):
 
             n_points_2d = unpack("<Q", f.read(8))[0]
             for point2d_ix in range(n_points_2d):
-                x = unpack("<d", f.read(8))[0]
-                y = unpack("<d", f.read(8))[0]
+                f.seek(16, 1)  # x and y are the ones of the keypoint
                 point3d_id = unpack("<Q", f.read(8))[0]
                 if point3d_id != np.iinfo(np.uint64).max:
                     kp = keypoints[image_id][point2d_ix]
                     r, g, b = rec.points[str(point3d_id)].color
                     # pyrefly: ignore [missing-attribute]
                     obs = pymap.Observation(
-                        x,
-                        y,
+                        kp[0],
+                        kp[1],
                         kp[2],
                         int(r),
                         int(g),
-- 
2.43.0


From 57753b86b3b71d981ad8fb6e53183edfedb387b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:48 +0000
Subject: [PATCH 096/129] fix: features imported from colmap were half a pixel
 off

---
 bin/import_colmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/import_colmap.py b/bin/import_colmap.py
index 7f0d529..192885e 100755
--- a/bin/import_colmap.py
+++ b/bin/import_colmap.py
@@ -205,7 +205,7 @@ def import_features(db, data, image_map, camera_map):
 
         # pyrefly: ignore [missing-attribute]
         arr[:, :2] = features.normalized_image_coordinates(
-            arr[:, :2], cam.width, cam.height
+            arr[:, :2] - 0.5, cam.width, cam.height
         )
         if n_cols == 4:
             x, y, s, o = arr[:, 0], arr[:, 1], arr[:, 2], arr[:, 3]
-- 
2.43.0


From 2da10faf4c8d63e7ff01486cbad81e93cfaf927c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:48 +0000
Subject: [PATCH 097/129] fix: import of colmap halved small rotations

---
 bin/import_colmap.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bin/import_colmap.py b/bin/import_colmap.py
index 192885e..9a6b17e 100755
--- a/bin/import_colmap.py
+++ b/bin/import_colmap.py
@@ -534,11 +534,13 @@ def quaternion_to_angle_axis(quaternion):
     if quaternion[0] > 1:
         quaternion = quaternion / np.linalg.norm(quaternion)
     qw, qx, qy, qz = quaternion
-    s = max(0.001, math.sqrt(1 - qw * qw))
+    s = math.sqrt(qx * qx + qy * qy + qz * qz)
+    if s == 0:
+        return [0.0, 0.0, 0.0]
     x = qx / s
     y = qy / s
     z = qz / s
-    angle = 2 * math.acos(qw)
+    angle = 2 * math.atan2(s, qw)
     return [angle * x, angle * y, angle * z]
 
 
-- 
2.43.0


From 840c1c7b6e9ff01d455a554faeafe1c9c7370e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:34 +0000
Subject: [PATCH 098/129] fix: shots of reconstructions in geographic
 coordinates were kilometers off

---
 opensfm/actions/export_geocoords.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opensfm/actions/export_geocoords.py b/opensfm/actions/export_geocoords.py
index 843d2d2..16691c8 100644
--- a/opensfm/actions/export_geocoords.py
+++ b/opensfm/actions/export_geocoords.py
@@ -128,14 +128,17 @@ def _transform_reconstruction(
 ) -> None:
     """Apply a transformation to a reconstruction in-place."""
     A, b = transformation[:3, :3], transformation[:3, 3]
-    A1 = np.linalg.inv(A)
+
+    # the transformation scales too, and poses only take rotations
+    U, _, Vt = np.linalg.svd(A)
+    A_rotation = np.dot(U, Vt)
 
     # the poses of the shots follow the ones of their rig instances
     for instance in reconstruction.rig_instances.values():
         R = instance.pose.get_rotation_matrix()
         o = instance.pose.get_origin()
         pose = pygeometry.Pose()
-        pose.set_rotation_matrix(np.dot(R, A1))
+        pose.set_rotation_matrix(np.dot(R, A_rotation.T))
         pose.set_origin(np.dot(A, o) + b)
         instance.pose = pose
 
-- 
2.43.0


From 3c540388d3542b3ec2051b7359a55c289b5d1767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:34 +0000
Subject: [PATCH 099/129] fix: export_geojson failed on images without GPS
 position

---
 bin/export_geojson | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/bin/export_geojson b/bin/export_geojson
index 7e193ab..81a28a4 100755
--- a/bin/export_geojson
+++ b/bin/export_geojson
@@ -34,19 +34,19 @@ def main():
     rec_features = []
     for reconstruction in reconstructions:
         for shot in reconstruction.shots.values():
-            exif = data.load_exif(shot.id)
-            gps_features.append({
-                "type": "Feature",
-                "geometry": {
-                    "type": "Point",
-                    "coordinates": [exif['gps']['longitude'],
-                                    exif['gps']['latitude']],
-                },
-                "properties": {
-                    "marker-size": "small",
-                    "marker-color": "#E80",
-                }
-            })
+            gps = data.load_exif(shot.id).get('gps', {})
+            if 'longitude' in gps and 'latitude' in gps:
+                gps_features.append({
+                    "type": "Feature",
+                    "geometry": {
+                        "type": "Point",
+                        "coordinates": [gps['longitude'], gps['latitude']],
+                    },
+                    "properties": {
+                        "marker-size": "small",
+                        "marker-color": "#E80",
+                    }
+                })
 
             lat, lon, alt, angle = orec.shot_lla_and_compass(shot, reference)
             rec_features.append({
-- 
2.43.0


From a9eff80b106b30911f496fbd8d4c7f3145cebc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:22 +0000
Subject: [PATCH 100/129] fix: import of bundler reconstructions was written
 for python 2 and old modules

---
 bin/import_bundler | 60 ++++++++++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 29 deletions(-)

diff --git a/bin/import_bundler b/bin/import_bundler
index 5aceac6..af2c0ac 100755
--- a/bin/import_bundler
+++ b/bin/import_bundler
@@ -3,35 +3,13 @@ import os.path, sys
 sys.path.insert(0, os.path.abspath(os.path.join(os.path.dirname(__file__), "..")))
 import argparse
 
-import json
+import logging
 import numpy as np
 
-import opensfm.dataset as dataset
-import opensfm.io as io
+from opensfm import io, pygeometry, types
 
-if __name__ == "__main__":
-    parser = argparse.ArgumentParser(description='Convert output from Bundler to OpenSfM reconstructions')
-    parser.add_argument('dataset', help='path to the dataset to be processed')
-    parser.add_argument('--list', help='the list.txt file')
-    parser.add_argument('--bundleout', help='the bundle.out file')
-    args = parser.parse_args()
-
-    if args.list:
-        list_file = args.list
-    else:
-        list_file = 'list.txt'
 
-    if not args.bundleout:
-        print "No bundle.out given.  Importing only the list of images list.txt."
-
-    if os.path.exists(list_file):
-        print 'Converting output from Bundler to OpenSfM'
-        data = dataset.DataSet(args.dataset)
-        tracks_file = data._DataSet__tracks_graph_file()
-        reconstruction_file = data._DataSet__reconstruction_file(None)
-        import_bundler(args.dataset, args.bundleout, list_file, tracks_file, reconstruction_file)
-    else:
-        print 'Cannot find list.txt'
+logger = logging.getLogger(__name__)
 
 
 def import_bundler(
@@ -80,7 +58,7 @@ def import_bundler(
         focal, k1, k2 = map(float, lines[offset].rstrip("\n").split(" "))
 
         if focal > 0:
-            im = imread(os.path.join(data_path, image_list[i]))
+            im = io.imread(os.path.join(data_path, image_list[i]))
             height, width = im.shape[0:2]
             camera = pygeometry.Camera.create_perspective(
                 focal / max(width, height), k1, k2
@@ -114,7 +92,7 @@ def import_bundler(
     for i in range(num_point):
         coordinates = lines[offset].rstrip("\n").split(" ")
         color = lines[offset + 1].rstrip("\n").split(" ")
-        point = reconstruction.create_point(i, list(map(float, coordinates)))
+        point = reconstruction.create_point(str(i), list(map(float, coordinates)))
         point.color = list(map(int, color))
 
         view_line = lines[offset + 2].rstrip("\n").split(" ")
@@ -146,6 +124,30 @@ def import_bundler(
     # save reconstruction
     if reconstruction_file is not None:
         with io.open_wt(reconstruction_file) as fout:
-            obj = reconstructions_to_json([reconstruction])
-            json_dump(obj, fout)
+            obj = io.reconstructions_to_json([reconstruction])
+            io.json_dump(obj, fout)
     return reconstruction
+
+
+if __name__ == "__main__":
+    parser = argparse.ArgumentParser(description='Convert output from Bundler to OpenSfM reconstructions')
+    parser.add_argument('dataset', help='path to the dataset to be processed')
+    parser.add_argument('--list', help='the list.txt file')
+    parser.add_argument('--bundleout', help='the bundle.out file')
+    args = parser.parse_args()
+
+    if args.list:
+        list_file = args.list
+    else:
+        list_file = 'list.txt'
+
+    if not args.bundleout:
+        print("No bundle.out given.  Importing only the list of images list.txt.")
+
+    if os.path.exists(list_file):
+        print('Converting output from Bundler to OpenSfM')
+        tracks_file = os.path.join(args.dataset, 'tracks.csv')
+        reconstruction_file = os.path.join(args.dataset, 'reconstruction.json')
+        import_bundler(args.dataset, args.bundleout, list_file, tracks_file, reconstruction_file)
+    else:
+        print('Cannot find list.txt')
-- 
2.43.0


From 1e6f992b18474ab61fa806dacf52e715e9fafd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:22 +0000
Subject: [PATCH 101/129] fix: import of colmap depthmaps failed with current
 matplotlib

---
 bin/import_colmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/import_colmap.py b/bin/import_colmap.py
index 9a6b17e..c21ff29 100755
--- a/bin/import_colmap.py
+++ b/bin/import_colmap.py
@@ -112,7 +112,7 @@ def depth_colormap(d, cmap=None, invalid_val=0, invalid_color=(0.5, 0.5, 0.5)):
     """
     Colormaps and sets 0 (invalid) values to zero_color
     """
-    sm = cm.ScalarMappable(cmap=cm.get_cmap(cmap))
+    sm = cm.ScalarMappable(cmap=cmap)
     sm.set_array(d)
     rgb = sm.to_rgba(d)[:, :, :3]
     rgb[d == invalid_val] = invalid_color
-- 
2.43.0


From 7d6695c372e803f0ade87bda4d9312cb0260eb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:52 +0000
Subject: [PATCH 102/129] fix: import of colmap looked for the undistortion in
 the wrong module

---
 bin/import_colmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/import_colmap.py b/bin/import_colmap.py
index c21ff29..b4e7e12 100755
--- a/bin/import_colmap.py
+++ b/bin/import_colmap.py
@@ -20,7 +20,7 @@ from struct import unpack
 import cv2
 import matplotlib.pyplot as pl
 import numpy as np
-import opensfm.actions.undistort as osfm_u
+import opensfm.undistort as osfm_u
 from matplotlib import cm
 from mpl_toolkits.axes_grid1 import make_axes_locatable
 
-- 
2.43.0


From 190a2ca74f112fe928ab3b425b7ed598c2b533b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:52 +0000
Subject: [PATCH 103/129] fix: import of colmap failed on image names with
 other than ASCII characters

---
 bin/import_colmap.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bin/import_colmap.py b/bin/import_colmap.py
index b4e7e12..cd3654b 100755
--- a/bin/import_colmap.py
+++ b/bin/import_colmap.py
@@ -401,12 +401,13 @@ def import_images_reconstruction(path_images, keypoints, rec):
             t1 = unpack("<d", f.read(8))[0]
             t2 = unpack("<d", f.read(8))[0]
             camera_id = unpack("<I", f.read(4))[0]
-            filename = ""
+            filename = b""
             while True:
-                c = f.read(1).decode()
-                if c == "\0":
+                c = f.read(1)
+                if c == b"\0":
                     break
                 filename += c
+            filename = filename.decode()
             q = np.array([q0, q1, q2, q3])
             q /= np.linalg.norm(q)
             t = np.array([t0, t1, t2])
-- 
2.43.0


From 03e41ea19374d0a1140b60515baea8cc11cb4c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:35 +0000
Subject: [PATCH 104/129] fix: depthmaps imported from colmap were empty
 without a maximum depth

---
 bin/import_colmap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/import_colmap.py b/bin/import_colmap.py
index cd3654b..f2491b5 100755
--- a/bin/import_colmap.py
+++ b/bin/import_colmap.py
@@ -505,7 +505,9 @@ def project_pointcloud_save_depth(udata, urec, points, shot_id, max_sz):
     distances = np.linalg.norm(points - shot.pose.get_origin(), axis=1)
     viewing_angles = np.arctan2(np.linalg.norm(points_2d, axis=1), shot.camera.focal)
     depths = distances * np.cos(viewing_angles)
-    depths[depths > udata.config["depthmap_max_depth"]] = 0
+    max_depth = udata.config["depthmap_max_depth"]
+    if max_depth > 0:  # 0 is for no given maximum
+        depths[depths > max_depth] = 0
 
     # Create depth image
     depth_image = np.zeros([h, w])
-- 
2.43.0


From 78565906dfea46953a89abe5a13679619cb2db6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:08 +0000
Subject: [PATCH 105/129] fix: points that fall just outside of a neighbour
 were pruned by its border pixels

---
 opensfm/src/dense/src/depthmap.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/opensfm/src/dense/src/depthmap.cc b/opensfm/src/dense/src/depthmap.cc
index fbca39b..42d4c07 100644
--- a/opensfm/src/dense/src/depthmap.cc
+++ b/opensfm/src/dense/src/depthmap.cc
@@ -1,5 +1,6 @@
 #include "../depthmap.h"
 
+#include <cmath>
 #include <cstdint>
 #include <random>
 
@@ -583,10 +584,10 @@ void DepthmapPruner::Prune(std::vector<float>* merged_points,
         if (reprojection(2) < z_epsilon || isnan(reprojection(2))) {
           continue;
         }
-        std::int64_t iu =
-            static_cast<std::int64_t>(reprojection(0) / reprojection(2) + 0.5);
-        std::int64_t iv =
-            static_cast<std::int64_t>(reprojection(1) / reprojection(2) + 0.5);
+        std::int64_t iu = static_cast<std::int64_t>(
+            std::floor(reprojection(0) / reprojection(2) + 0.5));
+        std::int64_t iv = static_cast<std::int64_t>(
+            std::floor(reprojection(1) / reprojection(2) + 0.5));
         double depth_of_point = reprojection(2);
         if (!IsInsideImage(depths_[other], iv, iu)) {
           continue;
-- 
2.43.0


From 7af81ad5f6206d12e1505152befd9cb8af6f661f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:08 +0000
Subject: [PATCH 106/129] fix: the depthmap of a neighbour was pruned as the
 one of an image without depthmap

---
 opensfm/dense.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opensfm/dense.py b/opensfm/dense.py
index 19a107a..ba55d5c 100644
--- a/opensfm/dense.py
+++ b/opensfm/dense.py
@@ -180,6 +180,9 @@ def clean_depthmap(
     if data.clean_depthmap_exists(shot.id):
         logger.info("Using precomputed clean depthmap {}".format(shot.id))
         return
+    if not data.raw_depthmap_exists(shot.id):
+        logger.warning("No raw depthmap to clean for image {}".format(shot.id))
+        return
     logger.info("Cleaning depthmap for image {}".format(shot.id))
 
     dc = pydense.DepthmapCleaner()
@@ -226,6 +229,9 @@ def prune_depthmap(
     if data.pruned_depthmap_exists(shot.id):
         logger.info("Using precomputed pruned depthmap {}".format(shot.id))
         return
+    if not data.clean_depthmap_exists(shot.id):
+        logger.warning("No clean depthmap to prune for image {}".format(shot.id))
+        return
     logger.info("Pruning depthmap for image {}".format(shot.id))
 
     dp = pydense.DepthmapPruner()
-- 
2.43.0


From 9edc145ce8bf84f7f7590b25270a61fe731d0bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:37 +0000
Subject: [PATCH 107/129] fix: viewer placed shots without rotation nowhere

---
 viewer/src/provider/math.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/viewer/src/provider/math.js b/viewer/src/provider/math.js
index 00dcd22..43b1b03 100644
--- a/viewer/src/provider/math.js
+++ b/viewer/src/provider/math.js
@@ -73,6 +73,9 @@ export function createViewingDirection(rotation) {
 
 export function mat4FromAngleAxis(angle, axis) {
   const m = mat4.create();
+  if (angle === 0) {
+    return m; // No axis
+  }
   return mat4.fromRotation(m, angle, axis);
 }
 
-- 
2.43.0


From 2599188abc445890f223bc556e97a37ee5e06c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:37 +0000
Subject: [PATCH 108/129] fix: viewer failed on an undefined name when a file
 could not be loaded

---
 viewer/src/provider/OpensfmDataProvider.js | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/viewer/src/provider/OpensfmDataProvider.js b/viewer/src/provider/OpensfmDataProvider.js
index 53dba7c..18b8e65 100644
--- a/viewer/src/provider/OpensfmDataProvider.js
+++ b/viewer/src/provider/OpensfmDataProvider.js
@@ -303,13 +303,11 @@ export class OpensfmDataProvider extends DataProviderBase {
 
   _initialize(file, inventImages) {
     if (this.loaded) {
-      reject(new Error('Already loaded'));
-      return;
+      throw new Error('Already loaded');
     }
 
     if (!isReconstructionData(file.data)) {
-      reject(new Error('Not a reconstruction'));
-      return;
+      throw new Error('Not a reconstruction');
     }
 
     this._addFile(file);
-- 
2.43.0


From 0e5f3b75cadb8ae2b0c35dcbe30f6bfd50f1f033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:34 +0000
Subject: [PATCH 109/129] fix: pair selection failed when an image with
 orientation lacks GPS

---
 opensfm/pairs_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/pairs_selection.py b/opensfm/pairs_selection.py
index 33dfc1c..ce4a6f7 100644
--- a/opensfm/pairs_selection.py
+++ b/opensfm/pairs_selection.py
@@ -144,7 +144,7 @@ def get_representative_points(
         altitude = find_best_altitude(origin, directions)
         logger.info(f"Altitude for orientation based matching {altitude}")
         directions_scaled = {k: v / DEFAULT_Z * altitude for k, v in directions.items()}
-        points = {k: origin[k] + directions_scaled[k] for k in images}
+        points = {k: origin[k] + directions_scaled[k] for k in origin}
     else:
         points = origin
 
-- 
2.43.0


From e008689c57e280b725252c3f568d82901fd534c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:50 +0000
Subject: [PATCH 110/129] fix: pair selection failed for parallel views from
 one position

---
 opensfm/pairs_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/pairs_selection.py b/opensfm/pairs_selection.py
index ce4a6f7..e41f1f6 100644
--- a/opensfm/pairs_selection.py
+++ b/opensfm/pairs_selection.py
@@ -97,7 +97,7 @@ def find_best_altitude(
 
     coeffs = np.polyfit(samples_x, samples_y, 2)
     extrema = -coeffs[1] / (2 * coeffs[0])
-    if extrema < 0:
+    if not np.isfinite(extrema) or extrema < 0:
         logger.info(
             f"Altitude is negative ({extrema}) : viewing directions are probably divergent. Using default altitude of {DEFAULT_Z}"
         )
-- 
2.43.0


From 4294352d5c3eca4e95f98745c61a243ae6e061f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:50 +0000
Subject: [PATCH 111/129] fix: matches saved for the second image of a pair
 were found swapped

---
 opensfm/matching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/matching.py b/opensfm/matching.py
index b791fd0..9f4b143 100644
--- a/opensfm/matching.py
+++ b/opensfm/matching.py
@@ -143,7 +143,8 @@ def save_matches(
         if im1 in images_ref_set:
             matches_per_im1[im1][im2] = m
         elif im2 in images_ref_set:
-            matches_per_im1[im2][im1] = m
+            # matches are stored as seen from the image that stores them
+            matches_per_im1[im2][im1] = np.array([(j, i) for i, j in m], dtype=int)
         else:
             raise RuntimeError(
                 "Couldn't save matches for {}. No image found in images_ref.".format(
-- 
2.43.0


From d287645cafbf105bd83efeea8a2ed4b2d027b6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:53 +0000
Subject: [PATCH 112/129] fix: GPX times were converted with the current offset
 instead of their own

---
 opensfm/geotag_from_gpx.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opensfm/geotag_from_gpx.py b/opensfm/geotag_from_gpx.py
index 375cabc..6269b35 100644
--- a/opensfm/geotag_from_gpx.py
+++ b/opensfm/geotag_from_gpx.py
@@ -54,8 +54,9 @@ Requires pyexiv2, see install instructions at http://tilloy.net/dev/pyexiv2/
 
 
 def utc_to_localtime(utc_time: datetime.datetime) -> datetime.datetime:
-    utc_offset_timedelta = datetime.datetime.utcnow() - datetime.datetime.now()
-    return utc_time - utc_offset_timedelta
+    # the offset is the one in force at that time, not the current one
+    utc_time = utc_time.replace(tzinfo=datetime.timezone.utc)
+    return utc_time.astimezone().replace(tzinfo=None)
 
 
 def get_lat_lon_time(
-- 
2.43.0


From 2243e50cb6765bacae9a17c09a5d5b6736753854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:51 +0000
Subject: [PATCH 113/129] fix: update_geotag could not use the reconstruction
 file it was given

---
 bin/update_geotag | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/update_geotag b/bin/update_geotag
index c2ade67..cf0253f 100755
--- a/bin/update_geotag
+++ b/bin/update_geotag
@@ -46,7 +46,7 @@ if args.reconstruction_file is None:
     reconstructions = data.load_reconstruction()
 else:
     with open(args.reconstruction_file) as f:
-        reconstructions = io.json_loads(f.read())
+        reconstructions = io.reconstructions_from_json(io.json_loads(f.read()))
 
 for reconstruction in reconstructions:
     # write updated gps/compass to the image file
-- 
2.43.0


From e80b2db482f83fcb2fd59587d1720b4465a67eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:30 +0000
Subject: [PATCH 114/129] fix: clean deleted other trash, and lost files when
 run inside of the dataset

---
 bin/clean | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/bin/clean b/bin/clean
index 0bb23cf..fd89409 100755
--- a/bin/clean
+++ b/bin/clean
@@ -1,18 +1,17 @@
 #!/usr/bin/env bash
 
-trash=$1/trash/`date -u +"%Y-%m-%dT%H:%M:%SZ"`
-mkdir -p $trash
-rm -rf trash/*
+trash="$1"/trash/`date -u +"%Y-%m-%dT%H:%M:%SZ"`
+mkdir -p "$trash"
 
-mv -vf $1/reconstruction*.json $trash
-mv -vf $1/exif $trash
-mv -vf $1/matches $trash
-mv -vf $1/camera_models.json $trash
-mv -vf $1/reference_lla.json $trash
-mv -vf $1/profile.log $trash
-mv -vf $1/plot_inliers $trash
-mv -vf $1/depthmaps $trash
-mv -vf $1/features $trash
-mv -vf $1/undistorted* $trash
-mv -vf $1/tracks.csv $trash
-mv -vf $1/reports $trash
+mv -vf "$1"/reconstruction*.json "$trash"
+mv -vf "$1"/exif "$trash"
+mv -vf "$1"/matches "$trash"
+mv -vf "$1"/camera_models.json "$trash"
+mv -vf "$1"/reference_lla.json "$trash"
+mv -vf "$1"/profile.log "$trash"
+mv -vf "$1"/plot_inliers "$trash"
+mv -vf "$1"/depthmaps "$trash"
+mv -vf "$1"/features "$trash"
+mv -vf "$1"/undistorted* "$trash"
+mv -vf "$1"/tracks.csv "$trash"
+mv -vf "$1"/reports "$trash"
-- 
2.43.0


From 907e36cc0dbac35c60057dd003397fa199739c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:30 +0000
Subject: [PATCH 115/129] fix: iterative_self_calibration failed for a dataset
 without configuration

---
 bin/iterative_self_calibration | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bin/iterative_self_calibration b/bin/iterative_self_calibration
index d981cfe..b3a854b 100755
--- a/bin/iterative_self_calibration
+++ b/bin/iterative_self_calibration
@@ -108,8 +108,10 @@ def init_dataset(src, dst, camera_models):
 
 def init_config(src, dst):
     """Init the config with calibration specific options."""
-    with io.open_rt(pj(src, 'config.yaml')) as fp:
-        conf = yaml.safe_load(fp)
+    conf = {}
+    if os.path.isfile(pj(src, 'config.yaml')):
+        with io.open_rt(pj(src, 'config.yaml')) as fp:
+            conf = yaml.safe_load(fp) or {}
     conf['exif_focal_sd'] = 1.0
     conf['principal_point_sd'] = 1.0
     conf['radial_distorsion_k1_sd'] = 1.0
-- 
2.43.0


From 690e3fe6784eb44e11a7d2c009bbcced933f51b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:31 +0000
Subject: [PATCH 116/129] fix: iterative_self_calibration opened the dataset of
 an iteration before it had images

---
 bin/iterative_self_calibration | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bin/iterative_self_calibration b/bin/iterative_self_calibration
index b3a854b..3cb85ce 100755
--- a/bin/iterative_self_calibration
+++ b/bin/iterative_self_calibration
@@ -87,10 +87,7 @@ def init_dataset(src, dst, camera_models):
 
     io.mkdir_p(dst)
 
-    if camera_models:
-        data = dataset.DataSet(dst)
-        data.save_camera_models_overrides(camera_models)
-    else:
+    if not camera_models:
         filenames.append('camera_models_overrides.json')
 
     for filename in filenames:
@@ -103,6 +100,11 @@ def init_dataset(src, dst, camera_models):
 
             os.symlink(os.path.relpath(src_path, dst), dst_path)
 
+    # A dataset without images cannot be opened
+    if camera_models:
+        data = dataset.DataSet(dst)
+        data.save_camera_models_overrides(camera_models)
+
     init_config(src, dst)
 
 
-- 
2.43.0


From bd40315778b14ef069d958cf4d306a8fc34d420b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:37 +0000
Subject: [PATCH 117/129] fix: extend_reconstruction failed for images with a
 camera the input does not have

---
 opensfm/actions/extend_reconstruction.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/opensfm/actions/extend_reconstruction.py b/opensfm/actions/extend_reconstruction.py
index d2ba4c0..5b0ebc1 100644
--- a/opensfm/actions/extend_reconstruction.py
+++ b/opensfm/actions/extend_reconstruction.py
@@ -14,6 +14,14 @@ def run_dataset(data: DataSetBase, input: Optional[str], output: Optional[str])
     tracks_manager = data.load_tracks_manager()
     rec_base.add_correspondences_from_tracks_manager(tracks_manager)
 
+    # the images to add can have cameras that no image of the input has
+    for camera_id, camera in data.load_camera_models().items():
+        if camera_id not in rec_base.cameras:
+            rec_base.add_camera(camera)
+    for rig_camera_id, rig_camera in data.load_rig_cameras().items():
+        if rig_camera_id not in rec_base.rig_cameras:
+            rec_base.add_rig_camera(rig_camera)
+
     images = data.images()
     remaining_images = set(images) - set(rec_base.shots)
     gcp = data.load_ground_control_points()
-- 
2.43.0


From 3ea3564d7fa86fee2429e29f787b5c9f41c526cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:53 +0000
Subject: [PATCH 118/129] fix: extend_reconstruction failed when an image has
 no tracks

---
 opensfm/actions/extend_reconstruction.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opensfm/actions/extend_reconstruction.py b/opensfm/actions/extend_reconstruction.py
index 5b0ebc1..cf39061 100644
--- a/opensfm/actions/extend_reconstruction.py
+++ b/opensfm/actions/extend_reconstruction.py
@@ -22,8 +22,9 @@ def run_dataset(data: DataSetBase, input: Optional[str], output: Optional[str])
         if rig_camera_id not in rec_base.rig_cameras:
             rec_base.add_rig_camera(rig_camera)
 
-    images = data.images()
-    remaining_images = set(images) - set(rec_base.shots)
+    images = set(data.images()) - set(rec_base.shots)
+    # images without tracks cannot be added
+    remaining_images = images & set(tracks_manager.get_shot_ids())
     gcp = data.load_ground_control_points()
     report = {}
     rec_report = {}
@@ -35,6 +36,7 @@ def run_dataset(data: DataSetBase, input: Optional[str], output: Optional[str])
         remaining_images,
         gcp,
     )
+    remaining_images = images - set(rec.shots)
     rec_report["num_remaining_images"] = len(remaining_images)
     # pyrefly: ignore [no-matching-overload, unsupported-operation]
     report["not_reconstructed_images"] = list(remaining_images)
-- 
2.43.0


From 52fef7127411d05f4dc148b7847b0bb544256cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:07 +0000
Subject: [PATCH 119/129] fix: features saved again beside a file with the
 older name were ignored

---
 opensfm/dataset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opensfm/dataset.py b/opensfm/dataset.py
index fc1deb3..843d57f 100644
--- a/opensfm/dataset.py
+++ b/opensfm/dataset.py
@@ -312,9 +312,9 @@ class DataSet(DataSetBase):
 
     def load_features(self, image: str) -> Optional[features.FeaturesData]:
         features_filepath = (
-            self._feature_file_legacy(image)
-            if self.io_handler.isfile(self._feature_file_legacy(image))
-            else self._feature_file(image)
+            self._feature_file(image)
+            if self.io_handler.isfile(self._feature_file(image))
+            else self._feature_file_legacy(image)
         )
         with self.io_handler.open_rb(features_filepath) as f:
             return features.FeaturesData.from_file(f, self.config)
-- 
2.43.0


From 6f6c523467f884688dfef321e39f3503b1557dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:34 +0000
Subject: [PATCH 120/129] fix: the viewer failed on a reconstruction without
 points

---
 viewer/src/control/StatsControl.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viewer/src/control/StatsControl.js b/viewer/src/control/StatsControl.js
index 5816dc0..d515e69 100644
--- a/viewer/src/control/StatsControl.js
+++ b/viewer/src/control/StatsControl.js
@@ -29,7 +29,7 @@ export class StatsControl {
       const url = data.file.url;
       const cluster = data.cluster;
       const shotCount = Object.keys(cluster.shots).length;
-      const pointCount = Object.keys(cluster.points).length;
+      const pointCount = Object.keys(cluster.points ?? {}).length;
       const content = this._makeContent(id, shotCount, pointCount, url);
       this.addStatRow(content);
 
-- 
2.43.0


From af15703d644469438d2a3f72b64199eac79160da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:50 +0000
Subject: [PATCH 121/129] fix: the orbit controls of the viewer failed when the
 reference changed

---
 viewer/src/ui/OrbitCameraControls.js | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/viewer/src/ui/OrbitCameraControls.js b/viewer/src/ui/OrbitCameraControls.js
index d48d049..37fe0b3 100644
--- a/viewer/src/ui/OrbitCameraControls.js
+++ b/viewer/src/ui/OrbitCameraControls.js
@@ -7,6 +7,10 @@ import {
   PerspectiveCamera,
   Vector3,
 } from '../../node_modules/three/build/three.module.js';
+import {
+  enuToGeodetic,
+  geodeticToEnu,
+} from '../../node_modules/mapillary-js/dist/mapillary.module.js';
 import * as common from '../../node_modules/gl-matrix/esm/common.js';
 import {OrbitControls} from '../../node_modules/three/examples/jsm/controls/OrbitControls.js';
 
-- 
2.43.0


From fa8493a16633497ab3d928f3f3d35c68c75d9f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:50 +0000
Subject: [PATCH 122/129] fix: the orbit controls of the viewer left any place
 with a zero first coordinate

---
 viewer/src/ui/OrbitCameraControls.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viewer/src/ui/OrbitCameraControls.js b/viewer/src/ui/OrbitCameraControls.js
index 37fe0b3..34d18c6 100644
--- a/viewer/src/ui/OrbitCameraControls.js
+++ b/viewer/src/ui/OrbitCameraControls.js
@@ -147,8 +147,8 @@ export class OrbitCameraControls {
     const eye = [me[12], me[13], me[14]];
     return (
       common.equals(eye[0], 0) &&
-      common.equals(eye[0], 0) &&
-      common.equals(eye[0], 0)
+      common.equals(eye[1], 0) &&
+      common.equals(eye[2], 0)
     );
   }
 
-- 
2.43.0


From 8891215dde94cd040bcce89d2bdf03c8496af54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:49 +0000
Subject: [PATCH 123/129] fix: the file list of the viewer was shown twice when
 it arrived late

---
 viewer/src/ui/FileSelecter.js | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/viewer/src/ui/FileSelecter.js b/viewer/src/ui/FileSelecter.js
index 4538215..b8e8551 100644
--- a/viewer/src/ui/FileSelecter.js
+++ b/viewer/src/ui/FileSelecter.js
@@ -26,6 +26,7 @@ export class FileSelecter {
     this._items = new Map();
     this._resolver = null;
     this._rejecter = null;
+    this._fetching = false;
   }
 
   get isActive() {
@@ -50,7 +51,7 @@ export class FileSelecter {
       this._rejecter = reject;
     });
 
-    if (this._items.size === 0) {
+    if (this._items.size === 0 && !this._fetching) {
       this._fetchList();
     }
 
@@ -114,6 +115,7 @@ export class FileSelecter {
   }
 
   async _fetchList() {
+    this._fetching = true;
     const options = {
       method: 'GET',
       headers: {
@@ -150,6 +152,8 @@ export class FileSelecter {
       });
     } catch (error) {
       console.error(error);
+    } finally {
+      this._fetching = false;
     }
   }
 
-- 
2.43.0


From 61a225c20859cad38540929596435640100dd480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:15 +0000
Subject: [PATCH 124/129] fix: the file button of the viewer said to hide a
 panel that was closed after failures

---
 viewer/src/controller/FileController.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viewer/src/controller/FileController.js b/viewer/src/controller/FileController.js
index ea807f1..a527e85 100644
--- a/viewer/src/controller/FileController.js
+++ b/viewer/src/controller/FileController.js
@@ -70,7 +70,7 @@ export class FileController extends EventEmitter {
     while (this.isActive()) {
       if (tries > 10) {
         console.warn('To many load attempts, aborting');
-        this._hide();
+        await this.toggle();
         return;
       }
       try {
-- 
2.43.0


From e6fc355ef50ad0469da93f21c9fe59bc42fc46a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:52 +0000
Subject: [PATCH 125/129] fix: keep the direction of the view in the orbit
 controls at and below the ground

---
 viewer/src/ui/OrbitCameraControls.js | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/viewer/src/ui/OrbitCameraControls.js b/viewer/src/ui/OrbitCameraControls.js
index 34d18c6..7dc3116 100644
--- a/viewer/src/ui/OrbitCameraControls.js
+++ b/viewer/src/ui/OrbitCameraControls.js
@@ -170,7 +170,11 @@ export class OrbitCameraControls {
       const d = new Vector3().subVectors(p0, l0).dot(n) / forward.dot(n);
       const intersection = l0
         .clone()
-        .add(forward.clone().multiplyScalar(Math.min(MAX_DISTANCE, d)));
+        .add(
+          forward
+            .clone()
+            .multiplyScalar(Math.max(MIN_DISTANCE, Math.min(MAX_DISTANCE, d))),
+        );
       return intersection;
     }
   }
-- 
2.43.0


From 79b46393a3fbfc2e58804ce4db2c0bcd559e6380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:24 +0000
Subject: [PATCH 126/129] fix: compare control points with their survey in
 topocentric coordinates

---
 annotation_gui_gcp/run_ba.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/annotation_gui_gcp/run_ba.py b/annotation_gui_gcp/run_ba.py
index a53a25a..2040ab9 100644
--- a/annotation_gui_gcp/run_ba.py
+++ b/annotation_gui_gcp/run_ba.py
@@ -94,13 +94,15 @@ def gcp_geopositional_error(
     coords_reconstruction = triangulate_gcps(gcps, reconstruction)
     out = {}
     for ix, gcp in enumerate(gcps):
-        expected = reconstruction.reference.to_lla(*gcp.lla_vec) if gcp.lla else None
+        expected = (
+            reconstruction.reference.to_topocentric(*gcp.lla_vec) if gcp.lla else None
+        )
         triangulated = (
             coords_reconstruction[ix] if coords_reconstruction[ix] is not None else None
         )
 
         if expected is not None and triangulated is not None:
-            error = np.linalg.norm(expected - triangulated)
+            error = np.linalg.norm(np.array(expected) - triangulated)
             out[gcp.id] = {
                 "expected_xyz": list(expected),
                 "triangulated_xyz": list(triangulated),
-- 
2.43.0


From 280c242a9f39fafd5c1253d3cfa9ad7721a29f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:24 +0000
Subject: [PATCH 127/129] fix: give the bundle adjustment of run_ba the rig
 camera priors it needs

---
 annotation_gui_gcp/run_ba.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/annotation_gui_gcp/run_ba.py b/annotation_gui_gcp/run_ba.py
index 2040ab9..851a007 100644
--- a/annotation_gui_gcp/run_ba.py
+++ b/annotation_gui_gcp/run_ba.py
@@ -715,7 +715,13 @@ def align(
 
         logger.info("Running BA on merged reconstructions")
         # orec.align_reconstruction(merged, None, data.config)
-        orec.bundle(merged, camera_models, {}, gcp=gcps, config=data.config)
+        orec.bundle(
+            merged,
+            camera_models,
+            data.load_rig_cameras(),
+            gcp=gcps,
+            config=data.config,
+        )
         data.save_reconstruction(
             [merged], f"reconstruction_gcp_ba_{rec_a}x{rec_b}.json"
         )
-- 
2.43.0


From e258390274bd381422a2552a082b4d0fa32f11f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:24 +0000
Subject: [PATCH 128/129] fix: skip CAD models with too few control points
 instead of failing

---
 annotation_gui_gcp/run_ba.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/annotation_gui_gcp/run_ba.py b/annotation_gui_gcp/run_ba.py
index 851a007..4fa49f9 100644
--- a/annotation_gui_gcp/run_ba.py
+++ b/annotation_gui_gcp/run_ba.py
@@ -525,7 +525,7 @@ def align_3d_annotations_to_reconstruction(
     n_triangulated = sum(x is not None for x in coords_triangulated_gcps)
     if n_triangulated < 3:
         logger.info(f"{model_id} has {n_triangulated} gcps, not aligning")
-        return
+        return None
 
     coords_annotated_gcps = []
     for gcp in gcps_this_model:
@@ -545,8 +545,8 @@ def align_3d_annotations_to_reconstruction(
             )
     except ValueError:
         logger.warning(f"Could not align reconstruction with {model_id}")
+        return None
 
-    # pyrefly: ignore [unbound-name]
     return gcp_reprojections, {"s": s.tolist(), "A": A.tolist(), "b": b.tolist()}
 
 
@@ -581,9 +581,12 @@ def align_external_3d_models_to_reconstruction(data, gcps, reconstruction, ix_re
 
     # We now operate independently on each 3D model
     for model_id, gcps_this_model in gcps_per_source_file.items():
-        gcp_reprojections, alignment = align_3d_annotations_to_reconstruction(
+        aligned = align_3d_annotations_to_reconstruction(
             gcps_this_model, gcps_3d, model_id, reconstruction
         )
+        if aligned is None:
+            continue
+        gcp_reprojections, alignment = aligned
         p_out = f"{data.data_path}/gcp_reprojections_3D_{ix_rec}x{model_id}.json"
         logger.info(f"Saving reprojected 3D points to {p_out}")
         with open(p_out, "w") as f:
-- 
2.43.0


From 7f46d846d85e16a053af599a6c6f5d904658e189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:39 +0000
Subject: [PATCH 129/129] fix: marking a point in an image must not drop its
 surveyed position when CAD views are open

---
 annotation_gui_gcp/lib/GUI.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/annotation_gui_gcp/lib/GUI.py b/annotation_gui_gcp/lib/GUI.py
index d3c7786..6479316 100644
--- a/annotation_gui_gcp/lib/GUI.py
+++ b/annotation_gui_gcp/lib/GUI.py
@@ -70,7 +70,6 @@ class Gui:
 
     def create_ui(self, cad_paths: Sequence[Path]) -> None:
         subpane_routes = []
-        has_views_that_need_tracking = len(cad_paths) > 0
         self.tools_view = ToolsView(self, self.app)
 
         self.sequence_views = []
@@ -80,7 +79,7 @@ class Gui:
                 self.app,
                 f"/sequence_view_{ix + 1}",
                 image_keys,
-                has_views_that_need_tracking,
+                is_geo_reference=False,
             )
             self.sequence_views.append(v)
 
-- 
2.43.0

