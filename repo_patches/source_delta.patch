From a36b9915eae54326c4255bac9b746f36aafb9f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:40 +0000
Subject: [PATCH 01/56] fix: make DistanceToLine correct for directions that
 are not unit length

The projection was scaled by the length of the direction, so the result
was only the perpendicular distance when the caller passed a unit vector.
---
 common/math.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/math.h b/common/math.h
index 9b34c27..2293ad3 100644
--- a/common/math.h
+++ b/common/math.h
@@ -215,8 +215,9 @@ double DistanceToLine(const Eigen::Matrix<double, N, 1>& point,
                       const Eigen::Matrix<double, N, 1>& origin,
                       const Eigen::Matrix<double, N, 1>& direction) {
   const Eigen::Matrix<double, N, 1> op = point - origin;
+  const Eigen::Matrix<double, N, 1> unit_direction = direction.normalized();
   const Eigen::Matrix<double, N, 1> oc =
-      op.dot(direction) * direction.normalized();
+      op.dot(unit_direction) * unit_direction;
   return (oc - op).norm();
 }
 
-- 
2.43.0


From 96a00d19ce738a7edfe31ea153659d346491bbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:40 +0000
Subject: [PATCH 02/56] fix: average transforms whose angles lie on both sides
 of +-PI

The Euler angles were averaged directly, so two nearly equal poses with
headings just below and just above half a turn averaged to a pose facing
the opposite direction.
---
 common/math.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/common/math.cc b/common/math.cc
index afa07e1..4bdf180 100644
--- a/common/math.cc
+++ b/common/math.cc
@@ -180,10 +180,18 @@ Eigen::Rigid3::Transform<T> AverageTransforms(
   CHECK(!transforms.empty());
   Eigen::Rigid3::Eulers<T> angles(0, 0, 0);
   Eigen::Rigid3::Translation<T> translation(0, 0, 0);
+  // Angles are averaged around the first transform so that angles on both
+  // sides of +-PI do not cancel out.
+  const Eigen::Rigid3::Eulers<T> first_angles = RotationMatrixToEulerAngles(
+      Eigen::Rigid3::Rotation<T>(transforms.front().block(0, 0, 3, 3)));
   for (const Eigen::Rigid3::Transform<T>& transform : transforms) {
     translation += transform.block(0, 3, 3, 1);
-    angles += RotationMatrixToEulerAngles(
+    const Eigen::Rigid3::Eulers<T> current_angles = RotationMatrixToEulerAngles(
         Eigen::Rigid3::Rotation<T>(transform.block(0, 0, 3, 3)));
+    for (int i = 0; i < 3; ++i) {
+      angles[i] += first_angles[i] + NormalizeAngleDifference(
+                                         current_angles[i] - first_angles[i]);
+    }
   }
   translation /= static_cast<T>(transforms.size());
   angles /= static_cast<T>(transforms.size());
-- 
2.43.0


From af670a5a8d140c93dc057dc7f255221145cc45b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:28:10 +0000
Subject: [PATCH 03/56] fix: subdivide cubes at any position without aborting
 or losing points

Splitting a cube whose corners are not exactly representable aborted on an absolute 1e-15 margin. The octree dropped points which sit outside of a smaller box by a rounding error, and it kept the depth of an earlier build.
---
 common/bounding_box.cc | 10 ++++++++--
 common/bounding_box.h  |  4 ++++
 common/octree.cc       |  6 +++++-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/common/bounding_box.cc b/common/bounding_box.cc
index 3274604..5755453 100644
--- a/common/bounding_box.cc
+++ b/common/bounding_box.cc
@@ -41,8 +41,11 @@ CubeBoundingBox::CubeBoundingBox(const Eigen::Vector3d& min,
       max_(max),
       size_(max[0] - min[0]),
       half_size_(0.5 * size_) {
-  CHECK_DOUBLE_EQ(max[1] - min[1], size_);
-  CHECK_DOUBLE_EQ(max[2] - min[2], size_);
+  // The differences carry the rounding error of the corner coordinates.
+  const double margin =
+      1e-12 * (min.cwiseAbs().maxCoeff() + max.cwiseAbs().maxCoeff());
+  CHECK_NEAR(max[1] - min[1], size_, margin);
+  CHECK_NEAR(max[2] - min[2], size_, margin);
 }
 
 std::vector<CubeBoundingBox> CubeBoundingBox::GenerateSubBoxes() const {
@@ -76,7 +79,10 @@ int CubeBoundingBox::GetSubBoxIndexForPoint(
   if (!ContainsPoint(point)) {
     return -1;
   }
+  return GetOctantForPoint(point);
+}
 
+int CubeBoundingBox::GetOctantForPoint(const Eigen::Vector3d& point) const {
   const Eigen::Vector3d offseted_point = point - center_;
   int index = 0;
   if (offseted_point[0] >= 0.) {
diff --git a/common/bounding_box.h b/common/bounding_box.h
index 921a933..7bc6b94 100644
--- a/common/bounding_box.h
+++ b/common/bounding_box.h
@@ -50,6 +50,10 @@ class CubeBoundingBox {
   /// for the given point.
   int GetSubBoxIndexForPoint(const Eigen::Vector3d& point) const;
 
+  /// @brief GetOctantForPoint: same index, but without checking that the point
+  /// is in the box.
+  int GetOctantForPoint(const Eigen::Vector3d& point) const;
+
   /// @brief ContainsPoint: return whether the given point is in the box.
   bool ContainsPoint(const Eigen::Vector3d& point) const;
 
diff --git a/common/octree.cc b/common/octree.cc
index ff2b066..5fdc1a0 100644
--- a/common/octree.cc
+++ b/common/octree.cc
@@ -55,7 +55,10 @@ std::shared_ptr<OctreeNode> Octree::BuildTree(
   const auto sub_bboxes = bbox.GenerateSubBoxes();
   std::vector<OctreePoint> sub_points[8];
   for (const auto& point : points) {
-    const int index = bbox.GetSubBoxIndexForPoint(point);
+    // A point of the root stays in the tree even if it sits outside of a
+    // smaller box by a rounding error.
+    const int index = depth == 0 ? bbox.GetSubBoxIndexForPoint(point)
+                                 : bbox.GetOctantForPoint(point);
     if (index < 0) {
       continue;
     }
@@ -79,6 +82,7 @@ void Octree::InitWithPointCloud(const Eigen::MatrixXd& points) {
   for (int i = 0; i < size; ++i) {
     points_vec[i] = points.col(i).topRows(3);
   }
+  max_depth_ = 0;
   root_ = BuildTree(0, CubeBoundingBox(config_.center, config_.max_size),
                     points_vec);
 }
-- 
2.43.0


From b006af7414432d8958bd6a27c766015e8a8ff64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:28:53 +0000
Subject: [PATCH 04/56] fix: report cloud files that are damaged or could not
 be written

A cut file was accepted with made up points, a wrong point count in the header threw and a full disk was reported as a successful save.
---
 builder/data/cloud_types.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index 67bc517..ec0dbf2 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -155,7 +155,7 @@ int InnerPointType::Serialize(std::fstream* stream) const {
 int InnerPointType::Deserialize(std::fstream* stream) {
   if (stream && stream->is_open()) {
     stream->read(reinterpret_cast<char*>(this), sizeof(InnerPointType));
-    if (stream->good() || stream->eof()) {
+    if (stream->good()) {
       return sizeof(InnerPointType);
     } else {
       return -1;
@@ -188,7 +188,8 @@ int InnerCloudType::Serialize(std::fstream* stream) const {
     for (const auto& point : points) {
       point.Serialize(stream);
     }
-    return 0;
+    stream->flush();
+    return stream->good() ? 0 : -1;
   }
   return -1;
 }
@@ -218,11 +219,13 @@ int InnerCloudType::Deserialize(std::fstream* stream) {
       return -1;
     }
     // Read points.
-    points.resize(size);
+    points.clear();
     for (size_t i = 0; i < size; ++i) {
-      if (points[i].Deserialize(stream) < 0) {
+      InnerPointType point;
+      if (point.Deserialize(stream) < 0) {
         return -1;
       }
+      points.push_back(point);
     }
     return 0;
   }
@@ -446,7 +449,8 @@ bool InnerPointCloudData::CloudInMemory() {
     InnerCloudType::Ptr inner_cloud(new InnerCloudType);
     std::fstream bin_fs(filename_, std::ios::in | std::ios::binary);
     CHECK(bin_fs.is_open()) << "Could not open file: " << filename_;
-    inner_cloud->Deserialize(&bin_fs);
+    CHECK_GE(inner_cloud->Deserialize(&bin_fs), 0)
+        << "Broken cloud file: " << filename_;
     bin_fs.close();
 
     SetInnerCloudImpl(inner_cloud);
-- 
2.43.0


From 95cc5aa9280b5ac571333bbb3eae933f3dc45f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:11 +0000
Subject: [PATCH 05/56] fix: set width and height of clouds converted to pcl

Exported pcd files announced zero points and could not be loaded.
---
 builder/data/cloud_types.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index ec0dbf2..05b9658 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -286,6 +286,8 @@ void ToPclPointCloud(const InnerCloudType& cloud,
       pcl_cloud->points.push_back(pcl_point);
     }
   }
+  pcl_cloud->width = pcl_cloud->points.size();
+  pcl_cloud->height = 1;
 }
 
 void EigenPointCloud::ApplyTransform(const Eigen::Matrix4d& transform) {
-- 
2.43.0


From 19d64a325226f9159de6e815dffec928c51e87b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:23 +0000
Subject: [PATCH 06/56] fix: do not translate normals when transforming an
 eigen cloud

---
 builder/data/cloud_types.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index 05b9658..ff570cb 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -301,8 +301,8 @@ void EigenPointCloud::ApplyTransform(const Eigen::Matrix4d& transform) {
 
   if (normals.cols() > 0) {
     CHECK_EQ(normals.cols(), points_count);
-    homo_data.block(0, 0, 3, points_count) = normals;
-    normals = (transform * homo_data).block(0, 0, 3, points_count);
+    // Normals are directions, the translation does not apply to them.
+    normals = (transform.block(0, 0, 3, 3) * normals).eval();
   }
 }
 
-- 
2.43.0


From 646f53a8f887ecde402a2c179494ab08ca9377f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:23 +0000
Subject: [PATCH 07/56] fix: use the given motion in
 EigenPointCloud::ApplyMotionCompensation

The interpolation read its own uninitialized result instead of the argument.
---
 builder/data/cloud_types.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index ff570cb..9b0603e 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -314,11 +314,11 @@ void EigenPointCloud::ApplyMotionCompensation(
   CHECK_EQ(cloud_size, factors.size());
 
   for (size_t i = 0; i < cloud_size; ++i) {
-    const Eigen::Matrix4d transform = common::InterpolateTransform(
+    const Eigen::Matrix4d point_transform = common::InterpolateTransform(
         Eigen::Matrix4d::Identity().eval(), transform, factors[i]);
     const Eigen::Vector3d new_point_start =
-        transform.block(0, 0, 3, 3) * points.col(i).topRows(3) +
-        transform.block(0, 3, 3, 1);
+        point_transform.block(0, 0, 3, 3) * points.col(i).topRows(3) +
+        point_transform.block(0, 3, 3, 1);
     points.col(i).topRows(3) = new_point_start;
   }
 
-- 
2.43.0


From 0955a18c2fe60af2411536fcc74e6f21aae11269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:47 +0000
Subject: [PATCH 08/56] fix: estimate normals of planes through the origin

The least squares system is singular for such a plane and the normal was NaN or pointed anywhere.
---
 builder/data/cloud_types.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index 9b0603e..b6e7b7d 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -92,6 +92,15 @@ void CalculateNormals(EigenPointCloud* const data, const int first,
   }
 
   Eigen::VectorXd normal = M_wave.inverse() * Eigen::VectorXd(b_wave);
+  // The equation above has no solution for a plane through the origin, use the
+  // direction with the least variance instead.
+  Eigen::FullPivLU<Eigen::MatrixXd> lu(M_wave);
+  lu.setThreshold(1e-9);
+  if (!lu.isInvertible()) {
+    normal = Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(C)
+                 .eigenvectors()
+                 .col(0);
+  }
 
   // sampling in a simple way
   // use just one point in a box
-- 
2.43.0


From cf3cff3a0af68d7c85b9a9a6a35a84f8d9c8881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:47 +0000
Subject: [PATCH 09/56] fix: keep the parts of an eigen cloud in step when
 normals are calculated

A cloud object which was filled again kept the indices and normals of its former points, and the factors did not follow the removal of points.
---
 builder/data/cloud_types.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index b6e7b7d..d5ed3e4 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -344,6 +344,8 @@ void EigenPointCloud::FromPointCloud(
   CHECK(!inner_points.empty());
 
   const int size = inner_points.size();
+  indices_to_keep.clear();
+  normals.resize(kDim, 0);
   indices.resize(size);
   factors.resize(size);
   // We assume points are in 3d by default.
@@ -376,7 +378,12 @@ void EigenPointCloud::CalculateNormals() {
     CHECK(i <= k);
     points.col(i) = points.col(k);
     normals.col(i) = normals.col(k);
+    factors[i] = factors[k];
+    indices[i] = i;
   }
+  factors.resize(points_count_remained);
+  indices.resize(points_count_remained);
+  indices_to_keep.clear();
   points.conservativeResize(Eigen::NoChange, points_count_remained);
   normals.conservativeResize(Eigen::NoChange, points_count_remained);
 }
-- 
2.43.0


From 6e125678a38d433cd25f921216133b18f0f2bfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:17 +0000
Subject: [PATCH 10/56] fix: lock the cloud holder while handing out its clouds

Reading the shared pointers raced with clearing and reloading the cloud.
---
 builder/data/cloud_types.cc | 2 ++
 builder/data/cloud_types.h  | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index d5ed3e4..7c36ec3 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -479,11 +479,13 @@ bool InnerPointCloudData::CloudInMemory() {
 }
 
 std::shared_ptr<EigenPointCloud> InnerPointCloudData::GetEigenCloud() const {
+  common::ReadMutexLocker locker(mutex_);
   return eigen_cloud_;
 }
 
 const SimpleTime& InnerPointCloudData::GetTime() const { return time_; }
 InnerCloudType::Ptr InnerPointCloudData::GetInnerCloud() const {
+  common::ReadMutexLocker locker(mutex_);
   return inner_cloud_;
 }
 
diff --git a/builder/data/cloud_types.h b/builder/data/cloud_types.h
index 317f6ab..956e488 100644
--- a/builder/data/cloud_types.h
+++ b/builder/data/cloud_types.h
@@ -183,7 +183,7 @@ class InnerPointCloudData {
   bool EmptyImpl() const;
 
  private:
-  common::ReadWriteMutex mutex_;
+  mutable common::ReadWriteMutex mutex_;
 
   InnerCloudType::Ptr inner_cloud_;
   EigenPointCloud::Ptr eigen_cloud_;
-- 
2.43.0


From c1c86cc7585374b0af5e4c848b52490a04dd5c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:49 +0000
Subject: [PATCH 11/56] fix: start every run of the range image from scratch

Running it again on the same cloud gave an empty result, clusters of a former cloud survived with indices into the new one, and points less than one row below the view were counted as in view.
---
 pre_processors/filter_range_image.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pre_processors/filter_range_image.cc b/pre_processors/filter_range_image.cc
index a54ccbc..64ff7de 100644
--- a/pre_processors/filter_range_image.cc
+++ b/pre_processors/filter_range_image.cc
@@ -64,6 +64,9 @@ void RangeImage::DisplayAllParams() {
 }
 
 void RangeImage::SetInputCloud(const data::InnerCloudType::Ptr &cloud) {
+  this->inliers_.clear();
+  this->outliers_.clear();
+  clusters_.clear();
   if (cloud == nullptr || cloud->points.empty()) {
     LOG(WARNING) << "cloud empty, do nothing!" << std::endl;
     this->inner_cloud_ = nullptr;
@@ -86,6 +89,9 @@ void RangeImage::Filter(const data::InnerCloudType::Ptr &cloud) {
   }
 
   this->FilterPrepare(cloud);
+  map_image_.clear();
+  matrix_image_.setZero();
+  clusters_.clear();
   const float image_horizontal_res =
       M_PI * 2 / static_cast<float>(horizontal_line_num_);
   const float image_vertical_res = (top_angle_ - btm_angle_) /
@@ -109,7 +115,8 @@ void RangeImage::Filter(const data::InnerCloudType::Ptr &cloud) {
       continue;
     }
     vertical_rad = std::atan2(point.z, distance_in_xy);
-    row_index = (vertical_rad - btm_angle_ / 180.f * M_PI) / image_vertical_res;
+    row_index = std::floor((vertical_rad - btm_angle_ / 180.f * M_PI) /
+                           image_vertical_res);
     if (row_index < 0 || row_index >= vertical_line_num_) {
       this->outliers_.push_back(i);
       continue;
-- 
2.43.0


From 819b543519b113a20f9d645012108bf4779489fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:49 +0000
Subject: [PATCH 12/56] fix: report each inlier once when a filter that keeps
 all points runs again

---
 pre_processors/filter_axis_range.cc    | 1 +
 pre_processors/filter_random_sample.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pre_processors/filter_axis_range.cc b/pre_processors/filter_axis_range.cc
index f25513c..0426464 100644
--- a/pre_processors/filter_axis_range.cc
+++ b/pre_processors/filter_axis_range.cc
@@ -50,6 +50,7 @@ void AxisRange::Filter(const data::InnerCloudType::Ptr& cloud) {
   if (min_ == -std::numeric_limits<float>::max() &&
       max_ == std::numeric_limits<float>::max()) {
     *cloud = *this->inner_cloud_;
+    this->inliers_.clear();
     for (int i = 0; i < this->inner_cloud_->points.size(); ++i) {
       this->inliers_.push_back(i);
     }
diff --git a/pre_processors/filter_random_sample.cc b/pre_processors/filter_random_sample.cc
index 5c5c68d..1e1797f 100644
--- a/pre_processors/filter_random_sample.cc
+++ b/pre_processors/filter_random_sample.cc
@@ -43,6 +43,7 @@ void RandomSampler::Filter(const data::InnerCloudType::Ptr& cloud) {
   }
   if (sampling_rate_ > 0.999) {
     *cloud = *this->inner_cloud_;
+    this->inliers_.clear();
     for (int i = 0; i < this->inner_cloud_->points.size(); ++i) {
       this->inliers_.push_back(i);
     }
-- 
2.43.0


From bcb751bde7cffce2285867b5517a6097d6f5d0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:49 +0000
Subject: [PATCH 13/56] fix: output the points of the ground removal in the
 order of its inliers

---
 pre_processors/filter_ground_removal.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pre_processors/filter_ground_removal.cc b/pre_processors/filter_ground_removal.cc
index b2f9ef1..5ce556b 100644
--- a/pre_processors/filter_ground_removal.cc
+++ b/pre_processors/filter_ground_removal.cc
@@ -102,12 +102,14 @@ void GroundRemoval::Filter(const data::InnerCloudType::Ptr& cloud) {
     if (!is_ground) {
       for (auto& i : vector) {
         this->inliers_.push_back(i);
-        cloud->points.push_back(this->inner_cloud_->points[i]);
       }
     }
   }
   std::sort(this->inliers_.begin(), this->inliers_.end());
   std::sort(this->outliers_.begin(), this->outliers_.end());
+  for (const auto& i : this->inliers_) {
+    cloud->points.push_back(this->inner_cloud_->points[i]);
+  }
 }
 
 }  // namespace filter
-- 
2.43.0


From 91bf21448f9948cabce689fac6051972defd579c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:52 +0000
Subject: [PATCH 14/56] fix: keep the sweep fraction when averaging points in
 the voxel grid

The averaged points all got fraction 0, so motion compensation after the
filter treated them as measured at the start of the sweep.
---
 pre_processors/filter_voxel_grid.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pre_processors/filter_voxel_grid.cc b/pre_processors/filter_voxel_grid.cc
index 3831b74..d4231e6 100644
--- a/pre_processors/filter_voxel_grid.cc
+++ b/pre_processors/filter_voxel_grid.cc
@@ -55,12 +55,13 @@ void VoxelGrid::Filter(const data::InnerCloudType::Ptr& cloud) {
       -> data::InnerPointType {
     CHECK(!points.empty());
 
-    double sum[4] = {0, 0, 0, 0};
+    double sum[5] = {0, 0, 0, 0, 0};
     for (const auto& point : points) {
       sum[0] += point.x;
       sum[1] += point.y;
       sum[2] += point.z;
       sum[3] += point.intensity;
+      sum[4] += point.factor;
     }
 
     const int size = points.size();
@@ -69,6 +70,7 @@ void VoxelGrid::Filter(const data::InnerCloudType::Ptr& cloud) {
     result.y = sum[1] / size;
     result.z = sum[2] / size;
     result.intensity = sum[3] / size;
+    result.factor = sum[4] / size;
     return result;
   };
 
-- 
2.43.0


From d8ef2017b708ed408c2708dd142f0780f989998c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:07 +0000
Subject: [PATCH 15/56] fix: remove ground points that lie exactly on the
 fitted line

A vertical distance of zero was treated as no matching line, so none of
a perfectly flat ground was removed.
---
 pre_processors/filter_ground_removal2.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pre_processors/filter_ground_removal2.cc b/pre_processors/filter_ground_removal2.cc
index 832db9b..fa809d8 100644
--- a/pre_processors/filter_ground_removal2.cc
+++ b/pre_processors/filter_ground_removal2.cc
@@ -372,12 +372,12 @@ void GroundRemoval2::ClusterGround(const std::vector<Segment>& segments,
 
             distance =
                 VerticalDistanceToSegment(point, segments.at(can_seg_index));
-            if (distance > 0.) {
+            if (distance >= 0.) {
               break;
             }
           }
         }
-        if (distance > 0. && distance <= max_dist_to_line_) {
+        if (distance >= 0. && distance <= max_dist_to_line_) {
           // this is a ground removal filter
           // so, if you found a point on ground
           // you should add it into outliers
-- 
2.43.0


From b17532e4f3c8cb90d4501922cee1c45af323c821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:49 +0000
Subject: [PATCH 16/56] fix: keep the cloud when a filter that does nothing
 comes first in a chain

The chain handed on an empty cloud without stamp instead.
---
 pre_processors/filter_factory.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pre_processors/filter_factory.cc b/pre_processors/filter_factory.cc
index 6edac07..5d8594f 100644
--- a/pre_processors/filter_factory.cc
+++ b/pre_processors/filter_factory.cc
@@ -96,6 +96,7 @@ void Factory::Filter(const data::InnerCloudType::Ptr& cloud) {
   data::InnerCloudType::Ptr middle_poindcloud1(new data::InnerCloudType);
   data::InnerCloudType::Ptr middle_poindcloud2(new data::InnerCloudType);
   *middle_poindcloud1 = *(this->inner_cloud_);
+  *middle_poindcloud2 = *(this->inner_cloud_);
   for (auto filter : filters_) {
     filter->SetInputCloud(middle_poindcloud1);
     filter->Filter(middle_poindcloud2);
-- 
2.43.0


From ce759cf3598f07ec937a90061328b68841b3a79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:49 +0000
Subject: [PATCH 17/56] fix: leave filters with invalid parameters out of a
 filter chain

They were kept although initialisation reported them as invalid, which
ended in undefined indices, empty clouds or an abort for every scan.
---
 pre_processors/filter_factory.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pre_processors/filter_factory.cc b/pre_processors/filter_factory.cc
index 5d8594f..9cd041f 100644
--- a/pre_processors/filter_factory.cc
+++ b/pre_processors/filter_factory.cc
@@ -74,7 +74,10 @@ void Factory::InitFromXmlNode(const pugi::xml_node& filters_node) {
     XML_INFO << debug_msg << std::endl;
 
     auto filter = it->second->CreateNewInstance();
-    filter->InitFromXmlNode(filter_node);
+    if (!filter->InitFromXmlNode(filter_node)) {
+      LOG(ERROR) << "invalid parameters for " << filter_name << ", skip it.";
+      continue;
+    }
     filters_.push_back(filter);
     filter->DisplayAllParams();
   }
-- 
2.43.0


From fd20a94e11ea03f9ca45cb5bdbf0675e6aa1b64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:54:30 +0000
Subject: [PATCH 18/56] fix: detect planes in the current cloud only and sample
 clouds without planes

The detector kept the voxels of earlier clouds, so it returned indices that
do not exist in the current one. The sampler read the first entry of the
plane list even when it was empty or used up.
---
 pre_processors/plane_detector.h                  | 1 +
 pre_processors/random_sample_with_plane_detect.h | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pre_processors/plane_detector.h b/pre_processors/plane_detector.h
index 2833c11..4f060f2 100644
--- a/pre_processors/plane_detector.h
+++ b/pre_processors/plane_detector.h
@@ -74,6 +74,7 @@ class PlaneDetector {
     }
     input_cloud_ = cloud;
 
+    voxels_.clear();
     for (int i = 0; i < input_cloud_->size(); ++i) {
       auto& point = input_cloud_->points[i];
       Eigen::Vector3i index(static_cast<int>(point.x / leaf_size_),
diff --git a/pre_processors/random_sample_with_plane_detect.h b/pre_processors/random_sample_with_plane_detect.h
index b5af687..cc8260d 100644
--- a/pre_processors/random_sample_with_plane_detect.h
+++ b/pre_processors/random_sample_with_plane_detect.h
@@ -91,7 +91,7 @@ class RandomSamplerWithPlaneDetect {
     int other_sum = 0;
     int other_sapmled_sum = 0;
     for (int i = 0; i < input_cloud_->size(); ++i) {
-      if (i == plane_indices.front()) {
+      if (!plane_indices.empty() && i == plane_indices.front()) {
         cloud->push_back(input_cloud_->points[i]);
         plane_indices.erase(plane_indices.begin());
       } else {
-- 
2.43.0


From 5939d04536182b26d68e8fe328ae33a03abcddd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:54 +0000
Subject: [PATCH 19/56] fix: keep the stamp of an empty scan in the data
 collector

An empty scan is not touched by the filters, so its result had no stamp
and the consistency check aborted the process.
---
 builder/data/data_collector.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/builder/data/data_collector.cc b/builder/data/data_collector.cc
index 42461d3..55d18d0 100644
--- a/builder/data/data_collector.cc
+++ b/builder/data/data_collector.cc
@@ -136,6 +136,7 @@ void DataCollector::CloudPreProcessing() {
 
     // filtering cloud
     InnerCloudType::Ptr filtered_cloud(new InnerCloudType);
+    filtered_cloud->stamp = data->stamp;
     filter_factory_->SetInputCloud(data);
     filter_factory_->Filter(filtered_cloud);
     CHECK(data->stamp == filtered_cloud->stamp);
-- 
2.43.0


From 3a5f670197bbcd90091228b8f9dc794eba0a88fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:54 +0000
Subject: [PATCH 20/56] fix: synchronise the preprocessing thread of the data
 collector

It looked at the queue of raw scans and at its stop flag without any
synchronisation and was started before all members were initialised.
---
 builder/data/data_collector.cc | 20 +++++++++++---------
 builder/data/data_collector.h  |  2 +-
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/builder/data/data_collector.cc b/builder/data/data_collector.cc
index 55d18d0..9463338 100644
--- a/builder/data/data_collector.cc
+++ b/builder/data/data_collector.cc
@@ -37,8 +37,6 @@ namespace data {
 DataCollector::DataCollector(const DataCollectorOptions& options,
                              pre_processers::filter::Factory* const filter)
     : options_(options),
-      cloud_processing_thread_(
-          std::bind(&DataCollector::CloudPreProcessing, this)),
       filter_factory_(filter),
       accumulated_cloud_count_(0) {
   // reserve the vectors for less memory copy when push_back
@@ -47,6 +45,9 @@ DataCollector::DataCollector(const DataCollectorOptions& options,
   gps_data_.reserve(reserve_size);
   enu_path_cloud_.points.reserve(reserve_size);
   odom_path_cloud_.points.reserve(reserve_size);
+  // all members are ready now
+  cloud_processing_thread_ =
+      std::thread(std::bind(&DataCollector::CloudPreProcessing, this));
 }
 
 DataCollector::~DataCollector() {
@@ -122,16 +123,17 @@ void DataCollector::CloudPreProcessing() {
     if (kill_cloud_preprocessing_thread_) {
       break;
     }
-    if (cloud_data_before_preprocessing_.empty()) {
-      SimpleTime::FromSec(0.005).Sleep();
-      continue;
-    }
-
     InnerCloudType::Ptr data;
     {
       Locker locker(mutex_[kPointCloudData]);
-      data = cloud_data_before_preprocessing_.front();
-      cloud_data_before_preprocessing_.pop_front();
+      if (!cloud_data_before_preprocessing_.empty()) {
+        data = cloud_data_before_preprocessing_.front();
+        cloud_data_before_preprocessing_.pop_front();
+      }
+    }
+    if (!data) {
+      SimpleTime::FromSec(0.005).Sleep();
+      continue;
     }
 
     // filtering cloud
diff --git a/builder/data/data_collector.h b/builder/data/data_collector.h
index f5c7154..1693c00 100644
--- a/builder/data/data_collector.h
+++ b/builder/data/data_collector.h
@@ -137,7 +137,7 @@ class DataCollector {
   std::deque<InnerCloudType::Ptr> cloud_data_;
   std::deque<InnerCloudType::Ptr> cloud_data_before_preprocessing_;
 
-  bool kill_cloud_preprocessing_thread_ = false;
+  std::atomic_bool kill_cloud_preprocessing_thread_{false};
   std::thread cloud_processing_thread_;
   pre_processers::filter::Factory* filter_factory_;
   std::vector<ImuData> imu_data_;
-- 
2.43.0


From 9974a4eec307ad11ff8507fa69c1b98a08026934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:54 +0000
Subject: [PATCH 21/56] fix: process the scans still in preprocessing before
 finishing a map

The scan matching thread stopped as soon as no filtered scan was ready, so
the last scans inserted before finishing were lost depending on timing.
---
 builder/data/data_collector.cc | 5 ++++-
 builder/data/data_collector.h  | 3 +++
 builder/map_builder.cc         | 3 ++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/builder/data/data_collector.cc b/builder/data/data_collector.cc
index 9463338..fb027b3 100644
--- a/builder/data/data_collector.cc
+++ b/builder/data/data_collector.cc
@@ -129,6 +129,7 @@ void DataCollector::CloudPreProcessing() {
       if (!cloud_data_before_preprocessing_.empty()) {
         data = cloud_data_before_preprocessing_.front();
         cloud_data_before_preprocessing_.pop_front();
+        clouds_in_preprocessing_ = 1;
       }
     }
     if (!data) {
@@ -147,6 +148,7 @@ void DataCollector::CloudPreProcessing() {
     Locker locker(mutex_[kPointCloudData]);
     // TODO(edward) these clouds can be cached to disk as well.
     cloud_data_.push_back(filtered_cloud);
+    clouds_in_preprocessing_ = 0;
 
     // just for debug
     got_clouds_count_++;
@@ -171,7 +173,8 @@ InnerCloudType::Ptr DataCollector::GetNewCloud() {
 
 size_t DataCollector::GetRemainingCloudSize() {
   Locker locker(mutex_[kPointCloudData]);
-  return cloud_data_.size();
+  return cloud_data_.size() + cloud_data_before_preprocessing_.size() +
+         clouds_in_preprocessing_;
 }
 
 void DataCollector::AddSensorData(const OdomMsg& odom_msg) {
diff --git a/builder/data/data_collector.h b/builder/data/data_collector.h
index 1693c00..89c0cf2 100644
--- a/builder/data/data_collector.h
+++ b/builder/data/data_collector.h
@@ -119,6 +119,8 @@ class DataCollector {
   /// @brief output odom path to .pcd file for review
   void RawOdomDataToFile(const std::string& filename) const;
 
+  /// @brief number of clouds not delivered by GetNewCloud() yet, including
+  /// those still in preprocessing
   size_t GetRemainingCloudSize();
   void ClearAllCloud();
 
@@ -153,6 +155,7 @@ class DataCollector {
   InnerCloudType::Ptr accumulated_point_cloud_ = nullptr;
   std::atomic_uint accumulated_cloud_count_;
   uint32_t got_clouds_count_ = 0;
+  size_t clouds_in_preprocessing_ = 0;
   SimpleTime first_time_in_accmulated_cloud_;
   SimpleTime last_whole_frame_time_;
 };
diff --git a/builder/map_builder.cc b/builder/map_builder.cc
index 513bfea..98ef20f 100644
--- a/builder/map_builder.cc
+++ b/builder/map_builder.cc
@@ -269,7 +269,8 @@ void MapBuilder::ScanMatchProcessing() {
   while (true) {
     auto new_inner_cloud = data_collector_->GetNewCloud();
     if (new_inner_cloud == nullptr) {
-      if (end_all_thread_.load()) {
+      if (end_all_thread_.load() &&
+          data_collector_->GetRemainingCloudSize() == 0) {
         break;
       }
       SimpleTime::FromSec(0.005).Sleep();
-- 
2.43.0


From 8b6455ea83011c5fe09c25fb23f63e09db4d478b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:54 +0000
Subject: [PATCH 22/56] fix: answer queries between samples with (nearly) the
 same stamp

Two odometry messages with the same stamp, or two samples less than a
microsecond apart, aborted the process on the next query between them.
---
 builder/data/data_collector.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/builder/data/data_collector.cc b/builder/data/data_collector.cc
index fb027b3..72b6a76 100644
--- a/builder/data/data_collector.cc
+++ b/builder/data/data_collector.cc
@@ -237,13 +237,13 @@ std::unique_ptr<Eigen::Vector3d> DataCollector::InterpolateGps(
 
   CHECK(time >= former_data.time && time <= latter_data.time);
   const double delta_time = (latter_data.time - former_data.time).ToSec();
-  CHECK_GT(delta_time, 1.e-6);
   if (delta_time > 0.2 || !former_data.status_fixed ||
       !latter_data.status_fixed) {
     return nullptr;
   }
 
-  const double factor = (time - former_data.time).ToSec() / delta_time;
+  const double factor =
+      delta_time > 1.e-6 ? (time - former_data.time).ToSec() / delta_time : 0.;
   CHECK(factor >= 0. && factor <= 1.);
   const Eigen::Vector3d delta =
       factor * (latter_data.enu_position - former_data.enu_position);
@@ -287,13 +287,13 @@ std::unique_ptr<Eigen::Matrix4d> DataCollector::InterpolateOdom(
   }
 
   const double delta_time = (latter_data.time - former_data.time).ToSec();
-  CHECK_GT(delta_time, 1.e-6);
   if (delta_time > 1.) {
     PRINT_WARNING("some thing wrong with the search");
     return nullptr;
   }
   CHECK(time >= former_data.time && time <= latter_data.time);
-  const double factor = (time - former_data.time).ToSec() / delta_time;
+  const double factor =
+      delta_time > 1.e-6 ? (time - former_data.time).ToSec() / delta_time : 0.;
   CHECK(factor >= 0. && factor <= 1.);
   // interpolate the data for more accurate odom data
   const Eigen::Matrix4d pose =
-- 
2.43.0


From 0d6707010e8f8c6a461af02f40e134e4073d508d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:31 +0000
Subject: [PATCH 23/56] fix: forget earlier predictions when a pose is added to
 the extrapolator

Asking again for the time of the new pose returned the old prediction
instead of the pose itself.
---
 builder/pose_extrapolator.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/builder/pose_extrapolator.cc b/builder/pose_extrapolator.cc
index be3ff6a..f312767 100644
--- a/builder/pose_extrapolator.cc
+++ b/builder/pose_extrapolator.cc
@@ -90,10 +90,11 @@ SimpleTime PoseExtrapolator::GetLastExtrapolatedTime() {
 void PoseExtrapolator::AddPose(const SimpleTime time, const RigidPose3d& pose) {
   common::MutexLocker locker(&mutex_);
   timed_pose_queue_.emplace_back(time, pose);
+  // The cache must not hold an older prediction for this or a later time.
+  cached_extrapolated_pose_.time = time;
+  cached_extrapolated_pose_.pose = pose;
   if (timed_pose_queue_.size() == 1u) {
     // It's the first pose and the only pose.
-    cached_extrapolated_pose_.time = time;
-    cached_extrapolated_pose_.pose = pose;
     return;
   }
 
-- 
2.43.0


From f4aded780e9bceaa8763afebca1ddb92e0a4281b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:31 +0000
Subject: [PATCH 24/56] fix: let the extrapolator with imu predict from a
 single pose

The trackers used for prediction were missing until the second pose, so
predicting or adding odometry before that dereferenced a null pointer. The
odometry also took the orientation from the translation of the pose.
---
 builder/pose_extrapolator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/pose_extrapolator.cc b/builder/pose_extrapolator.cc
index f312767..9d6f798 100644
--- a/builder/pose_extrapolator.cc
+++ b/builder/pose_extrapolator.cc
@@ -93,7 +93,7 @@ void PoseExtrapolator::AddPose(const SimpleTime time, const RigidPose3d& pose) {
   // The cache must not hold an older prediction for this or a later time.
   cached_extrapolated_pose_.time = time;
   cached_extrapolated_pose_.pose = pose;
-  if (timed_pose_queue_.size() == 1u) {
+  if (timed_pose_queue_.size() == 1u && mode_ == Mode::kSimpleCTRV) {
     // It's the first pose and the only pose.
     return;
   }
@@ -166,7 +166,7 @@ void PoseExtrapolator::AddOdometryData(const data::OdomMsg& odometry_data) {
           common::Translation(odometry_pose_delta) / odometry_time_delta;
   const Eigen::Quaterniond orientation_at_newest_odometry_time =
       Eigen::Quaterniond(
-          Eigen::Matrix3d(timed_pose_queue_.back().pose.block(0, 3, 3, 1))) *
+          Eigen::Matrix3d(timed_pose_queue_.back().pose.block(0, 0, 3, 3))) *
       ExtrapolateRotation(odometry_data_newest.header.stamp,
                           odometry_imu_tracker_.get());
   linear_velocity_from_odometry_ =
-- 
2.43.0


From 160e8072db47db35f531e8ec6877d24f23c27b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:16:58 +0000
Subject: [PATCH 25/56] fix: drop imu and odometry data older than the last
 pose instead of aborting

---
 builder/pose_extrapolator.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/builder/pose_extrapolator.cc b/builder/pose_extrapolator.cc
index 9d6f798..c091dcc 100644
--- a/builder/pose_extrapolator.cc
+++ b/builder/pose_extrapolator.cc
@@ -127,8 +127,12 @@ void PoseExtrapolator::AddImuData(const data::ImuMsg& imu_data) {
     return;
   }
   common::MutexLocker locker(&mutex_);
-  CHECK(timed_pose_queue_.empty() ||
-        imu_data.header.stamp >= timed_pose_queue_.back().time);
+  if (!timed_pose_queue_.empty() &&
+      imu_data.header.stamp < timed_pose_queue_.back().time) {
+    // The scan matcher may be ahead of the imu (another thread).
+    LOG(WARNING) << "Drop imu data older than the last pose.";
+    return;
+  }
   imu_data_.push_back(imu_data);
   TrimImuData();
 }
@@ -138,8 +142,12 @@ void PoseExtrapolator::AddOdometryData(const data::OdomMsg& odometry_data) {
     return;
   }
   common::MutexLocker locker(&mutex_);
-  CHECK(timed_pose_queue_.empty() ||
-        odometry_data.header.stamp >= timed_pose_queue_.back().time);
+  if (!timed_pose_queue_.empty() &&
+      odometry_data.header.stamp < timed_pose_queue_.back().time) {
+    // The scan matcher may be ahead of the odometry (another thread).
+    LOG(WARNING) << "Drop odometry data older than the last pose.";
+    return;
+  }
   odometry_data_.push_back(odometry_data);
   TrimOdometryData();
   if (odometry_data_.size() < 2) {
-- 
2.43.0


From 38b61f8260b9c734fcbdfc737c9fd3d8332b0971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:19:43 +0000
Subject: [PATCH 26/56] fix: set the size of the clouds taken out of the static
 map

---
 builder/multi_resolution_voxel_map.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/multi_resolution_voxel_map.cc b/builder/multi_resolution_voxel_map.cc
index 4917d30..11e32a8 100644
--- a/builder/multi_resolution_voxel_map.cc
+++ b/builder/multi_resolution_voxel_map.cc
@@ -126,6 +126,7 @@ void MultiResolutionVoxelMap::OutputToPointCloud(
     const float threshold, const pcl::PointCloud<pcl::PointXYZI>::Ptr& cloud) {
   if (!cloud) {
     PRINT_WARNING("cloud is nullptr. do nothing!");
+    return;
   }
   cloud->clear();
   cloud->points.reserve(high_resolution_voxels_.size());
@@ -164,6 +165,8 @@ void MultiResolutionVoxelMap::OutputToPointCloud(
     }
   }
   cloud->points.shrink_to_fit();
+  cloud->width = cloud->points.size();
+  cloud->height = 1;
 }
 
 void MultiResolutionVoxelMap::OutputToPointCloud(
@@ -171,6 +174,7 @@ void MultiResolutionVoxelMap::OutputToPointCloud(
     const pcl::PointCloud<pcl::PointXYZRGB>::Ptr& cloud) {
   if (!cloud) {
     PRINT_WARNING("cloud is nullptr. do nothing!");
+    return;
   }
   cloud->clear();
   cloud->points.reserve(high_resolution_voxels_.size());
@@ -212,6 +216,8 @@ void MultiResolutionVoxelMap::OutputToPointCloud(
     }
   }
   cloud->points.shrink_to_fit();
+  cloud->width = cloud->points.size();
+  cloud->height = 1;
 }
 
 #define OUTPUT_TO_FILE(output_cloud)                                   \
-- 
2.43.0


From 82a479e8cd1672591209a4dac98abd951a8b82e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:19:43 +0000
Subject: [PATCH 27/56] fix: do not wrap the static map threshold of 1 around
 to 0

---
 builder/multi_resolution_voxel_map.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/multi_resolution_voxel_map.cc b/builder/multi_resolution_voxel_map.cc
index 11e32a8..96ed2bf 100644
--- a/builder/multi_resolution_voxel_map.cc
+++ b/builder/multi_resolution_voxel_map.cc
@@ -130,7 +130,7 @@ void MultiResolutionVoxelMap::OutputToPointCloud(
   }
   cloud->clear();
   cloud->points.reserve(high_resolution_voxels_.size());
-  const Probability prob_threshold = threshold * kTableSize;
+  const int prob_threshold = threshold * kTableSize;
   for (auto& high_res_voxel : high_resolution_voxels_) {
     if (high_res_voxel.second.probability >= prob_threshold) {
       CHECK(!high_res_voxel.second.points.empty());
@@ -178,7 +178,7 @@ void MultiResolutionVoxelMap::OutputToPointCloud(
   }
   cloud->clear();
   cloud->points.reserve(high_resolution_voxels_.size());
-  const Probability prob_threshold = threshold * kTableSize;
+  const int prob_threshold = threshold * kTableSize;
   for (auto& high_res_voxel : high_resolution_voxels_) {
     if (high_res_voxel.second.probability >= prob_threshold) {
       CHECK(!high_res_voxel.second.points.empty());
-- 
2.43.0


From a85e3db79703014d70e534200c13a3b34777a4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:22:39 +0000
Subject: [PATCH 28/56] fix: keep concurrent updates of one voxel of the static
 map apart

---
 builder/multi_resolution_voxel_map.cc | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/builder/multi_resolution_voxel_map.cc b/builder/multi_resolution_voxel_map.cc
index 96ed2bf..ce5f4e2 100644
--- a/builder/multi_resolution_voxel_map.cc
+++ b/builder/multi_resolution_voxel_map.cc
@@ -23,6 +23,9 @@
 // local
 #include "builder/multi_resolution_voxel_map.h"
 
+#include <array>
+#include <mutex>
+
 #include "common/point_utils.h"
 
 namespace static_map {
@@ -72,6 +75,11 @@ void MultiResolutionVoxelMap::InsertPointCloud(
   const size_t cloud_size = cloud->points.size();
   const float resolution = settings_.high_resolution;
   VoxelMap<bool> end_voxels;
+  // Points of several threads may meet in one voxel.
+  std::array<std::mutex, 64> voxel_mutexes;
+  auto mutex_of = [&](const KeyInt3& index) -> std::mutex& {
+    return voxel_mutexes[std::hash<KeyInt3>()(index) % voxel_mutexes.size()];
+  };
 #if defined _OPENMP
 #pragma omp parallel for private(point_index) num_threads(LOCAL_OMP_THREADS_NUM)
 #endif
@@ -85,13 +93,12 @@ void MultiResolutionVoxelMap::InsertPointCloud(
     // update the end voxel
     if (!high_res_indices.empty()) {
       const KeyInt3 high_end_index = high_res_indices.back();
-      high_resolution_voxels_[high_end_index].need_update = kFalse;
+      auto& voxel = high_resolution_voxels_[high_end_index];
       end_voxels[high_end_index] = true;
 
-      auto& voxel = high_resolution_voxels_[high_end_index];
+      std::unique_lock<std::mutex> lock(mutex_of(high_end_index));
+      voxel.need_update = kFalse;
       auto& prob = voxel.probability;
-      // TODO(edward) actually this compare and store is not atomic operaion.
-      // Try to find another way to achieve this.
       if (static_cast<int>(point.intensity) >
           static_cast<int>(voxel.max_intensity)) {
         voxel.max_intensity = static_cast<int>(point.intensity);
@@ -101,16 +108,20 @@ void MultiResolutionVoxelMap::InsertPointCloud(
         FATAL_CHECK_POINT(point);
         voxel.points.push_back(point);
       }
+      lock.unlock();
 
       // update the voxels on the line
       const size_t indices_size = high_res_indices.size();
       for (size_t i = 0; i < indices_size - 1; ++i) {
         auto& high_index = high_res_indices[i];
-        if (high_resolution_voxels_.find(high_index) !=
-                high_resolution_voxels_.end() &&
-            high_resolution_voxels_[high_index].need_update == kTrue) {
+        const auto it = high_resolution_voxels_.find(high_index);
+        if (it == high_resolution_voxels_.end()) {
+          continue;
+        }
+        std::lock_guard<std::mutex> lock(mutex_of(high_index));
+        if (it->second.need_update == kTrue) {
           // update the probability
-          auto& prob = high_resolution_voxels_[high_index].probability;
+          auto& prob = it->second.probability;
           prob = (Probability)(update_prob(prob, false) * kTableSize);
         }
       }
-- 
2.43.0


From 5711ead0f481e05256dfeef9e402b42bc1af00bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:24:02 +0000
Subject: [PATCH 29/56] fix: restore the normals of a cloud that comes back
 from disk

---
 builder/data/cloud_types.cc | 5 +++++
 builder/data/cloud_types.h  | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index 7c36ec3..2317419 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -428,12 +428,14 @@ void InnerPointCloudData::CalculateNormals() {
   // Use this carefully, this function is not locked.
   CHECK(eigen_cloud_);
   eigen_cloud_->CalculateNormals();
+  has_normals_ = true;
 }
 
 void InnerPointCloudData::SetInnerCloud(const InnerCloudType::Ptr cloud) {
   boost::upgrade_lock<common::ReadWriteMutex> locker(mutex_);
   common::WriteMutexLocker write_locker(locker);
   SetInnerCloudImpl(cloud);
+  has_normals_ = false;
 }
 
 void InnerPointCloudData::SetInnerCloudImpl(const InnerCloudType::Ptr cloud) {
@@ -472,6 +474,9 @@ bool InnerPointCloudData::CloudInMemory() {
     bin_fs.close();
 
     SetInnerCloudImpl(inner_cloud);
+    if (has_normals_) {
+      eigen_cloud_->CalculateNormals();
+    }
     is_cloud_in_memory_ = true;
     // PRINT_DEBUG("get submap data from disk.");
   }
diff --git a/builder/data/cloud_types.h b/builder/data/cloud_types.h
index 956e488..ef75fc3 100644
--- a/builder/data/cloud_types.h
+++ b/builder/data/cloud_types.h
@@ -190,6 +190,8 @@ class InnerPointCloudData {
   SimpleTime time_;
   std::string filename_;
   std::atomic<bool> is_cloud_in_memory_;
+  // Whether the eigen cloud has normals (they are not in the file).
+  bool has_normals_ = false;
 
   PROHIBIT_COPY_AND_ASSIGN(InnerPointCloudData);
 };
-- 
2.43.0


From 1a8e393936145954d66a9599216d1dcc12ebac31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:17 +0000
Subject: [PATCH 30/56] fix: apply the configured voxel size of submaps

---
 builder/submap.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/submap.cc b/builder/submap.cc
index c643af4..0133ce4 100644
--- a/builder/submap.cc
+++ b/builder/submap.cc
@@ -146,7 +146,7 @@ void Submap::InsertFrame(const std::shared_ptr<Frame>& frame) {
       pre_processers::filter::VoxelGrid voxel_filter;
 
       const std::string filter_config_text =
-          "<filter name=\"RandomSampler\" >"
+          "<filter name=\"VoxelGrid\" >"
           "<param type=\"1\" name=\"voxel_size\">" +
           std::to_string(options_.voxel_size) +
           "</param>"
-- 
2.43.0


From 58cf1e971dc95528b1c570ad4cc43d18d26e07b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:29:42 +0000
Subject: [PATCH 31/56] fix: do not swap out a submap that was just asked for

---
 builder/submap.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/builder/submap.cc b/builder/submap.cc
index 0133ce4..1bfa440 100644
--- a/builder/submap.cc
+++ b/builder/submap.cc
@@ -227,9 +227,10 @@ bool Submap::UpdateInactiveTime(const int update_time_in_sec) {
   }
 
   boost::upgrade_lock<ReadWriteMutex> locker(mutex_);
+  // Decide under the write lock: a reader may reset the inactive time.
+  WriteMutexLocker write_locker(locker);
   cloud_inactive_time_ += update_time_in_sec;
   if (cloud_inactive_time_ > options_.disk_saving_delay) {
-    WriteMutexLocker write_locker(locker);
     this->inner_cloud_->Clear();
   }
   return true;
-- 
2.43.0


From 2db40bc114176d8f5f25588b1e970fc710c0757f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:31:48 +0000
Subject: [PATCH 32/56] fix: show only completely inserted submaps of a growing
 trajectory

---
 builder/trajectory.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/builder/trajectory.h b/builder/trajectory.h
index 027f35b..4ab6f47 100644
--- a/builder/trajectory.h
+++ b/builder/trajectory.h
@@ -23,6 +23,7 @@
 #ifndef BUILDER_TRAJECTORY_H_
 #define BUILDER_TRAJECTORY_H_
 // stl
+#include <atomic>
 #include <memory>
 #include <string>
 #include <vector>
@@ -55,6 +56,8 @@ namespace static_map {
  *   ...
  */
 class Trajectory : public tbb::concurrent_vector<std::shared_ptr<Submap>> {
+  using SubmapVector = tbb::concurrent_vector<std::shared_ptr<Submap>>;
+
  public:
   Trajectory() = default;
   ~Trajectory() = default;
@@ -63,6 +66,19 @@ class Trajectory : public tbb::concurrent_vector<std::shared_ptr<Submap>> {
 
   using Ptr = std::shared_ptr<Trajectory>;
 
+  // The base class counts an element before it is constructed, so only the
+  // submaps whose insertion is finished are visible here. Only one thread may
+  // add submaps.
+  void push_back(const std::shared_ptr<Submap>& submap) {
+    SubmapVector::push_back(submap);
+    ++finished_size_;
+  }
+  size_t size() const { return finished_size_.load(); }
+  bool empty() const { return size() == 0; }
+  iterator end() { return begin() + size(); }
+  const_iterator end() const { return begin() + size(); }
+  reference back() { return (*this)[size() - 1]; }
+
   // Trajectory APIs
   void SetId(int id) { id_ = id; }
   int GetId() const { return id_; }
@@ -72,6 +88,7 @@ class Trajectory : public tbb::concurrent_vector<std::shared_ptr<Submap>> {
   void OutputPathToPointcloud(const std::string& path);
 
  private:
+  std::atomic<size_t> finished_size_{0};
   int id_;
   // @todo(edward) change to enu offset
   double enu_offset_x_ = 0.;
-- 
2.43.0


From 75b8f81584d4880f809f5113ceebfbe8a8a18edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:35:44 +0000
Subject: [PATCH 33/56] fix: set the size of the map package pieces

---
 builder/map_package.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/builder/map_package.cc b/builder/map_package.cc
index fd080c0..84c237c 100644
--- a/builder/map_package.cc
+++ b/builder/map_package.cc
@@ -197,6 +197,9 @@ bool SaveTrajectoriesAsMapPackage(
         }
       }
 
+      part.cloud->width = part.cloud->points.size();
+      part.cloud->height = 1;
+
       // output to pcd file and release the memory
       std::string filename = map_package_options.cloud_file_prefix +
                              std::to_string(x) + "_" + std::to_string(y) +
-- 
2.43.0


From 51ce6c39ea1dbc166eac2161efb9893fd1e2bc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:35:44 +0000
Subject: [PATCH 34/56] fix: keep the pose graph picture to the size of the
 graph

---
 back_end/view_graph.cc | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/back_end/view_graph.cc b/back_end/view_graph.cc
index b199c66..b4229dc 100644
--- a/back_end/view_graph.cc
+++ b/back_end/view_graph.cc
@@ -35,8 +35,8 @@ namespace back_end {
 ViewGraph::ViewGraph() {
   min_bounding_ << std::numeric_limits<double>::max(),
       std::numeric_limits<double>::max();
-  max_bounding_ << std::numeric_limits<double>::min(),
-      std::numeric_limits<double>::min();
+  max_bounding_ << std::numeric_limits<double>::lowest(),
+      std::numeric_limits<double>::lowest();
 }
 
 void ViewGraph::AddEdge(const int64_t a, const int64_t b,
@@ -95,18 +95,17 @@ void ViewGraph::SaveImage(const std::string &filename,
   }
 
   const double edge_width = 1.;
-  max_bounding_[0] += edge_width;
-  max_bounding_[1] += edge_width;
-  min_bounding_[0] -= edge_width;
-  min_bounding_[1] -= edge_width;
-  Eigen::Vector2d image_bbox = max_bounding_ - min_bounding_;
+  const Eigen::Vector2d edge(edge_width, edge_width);
+  const Eigen::Vector2d image_max = max_bounding_ + edge;
+  const Eigen::Vector2d image_min = min_bounding_ - edge;
+  Eigen::Vector2d image_bbox = image_max - image_min;
   image_bbox /= resolution;
   // std::cout << image_bbox << std::endl;
 
   auto pose_to_image = [&](const Eigen::Matrix4d &pose) -> std::pair<int, int> {
     Eigen::Vector2d image_position(pose(0, 3), pose(1, 3));
-    image_position[0] -= min_bounding_[0];
-    image_position[1] = max_bounding_[1] - image_position[1];
+    image_position[0] -= image_min[0];
+    image_position[1] = image_max[1] - image_position[1];
     image_position /= resolution;
     return std::make_pair(static_cast<int>(image_position[0]),
                           static_cast<int>(image_position[1]));
-- 
2.43.0


From 26d0fe7d688275a1a45cf2996af459c0e1584ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:49:28 +0000
Subject: [PATCH 35/56] fix: report the match score of the NDT registration
 like the others do

The score of a match is 1 for a perfect one and falls towards 0, and the
callers accept a match only above a limit.  NDT reported the mean squared
distance instead, so good matches were rejected and bad ones accepted.
---
 registrators/ndt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/registrators/ndt.cc b/registrators/ndt.cc
index 74d6520..d1dd3d0 100644
--- a/registrators/ndt.cc
+++ b/registrators/ndt.cc
@@ -57,7 +57,7 @@ bool Ndt::Align(const Eigen::Matrix4d& guess,
       new pcl::PointCloud<pcl::PointXYZ>);
   inner_matcher_.align(*aligned_cloud, guess.cast<float>());
 
-  this->final_score_ = inner_matcher_.getFitnessScore();
+  this->final_score_ = std::exp(-inner_matcher_.getFitnessScore());
   result = inner_matcher_.getFinalTransformation().template cast<double>();
 
   return true;
-- 
2.43.0


From bb4c7d6a8a2f8646ff876d1d34c8724e304291d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:00:43 +0000
Subject: [PATCH 36/56] fix: forget the previous cloud when describing the next
 one

---
 descriptor/m2dp.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/descriptor/m2dp.cc b/descriptor/m2dp.cc
index 57e6342..19322d2 100644
--- a/descriptor/m2dp.cc
+++ b/descriptor/m2dp.cc
@@ -54,6 +54,7 @@ void M2dp::preProcess(const data::InnerCloudType::Ptr& source) {
       new pcl::PointCloud<pcl::PointXYZ>);
   pca.project(*pcl_cloud, *tmp_inner_cloud);
 
+  inner_cloud_->points.clear();
   for (auto& point : tmp_inner_cloud->points) {
     double d = getLength<pcl::PointXYZ>(point);
     if (d <= max_distance_) {
-- 
2.43.0


From ea9c14feea4feddf69289c0bf555fd7cbdbc8d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:00:43 +0000
Subject: [PATCH 37/56] fix: refuse clouds too small for a descriptor instead
 of throwing

---
 descriptor/m2dp.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/descriptor/m2dp.cc b/descriptor/m2dp.cc
index 19322d2..f0aa7d8 100644
--- a/descriptor/m2dp.cc
+++ b/descriptor/m2dp.cc
@@ -121,8 +121,9 @@ Eigen::VectorXi M2dp::singleViewProcess(double theta, double phi) {
 }
 
 bool M2dp::setInputCloud(const data::InnerCloudType::Ptr& source) {
-  if (source->points.empty()) {
-    PCL_ERROR("source is empty.\n");
+  // the principal axes need three points at least
+  if (source->points.size() < 3) {
+    PCL_ERROR("source is empty or has too few points.\n");
     return false;
   }
 
-- 
2.43.0


From 0c5126eec37df8dcc40db5fd25a7ea53fbd8e6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:06:17 +0000
Subject: [PATCH 38/56] fix: report a directory that cannot be created instead
 of throwing

---
 common/file_utils.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/common/file_utils.cc b/common/file_utils.cc
index 912b174..ca8bb5f 100644
--- a/common/file_utils.cc
+++ b/common/file_utils.cc
@@ -50,11 +50,12 @@ bool CreateDir(const std::string& path) {
   while (!path_without_slash.empty() && path_without_slash.back() == '/') {
     path_without_slash.resize(path_without_slash.size() - 1);
   }
-  if (path_without_slash.empty() ||
-      boost::filesystem::exists(path_without_slash)) {
+  if (path_without_slash.empty()) {
     return true;
   }
-  return boost::filesystem::create_directories(path_without_slash);
+  boost::system::error_code error;
+  boost::filesystem::create_directories(path_without_slash, error);
+  return boost::filesystem::is_directory(path_without_slash, error);
 }
 
 std::vector<std::string> ListFilesInPath(const std::string& path) {
-- 
2.43.0


From 6fe5036e43db0000f66e7d2acacdde24994ef22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:08:16 +0000
Subject: [PATCH 39/56] fix: create the timer manager once when several threads
 ask for it first

---
 common/performance/simple_prof.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/performance/simple_prof.h b/common/performance/simple_prof.h
index 7b5aac2..f6616fd 100644
--- a/common/performance/simple_prof.h
+++ b/common/performance/simple_prof.h
@@ -69,9 +69,10 @@ class SimpleTimer {
 class TimerManager {
  public:
   static std::shared_ptr<TimerManager> Instance() {
-    if (!instance_) {
+    static std::once_flag once;
+    std::call_once(once, [] {
       instance_ = std::shared_ptr<TimerManager>(new TimerManager);
-    }
+    });
     return instance_;
   }
 
-- 
2.43.0


From b40874051dc54941df863bd715fe0201521f4b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:08:16 +0000
Subject: [PATCH 40/56] fix: report profiled times beyond the range of an int

---
 common/performance/simple_prof.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/performance/simple_prof.cc b/common/performance/simple_prof.cc
index 633271b..3976533 100644
--- a/common/performance/simple_prof.cc
+++ b/common/performance/simple_prof.cc
@@ -79,7 +79,7 @@ TimerManager::~TimerManager() {
   std::cout << std::endl;
 
   const auto time_to_string = [&](const int64_t time) -> std::string {
-    int factored_time = time * output_factor[unit_].second;
+    int64_t factored_time = time * output_factor[unit_].second;
     return (factored_time >= 1 ? std::to_string(factored_time) : "<1");
   };
   const auto merge_vectors_into_one =
-- 
2.43.0


From 7d463d9f0053915b741ce9b851f04cc235728a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:08:16 +0000
Subject: [PATCH 41/56] fix: stop the process profiler through an atomic flag

---
 common/performance/process_info.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/performance/process_info.h b/common/performance/process_info.h
index 923a9ad..3ca1ba5 100644
--- a/common/performance/process_info.h
+++ b/common/performance/process_info.h
@@ -30,6 +30,7 @@
 #include <sys/stat.h>
 #include <sys/time.h>
 #include <unistd.h>
+#include <atomic>
 #include <fstream>
 #include <iostream>
 #include <queue>
@@ -63,7 +64,7 @@ class ProcessProfiler {
 
   pid_t pid_;
   std::thread profiling_thread_;
-  bool run_ = true;
+  std::atomic<bool> run_{true};
 };
 
 }  // namespace performance
-- 
2.43.0


From 0d7408c692ed4f852059fff91072a83e2b5c76f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:14:02 +0000
Subject: [PATCH 42/56] fix: fail when a piece of the map package cannot be
 read

---
 tools/join_pieces.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/join_pieces.cc b/tools/join_pieces.cc
index e8cf915..5f90336 100644
--- a/tools/join_pieces.cc
+++ b/tools/join_pieces.cc
@@ -66,6 +66,7 @@ int main(int argc, char** argv) {
     pcl::PointCloud<pcl::PointXYZI> piece_cloud;
     if (pcl::io::loadPCDFile<pcl::PointXYZI>(pcd_file, piece_cloud) == -1) {
       std::cout << "Error loading pointcloud from this file." << std::endl;
+      return -1;
     } else {
       Eigen::Matrix4d transform = Eigen::Matrix4d::Identity();
       transform(0, 3) = piece_node.attribute("x").as_double();
-- 
2.43.0


From afb5b8d8b225aa706d75177e12f68e4858c16b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:14:02 +0000
Subject: [PATCH 43/56] fix: fail when the path statistics cannot be written

---
 tools/path_statistic.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/path_statistic.cc b/tools/path_statistic.cc
index 611ae69..d507bc9 100644
--- a/tools/path_statistic.cc
+++ b/tools/path_statistic.cc
@@ -54,6 +54,7 @@ int main(int argc, char** argv) {
     path_file.close();
   } else {
     PCL_ERROR("Failed to open file.\n");
+    return -1;
   }
 
   return 0;
-- 
2.43.0


From d60f564e110f9b224851bb175b408817d94c215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:19:26 +0000
Subject: [PATCH 44/56] fix: give the imu frequency a default that is accepted

---
 builder/map_builder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/map_builder.h b/builder/map_builder.h
index 0977d4c..6ec6b51 100644
--- a/builder/map_builder.h
+++ b/builder/map_builder.h
@@ -72,7 +72,7 @@ struct Options {
   struct {
     bool enabled = true;
     data::ImuType type = data::ImuType::kNormalImu;
-    float frequency = 0.f;
+    float frequency = 100.f;
     float gravity_constant = 9.8f;
   } imu_options;
 
-- 
2.43.0


From e0d66aafdb4763d77764aa8455f83441890214ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:20:27 +0000
Subject: [PATCH 45/56] fix: use the current directory for empty output paths

---
 builder/map_builder_options.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/map_builder_options.cc b/builder/map_builder_options.cc
index f3ebe7d..2a44447 100644
--- a/builder/map_builder_options.cc
+++ b/builder/map_builder_options.cc
@@ -112,6 +112,9 @@ MapBuilderOptions& MapBuilder::Initialise(const char* config_file_name) {
   using std::string;
   GET_SINGLE_OPTION(static_map_node, "whole_options", "export_file_path",
                     whole_options.export_file_path, string, string);
+  if (whole_options.export_file_path.empty()) {
+    whole_options.export_file_path = "./";
+  }
   CHECK(common::CreateDir(whole_options.export_file_path)) << strerror(errno);
   if (whole_options.export_file_path.back() != '/') {
     whole_options.export_file_path += "/";
@@ -119,6 +122,9 @@ MapBuilderOptions& MapBuilder::Initialise(const char* config_file_name) {
 
   GET_SINGLE_OPTION(static_map_node, "whole_options", "map_package_path",
                     whole_options.map_package_path, string, string);
+  if (whole_options.map_package_path.empty()) {
+    whole_options.map_package_path = "./";
+  }
   CHECK(common::CreateDir(whole_options.map_package_path)) << strerror(errno);
   if (whole_options.map_package_path.back() != '/') {
     whole_options.map_package_path += "/";
-- 
2.43.0


From 7c701d1903b33899fc5dd8e7a19a5033abdcd863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:45:39 +0000
Subject: [PATCH 46/56] fix: keep the log prefix buffer per thread

The messages printed from several threads shared one buffer for the file
name, so concurrent messages raced on it.
---
 common/macro_defines.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/macro_defines.cc b/common/macro_defines.cc
index 4fbb55e..05a2796 100644
--- a/common/macro_defines.cc
+++ b/common/macro_defines.cc
@@ -29,7 +29,7 @@
 
 namespace static_map {
 
-static char filename[128] = {'\0'};
+static thread_local char filename[128] = {'\0'};
 char* splited_file_name(const char* file) {
   memset(filename, 0, sizeof(filename));
   std::string str = file;
-- 
2.43.0


From 58bb1d2d23d7e74a4d173cb1429242c831b197b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:45:39 +0000
Subject: [PATCH 47/56] fix: guard the turn between poses against rounding

The dot product of two unit vectors may exceed 1, acos then returns NaN
and the map was aligned to GPS before the configured turn.
---
 back_end/isam_optimizer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/back_end/isam_optimizer.cc b/back_end/isam_optimizer.cc
index b2251ac..365d405 100644
--- a/back_end/isam_optimizer.cc
+++ b/back_end/isam_optimizer.cc
@@ -186,7 +186,9 @@ double IsamOptimizer::AnalyseAllFramePoseForMaxRotation() {
   const Eigen::Vector3d v0 = first_rotation * x_norm;
   for (const auto frame : frames) {
     const Eigen::Vector3d v_f = frame->GlobalRotation() * x_norm;
-    delta_rotations.push_back(std::fabs(std::acos(v0.dot(v_f))));
+    // Rounding may carry the dot product of unit vectors beyond 1.
+    delta_rotations.push_back(
+        std::fabs(std::acos(common::Clamp(v0.dot(v_f), -1., 1.))));
   }
   std::sort(delta_rotations.begin(), delta_rotations.end());
   // LOG(INFO) << delta_rotations.back();
-- 
2.43.0


From 569ed75a0a969523daf40df8b9cf2475f9d51ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:45:39 +0000
Subject: [PATCH 48/56] fix: keep the child frame of odometry messages

---
 ros_node/msg_conversion.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ros_node/msg_conversion.cc b/ros_node/msg_conversion.cc
index a6c08ab..afd6017 100644
--- a/ros_node/msg_conversion.cc
+++ b/ros_node/msg_conversion.cc
@@ -73,6 +73,7 @@ static_map::data::ImuMsg ToLocalImu(const sensor_msgs::Imu& msg) {
 static_map::data::OdomMsg ToLocalOdom(const nav_msgs::Odometry& msg) {
   static_map::data::OdomMsg local_odom;
   local_odom.header = ToLocalHeader(msg.header);
+  local_odom.child_frame_id = msg.child_frame_id;
 
   local_odom.pose.pose.position.x() = msg.pose.pose.position.x;
   local_odom.pose.pose.position.y() = msg.pose.pose.position.y;
-- 
2.43.0


From 71ff5e3d251e11af304658e1f8ed9d6100b3f76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:45:39 +0000
Subject: [PATCH 49/56] fix: read whole KITTI scans

The scan buffer was never freed, records beyond 1e6 values were dropped
and the cloud's width was left at zero.
---
 ros_node/kitti_reader.cc | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/ros_node/kitti_reader.cc b/ros_node/kitti_reader.cc
index b5fdb15..d1ff1c5 100644
--- a/ros_node/kitti_reader.cc
+++ b/ros_node/kitti_reader.cc
@@ -89,33 +89,19 @@ namespace {
 // File existing check should be done before calling this function. We will NOT
 // perform any check on this filename in this function.
 MapBuilder::PointCloudPtr ReadFromFile(const char *filename) {
-  // allocate 4 MB buffer (only ~130*4*4 KB are needed)
-  int32_t num = 1000000;
-  float *data = reinterpret_cast<float *>(malloc(num * sizeof(float)));
-
-  // pointers
-  float *px = data + 0;
-  float *py = data + 1;
-  float *pz = data + 2;
-  float *pr = data + 3;
-
   // load point cloud
   MapBuilder::PointCloudPtr point_cloud(new MapBuilder::PointCloudType);
   FILE *stream;
   stream = fopen(filename, "rb");
-  num = fread(data, sizeof(float), num, stream) / 4;
-  point_cloud->reserve(num);
-  for (int32_t i = 0; i < num; i++) {
+  // x, y, z and reflectance of one measurement
+  float data[4];
+  while (fread(data, sizeof(float), 4, stream) == 4) {
     pcl::PointXYZI point;
-    point.x = *px;
-    point.y = *py;
-    point.z = *pz;
-    point.intensity = (*pr) * 255;
-    point_cloud->points.push_back(point);
-    px += 4;
-    py += 4;
-    pz += 4;
-    pr += 4;
+    point.x = data[0];
+    point.y = data[1];
+    point.z = data[2];
+    point.intensity = data[3] * 255;
+    point_cloud->push_back(point);
   }
   fclose(stream);
   return point_cloud;
-- 
2.43.0


From 347739ea4ed1b4fc152553d88d46a10428295065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:45:39 +0000
Subject: [PATCH 50/56] fix: read numbered KITTI scans from long paths

Paths were cut at 255 characters.
---
 ros_node/kitti_reader.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ros_node/kitti_reader.cc b/ros_node/kitti_reader.cc
index d1ff1c5..805afd9 100644
--- a/ros_node/kitti_reader.cc
+++ b/ros_node/kitti_reader.cc
@@ -118,13 +118,13 @@ void KittiReader::SetPointCloudDataPath(const std::string &path) {
 }
 
 MapBuilder::PointCloudPtr KittiReader::ReadFromBin(const int index) {
-  char filename[256] = {0};
-  snprintf(filename, sizeof(filename), "%s/%010d.bin",
-           point_cloud_data_path_.c_str(), index);
+  char file_base_name[32] = {0};
+  snprintf(file_base_name, sizeof(file_base_name), "%010d.bin", index);
+  const std::string filename = point_cloud_data_path_ + "/" + file_base_name;
   if (!common::FileExist(filename)) {
     return nullptr;
   }
-  return ReadFromFile(filename);
+  return ReadFromFile(filename.c_str());
 }
 
 MapBuilder::PointCloudPtr KittiReader::ReadNext() {
-- 
2.43.0


From 970ac0a9a15a7f52f24439d306de00c7ecfde592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:45:39 +0000
Subject: [PATCH 51/56] fix: play bags that start near time zero

Subtracting the buffer delay from an early time is out of range and throws;
compare the time between the messages instead.
---
 ros_node/playable_bag.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ros_node/playable_bag.cc b/ros_node/playable_bag.cc
index 627bc0c..bfee638 100644
--- a/ros_node/playable_bag.cc
+++ b/ros_node/playable_bag.cc
@@ -73,8 +73,9 @@ rosbag::MessageInstance PlayableBag::GetNextMessage() {
 
 bool PlayableBag::IsMessageAvailable() const {
   return !buffered_messages_.empty() &&
-         (buffered_messages_.front().getTime() <
-          buffered_messages_.back().getTime() - buffer_delay_);
+         (buffered_messages_.back().getTime() -
+              buffered_messages_.front().getTime() >
+          buffer_delay_);
 }
 
 void PlayableBag::AdvanceOneMessage() {
-- 
2.43.0


From 24955b041415db86e6a03dc1f08ac5988ffeef27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:42:19 +0000
Subject: [PATCH 52/56] fix: skip scans without points instead of aborting the
 mapping

---
 builder/map_builder.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/builder/map_builder.cc b/builder/map_builder.cc
index 98ef20f..4f7deaa 100644
--- a/builder/map_builder.cc
+++ b/builder/map_builder.cc
@@ -277,6 +277,11 @@ void MapBuilder::ScanMatchProcessing() {
       continue;
     }
 
+    if (new_inner_cloud->points.empty()) {
+      PRINT_WARNING("skip empty cloud.");
+      continue;
+    }
+
     source_cloud.reset(new InnerCloud(new_inner_cloud));
     const auto source_time = source_cloud->GetTime();
     if (!got_first_point_cloud_) {
-- 
2.43.0


From 78c92dafb7c1c39c643195fd9054f50ec32470a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:42:19 +0000
Subject: [PATCH 53/56] fix: build submaps only from completely inserted frames

---
 builder/map_builder.cc | 3 ++-
 builder/map_builder.h  | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/builder/map_builder.cc b/builder/map_builder.cc
index 4f7deaa..54f6814 100644
--- a/builder/map_builder.cc
+++ b/builder/map_builder.cc
@@ -226,6 +226,7 @@ void MapBuilder::InsertFrameForSubmap(InnerCloud::Ptr cloud_ptr,
   frame->SetTimeStamp(cloud_ptr->GetTime());
   frame->SetGlobalPose(global_pose);
   frames_.push_back(frame);
+  ++finished_frames_;
 }
 
 namespace {
@@ -665,7 +666,7 @@ void MapBuilder::SubmapProcessing() {
   submap_match_thread_pool.enqueue([&]() { ConnectAllSubmap(); });
 
   while (true) {
-    const int frames_size = frames_.size();
+    const int frames_size = finished_frames_.load();
     if (frames_size - current_index < submap_frame_count) {
       if (!scan_match_thread_running_.load()) {
         PRINT_INFO("no enough frames for new submap, quit");
diff --git a/builder/map_builder.h b/builder/map_builder.h
index 6ec6b51..d39c8f5 100644
--- a/builder/map_builder.h
+++ b/builder/map_builder.h
@@ -256,6 +256,8 @@ class MapBuilder {
   std::shared_ptr<registrator::Interface> scan_matcher_ = nullptr;
   std::unique_ptr<std::thread> scan_match_thread_;
   tbb::concurrent_vector<std::shared_ptr<Frame>> frames_;
+  // frames_.size() also counts a frame that is still being inserted
+  std::atomic<size_t> finished_frames_{0};
   std::atomic<bool> scan_match_thread_running_;
   bool got_first_point_cloud_ = false;
 
-- 
2.43.0


From ba51819e7508e71adbe989bcc1e0e355cfcf0dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:42:19 +0000
Subject: [PATCH 54/56] fix: do not lose the last frames and submaps at the end
 of mapping

---
 builder/map_builder.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/builder/map_builder.cc b/builder/map_builder.cc
index 54f6814..0da00b5 100644
--- a/builder/map_builder.cc
+++ b/builder/map_builder.cc
@@ -459,9 +459,11 @@ void MapBuilder::ConnectAllSubmap() {
   submaps_to_connect.reserve(20);
   bool first_inserted = false;
   while (true) {
+    // Read before the size: no submap is added once it is set.
+    const bool all_submaps_added = submap_processing_done_.load();
     int submap_size = current_trajectory_->size();
     if (submap_size == 0 || submap_size - 1 == current_finished_index) {
-      if (submap_processing_done_.load()) {
+      if (all_submaps_added) {
         break;
       }
       SimpleTime::FromSec(0.1).Sleep();
@@ -666,9 +668,11 @@ void MapBuilder::SubmapProcessing() {
   submap_match_thread_pool.enqueue([&]() { ConnectAllSubmap(); });
 
   while (true) {
+    // Read before the size: no frame is added once it is cleared.
+    const bool more_frames = scan_match_thread_running_.load();
     const int frames_size = finished_frames_.load();
     if (frames_size - current_index < submap_frame_count) {
-      if (!scan_match_thread_running_.load()) {
+      if (!more_frames) {
         PRINT_INFO("no enough frames for new submap, quit");
         break;
       }
-- 
2.43.0


From 867286ca2b211f9f8d085dd92ede8b0f3116ca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:42:19 +0000
Subject: [PATCH 55/56] fix: give the map builder defined frames and sensors
 before they are set

---
 builder/map_builder.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/builder/map_builder.cc b/builder/map_builder.cc
index 0da00b5..fe457e6 100644
--- a/builder/map_builder.cc
+++ b/builder/map_builder.cc
@@ -51,7 +51,14 @@ constexpr double kLocalMapRange = 30.;           // m
 }  // namespace
 
 MapBuilder::MapBuilder()
-    : use_imu_(false),
+    : transform_odom_lidar_(Eigen::Matrix4d::Identity()),
+      transform_imu_lidar_(Eigen::Matrix4d::Identity()),
+      tracking_to_imu_(Eigen::Matrix4d::Identity()),
+      tracking_to_odom_(Eigen::Matrix4d::Identity()),
+      tracking_to_lidar_(Eigen::Matrix4d::Identity()),
+      tracking_to_gps_(Eigen::Matrix4d::Identity()),
+      use_imu_(false),
+      use_odom_(false),
       use_gps_(false),
       end_all_thread_(false),
       submap_processing_done_(false),
-- 
2.43.0


From ccf94a5c870ed2b88e6b30339e0d64d0e7a1f337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:55:33 +0000
Subject: [PATCH 56/56] fix: read the processor time of processes with spaces
 in their name

---
 common/performance/process_info.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/performance/process_info.cc b/common/performance/process_info.cc
index 6a9efe5..f3e3566 100644
--- a/common/performance/process_info.cc
+++ b/common/performance/process_info.cc
@@ -113,7 +113,10 @@ uint64_t ProcessProfiler::GetCpuProcOccpy(unsigned int pid) {
 
   if (fgets(line_buff, sizeof(line_buff), fd)) {
     sscanf(line_buff, "%u", &t.pid);
-    const char* q = GetItems(line_buff, kProcessItem);
+    // The second item is the name in brackets and may contain spaces.
+    const char* name_end = strrchr(line_buff, ')');
+    const char* q = GetItems(name_end ? name_end : line_buff,
+                             name_end ? kProcessItem - 1 : kProcessItem);
     sscanf(q, "%ld %ld %ld %ld", &t.utime, &t.stime, &t.cutime, &t.cstime);
   }
   fclose(fd);
-- 
2.43.0

