From d552bde857c96f025debc60582d691071db49a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 01/26] fix: follow the mimic chain when looking for mimic
 loops

---
 src/scenegraph/urdf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index 7ab87a8..2530d96 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -397,7 +397,7 @@ bool RobotTreeP::transitively_mimics(const Joints &joints,
   BOOST_FOREACH(ptree::const_iterator joint,
                 joints.get<Mimic>().equal_range(rhs_joint_name)) {
     if ((joint == lhs_joint_it) ||
-        transitively_mimics(joints, joint, rhs_joint_name))
+        transitively_mimics(joints, lhs_joint_it, ::name_it(joint)))
       return true;
   }
   return false;
-- 
2.43.0


From 63ac0c267d34ed28ccc91a6a2ca85643c4b156da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 02/26] fix: refuse robots with a kinematic loop disconnected
 from the root

---
 src/scenegraph/urdf.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index 2530d96..7b4240b 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -17,6 +17,8 @@
 #include <boost/multi_index/identity.hpp>
 #include <boost/multi_index/mem_fun.hpp>
 #include <map>
+#include <set>
+#include <vector>
 #include <iostream>
 #include <almath/scenegraph/urdfeigen.h>
 
@@ -484,6 +486,22 @@ RobotTreeP::RobotTreeP(ptree &robot) : robot(robot) {
     }
   }
   root_link = *root_links.begin();
+
+  // Every link but the root has exactly one parent joint, yet some of them may
+  // form a loop which is not connected to the root.
+  std::set<std::string> reached = {root_link};
+  std::vector<std::string> to_visit = {root_link};
+  while (!to_visit.empty()) {
+    const std::string link = to_visit.back();
+    to_visit.pop_back();
+    BOOST_FOREACH (ptree::const_iterator joint,
+                   joints.get<ParentLink>().equal_range(link)) {
+      const std::string child_link = ::child_link_it(joint);
+      if (reached.insert(child_link).second) to_visit.push_back(child_link);
+    }
+  }
+  if (reached.size() != links.size())
+    throw std::runtime_error("there is a loop in the kinematic tree");
 }
 
 void RobotTreeP::rm_root_joint() {
-- 
2.43.0


From d4204459e3a7f6d73d20d7059e020d14088ec304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 03/26] fix: visit sibling joints in file order after the root
 link changed

---
 src/scenegraph/urdf.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index 7b4240b..8f21265 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -705,8 +705,10 @@ void RobotTreeP::define_as_root_link(const std::string &link_name) {
 
 void RobotTreeP::walk_joint(RobotTree::JointConstVisitor &vis,
                             const std::string &link) const {
-  BOOST_FOREACH (ptree::const_iterator joint,
-                 joints.get<ParentLink>().equal_range(link)) {
+  // use the sequenced index: it keeps the ordering of the joints in the file,
+  // whereas the one of the parent link index is altered by key changes.
+  BOOST_FOREACH (ptree::const_iterator joint, joints) {
+    if (::parent_link_it(joint) != link) continue;
     if (vis.discover(joint->second))
       walk_joint(vis, ::child_link_it(joint));
     vis.finish(joint->second);
@@ -715,8 +717,8 @@ void RobotTreeP::walk_joint(RobotTree::JointConstVisitor &vis,
 
 void RobotTreeP::walk_joint(RobotTree::JointVisitor &vis,
                             const std::string &link) {
-  BOOST_FOREACH (ptree::iterator joint,
-                 joints.get<ParentLink>().equal_range(link)) {
+  BOOST_FOREACH (ptree::iterator joint, joints) {
+    if (::parent_link_it(joint) != link) continue;
     if (vis.discover(joint->second))
       walk_joint(vis, ::child_link_it(joint));
     vis.finish(joint->second);
-- 
2.43.0


From c380d4ee8e27f70d58009ce6b070615dd02e989c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 04/26] fix: drop the child inertial origin when squashing into
 a massless link

---
 src/scenegraph/urdf.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index 8f21265..657d610 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -860,6 +860,7 @@ void squashJointMass(RobotTree &parser, ptree &joint_pt) {
     // we can copy the child inertial as-is, except for the pose which
     // needs to get updated.
     new_inertial = child_inertial->pt;
+    new_inertial.erase("origin");
     new_inertial_pose = child_inertial_pose;
   } else {
     const EPose parent_inertial_pose =
-- 
2.43.0


From 6a8236add48cc5f4b4180dc826bdacb495d5ef81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 05/26] fix: rotate the inertia of the squashed body in the
 right direction

---
 almath/scenegraph/urdfeigen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/almath/scenegraph/urdfeigen.h b/almath/scenegraph/urdfeigen.h
index 37ea7ee..16ff378 100644
--- a/almath/scenegraph/urdfeigen.h
+++ b/almath/scenegraph/urdfeigen.h
@@ -109,7 +109,7 @@ void squashInertial(Scalar mass_a, const EPose &pose_a,
 
   // add inertia from b
   Matrix3 rot_cb = pose_c.linear().transpose() * pose_b.linear();
-  inertia_c += rot_cb.transpose() * inertia_b * rot_cb;
+  inertia_c += rot_cb * inertia_b * rot_cb.transpose();
   displ = pose_c.translation() - pose_b.translation();
   addPointMassInertia(mass_b, pose_c.linear().transpose() * displ, inertia_c);
 }
-- 
2.43.0


From 4ce8ce44251983a1bb53149bec8db52a2a95fc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 06/26] fix: express the urdf inertia in the link basis, not in
 its inverse

---
 almath/scenegraph/urdfeigen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/almath/scenegraph/urdfeigen.h b/almath/scenegraph/urdfeigen.h
index 16ff378..0c49c01 100644
--- a/almath/scenegraph/urdfeigen.h
+++ b/almath/scenegraph/urdfeigen.h
@@ -133,7 +133,7 @@ void urdfInertialToEigen(const AL::urdf::Inertial &inertial, Scalar &mass,
   T t_ab = toEigenTransform(inertial.origin()).cast<Scalar>();
   com_a = t_ab.translation();
   Matrix3 inertia_b = toEigenMatrix3(inertial).cast<Scalar>();
-  inertia_a = t_ab.linear().transpose() * inertia_b * t_ab.linear();
+  inertia_a = t_ab.linear() * inertia_b * t_ab.linear().transpose();
 }
 }
 }
-- 
2.43.0


From c7974441dead73f5b80ebb114b1239cf577c2bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 07/26] fix: transform the file names of collision meshes too

---
 src/scenegraph/urdf.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index 657d610..7408ec1 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -1016,6 +1016,17 @@ void transform_filenames(
   }
   auto links = robot.equal_range("link");
   for (ptree &link: boost::adaptors::values(links)) {
+    auto collisions = link.equal_range("collision");
+    for (ptree &collision: boost::adaptors::values(collisions)) {
+      boost::optional<ptree &> geometry =
+          collision.get_child_optional("geometry");
+      if (!geometry)
+        continue;
+      auto meshes = geometry->equal_range("mesh");
+      for (ptree &mesh: boost::adaptors::values(meshes)) {
+        apply_op(mesh);
+      }
+    }
     auto visuals = link.equal_range("visual");
     for (ptree &visual: boost::adaptors::values(visuals)) {
       ptree &geometry = visual.get_child("geometry");
-- 
2.43.0


From 004e4f4773350e6a87251dfe7afebf83f90274a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 08/26] fix: do not abort when a changed origin happens to be
 the identity

---
 src/scenegraph/urdf.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index 7408ec1..94eba74 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -550,7 +550,11 @@ void premul(const Pose &lhs, const Pose &ilhs, ptree *rhs_parent,
   auto const_rhs_parent = const_cast<const ptree *>(rhs_parent);
 
   Pose rhs = Pose::from_ptree(const_rhs_parent->get_child_optional("origin"));
-  if (rhs == ilhs) {
+  // Note: the product may be the identity (hence, have no tree
+  // representation) even if rhs is not strictly equal to ilhs.
+  boost::optional<ptree> new_origin;
+  if (!(rhs == ilhs)) new_origin = (lhs * rhs).to_ptree();
+  if (!new_origin) {
     if (noprune) {
       // instead of removing the element, empty it.
       // Wrt to URDF, this has the same meaning (identity transform)
@@ -563,8 +567,6 @@ void premul(const Pose &lhs, const Pose &ilhs, ptree *rhs_parent,
       rhs_parent->erase("origin");
     }
   } else {
-    boost::optional<ptree> new_origin = (lhs * rhs).to_ptree();
-    assert(new_origin);
     rhs_parent->put_child("origin", *new_origin);
   }
 }
-- 
2.43.0


From 0be7e7358142083e13ea0e2adb5faca89a2e3bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 09/26] fix: SceneBuilder::add(mesh, Transform) refuses meshes
 with texture coordinates too

---
 src/scenegraph/scenebuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scenegraph/scenebuilder.cpp b/src/scenegraph/scenebuilder.cpp
index d9070f4..b60365c 100644
--- a/src/scenegraph/scenebuilder.cpp
+++ b/src/scenegraph/scenebuilder.cpp
@@ -44,7 +44,7 @@ void SceneBuilder::add(const Mesh &mesh, const Eigen::Affine3f &tf) {
 
 void SceneBuilder::add(const Mesh &mesh, const Math::Transform &tf) {
   Eigen::Map<const Eigen::Matrix<float, 3, 4, Eigen::RowMajor> > m(&tf.r1_c1);
-  xAddMesh(mesh, Eigen::Affine3f(m));
+  add(mesh, Eigen::Affine3f(m));
 }
 
 void SceneBuilder::add(const Math::Sphere &shape, const Math::Transform &tf) {
-- 
2.43.0


From 8b48a00c1e602e31813e510b9bf71084c84ceec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 10/26] fix: Collada vertex indexes are written as integers

---
 src/scenegraph/colladabuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scenegraph/colladabuilder.cpp b/src/scenegraph/colladabuilder.cpp
index 7ca42b2..b37e083 100644
--- a/src/scenegraph/colladabuilder.cpp
+++ b/src/scenegraph/colladabuilder.cpp
@@ -12,7 +12,7 @@ namespace {
 template <typename T>
 std::string toString(const std::vector<T> &data) {
   std::ostringstream ss;
-  std::copy(data.begin(), data.end(), std::ostream_iterator<float>(ss, " "));
+  std::copy(data.begin(), data.end(), std::ostream_iterator<T>(ss, " "));
   return ss.str();
 }
 }
-- 
2.43.0


From 86317ca8a1885b097fcea8954655a376314d70c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:54 +0000
Subject: [PATCH 11/26] fix: qianim finds and sorts keys and labels among other
 elements

---
 src/scenegraph/qianim.cpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/scenegraph/qianim.cpp b/src/scenegraph/qianim.cpp
index 23f3697..8a7aadf 100644
--- a/src/scenegraph/qianim.cpp
+++ b/src/scenegraph/qianim.cpp
@@ -165,26 +165,33 @@ void put_unit(ptree &pt, Unit unit) {
 }
 
 // private
-bool key_comp(const ptree::value_type &key, int frame) {
-  return (key.first != "Key") || (Key::get_frame(key.second) < frame);
+// Return the first Key whose frame is not before the given one, or the end.
+// Note: the elements which are not keys may be anywhere among the keys, hence
+// the children are not partitioned and a binary search would not do.
+template <typename Ptree>
+auto find_key(Ptree &pt, int frame) -> decltype(pt.begin()) {
+  return std::find_if(pt.begin(), pt.end(),
+                      [frame](const ptree::value_type &child) {
+    return Key::is_key(child) && Key::get_frame(child.second) >= frame;
+  });
 }
 
 optional<ptree &> get_key_optional(ptree &pt, int frame) {
-  auto it = std::lower_bound(pt.begin(), pt.end(), frame, key_comp);
+  auto it = find_key(pt, frame);
   if ((it != pt.end()) && (Key::get_frame(it->second) == frame))
     return it->second;
   return optional<ptree &>();
 }
 
 optional<const ptree &> get_key_optional(const ptree &pt, int frame) {
-  auto it = std::lower_bound(pt.begin(), pt.end(), frame, key_comp);
+  auto it = find_key(pt, frame);
   if ((it != pt.end()) && (Key::get_frame(it->second) == frame))
     return it->second;
   return optional<const ptree &>();
 }
 
 ptree &require_key(ptree &pt, int frame) {
-  auto it = std::lower_bound(pt.begin(), pt.end(), frame, key_comp);
+  auto it = find_key(pt, frame);
   if ((it != pt.end()) && (Key::get_frame(it->second) == frame))
     return it->second;
   ptree &newkey = pt.insert(it, std::make_pair("Key", ptree{}))->second;
@@ -195,12 +202,6 @@ ptree &require_key(ptree &pt, int frame) {
 
 namespace Label {
 
-// private
-bool label_comp(int frame, const ptree::value_type &label) {
-  return (label.first == "Label") && (frame < Label::get_frame(label.second));
-}
-
-
 bool is_label(const ptree::value_type &val) {
   return val.first == "Label";
 }
@@ -217,7 +218,11 @@ bool is_labels(const ptree::value_type &val) {
 }
 
 ptree &add_label(ptree &pt, int frame, const std::string value) {
-  auto it = std::upper_bound(pt.begin(), pt.end(), frame, Label::label_comp);
+  // the elements which are not labels may be anywhere among the labels
+  auto it = std::find_if(pt.begin(), pt.end(),
+                         [frame](const ptree::value_type &child) {
+    return Label::is_label(child) && frame < Label::get_frame(child.second);
+  });
   ptree &newkey = pt.insert(it, std::make_pair("Label", ptree{value}))->second;
   Key::put_frame(newkey, frame);
   return newkey;
-- 
2.43.0


From 78b3f641d67b200fce1eddae188cfae45c80b605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:54 +0000
Subject: [PATCH 12/26] fix: a key or label refused for its negative frame is
 not inserted

---
 src/scenegraph/qianim.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/scenegraph/qianim.cpp b/src/scenegraph/qianim.cpp
index 8a7aadf..82d5dcb 100644
--- a/src/scenegraph/qianim.cpp
+++ b/src/scenegraph/qianim.cpp
@@ -194,9 +194,9 @@ ptree &require_key(ptree &pt, int frame) {
   auto it = find_key(pt, frame);
   if ((it != pt.end()) && (Key::get_frame(it->second) == frame))
     return it->second;
-  ptree &newkey = pt.insert(it, std::make_pair("Key", ptree{}))->second;
+  ptree newkey;
   Key::put_frame(newkey, frame);
-  return newkey;
+  return pt.insert(it, std::make_pair("Key", newkey))->second;
 }
 } // namespace ActuatorCurve
 
@@ -223,9 +223,9 @@ ptree &add_label(ptree &pt, int frame, const std::string value) {
                          [frame](const ptree::value_type &child) {
     return Label::is_label(child) && frame < Label::get_frame(child.second);
   });
-  ptree &newkey = pt.insert(it, std::make_pair("Label", ptree{value}))->second;
-  Key::put_frame(newkey, frame);
-  return newkey;
+  ptree newlabel{value};
+  Key::put_frame(newlabel, frame);
+  return pt.insert(it, std::make_pair("Label", newlabel))->second;
 }
 } // namespace Labels
 
-- 
2.43.0


From a1d5b69ed73f30a6e26d4c873bd89e72ff42826f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:16 +0000
Subject: [PATCH 13/26] fix: a filter that was never configured reads no sample
 it does not have

---
 src/dsp/digitalfilter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsp/digitalfilter.cpp b/src/dsp/digitalfilter.cpp
index d29e3a7..8b5d95a 100644
--- a/src/dsp/digitalfilter.cpp
+++ b/src/dsp/digitalfilter.cpp
@@ -14,7 +14,8 @@ namespace DSP
 {
 
 DigitalFilter::DigitalFilter(void)
-  :fFilterDcGain(1.0f)
+  :fFilterBufferIn(1u)
+  ,fFilterDcGain(1.0f)
   ,fFilterWeightsIn(1u, 1.0f)
 {}
 
-- 
2.43.0


From 6546ee4ccb64ce9352fc780f6d6c11b262b2aaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:16 +0000
Subject: [PATCH 14/26] fix: the period passed to
 PIDController::computeFeedback is used

---
 src/dsp/pidcontroller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/pidcontroller.cpp b/src/dsp/pidcontroller.cpp
index 7e6dced..21d6948 100644
--- a/src/dsp/pidcontroller.cpp
+++ b/src/dsp/pidcontroller.cpp
@@ -128,7 +128,7 @@ float PIDController::computeFeedback(const float pCommand,
   float period = fPeriod;
   if (pPeriod > 0.0)
   {
-    period = fPeriod;
+    period = pPeriod;
   }
 
   fPreviousErr = fErr;
-- 
2.43.0


From 8464b447cd9ddaf0e7807511eb7f00c1b623570d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:16 +0000
Subject: [PATCH 15/26] fix: parameters refused by PIDController::initialize
 are not kept

---
 src/dsp/pidcontroller.cpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/dsp/pidcontroller.cpp b/src/dsp/pidcontroller.cpp
index 21d6948..0f08c59 100644
--- a/src/dsp/pidcontroller.cpp
+++ b/src/dsp/pidcontroller.cpp
@@ -69,15 +69,8 @@ void PIDController::initialize(const float pKp,
                                const float pStaticOffset,
                                const float pPeriod)
 {
-  fKp = pKp;
-  fKv = pKv;
-  fKi = pKi;
-  fThreshold    = pThreshold;
-  fStaticOffset = pStaticOffset;
-  fPeriod       = pPeriod;
-
-  xCheckData();
-  xResetParameters();
+  // refused parameters must not replace the current ones
+  *this = PIDController(pKp, pKv, pKi, pThreshold, pStaticOffset, pPeriod);
 }
 
 float PIDController::computeFeedbackAbsolute(const float pAbsoluteErr)
-- 
2.43.0


From fa168739fd0deada858c5aaa113fc0349391d023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 16/26] fix: a body system without root body is built empty,
 not with bodies attached to nothing

---
 src/scenegraph/urdfrigidbodysystemtraverser.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/scenegraph/urdfrigidbodysystemtraverser.cpp b/src/scenegraph/urdfrigidbodysystemtraverser.cpp
index 70a673a..a091003 100644
--- a/src/scenegraph/urdfrigidbodysystemtraverser.cpp
+++ b/src/scenegraph/urdfrigidbodysystemtraverser.cpp
@@ -102,10 +102,11 @@ void buildRigidBodySystemFromUrdf(
   if (make_continuous_joints_fixed) makeContinuousJointsFixed(parser);
   makeMasslessJointsFixed(parser);
   UrdfRigidBodySystemTraverser visitor(builder, parser);
-  visitor._discover("", parser.root_link(), Pose::Identity(),
-                    Builder::JointType::FreeFlyer,
-                    parser.link(parser.root_link()));
-  parser.traverse_joints(visitor);
+  // without root body, there is nothing to attach the other ones to
+  if (visitor._discover("", parser.root_link(), Pose::Identity(),
+                        Builder::JointType::FreeFlyer,
+                        parser.link(parser.root_link())))
+    parser.traverse_joints(visitor);
 }
 
 void buildRigidBodySystemFromUrdf(
-- 
2.43.0


From 5de229a8b70c6a3f9bb9e0215f0262415bd094ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 17/26] fix: results of transform helpers may overwrite their
 operands

---
 src/tools/almath.cpp             |  6 ++++
 src/tools/altransformhelpers.cpp | 52 ++++++++++++++++++++++++++++++--
 src/types/alposition3d.cpp       |  6 ++++
 src/types/altransform.cpp        | 12 ++++++++
 4 files changed, 74 insertions(+), 2 deletions(-)

diff --git a/src/tools/almath.cpp b/src/tools/almath.cpp
index 9febabb..6852401 100644
--- a/src/tools/almath.cpp
+++ b/src/tools/almath.cpp
@@ -112,6 +112,12 @@ namespace AL
         const Pose2D& pPosIn,
         Pose2D&       pPosOut)
     {
+      if (&pPosIn == &pPosOut)
+      {
+        // manage case: the result overwrites the operand
+        return changeReferencePose2DInPlace(pTheta, pPosOut);
+      }
+
       const float cs = std::cos(pTheta);
       const float sn = std::sin(pTheta);
       pPosOut.x = cs*pPosIn.x - sn*pPosIn.y;
diff --git a/src/tools/altransformhelpers.cpp b/src/tools/altransformhelpers.cpp
index 77a17eb..fa3db56 100644
--- a/src/tools/altransformhelpers.cpp
+++ b/src/tools/altransformhelpers.cpp
@@ -257,6 +257,12 @@ namespace AL {
         const Velocity6D& pVIn,
         Velocity6D&       pVOut)
     {
+      if (&pVIn == &pVOut)
+      {
+        // copy to manage case: the result overwrites the operand
+        return changeReferenceVelocity6D(pH, Velocity6D(pVIn), pVOut);
+      }
+
       pVOut.xd  = pH.r1_c1 * pVIn.xd  + pH.r1_c2 * pVIn.yd  + pH.r1_c3 * pVIn.zd;
       pVOut.yd  = pH.r2_c1 * pVIn.xd  + pH.r2_c2 * pVIn.yd  + pH.r2_c3 * pVIn.zd;
       pVOut.zd  = pH.r3_c1 * pVIn.xd  + pH.r3_c2 * pVIn.yd  + pH.r3_c3 * pVIn.zd;
@@ -271,6 +277,12 @@ namespace AL {
         const Position6D& pPIn,
         Position6D&       pPOut)
     {
+      if (&pPIn == &pPOut)
+      {
+        // copy to manage case: the result overwrites the operand
+        return changeReferencePosition6D(pH, Position6D(pPIn), pPOut);
+      }
+
       pPOut.x  = pH.r1_c1 * pPIn.x  + pH.r1_c2 * pPIn.y  + pH.r1_c3 * pPIn.z;
       pPOut.y  = pH.r2_c1 * pPIn.x  + pH.r2_c2 * pPIn.y  + pH.r2_c3 * pPIn.z;
       pPOut.z  = pH.r3_c1 * pPIn.x  + pH.r3_c2 * pPIn.y  + pH.r3_c3 * pPIn.z;
@@ -315,6 +327,12 @@ namespace AL {
         const Position3D& pPosIn,
         Position3D&       pPosOut)
     {
+      if (&pPosIn == &pPosOut)
+      {
+        // copy to manage case: the result overwrites the operand
+        return changeReferencePosition3D(pH, Position3D(pPosIn), pPosOut);
+      }
+
       pPosOut.x = pH.r1_c1 * pPosIn.x + pH.r1_c2 * pPosIn.y + pH.r1_c3 * pPosIn.z;
       pPosOut.y = pH.r2_c1 * pPosIn.x + pH.r2_c2 * pPosIn.y + pH.r2_c3 * pPosIn.z;
       pPosOut.z = pH.r3_c1 * pPosIn.x + pH.r3_c2 * pPosIn.y + pH.r3_c3 * pPosIn.z;
@@ -326,6 +344,12 @@ namespace AL {
         const Position3D& pPosIn,
         Position3D&       pPosOut)
     {
+      if (&pPosIn == &pPosOut)
+      {
+        // copy to manage case: the result overwrites the operand
+        return changeReferenceTransposePosition3D(pH, Position3D(pPosIn), pPosOut);
+      }
+
       pPosOut.x = pH.r1_c1 * pPosIn.x + pH.r2_c1 * pPosIn.y + pH.r3_c1 * pPosIn.z;
       pPosOut.y = pH.r1_c2 * pPosIn.x + pH.r2_c2 * pPosIn.y + pH.r3_c2 * pPosIn.z;
       pPosOut.z = pH.r1_c3 * pPosIn.x + pH.r2_c3 * pPosIn.y + pH.r3_c3 * pPosIn.z;
@@ -337,6 +361,12 @@ namespace AL {
         const AL::Math::Transform&  pHIn,
         AL::Math::Transform&        pHOut)
     {
+      if (&pH == &pHOut || &pHIn == &pHOut)
+      {
+        // copies to manage case: the result overwrites an operand
+        return changeReferenceTransform(Transform(pH), Transform(pHIn), pHOut);
+      }
+
       pHOut.r1_c1 = (pH.r1_c1 * pHIn.r1_c1) + (pH.r1_c2 * pHIn.r2_c1) + (pH.r1_c3 * pHIn.r3_c1);
       pHOut.r1_c2 = (pH.r1_c1 * pHIn.r1_c2) + (pH.r1_c2 * pHIn.r2_c2) + (pH.r1_c3 * pHIn.r3_c2);
       pHOut.r1_c3 = (pH.r1_c1 * pHIn.r1_c3) + (pH.r1_c2 * pHIn.r2_c3) + (pH.r1_c3 * pHIn.r3_c3);
@@ -359,6 +389,12 @@ namespace AL {
         const AL::Math::Transform&  pHIn,
         AL::Math::Transform&        pHOut)
     {
+      if (&pH == &pHOut || &pHIn == &pHOut)
+      {
+        // copies to manage case: the result overwrites an operand
+        return changeReferenceTransposeTransform(Transform(pH), Transform(pHIn), pHOut);
+      }
+
       pHOut.r1_c1 = (pH.r1_c1 * pHIn.r1_c1) + (pH.r2_c1 * pHIn.r2_c1) + (pH.r3_c1 * pHIn.r3_c1);
       pHOut.r1_c2 = (pH.r1_c1 * pHIn.r1_c2) + (pH.r2_c1 * pHIn.r2_c2) + (pH.r3_c1 * pHIn.r3_c2);
       pHOut.r1_c3 = (pH.r1_c1 * pHIn.r1_c3) + (pH.r2_c1 * pHIn.r2_c3) + (pH.r3_c1 * pHIn.r3_c3);
@@ -381,6 +417,12 @@ namespace AL {
         const AL::Math::Velocity6D& pVIn,
         AL::Math::Velocity6D&       pVOut)
     {
+      if (&pVIn == &pVOut)
+      {
+        // copy to manage case: the result overwrites the operand
+        return changeReferenceTransposeVelocity6D(pH, Velocity6D(pVIn), pVOut);
+      }
+
       pVOut.xd  = pH.r1_c1 * pVIn.xd  + pH.r2_c1 * pVIn.yd  + pH.r3_c1 * pVIn.zd  ;
       pVOut.yd  = pH.r1_c2 * pVIn.xd  + pH.r2_c2 * pVIn.yd  + pH.r3_c2 * pVIn.zd  ;
       pVOut.zd  = pH.r1_c3 * pVIn.xd  + pH.r2_c3 * pVIn.yd  + pH.r3_c3 * pVIn.zd  ;
@@ -395,6 +437,12 @@ namespace AL {
         const AL::Math::Position6D& pPIn,
         AL::Math::Position6D&       pPOut)
     {
+      if (&pPIn == &pPOut)
+      {
+        // copy to manage case: the result overwrites the operand
+        return changeReferenceTransposePosition6D(pH, Position6D(pPIn), pPOut);
+      }
+
       pPOut.x  = pH.r1_c1 * pPIn.x  + pH.r2_c1 * pPIn.y  + pH.r3_c1 * pPIn.z  ;
       pPOut.y  = pH.r1_c2 * pPIn.x  + pH.r2_c2 * pPIn.y  + pH.r3_c2 * pPIn.z  ;
       pPOut.z  = pH.r1_c3 * pPIn.x  + pH.r2_c3 * pPIn.y  + pH.r3_c3 * pPIn.z  ;
@@ -421,8 +469,8 @@ namespace AL {
 
       transformInverse(pHIn1, pHIn1i);
       transformLogarithmInPlace(pHIn1i*pHIn2, pV);
-      velocityExponentialInPlace(pDist*pV, pHOut);
-      pHOut = pHIn1*pHOut;
+      // the result may overwrite an operand
+      pHOut = pHIn1*velocityExponential(pDist*pV);
     }
 
 
diff --git a/src/types/alposition3d.cpp b/src/types/alposition3d.cpp
index 2fa1d3d..052f3f5 100644
--- a/src/types/alposition3d.cpp
+++ b/src/types/alposition3d.cpp
@@ -223,6 +223,12 @@ namespace AL {
       const Position3D& pPos2,
       Position3D&       pRes)
     {
+      if (&pPos1 == &pRes || &pPos2 == &pRes)
+      {
+        // copies to manage case: the result overwrites an operand
+        return crossProduct(Position3D(pPos1), Position3D(pPos2), pRes);
+      }
+
       pRes.x = pPos1.y*pPos2.z - pPos1.z*pPos2.y;
       pRes.y = pPos1.z*pPos2.x - pPos1.x*pPos2.z;
       pRes.z = pPos1.x*pPos2.y - pPos1.y*pPos2.x;
diff --git a/src/types/altransform.cpp b/src/types/altransform.cpp
index 4e6608f..8fe7bd1 100644
--- a/src/types/altransform.cpp
+++ b/src/types/altransform.cpp
@@ -383,6 +383,12 @@ namespace AL {
       const Transform& pT,
       Transform&       pTOut)
     {
+      if (&pT == &pTOut)
+      {
+        // copy to manage case: the result overwrites the operand
+        return transformPreMultiply(Transform(pT), pTOut);
+      }
+
       float r1 = pTOut.r1_c1;
       float r2 = pTOut.r2_c1;
       pTOut.r1_c1 = (pT.r1_c1 * r1) + (pT.r1_c2 * r2) + (pT.r1_c3 * pTOut.r3_c1);
@@ -558,6 +564,12 @@ namespace AL {
       const Transform& pT,
       Transform&       pTOut)
     {
+      if (&pT == &pTOut)
+      {
+        // copy to manage case: the result overwrites the operand
+        return transformInverse(Transform(pT), pTOut);
+      }
+
       // rotation Ri = R'
       pTOut.r1_c1 = pT.r1_c1;
       pTOut.r1_c2 = pT.r2_c1;
-- 
2.43.0


From 31dbb246849156b49aef0757c7ac25f391065d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 18/26] fix: no NaN when converting rotations rounded beyond a
 cosine of one

---
 src/tools/altransformhelpers.cpp | 8 +++++++-
 src/types/alquaternion.cpp       | 3 +--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tools/altransformhelpers.cpp b/src/tools/altransformhelpers.cpp
index fa3db56..805ba93 100644
--- a/src/tools/altransformhelpers.cpp
+++ b/src/tools/altransformhelpers.cpp
@@ -1270,7 +1270,13 @@ namespace AL {
         }
 
         const float qs = 0.5f*std::sqrt(trace);
-        const float s = std::sqrt(1.0f - std::pow(qs, 2)) / nm;
+        float vs = 1.0f - std::pow(qs, 2);
+        if (vs < 0.0f)
+        {
+          vs = 0.0f;
+        }
+
+        const float s = std::sqrt(vs) / nm;
         return Quaternion(qs, s*kx, s*ky, s*kz);
       }
     } // end quaternionFromTransform
diff --git a/src/types/alquaternion.cpp b/src/types/alquaternion.cpp
index 2e4c739..e7651fb 100644
--- a/src/types/alquaternion.cpp
+++ b/src/types/alquaternion.cpp
@@ -242,8 +242,7 @@ namespace AL {
       float& pAxisY,
       float& pAxisZ)
     {
-      Quaternion copy = pQuaternion;
-      copy.normalize();
+      const Quaternion copy = pQuaternion.normalize();
       pAngle          = 2.0f*std::acos(copy.w); // * AL::Math::_2_PI_;
       float sin_angle = std::sqrt(1.0f - std::pow(copy.w, 2));
 
-- 
2.43.0


From c8258cfc6cdd89da9abd15c566746c186b74bb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 19/26] fix: logarithm of transforms with a small rotation

---
 src/tools/altransformhelpers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/altransformhelpers.cpp b/src/tools/altransformhelpers.cpp
index 805ba93..cd34763 100644
--- a/src/tools/altransformhelpers.cpp
+++ b/src/tools/altransformhelpers.cpp
@@ -88,7 +88,8 @@ namespace AL {
       {
         if (co > 1.0f - epsilon)
         {
-          coeff = angle/( 2.0f*si + epsilon );
+          // limit of angle/(2*sin(angle))
+          coeff = 0.5f;
           pVOut.wxd = coeff * (pH.r3_c2 - pH.r2_c3);
           pVOut.wyd = coeff * (pH.r1_c3 - pH.r3_c1);
           pVOut.wzd = coeff * (pH.r2_c1 - pH.r1_c2);
-- 
2.43.0


From c219054533acc36c056bd5e7e05c4f71e6fe9898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:26 +0000
Subject: [PATCH 20/26] fix: axis of a small rotation is a unit vector

angleAndAxisRotationFromQuaternion divides the vector part by sin(angle/2),
which is replaced by 1 or inaccurate when the rotation is small: the axis then
was not a unit vector.
---
 src/types/alquaternion.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/types/alquaternion.cpp b/src/types/alquaternion.cpp
index e7651fb..2b9a305 100644
--- a/src/types/alquaternion.cpp
+++ b/src/types/alquaternion.cpp
@@ -266,6 +266,13 @@ namespace AL {
         pAxisY = 0.0f;
         pAxisZ = 0.0f;
       }
+      else
+      {
+        // sin_angle is not accurate for small angles
+        pAxisX /= normAxe;
+        pAxisY /= normAxe;
+        pAxisZ /= normAxe;
+      }
     }
 
     std::vector<float> angleAndAxisRotationFromQuaternion(
-- 
2.43.0


From 939d8cf320f85ea7cd4159bbe18c8500f11c49f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:36 +0000
Subject: [PATCH 21/26] fix: quaternion from a list of the wrong size is the
 default one

---
 src/types/alquaternion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/alquaternion.cpp b/src/types/alquaternion.cpp
index 2b9a305..82aec48 100644
--- a/src/types/alquaternion.cpp
+++ b/src/types/alquaternion.cpp
@@ -41,7 +41,7 @@ namespace AL {
                   << "Size expected: 4. Size given: " << pFloats.size() << ". "
                   << "Quaternion is set to default value." << std::endl;
 
-        w = 0.0f;
+        w = 1.0f;
         x = 0.0f;
         y = 0.0f;
         z = 0.0f;
-- 
2.43.0


From b0d8ccdec0d0e79bcce6b606c0abebdf12f21399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:24 +0000
Subject: [PATCH 22/26] fix: modulo2PI of -PI is PI, in the half-open range it
 documents

---
 src/tools/almath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/almath.cpp b/src/tools/almath.cpp
index 6852401..e5b4324 100644
--- a/src/tools/almath.cpp
+++ b/src/tools/almath.cpp
@@ -24,7 +24,7 @@ namespace AL
       {
         pAngle = pAngle - AL::Math::_2_PI_;
       }
-      else if (pAngle<-AL::Math::PI)
+      else if (pAngle<=-AL::Math::PI)
       {
         pAngle = pAngle + AL::Math::_2_PI_;
       }
-- 
2.43.0


From e207636d83ca2c604403e4fc10896cbe51f70704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:24 +0000
Subject: [PATCH 23/26] fix: weightedMeanAngle refuses null sums whatever the
 scale of the weights

---
 src/tools/almath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/almath.cpp b/src/tools/almath.cpp
index e5b4324..6d04e6d 100644
--- a/src/tools/almath.cpp
+++ b/src/tools/almath.cpp
@@ -58,7 +58,7 @@ namespace AL
         weightSum += *w;
         sumPosition += *w * Math::Position2D(std::cos(*a), std::sin(*a));
       }
-      if (sumPosition.norm() < 1e-3f) {
+      if (sumPosition.norm() <= 1e-3f * weightSum) {
         throw std::runtime_error("No defined mean.");
       }
       return Math::modulo2PI(std::atan2(sumPosition.y, sumPosition.x));
-- 
2.43.0


From 89af346b885b0964f8e5c7846b2438809d079c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:24 +0000
Subject: [PATCH 24/26] fix: no NaN from axisRotationProjectionInPlace on axes
 rounded beyond one

---
 src/tools/altransformhelpers.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/altransformhelpers.cpp b/src/tools/altransformhelpers.cpp
index cd34763..e4d5cb6 100644
--- a/src/tools/altransformhelpers.cpp
+++ b/src/tools/altransformhelpers.cpp
@@ -879,7 +879,7 @@ namespace AL {
       }
 
       const float alpha  = std::atan2(b, a);
-      const float beta   = std::acos( c / std::sqrt( a*a + b*b ) );
+      const float beta   = AL::Math::PI_2 - std::atan2(c, std::sqrt(d2));
 
       const float cos_1 = 1.0f - std::cos( alpha + beta );
       const float cos_2 = 1.0f - std::cos( alpha - beta );
@@ -982,7 +982,7 @@ namespace AL {
       }
 
       const float alpha  = std::atan2(b, a);
-      const float beta   = std::acos(c / std::sqrt(a*a + b*b));
+      const float beta   = AL::Math::PI_2 - std::atan2(c, std::sqrt(d2));
 
       const float cos_1 = 1.0f - std::cos(alpha + beta);
       const float cos_2 = 1.0f - std::cos(alpha - beta);
-- 
2.43.0


From 59570f1a8481ef70a729f78725d62802c38bb0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:24 +0000
Subject: [PATCH 25/26] fix: Dubins curves with touching circles are not lost
 to the root of a negative

---
 src/tools/aldubinscurve.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/aldubinscurve.cpp b/src/tools/aldubinscurve.cpp
index 1438927..d2d6a43 100644
--- a/src/tools/aldubinscurve.cpp
+++ b/src/tools/aldubinscurve.cpp
@@ -12,6 +12,7 @@
 #include "float.h" // for FLT_MAX
 #include <stdexcept>
 
+#include <algorithm>
 #include <cmath>
 
 namespace AL {
@@ -138,7 +139,8 @@ namespace AL {
       if (!pLLorRR)
       {
         cos_theta = pCircleRadius*2.0f/dist;
-        sin_theta = std::sqrt(1.0f - cos_theta*cos_theta);
+        // touching circles: rounding must not yield the root of a negative number
+        sin_theta = std::sqrt(std::max(0.0f, 1.0f - cos_theta*cos_theta));
       }
 
       AL::Math::Position2D slope;
-- 
2.43.0


From 0348aef5d068d2c15e84d0355af4d5bb90ee1ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:24 +0000
Subject: [PATCH 26/26] fix: heading of a null straight part of a Dubins curve
 is tangent to its circles

---
 src/tools/aldubinscurve.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/tools/aldubinscurve.cpp b/src/tools/aldubinscurve.cpp
index d2d6a43..702c1ca 100644
--- a/src/tools/aldubinscurve.cpp
+++ b/src/tools/aldubinscurve.cpp
@@ -318,6 +318,20 @@ namespace AL {
       tmpSolution.y = bestTangent.at(0).y;
       tmpSolution.theta = std::atan2(bestTangent.at(1).y - bestTangent.at(0).y,
                                      bestTangent.at(1).x - bestTangent.at(0).x);
+      const float straightX = bestTangent.at(1).x - bestTangent.at(0).x;
+      const float straightY = bestTangent.at(1).y - bestTangent.at(0).y;
+      if (straightX*straightX + straightY*straightY <
+          1e-6f*pCircleRadius*pCircleRadius)
+      {
+        // touching circles: the ends of the straight line do not tell its
+        // direction, which is perpendicular to the radius of the first circle
+        const bool isLeft = bestTangent.at(0).isLeft;
+        const AL::Math::Position2D radius =
+            AL::Math::Position2D(bestTangent.at(0).x, bestTangent.at(0).y) -
+            circles.at(isLeft ? 0 : 1);
+        tmpSolution.theta = isLeft ? std::atan2(radius.x, -radius.y)
+                                   : std::atan2(-radius.x, radius.y);
+      }
       solutions.push_back(tmpSolution);
 
       //// Second CheckPoint of this Dubins Curve
-- 
2.43.0

