From 5bc4eee3206cfa25936bfef67f956fea16a8c32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 01/22] fix: keep the joint order when a Chain is cloned

Chain::clone connected the new nodes in the order of the (depth first)
iteration, which is the reverse of the order of the children, so a clone of a
chain with branches had its branches (and joint_positions()) in another order.
It also panicked if a joint mimics a joint which is not in the chain.
---
 src/chain.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 31f1d70..89ea8f7 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -473,7 +473,7 @@ where
         }
         assert!(self.nodes[0].is_root());
         // Clone everything
-        let mut new_nodes = self
+        let new_nodes = self
             .nodes
             .iter()
             .map(|n| {
@@ -484,23 +484,27 @@ where
             .collect::<Vec<_>>();
         // Connect to new nodes
         for i in 0..new_nodes.len() {
-            if let Some(p) = self.nodes[i].parent() {
-                // get index of p
-                let parent_index = self.nodes.iter().position(|x| *x == p).unwrap();
-                new_nodes[i].set_parent(&new_nodes[parent_index]);
+            // keep the order of the children
+            for c in self.nodes[i].children().iter() {
+                // get index of c, children which are not in this chain are not cloned
+                if let Some(child_index) = self.nodes.iter().position(|x| x == c) {
+                    new_nodes[child_index].set_parent(&new_nodes[i]);
+                }
             }
             if let Some(m) = self.nodes[i].mimic_parent() {
-                let parent_index = self.nodes.iter().position(|x| *x == m).unwrap();
-                new_nodes[i].set_mimic_parent(
-                    &new_nodes[parent_index],
-                    self.nodes[i].lock().mimic.clone().unwrap(),
-                );
+                // the joint is not mimic any more, if the original of the mimic is not cloned
+                if let Some(parent_index) = self.nodes.iter().position(|x| *x == m) {
+                    new_nodes[i].set_mimic_parent(
+                        &new_nodes[parent_index],
+                        self.nodes[i].lock().mimic.clone().unwrap(),
+                    );
+                }
             }
         }
         //
         // first node must be root
         assert!(new_nodes[0].is_root());
-        Chain::from_root(new_nodes.remove(0))
+        Chain::from_nodes(new_nodes)
     }
 }
 
-- 
2.43.0


From 85f60bacf39080047180120e39dd693abae849df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 02/22] fix: place the link of a node in the frame of the node

update_link_transforms() used the frame of the parent node, so the link did not
move with its joint. center_of_mass() uses the frame of the node.
---
 src/chain.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 89ea8f7..cd5d0f4 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -438,19 +438,18 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
 
     /// Update transforms of the links
     pub fn update_link_transforms(&self) {
-        self.update_transforms();
-        self.iter().for_each(|node| {
-            let parent_transform = node.parent_world_transform().expect("cache must exist");
+        let transforms = self.update_transforms();
+        self.iter().zip(transforms).for_each(|(node, trans)| {
             let mut node_mut = node.lock();
             if let Some(ref mut link) = node_mut.link {
-                let inertial_trans = parent_transform * link.inertial.origin();
+                let inertial_trans = trans * link.inertial.origin();
                 link.inertial.set_world_transform(inertial_trans);
                 for c in &mut link.collisions {
-                    let c_trans = parent_transform * c.origin();
+                    let c_trans = trans * c.origin();
                     c.set_world_transform(c_trans);
                 }
                 for v in &mut link.visuals {
-                    let v_trans = parent_transform * v.origin();
+                    let v_trans = trans * v.origin();
                     v.set_world_transform(v_trans);
                 }
             }
-- 
2.43.0


From 0f801d195184439c573e9cca8c02da5a7eb45371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 03/22] fix: map the root joint to the root link in
 joint_to_link_map

The link name was looked up in the map of the joint names, so the last link of
the file was returned.
---
 src/urdf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urdf.rs b/src/urdf.rs
index ff3a32d..cada6f3 100644
--- a/src/urdf.rs
+++ b/src/urdf.rs
@@ -375,7 +375,7 @@ pub fn joint_to_link_map(urdf_robot: &urdf_rs::Robot) -> HashMap<String, String>
         map.insert(j.name.to_owned(), j.child.link.to_owned());
     }
     for l in &urdf_robot.links {
-        if map.get(&l.name).is_none() {
+        if urdf_robot.joints.iter().all(|j| j.child.link != l.name) {
             map.insert(ROOT_JOINT_NAME.to_owned(), l.name.to_owned());
         }
     }
-- 
2.43.0


From 5614324966c6537145869d8512250104b6e5eb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 04/22] fix: update the transforms of a chain which does not
 start at the root

Chain::update_transforms() of a chain made by from_end_to_root() panicked
("cache must exist") unless the transforms of the whole tree had been updated
before, and used the outdated ones when an ancestor was moved in the meantime.
The same panic happened if other thread set the position of a joint during
update_transforms().
---
 src/chain.rs | 20 ++++++++++++++------
 src/node.rs  | 17 ++++++++++++++++-
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index cd5d0f4..71403ec 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -378,16 +378,24 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
 
     /// Update world_transform() of the joints
     pub fn update_transforms(&self) -> Vec<Isometry3<T>> {
+        // the chain may start in the middle of a tree
+        self.update_ancestors(|node| {
+            node.update_world_transform();
+        });
         self.iter()
-            .map(|node| {
-                let parent_transform = node.parent_world_transform().expect("cache must exist");
-                let trans = parent_transform * node.joint().local_transform();
-                node.joint().set_world_transform(trans);
-                trans
-            })
+            .map(|node| node.update_world_transform())
             .collect()
     }
 
+    /// Apply `func` to the nodes above the first node of this chain, from the root
+    fn update_ancestors(&self, func: impl Fn(&Node<T>)) {
+        if let Some(parent) = self.nodes.first().and_then(|node| node.parent()) {
+            let mut ancestors = parent.iter_ancestors().collect::<Vec<_>>();
+            ancestors.reverse();
+            ancestors.iter().for_each(func);
+        }
+    }
+
     /// Update world_velocity() of the joints
     pub fn update_velocities(&self) -> Vec<Velocity<T>> {
         self.update_transforms();
diff --git a/src/node.rs b/src/node.rs
index b2b62c2..95d897f 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -260,11 +260,26 @@ where
     pub(crate) fn parent_world_transform(&self) -> Option<Isometry3<T>> {
         //match self.0.borrow().parent {
         match self.parent() {
-            Some(ref parent) => parent.world_transform(),
+            Some(ref parent) => {
+                // the cache can be cleared by other threads at any time
+                let cache = parent.world_transform();
+                cache.or_else(|| {
+                    let trans = parent.parent_world_transform()?;
+                    Some(trans * parent.joint().local_transform())
+                })
+            }
             None => Some(Isometry3::identity()),
         }
     }
 
+    /// Calculate the world transform from the parent's one, and keep it
+    pub(crate) fn update_world_transform(&self) -> Isometry3<T> {
+        let parent_transform = self.parent_world_transform().expect("cache must exist");
+        let trans = parent_transform * self.joint().local_transform();
+        self.joint().set_world_transform(trans);
+        trans
+    }
+
     pub(crate) fn parent_world_velocity(&self) -> Option<Velocity<T>> {
         match self.parent() {
             Some(ref parent) => parent.world_velocity(),
-- 
2.43.0


From c3dbda278efd1b65fda8534e88674620d8401a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 05/22] fix: make update_velocities() work with movable joints

Chain::update_velocities() locked the node again while it held the lock of it
(deadlock with any Rotational or Linear joint), it panicked if the root is
Rotational, and the velocity was not the derivative of the world transform: the
offset from the parent was ignored or taken from the parent's origin.
---
 src/chain.rs       | 46 ++++------------------------------------------
 src/joint/joint.rs |  1 +
 src/node.rs        | 41 ++++++++++++++++++++++++++++++++++++++++-
 3 files changed, 45 insertions(+), 43 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 71403ec..f7fe3a8 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -398,49 +398,11 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
 
     /// Update world_velocity() of the joints
     pub fn update_velocities(&self) -> Vec<Velocity<T>> {
-        self.update_transforms();
+        self.update_ancestors(|node| {
+            node.update_world_velocity();
+        });
         self.iter()
-            .map(|node| {
-                let parent_transform = node
-                    .parent_world_transform()
-                    .expect("transform cache must exist");
-                let parent_velocity = node
-                    .parent_world_velocity()
-                    .expect("velocity cache must exist");
-                let velocity = match node.joint().joint_type {
-                    JointType::Fixed => parent_velocity,
-                    JointType::Rotational { axis } => {
-                        let parent = node.parent().expect("parent must exist");
-                        let parent_vel = parent.joint().origin().translation.vector;
-                        Velocity::from_parts(
-                            parent_velocity.translation
-                                + parent_velocity.rotation.cross(
-                                    &(parent_transform.rotation.to_rotation_matrix() * parent_vel),
-                                ),
-                            parent_velocity.rotation
-                                + node
-                                    .world_transform()
-                                    .expect("cache must exist")
-                                    .rotation
-                                    .to_rotation_matrix()
-                                    * (axis.into_inner() * node.joint().joint_velocity().unwrap()),
-                        )
-                    }
-                    JointType::Linear { axis } => Velocity::from_parts(
-                        parent_velocity.translation
-                            + node
-                                .world_transform()
-                                .expect("cache must exist")
-                                .rotation
-                                .to_rotation_matrix()
-                                * (axis.into_inner() * node.joint().joint_velocity().unwrap()),
-                        // TODO: Is this true??
-                        parent_velocity.rotation,
-                    ),
-                };
-                node.joint().set_world_velocity(velocity);
-                velocity
-            })
+            .map(|node| node.update_world_velocity())
             .collect()
     }
 
diff --git a/src/joint/joint.rs b/src/joint/joint.rs
index ba6d487..b300605 100644
--- a/src/joint/joint.rs
+++ b/src/joint/joint.rs
@@ -181,6 +181,7 @@ where
     pub fn set_origin(&mut self, origin: Isometry3<T>) {
         self.origin = origin;
         self.world_transform_cache.replace(None);
+        self.world_velocity_cache.replace(None);
     }
 
     pub fn set_joint_velocity(&mut self, velocity: T) -> Result<(), Error> {
diff --git a/src/node.rs b/src/node.rs
index 95d897f..527de79 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -282,11 +282,50 @@ where
 
     pub(crate) fn parent_world_velocity(&self) -> Option<Velocity<T>> {
         match self.parent() {
-            Some(ref parent) => parent.world_velocity(),
+            Some(ref parent) => {
+                let cache = parent.world_velocity();
+                cache.or_else(|| parent.calc_world_velocity())
+            }
             None => Some(Velocity::zero()),
         }
     }
 
+    /// Calculate the world velocity from the parent's one
+    fn calc_world_velocity(&self) -> Option<Velocity<T>> {
+        let parent_transform = self.parent_world_transform()?;
+        let parent_velocity = self.parent_world_velocity()?;
+        let joint = self.joint();
+        let trans = parent_transform * joint.local_transform();
+        // this node is carried by the parent, which moves and rotates
+        let mut velocity = Velocity::from_parts(
+            parent_velocity.translation
+                + parent_velocity
+                    .rotation
+                    .cross(&(trans.translation.vector - parent_transform.translation.vector)),
+            parent_velocity.rotation,
+        );
+        match joint.joint_type {
+            JointType::Fixed => {}
+            JointType::Rotational { axis } => {
+                velocity.rotation +=
+                    trans.rotation * (axis.into_inner() * joint.joint_velocity()?)
+            }
+            JointType::Linear { axis } => {
+                velocity.translation +=
+                    trans.rotation * (axis.into_inner() * joint.joint_velocity()?)
+            }
+        }
+        Some(velocity)
+    }
+
+    /// Calculate the world velocity from the parent's one, and keep it
+    pub(crate) fn update_world_velocity(&self) -> Velocity<T> {
+        self.update_world_transform();
+        let velocity = self.calc_world_velocity().expect("cache must exist");
+        self.joint().set_world_velocity(velocity);
+        velocity
+    }
+
     /// Get the calculated world transform.
     /// Call `Chain::update_transforms()` before using this method.
     ///
-- 
2.43.0


From 95ee53fb8dd52ce295ce070b8b80e7efa367d81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 06/22] fix: calculate the jacobian in the coordinates of
 end_transform()

jacobian() mixed the end position in the coordinates of the base of the arm with
the joint transforms in the world, so it (and the IK which uses it) was wrong for
an arm which does not start at the root of the tree.
---
 src/funcs.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/funcs.rs b/src/funcs.rs
index bf03a58..bb350d6 100644
--- a/src/funcs.rs
+++ b/src/funcs.rs
@@ -1,6 +1,6 @@
 use super::chain::*;
 use super::joint::*;
-use na::{DMatrix, RealField, Vector3};
+use na::{DMatrix, Isometry3, RealField, Vector3};
 use nalgebra as na;
 use simba::scalar::SubsetOf;
 
@@ -13,22 +13,25 @@ where
     let t_n = arm.end_transform();
     arm.update_transforms();
     let p_n = t_n.translation;
+    // the same coordinates as t_n, which are not the world if the arm does not start at the root
+    let mut t_i = Isometry3::identity();
     let jacobi_vec = arm
-        .iter_joints()
-        .map(|joint| {
-            let t_i = joint.world_transform().unwrap();
+        .iter()
+        .filter_map(|node| {
+            let joint = node.joint();
+            t_i *= joint.local_transform();
             match joint.joint_type {
                 JointType::Linear { axis } => {
                     let p_i = t_i.rotation * axis;
-                    [p_i[0], p_i[1], p_i[2], na::zero(), na::zero(), na::zero()]
+                    Some([p_i[0], p_i[1], p_i[2], na::zero(), na::zero(), na::zero()])
                 }
                 JointType::Rotational { axis } => {
                     let p_i = t_i.translation;
                     let a_i = t_i.rotation * axis;
                     let dp_i = a_i.cross(&(p_n.vector - p_i.vector));
-                    [dp_i[0], dp_i[1], dp_i[2], a_i[0], a_i[1], a_i[2]]
+                    Some([dp_i[0], dp_i[1], dp_i[2], a_i[0], a_i[1], a_i[2]])
                 }
-                JointType::Fixed => panic!("impossible, bug of jacobian"),
+                JointType::Fixed => None,
             }
         })
         .collect::<Vec<_>>();
-- 
2.43.0


From 9cabc4c76e9fc708f28d05bfd9e994afa1da29f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 07/22] fix: do not move the ignored joints if the arm is not
 redundant

If the number of the joints left by ignored_joint_names is the same as the number
of the constraints, the solution was added to the wrong joints.
---
 src/ik.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index d658dc5..9e61af0 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -271,14 +271,11 @@ where
             }
         } else {
             // normal inverse matrix
-            self.add_positions_with_multiplier(
-                &orig_positions,
-                jacobi
-                    .lu()
-                    .solve(&err)
-                    .ok_or(Error::InverseMatrixError)?
-                    .as_slice(),
-            )
+            let mut d_q = jacobi.lu().solve(&err).ok_or(Error::InverseMatrixError)?;
+            for joint_index in ignored_joint_indices {
+                d_q = d_q.insert_row(*joint_index, T::zero());
+            }
+            self.add_positions_with_multiplier(&orig_positions, d_q.as_slice())
         };
         arm.set_joint_positions_clamped(&positions_vec);
         Ok(calc_pose_diff_with_constraints(
-- 
2.43.0


From 5281a05ddbc673c06f882edf4f87149c1ebee131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 08/22] fix: check ignored_joint_names before they are counted

A name given twice removed the column of an other joint, and more names than
joints overflowed.
---
 src/ik.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index 9e61af0..f6ad5c1 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -294,19 +294,14 @@ where
         let operational_space = define_operational_space(constraints);
         let required_dof = operational_space.iter().filter(|x| **x).count();
         let orig_positions = arm.joint_positions();
-        let available_dof = arm.dof() - constraints.ignored_joint_names.len();
-        if available_dof < required_dof {
-            return Err(Error::PreconditionError {
-                dof: available_dof,
-                necessary_dof: required_dof,
-            });
-        }
         let mut ignored_joint_indices = Vec::new();
         for joint_name in &constraints.ignored_joint_names {
             // Try to get joint index
             match arm.iter_joints().position(|x| x.name == *joint_name) {
                 Some(index) => {
-                    ignored_joint_indices.push(index);
+                    if !ignored_joint_indices.contains(&index) {
+                        ignored_joint_indices.push(index);
+                    }
                 }
                 None => {
                     return Err(Error::InvalidJointNameError {
@@ -316,6 +311,13 @@ where
             }
         }
         ignored_joint_indices.sort_unstable();
+        let available_dof = arm.dof() - ignored_joint_indices.len();
+        if available_dof < required_dof {
+            return Err(Error::PreconditionError {
+                dof: available_dof,
+                necessary_dof: required_dof,
+            });
+        }
         let mut last_target_distance = None;
         for _ in 0..self.num_max_try {
             let target_diff = self.solve_one_loop_with_constraints(
-- 
2.43.0


From 7963df1efd6ef2161664cbede1e4c57fffb26dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 09/22] fix: return NotConvergedError if num_max_try is zero

It panicked because there was no result of the last try.
---
 src/ik.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index f6ad5c1..861b06c 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -318,7 +318,10 @@ where
                 necessary_dof: required_dof,
             });
         }
-        let mut last_target_distance = None;
+        let mut last_target_distance = target_diff_to_len_rot_diff(
+            &calc_pose_diff_with_constraints(target_pose, &arm.end_transform(), operational_space),
+            operational_space,
+        );
         for _ in 0..self.num_max_try {
             let target_diff = self.solve_one_loop_with_constraints(
                 arm,
@@ -334,13 +337,13 @@ where
                 arm.set_joint_positions_clamped(&non_checked_positions);
                 return Ok(());
             }
-            last_target_distance = Some((len_diff, rot_diff));
+            last_target_distance = (len_diff, rot_diff);
         }
         arm.set_joint_positions(&orig_positions)?;
         Err(Error::NotConvergedError {
             num_tried: self.num_max_try,
-            position_diff: na::try_convert(last_target_distance.unwrap().0).unwrap_or_default(),
-            rotation_diff: na::try_convert(last_target_distance.unwrap().1).unwrap_or_default(),
+            position_diff: na::try_convert(last_target_distance.0).unwrap_or_default(),
+            rotation_diff: na::try_convert(last_target_distance.1).unwrap_or_default(),
         })
     }
 }
-- 
2.43.0


From aa231b2e011ec7f53bb222a4c0f7caef13a54d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 10/22] fix: restore the joint positions which are out of the
 limits if IK fails

If the limits of a joint do not contain the position before solve() (e.g. the
initial position, zero), the positions were not restored and OutOfLimitError was
returned instead of the reason of the failure.
---
 src/ik.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index 861b06c..654598d 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -293,7 +293,6 @@ where
     ) -> Result<(), Error> {
         let operational_space = define_operational_space(constraints);
         let required_dof = operational_space.iter().filter(|x| **x).count();
-        let orig_positions = arm.joint_positions();
         let mut ignored_joint_indices = Vec::new();
         for joint_name in &constraints.ignored_joint_names {
             // Try to get joint index
@@ -339,7 +338,6 @@ where
             }
             last_target_distance = (len_diff, rot_diff);
         }
-        arm.set_joint_positions(&orig_positions)?;
         Err(Error::NotConvergedError {
             num_tried: self.num_max_try,
             position_diff: na::try_convert(last_target_distance.0).unwrap_or_default(),
@@ -465,7 +463,8 @@ where
         let orig_positions = arm.joint_positions();
         let re = self.solve_with_constraints_internal(arm, target_pose, constraints);
         if re.is_err() {
-            arm.set_joint_positions(&orig_positions)?;
+            // without check, because they may be out of the limits
+            arm.set_joint_positions_unchecked(&orig_positions);
         };
         re
     }
-- 
2.43.0


From 420b3c517788fd6d6b694150c5cf247f20ae09b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 11/22] fix: accept Constraints without any constraint in IK

It panicked because the SVD of the empty jacobian was calculated.
---
 src/ik.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ik.rs b/src/ik.rs
index 654598d..d1f0c83 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -317,6 +317,11 @@ where
                 necessary_dof: required_dof,
             });
         }
+        if required_dof == 0 {
+            // any position is fine
+            arm.set_joint_positions_clamped(&arm.joint_positions());
+            return Ok(());
+        }
         let mut last_target_distance = target_diff_to_len_rot_diff(
             &calc_pose_diff_with_constraints(target_pose, &arm.end_transform(), operational_space),
             operational_space,
-- 
2.43.0


From bc9c3c193ef257f74cc795f186645d75fd019457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 12/22] fix: return an error from IK if the target is not
 finite

The SVD of a jacobian with NaN never ended, so solve() of a redundant arm did
not return if the target or a joint position is NaN or infinite.
---
 src/ik.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index d1f0c83..1b11274 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -240,10 +240,17 @@ where
 
         let positions_vec = if available_dof > required_dof {
             const EPS: f64 = 0.0001;
+            // it is never reached unless the matrix contains NaN or infinity
+            const MAX_SVD_ITERATIONS: usize = 1000;
             // redundant: pseudo inverse
             match self.nullspace_function {
                 Some(ref f) => {
-                    let jacobi_inv = jacobi.clone().pseudo_inverse(na::convert(EPS)).unwrap();
+                    let jacobi_inv = jacobi
+                        .clone()
+                        .try_svd(true, true, T::default_epsilon(), MAX_SVD_ITERATIONS)
+                        .ok_or(Error::InverseMatrixError)?
+                        .pseudo_inverse(na::convert(EPS))
+                        .unwrap();
 
                     let mut subtask = na::DVector::from_vec(f(&orig_positions));
                     for (i, joint_index) in ignored_joint_indices.iter().enumerate() {
@@ -260,7 +267,8 @@ where
                 }
                 None => {
                     let mut d_q = jacobi
-                        .svd(true, true)
+                        .try_svd(true, true, T::default_epsilon(), MAX_SVD_ITERATIONS)
+                        .ok_or(Error::InverseMatrixError)?
                         .solve(&err, na::convert(EPS))
                         .unwrap();
                     for joint_index in ignored_joint_indices {
-- 
2.43.0


From 7b8c92c7ec1eba3c074d7ae597079ba3c824330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 13/22] fix: do not panic with a Chain without nodes

Display and SerialChain::try_new panicked if the Chain has no nodes.
---
 src/chain.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index f7fe3a8..0f14c28 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -107,7 +107,10 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
 
 impl<T: RealField + SubsetOf<f64>> Display for Chain<T> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        self.fmt_with_indent_level(self.iter().next().unwrap(), 0, f)
+        match self.iter().next() {
+            Some(node) => self.fmt_with_indent_level(node, 0, f),
+            None => Ok(()),
+        }
     }
 }
 
@@ -520,7 +523,7 @@ where
     pub fn try_new(inner: Chain<T>) -> Option<Self> {
         {
             let num = inner.iter().count();
-            for node in inner.iter().take(num - 1) {
+            for node in inner.iter().take(num.saturating_sub(1)) {
                 if node.children().len() != 1 {
                     return None;
                 }
-- 
2.43.0


From 897b41b6ff114147711d43b9a3aee61457891db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 14/22] fix: do not unlock the node between check and use in
 iter_links()

If other thread removed the link in between, the access to the link panicked and
poisoned the node.
---
 src/chain.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 0f14c28..229693b 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -281,8 +281,9 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
     /// Iterate for links
     pub fn iter_links(&self) -> impl Iterator<Item = LinkRefGuard<'_, T>> {
         self.nodes.iter().filter_map(|node| {
-            if node.link().is_some() {
-                Some(LinkRefGuard { guard: node.lock() })
+            let guard = node.lock();
+            if guard.link.is_some() {
+                Some(LinkRefGuard { guard })
             } else {
                 None
             }
-- 
2.43.0


From 052d57a07aa90ba384d357ea0b56fce31488c855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 15/22] fix: do not keep the parents locked while a Chain is
 displayed

set_joint_position() locks the mimic joints while it locks the original joint.
If the mimic joint is an ancestor of the original, Display could wait for the
original with the lock of the ancestor: deadlock.
---
 src/chain.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chain.rs b/src/chain.rs
index 229693b..3c2ef31 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -98,7 +98,9 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
         if self.nodes.iter().any(|joint| joint == node) {
             writeln!(f, "{}{}", "    ".repeat(level), node)?;
         }
-        for c in node.children().iter() {
+        // do not lock the parent while the children are locked
+        let children = node.children().clone();
+        for c in children.iter() {
             self.fmt_with_indent_level(c, level + 1, f)?
         }
         Ok(())
-- 
2.43.0


From 4ba042eadf94677d82737f2c7be33e3f23d9ee5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 16/22] fix: make the mimic settings complete before the joint
 is listed as mimic

set_joint_position() by other thread could see the listed joint without mimic,
and locked the already locked node to make MimicError: deadlock.
---
 src/node.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 527de79..fa75d30 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -214,8 +214,8 @@ where
                     .joint
                     .set_joint_position(m.mimic_position(position))?,
                 None => {
-                    let from = self.joint().name.to_owned();
-                    let to = child.joint().name.to_owned();
+                    let from = node.joint.name.to_owned();
+                    let to = child_node.joint.name.to_owned();
                     return Err(Error::MimicError { from, to });
                 }
             };
@@ -371,9 +371,12 @@ where
     }
 
     pub fn set_mimic_parent(&self, parent: &Node<T>, mimic: Mimic<T>) {
-        self.lock().mimic_parent = Some(Arc::downgrade(&parent.0));
+        {
+            let mut node = self.lock();
+            node.mimic_parent = Some(Arc::downgrade(&parent.0));
+            node.mimic = Some(mimic);
+        }
         parent.lock().mimic_children.push(self.clone());
-        self.lock().mimic = Some(mimic);
     }
 
     pub fn set_link(&self, link: Option<Link<T>>) {
-- 
2.43.0


From 0894f3d696ff953e29ff812610266ca71f71e866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 17/22] fix: a node is root if its parent has been dropped

is_root() returned false while parent() returned None.
---
 src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index fa75d30..02f2a47 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -127,7 +127,7 @@ where
     /// assert!(!l1.is_root());
     /// ```
     pub fn is_root(&self) -> bool {
-        self.lock().parent.is_none()
+        self.parent().is_none()
     }
 
     /// # Examples
-- 
2.43.0


From 766982fda9eb71211df2f50b6231a6acfefd6271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 18/22] fix: a mimic joint does not follow its former parent
 any more

---
 src/node.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index 02f2a47..3293b90 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -371,6 +371,10 @@ where
     }
 
     pub fn set_mimic_parent(&self, parent: &Node<T>, mimic: Mimic<T>) {
+        // a joint follows only the last one
+        if let Some(old_parent) = self.mimic_parent() {
+            old_parent.lock().mimic_children.retain(|x| *x != *self);
+        }
         {
             let mut node = self.lock();
             node.mimic_parent = Some(Arc::downgrade(&parent.0));
-- 
2.43.0


From 64fba533c853c82bce6cad29d71e9e6510431a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 19/22] hook: observable mutex behind cfg k_monitor

---
 src/lib.rs     |   3 ++
 src/monitor.rs | 125 +++++++++++++++++++++++++++++++++++++++++++++++++
 src/node.rs    |   6 ++-
 3 files changed, 133 insertions(+), 1 deletion(-)
 create mode 100644 src/monitor.rs

diff --git a/src/lib.rs b/src/lib.rs
index 8193cd2..157fbba 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -25,6 +25,7 @@
 //!
 
 #![warn(missing_debug_implementations, rust_2018_idioms)]
+#![allow(unexpected_cfgs)]
 
 #[cfg(doctest)]
 doc_comment::doctest!("../README.md");
@@ -37,6 +38,8 @@ use nalgebra as na;
 pub mod iterator;
 pub mod joint;
 pub mod link;
+#[cfg(k_monitor)]
+pub mod monitor;
 pub mod node;
 pub mod prelude;
 pub mod urdf;
diff --git a/src/monitor.rs b/src/monitor.rs
new file mode 100644
index 0000000..dbfdec3
--- /dev/null
+++ b/src/monitor.rs
@@ -0,0 +1,125 @@
+//! Observable mutex for run time monitoring, it exists only with `--cfg k_monitor`
+use std::fmt;
+use std::ops::{Deref, DerefMut};
+use std::sync::atomic::{AtomicUsize, Ordering};
+use std::sync::{self, LockResult, OnceLock, PoisonError, TryLockError, TryLockResult};
+
+/// Called with the id of the mutex by the thread which uses it
+#[derive(Debug, Clone, Copy)]
+pub struct Hooks {
+    /// before the thread tries to get the lock
+    pub before_lock: fn(usize),
+    /// after it got the lock
+    pub locked: fn(usize),
+    /// before it releases the lock
+    pub before_unlock: fn(usize),
+    /// after it released the lock
+    pub unlocked: fn(usize),
+}
+
+static HOOKS: OnceLock<Hooks> = OnceLock::new();
+static NEXT_ID: AtomicUsize = AtomicUsize::new(1);
+
+/// Set the hooks, only the first call has an effect
+pub fn set_hooks(hooks: Hooks) {
+    let _ = HOOKS.set(hooks);
+}
+
+pub struct Mutex<T> {
+    id: usize,
+    inner: sync::Mutex<T>,
+}
+
+impl<T> Mutex<T> {
+    pub fn new(value: T) -> Self {
+        Self {
+            id: NEXT_ID.fetch_add(1, Ordering::Relaxed),
+            inner: sync::Mutex::new(value),
+        }
+    }
+
+    fn guard<'a>(&'a self, guard: sync::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
+        if let Some(h) = HOOKS.get() {
+            (h.locked)(self.id);
+        }
+        MutexGuard {
+            id: self.id,
+            guard: Some(guard),
+        }
+    }
+
+    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+        if let Some(h) = HOOKS.get() {
+            (h.before_lock)(self.id);
+        }
+        match self.inner.lock() {
+            Ok(g) => Ok(self.guard(g)),
+            Err(e) => Err(PoisonError::new(self.guard(e.into_inner()))),
+        }
+    }
+
+    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
+        match self.inner.try_lock() {
+            Ok(g) => Ok(self.guard(g)),
+            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(
+                self.guard(e.into_inner()),
+            ))),
+        }
+    }
+
+    pub fn is_poisoned(&self) -> bool {
+        self.inner.is_poisoned()
+    }
+
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.inner.get_mut()
+    }
+
+    pub fn into_inner(self) -> LockResult<T> {
+        self.inner.into_inner()
+    }
+}
+
+impl<T: fmt::Debug> fmt::Debug for Mutex<T> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        self.inner.fmt(f)
+    }
+}
+
+pub struct MutexGuard<'a, T> {
+    id: usize,
+    guard: Option<sync::MutexGuard<'a, T>>,
+}
+
+impl<'a, T> Deref for MutexGuard<'a, T> {
+    type Target = T;
+    fn deref(&self) -> &T {
+        self.guard.as_ref().unwrap()
+    }
+}
+
+impl<'a, T> DerefMut for MutexGuard<'a, T> {
+    fn deref_mut(&mut self) -> &mut T {
+        self.guard.as_mut().unwrap()
+    }
+}
+
+impl<'a, T> Drop for MutexGuard<'a, T> {
+    fn drop(&mut self) {
+        let hooks = HOOKS.get();
+        if let Some(h) = hooks {
+            (h.before_unlock)(self.id);
+        }
+        self.guard = None;
+        if let Some(h) = hooks {
+            (h.unlocked)(self.id);
+        }
+    }
+}
+
+impl<'a, T: fmt::Debug> fmt::Debug for MutexGuard<'a, T> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        (**self).fmt(f)
+    }
+}
diff --git a/src/node.rs b/src/node.rs
index 3293b90..f44cd65 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -19,12 +19,16 @@ use nalgebra as na;
 use simba::scalar::SubsetOf;
 use std::fmt::{self, Display};
 use std::ops::Deref;
-use std::sync::{Arc, Mutex, MutexGuard, Weak};
+use std::sync::{Arc, Weak};
+#[cfg(not(k_monitor))]
+use std::sync::{Mutex, MutexGuard};
 
 use super::errors::*;
 use super::iterator::*;
 use super::joint::*;
 use super::link::*;
+#[cfg(k_monitor)]
+use super::monitor::{Mutex, MutexGuard};
 
 type WeakNode<T> = Weak<Mutex<NodeImpl<T>>>;
 
-- 
2.43.0


From 2b316a5436b9a61da4af36a783616aa1a38c5e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:55 +0000
Subject: [PATCH 20/22] fix: do not keep the old world transform if the joint
 is moved meanwhile

update_transforms() released the node between the calculation and the store,
if another thread moved the joint in between, the moved joint reported its
old world transform (and velocity).
---
 src/node.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index f44cd65..1580c7a 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -279,8 +279,10 @@ where
     /// Calculate the world transform from the parent's one, and keep it
     pub(crate) fn update_world_transform(&self) -> Isometry3<T> {
         let parent_transform = self.parent_world_transform().expect("cache must exist");
-        let trans = parent_transform * self.joint().local_transform();
-        self.joint().set_world_transform(trans);
+        // the joint must not be moved in between
+        let joint = self.joint();
+        let trans = parent_transform * joint.local_transform();
+        joint.set_world_transform(trans);
         trans
     }
 
@@ -288,14 +290,14 @@ where
         match self.parent() {
             Some(ref parent) => {
                 let cache = parent.world_velocity();
-                cache.or_else(|| parent.calc_world_velocity())
+                cache.or_else(|| parent.calc_world_velocity(false))
             }
             None => Some(Velocity::zero()),
         }
     }
 
     /// Calculate the world velocity from the parent's one
-    fn calc_world_velocity(&self) -> Option<Velocity<T>> {
+    fn calc_world_velocity(&self, keep: bool) -> Option<Velocity<T>> {
         let parent_transform = self.parent_world_transform()?;
         let parent_velocity = self.parent_world_velocity()?;
         let joint = self.joint();
@@ -319,15 +321,16 @@ where
                     trans.rotation * (axis.into_inner() * joint.joint_velocity()?)
             }
         }
+        if keep {
+            joint.set_world_velocity(velocity);
+        }
         Some(velocity)
     }
 
     /// Calculate the world velocity from the parent's one, and keep it
     pub(crate) fn update_world_velocity(&self) -> Velocity<T> {
         self.update_world_transform();
-        let velocity = self.calc_world_velocity().expect("cache must exist");
-        self.joint().set_world_velocity(velocity);
-        velocity
+        self.calc_world_velocity(true).expect("cache must exist")
     }
 
     /// Get the calculated world transform.
-- 
2.43.0


From 416a8732b1e252227ad8e65426af65104e8d1dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:11 +0000
Subject: [PATCH 21/22] fix: update the nodes above all nodes of a chain, not
 only above its first one

---
 src/chain.rs | 42 ++++++++++++++++++++++--------------------
 src/node.rs  |  5 +++++
 2 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 3c2ef31..5a56a0d 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -19,6 +19,7 @@ use super::node::*;
 use na::{Isometry3, RealField};
 use nalgebra as na;
 use simba::scalar::SubsetOf;
+use std::collections::HashSet;
 use std::fmt::{self, Display};
 use std::ops::Deref;
 
@@ -384,32 +385,33 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
 
     /// Update world_transform() of the joints
     pub fn update_transforms(&self) -> Vec<Isometry3<T>> {
-        // the chain may start in the middle of a tree
-        self.update_ancestors(|node| {
-            node.update_world_transform();
-        });
-        self.iter()
-            .map(|node| node.update_world_transform())
-            .collect()
+        self.update_nodes(|node| node.update_world_transform())
     }
 
-    /// Apply `func` to the nodes above the first node of this chain, from the root
-    fn update_ancestors(&self, func: impl Fn(&Node<T>)) {
-        if let Some(parent) = self.nodes.first().and_then(|node| node.parent()) {
-            let mut ancestors = parent.iter_ancestors().collect::<Vec<_>>();
-            ancestors.reverse();
-            ancestors.iter().for_each(func);
-        }
+    /// Apply `func` to the nodes of this chain, each after all the nodes above it
+    fn update_nodes<R>(&self, func: impl Fn(&Node<T>) -> R) -> Vec<R> {
+        let mut updated = HashSet::new();
+        self.iter()
+            .map(|node| {
+                // the nodes above may not be in this chain
+                let mut ancestors = node
+                    .iter_ancestors()
+                    .skip(1)
+                    .take_while(|ancestor| updated.insert(ancestor.id()))
+                    .collect::<Vec<_>>();
+                ancestors.reverse();
+                for ancestor in &ancestors {
+                    func(ancestor);
+                }
+                updated.insert(node.id());
+                func(node)
+            })
+            .collect()
     }
 
     /// Update world_velocity() of the joints
     pub fn update_velocities(&self) -> Vec<Velocity<T>> {
-        self.update_ancestors(|node| {
-            node.update_world_velocity();
-        });
-        self.iter()
-            .map(|node| node.update_world_velocity())
-            .collect()
+        self.update_nodes(|node| node.update_world_velocity())
     }
 
     /// Update transforms of the links
diff --git a/src/node.rs b/src/node.rs
index 1580c7a..2ea03b5 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -73,6 +73,11 @@ where
         })))
     }
 
+    /// Identifies this node among the others
+    pub(crate) fn id(&self) -> usize {
+        &*self.0 as *const _ as usize
+    }
+
     pub(crate) fn lock(&self) -> MutexGuard<'_, NodeImpl<T>> {
         self.0.lock().unwrap()
     }
-- 
2.43.0


From a9935d57684d23eaa7a2e28d7cf4552eafc7ecf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:56 +0000
Subject: [PATCH 22/22] fix: center of mass does not leave out links whose pose
 another thread cleared

---
 src/funcs.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/funcs.rs b/src/funcs.rs
index bb350d6..be5a6b4 100644
--- a/src/funcs.rs
+++ b/src/funcs.rs
@@ -65,14 +65,13 @@ where
     let mut total_mass = T::zero();
     let mut com = Vector3::zeros();
 
-    chain.update_transforms();
-    chain.iter().for_each(|node| {
-        if let Some(trans) = node.world_transform() {
-            if let Some(ref link) = *node.link() {
-                let inertia_trans = trans * link.inertial.origin().translation;
-                com += inertia_trans.translation.vector * link.inertial.mass;
-                total_mass += link.inertial.mass;
-            }
+    // not the caches, which can be cleared by other threads at any time
+    let transforms = chain.update_transforms();
+    chain.iter().zip(transforms).for_each(|(node, trans)| {
+        if let Some(ref link) = *node.link() {
+            let inertia_trans = trans * link.inertial.origin().translation;
+            com += inertia_trans.translation.vector * link.inertial.mass;
+            total_mass += link.inertial.mass;
         }
     });
     com / total_mass
-- 
2.43.0

