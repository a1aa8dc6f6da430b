From 9862afa8ce3a08f8ba5201ebe0aa0a0bdf653b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 01/48] fix: Point scaling and set must not read coordinates
 they have already overwritten

---
 src/geometry/Point.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geometry/Point.hh b/src/geometry/Point.hh
index 75e323f..6bcb5d6 100644
--- a/src/geometry/Point.hh
+++ b/src/geometry/Point.hh
@@ -117,12 +117,12 @@ class Point {
     d = N;
     std::copy(val, val+d, xyz);
   }
-  void set(const double& x, const double& y) {
+  void set(const double x, const double y) {
     d = 2;
     xyz[0] = x;
     xyz[1] = y;
   }
-  void set(const double& x, const double& y, const double& z) {
+  void set(const double x, const double y, const double z) {
     d = 3;
     xyz[0] = x;
     xyz[1] = y;
@@ -156,11 +156,11 @@ class Point {
     for (int i = 0; i < d; i++) xyz[i] -= p[i];
     return *this;
   }
-  Point& operator*=(const double& c) {
+  Point& operator*=(const double c) {
     for (int i = 0; i < d; i++) xyz[i] *= c;
     return *this;
   }
-  Point& operator/=(const double& c) {
+  Point& operator/=(const double c) {
     for (int i = 0; i < d; i++) xyz[i] /= c;
     return *this;
   }
-- 
2.43.0


From fe2c93868fb63da5a7001476676a0d6c9e56dafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 02/48] fix: Label the area of an inverted 2D triangle negative
 as for other polygons

---
 src/geometry/Geometry.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geometry/Geometry.cc b/src/geometry/Geometry.cc
index d6092c2..4035f1d 100644
--- a/src/geometry/Geometry.cc
+++ b/src/geometry/Geometry.cc
@@ -314,6 +314,10 @@
 
         (*area) = norm(*normal);
         (*centroid) = center;
+
+        // In 2D, a negative cross-product means the triangle is inverted
+        if (dim == 2 && (*normal)[0] <= 0.0)
+          negvol = true;
       } else {
         // Compute the area of each triangle formed by
         // the center point and each polygon edge
-- 
2.43.0


From f8ea14a1fce053279c8f6dea9982f46fab818f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:12 +0000
Subject: [PATCH 03/48] fix: point_in_polyhed must step over the nodes of
 triangular faces too

---
 src/geometry/Geometry.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometry/Geometry.cc b/src/geometry/Geometry.cc
index 4035f1d..a253128 100644
--- a/src/geometry/Geometry.cc
+++ b/src/geometry/Geometry.cc
@@ -255,10 +255,10 @@
               return false;
 
           }  // for each edge of face
-
-          offset += nfnodes[i];
         }
 
+        offset += nfnodes[i];
+
       }  // for each face
 
       return true;
-- 
2.43.0


From 61c6f88313d5848086eec9b607aff11b93bab316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 04/48] fix: Domain built from lists must accept 2D and 3D

---
 src/geometry/Domain.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/Domain.cc b/src/geometry/Domain.cc
index a1d5a74..e3ded32 100644
--- a/src/geometry/Domain.cc
+++ b/src/geometry/Domain.cc
@@ -120,7 +120,7 @@ Domain::Domain(const unsigned int dim,
   spatial_dimension_(dim), GeometricModels(in_geometric_models),
   FreeRegions(in_Regions)
 {
-  if (dim != 2 || dim != 3) {
+  if (dim != 2 && dim != 3) {
     std::cerr << "Only 2D and 3D domains are supported" << std::endl;
     throw std::exception();
   }
-- 
2.43.0


From d35fba716508c3d64de797a16aefa23ea5c2e0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 05/48] fix: copy of a LogicalRegion must keep its operation
 and components

---
 src/geometry/LogicalRegion.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/LogicalRegion.cc b/src/geometry/LogicalRegion.cc
index 86e98f1..cc04708 100644
--- a/src/geometry/LogicalRegion.cc
+++ b/src/geometry/LogicalRegion.cc
@@ -105,7 +105,7 @@ LogicalRegion::LogicalRegion(const std::string name,
 }
 
 LogicalRegion::LogicalRegion(const LogicalRegion& old)
-  : Region(old)
+  : Region(old), operation_(old.operation_), region_names_(old.region_names_)
 {
   // empty
 }
-- 
2.43.0


From cdae8c2391fb8129e653375e6a9dd3584c3b7ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 06/48] fix: copy of a LabeledSetRegion must keep its entity,
 file, format and label

---
 src/geometry/LabeledSetRegion.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometry/LabeledSetRegion.cc b/src/geometry/LabeledSetRegion.cc
index 15cfdf8..46bb9f8 100644
--- a/src/geometry/LabeledSetRegion.cc
+++ b/src/geometry/LabeledSetRegion.cc
@@ -84,7 +84,8 @@ LabeledSetRegion::LabeledSetRegion(const std::string name,
 }
 
 LabeledSetRegion::LabeledSetRegion(const LabeledSetRegion& old)
-  : Region(old)
+  : Region(old), entity_str_(old.entity_str_), file_(old.file_),
+    format_(old.format_), label_(old.label_)
 {
   // empty
 }
-- 
2.43.0


From 2be7866b381aaa8bd3deef3cba167bcaf8a439ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 07/48] fix: PolygonRegion must project along the largest
 normal component in magnitude

---
 src/geometry/PolygonRegion.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometry/PolygonRegion.cc b/src/geometry/PolygonRegion.cc
index 237ed7e..bad2d77 100644
--- a/src/geometry/PolygonRegion.cc
+++ b/src/geometry/PolygonRegion.cc
@@ -144,8 +144,8 @@ void PolygonRegion::init() {
     int dmax = -1;
     double maxlen = -1;
     for (int i = 0; i < 3; i++)
-      if (normal_[i] > maxlen) {
-        maxlen = normal_[i];
+      if (fabs(normal_[i]) > maxlen) {
+        maxlen = fabs(normal_[i]);
         dmax = i;
       }
 
-- 
2.43.0


From dce4559927b51a8cc34a8494951bde834f48dad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 08/48] fix: GeometricModel built from a list must reject
 dimensions other than 2 and 3

---
 src/geometry/GeometricModel.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geometry/GeometricModel.cc b/src/geometry/GeometricModel.cc
index 86ff6b4..a1791d5 100644
--- a/src/geometry/GeometricModel.cc
+++ b/src/geometry/GeometricModel.cc
@@ -203,6 +203,10 @@ GeometricModel::GeometricModel(const unsigned int dim,
                                const std::vector<RegionPtr>& in_Regions) :
   topo_dimension_(dim)
 {
+  if (dim != 2 && dim != 3) {
+    std::cerr << "Only 2D and 3D domains are supported" << std::endl;
+    throw std::exception();
+  }
   Regions.clear();
   Regions = in_Regions;
 }
-- 
2.43.0


From 251159f24caf4eb2ae47544dd87a55057fe32308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:39 +0000
Subject: [PATCH 09/48] fix: MeshSet::add_entity updates the reverse map of the
 ghosts it shifts

---
 src/mesh/MeshSet.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 6363aba..9fa8104 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -112,7 +112,11 @@ void MeshSet::add_entity(Entity_ID const& mesh_entity) {
     entityids_owned_.push_back(mesh_entity);
     entityids_all_.insert(entityids_all_.begin()+nowned_old, mesh_entity);
 
-    if (have_reverse_map_) mesh2subset_[mesh_entity] = nowned_old;
+    if (have_reverse_map_) {  // inserting the entity shifted the ghosts too
+      int nall = entityids_all_.size();
+      for (int i = nowned_old; i < nall; ++i)
+        mesh2subset_[entityids_all_[i]] = i;
+    }
 
   } else if (etype == Entity_type::PARALLEL_GHOST) {
 
-- 
2.43.0


From 8a6f2e03ff2183cddeb4f2b272ee6a4917c17277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:39 +0000
Subject: [PATCH 10/48] fix: MeshSet::add_entities puts ghosts in the ghost
 list

---
 src/mesh/MeshSet.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 9fa8104..337d10a 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -187,7 +187,7 @@ void MeshSet::add_entities(std::vector<Entity_ID> const& in_entities) {
     entityids_owned_.insert(entityids_owned_.end(), in_entities.begin(),
                             in_entities.end());
   else if (nall == nghost)
-    entityids_owned_.insert(entityids_ghost_.end(), in_entities.begin(),
+    entityids_ghost_.insert(entityids_ghost_.end(), in_entities.begin(),
                             in_entities.end());
   else
     for (auto const& mesh_entity : in_entities)
-- 
2.43.0


From 223097ae113a988fa38490364c4762ef063ce73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:39 +0000
Subject: [PATCH 11/48] fix: MeshSet::add_entities keeps the full list and the
 reverse map consistent

---
 src/mesh/MeshSet.cc | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 337d10a..75ffb96 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -198,25 +198,16 @@ void MeshSet::add_entities(std::vector<Entity_ID> const& in_entities) {
   // we have to make a new list with the updated owned and ghost
   // entities and concatenate them (if there are any ghosts)
   
-  if (entityids_ghost_.size()) {
-    std::vector<Entity_ID> tmp_list(entityids_owned_);
-    tmp_list.insert(tmp_list.end(), entityids_ghost_.begin(),
-                    entityids_ghost_.end());
-    entityids_all_.swap(tmp_list);
-  } else
-    entityids_all_.insert(entityids_all_.begin(), in_entities.begin(),
-                          in_entities.end());
+  std::vector<Entity_ID> tmp_list(entityids_owned_);
+  tmp_list.insert(tmp_list.end(), entityids_ghost_.begin(),
+                  entityids_ghost_.end());
+  entityids_all_.swap(tmp_list);
 
   if (have_reverse_map_) {  // have to update mesh to subset map
     // new owned entities should have gone in after old owned entities
-    int start = nowned_old;
-    for (int i = start; i < start + nowned; i++)
-      mesh2subset_[entityids_all_[i]] = i;
-    
-    // new ghost entities should have gone in after old+new owned
-    // entities and old ghost entities
-    start = nowned_old + nowned + nghost_old;
-    for (int i = start; i < start + nghost; i++)
+    // and all the ghost entities after those
+    int nall_new = entityids_all_.size();
+    for (int i = nowned_old; i < nall_new; i++)
       mesh2subset_[entityids_all_[i]] = i;
   }
 }
-- 
2.43.0


From b4add320e89f29a4697ec825208c54d16060700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:39 +0000
Subject: [PATCH 12/48] fix: MeshSet::rem_entity keeps owned entities first and
 the reverse map current

---
 src/mesh/MeshSet.cc | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 75ffb96..2225093 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -156,15 +156,17 @@ void MeshSet::rem_entity(Entity_ID const& mesh_entity) {
     else
       return;  // No other type like BOUNDARY_GHOST can be part of set
 
-    size = entityids_all_.size();
-    auto const& it = std::find(entityids_all_.begin(),
-                               entityids_all_.end(), mesh_entity);
-    if (it != entityids_all_.end()) {
-      *it = entityids_all_[size-1];  // replace mesh_entity with last entry
-      entityids_all_.resize(size-1);
-    }
+    // the full list has the owned entities first and the ghosts after them
+    entityids_all_ = entityids_owned_;
+    entityids_all_.insert(entityids_all_.end(), entityids_ghost_.begin(),
+                          entityids_ghost_.end());
 
-    if (have_reverse_map_) mesh2subset_[mesh_entity] = -1;
+    if (have_reverse_map_) {
+      mesh2subset_[mesh_entity] = -1;
+      int nall = entityids_all_.size();
+      for (int i = 0; i < nall; ++i)
+        mesh2subset_[entityids_all_[i]] = i;
+    }
   }
 
 
-- 
2.43.0


From 14811325bf5ce75fa903951039f642749b39f642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:39 +0000
Subject: [PATCH 13/48] fix: MeshSet::rem_entities looks for entities only
 among those still in the set

---
 src/mesh/MeshSet.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 2225093..3a1c7ac 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -226,9 +226,9 @@ void MeshSet::rem_entities(std::vector<Entity_ID> const& in_entities) {
   for (auto const& mesh_entity : in_entities) {
     Entity_type etype = mesh_.entity_get_type(kind_, mesh_entity);
     if (etype == Entity_type::PARALLEL_OWNED) {
-      auto const& it = std::find(entityids_owned_.begin(),
-                                 entityids_owned_.end(), mesh_entity);
-      if (it != entityids_owned_.end()) {
+      auto const& end = entityids_owned_.begin() + (size-ndel);
+      auto const& it = std::find(entityids_owned_.begin(), end, mesh_entity);
+      if (it != end) {
         *it = entityids_owned_[size-ndel-1];
         ndel++;
       }
@@ -239,9 +239,9 @@ void MeshSet::rem_entities(std::vector<Entity_ID> const& in_entities) {
   size = entityids_ghost_.size();
   ndel = 0;
   for (auto const& mesh_entity : in_entities) {
-    auto const& it = std::find(entityids_ghost_.begin(),
-                               entityids_ghost_.end(), mesh_entity);
-    if (it != entityids_ghost_.end()) {
+    auto const& end = entityids_ghost_.begin() + (size-ndel);
+    auto const& it = std::find(entityids_ghost_.begin(), end, mesh_entity);
+    if (it != end) {
       *it = entityids_ghost_[size-ndel-1];
       ndel++;
     }
-- 
2.43.0


From 443319055097b273311b74be8939054d72838437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:39 +0000
Subject: [PATCH 14/48] fix: MeshSet::rem_entities keeps owned entities first
 and clears the reverse map of removed ones

---
 src/mesh/MeshSet.cc | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 3a1c7ac..0151184 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -248,19 +248,14 @@ void MeshSet::rem_entities(std::vector<Entity_ID> const& in_entities) {
   }
   entityids_ghost_.resize(size-ndel);
   
-  size = entityids_all_.size();
-  ndel = 0;
-  for (auto const& mesh_entity : in_entities) {
-    auto const& it = std::find(entityids_all_.begin(),
-                               entityids_all_.end(), mesh_entity);
-    if (it != entityids_all_.end()) {
-      *it = entityids_all_[size-ndel-1];
-      ndel++;
-    }
-  }
-  entityids_all_.resize(size-ndel);
+  // the full list has the owned entities first and the ghosts after them
+  entityids_all_ = entityids_owned_;
+  entityids_all_.insert(entityids_all_.end(), entityids_ghost_.begin(),
+                        entityids_ghost_.end());
 
   if (have_reverse_map_) {
+    for (auto const& mesh_entity : in_entities)
+      mesh2subset_[mesh_entity] = -1;
     int nall = entityids_all_.size();
     for (int i = 0; i < nall; i++)
       mesh2subset_[entityids_all_[i]] = i;
-- 
2.43.0


From 06ac7ec7cfb7618342d91883d6970a0dc29ae55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:39 +0000
Subject: [PATCH 15/48] fix: complement of mesh sets uses the ids of the ghost
 entities

---
 src/mesh/MeshSet.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 0151184..ef84726 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -507,7 +507,7 @@ complement(std::vector<std::shared_ptr<MeshSet>> inpsets, bool temporary) {
   
   Entity_ID_List ghost_list;
   ghost_list.reserve(nent_ghost - setunion->entityids_ghost_.size());
-  for (int ent = 0; ent < nent_ghost; ent++)
+  for (int ent = nent_owned; ent < nent_owned + nent_ghost; ent++)
     if (std::find(setunion->entityids_ghost_.begin(),
                   setunion->entityids_ghost_.end(),
                   ent) == setunion->entityids_ghost_.end())
-- 
2.43.0


From 1f9991813751e3dd8e91f45e32f7294914e604b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:09 +0000
Subject: [PATCH 16/48] fix: exception behavior set anywhere applies to every
 Jali_throw

Each translation unit had its own copy of the policy, so setting it changed
only the copy in exceptions.cc and Jali_throw kept raising.
---
 src/error_handling/exceptions.cc | 4 ++++
 src/error_handling/exceptions.hh | 9 ++-------
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/error_handling/exceptions.cc b/src/error_handling/exceptions.cc
index 45c6fba..804af8c 100644
--- a/src/error_handling/exceptions.cc
+++ b/src/error_handling/exceptions.cc
@@ -50,6 +50,10 @@
 
 #include <sstream>
 
+namespace {
+Exceptions::Exception_action behavior = Exceptions::RAISE;
+}
+
 namespace Exceptions {
 
 void set_exception_behavior_raise() { behavior = Exceptions::RAISE; }
diff --git a/src/error_handling/exceptions.hh b/src/error_handling/exceptions.hh
index ceaae86..8c49dc5 100644
--- a/src/error_handling/exceptions.hh
+++ b/src/error_handling/exceptions.hh
@@ -74,18 +74,13 @@ template <typename E> void Jali_throw(const E& exception);
 }  // namespace Exceptions
 
 
-namespace {
-Exceptions::Exception_action behavior = Exceptions::RAISE;
-}
-
-
 namespace Exceptions {
 
-// Either raise the given exception or abort, depending on the value of behavior.
+// Either raise the given exception or abort, depending on the current exception behavior.
 template <typename E>
 void Jali_throw(const E& exception)
 {
-  if (behavior == Exceptions::RAISE)
+  if (exception_behavior() == Exceptions::RAISE)
       throw exception;
   else
       abort ();
-- 
2.43.0


From cba4539c663771848be7f3ecc195a8b03106f0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:42 +0000
Subject: [PATCH 17/48] fix: UniStateVector::get_data returns a pointer to the
 vector it holds

---
 src/statemanager/JaliStateVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statemanager/JaliStateVector.h b/src/statemanager/JaliStateVector.h
index 87936c8..add6000 100644
--- a/src/statemanager/JaliStateVector.h
+++ b/src/statemanager/JaliStateVector.h
@@ -392,7 +392,7 @@ class UniStateVector : public UniStateVectorBase<DomainType> {
 
   /// Get a shared pointer to the data
 
-  std::shared_ptr<T> get_data() { return mydata_; }
+  std::shared_ptr<std::vector<T>> get_data() { return mydata_; }
 
   /// Type of data
 
-- 
2.43.0


From c54c636e369c2d370ce95136dfe62be575cad8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:42 +0000
Subject: [PATCH 18/48] fix: State::add indexes the vector being added by its
 own position

---
 src/statemanager/JaliState.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/statemanager/JaliState.h b/src/statemanager/JaliState.h
index d3ee913..ac21aeb 100644
--- a/src/statemanager/JaliState.h
+++ b/src/statemanager/JaliState.h
@@ -1117,7 +1117,7 @@ class State : public std::enable_shared_from_this<State> {
       // vectors on this entity type with a permutation iterator
 
       int ikind = static_cast<int>(kind);
-      entity_indexes_[ikind].emplace_back(state_vectors_.size()-1);
+      entity_indexes_[ikind].emplace_back(state_vectors_.size());
       names_.emplace_back(name);
 
       auto vector =
@@ -1171,7 +1171,7 @@ class State : public std::enable_shared_from_this<State> {
       // vectors on this entity type with a permutation iterator
 
       int ikind = static_cast<int>(kind);
-      entity_indexes_[ikind].emplace_back(state_vectors_.size()-1);
+      entity_indexes_[ikind].emplace_back(state_vectors_.size());
       names_.emplace_back(name);
 
       auto vector =
@@ -1224,7 +1224,7 @@ class State : public std::enable_shared_from_this<State> {
       // vectors on this entity type with a permutation iterator
 
       int ikind = static_cast<int>(kind);
-      entity_indexes_[ikind].emplace_back(state_vectors_.size()-1);
+      entity_indexes_[ikind].emplace_back(state_vectors_.size());
       names_.emplace_back(name);
 
       auto vector =
-- 
2.43.0


From 791c587c4c516cda267e801292ab762f267ef09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:42 +0000
Subject: [PATCH 19/48] fix: State::add of a vector from another mesh looks for
 duplicates on its own mesh

---
 src/statemanager/JaliState.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/statemanager/JaliState.h b/src/statemanager/JaliState.h
index ac21aeb..adc8d1f 100644
--- a/src/statemanager/JaliState.h
+++ b/src/statemanager/JaliState.h
@@ -1350,9 +1350,14 @@ class State : public std::enable_shared_from_this<State> {
     Entity_kind kind = in_vec.entity_kind();
     Entity_type type = in_vec.entity_type();
 
-    iterator it = find<T, DomainType, StateVecType>(in_vec.name(),
-                                                    in_vec.domain(), kind,
-                                                    type);
+    // a vector defined on a different mesh is added on the mesh of this state
+
+    std::shared_ptr<DomainType> domain = in_vec.domain();
+    if (mymesh_.get() != &(in_vec.mesh()))
+      domain = mymesh_;
+
+    iterator it = find<T, DomainType, StateVecType>(in_vec.name(), domain,
+                                                    kind, type);
     if (it == end()) {
 
       std::shared_ptr<StateVecType<T, DomainType>> vector_copy;
-- 
2.43.0


From b8270227287414336e8d0c7fde30be1dea1ed477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:42 +0000
Subject: [PATCH 20/48] fix: State::rem_material removes the material from
 every cell and renumbers later materials

---
 src/statemanager/JaliState.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index 2b3ef75..f6e3f30 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -103,11 +103,13 @@ void State::rem_material(int m) {
   std::shared_ptr<MeshSet> matset = material_cellsets_[m];
   if (!matset) return;
 
-  for (auto const& c : material_cellsets_[m]->entities()) {
-    int nmats = cell_materials_[c].size();
-    for (int i = 0; i < nmats; i++)
-      if (m == cell_materials_[c][i])
-        cell_materials_[c].erase(cell_materials_[c].begin()+i);
+  // Forget this material in every cell and renumber the materials after it
+
+  for (auto& cmats : cell_materials_) {
+    std::vector<int> newmats;
+    for (auto const& cm : cmats)
+      if (cm != m) newmats.push_back(cm > m ? cm-1 : cm);
+    cmats.swap(newmats);
   }
 
   material_cellsets_.erase(material_cellsets_.begin()+m);
-- 
2.43.0


From 0caf7db010084ca970180d49c7b6adcf092dd0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:42 +0000
Subject: [PATCH 21/48] fix: State::add_material does not keep the old cells of
 an existing mesh set

---
 src/statemanager/JaliState.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index f6e3f30..fec8180 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -73,6 +73,10 @@ void State::add_material(std::string const& matname,
     bool with_reverse_map = true;
     matset = make_meshset(matname, *mymesh_, Jali::Entity_kind::CELL,
                           owned_entities, ghost_entities, with_reverse_map);
+  } else if (matset->num_entities()) {
+    // it may hold other cells, e.g. those of a removed material of that name
+    std::vector<int> oldcells(matset->entities());
+    matset->rem_entities(oldcells);
   }
 
   matset->add_entities(matcells);
-- 
2.43.0


From a2143fbddda4b4d4ae8838ad313a46f9e19387f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:42 +0000
Subject: [PATCH 22/48] fix: State::add_cells_to_material ignores cells already
 in the material and vectors not on the mesh

---
 src/statemanager/JaliState.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index fec8180..22cdf5a 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -131,16 +131,20 @@ void State::rem_material(int m) {
 
 void State::add_cells_to_material(int m, std::vector<int> const& cells) {
   assert(m < material_cellsets_.size());
-  material_cellsets_[m]->add_entities(cells);
-
+  std::vector<int> newcells;  // cells which are not in the material yet
   for (auto const& c : cells)
+    if (material_cellsets_[m]->index_in_set(c) == -1)
+      newcells.push_back(c);
+
+  material_cellsets_[m]->add_entities(newcells);
+
+  for (auto const& c : newcells)
     cell_materials_[c].push_back(m);
 
   for (auto & sv : state_vectors_) {
     if (sv->type() == StateVector_type::MULTIVAL) {
       auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
-      int size = mv->size(m);
-      mv->resize(m, size+cells.size());
+      if (mv) mv->resize(m, mv->size(m)+newcells.size());
     }
   }
 }
-- 
2.43.0


From 2100a6c00fba0bf931aefaee381410e204100d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:42 +0000
Subject: [PATCH 23/48] fix: material operations update multi-material vectors
 defined on mesh tiles

---
 src/statemanager/JaliState.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index 22cdf5a..bae0dec 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -95,6 +95,8 @@ void State::add_material(std::string const& matname,
     if (sv->type() == StateVector_type::MULTIVAL) {
       auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
       if (mv) mv->add_material(matcells.size());
+      auto mvt = std::dynamic_pointer_cast<MultiStateVectorBase<MeshTile>>(sv);
+      if (mvt) mvt->add_material(matcells.size());
     }
   }
 }
@@ -123,6 +125,8 @@ void State::rem_material(int m) {
     if (sv->type() == StateVector_type::MULTIVAL) {
       auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
       if (mv) mv->rem_material(m);
+      auto mvt = std::dynamic_pointer_cast<MultiStateVectorBase<MeshTile>>(sv);
+      if (mvt) mvt->rem_material(m);
     }
   }
 }
@@ -145,6 +149,8 @@ void State::add_cells_to_material(int m, std::vector<int> const& cells) {
     if (sv->type() == StateVector_type::MULTIVAL) {
       auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
       if (mv) mv->resize(m, mv->size(m)+newcells.size());
+      auto mvt = std::dynamic_pointer_cast<MultiStateVectorBase<MeshTile>>(sv);
+      if (mvt) mvt->resize(m, mvt->size(m)+newcells.size());
     }
   }
 }
-- 
2.43.0


From 521ce16a72837933bda75be334fe05596fd7f79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:42 +0000
Subject: [PATCH 24/48] fix: adding cells to a material keeps the values of its
 ghost cells

---
 src/statemanager/JaliState.cc      | 15 +++++++++++++--
 src/statemanager/JaliStateVector.h |  8 ++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index bae0dec..db32d15 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -140,7 +140,12 @@ void State::add_cells_to_material(int m, std::vector<int> const& cells) {
     if (material_cellsets_[m]->index_in_set(c) == -1)
       newcells.push_back(c);
 
+  // New owned cells go after the owned cells and before the ghost cells
+  // already in the material; their values have to go to the same place
+
+  size_t nowned = material_cellsets_[m]->num_entities(Entity_type::PARALLEL_OWNED);
   material_cellsets_[m]->add_entities(newcells);
+  size_t nnew = material_cellsets_[m]->num_entities(Entity_type::PARALLEL_OWNED) - nowned;
 
   for (auto const& c : newcells)
     cell_materials_[c].push_back(m);
@@ -148,9 +153,15 @@ void State::add_cells_to_material(int m, std::vector<int> const& cells) {
   for (auto & sv : state_vectors_) {
     if (sv->type() == StateVector_type::MULTIVAL) {
       auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
-      if (mv) mv->resize(m, mv->size(m)+newcells.size());
+      if (mv) {
+        mv->insert(m, nowned, nnew);
+        mv->resize(m, mv->size(m)+newcells.size()-nnew);
+      }
       auto mvt = std::dynamic_pointer_cast<MultiStateVectorBase<MeshTile>>(sv);
-      if (mvt) mvt->resize(m, mvt->size(m)+newcells.size());
+      if (mvt) {
+        mvt->insert(m, nowned, nnew);
+        mvt->resize(m, mvt->size(m)+newcells.size()-nnew);
+      }
     }
   }
 }
diff --git a/src/statemanager/JaliStateVector.h b/src/statemanager/JaliStateVector.h
index add6000..2992c6d 100644
--- a/src/statemanager/JaliStateVector.h
+++ b/src/statemanager/JaliStateVector.h
@@ -560,6 +560,9 @@ class MultiStateVectorBase : public StateVectorBase {
   /// Resize a particular material array
   virtual void resize(int m, size_t newsize) = 0;
 
+  /// Insert new elements in a particular material array
+  virtual void insert(int m, size_t pos, size_t num) = 0;
+
   /// Clear out all the data
   virtual void clear() = 0;
 
@@ -942,6 +945,11 @@ class MultiStateVector : public MultiStateVectorBase<DomainType> {
     (*mydata_)[m].resize(newsize, val);
   }
 
+  /// Insert new elements in a particular material array
+  void insert(int m, size_t pos, size_t num) {
+    (*mydata_)[m].insert((*mydata_)[m].begin()+pos, num, T());
+  }
+
   /// Clear out all the data
   void clear() { mydata_->clear(); }
 
-- 
2.43.0


From 94a108add2de7b7b6e121d50922ade7c092ad91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:30 +0000
Subject: [PATCH 25/48] fix: MeshFactory::reset_options also resets the request
 for sides

---
 src/mesh/mesh_factory/MeshFactory.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/mesh_factory/MeshFactory.cc b/src/mesh/mesh_factory/MeshFactory.cc
index e11fb87..11bd2da 100644
--- a/src/mesh/mesh_factory/MeshFactory.cc
+++ b/src/mesh/mesh_factory/MeshFactory.cc
@@ -151,6 +151,7 @@ void MeshFactory::reset_options(void) {
   request_edges_ = request_edges_default_;
   request_faces_ = request_faces_default_;
   request_cells_ = request_cells_default_;
+  request_sides_ = request_sides_default_;
   request_wedges_ = request_wedges_default_;
   request_corners_ = request_corners_default_;
 
-- 
2.43.0


From 71877ffe9dc9007f86f3341c479bef8a04a5bd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:30 +0000
Subject: [PATCH 26/48] fix: MeshFactory raises an error when the framework
 cannot generate 2D meshes

---
 src/mesh/mesh_factory/MeshFactory.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/mesh_factory/MeshFactory.cc b/src/mesh/mesh_factory/MeshFactory.cc
index 11bd2da..472f062 100644
--- a/src/mesh/mesh_factory/MeshFactory.cc
+++ b/src/mesh/mesh_factory/MeshFactory.cc
@@ -429,6 +429,7 @@ MeshFactory::create(double const x0, double const y0,
       }
 #endif
       default: {
+        ierr = 1;
         errmsg.add_data("Chosen framework cannnot generate meshes");        
       }
     }
-- 
2.43.0


From 405e2f649931550ab1b5050c2b4c4cd875655e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:30 +0000
Subject: [PATCH 27/48] fix: 1D MeshFactory request for nx cells creates nx+1
 nodes up to x1

---
 src/mesh/mesh_factory/MeshFactory.hh | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/mesh/mesh_factory/MeshFactory.hh b/src/mesh/mesh_factory/MeshFactory.hh
index 03df426..3d77a74 100644
--- a/src/mesh/mesh_factory/MeshFactory.hh
+++ b/src/mesh/mesh_factory/MeshFactory.hh
@@ -336,13 +336,10 @@ class MeshFactory {
   std::shared_ptr<Mesh> operator() (double const x0, double const x1,
                                     int const nx) {
     double dX = (x1-x0)/((double)nx);
-    double myX = x0;
 
-    std::vector<double> x(nx);
-    for (auto it = x.begin(); it != x.end(); it++) {
-      *it = myX;
-      myX += dX;
-    }
+    std::vector<double> x(nx > 0 ? nx+1 : 0);  // one more node than cells
+    for (int i = 0; i < x.size(); i++)
+      x[i] = (i == nx) ? x1 : x0 + i*dX;
 
     return create(x);
   }
-- 
2.43.0


From 061fc8dedcbc8458ac2bfac8d28c9af2c80458e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:30 +0000
Subject: [PATCH 28/48] fix: MeshFactory rejects 1D node coordinates that are
 not increasing

---
 src/mesh/mesh_factory/MeshFactory.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesh/mesh_factory/MeshFactory.cc b/src/mesh/mesh_factory/MeshFactory.cc
index 472f062..8fbb04d 100644
--- a/src/mesh/mesh_factory/MeshFactory.cc
+++ b/src/mesh/mesh_factory/MeshFactory.cc
@@ -476,7 +476,9 @@ MeshFactory::create(std::vector<double> const& x) {
   MPI_Allreduce(&ierr, &aerr, 1, MPI_INT, MPI_SUM, comm_);
   if (aerr > 0) Exceptions::Jali_throw(errmsg);
 
-  double delta = x.back() - x.front();
+  double delta = x[1] - x[0];  // smallest spacing
+  for (int i = 1; i < x.size()-1; i++)
+    if (x[i+1] - x[i] < delta) delta = x[i+1] - x[i];
   if (delta <= 0.0) {
     ierr = 1;
     std::stringstream mesgstream;
-- 
2.43.0


From 7a701a1a74ce9ce8d55affefbc383a3950edd682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:28 +0000
Subject: [PATCH 29/48] fix: node-to-face table of brick meshes lists xz and yz
 faces by their own ids

---
 src/mesh/mesh_simple/Mesh_simple.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mesh/mesh_simple/Mesh_simple.cc b/src/mesh/mesh_simple/Mesh_simple.cc
index 34002e7..8e2c0ee 100644
--- a/src/mesh/mesh_simple/Mesh_simple.cc
+++ b/src/mesh/mesh_simple/Mesh_simple.cc
@@ -548,22 +548,22 @@ void Mesh_simple::update_internals_3d_() {
 
         jstart = faces_per_node_aug_*node_index_(ix, iy, iz);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = xzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix+1, iy, iz);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = xzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix+1, iy, iz+1);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = xzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix, iy, iz+1);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = xzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
       }
   // finally we do the yz faces
@@ -581,22 +581,22 @@ void Mesh_simple::update_internals_3d_() {
 
         jstart = faces_per_node_aug_*node_index_(ix, iy, iz);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = yzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix, iy+1, iz);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = yzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix, iy+1, iz+1);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = yzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix, iy, iz+1);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = yzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
       }
 
-- 
2.43.0


From 44f855feae0bb3d5755f32e44b64fae47414c293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:05 +0000
Subject: [PATCH 30/48] fix: the centroid of a face of a 1D mesh is the
 position of its node

---
 src/mesh/Mesh.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 3d73d11..b198446 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1365,6 +1365,7 @@ int Mesh::compute_face_geometry(const Entity_ID faceid, double *area,
     face_get_coordinates(faceid, &fcoords);
 
     JaliGeometry::face1d_get_area(fcoords, geomtype, area);
+    *centroid = fcoords[0];
     JaliGeometry::Point normal(space_dim_);
     normal.set(*area);
 
-- 
2.43.0


From 2e0e4944817367efa80f82104aab446e7f2653e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:05 +0000
Subject: [PATCH 31/48] fix: Entity_type_string names each entity type by its
 own name

---
 src/mesh/MeshDefs.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mesh/MeshDefs.hh b/src/mesh/MeshDefs.hh
index 0219930..f973d0b 100644
--- a/src/mesh/MeshDefs.hh
+++ b/src/mesh/MeshDefs.hh
@@ -174,7 +174,8 @@ const int NUM_ENTITY_TYPES = 6;
 inline
 bool valid_entity_type(const Entity_type type) {
   int itype = static_cast<int>(type);
-  return (itype >= 0 && itype < NUM_ENTITY_TYPES);
+  // TYPE_UNKNOWN (-1) is counted in NUM_ENTITY_TYPES but is not valid
+  return (itype >= 0 && itype+1 < NUM_ENTITY_TYPES);
 }
 
 // Return a string describing the entity kind that can be printed out
@@ -185,8 +186,8 @@ std::string Entity_type_string(Entity_type const type) {
        "Entity_type::PARALLEL_OWNED", "Entity_type::PARALLEL_GHOST",
        "Entity_type::BOUNDARY_GHOST", "Entity_type::ALL"};
 
-  int itype = static_cast<int>(type);
-  return valid_entity_type(type) ? type_str[itype] : "";
+  int itype = static_cast<int>(type)+1;  // types are numbered from -1
+  return (itype >= 0 && itype < NUM_ENTITY_TYPES) ? type_str[itype] : "";
 }
 
 
-- 
2.43.0


From 58a6cbf063d17118095c809e93f787c2d3222be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:05 +0000
Subject: [PATCH 32/48] fix: face_get_cells returns the boundary ghost cells of
 a face when asked for them

---
 src/mesh/Mesh.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index b198446..004296e 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -746,6 +746,14 @@ void Mesh::face_get_cells(const Entity_ID faceid, const Entity_type ptype,
       }
       break;
     }
+    case Entity_type::BOUNDARY_GHOST: {
+      for (int i = 0; i < 2; i++) {
+        Entity_ID c = face_cell_ids[faceid][i];
+        if (c != -1 && cell_type[c] == Entity_type::BOUNDARY_GHOST)
+          cellids->push_back(c);
+      }
+      break;
+    }
     default: {}      
   }
 
@@ -779,6 +787,12 @@ void Mesh::face_get_cells(const Entity_ID faceid, const Entity_type ptype,
           cellids->push_back(fcells[i]);
       break;
     }
+    case Entity_type::BOUNDARY_GHOST: {
+      for (int i = 0; i < fcells.size(); i++)
+        if (cell_type[fcells[i]] == Entity_type::BOUNDARY_GHOST)
+          cellids->push_back(fcells[i]);
+      break;
+    }
     default: {}
   }
 
-- 
2.43.0


From 09dc76094fb197a46a25ae7f7f01a39af9a351d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:06 +0000
Subject: [PATCH 33/48] fix: Mesh_simple adjacency queries for ghost entities
 return none

---
 src/mesh/mesh_simple/Mesh_simple.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/mesh/mesh_simple/Mesh_simple.cc b/src/mesh/mesh_simple/Mesh_simple.cc
index 8e2c0ee..f57c6cd 100644
--- a/src/mesh/mesh_simple/Mesh_simple.cc
+++ b/src/mesh/mesh_simple/Mesh_simple.cc
@@ -794,6 +794,9 @@ void Mesh_simple::node_get_cells(const Jali::Entity_ID nodeid,
 
   cellids->clear();
 
+  // all entities are owned in this serial framework
+  if (ptype != Entity_type::PARALLEL_OWNED && ptype != Entity_type::ALL) return;
+
   for (int i = 0; i < ncells; i++)
     cellids->push_back(node_to_cell_[offset+i+1]);
 }
@@ -808,6 +811,9 @@ void Mesh_simple::node_get_faces(const Jali::Entity_ID nodeid,
 
   faceids->clear();
 
+  // all entities are owned in this serial framework
+  if (ptype != Entity_type::PARALLEL_OWNED && ptype != Entity_type::ALL) return;
+
   for (int i = 0; i < nfaces; i++)
     faceids->push_back(node_to_face_[offset+i+1]);
 }
@@ -824,6 +830,9 @@ void Mesh_simple::node_get_cell_faces(const Jali::Entity_ID nodeid,
 
   faceids->clear();
 
+  // all entities are owned in this serial framework
+  if (ptype != Entity_type::PARALLEL_OWNED && ptype != Entity_type::ALL) return;
+
   for (int i = 0; i < faces_per_cell_; i++) {
     Entity_ID cellfaceid = cell_to_face_[offset+i];
 
@@ -849,6 +858,9 @@ void Mesh_simple::face_get_cells_internal(const Jali::Entity_ID faceid,
 
   cellids->clear();
 
+  // all entities are owned in this serial framework
+  if (ptype != Entity_type::PARALLEL_OWNED && ptype != Entity_type::ALL) return;
+
   if (face_to_cell_[offset] != -1)
     cellids->push_back(face_to_cell_[offset]);
   if (face_to_cell_[offset+1] != -1)
@@ -875,6 +887,9 @@ void Mesh_simple::cell_get_face_adj_cells(const Jali::Entity_ID cellid,
 
   fadj_cellids->clear();
 
+  // all entities are owned in this serial framework
+  if (ptype != Entity_type::PARALLEL_OWNED && ptype != Entity_type::ALL) return;
+
   for (int i = 0; i < faces_per_cell_; i++) {
     Entity_ID faceid = cell_to_face_[offset];
 
@@ -905,6 +920,9 @@ void Mesh_simple::cell_get_node_adj_cells(const Jali::Entity_ID cellid,
 
   nadj_cellids->clear();
 
+  // all entities are owned in this serial framework
+  if (ptype != Entity_type::PARALLEL_OWNED && ptype != Entity_type::ALL) return;
+
   for (int i = 0; i < nodes_per_cell_; i++) {
     Entity_ID nodeid = cell_to_node_[offset+i];
 
-- 
2.43.0


From 12ab07db8c45601180d4ba80e10900005c2f10f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:35 +0000
Subject: [PATCH 34/48] fix: volumes of 1D sides are positive and their outer
 normals point out of the cell

---
 src/mesh/Mesh.cc | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 004296e..8a5bbe8 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1540,19 +1540,6 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
       // should point out of zone and have area of face
       *outward_facet_normal = -vec0/JaliGeometry::norm(vec0);
     }
-    
-    // Flip sign depending on which node/edge of the cell the side is
-    // associated with
-
-    Entity_ID nodeid = side_node_ids[sideid][0];
-    Entity_ID cellid = side_cell_id[sideid];
-
-    Entity_ID_List cnodes;
-    cell_get_nodes(cellid, &cnodes);
-    if (nodeid == cnodes[1]) {  // have to reverse sign of volume and normal
-      *side_volume = -(*side_volume);
-      *outward_facet_normal = -(*outward_facet_normal);
-    }
 
     // This is not really defined - nobody should try to use this
     mid_facet_normal->set(0.0);
-- 
2.43.0


From ac5205a0bf2594959e599f92706154df8ebf6656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:35 +0000
Subject: [PATCH 35/48] fix: normal of the facet between the wedges of a 2D
 side runs from edge to cell centre

---
 src/mesh/Mesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 8a5bbe8..c2cd28c 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1514,7 +1514,7 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
 
     JaliGeometry::Point vec3 = scoords[2] - ecen;
 
-    *mid_facet_normal = JaliGeometry::Point(vec1[1], -vec1[0]);
+    *mid_facet_normal = JaliGeometry::Point(vec3[1], -vec3[0]);
 
   } else if (manifold_dim_ == 1) {
     std::vector<JaliGeometry::Point> scoords;
-- 
2.43.0


From 8b9341ac5f6581e8ec017836366e107258f99839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:35 +0000
Subject: [PATCH 36/48] fix: positive volume order of 1D wedges depends on
 their end of the cell

---
 src/mesh/Mesh.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index c2cd28c..886d5d3 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1948,11 +1948,17 @@ void Mesh::wedge_get_coordinates(const Entity_ID wedgeid,
   // used for retrieving side coordinates and for the numbering of
   // wedges.
 
-  if (posvol_order && wedgeid%2) {
-    if (manifold_dim_ == 1)
-      std::swap((*wcoords)[0], (*wcoords)[1]);
-    else
+  // In 1D, the order depends on which end of the cell the wedge is at
+
+  if (posvol_order) {
+    if (manifold_dim_ == 1) {
+      Entity_ID_List cnodes;
+      cell_get_nodes(c, &cnodes);
+      if (n == cnodes[1])
+        std::swap((*wcoords)[0], (*wcoords)[1]);
+    } else if (wedgeid%2) {
       std::swap((*wcoords)[1], (*wcoords)[2]);
+    }
   }
 }  // wedge_get_coordinates
 
-- 
2.43.0


From 88f5c6ecf9c22dcc9447e4a8ad572b3b2e593035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:35 +0000
Subject: [PATCH 37/48] fix: coordinates of 2D corners at reentrant nodes are
 in ccw order

---
 src/mesh/Mesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 886d5d3..cd762b8 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2246,7 +2246,7 @@ Mesh::corner_get_coordinates(const Entity_ID cornerid,
     // Make sure we got the coordinates in the right orientation
 
     JaliGeometry::Point vec0 = (*pointcoords)[1] - (*pointcoords)[0];
-    JaliGeometry::Point vec1 = (*pointcoords)[3] - (*pointcoords)[0];
+    JaliGeometry::Point vec1 = (*pointcoords)[2] - (*pointcoords)[0];
     JaliGeometry::Point cpvec = vec0^vec1;  // 2 times the vol of cwedges[0]
 
     // If the sign of cpvec[0] and wedge_volume(cwedges[0]) not the same, then
-- 
2.43.0


From 136e5150876b1ce8e95bc7e0eb461ba2d7b4c55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:35 +0000
Subject: [PATCH 38/48] fix: updating the geometry replaces the facet normals
 of sides

---
 src/mesh/Mesh.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index cd762b8..4aed0fa 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1124,6 +1124,9 @@ int Mesh::compute_side_geometric_quantities() const {
   // It is also unclear that this is good to do because it will cause
   // a copy operator to be triggered for each element (?)
 
+  // discard values of an earlier computation
+  side_outward_facet_normal.clear();
+  side_mid_facet_normal.clear();
   side_outward_facet_normal.reserve(num_sides());
   side_mid_facet_normal.reserve(num_sides());
 
-- 
2.43.0


From e8777fba48d729075145cd577c0c68c2298e366a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:35 +0000
Subject: [PATCH 39/48] fix: recomputed side and wedge geometry uses current
 face and cell centers

---
 src/mesh/Mesh.cc | 21 ++++++++++++++++-----
 src/mesh/Mesh.hh |  3 ++-
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 4aed0fa..a24bf04 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1446,7 +1446,10 @@ int Mesh::compute_edge_geometry(const Entity_ID edgeid, double *edge_length,
 void Mesh::compute_side_geometry(Entity_ID const sideid,
                                  double *side_volume,
                                  JaliGeometry::Point *outward_facet_normal,
-                                 JaliGeometry::Point *mid_facet_normal) const {
+                                 JaliGeometry::Point *mid_facet_normal,
+                                 bool const recompute) const {
+  // if recompute is true, use current and not cached face and cell centers
+
   if (manifold_dim_ == 3) {
     std::vector<JaliGeometry::Point> scoords;
 
@@ -1458,6 +1461,10 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
     // will have a normal point inward.
 
     side_get_coordinates(sideid, &scoords);
+    if (recompute) {
+      scoords[2] = face_centroid(side_face_id[sideid], true);
+      scoords[3] = cell_centroid(side_cell_id[sideid], true);
+    }
 
     // vector from node 0 to node 1
     JaliGeometry::Point vec0 = scoords[1] - scoords[0];
@@ -1497,6 +1504,8 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
     // These are always - node coordinate, edge/face center, cell center
 
     side_get_coordinates(sideid, &scoords);
+    if (recompute)
+      scoords[2] = cell_centroid(side_cell_id[sideid], true);
 
     // vector from node 0 to node 1
     JaliGeometry::Point vec0 = scoords[1]-scoords[0];
@@ -1527,6 +1536,8 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
     // These are always - node coordinate and cell center
 
     side_get_coordinates(sideid, &scoords);
+    if (recompute)
+      scoords[1] = cell_centroid(side_cell_id[sideid], true);
 
     // vector from node to cell center
     JaliGeometry::Point vec0 = scoords[1]-scoords[0];
@@ -1620,7 +1631,7 @@ double Mesh::side_volume(const Entity_ID sideid, const bool recompute) const {
     double side_volume;
     JaliGeometry::Point outward_facet_normal, mid_facet_normal;
     compute_side_geometry(sideid, &side_volume, &outward_facet_normal,
-                          &mid_facet_normal);
+                          &mid_facet_normal, true);
     return side_volume;
   } else {
     return side_volumes[sideid];
@@ -1639,7 +1650,7 @@ double Mesh::wedge_volume(const Entity_ID wedgeid, const bool recompute) const {
     double side_volume;
     JaliGeometry::Point outward_facet_normal, mid_facet_normal;
     compute_side_geometry(sideid, &side_volume, &outward_facet_normal,
-                          &mid_facet_normal);
+                          &mid_facet_normal, true);
     return side_volume/2.0;
   } else {
     return side_volumes[sideid]/2.0;
@@ -1985,7 +1996,7 @@ JaliGeometry::Point Mesh::side_facet_normal(const int sideid,
         mid_facet_normal(space_dim_);
     
     compute_side_geometry(sideid, &volume, &outward_facet_normal,
-                          &mid_facet_normal);
+                          &mid_facet_normal, true);
     return outward_facet_normal;
   } else {
     return side_outward_facet_normal[sideid];
@@ -2019,7 +2030,7 @@ JaliGeometry::Point Mesh::wedge_facet_normal(const int wedgeid,
         mid_facet_normal(space_dim_);
         
     compute_side_geometry(sideid, &volume, &outward_facet_normal,
-                          &mid_facet_normal);
+                          &mid_facet_normal, true);
     if (which_facet == 0)
       return outward_facet_normal/2.0;  // wedge facet area = 1/2 side facet
     else
diff --git a/src/mesh/Mesh.hh b/src/mesh/Mesh.hh
index 8d04b11..1b8331e 100644
--- a/src/mesh/Mesh.hh
+++ b/src/mesh/Mesh.hh
@@ -1293,7 +1293,8 @@ class Mesh {
   void compute_side_geometry(const Entity_ID sideid,
                              double *volume,
                              JaliGeometry::Point *outward_facet_normal,
-                             JaliGeometry::Point *mid_facet_normal) const;
+                             JaliGeometry::Point *mid_facet_normal,
+                             bool const recompute = false) const;
 
   void compute_corner_geometry(const Entity_ID cornerid,
                               double *volume) const;
-- 
2.43.0


From 5eeb08a3b7865748b93c251745952d95153dc5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:35 +0000
Subject: [PATCH 40/48] fix: recomputed corner volumes use current wedge
 volumes

---
 src/mesh/Mesh.cc | 7 ++++---
 src/mesh/Mesh.hh | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index a24bf04..fe928cf 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1562,7 +1562,8 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
 
 
 void Mesh::compute_corner_geometry(const Entity_ID cornerid,
-                                   double *volume) const {
+                                   double *volume,
+                                   bool const recompute) const {
   Entity_ID_List cwedges;
   corner_get_wedges(cornerid, &cwedges);
 
@@ -1570,7 +1571,7 @@ void Mesh::compute_corner_geometry(const Entity_ID cornerid,
   Entity_ID_List::iterator itw = cwedges.begin();
   while (itw != cwedges.end()) {
     Entity_ID w = *itw;
-    *volume += wedge_volume(w);
+    *volume += wedge_volume(w, recompute);
     ++itw;
   }
 }  // compute corner geometry
@@ -1666,7 +1667,7 @@ double Mesh::corner_volume(const Entity_ID cornerid,
 
   if (recompute) {
     double volume;
-    compute_corner_geometry(cornerid, &volume);
+    compute_corner_geometry(cornerid, &volume, true);
     return volume;
   } else {
     return corner_volumes[cornerid];
diff --git a/src/mesh/Mesh.hh b/src/mesh/Mesh.hh
index 1b8331e..b549499 100644
--- a/src/mesh/Mesh.hh
+++ b/src/mesh/Mesh.hh
@@ -1297,7 +1297,8 @@ class Mesh {
                              bool const recompute = false) const;
 
   void compute_corner_geometry(const Entity_ID cornerid,
-                              double *volume) const;
+                              double *volume,
+                              bool const recompute = false) const;
 
   void cache_type_info() const;
   void cache_cell2face_info() const;
-- 
2.43.0


From 5d46286c32676e0ac573b9a7fa63fb70377e07b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:41 +0000
Subject: [PATCH 41/48] fix: define Mesh::wedge_get_side, which was declared
 and documented but could not be linked

---
 src/mesh/Mesh.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mesh/Mesh.hh b/src/mesh/Mesh.hh
index b549499..88e3903 100644
--- a/src/mesh/Mesh.hh
+++ b/src/mesh/Mesh.hh
@@ -2101,6 +2101,12 @@ Entity_ID Mesh::wedge_get_node(const Entity_ID wedgeid) const {
   return side_get_node(sideid, iwedge);
 }
 
+inline
+Entity_ID Mesh::wedge_get_side(const Entity_ID wedgeid) const {
+  assert(wedges_requested);
+  return static_cast<Entity_ID>(wedgeid/2);
+}
+
 inline
 Entity_ID Mesh::wedge_get_corner(const Entity_ID wedgeid) const {
   assert(sides_requested && wedges_requested);
-- 
2.43.0


From 0f32945bfa7dcebe0ef31ec33a1ca45b00d53f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:49 +0000
Subject: [PATCH 42/48] fix: build the list of sides of a tile when sides are
 requested

---
 src/mesh/MeshTile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/MeshTile.cc b/src/mesh/MeshTile.cc
index 9ed9800..a8fdbc2 100644
--- a/src/mesh/MeshTile.cc
+++ b/src/mesh/MeshTile.cc
@@ -249,7 +249,7 @@ MeshTile::MeshTile(Mesh& parent_mesh,
                         edgeids_ghost_.begin(), edgeids_ghost_.end());
   }
 
-  if (request_wedges) {
+  if (request_sides || request_wedges) {
     for (auto const& c : cellids_owned_) {
       std::vector<int> csides;
       mesh_.cell_get_sides(c, &csides);
-- 
2.43.0


From fea71021531555fe655c60e869a4fa5689ef18d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:22 +0000
Subject: [PATCH 43/48] fix: a single METIS partition holds every owned cell
 instead of writing past the partition list

---
 src/mesh/Mesh.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index fe928cf..551209d 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -3205,6 +3205,12 @@ void Mesh::get_partitioning_with_metis(int const num_parts,
   std::cerr << "Partitioning mesh on each compute node into " << num_parts <<
       " parts using METIS\n";
 
+  if (num_parts == 1) {  // METIS bisects the graph even if asked for one part
+    for (auto const& c : cells<Entity_type::PARALLEL_OWNED>())
+      (*partitions)[0].push_back(c);
+    return;
+  }
+
   // Build the adjacency info
 
   int ncells_owned = num_cells<Entity_type::PARALLEL_OWNED>();
-- 
2.43.0


From a854df61427c2fe52cf9cfb551386b441663a8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:45 +0000
Subject: [PATCH 44/48] fix: initialising sets from regions builds each
 requested kind that is missing

---
 src/mesh/Mesh.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 551209d..890ba8e 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2426,10 +2426,6 @@ void Mesh::init_sets_from_geometric_model(
       // We have to account for users querying any type of entity on
       // the region
 
-      auto mset = find_meshset(rgn->name(), Entity_kind::CELL);
-      if (mset) continue;
-
-      
       std::vector<Entity_kind> entity_kinds;
       auto it = region_to_entity_kinds_map.find(rgn->name());
       if (it != region_to_entity_kinds_map.end())
@@ -2470,8 +2466,10 @@ void Mesh::init_sets_from_geometric_model(
         }
       }
 
-      for (Entity_kind entity_kind : entity_kinds)
-        mset = build_set_from_region(rgn->name(), entity_kind, false);
+      for (Entity_kind entity_kind : entity_kinds) {
+        if (find_meshset(rgn->name(), entity_kind)) continue;
+        build_set_from_region(rgn->name(), entity_kind, false);
+      }
     }
   }
 }  // init_sets_from_geometric_model (must be called before querying sets from regions)
-- 
2.43.0


From 69faffc05786e7fdabe566da9d5e6102b1a007ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:45 +0000
Subject: [PATCH 45/48] fix: default initialisation does not ask for cell sets
 on polygon regions

---
 src/mesh/Mesh.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 890ba8e..a1678f1 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2431,7 +2431,9 @@ void Mesh::init_sets_from_geometric_model(
       if (it != region_to_entity_kinds_map.end())
         entity_kinds = it->second;
       else {
-        if (rgn->dimension() == gdim)
+        // polygons hold points of dimension gdim but are one dimension less
+        if (rgn->dimension() == gdim &&
+            rgn->type() != JaliGeometry::Region_type::POLYGON)
           entity_kinds.push_back(Entity_kind::CELL);
         if (faces_requested && rgn->dimension() >= gdim-1)
           entity_kinds.push_back(Entity_kind::FACE);
-- 
2.43.0


From 7315e15233f45b26f607f8dbdf3910ba787b0afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:45 +0000
Subject: [PATCH 46/48] fix: logical regions over one set copy it, and
 subtraction keeps repeated operands

---
 src/mesh/Mesh.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index a1678f1..18b177d 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -3023,14 +3023,14 @@ std::shared_ptr<MeshSet> Mesh::build_set_from_region(const std::string setname,
 
     if (boolregion->operation() == JaliGeometry::Bool_type::COMPLEMENT)
       mset = complement(msets, temporary);
+    else if (boolregion->operation() == JaliGeometry::Bool_type::INTERSECT ||
+             msets.size() == 1)  // union or subtraction of one set is a copy
+      mset = intersect(msets, temporary);
     else if (boolregion->operation() == JaliGeometry::Bool_type::UNION)
       mset = merge(msets, temporary);
-    else if (boolregion->operation() == JaliGeometry::Bool_type::INTERSECT)
-      mset = intersect(msets, temporary);
     else if (boolregion->operation() == JaliGeometry::Bool_type::SUBTRACT) {
-      std::vector<std::shared_ptr<MeshSet>> msets1;
-      for (auto const& set : msets)
-        if (set != msets[0]) msets1.push_back(set);
+      std::vector<std::shared_ptr<MeshSet>> msets1(msets.begin()+1,
+                                                   msets.end());
       mset = subtract(msets[0], msets1, temporary);      
     }
 
-- 
2.43.0


From 1e1a078afd1a6af5c85f3c79978b7138d12be265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:45 +0000
Subject: [PATCH 47/48] fix: cell sets of point regions find the containing
 cell when the nearest node is not one of its nodes

---
 src/mesh/Mesh.cc | 27 ++++-----------------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 18b177d..c9b5cb8 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2717,34 +2717,15 @@ std::shared_ptr<MeshSet> Mesh::build_set_from_region(const std::string setname,
                             owned_cells, ghost_cells, with_reverse_map);
 
       } else if (region->type() == JaliGeometry::Region_type::POINT) {
-        JaliGeometry::Point vpnt(spacedim);
         JaliGeometry::Point rgnpnt(spacedim);
 
         rgnpnt = ((JaliGeometry::PointRegionPtr)region)->point();
 
-        int nnode = Mesh::num_entities(Entity_kind::NODE,
-                                       Entity_type::ALL);
-
-        double mindist2 = 1.e+16;
-        int minnode = -1;
-        for (int inode = 0; inode < nnode; inode++) {
-          node_get_coordinates(inode, &vpnt);
-
-          double dist2 = (vpnt-rgnpnt)*(vpnt-rgnpnt);
-          if (dist2 < mindist2) {
-            mindist2 = dist2;
-            minnode = inode;
-            if (mindist2 <= 1.0e-32)
-              break;
-          }
-        }
-
-        Entity_ID_List cells1;
-        node_get_cells(minnode, Entity_type::ALL, &cells1);
+        // The cell containing the point need not be connected to the
+        // node closest to the point, so check all cells
 
-        int ncells = cells1.size();
-        for (int ic = 0; ic < ncells; ic++) {
-          Entity_ID icell = cells1[ic];
+        int ncells = Mesh::num_entities(Entity_kind::CELL, Entity_type::ALL);
+        for (int icell = 0; icell < ncells; icell++) {
 
           // Check if point is contained in cell
           if (point_in_cell(rgnpnt, icell)) {
-- 
2.43.0


From d6c4589a1a82886375087ec089feca2b6fb27b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:45 +0000
Subject: [PATCH 48/48] fix: labeled set regions given as Entity_kind::CELL and
 the like are valid region names

---
 src/mesh/Mesh.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index c9b5cb8..09f437e 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2544,6 +2544,9 @@ bool Mesh::valid_region_name(std::string name, Entity_kind kind) const {
             dynamic_cast<JaliGeometry::LabeledSetRegionPtr> (rgn);
         std::string entity_type = lsrgn->entity_str();
 
+        std::size_t pos = entity_type.rfind("::");
+        if (pos != std::string::npos) entity_type.erase(0, pos+2);
+
         if ((kind == Entity_kind::CELL && entity_type == "CELL") ||
             (kind == Entity_kind::FACE && entity_type == "FACE") ||
             (kind == Entity_kind::EDGE && entity_type == "EDGE") ||
-- 
2.43.0

