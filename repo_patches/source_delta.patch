From dbf4995a625f404f48617777f084590ebd6c46e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:03 +0000
Subject: [PATCH 01/22] verif hook: harness modules of mdbook-aquascope,
 compiled only under cfg(aquascope_verif = "...")

---
 crates/mdbook-aquascope/src/annotations.rs | 5 +++++
 crates/mdbook-aquascope/src/block.rs       | 5 +++++
 crates/mdbook-aquascope/src/cache.rs       | 5 +++++
 crates/mdbook-aquascope/src/permissions.rs | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/crates/mdbook-aquascope/src/annotations.rs b/crates/mdbook-aquascope/src/annotations.rs
index 200ef3b..697a159 100644
--- a/crates/mdbook-aquascope/src/annotations.rs
+++ b/crates/mdbook-aquascope/src/annotations.rs
@@ -193,3 +193,8 @@ let y = 2;
     }
   });
 }
+
+#[cfg(aquascope_verif = "annotations")]
+mod verif {
+  include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/mdbook_annotations.rs"));
+}
diff --git a/crates/mdbook-aquascope/src/block.rs b/crates/mdbook-aquascope/src/block.rs
index 4c83399..17a0bc1 100644
--- a/crates/mdbook-aquascope/src/block.rs
+++ b/crates/mdbook-aquascope/src/block.rs
@@ -91,3 +91,8 @@ content!
     annotations: Default::default()
   })]);
 }
+
+#[cfg(aquascope_verif = "block")]
+mod verif {
+  include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/mdbook_block.rs"));
+}
diff --git a/crates/mdbook-aquascope/src/cache.rs b/crates/mdbook-aquascope/src/cache.rs
index 80220dc..18b69fc 100644
--- a/crates/mdbook-aquascope/src/cache.rs
+++ b/crates/mdbook-aquascope/src/cache.rs
@@ -75,3 +75,8 @@ impl<K: Hash, V: Serialize + DeserializeOwned> Cache<K, V> {
     Ok(())
   }
 }
+
+#[cfg(aquascope_verif = "cache")]
+mod verif {
+  include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/mdbook_cache.rs"));
+}
diff --git a/crates/mdbook-aquascope/src/permissions.rs b/crates/mdbook-aquascope/src/permissions.rs
index 487a9b8..3273b02 100644
--- a/crates/mdbook-aquascope/src/permissions.rs
+++ b/crates/mdbook-aquascope/src/permissions.rs
@@ -73,3 +73,8 @@ mod test {
     parse(s);
   }
 }
+
+#[cfg(aquascope_verif = "permissions")]
+mod verif {
+  include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/mdbook_permissions.rs"));
+}
-- 
2.43.0


From 11cce3c460d2ad430fdb428e58ddc15a72d3f009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:04 +0000
Subject: [PATCH 02/22] fix: count characters, not bytes, for the state
 locations of an Aquascope block

---
 crates/mdbook-aquascope/src/annotations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mdbook-aquascope/src/annotations.rs b/crates/mdbook-aquascope/src/annotations.rs
index 697a159..53f999a 100644
--- a/crates/mdbook-aquascope/src/annotations.rs
+++ b/crates/mdbook-aquascope/src/annotations.rs
@@ -90,7 +90,7 @@ pub fn parse_annotations(code: &str) -> Result<(String, AquascopeAnnotations)> {
     macro_rules! add_fragment {
       ($s:expr) => {
         fragments.push($s);
-        idx += $s.len();
+        idx += $s.chars().count();
       };
     }
     if let Some(suffix) = line.strip_prefix('#') {
-- 
2.43.0


From 229d78689aa7c65df08952b88d39041da58dfade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:04 +0000
Subject: [PATCH 03/22] fix: report an unknown @Perm option as an error instead
 of panicking

---
 crates/mdbook-aquascope/src/permissions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mdbook-aquascope/src/permissions.rs b/crates/mdbook-aquascope/src/permissions.rs
index 3273b02..ff79176 100644
--- a/crates/mdbook-aquascope/src/permissions.rs
+++ b/crates/mdbook-aquascope/src/permissions.rs
@@ -33,7 +33,7 @@ pub fn parse_perms(
             r#"<span class="perm-diff-sub-container"><div class="perm-diff-sub"></div>{perm_html}</span>"#
           ),
           "[missing]" => format!(r#"<span class="perm missing {perm}">{letter}</span>"#),
-          _ => unimplemented!(),
+          option => bail!("Invalid permission option: {option}"),
         },
         None => perm_html,
       };
-- 
2.43.0


From eb01653e634d462a6b7a2004044c12fbe952f8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:19 +0000
Subject: [PATCH 04/22] verif hook: include guarded harness modules in
 aquascope's analyses

---
 crates/aquascope/src/analysis/boundaries/mod.rs        | 5 +++++
 crates/aquascope/src/analysis/ir_mapper/mod.rs         | 5 +++++
 crates/aquascope/src/analysis/mod.rs                   | 5 +++++
 crates/aquascope/src/analysis/permissions/context.rs   | 5 +++++
 crates/aquascope/src/analysis/permissions/flow.rs      | 5 +++++
 crates/aquascope/src/analysis/permissions/mod.rs       | 5 +++++
 crates/aquascope/src/analysis/permissions/output.rs    | 5 +++++
 crates/aquascope/src/analysis/stepper/mod.rs           | 5 +++++
 crates/aquascope/src/analysis/stepper/segmented_mir.rs | 5 +++++
 crates/aquascope/src/analysis/stepper/table_builder.rs | 5 +++++
 crates/aquascope/src/errors/mod.rs                     | 5 +++++
 11 files changed, 55 insertions(+)

diff --git a/crates/aquascope/src/analysis/boundaries/mod.rs b/crates/aquascope/src/analysis/boundaries/mod.rs
index bf4d5f7..030efaf 100644
--- a/crates/aquascope/src/analysis/boundaries/mod.rs
+++ b/crates/aquascope/src/analysis/boundaries/mod.rs
@@ -850,3 +850,8 @@ mod test {
     assert_eq!(Some(1), fuzzy_match(search, haystack));
   }
 }
+
+#[cfg(aquascope_verif = "aq_boundaries")]
+mod verif {
+  include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_boundaries.rs"));
+}
diff --git a/crates/aquascope/src/analysis/ir_mapper/mod.rs b/crates/aquascope/src/analysis/ir_mapper/mod.rs
index 20d1412..2d59e27 100644
--- a/crates/aquascope/src/analysis/ir_mapper/mod.rs
+++ b/crates/aquascope/src/analysis/ir_mapper/mod.rs
@@ -332,3 +332,8 @@ impl<'tcx> MirVisitor<'tcx> for IRMapper<'tcx> {
     self.hir_to_mir.entry(hir_id).or_default().insert(location);
   }
 }
+
+#[cfg(aquascope_verif = "aq_ir_mapper")]
+mod verif {
+  include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_ir_mapper.rs"));
+}
diff --git a/crates/aquascope/src/analysis/mod.rs b/crates/aquascope/src/analysis/mod.rs
index 3b2ded7..ae98a76 100644
--- a/crates/aquascope/src/analysis/mod.rs
+++ b/crates/aquascope/src/analysis/mod.rs
@@ -566,3 +566,8 @@ impl<'tcx> AquascopeAnalysis<'tcx> {
     spans
   }
 }
+
+#[cfg(aquascope_verif = "aq_smooth")]
+mod verif {
+  include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_smooth.rs"));
+}
diff --git a/crates/aquascope/src/analysis/permissions/context.rs b/crates/aquascope/src/analysis/permissions/context.rs
index 4ed2366..deba965 100644
--- a/crates/aquascope/src/analysis/permissions/context.rs
+++ b/crates/aquascope/src/analysis/permissions/context.rs
@@ -495,3 +495,8 @@ impl<'tcx> PermissionsCtxt<'tcx> {
     self.loan_regions = Some(hash);
   }
 }
+
+#[cfg(aquascope_verif = "aq_context")]
+mod verif {
+  include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_context.rs"));
+}
diff --git a/crates/aquascope/src/analysis/permissions/flow.rs b/crates/aquascope/src/analysis/permissions/flow.rs
index c7636d6..bcda110 100644
--- a/crates/aquascope/src/analysis/permissions/flow.rs
+++ b/crates/aquascope/src/analysis/permissions/flow.rs
@@ -489,3 +489,8 @@ pub fn compute_flows(ctxt: &mut PermissionsCtxt) {
     timer.elapsed()
   );
 }
+
+#[cfg(aquascope_verif = "aq_flow")]
+mod verif {
+  include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_flow.rs"));
+}
diff --git a/crates/aquascope/src/analysis/permissions/mod.rs b/crates/aquascope/src/analysis/permissions/mod.rs
index 1d68814..a2976a7 100644
--- a/crates/aquascope/src/analysis/permissions/mod.rs
+++ b/crates/aquascope/src/analysis/permissions/mod.rs
@@ -225,3 +225,8 @@ impl DerefMut for PermissionsDomain<'_> {
     &mut self.0
   }
 }
+
+#[cfg(aquascope_verif = "aq_permissions")]
+mod verif {
+  include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_permissions.rs"));
+}
diff --git a/crates/aquascope/src/analysis/permissions/output.rs b/crates/aquascope/src/analysis/permissions/output.rs
index 18e86ef..798b13b 100644
--- a/crates/aquascope/src/analysis/permissions/output.rs
+++ b/crates/aquascope/src/analysis/permissions/output.rs
@@ -565,3 +565,8 @@ pub fn compute<'tcx>(
 
   ctxt
 }
+
+#[cfg(aquascope_verif = "aq_facts")]
+mod verif {
+  include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_facts.rs"));
+}
diff --git a/crates/aquascope/src/analysis/stepper/mod.rs b/crates/aquascope/src/analysis/stepper/mod.rs
index a796d51..e30ef22 100644
--- a/crates/aquascope/src/analysis/stepper/mod.rs
+++ b/crates/aquascope/src/analysis/stepper/mod.rs
@@ -360,3 +360,8 @@ pub fn compute_permission_steps(
 
   hir_visitor.finalize(analysis, mode)
 }
+
+#[cfg(aquascope_verif = "aq_steps")]
+mod verif {
+  include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_steps.rs"));
+}
diff --git a/crates/aquascope/src/analysis/stepper/segmented_mir.rs b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
index 05d01da..14dcfdf 100644
--- a/crates/aquascope/src/analysis/stepper/segmented_mir.rs
+++ b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
@@ -1080,3 +1080,8 @@ pub(crate) mod test_exts {
     }
   }
 }
+
+#[cfg(aquascope_verif = "aq_segments")]
+mod verif {
+  include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_segments.rs"));
+}
diff --git a/crates/aquascope/src/analysis/stepper/table_builder.rs b/crates/aquascope/src/analysis/stepper/table_builder.rs
index b88b4c7..a46f5a5 100644
--- a/crates/aquascope/src/analysis/stepper/table_builder.rs
+++ b/crates/aquascope/src/analysis/stepper/table_builder.rs
@@ -372,3 +372,8 @@ pub(super) fn prettify_permission_steps<'tcx>(
     })
     .collect::<Vec<_>>()
 }
+
+#[cfg(aquascope_verif = "aq_tables")]
+mod verif {
+  include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_tables.rs"));
+}
diff --git a/crates/aquascope/src/errors/mod.rs b/crates/aquascope/src/errors/mod.rs
index 77fd0f9..b38ba2a 100644
--- a/crates/aquascope/src/errors/mod.rs
+++ b/crates/aquascope/src/errors/mod.rs
@@ -84,3 +84,8 @@ pub fn get_span_of_first_error(def_id: LocalDefId) -> Option<Span> {
       .min_by_key(|s| s.lo())
   })
 }
+
+#[cfg(aquascope_verif = "aq_errors")]
+mod verif {
+  include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_errors.rs"));
+}
-- 
2.43.0


From 9d7d43aad8c459f35db50adc5e8d499afdf3ca2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 05/22] fix: stepper loops forever looking for a switch in an
 empty loop

---
 crates/aquascope/src/analysis/stepper/segmented_mir.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/aquascope/src/analysis/stepper/segmented_mir.rs b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
index 14dcfdf..c24a2b1 100644
--- a/crates/aquascope/src/analysis/stepper/segmented_mir.rs
+++ b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
@@ -526,9 +526,11 @@ impl<'a, 'tcx: 'a> SegmentedMirBuilder<'a, 'tcx> {
       })
     };
 
+    // NOTE: the straight line of blocks can be a cycle, an empty `loop {}`.
+    let mut visited = HashSet::default();
     let mut current = Some(current.block);
     let mut linear_blocks = std::iter::from_fn(move || {
-      let previous = current?;
+      let previous = current.filter(|&b| visited.insert(b))?;
       let ss = self
         .mapper
         .cleaned_graph
-- 
2.43.0


From c3409032f239df2146f9b7cd68162ad0096d9efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 06/22] fix: closing a branch with an implicit child closes
 nothing

Union by rank makes the child's key the root, which the parent's own key was compared with.
---
 crates/aquascope/src/analysis/stepper/segmented_mir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aquascope/src/analysis/stepper/segmented_mir.rs b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
index c24a2b1..088261e 100644
--- a/crates/aquascope/src/analysis/stepper/segmented_mir.rs
+++ b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
@@ -689,7 +689,7 @@ impl<'a, 'tcx: 'a> SegmentedMirBuilder<'a, 'tcx> {
   /// Contrary to previous implementations, the function does not implicitly
   /// add a new segment for all split steps.
   pub fn close_branch(&mut self, bid: BranchId) -> Result<()> {
-    let table_root = self.branches[bid].table_id;
+    let table_root = self.branch_roots.find(self.branches[bid].table_id);
 
     let branches_to_close = self
       .branches
-- 
2.43.0


From ad3ace70444aebcb5dda65cd8d99263a51938dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 07/22] fix: stepper panics when an implicit branch has an
 implicit child

---
 .../src/analysis/stepper/segmented_mir.rs        | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/aquascope/src/analysis/stepper/segmented_mir.rs b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
index 088261e..097f41f 100644
--- a/crates/aquascope/src/analysis/stepper/segmented_mir.rs
+++ b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
@@ -72,6 +72,8 @@
 //! feel free to start at the [`SegmentedMirBuilder::insert`] function and explore
 //! from there.
 
+use std::rc::Rc;
+
 use anyhow::{anyhow, bail, ensure, Result};
 use rustc_data_structures::{
   frozen::Frozen,
@@ -213,7 +215,7 @@ enum FindResult {
 struct OpenCollections(Vec<CollectionBuilder>);
 
 type BranchSpannerMap<'a> =
-  HashMap<BranchId, Box<dyn Fn(&mut Location) -> Span + 'a>>;
+  HashMap<BranchId, Rc<dyn Fn(&mut Location) -> Span + 'a>>;
 
 pub(super) struct SegmentedMirBuilder<'a, 'tcx: 'a> {
   mapper: &'a IRMapper<'tcx>,
@@ -352,7 +354,7 @@ impl SegmentedMir {
 
 enum GetSpanner<'a> {
   GetFrom(BranchId),
-  InsertNew(Box<dyn Fn(&mut Location) -> Span + 'a>),
+  InsertNew(Rc<dyn Fn(&mut Location) -> Span + 'a>),
 }
 
 impl<'a, 'tcx: 'a> SegmentedMirBuilder<'a, 'tcx> {
@@ -592,12 +594,10 @@ impl<'a, 'tcx: 'a> SegmentedMirBuilder<'a, 'tcx> {
 
     // Save the Location -> Span mappings under this root BranchId.
     let get_span = match get_span {
-      GetSpanner::InsertNew(b) => {
-        self.root_mappings.insert(bid, b);
-        &self.root_mappings[&bid]
-      }
-      GetSpanner::GetFrom(bid) => &self.root_mappings[&bid],
+      GetSpanner::InsertNew(f) => f,
+      GetSpanner::GetFrom(parent) => self.root_mappings[&parent].clone(),
     };
+    self.root_mappings.insert(bid, get_span.clone());
 
     // Push the new Branch as a control flow kind on
     // the current collection's data set.
@@ -664,7 +664,7 @@ impl<'a, 'tcx: 'a> SegmentedMirBuilder<'a, 'tcx> {
     log::debug!("opening user initiated branch at {location:?}");
     log::debug!("open branches BEFORE {:#?}", self.processing);
 
-    let r = self.mk_branch(location, GetSpanner::InsertNew(Box::new(get_span)));
+    let r = self.mk_branch(location, GetSpanner::InsertNew(Rc::new(get_span)));
 
     log::debug!("open branches AFTER {:#?}", self.processing);
     r
-- 
2.43.0


From bf0429d6ae38bbeeb64df9ed2cc7fb03f5c21be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 08/22] fix: stepper recurses forever when an implicit branch
 does not lead to the step's location

---
 .../src/analysis/stepper/segmented_mir.rs        | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/aquascope/src/analysis/stepper/segmented_mir.rs b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
index 097f41f..69f85ca 100644
--- a/crates/aquascope/src/analysis/stepper/segmented_mir.rs
+++ b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
@@ -812,6 +812,22 @@ impl<'a, 'tcx: 'a> SegmentedMirBuilder<'a, 'tcx> {
       //      that compile to a series of `switchInt`s.
       FindResult::NonLinear(parent, branch_loc) => {
         self.open_child_branch(parent, branch_loc)?;
+
+        // If the branch doesn't lead to the location (it's only reached from
+        // some of the targets and the branch has no join point) then opening
+        // the same branch again won't help.
+        if let FindResult::NonLinear(_, loc) =
+          self.find_suitable_collection(location)
+          && loc == branch_loc
+        {
+          log::warn!(
+            "no suitable collection for location {location:?} {:#?}",
+            self.processing
+          );
+
+          return Ok(());
+        }
+
         self.insert(location, path_hint, span)
       }
 
-- 
2.43.0


From 4c356f878943aeb650c7d45d97264905d4f23052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:05 +0000
Subject: [PATCH 09/22] fix: judge mutability by the pointers a place lies
 behind, through boxes too

---
 .../src/analysis/permissions/output.rs        | 49 ++++++++++---------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/crates/aquascope/src/analysis/permissions/output.rs b/crates/aquascope/src/analysis/permissions/output.rs
index 798b13b..a315856 100644
--- a/crates/aquascope/src/analysis/permissions/output.rs
+++ b/crates/aquascope/src/analysis/permissions/output.rs
@@ -18,7 +18,7 @@ use rustc_hir::{BodyId, Mutability};
 use rustc_index::IndexVec;
 use rustc_middle::{
   mir::{Place, ProjectionElem},
-  ty::{TyCtxt, TypingEnv},
+  ty::{self, TyCtxt, TypingEnv},
 };
 use rustc_mir_dataflow::move_paths::MoveData;
 use rustc_utils::{BodyExt, PlaceExt};
@@ -360,29 +360,32 @@ pub fn derive_permission_facts(ctxt: &mut PermissionsCtxt) {
 
   let is_never_write = |path: Path| {
     let place = &ctxt.path_to_place(path);
-    (!place.is_indirect() && ctxt.is_declared_readonly(place)) || {
-      // Iff there exists an immutable prefix it is also `never_write`
-      place
-        .iter_projections()
-        .filter_map(|(prefix, elem)| {
-          matches!(elem, ProjectionElem::Deref).then_some(prefix)
-        })
-        .any(|prefix| {
-          // For a given path `*x` we could be looking at the prefix of
-          // `x`. This could be a reference, in which case we simply check
-          // the mutability of the type.
-          let ty = prefix.ty(&body.local_decls, tcx).ty;
-          if let Some(mutability) = ty.ref_mutability() {
-            return mutability == Mutability::Not;
-          }
-
-          // In the above example of `*x`, example `x` could also be a
-          // `Box`, or for a different base path an array. These cases
-          // would require us to check the mutability binding of the local.
-          let local_place = Place::from_local(prefix.local, tcx);
-          ctxt.is_declared_readonly(&local_place)
-        })
+
+    // What a `Box` (or a field, or an array) owns is as mutable as its owner, which
+    // is finally the local. What lies behind a reference or a raw pointer
+    // is as mutable as that pointer, no matter the mutability of the local.
+    let mut never_write = ctxt.is_declared_readonly(place);
+    let mut is_shared = false;
+    for (prefix, elem) in place.iter_projections() {
+      if !matches!(elem, ProjectionElem::Deref) {
+        continue;
+      }
+
+      match prefix.ty(&body.local_decls, tcx).ty.kind() {
+        ty::Ref(_, _, Mutability::Mut) => never_write = is_shared,
+        ty::RawPtr(_, Mutability::Mut) => {
+          is_shared = false;
+          never_write = false;
+        }
+        ty::Ref(_, _, Mutability::Not) | ty::RawPtr(_, Mutability::Not) => {
+          is_shared = true;
+          never_write = true;
+        }
+        _ => {}
+      }
     }
+
+    never_write
   };
 
   // .decl loan_conflicts_with(Loan, Path)
-- 
2.43.0


From 0a73f497dfa9181e58f850663fc84f7b68649977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:05 +0000
Subject: [PATCH 10/22] fix: a box's content can be moved out of it

---
 crates/aquascope/src/analysis/permissions/context.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/aquascope/src/analysis/permissions/context.rs b/crates/aquascope/src/analysis/permissions/context.rs
index deba965..a19974b 100644
--- a/crates/aquascope/src/analysis/permissions/context.rs
+++ b/crates/aquascope/src/analysis/permissions/context.rs
@@ -245,7 +245,13 @@ impl<'tcx> PermissionsCtxt<'tcx> {
   /// <https://doc.rust-lang.org/nightly/nightly-rustc/src/rustc_mir_dataflow/move_paths/builder.rs.html#100>
   pub fn is_path_drop_enabled(&self, path: Path) -> bool {
     let place = self.path_to_place(path);
-    let is_indirect = place.is_indirect();
+    let body = &self.body_with_facts.body;
+    let tcx = self.tcx;
+    // A `Box` owns its content, which can be moved out of it.
+    let is_indirect = place.iter_projections().any(|(prefix, elem)| {
+      matches!(elem, ProjectionElem::Deref)
+        && !prefix.ty(&body.local_decls, tcx).ty.is_box()
+    });
     let contains_array_index = place.iter_projections().any(|(_, elem)| {
       matches!(
         elem,
@@ -264,8 +270,6 @@ impl<'tcx> PermissionsCtxt<'tcx> {
     let has_adt_prefix_with_dtor = || {
       place.projection.iter().enumerate().any(|(i, _)| {
         let proj_base = &place.projection[.. i];
-        let body = &self.body_with_facts.body;
-        let tcx = self.tcx;
         let place_ty = Place::ty_from(place.local, proj_base, body, tcx).ty;
         matches!(place_ty.kind(),
           ty::Adt(adt, _) if adt.has_dtor(tcx) && !adt.is_box())
-- 
2.43.0


From 375878547309efabe24b036674b81d847acb8a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 11/22] fix: moves were shown only where their span is empty

---
 crates/aquascope/src/analysis/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/aquascope/src/analysis/mod.rs b/crates/aquascope/src/analysis/mod.rs
index ae98a76..a505f9e 100644
--- a/crates/aquascope/src/analysis/mod.rs
+++ b/crates/aquascope/src/analysis/mod.rs
@@ -321,7 +321,7 @@ impl<'tcx> AquascopeAnalysis<'tcx> {
 
   pub fn is_span_visible(&self, span: Span) -> bool {
     // let source_map = self.permissions.tcx.sess.source_map();
-    span.is_dummy() || span.is_empty() // || !span.is_visible(source_map)
+    !(span.is_dummy() || span.is_empty()) // || !span.is_visible(source_map)
   }
 
   pub fn span_to_range(&self, span: Span) -> CharRange {
@@ -424,6 +424,7 @@ impl<'tcx> AquascopeAnalysis<'tcx> {
   // be abstracted away better into one generic algorithm.
   fn construct_move_info(&self) -> (MovePoints, MoveRegions) {
     let ctxt = &self.permissions;
+    let body_span = ctxt.body_with_facts.body.span;
     let move_points = ctxt
       .move_data
       .moves
@@ -459,6 +460,7 @@ impl<'tcx> AquascopeAnalysis<'tcx> {
               .filter(|point| ctxt.is_point_operational(*point)),
           )
           .into_iter()
+          .map(|span| span.as_local(body_span).unwrap_or(span))
           .filter(|span| lo <= span.lo())
           .collect::<Vec<_>>();
         let smoothed = smooth_elements(points);
-- 
2.43.0


From 462e083ed1a1f18c4c0b5619bc86b1798385d22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 12/22] fix: a branch's step tables replaced those ending at
 the same location

---
 crates/aquascope/src/analysis/stepper/table_builder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/aquascope/src/analysis/stepper/table_builder.rs b/crates/aquascope/src/analysis/stepper/table_builder.rs
index a46f5a5..8162cf2 100644
--- a/crates/aquascope/src/analysis/stepper/table_builder.rs
+++ b/crates/aquascope/src/analysis/stepper/table_builder.rs
@@ -185,7 +185,9 @@ impl<'a, 'tcx: 'a> TableBuilder<'a, 'tcx> {
 
     // Flatten all tables to the unique `PermissionsDataDiff`s
     // that exist within them.
-    result.extend(temp_middle);
+    for (location, tables) in temp_middle {
+      result.entry(location).or_default().extend(tables);
+    }
 
     // Attach filtered locals
     result.entry(reach.to).or_default().push(Table {
-- 
2.43.0


From 623ff511563a520ce3682ca0e25dba95850bf562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 13/22] fix: flows from several abstract regions needed them to
 outlive each other

---
 .../src/analysis/permissions/flow.rs          | 23 ++++++++-----------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/crates/aquascope/src/analysis/permissions/flow.rs b/crates/aquascope/src/analysis/permissions/flow.rs
index bcda110..4c7854f 100644
--- a/crates/aquascope/src/analysis/permissions/flow.rs
+++ b/crates/aquascope/src/analysis/permissions/flow.rs
@@ -222,21 +222,16 @@ impl RegionFlows {
       return FlowEdgeKind::LocalOutlivesUniversal;
     }
 
-    // If both regions contain abstract, we check that all regions in `from`
-    // are known to outlive those in `to`. Otherwise, there is a
+    // If `to` is abstract, we check that all abstract regions in `from`
+    // are known to outlive it. Otherwise, there is a
     // missing constraint that needs to be specified.
-    if !self
-      .contains_abstract
-      .reachable_from(scc_from)
-      .into_iter()
-      .all(|from| {
-        self
-          .contains_abstract
-          .reachable_from(scc_to)
-          .into_iter()
-          // was `'from: 'to` user-specified?
-          .all(|to| self.specified_flows.contains(to, from))
-      })
+    if self.is_abstract_member(to)
+      && !self
+        .contains_abstract
+        .reachable_from(scc_from)
+        .into_iter()
+        // was `'from: 'to` user-specified?
+        .all(|from| self.specified_flows.contains(scc_to, from))
     {
       return FlowEdgeKind::MissingUniversalConstraint;
     }
-- 
2.43.0


From 426de3f832649bfdc4a733fd95d732356236c5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 14/22] fix: flow analysis panicked on regions bound within the
 return type

---
 crates/aquascope/src/analysis/permissions/flow.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/aquascope/src/analysis/permissions/flow.rs b/crates/aquascope/src/analysis/permissions/flow.rs
index 4c7854f..b07d41c 100644
--- a/crates/aquascope/src/analysis/permissions/flow.rs
+++ b/crates/aquascope/src/analysis/permissions/flow.rs
@@ -384,6 +384,8 @@ pub fn compute_flows(ctxt: &mut PermissionsCtxt) {
     .chain(
       body
         .regions_in_return()
+        // Others are bound within the type, e.g., `fn(&i32) -> &i32`.
+        .filter(|rg| rg.is_var())
         .map(|rg| PoloniusRegionVid::from(rg.as_var())),
     )
     .map(|p| scc_constraints.scc(p))
-- 
2.43.0


From c5509920937e700a84946c78ba9bf83a09a7150a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 15/22] fix: outlives bounds were not transitive through
 regions that a body does not use

---
 .../aquascope/src/analysis/permissions/flow.rs  | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/aquascope/src/analysis/permissions/flow.rs b/crates/aquascope/src/analysis/permissions/flow.rs
index b07d41c..c1dfded 100644
--- a/crates/aquascope/src/analysis/permissions/flow.rs
+++ b/crates/aquascope/src/analysis/permissions/flow.rs
@@ -396,12 +396,19 @@ pub fn compute_flows(ctxt: &mut PermissionsCtxt) {
   // We filter the placeholders because the `known_placeholder_subset` contains a
   // top and bottom of the abstract lattice, but we only care about those
   // that actually appear in the body.
-  let placeholder_edges = ctxt
-    .polonius_input_facts
-    .known_placeholder_subset
+  // Two of those may be related only via others that don't.
+  let mut known_subset = TransitiveRelationBuilder::default();
+  for &(f, t) in &ctxt.polonius_input_facts.known_placeholder_subset {
+    known_subset.add(f, t);
+  }
+  let known_subset = known_subset.freeze();
+  let placeholder_edges = vertices
     .iter()
-    .filter(|(f, t)| vertices.contains(f) && vertices.contains(t))
-    .map(|&(f, t)| (scc_constraints.scc(f), scc_constraints.scc(t)))
+    .flat_map(|&f| {
+      known_subset.reachable_from(f).into_iter().map(move |t| (f, t))
+    })
+    .filter(|(_, t)| vertices.contains(t))
+    .map(|(f, t)| (scc_constraints.scc(f), scc_constraints.scc(t)))
     .chain(placeholders.iter().map(|&o| (o, o)))
     .collect::<Vec<_>>();
 
-- 
2.43.0


From ba17ac630d4d7ce76335be5aba08a1ff4c05c495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:51 +0000
Subject: [PATCH 16/22] fix: pointers to fields are located by the layout's
 offsets

Fields are reordered and padded by the compiler, so a running sum of their sizes
missed the target and panicked. The index is that of the shown fields, which omit
those of size zero. Captures of closures are located as well, and pointers into
enums lead to the enum instead of panicking.
---
 .../aquascope/src/interpreter/miri_utils.rs   | 64 ++++++++++---------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/crates/aquascope/src/interpreter/miri_utils.rs b/crates/aquascope/src/interpreter/miri_utils.rs
index 12078da..e1bbfb6 100644
--- a/crates/aquascope/src/interpreter/miri_utils.rs
+++ b/crates/aquascope/src/interpreter/miri_utils.rs
@@ -53,7 +53,35 @@ struct AddressLocator<'a, 'tcx> {
 }
 
 impl<'tcx> AddressLocator<'_, 'tcx> {
-  fn locate(&mut self, layout: TyAndLayout<'tcx>, mut offset: u64) {
+  /// Continues in the field that holds the target. A field's place is up to its layout: the
+  /// compiler reorders fields, and leaves padding between them.
+  ///
+  /// The segment is the field's index in the value that is shown, see `Reader::read`.
+  fn locate_in_fields(
+    &mut self,
+    layout: TyAndLayout<'tcx>,
+    offset: u64,
+    zst_shown: bool,
+  ) {
+    let mut shown = 0;
+    for i in 0 .. layout.fields.count() {
+      let field = layout.field(self.ecx, i);
+      let start = offset + layout.fields.offset(i).bytes();
+      if start <= self.target && self.target < start + field.size.bytes() {
+        self
+          .segments
+          .push(PlaceElem::Field(FieldIdx::from_usize(shown), field.ty));
+        self.locate(field, start);
+        break;
+      }
+
+      if zst_shown || !field.is_zst() {
+        shown += 1;
+      }
+    }
+  }
+
+  fn locate(&mut self, layout: TyAndLayout<'tcx>, offset: u64) {
     if offset == self.target {
       return;
     }
@@ -66,22 +94,10 @@ impl<'tcx> AddressLocator<'_, 'tcx> {
         match adt_def.adt_kind() {
           AdtKind::Struct => match name.as_str() {
             "String" | "Vec" => {}
-            _ => {
-              for (i, _field) in adt_def.all_fields().enumerate() {
-                let field = layout.field(self.ecx, i);
-                if offset + field.size.bytes() > self.target {
-                  self
-                    .segments
-                    .push(PlaceElem::Field(FieldIdx::from_usize(i), field.ty));
-                  self.locate(field, offset);
-                  break;
-                }
-
-                offset += field.size.bytes();
-              }
-            }
+            _ => self.locate_in_fields(layout, offset, false),
           },
-          AdtKind::Enum => todo!(),
+          // The layout doesn't tell the variant: this leads to the enum itself.
+          AdtKind::Enum => {}
           _ => {}
         }
       }
@@ -102,20 +118,8 @@ impl<'tcx> AddressLocator<'_, 'tcx> {
         self.locate(elem, offset + array_offset);
       }
 
-      TyKind::Tuple(tys) => {
-        // dbg!(("tuple", offset, target));
-        for i in 0 .. tys.len() {
-          let field = layout.field(self.ecx, i);
-          if offset + field.size.bytes() > self.target {
-            self
-              .segments
-              .push(PlaceElem::Field(FieldIdx::from_usize(i), field.ty));
-            self.locate(field, offset);
-            break;
-          }
-
-          offset += field.size.bytes();
-        }
+      TyKind::Tuple(_) | TyKind::Closure(..) => {
+        self.locate_in_fields(layout, offset, true);
       }
 
       _ if ty.is_primitive() || ty.is_any_ptr() => {
-- 
2.43.0


From 6c4d2dcd8be974164097a5b1e5d958b976545b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:51 +0000
Subject: [PATCH 17/22] fix: paths into arrays on the heap name the element,
 slices end where they do

A vector or string of one element was taken for its element, and the end of a slice
was computed as if its length were in bytes.
---
 .../aquascope/src/interpreter/miri_utils.rs   |  9 +++----
 crates/aquascope/src/interpreter/mvalue.rs    | 26 +++++++++++--------
 crates/aquascope/src/interpreter/step.rs      |  3 ++-
 3 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/crates/aquascope/src/interpreter/miri_utils.rs b/crates/aquascope/src/interpreter/miri_utils.rs
index e1bbfb6..23b4099 100644
--- a/crates/aquascope/src/interpreter/miri_utils.rs
+++ b/crates/aquascope/src/interpreter/miri_utils.rs
@@ -134,11 +134,10 @@ impl<'tcx> AddressLocator<'_, 'tcx> {
 pub fn locate_address_in_type<'tcx>(
   ecx: &InterpCx<'tcx, miri::MiriMachine<'tcx>>,
   alloc_layout: TyAndLayout<'tcx>,
-  alloc_size: Size,
+  alloc_is_array: bool,
   mplace: MPlaceTy<'tcx>,
   target: Size,
 ) -> Vec<PlaceElem<'tcx>> {
-  // dbg!((alloc_layout, alloc_size, mplace, target));
   let mut locator = AddressLocator {
     ecx,
     target: target.bytes(),
@@ -146,7 +145,7 @@ pub fn locate_address_in_type<'tcx>(
   };
 
   let mut offset = 0;
-  if alloc_layout.size.bytes() < alloc_size.bytes() {
+  if alloc_is_array {
     let array_elem_size = alloc_layout.size.bytes();
     assert!(
       array_elem_size > 0,
@@ -159,8 +158,8 @@ pub fn locate_address_in_type<'tcx>(
 
     let segment = match mplace.meta() {
       MemPlaceMeta::Meta(meta) => {
-        let end_offset = meta.to_u64().unwrap();
-        let to = index + end_offset / array_elem_size - 1;
+        let len = meta.to_u64().unwrap();
+        let to = (index + len).saturating_sub(1);
         PlaceElem::Subslice {
           from: index,
           to,
diff --git a/crates/aquascope/src/interpreter/mvalue.rs b/crates/aquascope/src/interpreter/mvalue.rs
index b3dc45a..a584606 100644
--- a/crates/aquascope/src/interpreter/mvalue.rs
+++ b/crates/aquascope/src/interpreter/mvalue.rs
@@ -149,15 +149,15 @@ struct Reader<'a, 'tcx> {
 impl<'tcx> Reader<'_, 'tcx> {
   fn get_path_segments(
     &mut self,
-    alloc_size: Size,
     alloc_layout: TyAndLayout<'tcx>,
+    alloc_is_array: bool,
     mplace: MPlaceTy<'tcx>,
     target: Size,
   ) -> Vec<MPathSegment> {
     let segments = locate_address_in_type(
       &self.ev.ecx,
       alloc_layout,
-      alloc_size,
+      alloc_is_array,
       mplace,
       target,
     );
@@ -230,7 +230,7 @@ impl<'tcx> Reader<'_, 'tcx> {
       // Generate a corresponding `MMemorySegment` that locates the base allocation,
       // and a `TyAndLayout` that describes the allocation's entire layout.
       let mut memory_map = self.ev.memory_map.borrow_mut();
-      let (segment, layout) = match memory_kind {
+      let (segment, layout, is_array) = match memory_kind {
         MemoryKind::Stack => {
           // Look up the stack layout in `MemoryMap::stack_slots` which are generated
           // in `VisEvaluator::build_heap`.
@@ -244,7 +244,7 @@ impl<'tcx> Reader<'_, 'tcx> {
                 });
               }
             };
-          (MMemorySegment::Stack { frame, local }, layout)
+          (MMemorySegment::Stack { frame, local }, layout, false)
         }
         MemoryKind::Machine(..) => {
           // Add this value to the heap, assuming that the layout is the same as `mplace`.
@@ -255,27 +255,31 @@ impl<'tcx> Reader<'_, 'tcx> {
           let index = memory_map.heap.locations.len();
           memory_map.heap.locations.push(mvalue);
 
-          let layout = match self.heap_alloc_kinds.last() {
-            Some(HeapAllocKind::Vec { el_ty, .. }) => *el_ty,
-            _ => mplace.layout,
+          // The contents of strings and vectors are shown as arrays, even if of one element.
+          let (layout, is_array) = match self.heap_alloc_kinds.last() {
+            Some(HeapAllocKind::Vec { el_ty, .. }) => (*el_ty, true),
+            Some(HeapAllocKind::String { .. }) => (mplace.layout, true),
+            _ => (mplace.layout, mplace.layout.size < alloc_info.size),
           };
 
-          (MMemorySegment::Heap { index }, layout)
+          (MMemorySegment::Heap { index }, layout, is_array)
         }
         _ => unimplemented!(),
       };
 
-      memory_map.place_to_loc.insert(alloc_id, (segment, layout));
+      memory_map
+        .place_to_loc
+        .insert(alloc_id, (segment, layout, is_array));
     }
 
-    let (segment, alloc_layout) =
+    let (segment, alloc_layout, alloc_is_array) =
       self.ev.memory_map.borrow().place_to_loc[&alloc_id].clone();
 
     // The pointer could point anywhere inside the allocation, so we use
     // `get_path_segments` to reverse-engineer a path from the memory location.
     let meta = mplace.meta();
     let parts =
-      self.get_path_segments(alloc_info.size, alloc_layout, mplace, offset);
+      self.get_path_segments(alloc_layout, alloc_is_array, mplace, offset);
     let path = MPath { segment, parts };
 
     let range = match meta {
diff --git a/crates/aquascope/src/interpreter/step.rs b/crates/aquascope/src/interpreter/step.rs
index 5ca2758..7c4e57d 100644
--- a/crates/aquascope/src/interpreter/step.rs
+++ b/crates/aquascope/src/interpreter/step.rs
@@ -99,8 +99,9 @@ pub(crate) type MirLoc<'tcx> = (Instance<'tcx>, Either<Location, Span>);
 #[derive(Default)]
 pub(crate) struct MemoryMap<'tcx> {
   pub(crate) heap: MHeap,
+  /// An allocation's segment, its layout, and whether it is an array of such
   pub(crate) place_to_loc:
-    HashMap<AllocId, (MMemorySegment, TyAndLayout<'tcx>)>,
+    HashMap<AllocId, (MMemorySegment, TyAndLayout<'tcx>, bool)>,
   pub(crate) stack_slots: HashMap<AllocId, (usize, String, TyAndLayout<'tcx>)>,
   pub(crate) alloc_id_remapping: HashMap<AllocId, usize>,
 }
-- 
2.43.0


From e84780693ed6a2f739f4ad3be31d99d45ce5a344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:51 +0000
Subject: [PATCH 18/22] fix: dead allocations keep their ids in all steps and
 the result

The ids were forgotten after every step, so a use after free always named id 0.
---
 crates/aquascope/src/interpreter/step.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/aquascope/src/interpreter/step.rs b/crates/aquascope/src/interpreter/step.rs
index 7c4e57d..c4e0b67 100644
--- a/crates/aquascope/src/interpreter/step.rs
+++ b/crates/aquascope/src/interpreter/step.rs
@@ -4,6 +4,7 @@ use std::{
   cell::RefCell,
   cmp::Ordering,
   collections::{HashMap, HashSet},
+  mem,
 };
 
 use anyhow::{anyhow, bail, Context, Result};
@@ -458,7 +459,14 @@ impl<'tcx> VisEvaluator<'tcx> {
   }
 
   fn build_heap(&self) -> MHeap {
-    self.memory_map.replace(MemoryMap::default()).heap
+    // The ids of dead allocations have to be the same in all steps and in the result.
+    let mut memory_map = self.memory_map.borrow_mut();
+    let alloc_id_remapping = mem::take(&mut memory_map.alloc_id_remapping);
+    let old_map = mem::replace(&mut *memory_map, MemoryMap {
+      alloc_id_remapping,
+      ..Default::default()
+    });
+    old_map.heap
   }
 
   fn build_step(
-- 
2.43.0


From abb6e962c55652b0fdfe1bc6573dc29169381425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:51 +0000
Subject: [PATCH 19/22] fix: undefined behavior is reported as the trace's
 result

Its message is to be translated, taking it for a plain string panicked.
---
 crates/aquascope/src/interpreter/step.rs | 29 ++++++++++++------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/crates/aquascope/src/interpreter/step.rs b/crates/aquascope/src/interpreter/step.rs
index c4e0b67..a492e31 100644
--- a/crates/aquascope/src/interpreter/step.rs
+++ b/crates/aquascope/src/interpreter/step.rs
@@ -16,7 +16,7 @@ use miri::{
   MiriConfig, MiriMachine, OpTy, UndefinedBehaviorInfo,
 };
 use rustc_abi::{FieldsShape, Size};
-use rustc_const_eval::ReportErrorExt;
+use rustc_const_eval::interpret::format_interp_error;
 use rustc_hir::def_id::DefId;
 use rustc_middle::{
   mir::{
@@ -186,9 +186,7 @@ impl<'tcx> VisEvaluator<'tcx> {
       ..Default::default()
     })
     .report_err()
-    .map_err(|e| {
-      anyhow!("{}", e.into_kind().diagnostic_message().as_str().unwrap())
-    })?;
+    .map_err(|e| anyhow!("{}", format_interp_error(tcx.dcx(), e)))?;
 
     // Ensures we get nice backtraces from miri evaluation errors
     *tcx.sess.ctfe_backtrace.borrow_mut() = CtfeBacktrace::Capture;
@@ -634,18 +632,19 @@ impl<'tcx> VisEvaluator<'tcx> {
   ) -> Result<MUndefinedBehavior> {
     use UndefinedBehaviorInfo::PointerUseAfterFree;
 
-    Ok(match e.into_kind() {
-      InterpErrorKind::UndefinedBehavior(ub) => match ub {
-        PointerUseAfterFree(alloc_id, _) => {
-          MUndefinedBehavior::PointerUseAfterFree {
-            alloc_id: self.remap_alloc_id(alloc_id),
-          }
+    // The messages are to be translated, they aren't plain strings.
+    let message = |e| format_interp_error(self.ecx.tcx.dcx(), e);
+
+    Ok(match e.kind() {
+      InterpErrorKind::UndefinedBehavior(PointerUseAfterFree(alloc_id, _)) => {
+        MUndefinedBehavior::PointerUseAfterFree {
+          alloc_id: self.remap_alloc_id(*alloc_id),
         }
-        ub => MUndefinedBehavior::Other(
-          ub.diagnostic_message().as_str().unwrap().to_string(),
-        ),
-      },
-      err => bail!("{}", err.diagnostic_message().as_str().unwrap()),
+      }
+      InterpErrorKind::UndefinedBehavior(_) => {
+        MUndefinedBehavior::Other(message(e))
+      }
+      _ => bail!("{}", message(e)),
     })
   }
 
-- 
2.43.0


From 1ab1ef9cbabbb2a88115ded3f9ade3a1dcdb49fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:51 +0000
Subject: [PATCH 20/22] fix: a local is shown as moved until it is assigned
 again

Moves were never forgotten, and those of locals in memory never recorded.
---
 crates/aquascope/src/interpreter/step.rs | 129 +++++++++++++++--------
 1 file changed, 85 insertions(+), 44 deletions(-)

diff --git a/crates/aquascope/src/interpreter/step.rs b/crates/aquascope/src/interpreter/step.rs
index a492e31..05d3c5f 100644
--- a/crates/aquascope/src/interpreter/step.rs
+++ b/crates/aquascope/src/interpreter/step.rs
@@ -20,8 +20,9 @@ use rustc_const_eval::interpret::format_interp_error;
 use rustc_hir::def_id::DefId;
 use rustc_middle::{
   mir::{
-    self, visit::Visitor, Local, Location, Place, PlaceElem,
-    VarDebugInfoContents, RETURN_PLACE,
+    visit::{MutatingUseContext, NonUseContext, PlaceContext, Visitor},
+    Local, Location, Operand, Place, PlaceElem, VarDebugInfoContents,
+    RETURN_PLACE,
   },
   ty::{
     layout::{HasTyCtxt, TyAndLayout},
@@ -107,36 +108,90 @@ pub(crate) struct MemoryMap<'tcx> {
   pub(crate) alloc_id_remapping: HashMap<AllocId, usize>,
 }
 
-pub struct MovedPlaces<'tcx>(Vec<HashSet<Place<'tcx>>>);
+/// The places of a frame that were moved out of since they were last assigned
+#[derive(Default)]
+struct FrameMoves<'tcx> {
+  places: HashSet<Place<'tcx>>,
+  /// The caller's local that is assigned once this frame returns
+  destination: Option<Local>,
+}
+
+pub struct MovedPlaces<'tcx>(Vec<FrameMoves<'tcx>>);
 
 impl<'tcx> MovedPlaces<'tcx> {
   pub fn new() -> Self {
-    MovedPlaces(vec![HashSet::new()])
+    MovedPlaces(vec![FrameMoves::default()])
   }
 
   pub fn places_at(
     &self,
     index: usize,
   ) -> impl Iterator<Item = Place<'tcx>> + '_ {
-    self.0[index].iter().copied()
+    self.0[index].places.iter().copied()
   }
 
-  pub fn add_place(&mut self, frame: usize, place: Place<'tcx>) {
+  fn frame_mut(&mut self, frame: usize) -> &mut FrameMoves<'tcx> {
     self
       .0
       .get_mut(frame)
-      .unwrap_or_else(|| {
-        panic!("Tried to insert place at missing frame: {frame}")
-      })
-      .insert(place);
+      .unwrap_or_else(|| panic!("Missing frame: {frame}"))
+  }
+
+  pub fn add_place(&mut self, frame: usize, place: Place<'tcx>) {
+    self.frame_mut(frame).places.insert(place);
+  }
+
+  /// The local has a new value (or none yet), so it isn't moved out of.
+  pub fn assign_local(&mut self, frame: usize, local: Local) {
+    self
+      .frame_mut(frame)
+      .places
+      .retain(|place| place.local != local);
   }
 
-  pub fn push_frame(&mut self) {
-    self.0.push(HashSet::new());
+  pub fn push_frame(&mut self, destination: Option<Local>) {
+    self.0.push(FrameMoves {
+      destination,
+      ..FrameMoves::default()
+    });
   }
 
   pub fn pop_frame(&mut self) {
-    self.0.pop();
+    let frame = self.0.pop();
+    if let Some(local) = frame.and_then(|frame| frame.destination) {
+      self.assign_local(self.0.len() - 1, local);
+    }
+  }
+}
+
+/// Which places a statement or terminator moves out of, and which locals it assigns
+#[derive(Default)]
+struct CollectMoves<'tcx> {
+  moved: Vec<Place<'tcx>>,
+  assigned: Vec<Local>,
+}
+
+impl<'tcx> Visitor<'tcx> for CollectMoves<'tcx> {
+  fn visit_operand(&mut self, operand: &Operand<'tcx>, _location: Location) {
+    if let Operand::Move(place) = operand {
+      self.moved.push(*place);
+    }
+  }
+
+  fn visit_local(
+    &mut self,
+    local: Local,
+    context: PlaceContext,
+    _location: Location,
+  ) {
+    if matches!(
+      context,
+      PlaceContext::MutatingUse(
+        MutatingUseContext::Store | MutatingUseContext::Call
+      ) | PlaceContext::NonUse(NonUseContext::StorageLive)
+    ) {
+      self.assigned.push(local);
+    }
   }
 }
 
@@ -503,49 +558,32 @@ impl<'tcx> VisEvaluator<'tcx> {
       })
   }
 
-  fn collect_moves(&self) -> InterpResult<'tcx, Vec<Place<'tcx>>> {
-    let stack = Machine::stack(&self.ecx);
-    let Some(frame) = stack.last() else {
-      return interp_ok(Vec::new());
-    };
-    let Either::Left(loc) = frame.current_loc() else {
-      return interp_ok(Vec::new());
-    };
-
-    struct CollectMoves<'tcx> {
-      places: Vec<Place<'tcx>>,
-    }
-
-    impl<'tcx> Visitor<'tcx> for CollectMoves<'tcx> {
-      fn visit_operand(
-        &mut self,
-        operand: &mir::Operand<'tcx>,
-        _location: Location,
-      ) {
-        if let mir::Operand::Move(place) = operand {
-          self.places.push(*place);
-        }
+  fn collect_moves(&self) -> CollectMoves<'tcx> {
+    let mut collector = CollectMoves::default();
+    if let Some(frame) = Machine::stack(&self.ecx).last() {
+      if let Either::Left(loc) = frame.current_loc() {
+        collector.visit_location(frame.body(), loc);
       }
     }
-
-    let mut collector = CollectMoves { places: Vec::new() };
-    collector.visit_location(frame.body(), loc);
-
-    interp_ok(collector.places)
+    collector
   }
 
   fn handle_moves(
     &mut self,
     n_frames: usize,
-    moves: Vec<Place<'tcx>>,
+    CollectMoves { moved, assigned }: CollectMoves<'tcx>,
   ) -> InterpResult<'tcx, ()> {
     let n_frames_after = Machine::stack(&self.ecx).len();
     let mut moved_places = self.moved_places.borrow_mut();
     match n_frames_after.cmp(&n_frames) {
-      Ordering::Greater => moved_places.push_frame(),
+      Ordering::Greater => moved_places.push_frame(assigned.first().copied()),
       Ordering::Less => moved_places.pop_frame(),
       Ordering::Equal => {
-        for place in moves {
+        for place in moved {
+          if place.projection.is_empty() {
+            moved_places.add_place(n_frames - 1, place);
+            continue;
+          }
           let place_ty = self.ecx.eval_place(place)?;
           match place_ty.as_mplace_or_local() {
             Either::Left(_mplace) => {
@@ -559,6 +597,9 @@ impl<'tcx> VisEvaluator<'tcx> {
             }
           }
         }
+        for local in assigned {
+          moved_places.assign_local(n_frames - 1, local);
+        }
       }
     }
 
@@ -585,7 +626,7 @@ impl<'tcx> VisEvaluator<'tcx> {
         .get(local_frames.len().wrapping_sub(2))
         .map(|LocalFrame { frame, .. }| frame.current_loc());
 
-      let moves = self.collect_moves()?;
+      let moves = self.collect_moves();
       let n_all_frames: usize = Machine::stack(&self.ecx).len();
       let more_work: bool = self.ecx.step()?;
       self.handle_moves(n_all_frames, moves)?;
-- 
2.43.0


From cf3c8ddfc1eebb69c50048bf042deebb9969f3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:26 +0000
Subject: [PATCH 21/22] verif hook: harness module in the interpreter's steps

---
 crates/aquascope/src/interpreter/step.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/aquascope/src/interpreter/step.rs b/crates/aquascope/src/interpreter/step.rs
index 05d3c5f..5a37e85 100644
--- a/crates/aquascope/src/interpreter/step.rs
+++ b/crates/aquascope/src/interpreter/step.rs
@@ -712,3 +712,8 @@ impl<'tcx> VisEvaluator<'tcx> {
     Ok(MTrace { steps, result })
   }
 }
+
+#[cfg(aquascope_verif = "aq_interp")]
+mod verif {
+  include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_interp.rs"));
+}
-- 
2.43.0


From 4ff69f7df319ff6738d812e0487d5180fd5a2aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:00 +0000
Subject: [PATCH 22/22] fix: a value with padding below its first level counts
 as initialized

---
 crates/aquascope/src/interpreter/step.rs | 46 ++++++++++++++----------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/crates/aquascope/src/interpreter/step.rs b/crates/aquascope/src/interpreter/step.rs
index 5a37e85..e47add3 100644
--- a/crates/aquascope/src/interpreter/step.rs
+++ b/crates/aquascope/src/interpreter/step.rs
@@ -355,25 +355,35 @@ impl<'tcx> VisEvaluator<'tcx> {
       miri::MiriAllocBytes,
     >,
   ) -> bool {
-    // TODO: this should be recursive over the type. Only handles one-step right now.
-    let ranges = match &layout.fields {
-      FieldsShape::Primitive | FieldsShape::Array { .. } => vec![AllocRange {
-        start: Size::ZERO,
-        size: allocation.size(),
-      }],
-      FieldsShape::Arbitrary { offsets, .. } => offsets
-        .iter()
-        .enumerate()
-        .map(|(i, offset)| {
-          let field = layout.field(&self.ecx, i);
-          AllocRange {
-            start: *offset,
-            size: field.size,
+    // Padding is never initialized, on any level of the type.
+    let mut ranges = Vec::new();
+    let mut remaining = vec![(Size::ZERO, layout)];
+    while let Some((start, layout)) = remaining.pop() {
+      match &layout.fields {
+        FieldsShape::Array { stride, count } if *count > 0 => {
+          let element = layout.field(&self.ecx, 0);
+          if let FieldsShape::Primitive = element.fields {
+            ranges.push(AllocRange {
+              start,
+              size: layout.size,
+            });
+          } else {
+            remaining
+              .extend((0 .. *count).map(|i| (start + *stride * i, element)));
           }
-        })
-        .collect(),
-      FieldsShape::Union(_) => unimplemented!(),
-    };
+        }
+        FieldsShape::Arbitrary { offsets, .. } => remaining.extend(
+          offsets
+            .iter()
+            .enumerate()
+            .map(|(i, offset)| (start + *offset, layout.field(&self.ecx, i))),
+        ),
+        _ => ranges.push(AllocRange {
+          start,
+          size: layout.size,
+        }),
+      }
+    }
 
     let init_mask = allocation.init_mask();
     ranges
-- 
2.43.0

