From 46ad5d79254a4baca39137f253f23e5043b62e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 01/56] fix: membership queries on models, structures and
 resources were inverted

---
 atelier-core/src/model/mod.rs              | 4 ++--
 atelier-core/src/model/shapes/aggregate.rs | 2 +-
 atelier-core/src/model/shapes/service.rs   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/atelier-core/src/model/mod.rs b/atelier-core/src/model/mod.rs
index de723e8..3fa2bfa 100644
--- a/atelier-core/src/model/mod.rs
+++ b/atelier-core/src/model/mod.rs
@@ -125,7 +125,7 @@ impl Model {
 
     /// Returns `true` if this model's **metadata** collection has a shape with the provided key`, else `false`.
     pub fn has_metadata_value(&self, key: &str) -> bool {
-        !self.metadata.contains_key(key)
+        self.metadata.contains_key(key)
     }
 
     /// Returns the value in this model's **metadata** collection with the provide key.
@@ -189,7 +189,7 @@ impl Model {
 
     /// Returns `true` if this model's **shapes** collection has a shape with the provided `ShapeID`, else `false`.
     pub fn has_shape(&self, shape_id: &ShapeID) -> bool {
-        !self.shapes.contains_key(shape_id)
+        self.shapes.contains_key(shape_id)
     }
 
     /// Returns the shape in this model's **shapes** collection with the provided `ShapeID`.
diff --git a/atelier-core/src/model/shapes/aggregate.rs b/atelier-core/src/model/shapes/aggregate.rs
index e13a341..512a3ef 100644
--- a/atelier-core/src/model/shapes/aggregate.rs
+++ b/atelier-core/src/model/shapes/aggregate.rs
@@ -200,7 +200,7 @@ impl StructureOrUnion {
 
     /// Returns `true` if this structure or union has a member with the given name, else `false`.
     pub fn has_member(&self, member_name: &Identifier) -> bool {
-        !self.members.contains_key(member_name)
+        self.members.contains_key(member_name)
     }
 
     /// Returns the member in the structure or union with the given name, else `None`.
diff --git a/atelier-core/src/model/shapes/service.rs b/atelier-core/src/model/shapes/service.rs
index 9c5827e..1f789e9 100644
--- a/atelier-core/src/model/shapes/service.rs
+++ b/atelier-core/src/model/shapes/service.rs
@@ -171,7 +171,7 @@ impl Resource {
 
     /// Returns `true` if this resource has an identifier with the provided name, else `false`.
     pub fn has_identifier(&self, name: &Identifier) -> bool {
-        !self.identifiers.contains_key(name)
+        self.identifiers.contains_key(name)
     }
 
     /// Returns the identifier's value, which should always be `Value::String`, representing the
-- 
2.43.0


From 22114e151b6fece0a5c841b990ceb2de941f8857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 02/56] fix: hash and order identifiers without regard to case,
 as equality does

---
 atelier-core/src/model/identity.rs | 47 ++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/atelier-core/src/model/identity.rs b/atelier-core/src/model/identity.rs
index ccd0764..c9c4df0 100644
--- a/atelier-core/src/model/identity.rs
+++ b/atelier-core/src/model/identity.rs
@@ -3,8 +3,9 @@ use crate::syntax::{
     SHAPE_ID_ABSOLUTE_SEPARATOR, SHAPE_ID_MEMBER_SEPARATOR, SHAPE_ID_NAMESPACE_SEPARATOR,
 };
 use regex::Regex;
+use std::cmp::Ordering;
 use std::fmt::{Debug, Display, Formatter};
-use std::hash::Hash;
+use std::hash::{Hash, Hasher};
 use std::str::FromStr;
 
 // ------------------------------------------------------------------------------------------------
@@ -18,8 +19,7 @@ use std::str::FromStr;
 ///   [Shape ID ABNF](https://awslabs.github.io/smithy/1.0/spec/core/model.html#shape-id),
 ///   of the Smithy 1.0 Specification.
 ///
-#[allow(clippy::derive_hash_xor_eq)]
-#[derive(Clone, Debug, Eq, PartialOrd, Ord, Hash)]
+#[derive(Clone, Debug, Eq)]
 pub struct Identifier(String);
 
 ///
@@ -30,9 +30,8 @@ pub struct Identifier(String);
 ///   [Shape ID ABNF](https://awslabs.github.io/smithy/1.0/spec/core/model.html#shape-id),
 ///   of the Smithy 1.0 Specification.
 ///
-#[allow(clippy::derive_hash_xor_eq)]
 #[allow(clippy::upper_case_acronyms)]
-#[derive(Clone, Debug, Eq, PartialOrd, Ord, Hash)]
+#[derive(Clone, Debug, Eq)]
 pub struct NamespaceID(String);
 
 ///
@@ -132,6 +131,25 @@ impl PartialEq for Identifier {
     }
 }
 
+// Equality ignores case; hashing and ordering have to agree with it.
+impl Hash for Identifier {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.0.to_lowercase().hash(state)
+    }
+}
+
+impl PartialOrd for Identifier {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for Identifier {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.0.to_lowercase().cmp(&other.0.to_lowercase())
+    }
+}
+
 impl Identifier {
     /// Create a new instance **without** checking that the provided string is a legal identifier.
     pub fn new_unchecked(s: &str) -> Self {
@@ -178,6 +196,25 @@ impl PartialEq for NamespaceID {
     }
 }
 
+// Equality ignores case; hashing and ordering have to agree with it.
+impl Hash for NamespaceID {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.0.to_lowercase().hash(state)
+    }
+}
+
+impl PartialOrd for NamespaceID {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for NamespaceID {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.0.to_lowercase().cmp(&other.0.to_lowercase())
+    }
+}
+
 impl NamespaceID {
     /// Create a new instance **without** checking that the provided string is a legal namespace.
     pub fn new_unchecked(s: &str) -> Self {
-- 
2.43.0


From 5fb985bf389f518d65a73bd929d6fbbeeac4bb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 03/56] fix: comparing aggregates with different member names
 no longer panics

---
 atelier-core/src/model/shapes/mod.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/atelier-core/src/model/shapes/mod.rs b/atelier-core/src/model/shapes/mod.rs
index 714bea5..822ce9c 100644
--- a/atelier-core/src/model/shapes/mod.rs
+++ b/atelier-core/src/model/shapes/mod.rs
@@ -360,18 +360,16 @@ impl NonTraitEq for TopLevelShape {
                 }
                 (ShapeKind::Structure(l), ShapeKind::Structure(r)) => {
                     l.members.keys().count() == r.members.keys().count()
-                        && l.members.keys().all(|k| {
-                            l.member(k)
-                                .unwrap()
-                                .equal_without_traits(r.member(k).unwrap())
+                        && l.members.keys().all(|k| match (l.member(k), r.member(k)) {
+                            (Some(l), Some(r)) => l.equal_without_traits(r),
+                            _ => false,
                         })
                 }
                 (ShapeKind::Union(l), ShapeKind::Union(r)) => {
                     l.members.keys().count() == r.members.keys().count()
-                        && l.members.keys().all(|k| {
-                            l.member(k)
-                                .unwrap()
-                                .equal_without_traits(r.member(k).unwrap())
+                        && l.members.keys().all(|k| match (l.member(k), r.member(k)) {
+                            (Some(l), Some(r)) => l.equal_without_traits(r),
+                            _ => false,
                         })
                 }
                 (ShapeKind::Service(l), ShapeKind::Service(r)) => l == r,
-- 
2.43.0


From 543fd6d25aa0658a3a9678490e352bd1e97dae77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 04/56] fix: merging a shape into an equal one keeps the traits
 of its members

---
 atelier-core/src/model/mod.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/atelier-core/src/model/mod.rs b/atelier-core/src/model/mod.rs
index 3fa2bfa..79f9f4d 100644
--- a/atelier-core/src/model/mod.rs
+++ b/atelier-core/src/model/mod.rs
@@ -233,6 +233,7 @@ impl Model {
                 (false, false) => {
                     if existing.equal_without_traits(&shape) {
                         copy_traits(existing, &shape)?;
+                        copy_member_traits(existing.body_mut(), shape.body())?;
                     } else {
                         error!("Model::add_shape {:?} != {:?}", existing, shape);
                         return Err(ErrorKind::MergeShapeConflict(existing.id().clone()).into());
@@ -309,6 +310,29 @@ fn copy_traits(to_shape: &mut TopLevelShape, from_shape: &TopLevelShape) -> Mode
     Ok(())
 }
 
+fn copy_member_traits(to_body: &mut ShapeKind, from_body: &ShapeKind) -> ModelResult<()> {
+    match (to_body, from_body) {
+        (ShapeKind::List(to), ShapeKind::List(from))
+        | (ShapeKind::Set(to), ShapeKind::Set(from)) => {
+            to.member.append_traits(from.member.traits())?;
+        }
+        (ShapeKind::Map(to), ShapeKind::Map(from)) => {
+            to.key.append_traits(from.key.traits())?;
+            to.value.append_traits(from.value.traits())?;
+        }
+        (ShapeKind::Structure(to), ShapeKind::Structure(from))
+        | (ShapeKind::Union(to), ShapeKind::Union(from)) => {
+            for member in from.members.values() {
+                if let Some(to_member) = to.members.get_mut(member.id()) {
+                    to_member.append_traits(member.traits())?;
+                }
+            }
+        }
+        _ => {}
+    }
+    Ok(())
+}
+
 // ------------------------------------------------------------------------------------------------
 // Modules
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From e6df51638762a26cefe6fc172748c2156c5d20c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 05/56] fix: fail-fast stops running actions after the first
 one that reports an error

---
 atelier-core/src/action/lint/mod.rs     | 9 ++++-----
 atelier-core/src/action/validate/mod.rs | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/atelier-core/src/action/lint/mod.rs b/atelier-core/src/action/lint/mod.rs
index d36518d..2289775 100644
--- a/atelier-core/src/action/lint/mod.rs
+++ b/atelier-core/src/action/lint/mod.rs
@@ -98,12 +98,11 @@ pub fn run_linter_actions(
     for linter in linters.iter_mut() {
         linter.check(model)?;
         let new_issues = linter.issues_mut();
+        let has_errors = new_issues
+            .iter()
+            .any(|issue| issue.level > IssueLevel::Warning);
         issues.append(new_issues);
-        if fail_fast
-            && new_issues
-                .iter()
-                .any(|issue| issue.level > IssueLevel::Warning)
-        {
+        if fail_fast && has_errors {
             break;
         }
     }
diff --git a/atelier-core/src/action/validate/mod.rs b/atelier-core/src/action/validate/mod.rs
index 57e1737..99cf1a5 100644
--- a/atelier-core/src/action/validate/mod.rs
+++ b/atelier-core/src/action/validate/mod.rs
@@ -45,12 +45,11 @@ pub fn run_validation_actions(
     for validator in validators.iter_mut() {
         validator.validate(model)?;
         let new_issues = validator.issues_mut();
+        let has_errors = new_issues
+            .iter()
+            .any(|issue| issue.level > IssueLevel::Warning);
         issues.append(new_issues);
-        if fail_fast
-            && new_issues
-                .iter()
-                .any(|issue| issue.level > IssueLevel::Warning)
-        {
+        if fail_fast && has_errors {
             break;
         }
     }
-- 
2.43.0


From 869c5246dfacb243f49dfd2ce22fb85505aaef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 06/56] fix: the unwelcome terms linter starts afresh for each
 model and tells names apart by case

---
 atelier-core/src/action/lint/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atelier-core/src/action/lint/mod.rs b/atelier-core/src/action/lint/mod.rs
index 2289775..02fef93 100644
--- a/atelier-core/src/action/lint/mod.rs
+++ b/atelier-core/src/action/lint/mod.rs
@@ -72,7 +72,7 @@ conventions described in the Smithy [style guide](https://awslabs.github.io/smit
 linter_or_validator_defn! {
     UnwelcomeTerms
     {
-        checked: RefCell<HashSet<Identifier>>
+        checked: RefCell<HashSet<String>>
     },
     "This will report any use of any unwelcome, or problematic terms in names."
 }
@@ -204,6 +204,7 @@ linter_or_validator_action_impl! { UnwelcomeTerms, "UnwelcomeTerms" }
 
 impl Linter for UnwelcomeTerms {
     fn check(&mut self, model: &Model) -> ModelResult<()> {
+        self.checked.borrow_mut().clear();
         for shape in model.shapes() {
             let shape_id = shape.id();
             self.check_shape_id(shape_id);
@@ -242,8 +243,7 @@ impl UnwelcomeTerms {
 
     #[inline]
     fn check_identifier(&mut self, id: &Identifier, in_shape: Option<&ShapeID>) {
-        if !self.checked.borrow().contains(id) {
-            let _ = self.checked.borrow_mut().insert(id.clone());
+        if self.checked.borrow_mut().insert(id.to_string()) {
             for word in terms::split_words(&id.to_string()) {
                 if terms::is_unwelcome_term(&word) {
                     self.issues.push(match in_shape {
-- 
2.43.0


From 1c7ea1c3f45bf1e49f067051eb0107203b0bd8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 07/56] fix: the model builder makes sets, not lists, of set
 shapes

---
 atelier-core/src/builder/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 58f9ee1..5e08718 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -423,7 +423,7 @@ impl ModelBuilder {
         }
         Ok(TopLevelShape::with_traits(
             shape_id,
-            ShapeKind::List(ListOrSet::from(MemberShape::with_traits(
+            ShapeKind::Set(ListOrSet::from(MemberShape::with_traits(
                 builder.member.member_name.clone(),
                 target_id,
                 self.make_traits(&builder.member.applied_traits, references)?,
-- 
2.43.0


From afcacd00e11082add806872a7ad9e690bebcb952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 08/56] fix: a trait repeated on a built shape follows the
 trait conflict rules

---
 atelier-core/src/builder/mod.rs | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 5e08718..16ff12d 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -19,8 +19,8 @@ For more information, see [the Rust Atelier book](https://rust-atelier.dev/using
 use crate::builder::id::ShapeName;
 use crate::error::{Error, ErrorKind};
 use crate::model::shapes::{
-    ListOrSet, Map, MemberShape, Operation, Resource, Service, ShapeKind, StructureOrUnion,
-    TopLevelShape,
+    merge_traits, ListOrSet, Map, MemberShape, Operation, Resource, Service, ShapeKind,
+    StructureOrUnion, TopLevelShape,
 };
 use crate::model::values::{Value, ValueMap};
 use crate::model::{Identifier, Model, NamespaceID, ShapeID};
@@ -31,7 +31,6 @@ use crate::syntax::{MEMBER_KEY, MEMBER_MEMBER, MEMBER_VALUE};
 use crate::Version;
 use std::collections::{HashMap, HashSet};
 use std::convert::TryFrom;
-use std::iter::FromIterator;
 use std::str::FromStr;
 pub use values::{ArrayBuilder, ObjectBuilder, ValueBuilder};
 
@@ -700,21 +699,19 @@ impl ModelBuilder {
         builders: &[TraitBuilder],
         references: &mut HashSet<ShapeID>,
     ) -> Result<HashMap<ShapeID, Option<Value>>, Error> {
-        let pairs: Result<Vec<(ShapeID, Option<Value>)>, Error> = builders
-            .iter()
-            .cloned()
-            .map(|builder| {
-                let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_id, true)?;
-                if new_reference {
-                    let _ = references.insert(shape_id.clone());
-                }
-                Ok((shape_id, builder.value))
-            })
-            .collect();
-        match pairs {
-            Ok(pairs) => Ok(HashMap::from_iter(pairs)),
-            Err(err) => Err(err),
+        let mut traits: HashMap<ShapeID, Option<Value>> = Default::default();
+        for builder in builders {
+            let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_id, true)?;
+            if new_reference {
+                let _ = references.insert(shape_id.clone());
+            }
+            let value = match traits.get(&shape_id) {
+                Some(present) => merge_traits(&shape_id, present, &builder.value)?,
+                None => builder.value.clone(),
+            };
+            let _ = traits.insert(shape_id, value);
         }
+        Ok(traits)
     }
 }
 
-- 
2.43.0


From a98b8346f978425a8fe438d875469b9ace6beda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 09/56] fix: a shape defined in a built model keeps its name
 when another shape of that name is imported

---
 atelier-core/src/builder/mod.rs | 53 +++++++++++----------------------
 1 file changed, 17 insertions(+), 36 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 16ff12d..223fcac 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -313,6 +313,14 @@ impl ModelBuilder {
         }
     }
 
+    // The name of a shape being defined is never resolved, it is always in the current namespace.
+    fn defined_shape_id(&self, shape_name: &ShapeName) -> Result<ShapeID, Error> {
+        match shape_name {
+            ShapeName::Qualified(_) => Ok(self.resolve_shape_name(shape_name, false)?.0),
+            ShapeName::Local(local) => Ok(self.default_namespace.make_shape(local.clone())),
+        }
+    }
+
     fn apply_to(&mut self, shape_name: &ShapeName, a_trait: TraitBuilder) -> &mut Self {
         match shape_name {
             ShapeName::Qualified(shape_id) => {
@@ -372,10 +380,7 @@ impl ModelBuilder {
         builder: &SimpleShapeBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.defined_shape_id(&builder.shape_name)?;
         Ok(TopLevelShape::with_traits(
             shape_id,
             ShapeKind::Simple(builder.simple_shape.clone()),
@@ -388,10 +393,7 @@ impl ModelBuilder {
         builder: &ListBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.defined_shape_id(&builder.shape_name)?;
         let (target_id, new_reference) = self.resolve_shape_name(&builder.member.target, false)?;
         if new_reference {
             let _ = references.insert(target_id.clone());
@@ -412,10 +414,7 @@ impl ModelBuilder {
         builder: &ListBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.defined_shape_id(&builder.shape_name)?;
         let (target_id, new_reference) = self.resolve_shape_name(&builder.member.target, false)?;
         if new_reference {
             let _ = references.insert(target_id.clone());
@@ -436,10 +435,7 @@ impl ModelBuilder {
         builder: &MapBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.defined_shape_id(&builder.shape_name)?;
         let (key_target_id, new_reference) = self.resolve_shape_name(&builder.key.target, false)?;
         if new_reference {
             let _ = references.insert(key_target_id.clone());
@@ -496,10 +492,7 @@ impl ModelBuilder {
         builder: &StructureBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.defined_shape_id(&builder.shape_name)?;
         Ok(TopLevelShape::with_traits(
             shape_id,
             ShapeKind::Structure(self.make_structure_inner(builder, references)?),
@@ -512,10 +505,7 @@ impl ModelBuilder {
         builder: &StructureBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.defined_shape_id(&builder.shape_name)?;
         Ok(TopLevelShape::with_traits(
             shape_id,
             ShapeKind::Union(self.make_structure_inner(builder, references)?),
@@ -528,10 +518,7 @@ impl ModelBuilder {
         builder: &ServiceBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.defined_shape_id(&builder.shape_name)?;
         let mut service = Service::new(&builder.version);
         for member_shape_id in &builder.operations {
             let (shape_id, new_reference) = self.resolve_shape_name(&member_shape_id, false)?;
@@ -562,10 +549,7 @@ impl ModelBuilder {
         builder: &OperationBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.defined_shape_id(&builder.shape_name)?;
         let mut operation = Operation::default();
         if let Some(shape_id) = &builder.input {
             let (shape_id, new_reference) = self.resolve_shape_name(&shape_id, false)?;
@@ -600,10 +584,7 @@ impl ModelBuilder {
         builder: &ResourceBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.defined_shape_id(&builder.shape_name)?;
         let mut resource = Resource::default();
         for (name, shape_ref) in &builder.identifiers {
             let (shape_id, new_reference) = self.resolve_shape_name(shape_ref, false)?;
-- 
2.43.0


From 08591341efc095a28ee5016b02c23fa95aea5704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:10 +0000
Subject: [PATCH 10/56] fix: the model builder merges repeated definitions and
 reports conflicts instead of dropping them

---
 atelier-core/src/builder/mod.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 223fcac..adcb942 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -47,8 +47,9 @@ pub struct ModelBuilder {
     default_namespace: NamespaceID,
     prelude_namespace: NamespaceID,
     smithy_version: Version,
-    metadata: ValueMap,
+    metadata: Vec<(String, Value)>,
     shapes: HashMap<ShapeName, TopLevelShapeBuilder>,
+    repeated: Vec<TopLevelShapeBuilder>,
 }
 
 #[allow(clippy::large_enum_variant)]
@@ -85,14 +86,14 @@ impl TryFrom<&mut ModelBuilder> for Model {
     fn try_from(builder: &mut ModelBuilder) -> Result<Self, Self::Error> {
         let mut model = Model::new(builder.smithy_version);
         for (k, v) in builder.metadata.iter() {
-            let _ = model.add_metadata(k.clone(), v.clone());
+            model.add_metadata(k.clone(), v.clone())?;
         }
         let mut unresolved: HashSet<ShapeID> = Default::default();
-        for shape in builder.shapes.values() {
-            let _ = model.add_shape(builder.make_shape(&shape, &mut unresolved)?);
+        for shape in builder.repeated.iter().chain(builder.shapes.values()) {
+            model.add_shape(builder.make_shape(&shape, &mut unresolved)?)?;
         }
         for shape_id in unresolved {
-            let _ = model.add_shape(TopLevelShape::new(shape_id, ShapeKind::Unresolved));
+            model.add_shape(TopLevelShape::new(shape_id, ShapeKind::Unresolved))?;
         }
         Ok(model)
     }
@@ -108,6 +109,7 @@ impl ModelBuilder {
             smithy_version,
             metadata: Default::default(),
             shapes: Default::default(),
+            repeated: Default::default(),
         }
     }
 
@@ -197,14 +199,14 @@ impl ModelBuilder {
 
     /// Set a metadata value.
     pub fn meta_data(&mut self, key: String, value: Value) -> &mut Self {
-        let _ = self.metadata.insert(key, value);
+        self.metadata.push((key, value));
         self
     }
 
     /// Set a metadata value.
     pub fn meta_data_from(&mut self, value_map: ValueMap) -> &mut Self {
         for (key, value) in value_map {
-            let _ = self.metadata.insert(key, value);
+            self.metadata.push((key, value));
         }
         self
     }
@@ -212,9 +214,9 @@ impl ModelBuilder {
     // --------------------------------------------------------------------------------------------
 
     fn insert(&mut self, id: ShapeName, shape: TopLevelShapeBuilder) -> &mut Self {
-        let previous = self.shapes.insert(id, shape);
-        if previous.is_some() {
+        if let Some(previous) = self.shapes.insert(id, shape) {
             info!("Interestingly the shape seems to have been added more than once?",);
+            self.repeated.push(previous);
         }
         self
     }
-- 
2.43.0


From 8124bc321e1bb6ada0453da3a05937194923b121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:30 +0000
Subject: [PATCH 11/56] fix: traits can be applied before the shape is defined,
 to members, and without importing the shape's name

---
 atelier-core/src/builder/mod.rs | 88 ++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 46 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index adcb942..7a5e8e1 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -50,6 +50,8 @@ pub struct ModelBuilder {
     metadata: Vec<(String, Value)>,
     shapes: HashMap<ShapeName, TopLevelShapeBuilder>,
     repeated: Vec<TopLevelShapeBuilder>,
+    imports: HashSet<ShapeName>,
+    applied: Vec<(ShapeName, TraitBuilder)>,
 }
 
 #[allow(clippy::large_enum_variant)]
@@ -84,6 +86,11 @@ impl TryFrom<&mut ModelBuilder> for Model {
     type Error = Error;
 
     fn try_from(builder: &mut ModelBuilder) -> Result<Self, Self::Error> {
+        // Traits may be applied before, or after, the shape they are applied to is defined.
+        let mut builder = builder.clone();
+        for (shape_name, a_trait) in std::mem::take(&mut builder.applied) {
+            builder.apply_to(&shape_name, a_trait)?;
+        }
         let mut model = Model::new(builder.smithy_version);
         for (k, v) in builder.metadata.iter() {
             model.add_metadata(k.clone(), v.clone())?;
@@ -110,6 +117,8 @@ impl ModelBuilder {
             metadata: Default::default(),
             shapes: Default::default(),
             repeated: Default::default(),
+            imports: Default::default(),
+            applied: Default::default(),
         }
     }
 
@@ -188,12 +197,14 @@ impl ModelBuilder {
     /// way the `apply` statement works in the Smithy IDL.
     pub fn apply(&mut self, shape: &str, a_trait: TraitBuilder) -> &mut Self {
         let shape_name = ShapeName::from_str(shape).unwrap();
-        self.apply_to(&shape_name, a_trait)
+        self.applied.push((shape_name, a_trait));
+        self
     }
 
     /// Create and add a new resource shape to this model using the `ResourceBuilder` instance.
     pub fn reference(&mut self, builder: ReferenceBuilder) -> &mut Self {
         let shape_id = &builder.shape_id;
+        let _ = self.imports.insert(shape_id.clone());
         self.insert(shape_id.clone(), builder.into())
     }
 
@@ -221,29 +232,6 @@ impl ModelBuilder {
         self
     }
 
-    fn reference_names(&self) -> impl Iterator<Item = &ShapeName> {
-        self.shapes
-            .iter()
-            .filter(|(_, builder)| matches!(builder, TopLevelShapeBuilder::Reference(_)))
-            .map(|(id, _)| id)
-    }
-
-    ///
-    /// From [Relative shape ID resolution](https://awslabs.github.io/smithy/1.0/spec/core/idl.html#relative-shape-id-resolution)
-    ///
-    /// Relative shape IDs are resolved using the following process:
-    ///
-    /// 1. If a `use_statement` has imported a shape with the same name, the shape ID resolves to
-    ///    the imported shape ID.
-    /// 2. If a shape is defined in the same namespace as the shape with the same name, the
-    ///    namespace of the shape resolves to the *current namespace*.
-    /// 3. If a shape is defined in the prelude with the same name, the namespace resolves to
-    ///    `smithy.api`.
-    /// 4. If a relative shape ID does not satisfy one of the above cases, the shape ID is invalid,
-    ///    and the namespace is inherited from the *current namespace*.
-    ///
-    /// TODO: what about `Service::renames`?
-    ///
     fn resolve_shape_name(
         &self,
         shape_name: &ShapeName,
@@ -267,7 +255,8 @@ impl ModelBuilder {
             ShapeName::Local(local) => {
                 trace!("Local Identifier: proceeding with resolution...");
                 let references: Vec<&ShapeName> = self
-                    .reference_names()
+                    .imports
+                    .iter()
                     .filter(|shape_name| shape_name.shape_name() == local)
                     .collect();
                 debug!(
@@ -323,39 +312,44 @@ impl ModelBuilder {
         }
     }
 
-    fn apply_to(&mut self, shape_name: &ShapeName, a_trait: TraitBuilder) -> &mut Self {
+    fn apply_to(&mut self, shape_name: &ShapeName, a_trait: TraitBuilder) -> Result<(), Error> {
         match shape_name {
             ShapeName::Qualified(shape_id) => {
-                if let Some(member_name) = shape_id.member_name() {
-                    let parent_shape = ShapeName::from(shape_id.shape_only());
-                    if let Some(shape) = self.shapes.get_mut(&parent_shape) {
-                        apply_to_member(shape, member_name, a_trait);
-                    } else {
-                        panic!("No shape named {} for member {}", parent_shape, member_name);
+                let parent_id = shape_id.shape_only();
+                if let Some(shape) = self.defined_shape_mut(&parent_id) {
+                    match shape_id.member_name() {
+                        Some(member_name) => apply_to_member(shape, member_name, a_trait)?,
+                        None => apply_to_shape(shape, a_trait),
                     }
-                } else if let Some(shape) = self.shapes.get_mut(&shape_name) {
-                    apply_to_shape(shape, a_trait);
+                } else if shape_id.is_member() {
+                    return Err(ErrorKind::UnknownMember(shape_id.to_string()).into());
                 } else {
-                    let mut builder = ReferenceBuilder::from(shape_id.clone());
+                    let mut builder = ReferenceBuilder::from(parent_id);
                     let _ = builder.apply_trait(a_trait);
-                    let _ = self.reference(builder);
+                    self.repeated.push(builder.into());
                 }
-                self
+                Ok(())
             }
             ShapeName::Local(local) => {
                 // This is disallowed in the Smithy IDL which requires apply statements to take
                 // qualified names.
-                let (shape_id, new_reference) = self
-                    .resolve_shape_name(&local.clone().into(), false)
-                    .unwrap();
-                if new_reference {
-                    let _ = self.reference(ReferenceBuilder::from(shape_id.clone()));
-                }
+                let (shape_id, _) = self.resolve_shape_name(&local.clone().into(), false)?;
                 self.apply_to(&shape_id.into(), a_trait)
             }
         }
     }
 
+    // A shape in the current namespace is usually, but not always, defined by its local name.
+    fn defined_shape_mut(&mut self, shape_id: &ShapeID) -> Option<&mut TopLevelShapeBuilder> {
+        let qualified = ShapeName::from(shape_id.clone());
+        let local = ShapeName::from(shape_id.shape_name().clone());
+        if shape_id.namespace() == &self.default_namespace && self.shapes.contains_key(&local) {
+            self.shapes.get_mut(&local)
+        } else {
+            self.shapes.get_mut(&qualified)
+        }
+    }
+
     fn make_shape(
         &self,
         builder: &TopLevelShapeBuilder,
@@ -706,7 +700,7 @@ fn apply_to_member(
     shape: &mut TopLevelShapeBuilder,
     member_name: &Identifier,
     a_trait: TraitBuilder,
-) {
+) -> Result<(), Error> {
     let ok = match shape {
         TopLevelShapeBuilder::List(shape) => {
             if member_name.to_string() == MEMBER_MEMBER {
@@ -761,8 +755,10 @@ fn apply_to_member(
         }
         _ => false,
     };
-    if !ok {
-        panic!("Shape does not have a traitable member {}", member_name);
+    if ok {
+        Ok(())
+    } else {
+        Err(ErrorKind::UnknownMember(member_name.to_string()).into())
     }
 }
 
-- 
2.43.0


From d3bac31bb3e086c8a6e39b1443aadf90eec7088b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 12/56] fix: a local name finds a shape defined by its
 qualified name in the namespace

---
 atelier-core/src/builder/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 7a5e8e1..a0ef78b 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -274,12 +274,15 @@ impl ModelBuilder {
                         ))
                     }
                     0 => {
-                        if self.shapes.contains_key(shape_name) {
+                        let in_namespace = self.default_namespace.make_shape(local.clone());
+                        if self.shapes.contains_key(shape_name)
+                            || self.shapes.contains_key(&in_namespace.clone().into())
+                        {
                             // 2. a shape is defined in the same namespace as the shape with the same name
                             trace!(
                                 "SUCCESS: shape found in same namespace as shape with same name"
                             );
-                            Ok((self.default_namespace.make_shape(local.clone()), false))
+                            Ok((in_namespace, false))
                         } else if (!is_trait
                             && defined_prelude_shapes().contains(&*local.to_string()))
                             || (is_trait && defined_prelude_traits().contains(&*local.to_string()))
@@ -291,8 +294,7 @@ impl ModelBuilder {
                             // 4. the shape ID is invalid
                             // => the namespace is inherited from the *current namespace*.
                             trace!("SUCCESS-ish: shape not found, so assume it's local");
-                            let qualified = self.default_namespace.make_shape(local.clone());
-                            Ok((qualified, true))
+                            Ok((in_namespace, true))
                         }
                     }
                     _ => {
-- 
2.43.0


From 96d397f64d05e1e0956cf7b0794660b52a801cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 13/56] fix: the JSON reader names the members of a map key and
 value

---
 atelier-json/src/reader.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index 1e4ed30..495d500 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -141,16 +141,16 @@ impl JsonReader {
                 Ok(ShapeKind::Unresolved)
             } else if s == SHAPE_LIST {
                 Ok(ShapeKind::List(ListOrSet::from(
-                    self.member(outer.get(MEMBER_MEMBER))?,
+                    self.member(outer.get(MEMBER_MEMBER), MEMBER_MEMBER)?,
                 )))
             } else if s == SHAPE_SET {
                 Ok(ShapeKind::Set(ListOrSet::from(
-                    self.member(outer.get(MEMBER_MEMBER))?,
+                    self.member(outer.get(MEMBER_MEMBER), MEMBER_MEMBER)?,
                 )))
             } else if s == SHAPE_MAP {
                 Ok(ShapeKind::Map(MapShape::from(
-                    self.member(outer.get(MEMBER_KEY))?,
-                    self.member(outer.get(MEMBER_VALUE))?,
+                    self.member(outer.get(MEMBER_KEY), MEMBER_KEY)?,
+                    self.member(outer.get(MEMBER_VALUE), MEMBER_VALUE)?,
                 )))
             } else if s == SHAPE_STRUCTURE {
                 let members = if let Some(Value::Object(vs)) = outer.get(ADD_SHAPE_KEY_MEMBERS) {
@@ -369,11 +369,11 @@ impl JsonReader {
         .into())
     }
 
-    fn member(&self, member: Option<&Value>) -> ModelResult<MemberShape> {
+    fn member(&self, member: Option<&Value>, name: &str) -> ModelResult<MemberShape> {
         if let Some(Value::Object(ms)) = member {
             if let Some(Value::String(target_id)) = ms.get(ADD_SHAPE_KEY_TARGET) {
                 let mut member_shape = MemberShape::new(
-                    Identifier::new_unchecked(MEMBER_MEMBER),
+                    Identifier::new_unchecked(name),
                     ShapeID::from_str(target_id)?,
                 );
                 if let Some(Value::Object(vs)) = ms.get(ADD_SHAPE_KEY_TRAITS) {
-- 
2.43.0


From abf6222ab0ca7a457ad0445ee7d1d3c04e018e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 14/56] fix: the JSON reader does not print resource
 identifiers on standard output

---
 atelier-json/src/reader.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index 495d500..a74cde8 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -307,7 +307,6 @@ impl JsonReader {
             let mut hash: HashMap<Identifier, ShapeID> = Default::default();
             if let Value::Object(ms) = member {
                 for (obj_key, obj) in ms {
-                    println!("{:?}: {:?}", obj_key, obj);
                     let key = Identifier::from_str(obj_key)?;
                     let value = self.target(Some(obj))?;
                     let _ = hash.insert(key, value);
-- 
2.43.0


From 3756fa104d9ee8dffcd71a8376507eaeb0bf2cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 15/56] fix: the JSON reader does not turn integers above the
 64-bit range negative

---
 atelier-json/src/reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index a74cde8..f7a24ad 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -412,7 +412,8 @@ impl JsonReader {
                 } else if v.is_i64() {
                     Ok(NodeValue::from(v.as_i64().unwrap()))
                 } else if v.is_u64() {
-                    Ok(NodeValue::from(v.as_u64().unwrap() as i64))
+                    // too big for a node's integer, it does not wrap around to a negative number
+                    Ok(NodeValue::from(v.as_u64().unwrap() as f64))
                 } else {
                     Err(ErrorKind::Deserialization(
                         REPRESENTATION_NAME.to_string(),
-- 
2.43.0


From 57cae1135ba44851c370ba8610735faf29ecd9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 16/56] fix: the JSON reader refuses an empty service version
 instead of panicking

---
 atelier-json/src/reader.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index f7a24ad..3204cff 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -171,10 +171,9 @@ impl JsonReader {
                     members.as_slice(),
                 )))
             } else if s == SHAPE_SERVICE {
-                let version = if let Some(Value::String(value)) = outer.get(MEMBER_VERSION) {
-                    value.clone()
-                } else {
-                    return Err(ErrorKind::InvalidVersionNumber(None).into());
+                let version = match outer.get(MEMBER_VERSION) {
+                    Some(Value::String(value)) if !value.is_empty() => value.clone(),
+                    _ => return Err(ErrorKind::InvalidVersionNumber(None).into()),
                 };
                 let mut service = Service::new(&version);
                 service.append_operations(&self.target_list(outer.get(MEMBER_OPERATIONS))?);
-- 
2.43.0


From b21ec351bb824c9aff9a5bddc6b1e48442cb0917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 17/56] fix: the JSON reader refuses sections, members and
 traits that are not objects

---
 atelier-json/src/reader.rs | 51 +++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index 3204cff..ab6b66c 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -104,9 +104,28 @@ impl JsonReader {
         }
     }
 
+    ///
+    /// A part that may be left out, but that has to be an object if it is there.
+    ///
+    fn optional_object<'b>(
+        &self,
+        json: Option<&'b Value>,
+    ) -> ModelResult<Option<&'b Map<String, Value>>> {
+        match json {
+            None => Ok(None),
+            Some(Value::Object(vs)) => Ok(Some(vs)),
+            Some(_) => Err(ErrorKind::Deserialization(
+                REPRESENTATION_NAME.to_string(),
+                "JsonReader::optional_object".to_string(),
+                Some(format!("{:#?}", json)),
+            )
+            .into()),
+        }
+    }
+
     fn metadata(&self, json: Option<&Value>) -> ModelResult<ValueMap> {
         let mut metadata: ValueMap = Default::default();
-        if let Some(Value::Object(vs)) = json {
+        if let Some(vs) = self.optional_object(json)? {
             for (k, v) in vs {
                 let _ = metadata.insert(k.clone(), self.value(v)?);
             }
@@ -116,13 +135,13 @@ impl JsonReader {
 
     fn shapes(&self, json: Option<&Value>) -> ModelResult<Vec<(NamespaceID, TopLevelShape)>> {
         let mut shapes: Vec<(NamespaceID, TopLevelShape)> = Default::default();
-        if let Some(Value::Object(vs)) = json {
+        if let Some(vs) = self.optional_object(json)? {
             for (k, v) in vs {
                 let id = ShapeID::from_str(k)?;
                 let inner = self.shape(v)?;
                 let mut shape = TopLevelShape::new(id.clone(), inner);
 
-                if let Some(Value::Object(vs)) = v.get(ADD_SHAPE_KEY_TRAITS) {
+                if let Some(vs) = self.optional_object(v.get(ADD_SHAPE_KEY_TRAITS))? {
                     shape.append_traits(&self.traits(vs)?)?;
                 };
 
@@ -153,20 +172,22 @@ impl JsonReader {
                     self.member(outer.get(MEMBER_VALUE), MEMBER_VALUE)?,
                 )))
             } else if s == SHAPE_STRUCTURE {
-                let members = if let Some(Value::Object(vs)) = outer.get(ADD_SHAPE_KEY_MEMBERS) {
-                    self.members(vs)?
-                } else {
-                    Default::default()
-                };
+                let members =
+                    if let Some(vs) = self.optional_object(outer.get(ADD_SHAPE_KEY_MEMBERS))? {
+                        self.members(vs)?
+                    } else {
+                        Default::default()
+                    };
                 Ok(ShapeKind::Structure(StructureOrUnion::with_members(
                     members.as_slice(),
                 )))
             } else if s == SHAPE_UNION {
-                let members = if let Some(Value::Object(vs)) = outer.get(ADD_SHAPE_KEY_MEMBERS) {
-                    self.members(vs)?
-                } else {
-                    Default::default()
-                };
+                let members =
+                    if let Some(vs) = self.optional_object(outer.get(ADD_SHAPE_KEY_MEMBERS))? {
+                        self.members(vs)?
+                    } else {
+                        Default::default()
+                    };
                 Ok(ShapeKind::Union(StructureOrUnion::with_members(
                     members.as_slice(),
                 )))
@@ -259,7 +280,7 @@ impl JsonReader {
                     .into());
                 };
                 let mut member = MemberShape::new(Identifier::from_str(k)?, target);
-                if let Some(Value::Object(traits)) = obj.get(ADD_SHAPE_KEY_TRAITS) {
+                if let Some(traits) = self.optional_object(obj.get(ADD_SHAPE_KEY_TRAITS))? {
                     member.append_traits(&self.traits(traits)?)?;
                 }
                 members.push(member);
@@ -374,7 +395,7 @@ impl JsonReader {
                     Identifier::new_unchecked(name),
                     ShapeID::from_str(target_id)?,
                 );
-                if let Some(Value::Object(vs)) = ms.get(ADD_SHAPE_KEY_TRAITS) {
+                if let Some(vs) = self.optional_object(ms.get(ADD_SHAPE_KEY_TRAITS))? {
                     member_shape.append_traits(&self.traits(vs)?)?;
                 };
                 return Ok(member_shape);
-- 
2.43.0


From 0196bb887ce5038dc70d4bbfe5ce6c2fdaa0580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 18/56] fix: the IDL grammar takes any number of leading
 underscores, every Unicode character and a comment at the end of the file

---
 atelier-smithy/src/smithy.pest | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/atelier-smithy/src/smithy.pest b/atelier-smithy/src/smithy.pest
index 2c844c6..ea2a0fd 100644
--- a/atelier-smithy/src/smithy.pest
+++ b/atelier-smithy/src/smithy.pest
@@ -11,13 +11,13 @@ br =
     _{ ws ~ EOI? }
 
 line_comment =
-    _{ "//" ~ ("\t" | '\u{20}'..'\u{10FFF}')* ~ NEWLINE }
+    _{ "//" ~ ("\t" | '\u{20}'..'\u{10FFFF}')* ~ (NEWLINE | !ANY) }
 
 documentation_comment =
     _{ ws ~ "///" ~ documentation_text ~ NEWLINE }
 
 documentation_text =
-    { ("\t" | '\u{20}'..'\u{10FFF}')* }
+    { ("\t" | '\u{20}'..'\u{10FFFF}')* }
 
 control_section =
     { control_statement* }
@@ -41,8 +41,7 @@ namespace =
     @{ identifier ~ ("." ~ identifier)* }
 
 identifier =
-    @{ ( ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* )
-    |  ( "_" ~ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")*) }
+    @{ "_"* ~ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* }
 
 shape_id_member =
     { "$" ~ identifier }
@@ -122,7 +121,7 @@ quoted_text =
     { DQUOTE ~ quoted_chars ~ DQUOTE }
 
 quoted_chars =
-    @{ ('\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFF}' | escaped_char | preserved_double)* }
+    @{ ('\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFFF}' | escaped_char | preserved_double)* }
 
 escaped_char =
     {escape ~ (escape | "'" | DQUOTE | "b" | "f" | "n" | "r" | "t" | "/" | unicode_escape) }
@@ -131,7 +130,7 @@ unicode_escape =
     { "u" ~ ASCII_HEX_DIGIT ~ ASCII_HEX_DIGIT ~ ASCII_HEX_DIGIT ~ ASCII_HEX_DIGIT }
 
 preserved_double =
-    { escape ~ ('\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFF}') }
+    { escape ~ ('\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFFF}') }
 
 escape =
     { "\\" }
@@ -143,7 +142,7 @@ text_block =
 //     _{ DQUOTE ~ DQUOTE ~ DQUOTE }
 
 block_quoted_chars =
-    @{ ( !("\"\"\"") ~ DQUOTE | sp | NEWLINE | '\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFF}' | escaped_char | preserved_double)* }
+    @{ ( !("\"\"\"") ~ DQUOTE | sp | NEWLINE | '\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFFF}' | escaped_char | preserved_double)* }
 
 DQUOTE =
     _{ "\"" }
-- 
2.43.0


From cbc6f52dee2c8d408114e9124b1acc023a4bb38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 19/56] fix: keywords of the IDL end at word boundaries

---
 atelier-smithy/src/smithy.pest | 63 +++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 28 deletions(-)

diff --git a/atelier-smithy/src/smithy.pest b/atelier-smithy/src/smithy.pest
index ea2a0fd..5784e5b 100644
--- a/atelier-smithy/src/smithy.pest
+++ b/atelier-smithy/src/smithy.pest
@@ -111,11 +111,18 @@ zero =
 node_keywords =
     _{ kw_true | kw_false | kw_null }
 
-kw_true = { "true" }
+kw_true = { "true" ~ !shape_id_char }
 
-kw_false = { "false" }
+kw_false = { "false" ~ !shape_id_char }
 
-kw_null = { "null" }
+kw_null = { "null" ~ !shape_id_char }
+
+// A keyword is a word of its own, not the start of a longer one.
+shape_id_char =
+    _{ ASCII_ALPHANUMERIC | "_" | "." | "#" | "$" }
+
+kw_end =
+    _{ !(ASCII_ALPHANUMERIC | "_") }
 
 quoted_text =
     { DQUOTE ~ quoted_chars ~ DQUOTE }
@@ -151,13 +158,13 @@ shape_section =
     { ( namespace_statement ~ (use_section)? ~ (shape_statements)? )? }
 
 namespace_statement =
-    { "namespace" ~ ws ~ namespace ~ ws }
+    { "namespace" ~ kw_end ~ ws ~ namespace ~ ws }
 
 use_section =
     { use_statement+ }
 
 use_statement =
-    { "use" ~ ws ~ absolute_root_shape_id ~ ws }
+    { "use" ~ kw_end ~ ws ~ absolute_root_shape_id ~ ws }
 
 shape_statements =
     { (shape_statement | apply_statement)+ }
@@ -176,31 +183,31 @@ simple_type_name =
     _{ type_blob | type_boolean | type_document | type_string | type_byte | type_short | type_integer | type_long
     | type_float | type_double | type_big_integer | type_big_decimal | type_timestamp }
 
-type_blob = { "blob" }
+type_blob = { "blob" ~ kw_end }
 
-type_boolean = {"boolean"}
+type_boolean = {"boolean" ~ kw_end }
 
-type_document = {"document"}
+type_document = {"document" ~ kw_end }
 
-type_string = {"string"}
+type_string = {"string" ~ kw_end }
 
-type_byte = {"byte"}
+type_byte = {"byte" ~ kw_end }
 
-type_short = {"short"}
+type_short = {"short" ~ kw_end }
 
-type_integer = {"integer"}
+type_integer = {"integer" ~ kw_end }
 
-type_long = {"long"}
+type_long = {"long" ~ kw_end }
 
-type_float = {"float"}
+type_float = {"float" ~ kw_end }
 
-type_double = {"double"}
+type_double = {"double" ~ kw_end }
 
-type_big_integer = {"bigInteger"}
+type_big_integer = {"bigInteger" ~ kw_end }
 
-type_big_decimal = {"bigDecimal"}
+type_big_decimal = {"bigDecimal" ~ kw_end }
 
-type_timestamp = {"timestamp"}
+type_timestamp = {"timestamp" ~ kw_end }
 
 shape_members =
     { "{" ~ ws ~ (shape_member_kvp ~ ws)* ~ "}" }
@@ -216,31 +223,31 @@ shape_member_kvp =
     { documentation_comment* ~ ws ~ trait_statements ~ identifier ~ ws ~ ":" ~ ws ~ shape_id }
 
 list_statement =
-    { "list" ~ ws ~ identifier ~ ws ~ shape_members }
+    { "list" ~ kw_end ~ ws ~ identifier ~ ws ~ shape_members }
 
 set_statement =
-    { "set" ~ ws ~ identifier ~ ws ~ shape_members }
+    { "set" ~ kw_end ~ ws ~ identifier ~ ws ~ shape_members }
 
 map_statement =
-    { "map" ~ ws ~ identifier ~ ws ~ shape_members }
+    { "map" ~ kw_end ~ ws ~ identifier ~ ws ~ shape_members }
 
 structure_statement =
-    { "structure" ~ ws ~ identifier ~ ws ~ shape_members }
+    { "structure" ~ kw_end ~ ws ~ identifier ~ ws ~ shape_members }
 
 union_statement =
-    { "union" ~ ws ~ identifier ~ ws ~ shape_members }
+    { "union" ~ kw_end ~ ws ~ identifier ~ ws ~ shape_members }
 
 service_statement =
-    { "service" ~ ws ~ identifier ~ ws ~ node_object }
+    { "service" ~ kw_end ~ ws ~ identifier ~ ws ~ node_object }
 
 operation_statement =
-    {"operation" ~ ws ~ identifier ~ ws ~ node_object}
+    {"operation" ~ kw_end ~ ws ~ identifier ~ ws ~ node_object}
 
 resource_statement =
-    { "resource" ~ ws ~ identifier ~ ws ~ node_object }
+    { "resource" ~ kw_end ~ ws ~ identifier ~ ws ~ node_object }
 
 apply_statement =
-    { "apply" ~ ws ~ shape_id ~ ws ~ a_trait ~ ws}
+    { "apply" ~ kw_end ~ ws ~ shape_id ~ ws ~ a_trait ~ ws}
 
 trait_statements =
      { (ws ~ a_trait)* ~ ws }
@@ -270,4 +277,4 @@ metadata_section =
     { metadata_statement* }
 
 metadata_statement =
-    { "metadata" ~ ws ~ node_object_key ~ ws ~ "=" ~ ws ~ node_value ~ ws }
+    { "metadata" ~ kw_end ~ ws ~ node_object_key ~ ws ~ "=" ~ ws ~ node_value ~ ws }
-- 
2.43.0


From 936c8f4c38c4ab24e1a17b3d0603fa42a37ed95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 20/56] fix: apply statements of the IDL are parsed, for
 members as well

---
 atelier-core/src/builder/mod.rs     | 23 ++++++++++++++++++-----
 atelier-smithy/src/parser/smithy.rs | 27 +++++++++++----------------
 2 files changed, 29 insertions(+), 21 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index a0ef78b..338e872 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -27,7 +27,7 @@ use crate::model::{Identifier, Model, NamespaceID, ShapeID};
 use crate::prelude::{
     defined_prelude_shapes, defined_prelude_traits, prelude_namespace_id, PRELUDE_NAMESPACE,
 };
-use crate::syntax::{MEMBER_KEY, MEMBER_MEMBER, MEMBER_VALUE};
+use crate::syntax::{MEMBER_KEY, MEMBER_MEMBER, MEMBER_VALUE, SHAPE_ID_MEMBER_SEPARATOR};
 use crate::Version;
 use std::collections::{HashMap, HashSet};
 use std::convert::TryFrom;
@@ -51,7 +51,7 @@ pub struct ModelBuilder {
     shapes: HashMap<ShapeName, TopLevelShapeBuilder>,
     repeated: Vec<TopLevelShapeBuilder>,
     imports: HashSet<ShapeName>,
-    applied: Vec<(ShapeName, TraitBuilder)>,
+    applied: Vec<(ShapeName, Option<Identifier>, TraitBuilder)>,
 }
 
 #[allow(clippy::large_enum_variant)]
@@ -88,7 +88,14 @@ impl TryFrom<&mut ModelBuilder> for Model {
     fn try_from(builder: &mut ModelBuilder) -> Result<Self, Self::Error> {
         // Traits may be applied before, or after, the shape they are applied to is defined.
         let mut builder = builder.clone();
-        for (shape_name, a_trait) in std::mem::take(&mut builder.applied) {
+        for (shape_name, member_name, a_trait) in std::mem::take(&mut builder.applied) {
+            let shape_name = match member_name {
+                None => shape_name,
+                Some(member_name) => {
+                    let (shape_id, _) = builder.resolve_shape_name(&shape_name, false)?;
+                    shape_id.make_member(member_name).into()
+                }
+            };
             builder.apply_to(&shape_name, a_trait)?;
         }
         let mut model = Model::new(builder.smithy_version);
@@ -196,8 +203,14 @@ impl ModelBuilder {
     /// a new reference builder is created and the trait applied to it. This is similar to the
     /// way the `apply` statement works in the Smithy IDL.
     pub fn apply(&mut self, shape: &str, a_trait: TraitBuilder) -> &mut Self {
-        let shape_name = ShapeName::from_str(shape).unwrap();
-        self.applied.push((shape_name, a_trait));
+        let (shape_name, member_name) = match shape.split_once(SHAPE_ID_MEMBER_SEPARATOR) {
+            None => (shape, None),
+            Some((shape_name, member_name)) => {
+                (shape_name, Some(Identifier::from_str(member_name).unwrap()))
+            }
+        };
+        let shape_name = ShapeName::from_str(shape_name).unwrap();
+        self.applied.push((shape_name, member_name, a_trait));
         self
     }
 
diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 232a20a..6c74654 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -4,8 +4,8 @@ use crate::parser::error::ParserError;
 use crate::REPRESENTATION_NAME;
 use atelier_core::builder::shapes::ShapeTraits;
 use atelier_core::builder::{
-    ListBuilder, MapBuilder, MemberBuilder, ModelBuilder, OperationBuilder, ReferenceBuilder,
-    ResourceBuilder, ServiceBuilder, SimpleShapeBuilder, StructureBuilder, TraitBuilder,
+    ListBuilder, MapBuilder, MemberBuilder, ModelBuilder, OperationBuilder, ResourceBuilder,
+    ServiceBuilder, SimpleShapeBuilder, StructureBuilder, TraitBuilder,
 };
 use atelier_core::error::{Error, ErrorKind, Result as ModelResult, ResultExt};
 use atelier_core::model::shapes::Simple;
@@ -192,6 +192,10 @@ fn parse_shape_statements(
             Rule::shape_statement => {
                 parse_shape_statement(shape_statement, builder)?;
             }
+            Rule::apply_statement => {
+                let (shape_id, a_trait) = parse_apply_statement(shape_statement)?;
+                let _ = builder.apply(&shape_id, a_trait);
+            }
             Rule::EOI => {}
             _ => unexpected!("parse_shape_statements", shape_statement),
         }
@@ -259,10 +263,6 @@ fn parse_shape_statement(
                 apply_traits(&mut shape, &documentation, &traits);
                 let _ = builder.resource(shape);
             }
-            Rule::apply_statement => {
-                let shape = parse_apply_statement(shape_statement)?;
-                let _ = builder.reference(shape);
-            }
             Rule::EOI => {}
             _ => unexpected!("parse_shape_statement", shape_statement),
         }
@@ -724,27 +724,22 @@ fn parse_id_and_object(input_pair: Pair<'_, Rule>) -> ModelResult<(String, NodeV
     }
 }
 
-fn parse_apply_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ReferenceBuilder> {
+fn parse_apply_statement(input_pair: Pair<'_, Rule>) -> ModelResult<(String, TraitBuilder)> {
     entry!("parse_apply_statement", input_pair);
     let mut id: Option<String> = None;
     let mut a_trait: Option<TraitBuilder> = None;
     for inner in input_pair.into_inner() {
         match inner.as_rule() {
-            Rule::identifier => {
+            Rule::shape_id => {
                 id = Some(inner.as_str().to_string());
             }
             Rule::a_trait => a_trait = Some(parse_a_trait(inner)?),
             _ => unexpected!("parse_apply_statement", inner),
         }
     }
-    if let Some(id) = id {
-        let mut reference = ReferenceBuilder::new(&id);
-        if let Some(a_trait) = a_trait {
-            let _ = reference.apply_trait(a_trait);
-        }
-        Ok(reference)
-    } else {
-        ParserError::unreachable("parse_apply_statement").into()
+    match (id, a_trait) {
+        (Some(id), Some(a_trait)) => Ok((id, a_trait)),
+        _ => ParserError::unreachable("parse_apply_statement").into(),
     }
 }
 
-- 
2.43.0


From 0bbfa67537b324aae6bbd8a9bedadfb95790827f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:13 +0000
Subject: [PATCH 21/56] fix: escape sequences in IDL strings are resolved

---
 atelier-smithy/src/parser/smithy.rs | 99 +++++++++++++++++++++++------
 1 file changed, 80 insertions(+), 19 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 6c74654..5f9da86 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -336,29 +336,13 @@ fn parse_a_trait(input_pair: Pair<'_, Rule>) -> ModelResult<TraitBuilder> {
     }
 }
 
-#[allow(unused_assignments)]
 fn parse_trait_structure_kvp(input_pair: Pair<'_, Rule>) -> ModelResult<(String, NodeValue)> {
     entry!("parse_trait_structure_kvp", input_pair);
     let mut id: Option<String> = None;
     let mut node_value: Option<NodeValue> = None;
     for inner in input_pair.into_inner() {
         match inner.as_rule() {
-            Rule::quoted_text => {
-                for inner in inner.into_inner() {
-                    match inner.as_rule() {
-                        Rule::quoted_chars => {
-                            // erroneous: value assigned to `id` is never read
-                            id = Some(inner.as_str().to_string())
-                        }
-                        _ => unexpected!("parse_trait_structure_kvp", inner),
-                    }
-                }
-                if id.is_none() {
-                    return ParserError::unreachable("parse_trait_structure_kvp")
-                        .in_rule("quoted_text")
-                        .into();
-                }
-            }
+            Rule::quoted_text => id = Some(parse_quoted_key(inner)?),
             Rule::identifier => id = Some(inner.as_str().to_string()),
             Rule::node_value => {
                 node_value = Some(parse_node_value(inner)?);
@@ -779,19 +763,96 @@ fn parse_quoted_text(input_pair: Pair<'_, Rule>) -> ModelResult<NodeValue> {
     #[allow(clippy::never_loop)]
     for inner in input_pair.into_inner() {
         return match inner.as_rule() {
-            Rule::quoted_chars => Ok(NodeValue::String(inner.as_str().to_string())),
+            Rule::quoted_chars => Ok(NodeValue::String(unescape(inner.as_str())?)),
             _ => unexpected!("parse_quoted_text", inner),
         };
     }
     ParserError::unreachable("parse_quoted_text").into()
 }
 
+fn parse_quoted_key(input_pair: Pair<'_, Rule>) -> ModelResult<String> {
+    entry!("parse_quoted_key", input_pair);
+    match parse_quoted_text(input_pair)? {
+        NodeValue::String(key) => Ok(key),
+        _ => ParserError::unreachable("parse_quoted_key").into(),
+    }
+}
+
+///
+/// Replace the escape sequences in the characters of a string. An escaped backslash is kept as it is
+/// written, so is a backslash that does not start an escape sequence.
+///
+fn unescape(chars: &str) -> ModelResult<String> {
+    let mut text = String::with_capacity(chars.len());
+    let mut rest = chars;
+    while let Some(position) = rest.find('\\') {
+        text.push_str(&rest[..position]);
+        rest = &rest[position + 1..];
+        let escaped = match rest.chars().next() {
+            Some('u') => {
+                if let Some(unit) = hex_digits(rest) {
+                    rest = &rest[5..];
+                    let low_unit = match rest.strip_prefix('\\').and_then(hex_digits) {
+                        Some(unit @ 0xDC00..=0xDFFF) => Some(unit),
+                        _ => None,
+                    };
+                    match (unit, low_unit) {
+                        (0xD800..=0xDBFF, Some(low_unit)) => {
+                            rest = &rest[6..];
+                            let code = 0x10000 + ((unit - 0xD800) << 10) + (low_unit - 0xDC00);
+                            text.extend(char::from_u32(code));
+                        }
+                        _ => match char::from_u32(unit) {
+                            Some(c) => text.push(c),
+                            None => {
+                                return ParserError::new("unescape").context(&chars).into();
+                            }
+                        },
+                    }
+                } else {
+                    text.push('\\');
+                }
+                continue;
+            }
+            Some('b') => '\u{08}',
+            Some('f') => '\u{0C}',
+            Some('n') => '\n',
+            Some('r') => '\r',
+            Some('t') => '\t',
+            Some(c @ '\'') | Some(c @ '"') | Some(c @ '/') => c,
+            Some('\\') => {
+                text.push_str("\\\\");
+                rest = &rest[1..];
+                continue;
+            }
+            _ => {
+                text.push('\\');
+                continue;
+            }
+        };
+        text.push(escaped);
+        rest = &rest[1..];
+    }
+    text.push_str(rest);
+    Ok(text)
+}
+
+/// The value of the four hexadecimal digits after the `u` of a unicode escape sequence.
+fn hex_digits(escape: &str) -> Option<u32> {
+    let digits = escape.strip_prefix('u')?.get(..4)?;
+    if digits.chars().all(|c| c.is_ascii_hexdigit()) {
+        u32::from_str_radix(digits, 16).ok()
+    } else {
+        None
+    }
+}
+
 fn parse_text_block(input_pair: Pair<'_, Rule>) -> ModelResult<NodeValue> {
     entry!("parse_text_block", input_pair);
     #[allow(clippy::never_loop)]
     for inner in input_pair.into_inner() {
         match inner.as_rule() {
-            Rule::block_quoted_chars => return Ok(NodeValue::String(inner.as_str().to_string())),
+            Rule::block_quoted_chars => return Ok(NodeValue::String(unescape(inner.as_str())?)),
             _ => unexpected!("parse_text_block", inner),
         }
     }
-- 
2.43.0


From 9c6dd15f3855483fec77c34c96df8dac6ed6e815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:48 +0000
Subject: [PATCH 22/56] fix: quoted keys of IDL metadata and shape properties
 are read without their quotes

---
 atelier-smithy/src/parser/smithy.rs | 45 ++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 5f9da86..5d94065 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -104,7 +104,7 @@ fn parse_control_section(input_pair: Pair<'_, Rule>) -> ModelResult<ValueMap> {
             "parse_control_section",
             inner,
             Rule::control_statement,
-            parse_node_object_kvp
+            parse_key_value_pair
         );
         let _ = map.insert(key, value);
     }
@@ -119,7 +119,7 @@ fn parse_metadata_section(input_pair: Pair<'_, Rule>) -> ModelResult<ValueMap> {
             "parse_control_section",
             inner,
             Rule::metadata_statement,
-            parse_node_object_kvp
+            parse_key_value_pair
         );
         let _ = map.insert(key, value);
     }
@@ -309,7 +309,7 @@ fn parse_a_trait(input_pair: Pair<'_, Rule>) -> ModelResult<TraitBuilder> {
                 node_value = Some(parse_node_value(inner)?);
             }
             Rule::trait_structure_kvp => {
-                let (id, value) = parse_trait_structure_kvp(inner)?;
+                let (id, value) = parse_key_value_pair(inner)?;
                 let _ = members.insert(id, value);
             }
             _ => unexpected!("parse_a_trait", inner),
@@ -336,8 +336,8 @@ fn parse_a_trait(input_pair: Pair<'_, Rule>) -> ModelResult<TraitBuilder> {
     }
 }
 
-fn parse_trait_structure_kvp(input_pair: Pair<'_, Rule>) -> ModelResult<(String, NodeValue)> {
-    entry!("parse_trait_structure_kvp", input_pair);
+fn parse_key_value_pair(input_pair: Pair<'_, Rule>) -> ModelResult<(String, NodeValue)> {
+    entry!("parse_key_value_pair", input_pair);
     let mut id: Option<String> = None;
     let mut node_value: Option<NodeValue> = None;
     for inner in input_pair.into_inner() {
@@ -347,7 +347,7 @@ fn parse_trait_structure_kvp(input_pair: Pair<'_, Rule>) -> ModelResult<(String,
             Rule::node_value => {
                 node_value = Some(parse_node_value(inner)?);
             }
-            _ => unexpected!("parse_trait_structure_kvp", inner),
+            _ => unexpected!("parse_key_value_pair", inner),
         }
     }
     match (id, node_value) {
@@ -698,7 +698,7 @@ fn parse_id_and_object(input_pair: Pair<'_, Rule>) -> ModelResult<(String, NodeV
             Rule::identifier => {
                 id = Some(inner.as_str().to_string());
             }
-            Rule::node_object => node_value = Some(parse_node_object(inner)?),
+            Rule::node_object => node_value = Some(parse_properties(inner)?),
             _ => unexpected!("parse_id_and_object", inner),
         }
     }
@@ -708,6 +708,37 @@ fn parse_id_and_object(input_pair: Pair<'_, Rule>) -> ModelResult<(String, NodeV
     }
 }
 
+fn parse_properties(input_pair: Pair<'_, Rule>) -> ModelResult<NodeValue> {
+    entry!("parse_properties", input_pair);
+    let mut properties: ValueMap = Default::default();
+    for property in input_pair.into_inner() {
+        let mut key: Option<String> = None;
+        let mut value: Option<NodeValue> = None;
+        for inner in property.into_inner() {
+            match inner.as_rule() {
+                Rule::quoted_text => key = Some(parse_quoted_key(inner)?),
+                Rule::identifier => key = Some(inner.as_str().to_string()),
+                Rule::node_value => {
+                    value = match inner.clone().into_inner().next() {
+                        Some(inner) if inner.as_rule() == Rule::node_object => {
+                            Some(parse_properties(inner)?)
+                        }
+                        _ => Some(parse_node_value(inner)?),
+                    }
+                }
+                _ => unexpected!("parse_properties", inner),
+            }
+        }
+        match (key, value) {
+            (Some(key), Some(value)) => {
+                let _ = properties.insert(key, value);
+            }
+            _ => return ParserError::unreachable("parse_properties").into(),
+        }
+    }
+    Ok(NodeValue::Object(properties))
+}
+
 fn parse_apply_statement(input_pair: Pair<'_, Rule>) -> ModelResult<(String, TraitBuilder)> {
     entry!("parse_apply_statement", input_pair);
     let mut id: Option<String> = None;
-- 
2.43.0


From f521c191c8b7f445524fdd0e0454d76ad77c2a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 23/56] fix: the key and value of an IDL map keep their traits

---
 atelier-smithy/src/parser/smithy.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 5d94065..6ba917a 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -412,13 +412,13 @@ fn parse_list_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ListBuilder>
 fn parse_map_statement(input_pair: Pair<'_, Rule>) -> ModelResult<MapBuilder> {
     entry!("parse_map_statement", input_pair);
     let (id, members) = parse_membered_statement(input_pair)?;
-    let mut key: Option<String> = None;
-    let mut value: Option<String> = None;
+    let mut key: Option<MemberBuilder> = None;
+    let mut value: Option<MemberBuilder> = None;
     for member in members {
-        if member.name() == &Identifier::new_unchecked(MEMBER_KEY) {
-            key = Some(member.target().to_string())
-        } else if member.name() == &Identifier::new_unchecked(MEMBER_VALUE) {
-            value = Some(member.target().to_string())
+        if key.is_none() && member.name().to_string() == MEMBER_KEY {
+            key = Some(member)
+        } else if value.is_none() && member.name().to_string() == MEMBER_VALUE {
+            value = Some(member)
         } else {
             return ParserError::new("parse_map_statement")
                 .unreachable_rule()
@@ -427,7 +427,12 @@ fn parse_map_statement(input_pair: Pair<'_, Rule>) -> ModelResult<MapBuilder> {
         }
     }
     match (key, value) {
-        (Some(k), Some(v)) => Ok(MapBuilder::new(&id, &k, &v)),
+        (Some(k), Some(v)) => {
+            let mut shape = MapBuilder::new(&id, &k.target().to_string(), &v.target().to_string());
+            shape.key(k);
+            shape.value(v);
+            Ok(shape)
+        }
         _ => ParserError::unreachable("parse_map_statement").into(),
     }
 }
-- 
2.43.0


From f7f94f394a764923313763113371c9a1a431e09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 24/56] fix: IDL numbers with an exponent and no fraction are
 floating point numbers

---
 atelier-smithy/src/parser/smithy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 6ba917a..4b6157d 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -770,7 +770,7 @@ fn parse_node_value(input_pair: Pair<'_, Rule>) -> ModelResult<NodeValue> {
         Rule::node_array => parse_node_array(inner)?,
         Rule::node_object => parse_node_object(inner)?,
         Rule::number => {
-            if inner.as_str().contains('.') {
+            if inner.as_str().contains(|c| matches!(c, '.' | 'e' | 'E')) {
                 NodeValue::Number(Number::Float(
                     inner.as_str().parse().chain_err(|| "number format error")?,
                 ))
-- 
2.43.0


From 9914d46b337450789c7d5eb039fdf103714ec190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 25/56] fix: a trait in the IDL takes a single value

---
 atelier-smithy/src/smithy.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-smithy/src/smithy.pest b/atelier-smithy/src/smithy.pest
index 5784e5b..2211706 100644
--- a/atelier-smithy/src/smithy.pest
+++ b/atelier-smithy/src/smithy.pest
@@ -262,7 +262,7 @@ trait_body =
 //     _{ "(" ~ ws ~  ")" }
 //
 // populated_trait_body =
-    _{ "(" ~ ws ~ (trait_body_value ~ ws)* ~ ")" }
+    _{ "(" ~ ws ~ (trait_body_value ~ ws)? ~ ")" }
 
 trait_body_value =
     _{ trait_structure | node_value }
-- 
2.43.0


From fa60ab108bcf6319b348b6a4eb2ed1a255da394f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 26/56] fix: malformed properties of IDL services, operations
 and resources are errors, not panics

---
 atelier-smithy/src/parser/smithy.rs | 73 +++++++++++++++++++++--------
 1 file changed, 54 insertions(+), 19 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 4b6157d..d8636a0 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -2,6 +2,7 @@
 
 use crate::parser::error::ParserError;
 use crate::REPRESENTATION_NAME;
+use atelier_core::builder::id::ShapeName;
 use atelier_core::builder::shapes::ShapeTraits;
 use atelier_core::builder::{
     ListBuilder, MapBuilder, MemberBuilder, ModelBuilder, OperationBuilder, ResourceBuilder,
@@ -527,17 +528,24 @@ fn parse_service_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ServiceBui
     entry!("parse_service_statement", input_pair);
     let (id, object) = parse_id_and_object(input_pair)?;
     if let NodeValue::Object(object) = object {
-        let mut service = ServiceBuilder::new(
-            &id,
-            object.get(MEMBER_VERSION).unwrap().as_string().unwrap(),
-        );
+        let mut service = match object.get(MEMBER_VERSION) {
+            Some(NodeValue::String(version)) if !version.is_empty() => {
+                ServiceBuilder::new(&id, version)
+            }
+            _ => {
+                return ParserError::new("parse_service_statement")
+                    .expecting(MEMBER_VERSION)
+                    .into()
+            }
+        };
         for (key, value) in object {
             match key.as_str() {
                 MEMBER_VERSION => {}
                 MEMBER_OPERATIONS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = service.operation(&value.as_string().unwrap());
+                            let _ = service
+                                .operation(&shape_name_from("parse_service_statement", &value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_service_statement")
@@ -548,7 +556,8 @@ fn parse_service_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ServiceBui
                 MEMBER_RESOURCES => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = service.resource(&value.as_string().unwrap());
+                            let _ = service
+                                .resource(&shape_name_from("parse_service_statement", &value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_service_statement")
@@ -579,15 +588,17 @@ fn parse_operation_statement(input_pair: Pair<'_, Rule>) -> ModelResult<Operatio
         for (key, value) in object {
             match key.as_str() {
                 MEMBER_INPUT => {
-                    let _ = operation.input(&value.as_string().unwrap());
+                    let _ = operation.input(&shape_name_from("parse_operation_statement", &value)?);
                 }
                 MEMBER_OUTPUT => {
-                    let _ = operation.output(&value.as_string().unwrap());
+                    let _ =
+                        operation.output(&shape_name_from("parse_operation_statement", &value)?);
                 }
                 MEMBER_ERRORS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = operation.error(&value.as_string().unwrap());
+                            let _ = operation
+                                .error(&shape_name_from("parse_operation_statement", &value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_operation_statement")
@@ -620,7 +631,15 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
                 MEMBER_IDENTIFIERS => {
                     if let NodeValue::Object(identifiers) = value {
                         for (id, target) in identifiers {
-                            let _ = resource.identifier(&id, &target.as_string().unwrap());
+                            if !Identifier::is_valid(&id) {
+                                return ParserError::new("parse_resource_statement")
+                                    .context(&id)
+                                    .into();
+                            }
+                            let _ = resource.identifier(
+                                &id,
+                                &shape_name_from("parse_resource_statement", &target)?,
+                            );
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -629,27 +648,28 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
                     }
                 }
                 MEMBER_CREATE => {
-                    let _ = resource.create(&value.as_string().unwrap());
+                    let _ = resource.create(&shape_name_from("parse_resource_statement", &value)?);
                 }
                 MEMBER_PUT => {
-                    let _ = resource.put(&value.as_string().unwrap());
+                    let _ = resource.put(&shape_name_from("parse_resource_statement", &value)?);
                 }
                 MEMBER_READ => {
-                    let _ = resource.read(&value.as_string().unwrap());
+                    let _ = resource.read(&shape_name_from("parse_resource_statement", &value)?);
                 }
                 MEMBER_UPDATE => {
-                    let _ = resource.update(&value.as_string().unwrap());
+                    let _ = resource.update(&shape_name_from("parse_resource_statement", &value)?);
                 }
                 MEMBER_DELETE => {
-                    let _ = resource.delete(&value.as_string().unwrap());
+                    let _ = resource.delete(&shape_name_from("parse_resource_statement", &value)?);
                 }
                 MEMBER_LIST => {
-                    let _ = resource.list(&value.as_string().unwrap());
+                    let _ = resource.list(&shape_name_from("parse_resource_statement", &value)?);
                 }
                 MEMBER_OPERATIONS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = resource.operation(&value.as_string().unwrap());
+                            let _ = resource
+                                .operation(&shape_name_from("parse_resource_statement", &value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -660,7 +680,10 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
                 MEMBER_COLLECTION_OPERATIONS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = resource.collection_operation(&value.as_string().unwrap());
+                            let _ = resource.collection_operation(&shape_name_from(
+                                "parse_resource_statement",
+                                &value,
+                            )?);
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -671,7 +694,8 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
                 MEMBER_RESOURCES => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = resource.resource(&value.as_string().unwrap());
+                            let _ = resource
+                                .resource(&shape_name_from("parse_resource_statement", &value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -744,6 +768,17 @@ fn parse_properties(input_pair: Pair<'_, Rule>) -> ModelResult<NodeValue> {
     Ok(NodeValue::Object(properties))
 }
 
+/// The value of a property that names a shape.
+fn shape_name_from(fn_name: &str, value: &NodeValue) -> ModelResult<String> {
+    match value {
+        NodeValue::String(name) if ShapeName::from_str(name).is_ok() => Ok(name.clone()),
+        _ => ParserError::new(fn_name)
+            .expecting("shape_id")
+            .context(value)
+            .into(),
+    }
+}
+
 fn parse_apply_statement(input_pair: Pair<'_, Rule>) -> ModelResult<(String, TraitBuilder)> {
     entry!("parse_apply_statement", input_pair);
     let mut id: Option<String> = None;
-- 
2.43.0


From 401d56f9f0c30cd26a8ccf6ea7f92d8c539b3a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:53 +0000
Subject: [PATCH 27/56] fix: the IDL reader keeps the renames of a service

---
 atelier-smithy/src/parser/smithy.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index d8636a0..0c85620 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -11,11 +11,12 @@ use atelier_core::builder::{
 use atelier_core::error::{Error, ErrorKind, Result as ModelResult, ResultExt};
 use atelier_core::model::shapes::Simple;
 use atelier_core::model::values::{Number, Value as NodeValue, ValueMap};
-use atelier_core::model::{Identifier, Model};
+use atelier_core::model::{Identifier, Model, ShapeID};
 use atelier_core::syntax::{
     MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_ERRORS, MEMBER_IDENTIFIERS,
     MEMBER_INPUT, MEMBER_KEY, MEMBER_LIST, MEMBER_MEMBER, MEMBER_OPERATIONS, MEMBER_OUTPUT,
-    MEMBER_PUT, MEMBER_READ, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VALUE, MEMBER_VERSION,
+    MEMBER_PUT, MEMBER_READ, MEMBER_RENAME, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VALUE,
+    MEMBER_VERSION,
 };
 use atelier_core::Version;
 use pest::error::Error as PestError;
@@ -541,6 +542,29 @@ fn parse_service_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ServiceBui
         for (key, value) in object {
             match key.as_str() {
                 MEMBER_VERSION => {}
+                MEMBER_RENAME => {
+                    if let NodeValue::Object(renames) = value {
+                        for (shape_id, name) in renames {
+                            match &name {
+                                NodeValue::String(local_name)
+                                    if ShapeID::is_valid(&shape_id)
+                                        && Identifier::is_valid(local_name) =>
+                                {
+                                    let _ = service.rename(&shape_id, local_name);
+                                }
+                                _ => {
+                                    return ParserError::new("parse_service_statement")
+                                        .context(&name)
+                                        .into()
+                                }
+                            }
+                        }
+                    } else {
+                        return ParserError::unreachable("parse_service_statement")
+                            .context(&value)
+                            .into();
+                    }
+                }
                 MEMBER_OPERATIONS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-- 
2.43.0


From 695b636820fd84366aa8f13a538dd6501809c14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:59 +0000
Subject: [PATCH 28/56] fix: the IDL reader refuses control versions that are
 not supported, or not text, instead of ignoring them

---
 atelier-smithy/src/parser/smithy.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 0c85620..a4c4d52 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -75,10 +75,16 @@ fn parse_idl(input_pair: Pair<'_, Rule>) -> ModelResult<Model> {
                 Rule::control_section,
                 parse_control_section
             );
-            let version = if let Some(NodeValue::String(version)) = control_data.get("version") {
-                Version::from_str(version)?
-            } else {
-                Version::default()
+            let version = match control_data.get(MEMBER_VERSION) {
+                None => Version::default(),
+                Some(NodeValue::String(version)) => Version::from_str(version)?,
+                Some(NodeValue::Number(version)) => Version::from_str(&version.to_string())?,
+                Some(version) => {
+                    return ParserError::new("parse_idl")
+                        .expecting(MEMBER_VERSION)
+                        .context(version)
+                        .into()
+                }
             };
             let meta_data = next_pair_into!(
                 "parse_idl",
-- 
2.43.0


From f31587c100240f808fcc0f9acb8e4134753d38e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:17 +0000
Subject: [PATCH 29/56] fix: IDL metadata is kept without a namespace, and
 repeated keys follow the conflict rule

---
 atelier-smithy/src/parser/smithy.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index a4c4d52..9e02438 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -12,6 +12,7 @@ use atelier_core::error::{Error, ErrorKind, Result as ModelResult, ResultExt};
 use atelier_core::model::shapes::Simple;
 use atelier_core::model::values::{Number, Value as NodeValue, ValueMap};
 use atelier_core::model::{Identifier, Model, ShapeID};
+use atelier_core::prelude::PRELUDE_NAMESPACE;
 use atelier_core::syntax::{
     MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_ERRORS, MEMBER_IDENTIFIERS,
     MEMBER_INPUT, MEMBER_KEY, MEMBER_LIST, MEMBER_MEMBER, MEMBER_OPERATIONS, MEMBER_OUTPUT,
@@ -95,10 +96,13 @@ fn parse_idl(input_pair: Pair<'_, Rule>) -> ModelResult<Model> {
             let builder = next_pair_into!("parse_idl", inner, Rule::shape_section, |item| {
                 parse_shape_section(item, version)
             });
-            match builder {
-                None => Ok(Model::default()),
-                Some(mut builder) => builder.meta_data_from(meta_data).try_into(),
+            // Without a namespace there are no shapes for it to matter to.
+            let mut builder =
+                builder.unwrap_or_else(|| ModelBuilder::new(version, PRELUDE_NAMESPACE));
+            for (key, value) in meta_data {
+                let _ = builder.meta_data(key, value);
             }
+            builder.try_into()
         }
         _ => unexpected!("parse_idl", input_pair),
     }
@@ -119,9 +123,9 @@ fn parse_control_section(input_pair: Pair<'_, Rule>) -> ModelResult<ValueMap> {
     Ok(map)
 }
 
-fn parse_metadata_section(input_pair: Pair<'_, Rule>) -> ModelResult<ValueMap> {
+fn parse_metadata_section(input_pair: Pair<'_, Rule>) -> ModelResult<Vec<(String, NodeValue)>> {
     entry!("parse_metadata_section", input_pair);
-    let mut map: ValueMap = Default::default();
+    let mut pairs: Vec<(String, NodeValue)> = Default::default();
     for inner in input_pair.into_inner() {
         let (key, value) = pair_into!(
             "parse_control_section",
@@ -129,9 +133,9 @@ fn parse_metadata_section(input_pair: Pair<'_, Rule>) -> ModelResult<ValueMap> {
             Rule::metadata_statement,
             parse_key_value_pair
         );
-        let _ = map.insert(key, value);
+        pairs.push((key, value));
     }
-    Ok(map)
+    Ok(pairs)
 }
 
 fn parse_shape_section(
-- 
2.43.0


From 8c65e0a22ad8fd6dd70a358a0412ea28b49d2e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 30/56] fix: an IDL text block keeps a comma or a comment sign
 at its start

---
 atelier-smithy/src/smithy.pest | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/atelier-smithy/src/smithy.pest b/atelier-smithy/src/smithy.pest
index 2211706..b64e123 100644
--- a/atelier-smithy/src/smithy.pest
+++ b/atelier-smithy/src/smithy.pest
@@ -7,9 +7,6 @@ ws =
 sp =
     _{ " " | "\t" }
 
-br =
-    _{ ws ~ EOI? }
-
 line_comment =
     _{ "//" ~ ("\t" | '\u{20}'..'\u{10FFFF}')* ~ (NEWLINE | !ANY) }
 
@@ -143,7 +140,7 @@ escape =
     { "\\" }
 
 text_block =
-    { DQUOTE{3} ~ br ~ block_quoted_chars ~ DQUOTE{3} }
+    { DQUOTE{3} ~ (sp | NEWLINE)* ~ block_quoted_chars ~ DQUOTE{3} }
 
 // three_dquotes =
 //     _{ DQUOTE ~ DQUOTE ~ DQUOTE }
-- 
2.43.0


From 4cbfec81f263a1affa32db11638bb1c4863362f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:04 +0000
Subject: [PATCH 31/56] fix: the IDL writer writes names, values and traits so
 that they read back as themselves

---
 atelier-smithy/src/writer.rs | 186 +++++++++++++++++++++++++----------
 1 file changed, 136 insertions(+), 50 deletions(-)

diff --git a/atelier-smithy/src/writer.rs b/atelier-smithy/src/writer.rs
index ba59844..8de50e0 100644
--- a/atelier-smithy/src/writer.rs
+++ b/atelier-smithy/src/writer.rs
@@ -2,14 +2,15 @@ use std::io::Write;
 
 use atelier_core::error::Result;
 use atelier_core::io::ModelWriter;
-use atelier_core::model::shapes::{HasTraits, MemberShape, ShapeKind};
-use atelier_core::model::values::Value;
-use atelier_core::model::{HasIdentity, Model, NamespaceID, ShapeID};
+use atelier_core::model::shapes::{HasTraits, MemberShape, ShapeKind, TopLevelShape};
+use atelier_core::model::values::{Number, Value};
+use atelier_core::model::{HasIdentity, Identifier, Model, NamespaceID, ShapeID};
+use atelier_core::prelude::{defined_prelude_shapes, defined_prelude_traits};
 use atelier_core::syntax::{
     MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_ERRORS, MEMBER_IDENTIFIERS,
-    MEMBER_INPUT, MEMBER_KEY, MEMBER_LIST, MEMBER_MEMBER, MEMBER_OPERATIONS, MEMBER_OUTPUT,
-    MEMBER_PUT, MEMBER_READ, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VALUE, MEMBER_VERSION,
-    SHAPE_APPLY, SHAPE_LIST, SHAPE_MAP, SHAPE_OPERATION, SHAPE_RESOURCE, SHAPE_SERVICE, SHAPE_SET,
+    MEMBER_INPUT, MEMBER_LIST, MEMBER_MEMBER, MEMBER_OPERATIONS, MEMBER_OUTPUT, MEMBER_PUT,
+    MEMBER_READ, MEMBER_RENAME, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VERSION, SHAPE_APPLY,
+    SHAPE_LIST, SHAPE_MAP, SHAPE_OPERATION, SHAPE_RESOURCE, SHAPE_SERVICE, SHAPE_SET,
     SHAPE_STRUCTURE, SHAPE_UNION,
 };
 
@@ -76,8 +77,8 @@ impl SmithyWriter {
     fn write_metadata_section(&mut self, w: &mut impl Write, model: &Model) -> Result<()> {
         if model.has_metadata() {
             for (key, value) in model.metadata() {
-                write!(w, "{} \"{}\" = ", STATEMENT_METADATA, key)?;
-                self.write_value(w, value, true)?;
+                write!(w, "{} {} = ", STATEMENT_METADATA, quoted(key))?;
+                self.write_value(w, value, false)?;
                 writeln!(w)?;
             }
             writeln!(w)?;
@@ -111,11 +112,11 @@ impl SmithyWriter {
         let from_namespace = self.namespace.clone();
         for shape in model
             .shapes()
-            .filter(|shape| shape.id().namespace() == &from_namespace)
+            .filter(|shape| shape.is_unresolved() || shape.id().namespace() == &from_namespace)
         {
             if !shape.body().is_unresolved() {
                 for (id, value) in shape.traits() {
-                    self.write_trait(w, id, value, "")?;
+                    self.write_trait(w, model, id, value, "")?;
                 }
             }
             match shape.body() {
@@ -126,36 +127,33 @@ impl SmithyWriter {
                     writeln!(w, "{} {} {{", SHAPE_LIST, shape.id().shape_name())?;
                     writeln!(w, "    {}: {}", MEMBER_MEMBER, list.member().target())?;
                     writeln!(w, "}}")?;
+                    self.write_element_traits(w, model, shape.id(), list.member())?;
                 }
                 ShapeKind::Set(set) => {
                     writeln!(w, "{} {} {{", SHAPE_SET, shape.id().shape_name())?;
                     writeln!(w, "    {}: {}", MEMBER_MEMBER, set.member().target())?;
                     writeln!(w, "}}")?;
+                    self.write_element_traits(w, model, shape.id(), set.member())?;
                 }
                 ShapeKind::Map(map) => {
                     writeln!(w, "{} {} {{", SHAPE_MAP, shape.id().shape_name())?;
-                    writeln!(w, "    {}: {}", MEMBER_KEY, map.key().target().shape_name())?;
-                    writeln!(
-                        w,
-                        "    {}: {}",
-                        MEMBER_VALUE,
-                        map.value().target().shape_name()
-                    )?;
+                    self.write_member(w, model, map.key(), "    ")?;
+                    self.write_member(w, model, map.value(), "    ")?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Structure(structured) => {
                     writeln!(w, "{} {} {{", SHAPE_STRUCTURE, shape.id().shape_name())?;
-                    self.write_members(w, structured.members(), "    ")?;
+                    self.write_members(w, model, structured.members(), "    ")?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Union(structured) => {
                     writeln!(w, "{} {} {{", SHAPE_UNION, shape.id().shape_name())?;
-                    self.write_members(w, structured.members(), "    ")?;
+                    self.write_members(w, model, structured.members(), "    ")?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Service(service) => {
                     writeln!(w, "{} {} {{", SHAPE_SERVICE, shape.id().shape_name())?;
-                    writeln!(w, "    {}: {:?}", MEMBER_VERSION, service.version())?;
+                    writeln!(w, "    {}: {}", MEMBER_VERSION, quoted(service.version()))?;
                     if service.has_operations() {
                         writeln!(
                             w,
@@ -163,7 +161,7 @@ impl SmithyWriter {
                             MEMBER_OPERATIONS,
                             service
                                 .operations()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.node_name(model, s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -175,20 +173,27 @@ impl SmithyWriter {
                             MEMBER_RESOURCES,
                             service
                                 .resources()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.node_name(model, s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
                     }
+                    if service.has_renames() {
+                        writeln!(w, "    {}: {{", MEMBER_RENAME)?;
+                        for (id, name) in service.renames() {
+                            writeln!(w, "        \"{}\": \"{}\"", id, name)?;
+                        }
+                        writeln!(w, "    }}")?;
+                    }
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Operation(operation) => {
                     writeln!(w, "{} {} {{", SHAPE_OPERATION, shape.id().shape_name())?;
                     if let Some(id) = operation.input() {
-                        writeln!(w, "    {}: {}", MEMBER_INPUT, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_INPUT, self.node_name(model, id))?;
                     }
                     if let Some(id) = operation.output() {
-                        writeln!(w, "    {}: {}", MEMBER_OUTPUT, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_OUTPUT, self.node_name(model, id))?;
                     }
                     if operation.has_errors() {
                         writeln!(
@@ -197,7 +202,7 @@ impl SmithyWriter {
                             MEMBER_ERRORS,
                             operation
                                 .errors()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.node_name(model, s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -209,27 +214,27 @@ impl SmithyWriter {
                     if resource.has_identifiers() {
                         writeln!(w, "    {}: {{", MEMBER_IDENTIFIERS)?;
                         for (id, target) in resource.identifiers() {
-                            writeln!(w, "        {}: {}", id, target.shape_name())?;
+                            writeln!(w, "        {}: {}", id, self.node_name(model, target))?;
                         }
                         writeln!(w, "    }}")?;
                     }
                     if let Some(id) = resource.create() {
-                        writeln!(w, "    {}: {}", MEMBER_CREATE, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_CREATE, self.node_name(model, id))?;
                     }
                     if let Some(id) = resource.put() {
-                        writeln!(w, "    {}: {}", MEMBER_PUT, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_PUT, self.node_name(model, id))?;
                     }
                     if let Some(id) = resource.read() {
-                        writeln!(w, "    {}: {}", MEMBER_READ, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_READ, self.node_name(model, id))?;
                     }
                     if let Some(id) = resource.update() {
-                        writeln!(w, "    {}: {}", MEMBER_UPDATE, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_UPDATE, self.node_name(model, id))?;
                     }
                     if let Some(id) = resource.delete() {
-                        writeln!(w, "    {}: {}", MEMBER_DELETE, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_DELETE, self.node_name(model, id))?;
                     }
                     if let Some(id) = resource.list() {
-                        writeln!(w, "    {}: {}", MEMBER_LIST, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_LIST, self.node_name(model, id))?;
                     }
                     if resource.has_operations() {
                         writeln!(
@@ -238,7 +243,7 @@ impl SmithyWriter {
                             MEMBER_OPERATIONS,
                             resource
                                 .operations()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.node_name(model, s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -250,7 +255,7 @@ impl SmithyWriter {
                             MEMBER_COLLECTION_OPERATIONS,
                             resource
                                 .collection_operations()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.node_name(model, s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -262,7 +267,7 @@ impl SmithyWriter {
                             MEMBER_RESOURCES,
                             resource
                                 .resources()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.node_name(model, s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -273,7 +278,7 @@ impl SmithyWriter {
                     if shape.has_traits() {
                         for (id, value) in shape.traits() {
                             write!(w, "{} {} ", SHAPE_APPLY, shape.id())?;
-                            self.write_trait(w, id, value, "")?;
+                            self.write_trait(w, model, id, value, "")?;
                         }
                     }
                 }
@@ -286,17 +291,12 @@ impl SmithyWriter {
     fn write_trait(
         &mut self,
         w: &mut impl Write,
+        model: &Model,
         id: &ShapeID,
         value: &Option<Value>,
         prefix: &str,
     ) -> Result<()> {
-        let trait_namespace = id.namespace();
-        let id = if *trait_namespace == self.namespace || *trait_namespace == self.prelude_namespace
-        {
-            id.shape_name().to_string()
-        } else {
-            id.to_string()
-        };
+        let id = self.name(model, id, true);
         write!(w, "{}{}{}", prefix, TRAIT_PREFIX, id)?;
         match value {
             None => writeln!(w)?,
@@ -328,7 +328,11 @@ impl SmithyWriter {
                 }
                 let last = if vs.is_empty() { 0 } else { vs.len() - 1 };
                 for (i, (k, v)) in vs.iter().enumerate() {
-                    write!(w, "{}: ", k)?;
+                    if Identifier::is_valid(k) {
+                        write!(w, "{}: ", k)?;
+                    } else {
+                        write!(w, "{}: ", quoted(k))?;
+                    }
                     self.write_value(w, v, false)?;
                     if i < last {
                         write!(w, ", ")?;
@@ -338,10 +342,12 @@ impl SmithyWriter {
                     write!(w, "}}")?;
                 }
             }
-            Value::Number(v) => write!(w, "{}", v)?,
+            Value::Number(Number::Integer(v)) => write!(w, "{}", v)?,
+            // keeps the fraction, or exponent, that makes it a floating point number
+            Value::Number(Number::Float(v)) => write!(w, "{:?}", v)?,
             Value::Boolean(v) => write!(w, "{}", v)?,
-            Value::String(v) => write!(w, "{:?}", v)?,
-            Value::None => {}
+            Value::String(v) => write!(w, "{}", quoted(v))?,
+            Value::None => write!(w, "null")?,
         }
         Ok(())
     }
@@ -349,11 +355,12 @@ impl SmithyWriter {
     fn write_members<'a>(
         &'a mut self,
         w: &mut impl Write,
+        model: &Model,
         members: impl Iterator<Item = &'a MemberShape>,
         prefix: &str,
     ) -> Result<()> {
         for member in members {
-            self.write_member(w, member, prefix)?;
+            self.write_member(w, model, member, prefix)?;
         }
         Ok(())
     }
@@ -361,19 +368,98 @@ impl SmithyWriter {
     fn write_member(
         &mut self,
         w: &mut impl Write,
+        model: &Model,
         member: &MemberShape,
         prefix: &str,
     ) -> Result<()> {
         for (id, value) in member.traits() {
-            self.write_trait(w, id, value, prefix)?;
+            self.write_trait(w, model, id, value, prefix)?;
         }
         writeln!(
             w,
             "{}{}: {}",
             prefix,
             member.id(),
-            member.target().shape_name()
+            self.name(model, member.target(), false)
         )?;
         Ok(())
     }
+
+    // The traits of the member of a list, or set, are applied to it from outside.
+    fn write_element_traits(
+        &mut self,
+        w: &mut impl Write,
+        model: &Model,
+        shape_id: &ShapeID,
+        member: &MemberShape,
+    ) -> Result<()> {
+        for (id, value) in member.traits() {
+            let member_id = shape_id.make_member(member.id().clone());
+            write!(w, "{} {} ", SHAPE_APPLY, member_id)?;
+            self.write_trait(w, model, id, value, "")?;
+        }
+        Ok(())
+    }
+
+    // The name of a shape, without its namespace only where it resolves to that shape again.
+    fn name(&self, model: &Model, id: &ShapeID, is_trait: bool) -> String {
+        let shape_name = id.shape_name();
+        let imported = |shape: &&TopLevelShape| {
+            shape.is_unresolved()
+                && !shape.has_traits()
+                && shape.id().shape_name() == shape_name
+                && shape.id() != id
+        };
+        let in_prelude = if is_trait {
+            defined_prelude_traits().contains(&*shape_name.to_string())
+        } else {
+            defined_prelude_shapes().contains(&*shape_name.to_string())
+        };
+        let in_namespace = ShapeID::new(self.namespace.clone(), shape_name.clone(), None);
+        let is_defined = model
+            .shape(&in_namespace)
+            .map(|shape| !shape.is_unresolved())
+            .unwrap_or(false);
+        let is_short = if id.namespace() == &self.namespace {
+            is_defined || !in_prelude
+        } else {
+            id.namespace() == &self.prelude_namespace && in_prelude && !is_defined
+        };
+        if is_short && !model.shapes().any(|shape| imported(&shape)) {
+            shape_name.to_string()
+        } else {
+            id.to_string()
+        }
+    }
+
+    // The same where any node value may stand, some names mean something else there.
+    fn node_name(&self, model: &Model, id: &ShapeID) -> String {
+        let name = self.name(model, id, false);
+        match name.as_str() {
+            "true" | "false" | "null" => id.to_string(),
+            _ => name,
+        }
+    }
+}
+
+// ------------------------------------------------------------------------------------------------
+// Private Functions
+// ------------------------------------------------------------------------------------------------
+
+fn quoted(s: &str) -> String {
+    let mut quoted = String::from("\"");
+    for c in s.chars() {
+        match c {
+            '"' => quoted.push_str("\\\""),
+            '\n' => quoted.push_str("\\n"),
+            '\r' => quoted.push_str("\\r"),
+            '\t' => quoted.push_str("\\t"),
+            // the reader keeps both of the characters of an escaped backslash
+            '\\' => quoted.push_str("\\u005c"),
+            c if c.is_control() => quoted.push_str(&format!("\\u{:04x}", c as u32)),
+            c => quoted.push(c),
+        }
+    }
+    quoted.push('"');
+    quoted
 }
-- 
2.43.0


From 9820e2a40b69f3240296807f02f11fbbd35e76aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:12 +0000
Subject: [PATCH 32/56] fix: different keys and numbers have different lines in
 the line-oriented form

---
 atelier-core/src/io/lines.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/atelier-core/src/io/lines.rs b/atelier-core/src/io/lines.rs
index 0597f05..a4fa7d7 100644
--- a/atelier-core/src/io/lines.rs
+++ b/atelier-core/src/io/lines.rs
@@ -65,6 +65,7 @@ and "`<=`" the *value assignment* operator.
 * For null values simply emit the string "`()`" (10).
 * For boolean, numeric, and string values emit their natural form (11).
   * Ensure string values are correctly quoted.
+  * Floating point numbers always have a decimal point or an exponent.
 * For arrays:
   * emit a line per index, with "`[`", the index as a zero-based integer, "`]`", the operator
     "`<=`" and follow these same value production rules (12),
@@ -73,6 +74,7 @@ and "`<=`" the *value assignment* operator.
   * emit a line per key, with "`{`", the key name, "`}`", the operator "`<=`" and follow
     these same value production rules (13),
   * an empty object is denoted with the string "`{}`".
+* In metadata and object keys each of the characters "`{}[]<=>\`" is preceded by a "`\`".
 
 Finally, all lines must be sorted to ensure the overall output can be compared.
 
@@ -142,7 +144,7 @@ service::example.weather#Weather::version<="2006-03-01"
 
 use crate::io::ModelWriter;
 use crate::model::shapes::{HasTraits, MemberShape, ShapeKind, TopLevelShape};
-use crate::model::values::Value;
+use crate::model::values::{Number, Value};
 use crate::model::{HasIdentity, Model, ShapeID};
 use std::collections::HashMap;
 use std::io::Write;
@@ -177,7 +179,13 @@ pub fn make_line_oriented_form(model: &Model) -> Vec<String> {
     let mut strings = Default::default();
     for (key, value) in model.metadata() {
         value_into_strings(
-            &format!("{}{}{}{}", META_PREFIX, SEGMENT_SEP, key, VALUE_SEP),
+            &format!(
+                "{}{}{}{}",
+                META_PREFIX,
+                SEGMENT_SEP,
+                key_into_string(key),
+                VALUE_SEP
+            ),
             value,
             &mut strings,
         );
@@ -360,6 +368,18 @@ fn member_target(member_name: &str, id: &ShapeID) -> String {
     format!("{}{}{}{}", SEGMENT_SEP, member_name, TARGET_SEP, id)
 }
 
+/// The separators of the format itself are escaped in keys.
+fn key_into_string(key: &str) -> String {
+    let mut string = String::with_capacity(key.len());
+    for c in key.chars() {
+        if "{}[]<=>\\".contains(c) {
+            string.push('\\');
+        }
+        string.push(c);
+    }
+    string
+}
+
 fn value_into_strings(prefix: &str, value: &Value, strings: &mut Vec<String>) {
     match value {
         Value::Array(vs) => {
@@ -377,12 +397,13 @@ fn value_into_strings(prefix: &str, value: &Value, strings: &mut Vec<String>) {
                 strings.push(format!("{}{{}}", prefix));
             } else {
                 for (k, v) in vo {
-                    let prefix = format!("{}{{{}}}=", prefix, k);
+                    let prefix = format!("{}{{{}}}=", prefix, key_into_string(k));
                     value_into_strings(&prefix, v, strings);
                 }
             }
         }
-        Value::Number(v) => strings.push(format!("{}{}", prefix, v)),
+        Value::Number(Number::Integer(v)) => strings.push(format!("{}{}", prefix, v)),
+        Value::Number(Number::Float(v)) => strings.push(format!("{}{:?}", prefix, v)),
         Value::Boolean(v) => strings.push(format!("{}{}", prefix, v)),
         Value::String(v) => strings.push(format!("{}\"{}\"", prefix, v)),
         Value::None => strings.push(format!("{}()", prefix)),
-- 
2.43.0


From f24e460cda6f218584287bbcbe499effb6836444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 33/56] fix: the default assembler and the -d option search the
 paths in SMITHY_PATH

---
 atelier-assembler/src/lib.rs      | 10 +++++++++-
 cargo-atelier/src/command_line.rs |  3 ++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/atelier-assembler/src/lib.rs b/atelier-assembler/src/lib.rs
index 674a4bc..2be09de 100644
--- a/atelier-assembler/src/lib.rs
+++ b/atelier-assembler/src/lib.rs
@@ -112,6 +112,11 @@ pub struct ModelAssembler {
     paths: HashSet<PathBuf>,
 }
 
+///
+/// The name of the environment variable that holds the default search path.
+///
+pub const SEARCH_PATH_VARIABLE: &str = "SMITHY_PATH";
+
 // ------------------------------------------------------------------------------------------------
 // Implementations
 // ------------------------------------------------------------------------------------------------
@@ -289,7 +294,10 @@ impl FileTypeRegistry {
 
 impl Default for ModelAssembler {
     fn default() -> Self {
-        Self::new(FileTypeRegistry::default(), Some(SearchPath::default()))
+        Self::new(
+            FileTypeRegistry::default(),
+            Some(SearchPath::new_or_default(SEARCH_PATH_VARIABLE)),
+        )
     }
 }
 
diff --git a/cargo-atelier/src/command_line.rs b/cargo-atelier/src/command_line.rs
index 563fbc5..3822355 100644
--- a/cargo-atelier/src/command_line.rs
+++ b/cargo-atelier/src/command_line.rs
@@ -1,4 +1,5 @@
 use crate::{Command, DocumentCommand, FileFormat, Options, TransformCommand};
+use atelier_lib::assembler::SEARCH_PATH_VARIABLE;
 use search_path::SearchPath;
 use somedoc::write::OutputFormat;
 use std::error::Error;
@@ -180,7 +181,7 @@ fn check_command_line() -> Vec<String> {
 
 fn make_search_path(default_search_env: bool, search_env: Option<String>) -> Option<SearchPath> {
     if default_search_env {
-        Some(SearchPath::default())
+        Some(SearchPath::new_or_default(SEARCH_PATH_VARIABLE))
     } else {
         search_env.map(|search_env| SearchPath::new_or_default(&search_env))
     }
-- 
2.43.0


From 769d83aaf90f5d517554dfb9acc6cdce6727b23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:09 +0000
Subject: [PATCH 34/56] fix: the assembler finds each file once, in a fixed
 order, and reports what it cannot read

---
 atelier-assembler/src/lib.rs | 66 ++++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 18 deletions(-)

diff --git a/atelier-assembler/src/lib.rs b/atelier-assembler/src/lib.rs
index 2be09de..20c73c3 100644
--- a/atelier-assembler/src/lib.rs
+++ b/atelier-assembler/src/lib.rs
@@ -59,10 +59,11 @@ use atelier_core::model::Model;
 use atelier_json as json;
 use atelier_smithy as smithy;
 use search_path::SearchPath;
-use std::collections::{BTreeMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashSet};
 use std::convert::TryFrom;
 use std::fmt::{Debug, Display, Formatter};
-use std::fs::{read_dir, File};
+use std::fs::{metadata, read_dir, File};
+use std::io::ErrorKind::NotFound;
 use std::path::{Path, PathBuf};
 use std::rc::Rc;
 
@@ -319,7 +320,7 @@ impl TryFrom<&mut ModelAssembler> for Model {
             Ok(Model::default())
         } else {
             let models: std::result::Result<Vec<Model>, Self::Error> = value
-                .expand_file_paths()
+                .find_files()?
                 .iter()
                 .map(|file_name| value.read_model(&file_name))
                 .collect();
@@ -408,15 +409,20 @@ impl ModelAssembler {
 
     ///
     /// This processes all the paths added to the assembler and filters them for those with
-    /// supported file extensions as well as finding files recursively in directory paths.
+    /// supported file extensions as well as finding files recursively in directory paths. Each file
+    /// is returned once, no matter how many paths lead to it, and the files are ordered by their
+    /// actual path. If any of the paths cannot be examined the result is empty, use
+    /// [`Model::try_from`](#impl-TryFrom<ModelAssembler>) to get the error.
     ///
     pub fn expand_file_paths(&self) -> Vec<PathBuf> {
         info!("ModelAssembler::expand_file_paths()");
-        let mut results = Vec::default();
-        for path in &self.paths {
-            self.expand_path(path, &mut results);
+        match self.find_files() {
+            Ok(results) => results,
+            Err(err) => {
+                error!("ModelAssembler::expand_file_paths() - {}", err);
+                Default::default()
+            }
         }
-        results
     }
 
     // --------------------------------------------------------------------------------------------
@@ -424,28 +430,52 @@ impl ModelAssembler {
     fn include_search_path(self, search_path: SearchPath) -> Self {
         debug!("ModelAssembler::include_search_path",);
         let mut mut_self = self;
-        mut_self.paths.extend(search_path.into_iter());
+        // As is usual, entries of a search path do not have to exist.
         mut_self
+            .paths
+            .extend(search_path.into_iter().filter(|path| path.exists()));
+        mut_self
+    }
+
+    fn find_files(&self) -> Result<Vec<PathBuf>> {
+        let mut found = Default::default();
+        let mut directories = Default::default();
+        for path in &self.paths {
+            self.expand_path(path, &mut found, &mut directories)?;
+        }
+        // Different paths, via links for example, may lead to the same file.
+        let mut results: Vec<(PathBuf, PathBuf)> = found.into_iter().collect();
+        results.dedup_by(|left, right| left.0 == right.0);
+        Ok(results.into_iter().map(|(_, path)| path).collect())
     }
 
-    #[allow(clippy::ptr_arg)]
-    fn expand_path(&self, path: &PathBuf, results: &mut Vec<PathBuf>) {
+    fn expand_path(
+        &self,
+        path: &Path,
+        found: &mut BTreeSet<(PathBuf, PathBuf)>,
+        directories: &mut HashSet<PathBuf>,
+    ) -> Result<()> {
         info!("ModelAssembler::expand_path({:?})", path);
-        if path.is_file() {
+        let metadata = metadata(path)?;
+        if metadata.is_file() {
             if let Some(extension) = path.extension() {
                 let extension = extension.to_string_lossy();
                 if self.file_types.contains(extension.as_ref()) {
                     debug!("ModelAssembler::expand_path - adding file path {:?}", path);
-                    let _ = results.push(path.clone());
+                    let _ = found.insert((path.canonicalize()?, path.to_path_buf()));
                 }
             }
-        } else if path.is_dir() {
+        } else if metadata.is_dir() && directories.insert(path.canonicalize()?) {
             debug!("ModelAssembler::expand_path - reading dir path {:?}", path);
-            for entry in read_dir(path).unwrap() {
-                let entry = entry.unwrap();
-                self.expand_path(&entry.path(), results);
+            for entry in read_dir(path)? {
+                match self.expand_path(&entry?.path(), found, directories) {
+                    // A link that leads nowhere.
+                    Err(Error(ErrorKind::Io(err), _)) if err.kind() == NotFound => (),
+                    result => result?,
+                }
             }
         }
+        Ok(())
     }
 
     fn read_model(&self, path: &Path) -> Result<Model> {
@@ -453,7 +483,7 @@ impl ModelAssembler {
         if let Some(extension) = path.extension() {
             let extension = extension.to_string_lossy().to_lowercase();
             if let Some(file_type) = self.file_types.get(extension.as_ref()) {
-                let mut file = File::open(path).unwrap();
+                let mut file = File::open(path)?;
                 Ok(file_type.reader()(&mut file)?)
             } else {
                 error!("ModelAssembler::read_model - not a known extension");
-- 
2.43.0


From 2cacfd1fd4304a8bacc00ee38c34ad112d3cc09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:19 +0000
Subject: [PATCH 35/56] fix: registering several extensions registers the MIME
 type, too

---
 atelier-assembler/src/lib.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/atelier-assembler/src/lib.rs b/atelier-assembler/src/lib.rs
index 20c73c3..31e3ba1 100644
--- a/atelier-assembler/src/lib.rs
+++ b/atelier-assembler/src/lib.rs
@@ -249,9 +249,7 @@ impl FileTypeRegistry {
     ///
     pub fn register_all(&mut self, file_type: Rc<FileType>, extensions: &[&str]) {
         for extension in extensions {
-            let _ = self
-                .by_extension
-                .insert(extension.to_lowercase(), file_type.clone());
+            self.register(file_type.clone(), extension);
         }
     }
 
-- 
2.43.0


From 89d48d7051019488562c9fa926d7ce206f3b38c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:06 +0000
Subject: [PATCH 36/56] fix: an IRI with an authority, query or fragment is not
 a shape URN

---
 atelier-rdf/src/urn.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/atelier-rdf/src/urn.rs b/atelier-rdf/src/urn.rs
index 83cf20d..1f76628 100644
--- a/atelier-rdf/src/urn.rs
+++ b/atelier-rdf/src/urn.rs
@@ -66,6 +66,11 @@ pub fn is_shape_iri(iri: IRIRef) -> bool {
 ///
 pub fn iri_to_shape(iri: IRIRef) -> Result<ShapeID, String> {
     if iri.scheme() == &Some(Scheme::from_str("urn").unwrap()) {
+        if iri.has_authority() || iri.has_query() || iri.has_fragment() {
+            return Err(String::from(
+                "Smithy URN contains an authority, query, or fragment",
+            ));
+        }
         let path = iri.path().to_string();
         if let Some(path) = path.strip_prefix(URN_NID) {
             if path
-- 
2.43.0


From c1874b26c853efbeb8e702fd28642ba3091df3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:06 +0000
Subject: [PATCH 37/56] fix: RDF graphs include metadata, renames, applied
 traits of unresolved shapes, and keep arrays in order

---
 atelier-rdf/src/writer.rs | 93 +++++++++++++++++++++++++++++++++------
 1 file changed, 79 insertions(+), 14 deletions(-)

diff --git a/atelier-rdf/src/writer.rs b/atelier-rdf/src/writer.rs
index 37af978..a4cba99 100644
--- a/atelier-rdf/src/writer.rs
+++ b/atelier-rdf/src/writer.rs
@@ -141,7 +141,7 @@ pub fn model_to_rdf(
         );
     }
     {
-        let mut graph = graph.borrow_mut();
+        let mut graph: RefMut<'_, dyn Graph> = graph.borrow_mut();
         let _ = graph.set_prefix_mappings(mappings);
         let statement_factory = graph.statement_factory();
         let literal_factory = graph.literal_factory();
@@ -167,6 +167,21 @@ pub fn model_to_rdf(
                 )
                 .unwrap(),
         );
+
+        if model.has_metadata() {
+            let metadata = Value::Object(
+                model
+                    .metadata()
+                    .map(|(key, value)| (key.clone(), value.clone()))
+                    .collect(),
+            );
+            from_value(
+                &mut graph,
+                model_subject.clone(),
+                vocabulary::metadata().clone(),
+                &metadata,
+            )?;
+        }
     }
     let visitor = RdfModelVisitor {
         model_subject,
@@ -219,10 +234,6 @@ impl RdfWriter {
 impl ModelVisitor for RdfModelVisitor {
     type Error = ModelError;
 
-    fn metadata(&self, _key: &str, _value: &Value) -> Result<(), Self::Error> {
-        Ok(())
-    }
-
     fn simple_shape(
         &self,
         id: &ShapeID,
@@ -406,6 +417,58 @@ impl ModelVisitor for RdfModelVisitor {
                 )
                 .unwrap(),
         );
+        if shape.has_renames() {
+            let rename_bag = graph.statement_factory().blank_subject();
+            graph.insert(
+                statement_factory
+                    .statement(
+                        statement_factory.named_subject(subject.clone()),
+                        vocabulary::rename().clone(),
+                        statement_factory.subject_as_object(rename_bag.clone()),
+                    )
+                    .unwrap(),
+            );
+            graph.insert(
+                statement_factory
+                    .statement(
+                        rename_bag.clone(),
+                        rdf::a_type().clone(),
+                        statement_factory.named_object(rdf::bag().clone()),
+                    )
+                    .unwrap(),
+            );
+            for (idx, (shape, name)) in shape.renames().enumerate() {
+                let shape_name_pair = graph.statement_factory().blank_subject();
+                graph.insert(
+                    statement_factory
+                        .statement(
+                            rename_bag.clone(),
+                            rdf::member(idx + 1),
+                            statement_factory.subject_as_object(shape_name_pair.clone()),
+                        )
+                        .unwrap(),
+                );
+                graph.insert(
+                    statement_factory
+                        .statement(
+                            shape_name_pair.clone(),
+                            vocabulary::shape().clone(),
+                            statement_factory.named_object(shape_to_iri(shape)),
+                        )
+                        .unwrap(),
+                );
+                graph.insert(
+                    statement_factory
+                        .statement(
+                            shape_name_pair,
+                            vocabulary::name().clone(),
+                            statement_factory
+                                .literal_object(literal_factory.literal(&name.to_string())),
+                        )
+                        .unwrap(),
+                );
+            }
+        }
         for operation in shape.operations() {
             graph.insert(
                 statement_factory
@@ -554,7 +617,7 @@ impl ModelVisitor for RdfModelVisitor {
                     statement_factory
                         .statement(
                             name_target_pair.clone(),
-                            vocabulary::value().clone(),
+                            vocabulary::target().clone(),
                             statement_factory.named_object(shape_to_iri(target).clone()),
                         )
                         .unwrap(),
@@ -663,8 +726,10 @@ impl ModelVisitor for RdfModelVisitor {
         from_traits(&mut graph, statement_factory.named_subject(subject), traits)
     }
 
-    fn unresolved_id(&self, _id: &ShapeID, _traits: &AppliedTraits) -> Result<(), Self::Error> {
-        Ok(())
+    fn unresolved_id(&self, id: &ShapeID, traits: &AppliedTraits) -> Result<(), Self::Error> {
+        let mut graph: RefMut<'_, dyn Graph> = self.graph.borrow_mut();
+        let subject = graph.statement_factory().named_subject(shape_to_iri(id));
+        from_traits(&mut graph, subject, traits)
     }
 }
 
@@ -832,12 +897,12 @@ fn from_value(
                     .statement(
                         the_value.clone(),
                         rdf::a_type().clone(),
-                        statement_factory.named_object(rdf::list().clone()),
+                        statement_factory.named_object(rdf::seq().clone()),
                     )
                     .unwrap(),
             );
-            for value in v {
-                from_value(graph, the_value.clone(), rdf::li().clone(), value)?;
+            for (idx, value) in v.iter().enumerate() {
+                from_value(graph, the_value.clone(), rdf::member(idx + 1), value)?;
             }
         }
         Value::Object(v) => {
@@ -860,13 +925,13 @@ fn from_value(
                     )
                     .unwrap(),
             );
-            for (k, v) in v {
+            for (idx, (k, v)) in v.iter().enumerate() {
                 let kv_pair = graph.statement_factory().blank_subject();
                 graph.insert(
                     statement_factory
                         .statement(
                             the_value.clone(),
-                            rdf::li().clone(),
+                            rdf::member(idx + 1),
                             statement_factory.subject_as_object(kv_pair.clone()),
                         )
                         .unwrap(),
@@ -889,7 +954,7 @@ fn from_value(
                     .statement(
                         subject,
                         predicate,
-                        statement_factory.named_object(rdf::nil().clone()),
+                        statement_factory.named_object(vocabulary::null().clone()),
                     )
                     .unwrap(),
             );
-- 
2.43.0


From 9c1ce111d76f2e37a768617f1d284b1827c4f76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:38 +0000
Subject: [PATCH 38/56] fix: byte and long are numbers, maps are not
 collections, and queries print nothing

---
 atelier-query/src/evaluate.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atelier-query/src/evaluate.rs b/atelier-query/src/evaluate.rs
index ed92c58..8e69a90 100644
--- a/atelier-query/src/evaluate.rs
+++ b/atelier-query/src/evaluate.rs
@@ -52,7 +52,6 @@ fn query_one(
     previously_selected: Projection,
     over_model: &Model,
 ) -> Projection {
-    println!("query_one({:?} |-> {})", previously_selected, query);
     match query {
         SelectorExpression::ShapeType(v) => query_by_shape_type(v, previously_selected, over_model),
         SelectorExpression::AttributeSelector(v) => {
@@ -143,9 +142,11 @@ fn match_by_shape_type(shape_type: &ShapeType, shape: &TopLevelShape) -> bool {
                     shape_body,
                     Simple::BigDecimal
                         | Simple::BigInteger
+                        | Simple::Byte
                         | Simple::Double
                         | Simple::Float
                         | Simple::Integer
+                        | Simple::Long
                         | Simple::Short
                 )
             } else {
@@ -153,7 +154,7 @@ fn match_by_shape_type(shape_type: &ShapeType, shape: &TopLevelShape) -> bool {
             }
         }
         ShapeType::SimpleType => shape_body.is_simple(),
-        ShapeType::Collection => shape_body.is_list() || shape_body.is_set() || shape_body.is_map(),
+        ShapeType::Collection => shape_body.is_list() || shape_body.is_set(),
         ShapeType::Blob => {
             shape_body.is_simple() && matches!(shape.body().as_simple().unwrap(), Simple::Blob)
         }
-- 
2.43.0


From 3a48cd22e5331c41be639a9c263137a0fd70ab10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:38 +0000
Subject: [PATCH 39/56] fix: selector comparisons keep their values, and values
 print as selector text

---
 atelier-core/src/builder/selector.rs   |  8 +++---
 atelier-core/src/model/selector/mod.rs | 37 ++++++--------------------
 2 files changed, 12 insertions(+), 33 deletions(-)

diff --git a/atelier-core/src/builder/selector.rs b/atelier-core/src/builder/selector.rs
index a26ae51..3e3795e 100644
--- a/atelier-core/src/builder/selector.rs
+++ b/atelier-core/src/builder/selector.rs
@@ -1074,7 +1074,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberGreaterThan,
-            &[Value::Text(rhs.to_string()).into()],
+            &[rhs.into()],
         ))
     }
 
@@ -1083,7 +1083,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberGreaterOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
+            &[rhs.into()],
         ))
     }
 
@@ -1092,7 +1092,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberLessThan,
-            &[Value::Text(rhs.to_string()).into()],
+            &[rhs.into()],
         ))
     }
 
@@ -1101,7 +1101,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberLessOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
+            &[rhs.into()],
         ))
     }
 
diff --git a/atelier-core/src/model/selector/mod.rs b/atelier-core/src/model/selector/mod.rs
index d40634e..c851046 100644
--- a/atelier-core/src/model/selector/mod.rs
+++ b/atelier-core/src/model/selector/mod.rs
@@ -596,7 +596,9 @@ impl Display for Value {
             f,
             "{}",
             match self {
+                Value::Text(v) if v.contains('"') => format!("'{}'", v),
                 Value::Text(v) => format!("\"{}\"", v),
+                Value::Number(Number::Float(v)) => format!("{:?}", v),
                 Value::Number(v) => v.to_string(),
                 Value::RootShapeIdentifier(v) => v.to_string(),
                 Value::AbsoluteRootShapeIdentifier(v) => v.to_string(),
@@ -849,10 +851,7 @@ impl AttributeComparison {
 
     /// Create a new comparison between the `AttributeSelector` and `rhs` value with the `^=` operator.
     pub fn string_starts_with(rhs: Value) -> Self {
-        Self::new(
-            Comparator::StringStartsWith,
-            &[Value::Text(rhs.to_string())],
-        )
+        Self::new(Comparator::StringStartsWith, &[rhs])
     }
 
     /// Create a new comparison between the `AttributeSelector` and `rhs` value with the `$=` operator.
@@ -1256,11 +1255,7 @@ impl ScopedAttributeAssertion {
 
     /// Create a new assertion between `lhs` and `rhs` with the `^=` operator.
     pub fn string_starts_with(lhs: ScopedValue, rhs: ScopedValue) -> Self {
-        Self::new(
-            lhs,
-            Comparator::StringStartsWith,
-            &[Value::Text(rhs.to_string()).into()],
-        )
+        Self::new(lhs, Comparator::StringStartsWith, &[rhs])
     }
 
     /// Create a new assertion between `lhs` and `rhs` with the `$=` operator.
@@ -1284,38 +1279,22 @@ impl ScopedAttributeAssertion {
 
     /// Create a new assertion between `lhs` and `rhs` with the `>` operator.
     pub fn number_greater(lhs: ScopedValue, rhs: Number) -> Self {
-        Self::new(
-            lhs,
-            Comparator::NumberGreaterThan,
-            &[Value::Text(rhs.to_string()).into()],
-        )
+        Self::new(lhs, Comparator::NumberGreaterThan, &[rhs.into()])
     }
 
     /// Create a new assertion between `lhs` and `rhs` with the `>=` operator.
     pub fn number_greater_or_equal(lhs: ScopedValue, rhs: Number) -> Self {
-        Self::new(
-            lhs,
-            Comparator::NumberGreaterOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
-        )
+        Self::new(lhs, Comparator::NumberGreaterOrEqual, &[rhs.into()])
     }
 
     /// Create a new assertion between `lhs` and `rhs` with the `<` operator.
     pub fn number_less(lhs: ScopedValue, rhs: Number) -> Self {
-        Self::new(
-            lhs,
-            Comparator::NumberLessThan,
-            &[Value::Text(rhs.to_string()).into()],
-        )
+        Self::new(lhs, Comparator::NumberLessThan, &[rhs.into()])
     }
 
     /// Create a new assertion between `lhs` and `rhs` with the `<=` operator.
     pub fn number_less_or_equal(lhs: ScopedValue, rhs: Number) -> Self {
-        Self::new(
-            lhs,
-            Comparator::NumberLessOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
-        )
+        Self::new(lhs, Comparator::NumberLessOrEqual, &[rhs.into()])
     }
 
     /// Create a new assertion between `lhs` and `rhs` with the `{=}` operator.
-- 
2.43.0


From 3e0b7310484a5771aeae194b044c54bc40be37bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:38 +0000
Subject: [PATCH 40/56] fix: selector text may use >=, <=, exponents and
 leading underscores, and parsing prints nothing

---
 atelier-smithy/src/parser/selector.rs | 13 +++++++------
 atelier-smithy/src/selector.pest      | 13 ++++++-------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/atelier-smithy/src/parser/selector.rs b/atelier-smithy/src/parser/selector.rs
index 45efa16..6a1cce0 100644
--- a/atelier-smithy/src/parser/selector.rs
+++ b/atelier-smithy/src/parser/selector.rs
@@ -37,7 +37,6 @@ pub fn parse_selector(input: &str) -> ModelResult<Selector> {
     match top_pair.as_rule() {
         Rule::input => {
             let inner = top_pair.into_inner().next().unwrap();
-            println!("{:#?}", inner);
             trace!("{:#?}", inner);
             if inner.as_rule() == Rule::selector {
                 parse_a_selector(inner)
@@ -223,12 +222,14 @@ fn parse_selector_value(input_pair: Pair<'_, Rule>) -> ModelResult<Value> {
         }
         Rule::number => {
             let number = inner.as_str();
-            if number.contains('.') {
-                Ok(Value::Number(Number::Float(f64::from_str(number).unwrap())))
+            if number.contains(|c| matches!(c, '.' | 'e' | 'E')) {
+                f64::from_str(number)
+                    .map(|n| Value::Number(Number::Float(n)))
+                    .map_err(|_| ErrorKind::InvalidSelectorExpression(number.to_string()).into())
             } else {
-                Ok(Value::Number(Number::Integer(
-                    i64::from_str(number).unwrap(),
-                )))
+                i64::from_str(number)
+                    .map(|n| Value::Number(Number::Integer(n)))
+                    .map_err(|_| ErrorKind::InvalidSelectorExpression(number.to_string()).into())
             }
         }
         Rule::root_shape_id => {
diff --git a/atelier-smithy/src/selector.pest b/atelier-smithy/src/selector.pest
index de20b25..4c19dd6 100644
--- a/atelier-smithy/src/selector.pest
+++ b/atelier-smithy/src/selector.pest
@@ -93,10 +93,10 @@ comparator_string_in = { "*=" }
 comparator_string_exist = { "?=" }
 
 selector_numeric_comparator =
-    { comparator_number_gt
-    | comparator_number_gte
-    | comparator_number_lt
-    | comparator_number_lte }
+    { comparator_number_gte
+    | comparator_number_gt
+    | comparator_number_lte
+    | comparator_number_lt }
 
 comparator_number_gt = { ">" }
 
@@ -173,8 +173,7 @@ selector_variable_get =
 // ------------------------------------------------------------------------------------------------
 
 identifier =
-    @{ ( ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* )
-    |  ( "_" ~ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")*) }
+    @{ "_"* ~ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* }
 
 namespace =
     @{ identifier ~ ("." ~ identifier)* }
@@ -216,4 +215,4 @@ zero =
 // Allows default whitespace handling
 // ------------------------------------------------------------------------------------------------
 
-WHITESPACE = _{ " " | "\t" | "\n" }
\ No newline at end of file
+WHITESPACE = _{ " " | "\t" | "\r" | "\n" }
\ No newline at end of file
-- 
2.43.0


From 3b770681d16621d66763ff1786c39ef126559200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:16 +0000
Subject: [PATCH 41/56] fix: GraphML escapes service versions, declares the key
 it uses, and numbers any number of edges

---
 atelier-describe/src/graphml/writer.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/atelier-describe/src/graphml/writer.rs b/atelier-describe/src/graphml/writer.rs
index 7e80a28..ebacf8b 100644
--- a/atelier-describe/src/graphml/writer.rs
+++ b/atelier-describe/src/graphml/writer.rs
@@ -35,7 +35,7 @@ For the _message of the day_ model, this writer will generate the following XML.
     xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"
     xsi:schemaLocation="http://graphml.graphdrawing.org/xmlns
         http://graphml.graphdrawing.org/xmlns/1.0/graphml.xsd">
-    <key id="smithy-version" for="graph" attr.name="smithy.version" attr.type="string"/>
+    <key id="smithy.version" for="graph" attr.name="smithy.version" attr.type="string"/>
     <key id="type" for="node" attr.name="type" attr.type="string"/>
     <key id="version" for="node" attr.name="version" attr.type="string"/>
     <key id="trait" for="edge" attr.name="trait" attr.type="boolean"/>
@@ -140,7 +140,7 @@ pub struct GraphMLWriter {}
 // ------------------------------------------------------------------------------------------------
 
 struct VisitorState<'a, W: Write> {
-    edge_count: u16,
+    edge_count: u64,
     writer: &'a mut W,
 }
 #[allow(clippy::upper_case_acronyms)]
@@ -212,7 +212,7 @@ impl GraphMLWriter {
         // ----------------------------------------------------------------------------------------
         writeln!(
             w,
-            r#"    <key id="smithy-version" for="graph" attr.name="smithy.version" attr.type="string"/>"#
+            r#"    <key id="smithy.version" for="graph" attr.name="smithy.version" attr.type="string"/>"#
         )?;
         // ----------------------------------------------------------------------------------------
         // Node attributes
@@ -355,7 +355,7 @@ impl<'a, W: Write> ModelVisitor for GraphMLVisitor<'a, W> {
             writeln!(
                 state.writer,
                 r#"            <data key="version">{}</data>"#,
-                value.version()
+                escape(value.version())
             )?;
             writeln!(state.writer, r#"        </node>"#)?;
         }
@@ -464,6 +464,14 @@ impl<'a, W: Write> GraphMLVisitor<'a, W> {
 // Private Functions
 // ------------------------------------------------------------------------------------------------
 
+/// Escape the characters that may not appear as themselves in the content of an XML element.
+fn escape(text: &str) -> String {
+    text.replace('&', "&amp;")
+        .replace('<', "&lt;")
+        .replace('>', "&gt;")
+        .replace('\r', "&#13;")
+}
+
 // ------------------------------------------------------------------------------------------------
 // Modules
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From 2debbffc77008bda5654ceb54119fbad114c9720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:33 +0000
Subject: [PATCH 42/56] fix: PlantUML shows each shape in its own package,
 names lifecycle operations, and accepts undefined operations

---
 atelier-describe/src/plant_uml/writer.rs | 53 +++++++++++++-----------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/atelier-describe/src/plant_uml/writer.rs b/atelier-describe/src/plant_uml/writer.rs
index 9a5a662..f7ea1e4 100644
--- a/atelier-describe/src/plant_uml/writer.rs
+++ b/atelier-describe/src/plant_uml/writer.rs
@@ -114,10 +114,11 @@ use atelier_core::model::HasIdentity;
 use atelier_core::model::{Model, NamespaceID, ShapeID};
 use atelier_core::prelude::PRELUDE_NAMESPACE;
 use atelier_core::syntax::{
-    MEMBER_COLLECTION_OPERATIONS, MEMBER_OPERATIONS, MEMBER_VERSION, SHAPE_BIG_DECIMAL,
-    SHAPE_BIG_INTEGER, SHAPE_BLOB, SHAPE_BOOLEAN, SHAPE_BYTE, SHAPE_DOCUMENT, SHAPE_DOUBLE,
-    SHAPE_FLOAT, SHAPE_INTEGER, SHAPE_LONG, SHAPE_RESOURCE, SHAPE_SERVICE, SHAPE_SHORT,
-    SHAPE_STRING, SHAPE_TIMESTAMP, SHAPE_UNION,
+    MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_LIST, MEMBER_OPERATIONS,
+    MEMBER_PUT, MEMBER_READ, MEMBER_UPDATE, MEMBER_VERSION, SHAPE_BIG_DECIMAL, SHAPE_BIG_INTEGER,
+    SHAPE_BLOB, SHAPE_BOOLEAN, SHAPE_BYTE, SHAPE_DOCUMENT, SHAPE_DOUBLE, SHAPE_FLOAT,
+    SHAPE_INTEGER, SHAPE_LONG, SHAPE_RESOURCE, SHAPE_SERVICE, SHAPE_SHORT, SHAPE_STRING,
+    SHAPE_TIMESTAMP, SHAPE_UNION,
 };
 use std::collections::HashSet;
 use std::io::Write;
@@ -167,7 +168,10 @@ impl ModelWriter for PlantUmlWriter {
         for namespace in namespaces {
             writeln!(w, "package {} {{", namespace)?;
             writeln!(w)?;
-            for element in model.shapes() {
+            for element in model
+                .shapes()
+                .filter(|shape| shape.id().namespace() == namespace)
+            {
                 match element.body() {
                     ShapeKind::Simple(_) => self.write_data_type(w, element, model)?,
                     ShapeKind::Service(_) => self.write_service(w, element, model)?,
@@ -233,7 +237,7 @@ impl PlantUmlWriter {
         let body = service.body().as_service().unwrap();
         writeln!(
             w,
-            "        {}: {} = \"{}\"",
+            "        {}: {} = {:?}",
             MEMBER_VERSION,
             SHAPE_STRING,
             body.version()
@@ -263,22 +267,22 @@ impl PlantUmlWriter {
             writeln!(w, "        {}: {}", id, shape_id)?;
         }
         if let Some(id) = body.create() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some(MEMBER_CREATE))?;
         }
         if let Some(id) = body.put() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some(MEMBER_PUT))?;
         }
         if let Some(id) = body.read() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some(MEMBER_READ))?;
         }
         if let Some(id) = body.update() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some(MEMBER_UPDATE))?;
         }
         if let Some(id) = body.delete() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some(MEMBER_DELETE))?;
         }
         if let Some(id) = body.list() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some(MEMBER_LIST))?;
         }
         if body.has_operations() {
             writeln!(w, "        ..{}..", MEMBER_OPERATIONS)?;
@@ -340,7 +344,7 @@ impl PlantUmlWriter {
         writeln!(w, "    class {} <<dataType>> {{", data_type.id())?;
         let notes = self.write_class_traits(w, data_type, model)?;
         writeln!(w, "    }}")?;
-        writeln!(w, "    {}", notes.join("\n"))?;
+        self.write_class_notes(w, data_type.id(), notes)?;
         if self.expand_smithy_api {
             let simple = data_type.body().as_simple().unwrap();
             writeln!(
@@ -362,26 +366,25 @@ impl PlantUmlWriter {
         model: &Model,
         other_name: Option<&str>,
     ) -> atelier_core::error::Result<()> {
-        let operation = model.shape(oper_id).unwrap();
-        let name = operation.id();
-        let operation = operation.body().as_operation().unwrap();
+        let operation = model
+            .shape(oper_id)
+            .and_then(|shape| shape.body().as_operation());
+        let input = operation.and_then(|operation| operation.input().as_ref());
+        let output = operation.and_then(|operation| operation.output().as_ref());
         writeln!(
             w,
             "        {}(in: {}){}",
             match other_name {
-                None => name.to_string(),
+                None => oper_id.to_string(),
                 Some(name) => name.to_string(),
             },
-            if operation.has_input() {
-                self.type_string(&operation.input().as_ref().unwrap(), model)
+            if let Some(input) = input {
+                self.type_string(input, model)
             } else {
                 String::new()
             },
-            if operation.has_output() {
-                format!(
-                    ": {}",
-                    self.type_string(&operation.output().as_ref().unwrap(), model)
-                )
+            if let Some(output) = output {
+                format!(": {}", self.type_string(output, model))
             } else {
                 String::new()
             },
@@ -407,7 +410,7 @@ impl PlantUmlWriter {
             } else {
                 traits.push(match value {
                     None | Some(Value::None) => format!("    @{}", id),
-                    Some(Value::String(v)) => format!("    @{} = \"{}\"", id, v),
+                    Some(Value::String(v)) => format!("    @{} = {:?}", id, v),
                     Some(Value::Number(v)) => format!("    @{} = {}", id, v),
                     Some(Value::Boolean(v)) => format!("    @{} = {}", id, v),
                     Some(Value::Array(_)) => format!("    @{} = [ .. ]", id),
-- 
2.43.0


From 52c2266c242bbadb70a2a35ffb00292ad8d79539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 43/56] fix: documentation shows whole trait paths and plain
 links, sorts namespaces, and accepts any documentation value and any shape
 name

---
 atelier-describe/src/document/writer.rs | 41 ++++++++++++++++---------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/atelier-describe/src/document/writer.rs b/atelier-describe/src/document/writer.rs
index 4831a20..33a0201 100644
--- a/atelier-describe/src/document/writer.rs
+++ b/atelier-describe/src/document/writer.rs
@@ -137,7 +137,9 @@ fn describe_this_model(model: &Model, doc: &mut Document) {
     }
 
     if model.has_shapes() {
-        for namespace in model.namespaces() {
+        let mut namespaces: Vec<&NamespaceID> = model.namespaces().into_iter().collect();
+        namespaces.sort();
+        for namespace in namespaces {
             describe_model_shapes(model, namespace, doc);
         }
     }
@@ -203,26 +205,36 @@ fn trait_value(
         Value::String(v) => result.push((id, prefix, Some(v.to_string()))),
         Value::Array(vs) => {
             if vs.is_empty() {
-                result.push((id, None, None))
+                result.push((id, prefix, None))
             } else {
+                let prefix = prefix.unwrap_or_default();
                 for (i, v) in vs.iter().enumerate() {
-                    result.extend(trait_value(id.clone(), Some(format!("[{}]", i)), v));
+                    result.extend(trait_value(
+                        id.clone(),
+                        Some(format!("{}[{}]", prefix, i)),
+                        v,
+                    ));
                 }
             }
         }
         Value::Object(vs) => {
             if vs.is_empty() {
-                result.push((id, None, None))
+                result.push((id, prefix, None))
             } else {
+                let prefix = prefix.unwrap_or_default();
                 let mut obj_keys: Vec<&String> = vs.keys().collect();
                 obj_keys.sort();
                 for k in obj_keys {
                     let v = vs.get(k).unwrap();
-                    result.extend(trait_value(id.clone(), Some(format!(".{}", k)), v));
+                    result.extend(trait_value(
+                        id.clone(),
+                        Some(format!("{}.{}", prefix, k)),
+                        v,
+                    ));
                 }
             }
         }
-        _ => result.push((id, None, None)),
+        _ => result.push((id, prefix, None)),
     }
     result
 }
@@ -278,8 +290,8 @@ fn describe_traits(shape: &impl HasTraits, doc: &mut Document) {
 
 fn describe_documentation(shape: &impl HasTraits, doc: &mut Document) {
     let trait_id = ShapeID::new_unchecked(PRELUDE_NAMESPACE, TRAIT_DOCUMENTATION, None);
-    if let Some(Some(doc_value)) = shape.trait_named(&trait_id) {
-        let _ = doc.add_paragraph(Paragraph::plain_str(doc_value.as_string().unwrap()));
+    if let Some(Some(Value::String(doc_value))) = shape.trait_named(&trait_id) {
+        let _ = doc.add_paragraph(Paragraph::plain_str(doc_value));
     }
 
     let trait_id = ShapeID::new_unchecked(PRELUDE_NAMESPACE, TRAIT_EXTERNALDOCUMENTATION, None);
@@ -287,8 +299,12 @@ fn describe_documentation(shape: &impl HasTraits, doc: &mut Document) {
         let mut links: Vec<InlineContent> = value_map
             .iter()
             .map(|(k, v)| {
+                let url = match v {
+                    Value::String(url) => url.clone(),
+                    _ => v.to_string(),
+                };
                 InlineContent::HyperLink(HyperLink::external_with_caption(
-                    &v.to_string(),
+                    &url,
                     Caption::from(k.to_string()),
                 ))
             })
@@ -304,12 +320,9 @@ fn describe_documentation(shape: &impl HasTraits, doc: &mut Document) {
 
 fn shape_id_to_label(source: &ShapeID) -> Label {
     if let Some(member) = source.member_name() {
-        Label::safe_from(
-            &format!("{}_{}", source.shape_name(), member),
-            Some("member"),
-        )
+        Label::safe_from(&format!("member:{}_{}", source.shape_name(), member), None)
     } else {
-        Label::safe_from(&format!("{}", source.shape_name()), Some("shape"))
+        Label::safe_from(&format!("shape:{}", source.shape_name()), None)
     }
 }
 
-- 
2.43.0


From 70eeab912bc968d601df8aff4b734448fd58b6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 44/56] fix: writing a model to a file creates the file

---
 atelier-core/src/io/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-core/src/io/mod.rs b/atelier-core/src/io/mod.rs
index b071ccf..a5d9825 100644
--- a/atelier-core/src/io/mod.rs
+++ b/atelier-core/src/io/mod.rs
@@ -111,7 +111,7 @@ pub fn write_model_to_file(
     model: &Model,
     path: PathBuf,
 ) -> ModelResult<()> {
-    let mut file = File::open(path)?;
+    let mut file = File::create(path)?;
     w.write(&mut file, model)?;
     Ok(())
 }
-- 
2.43.0


From 786b473e6e10f9c4b12cf2af279e4bff5ae385c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:34 +0000
Subject: [PATCH 45/56] fix: the command line tool creates its output file, and
 reports every error with a failing exit status

---
 cargo-atelier/src/actions.rs  | 53 ++++++++++++++++++-----------------
 cargo-atelier/src/bin/main.rs | 22 +++++++++------
 2 files changed, 42 insertions(+), 33 deletions(-)

diff --git a/cargo-atelier/src/actions.rs b/cargo-atelier/src/actions.rs
index 9116673..6ead29f 100644
--- a/cargo-atelier/src/actions.rs
+++ b/cargo-atelier/src/actions.rs
@@ -81,31 +81,36 @@ fn write_model(
     output_format: FileFormat,
     namespace: Option<String>,
 ) -> Result<(), Box<dyn Error>> {
-    let mut file: Box<dyn Write> = match output_file {
-        None => Box::new(std::io::stdout()),
-        Some(file_name) => Box::new(File::open(file_name)?),
-    };
-
-    match output_format {
-        FileFormat::Json => write_json(&mut file, model),
-        FileFormat::Smithy => {
-            if let Some(namespace) = namespace {
-                write_smithy(&mut file, model, NamespaceID::from_str(&namespace).unwrap())
+    // the namespace is only required, and so only checked, for the Smithy IDL.
+    let namespace = match (&output_format, namespace) {
+        (FileFormat::Smithy, Some(namespace)) => Some(NamespaceID::from_str(&namespace)?),
+        (FileFormat::Smithy, None) => {
+            let namespaces = model.namespaces();
+            if namespaces.len() == 1 {
+                namespaces.into_iter().next().cloned()
             } else {
-                let namespaces = &model.namespaces();
-                if namespaces.len() == 1 {
-                    write_smithy(
-                        &mut file,
-                        model,
-                        (*namespaces.iter().next().unwrap()).clone(),
-                    )
-                } else {
-                    panic!("A namespace value is required for writing Smithy IDL");
-                }
+                return Err("A namespace value is required for writing Smithy IDL".into());
             }
         }
-        FileFormat::Uml => write_uml(&mut file, model),
+        _ => None,
+    };
+
+    let mut file = open_output(output_file)?;
+
+    match (output_format, namespace) {
+        (FileFormat::Smithy, Some(namespace)) => write_smithy(&mut file, model, namespace)?,
+        (FileFormat::Uml, _) => write_uml(&mut file, model)?,
+        _ => write_json(&mut file, model)?,
     }
+    file.flush()?;
+    Ok(())
+}
+
+fn open_output(output_file: Option<PathBuf>) -> Result<Box<dyn Write>, Box<dyn Error>> {
+    Ok(match output_file {
+        None => Box::new(std::io::stdout()),
+        Some(file_name) => Box::new(File::create(file_name)?),
+    })
 }
 
 fn transform_file(
@@ -134,11 +139,9 @@ fn document_a_file(
 ) -> Result<(), Box<dyn Error>> {
     let document = describe_model(&input_model)?;
 
-    let mut file: Box<dyn Write> = match output_file {
-        None => Box::new(std::io::stdout()),
-        Some(file_name) => Box::new(File::open(file_name)?),
-    };
+    let mut file = open_output(output_file)?;
     write_document(&document, output_format, &mut file)?;
+    file.flush()?;
     Ok(())
 }
 
diff --git a/cargo-atelier/src/bin/main.rs b/cargo-atelier/src/bin/main.rs
index 2fe7a53..054efc4 100644
--- a/cargo-atelier/src/bin/main.rs
+++ b/cargo-atelier/src/bin/main.rs
@@ -1,8 +1,20 @@
 use cargo_atelier::{actions, command_line, report, Command};
 use std::error::Error;
 
-fn main() -> Result<(), Box<dyn Error>> {
-    let result = match command_line::parse()? {
+fn main() {
+    if let Err(err) = run() {
+        eprintln!("{}", err);
+        let mut source = err.source();
+        while let Some(err) = source {
+            eprintln!("{}", err);
+            source = err.source();
+        }
+        std::process::exit(1);
+    }
+}
+
+fn run() -> Result<(), Box<dyn Error>> {
+    match command_line::parse()? {
         Command::Lint(cmd, search_path, options) => {
             report::report_action_issues(actions::lint_file(cmd, search_path)?, options.use_color)
         }
@@ -12,11 +24,5 @@ fn main() -> Result<(), Box<dyn Error>> {
         ),
         Command::Convert(cmd, search_path, _) => actions::convert_file_format(cmd, search_path),
         Command::Document(cmd, search_path, _) => actions::document_file(cmd, search_path),
-    };
-
-    if result.is_err() {
-        eprintln!("{}", (&result).as_ref().err().unwrap().source().unwrap())
     }
-
-    Ok(())
 }
-- 
2.43.0


From 96a3eec135c26c806dd4c0eb141a1d1ea37dd22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:13 +0000
Subject: [PATCH 46/56] fix: documentation writers report every write error

---
 atelier-describe/src/document/writer.rs | 8 ++++----
 cargo-atelier/src/actions.rs            | 7 +++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/atelier-describe/src/document/writer.rs b/atelier-describe/src/document/writer.rs
index 33a0201..b021c34 100644
--- a/atelier-describe/src/document/writer.rs
+++ b/atelier-describe/src/document/writer.rs
@@ -71,7 +71,7 @@ use somedoc::model::inline::HyperLink;
 use somedoc::model::inline::{HasInlineContent, InlineContent, Span};
 use somedoc::model::Document;
 use somedoc::write::markdown::MarkdownFlavor;
-use somedoc::write::{write_document, OutputFormat};
+use somedoc::write::{write_document_to_string, OutputFormat};
 use std::io::Write;
 
 // ------------------------------------------------------------------------------------------------
@@ -113,12 +113,12 @@ impl Default for DocumentationWriter {
 impl ModelWriter for DocumentationWriter {
     fn write(&mut self, w: &mut impl Write, model: &Model) -> ModelResult<()> {
         let document = describe_model(model)?;
-        match write_document(
+        // the document writers do not report every error of their output, writing the text does.
+        match write_document_to_string(
             &document,
             OutputFormat::Markdown(MarkdownFlavor::CommonMark),
-            w,
         ) {
-            Ok(_) => Ok(()),
+            Ok(text) => Ok(w.write_all(text.as_bytes())?),
             Err(err) => Err(err.to_string().into()),
         }
     }
diff --git a/cargo-atelier/src/actions.rs b/cargo-atelier/src/actions.rs
index 6ead29f..fc3e1d9 100644
--- a/cargo-atelier/src/actions.rs
+++ b/cargo-atelier/src/actions.rs
@@ -10,7 +10,7 @@ use atelier_lib::format::json::JsonWriter;
 use atelier_lib::format::plant_uml::writer::PlantUmlWriter;
 use atelier_lib::format::smithy::SmithyWriter;
 use search_path::SearchPath;
-use somedoc::write::{write_document, OutputFormat};
+use somedoc::write::{write_document_to_string, OutputFormat};
 use std::convert::TryFrom;
 use std::error::Error;
 use std::fs::File;
@@ -139,8 +139,11 @@ fn document_a_file(
 ) -> Result<(), Box<dyn Error>> {
     let document = describe_model(&input_model)?;
 
+    // the document writers do not report every error of their output, writing the text does.
+    let text = write_document_to_string(&document, output_format)?;
+
     let mut file = open_output(output_file)?;
-    write_document(&document, output_format, &mut file)?;
+    file.write_all(text.as_bytes())?;
     file.flush()?;
     Ok(())
 }
-- 
2.43.0


From b23f6ce557e5858f5902e931e6fafd679d20e81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:52 +0000
Subject: [PATCH 47/56] fix: the command line refuses both search paths
 together, and arguments that are not UTF-8, without a panic

---
 cargo-atelier/src/command_line.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cargo-atelier/src/command_line.rs b/cargo-atelier/src/command_line.rs
index 3822355..1b3ecb4 100644
--- a/cargo-atelier/src/command_line.rs
+++ b/cargo-atelier/src/command_line.rs
@@ -3,7 +3,9 @@ use atelier_lib::assembler::SEARCH_PATH_VARIABLE;
 use search_path::SearchPath;
 use somedoc::write::OutputFormat;
 use std::error::Error;
+use std::ffi::OsString;
 use std::path::PathBuf;
+use structopt::clap::AppSettings;
 use structopt::StructOpt;
 
 // ------------------------------------------------------------------------------------------------
@@ -11,7 +13,11 @@ use structopt::StructOpt;
 // ------------------------------------------------------------------------------------------------
 
 #[derive(Debug, StructOpt)]
-#[structopt(name = "cargo-atelier", about = "Tools for the Smithy IDL.")]
+#[structopt(
+    name = "cargo-atelier",
+    about = "Tools for the Smithy IDL.",
+    global_settings = &[AppSettings::StrictUtf8]
+)]
 struct CommandLine {
     /// The level of logging to perform; from off to trace
     #[structopt(long, short = "v", parse(from_occurrences))]
@@ -33,11 +39,11 @@ struct FileInput {
     in_file: Vec<PathBuf>,
 
     /// If set, the standard SMITHY_PATH environment variable is used as a search path.
-    #[structopt(long, short, conflicts_with = "search_env")]
+    #[structopt(long, short, conflicts_with = "search-env")]
     default_search_env: bool,
 
     /// The name of an environment variable to use as a search path.
-    #[structopt(long, short, conflicts_with = "default_search_env")]
+    #[structopt(long, short, conflicts_with = "default-search-env")]
     search_env: Option<String>,
 }
 
@@ -166,9 +172,9 @@ pub fn parse() -> Result<Command, Box<dyn Error>> {
 // Private Functions
 // ------------------------------------------------------------------------------------------------
 
-fn check_command_line() -> Vec<String> {
+fn check_command_line() -> Vec<OsString> {
     use std::env;
-    let mut args = env::args().collect::<Vec<String>>();
+    let mut args = env::args_os().collect::<Vec<OsString>>();
 
     if let Some(command) = args.get(1) {
         // The following is true if this is run as a cargo sub-command.
-- 
2.43.0


From ea39ea750a6dd3c2f5a972a979a152ac547303da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:11 +0000
Subject: [PATCH 48/56] fix: lint and validate report a failure of their output
 instead of panicking

---
 cargo-atelier/src/report.rs | 40 +++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/cargo-atelier/src/report.rs b/cargo-atelier/src/report.rs
index a2e79b0..819bc0c 100644
--- a/cargo-atelier/src/report.rs
+++ b/cargo-atelier/src/report.rs
@@ -1,5 +1,6 @@
 use atelier_lib::core::action::{ActionIssue, IssueLevel};
 use std::error::Error;
+use std::io::{stdout, Write};
 
 #[cfg(feature = "color")]
 use colored::Colorize;
@@ -9,42 +10,46 @@ use colored::Colorize;
 // ------------------------------------------------------------------------------------------------
 
 pub fn report_action_issues(issues: Vec<ActionIssue>, color: bool) -> Result<(), Box<dyn Error>> {
-    println!();
+    let mut w = stdout();
+    writeln!(w)?;
     if !issues.is_empty() {
         for issue in issues {
             if color {
-                report_issue(issue)
+                report_issue(&mut w, issue)?
             } else {
-                report_issue_no_color(issue)
+                report_issue_no_color(&mut w, issue)?
             }
         }
     } else {
-        println!("No issues reported.");
+        writeln!(w, "No issues reported.")?;
     }
+    w.flush()?;
     Ok(())
 }
 
-fn report_issue_no_color(issue: ActionIssue) {
-    println!("[{}] {}", issue.level(), issue.message(),);
-    println!(
+fn report_issue_no_color(w: &mut impl Write, issue: ActionIssue) -> std::io::Result<()> {
+    writeln!(w, "[{}] {}", issue.level(), issue.message(),)?;
+    writeln!(
+        w,
         "\tReported by {} for element {}.",
         issue.reporter(),
         match issue.locus() {
             Some(id) => id.to_string(),
             None => String::new(),
         }
-    );
-    println!()
+    )?;
+    writeln!(w)
 }
 
 #[cfg(not(feature = "color"))]
-fn report_issue(issue: ActionIssue) {
-    report_issue_no_color(issue)
+fn report_issue(w: &mut impl Write, issue: ActionIssue) -> std::io::Result<()> {
+    report_issue_no_color(w, issue)
 }
 
 #[cfg(feature = "color")]
-fn report_issue(issue: ActionIssue) {
-    println!(
+fn report_issue(w: &mut impl Write, issue: ActionIssue) -> std::io::Result<()> {
+    writeln!(
+        w,
         "{} {}",
         match issue.level() {
             IssueLevel::Info => "[info]".normal(),
@@ -52,9 +57,10 @@ fn report_issue(issue: ActionIssue) {
             IssueLevel::Error => "[error]".bright_red(),
         },
         issue.message().bold()
-    );
+    )?;
 
-    println!(
+    writeln!(
+        w,
         "{}",
         format!(
             "\tReported by {}{}.",
@@ -65,6 +71,6 @@ fn report_issue(issue: ActionIssue) {
             }
         )
         .dimmed()
-    );
-    println!()
+    )?;
+    writeln!(w)
 }
-- 
2.43.0


From e6258c650a6a78a645c481e1bc21dc3bcd2c9dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:45 +0000
Subject: [PATCH 49/56] fix: a member's own id as target or trait name is an
 error, not a panic

---
 atelier-smithy/src/parser/smithy.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 9e02438..fda4a87 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -315,7 +315,7 @@ fn parse_a_trait(input_pair: Pair<'_, Rule>) -> ModelResult<TraitBuilder> {
     for inner in input_pair.into_inner() {
         match inner.as_rule() {
             Rule::shape_id => {
-                id = Some(inner.as_str().to_string());
+                id = Some(ShapeName::from_str(inner.as_str())?.to_string());
             }
             Rule::node_value => {
                 node_value = Some(parse_node_value(inner)?);
@@ -520,7 +520,7 @@ fn parse_shape_member_kvp(input_pair: Pair<'_, Rule>) -> ModelResult<MemberBuild
                 id = Some(inner.as_str().to_string());
             }
             Rule::shape_id => {
-                shape_id = Some(inner.as_str().to_string());
+                shape_id = Some(ShapeName::from_str(inner.as_str())?.to_string());
             }
             _ => unexpected!("parse_shape_member_kvp", inner),
         }
-- 
2.43.0


From b5628577cc11b6a1e46fbaaf3c83963d4ccdc29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:26 +0000
Subject: [PATCH 50/56] fix: the documentation of each member stands with the
 member, not before all members

---
 atelier-describe/src/document/writer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/atelier-describe/src/document/writer.rs b/atelier-describe/src/document/writer.rs
index b021c34..f2f0bbb 100644
--- a/atelier-describe/src/document/writer.rs
+++ b/atelier-describe/src/document/writer.rs
@@ -368,16 +368,17 @@ fn describe_map(shape_id: &ShapeID, shape: &Map, doc: &mut Document) {
 fn describe_structure_or_union(shape_id: &ShapeID, shape: &StructureOrUnion, doc: &mut Document) {
     if shape.has_members() {
         let _ = doc.add_heading(Heading::sub_sub_section("Members"));
-        let mut indent = Quote::default();
         for member in shape.members() {
+            // what is said about a member stands right before it.
+            describe_documentation(member, doc);
+            let mut indent = Quote::default();
             let _ = indent.add_paragraph(Paragraph::from(vec![
                 Span::code_str(&member.id().to_string()).into(),
                 Span::plain_str(": ").into(),
                 shape_link(shape_id, member.target()),
             ]));
-            describe_documentation(member, doc);
+            let _ = doc.add_block_quote(indent);
         }
-        let _ = doc.add_block_quote(indent);
     }
 }
 
-- 
2.43.0


From 144ff1048ba154aebb946380e7cfd558917539f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:04 +0000
Subject: [PATCH 51/56] fix: a repeated member of a built structure or union
 merges like a repeated shape, instead of replacing the first

---
 atelier-core/src/builder/mod.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 338e872..b59c751 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -19,11 +19,11 @@ For more information, see [the Rust Atelier book](https://rust-atelier.dev/using
 use crate::builder::id::ShapeName;
 use crate::error::{Error, ErrorKind};
 use crate::model::shapes::{
-    merge_traits, ListOrSet, Map, MemberShape, Operation, Resource, Service, ShapeKind,
+    merge_traits, HasTraits, ListOrSet, Map, MemberShape, Operation, Resource, Service, ShapeKind,
     StructureOrUnion, TopLevelShape,
 };
 use crate::model::values::{Value, ValueMap};
-use crate::model::{Identifier, Model, NamespaceID, ShapeID};
+use crate::model::{HasIdentity, Identifier, Model, NamespaceID, ShapeID};
 use crate::prelude::{
     defined_prelude_shapes, defined_prelude_traits, prelude_namespace_id, PRELUDE_NAMESPACE,
 };
@@ -495,7 +495,24 @@ impl ModelBuilder {
                 ))
             })
             .collect();
-        members.map(|members| StructureOrUnion::with_members(&members))
+        let mut inner = StructureOrUnion::default();
+        for member in members? {
+            // As for shapes, a repeated member has to be the same but for its traits.
+            match inner.members.get_mut(member.id()) {
+                None => {
+                    let _ = inner.add_a_member(member);
+                }
+                Some(existing) if existing.target() == member.target() => {
+                    existing.append_traits(member.traits())?;
+                }
+                Some(_) => {
+                    let shape_id = self.defined_shape_id(&builder.shape_name)?;
+                    let member_id = shape_id.make_member(member.id().clone());
+                    return Err(ErrorKind::MergeShapeConflict(member_id).into());
+                }
+            }
+        }
+        Ok(inner)
     }
 
     fn make_structure(
-- 
2.43.0


From 919cc87143951113cf6f48949df3475b0800109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:03 +0000
Subject: [PATCH 52/56] fix: a key that is repeated in an IDL object, or in the
 control section, is an error

---
 atelier-smithy/src/parser/smithy.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index fda4a87..b70a902 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -118,7 +118,7 @@ fn parse_control_section(input_pair: Pair<'_, Rule>) -> ModelResult<ValueMap> {
             Rule::control_statement,
             parse_key_value_pair
         );
-        let _ = map.insert(key, value);
+        insert_once("parse_control_section", &mut map, key, value)?;
     }
     Ok(map)
 }
@@ -322,7 +322,7 @@ fn parse_a_trait(input_pair: Pair<'_, Rule>) -> ModelResult<TraitBuilder> {
             }
             Rule::trait_structure_kvp => {
                 let (id, value) = parse_key_value_pair(inner)?;
-                let _ = members.insert(id, value);
+                insert_once("parse_a_trait", &mut members, id, value)?;
             }
             _ => unexpected!("parse_a_trait", inner),
         }
@@ -794,7 +794,7 @@ fn parse_properties(input_pair: Pair<'_, Rule>) -> ModelResult<NodeValue> {
         }
         match (key, value) {
             (Some(key), Some(value)) => {
-                let _ = properties.insert(key, value);
+                insert_once("parse_properties", &mut properties, key, value)?;
             }
             _ => return ParserError::unreachable("parse_properties").into(),
         }
@@ -802,6 +802,21 @@ fn parse_properties(input_pair: Pair<'_, Rule>) -> ModelResult<NodeValue> {
     Ok(NodeValue::Object(properties))
 }
 
+/// Keys are not repeated, neither in an object nor in the control section.
+fn insert_once(
+    fn_name: &str,
+    object: &mut ValueMap,
+    key: String,
+    value: NodeValue,
+) -> ModelResult<()> {
+    if object.contains_key(&key) {
+        ParserError::new(fn_name).context(&key).into()
+    } else {
+        let _ = object.insert(key, value);
+        Ok(())
+    }
+}
+
 /// The value of a property that names a shape.
 fn shape_name_from(fn_name: &str, value: &NodeValue) -> ModelResult<String> {
     match value {
@@ -983,7 +998,7 @@ fn parse_node_object(input_pair: Pair<'_, Rule>) -> ModelResult<NodeValue> {
         match inner.as_rule() {
             Rule::node_object_kvp => {
                 let (key, value) = parse_node_object_kvp(inner)?;
-                let _ = object.insert(key, value);
+                insert_once("parse_node_object", &mut object, key, value)?;
             }
             _ => unexpected!("parse_node_object", inner),
         }
-- 
2.43.0


From 0aa70f750f38e767e9c7f2b54ba54aac19958b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:50 +0000
Subject: [PATCH 53/56] fix: two keys of a JSON object that are the same id or
 name are an error, no value is dropped

---
 atelier-json/src/reader.rs | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index ab6b66c..ee51f51 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -19,6 +19,8 @@ use atelier_core::syntax::{
 use atelier_core::Version;
 use serde_json::{from_reader, Map, Value};
 use std::collections::HashMap;
+use std::fmt::Display;
+use std::hash::Hash;
 use std::io::Read;
 use std::str::FromStr;
 
@@ -260,13 +262,14 @@ impl JsonReader {
         for (k, v) in json {
             let id = ShapeID::from_str(k)?;
             let inner = self.value(v)?;
-            let _ = traits.insert(id, Some(inner));
+            insert_once(&mut traits, id, Some(inner))?;
         }
         Ok(traits)
     }
 
     fn members(&self, json: &Map<String, Value>) -> ModelResult<Vec<MemberShape>> {
         let mut members: Vec<MemberShape> = Default::default();
+        let mut names: HashMap<Identifier, ()> = Default::default();
         for (k, v) in json {
             if let Value::Object(obj) = v {
                 let target = if let Some(Value::String(target)) = obj.get(ADD_SHAPE_KEY_TARGET) {
@@ -279,6 +282,7 @@ impl JsonReader {
                     )
                     .into());
                 };
+                insert_once(&mut names, Identifier::from_str(k)?, ())?;
                 let mut member = MemberShape::new(Identifier::from_str(k)?, target);
                 if let Some(traits) = self.optional_object(obj.get(ADD_SHAPE_KEY_TRAITS))? {
                     member.append_traits(&self.traits(traits)?)?;
@@ -303,7 +307,7 @@ impl JsonReader {
                 for (obj_key, obj) in ms {
                     let key = ShapeID::from_str(obj_key)?;
                     let value = Identifier::from_str(&self.string_value(obj)?)?;
-                    let _ = hash.insert(key, value);
+                    insert_once(&mut hash, key, value)?;
                 }
                 Ok(hash)
             } else {
@@ -329,7 +333,7 @@ impl JsonReader {
                 for (obj_key, obj) in ms {
                     let key = Identifier::from_str(obj_key)?;
                     let value = self.target(Some(obj))?;
-                    let _ = hash.insert(key, value);
+                    insert_once(&mut hash, key, value)?;
                 }
                 Ok(hash)
             } else {
@@ -463,6 +467,30 @@ impl JsonReader {
     }
 }
 
+// ------------------------------------------------------------------------------------------------
+// Private Functions
+// ------------------------------------------------------------------------------------------------
+
+///
+/// The keys of a JSON object are all different, but not always as identifiers, where letter case
+/// does not count; no value replaces another.
+///
+fn insert_once<K, V>(map: &mut HashMap<K, V>, key: K, value: V) -> ModelResult<()>
+where
+    K: Eq + Hash + Display,
+{
+    if map.contains_key(&key) {
+        return Err(ErrorKind::Deserialization(
+            REPRESENTATION_NAME.to_string(),
+            "JsonReader::insert_once".to_string(),
+            Some(key.to_string()),
+        )
+        .into());
+    }
+    let _ = map.insert(key, value);
+    Ok(())
+}
+
 // ------------------------------------------------------------------------------------------------
 // Unit Tests
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From 0a0c246c691efe361166d9b434ea84a6312b9845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:38 +0000
Subject: [PATCH 54/56] fix: a shape refused for its traits does not give an
 unresolved one its body

---
 atelier-core/src/model/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-core/src/model/mod.rs b/atelier-core/src/model/mod.rs
index 79f9f4d..5538e71 100644
--- a/atelier-core/src/model/mod.rs
+++ b/atelier-core/src/model/mod.rs
@@ -240,8 +240,8 @@ impl Model {
                     }
                 }
                 (true, false) => {
-                    existing.set_body(shape.body().clone());
                     copy_traits(existing, &shape)?;
+                    existing.set_body(shape.body().clone());
                 }
                 _ => {
                     copy_traits(existing, &shape)?;
-- 
2.43.0


From 034446c100a79bfac3b6967a2e45ad4ec5ab3017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:01 +0000
Subject: [PATCH 55/56] fix: a number beyond floating point is an error in the
 Smithy IDL, as it is in JSON

---
 atelier-smithy/src/parser/smithy.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index b70a902..b1ab95d 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -855,9 +855,11 @@ fn parse_node_value(input_pair: Pair<'_, Rule>) -> ModelResult<NodeValue> {
         Rule::node_object => parse_node_object(inner)?,
         Rule::number => {
             if inner.as_str().contains(|c| matches!(c, '.' | 'e' | 'E')) {
-                NodeValue::Number(Number::Float(
-                    inner.as_str().parse().chain_err(|| "number format error")?,
-                ))
+                let number: f64 = inner.as_str().parse().chain_err(|| "number format error")?;
+                if !number.is_finite() {
+                    return Err("number format error".into());
+                }
+                NodeValue::Number(Number::Float(number))
             } else {
                 NodeValue::Number(Number::Integer(
                     inner.as_str().parse().chain_err(|| "number format error")?,
-- 
2.43.0


From c2d2f7c15b793437eab32eb04844738db886d336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:56 +0000
Subject: [PATCH 56/56] fix: JSON and Smithy IDL writers report a number they
 have no form for

---
 atelier-json/src/writer.rs   | 34 +++++++++++++++++++++++++++++++---
 atelier-smithy/src/writer.rs |  7 ++++++-
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/atelier-json/src/writer.rs b/atelier-json/src/writer.rs
index e92f01b..b21bcd2 100644
--- a/atelier-json/src/writer.rs
+++ b/atelier-json/src/writer.rs
@@ -14,7 +14,7 @@ use atelier_core::syntax::{
     MEMBER_VERSION, MODEL_METADATA, MODEL_SHAPES, SHAPE_APPLY, SHAPE_LIST, SHAPE_MAP,
     SHAPE_OPERATION, SHAPE_RESOURCE, SHAPE_SERVICE, SHAPE_SET, SHAPE_STRUCTURE, SHAPE_UNION,
 };
-use serde_json::{to_writer, to_writer_pretty, Map, Number as JsonNumber, Value};
+use serde_json::{to_writer, to_writer_pretty, Map, Value};
 use std::io::Write;
 
 // ------------------------------------------------------------------------------------------------
@@ -50,7 +50,8 @@ pub struct JsonWriter {
 /// of a model. The return value is a [Serde JSON/(https://docs.serde.rs/serde_json/) `Value` that
 /// represents the top-level model.
 ///
-/// This function is used in the `JsonWriter` implementation.
+/// This function is used in the `JsonWriter` implementation. JSON has no form for infinite numbers,
+/// or those that are not a number, these are returned as `null`; the `JsonWriter` returns an error.
 ///
 pub fn model_to_json(model: &Model) -> Value {
     let mut top: Map<String, Value> = Default::default();
@@ -86,6 +87,9 @@ impl Default for JsonWriter {
 
 impl ModelWriter for JsonWriter {
     fn write(&mut self, w: &mut impl Write, model: &Model) -> ModelResult<()> {
+        if !has_json_numbers(model) {
+            return Err(ErrorKind::Serialization(FILE_EXTENSION.to_string()).into());
+        }
         let json = model_to_json(model);
 
         if self.pretty_print {
@@ -108,6 +112,30 @@ impl<'a> JsonWriter {
 // Private Functions
 // ------------------------------------------------------------------------------------------------
 
+fn has_json_numbers(model: &Model) -> bool {
+    fn in_value(value: &NodeValue) -> bool {
+        match value {
+            NodeValue::Array(v) => v.iter().all(in_value),
+            NodeValue::Object(v) => v.values().all(in_value),
+            NodeValue::Number(Number::Float(v)) => v.is_finite(),
+            _ => true,
+        }
+    }
+    fn in_traits(shape: &impl HasTraits) -> bool {
+        shape.traits().values().flatten().all(in_value)
+    }
+    model.metadata().all(|(_, value)| in_value(value))
+        && model.shapes().all(|shape| {
+            in_traits(shape)
+                && match shape.body() {
+                    ShapeKind::List(v) | ShapeKind::Set(v) => in_traits(v.member()),
+                    ShapeKind::Map(v) => in_traits(v.key()) && in_traits(v.value()),
+                    ShapeKind::Structure(v) | ShapeKind::Union(v) => v.members().all(in_traits),
+                    _ => true,
+                }
+        })
+}
+
 fn from_shapes(model: &Model) -> Value {
     let mut shape_map: Map<String, Value> = Default::default();
     for shape in model.shapes() {
@@ -330,7 +358,7 @@ fn from_value(value: &NodeValue) -> Value {
         }
         NodeValue::Number(v) => match v {
             Number::Integer(v) => Value::Number((*v).into()),
-            Number::Float(v) => Value::Number(JsonNumber::from_f64(*v).unwrap()),
+            Number::Float(v) => Value::from(*v),
         },
         NodeValue::Boolean(v) => Value::Bool(*v),
         NodeValue::String(v) => Value::String(v.clone()),
diff --git a/atelier-smithy/src/writer.rs b/atelier-smithy/src/writer.rs
index 8de50e0..296827e 100644
--- a/atelier-smithy/src/writer.rs
+++ b/atelier-smithy/src/writer.rs
@@ -1,6 +1,6 @@
 use std::io::Write;
 
-use atelier_core::error::Result;
+use atelier_core::error::{ErrorKind, Result};
 use atelier_core::io::ModelWriter;
 use atelier_core::model::shapes::{HasTraits, MemberShape, ShapeKind, TopLevelShape};
 use atelier_core::model::values::{Number, Value};
@@ -17,6 +17,7 @@ use atelier_core::syntax::{
 use crate::syntax::{
     CONTROL_DATA_PREFIX, STATEMENT_METADATA, STATEMENT_NAMESPACE, STATEMENT_USE, TRAIT_PREFIX,
 };
+use crate::FILE_EXTENSION;
 
 // ------------------------------------------------------------------------------------------------
 // Public Types
@@ -343,6 +344,10 @@ impl SmithyWriter {
                 }
             }
             Value::Number(Number::Integer(v)) => write!(w, "{}", v)?,
+            // would be read as the name of a shape
+            Value::Number(Number::Float(v)) if !v.is_finite() => {
+                return Err(ErrorKind::Serialization(FILE_EXTENSION.to_string()).into())
+            }
             // keeps the fraction, or exponent, that makes it a floating point number
             Value::Number(Number::Float(v)) => write!(w, "{:?}", v)?,
             Value::Boolean(v) => write!(w, "{}", v)?,
-- 
2.43.0

