From be8f87b07845be62c5947b1b51ba8c3423205a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 01/16] fix: verify the reference attributes a relation or
 property set inherits from its base entity

---
 ifc_rs/src/properties/set.rs                               | 1 +
 ifc_rs/src/relations/rel_aggregates.rs                     | 1 +
 ifc_rs/src/relations/rel_associates_material.rs            | 1 +
 ifc_rs/src/relations/rel_contained_in_spatial_structure.rs | 1 +
 ifc_rs/src/relations/rel_declares.rs                       | 1 +
 ifc_rs/src/relations/rel_defines_by_properties.rs          | 1 +
 ifc_rs/src/relations/rel_defines_by_type.rs                | 1 +
 ifc_rs/src/relations/rel_fills_element.rs                  | 1 +
 ifc_rs/src/relations/rel_voids_element.rs                  | 1 +
 9 files changed, 9 insertions(+)

diff --git a/ifc_rs/src/properties/set.rs b/ifc_rs/src/properties/set.rs
index 009dfa3..392b0d6 100644
--- a/ifc_rs/src/properties/set.rs
+++ b/ifc_rs/src/properties/set.rs
@@ -31,6 +31,7 @@ use crate::{parser::*, prelude::*};
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/schema/ifckernel/lexical/ifcpropertyset.htm
 #[derive(IfcVerify)]
 pub struct PropertySet {
+    #[inherited]
     root: Root,
 
     /// Contained set of properties. For property sets defined as part of the IFC Object model, the
diff --git a/ifc_rs/src/relations/rel_aggregates.rs b/ifc_rs/src/relations/rel_aggregates.rs
index 3ebd024..ec06747 100644
--- a/ifc_rs/src/relations/rel_aggregates.rs
+++ b/ifc_rs/src/relations/rel_aggregates.rs
@@ -19,6 +19,7 @@ use crate::{
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcrelaggregates.htm
 #[derive(IfcVerify)]
 pub struct RelAggregates {
+    #[inherited]
     root: Root,
 
     /// The object definition, either an object type or an object
diff --git a/ifc_rs/src/relations/rel_associates_material.rs b/ifc_rs/src/relations/rel_associates_material.rs
index 014a65c..74d16c7 100644
--- a/ifc_rs/src/relations/rel_associates_material.rs
+++ b/ifc_rs/src/relations/rel_associates_material.rs
@@ -18,6 +18,7 @@ use crate::{
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcrelassociatesmaterial.htm
 #[derive(IfcVerify)]
 pub struct RelAssociatesMaterial {
+    #[inherited]
     rel_associates: RelAssociates,
 
     /// Material definition assigned to the elements or element types.
diff --git a/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs b/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
index f10d7b5..86085d6 100644
--- a/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
+++ b/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
@@ -19,6 +19,7 @@ use crate::prelude::*;
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcrelcontainedinspatialstructure.htm
 #[derive(IfcVerify)]
 pub struct RelContainedInSpatialStructure {
+    #[inherited]
     root: Root,
 
     /// Set of products, which are contained within this level of the
diff --git a/ifc_rs/src/relations/rel_declares.rs b/ifc_rs/src/relations/rel_declares.rs
index 0af6c46..170d5ab 100644
--- a/ifc_rs/src/relations/rel_declares.rs
+++ b/ifc_rs/src/relations/rel_declares.rs
@@ -19,6 +19,7 @@ use crate::{
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcreldeclares.htm
 #[derive(IfcVerify)]
 pub struct RelDeclares {
+    #[inherited]
     root: Root,
 
     /// Reference to the IfcProject to which additional information is assigned.
diff --git a/ifc_rs/src/relations/rel_defines_by_properties.rs b/ifc_rs/src/relations/rel_defines_by_properties.rs
index a53a448..e4590d6 100644
--- a/ifc_rs/src/relations/rel_defines_by_properties.rs
+++ b/ifc_rs/src/relations/rel_defines_by_properties.rs
@@ -26,6 +26,7 @@ use crate::prelude::*;
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/schema/ifckernel/lexical/ifcreldefinesbyproperties.htm
 #[derive(IfcVerify)]
 pub struct RelDefinesByProperties {
+    #[inherited]
     root: Root,
 
     /// Reference to the objects (or single object) to which the property definition applies.
diff --git a/ifc_rs/src/relations/rel_defines_by_type.rs b/ifc_rs/src/relations/rel_defines_by_type.rs
index b3c3c53..ca2747f 100644
--- a/ifc_rs/src/relations/rel_defines_by_type.rs
+++ b/ifc_rs/src/relations/rel_defines_by_type.rs
@@ -22,6 +22,7 @@ use crate::prelude::*;
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcreldefinesbytype.htm
 #[derive(IfcVerify)]
 pub struct RelDefinesByType {
+    #[inherited]
     root: Root,
 
     pub related_objects: IfcList<Id>,
diff --git a/ifc_rs/src/relations/rel_fills_element.rs b/ifc_rs/src/relations/rel_fills_element.rs
index 7eeda55..1dc8dd2 100644
--- a/ifc_rs/src/relations/rel_fills_element.rs
+++ b/ifc_rs/src/relations/rel_fills_element.rs
@@ -17,6 +17,7 @@ use crate::{
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/schema/ifcproductextension/lexical/ifcrelfillselement.htm
 #[derive(IfcVerify)]
 pub struct RelFillsElement {
+    #[inherited]
     root: Root,
     /// Opening Element being filled by virtue of this relationship.
     relating_opening_element: TypedId<OpeningElement>,
diff --git a/ifc_rs/src/relations/rel_voids_element.rs b/ifc_rs/src/relations/rel_voids_element.rs
index 3ab148b..3430394 100644
--- a/ifc_rs/src/relations/rel_voids_element.rs
+++ b/ifc_rs/src/relations/rel_voids_element.rs
@@ -20,6 +20,7 @@ use crate::{
 
 #[derive(IfcVerify)]
 pub struct RelVoidsElement {
+    #[inherited]
     root: Root,
     /// Reference to element in which a void is created by associated feature
     /// subtraction element.
-- 
2.43.0


From f51037d451307e7d3eabf2d323c1ce9b13a8735d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 02/16] fix: report a reference to a missing instance as a load
 error instead of panicking

---
 ifc_rs/src/meta/datamap/mod.rs    | 10 ++++++++++
 ifc_rs_verify_derive/src/field.rs | 24 ++++++++++++------------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/ifc_rs/src/meta/datamap/mod.rs b/ifc_rs/src/meta/datamap/mod.rs
index 73531d6..6621490 100644
--- a/ifc_rs/src/meta/datamap/mod.rs
+++ b/ifc_rs/src/meta/datamap/mod.rs
@@ -55,6 +55,16 @@ impl DataMap {
         &**self.0.get(&id.into()).unwrap()
     }
 
+    /// looks up a referenced instance, failing (instead of panicking) if there is none
+    pub fn resolve(&self, id: impl Into<Id>) -> anyhow::Result<&dyn IfcType> {
+        let id = id.into();
+
+        self.0
+            .get(&id)
+            .map(|ifc_type| &**ifc_type)
+            .ok_or_else(|| anyhow::anyhow!("referenced instance {id} doesn't exist"))
+    }
+
     pub fn get_mut<T: IfcType>(&mut self, typed_id: TypedId<T>) -> &mut T {
         self.0
             .get_mut(&typed_id.id())
diff --git a/ifc_rs_verify_derive/src/field.rs b/ifc_rs_verify_derive/src/field.rs
index bfbd6bd..ab58316 100644
--- a/ifc_rs_verify_derive/src/field.rs
+++ b/ifc_rs_verify_derive/src/field.rs
@@ -149,7 +149,7 @@ impl ToTokens for Field {
                     quote! {
 
                         let id = self.#var_name;
-                        let t = ifc.data.get_untyped(id);
+                        let t = ifc.data.resolve(id)?;
                         #multiple
 
                     }
@@ -160,7 +160,7 @@ impl ToTokens for Field {
                     quote! {
 
                         self.#var_name.0.iter().try_for_each(|id| {
-                            let t = ifc.data.get_untyped(*id);
+                            let t = ifc.data.resolve(*id)?;
                             #multiple
 
                             Ok(())
@@ -174,7 +174,7 @@ impl ToTokens for Field {
                     quote! {
 
                         let id = self.#var_name.id();
-                        let t = ifc.data.get_untyped(id);
+                        let t = ifc.data.resolve(id)?;
                         #single
 
                     }
@@ -186,7 +186,7 @@ impl ToTokens for Field {
 
                         self.#var_name.0.iter().try_for_each(|typed_id| {
                             let id = typed_id.id();
-                            let t = ifc.data.get_untyped(id);
+                            let t = ifc.data.resolve(id)?;
                             #single
 
                             Ok(())
@@ -201,7 +201,7 @@ impl ToTokens for Field {
 
                         if let Some(typed_id) = self.#var_name.id() {
                             let id = typed_id.id();
-                            let t = ifc.data.get_untyped(id);
+                            let t = ifc.data.resolve(id)?;
                             #single
                         }
 
@@ -215,7 +215,7 @@ impl ToTokens for Field {
                         self.#var_name.0.iter().try_for_each(|id_or| {
                             if let Some(typed_id) = id_or.id() {
                                 let id = typed_id.id();
-                                let t = ifc.data.get_untyped(id);
+                                let t = ifc.data.resolve(id)?;
                                 #single
                             }
 
@@ -232,7 +232,7 @@ impl ToTokens for Field {
                     quote! {
 
                         if let Some(id) = self.#var_name.custom() {
-                            let t = ifc.data.get_untyped(*id);
+                            let t = ifc.data.resolve(*id)?;
                             #multiple
                         }
 
@@ -245,7 +245,7 @@ impl ToTokens for Field {
 
                         if let Some(#var_name) = self.#var_name.custom() {
                             #var_name.0.iter().try_for_each(|id| {
-                                let t = ifc.data.get_untyped(*id);
+                                let t = ifc.data.resolve(*id)?;
                                 #multiple
 
                                 Ok(())
@@ -261,7 +261,7 @@ impl ToTokens for Field {
 
                         if let Some(typed_id) = self.#var_name.custom() {
                             let id = typed_id.id();
-                            let t = ifc.data.get_untyped(id);
+                            let t = ifc.data.resolve(id)?;
                             #single
                         }
 
@@ -275,7 +275,7 @@ impl ToTokens for Field {
                         if let Some(#var_name) = self.#var_name.custom() {
                             #var_name.0.iter().try_for_each(|typed_id| {
                                 let id = typed_id.id();
-                                let t = ifc.data.get_untyped(id);
+                                let t = ifc.data.resolve(id)?;
                                 #single
 
                                 Ok(())
@@ -292,7 +292,7 @@ impl ToTokens for Field {
                         if let Some(id_or) = self.#var_name.custom() {
                             if let Some(typed_id) = id_or.id() {
                                 let id = typed_id.id();
-                                let t = ifc.data.get_untyped(id);
+                                let t = ifc.data.resolve(id)?;
                                 #single
                             }
                         }
@@ -308,7 +308,7 @@ impl ToTokens for Field {
                             #var_name.0.iter().try_for_each(|id_or| {
                                 if let Some(typed_id) = id_or.id() {
                                     let id = typed_id.id();
-                                    let t = ifc.data.get_untyped(id);
+                                    let t = ifc.data.resolve(id)?;
                                     #single
                                 }
 
-- 
2.43.0


From 110195efb3529921e20d30c66e02d55b120d2b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 03/16] fix: accept the shading devices the storey builder
 places when loading a containment relation

---
 .../relations/rel_contained_in_spatial_structure.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs b/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
index 86085d6..9ccb8db 100644
--- a/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
+++ b/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
@@ -24,7 +24,18 @@ pub struct RelContainedInSpatialStructure {
 
     /// Set of products, which are contained within this level of the
     /// spatial structure hierarchy.
-    #[ifc_types(Site, Building, Storey, OpeningElement, Slab, Roof, Wall, Window, Door)]
+    #[ifc_types(
+        Site,
+        Building,
+        Storey,
+        OpeningElement,
+        Slab,
+        Roof,
+        Wall,
+        Window,
+        Door,
+        ShadingDevice
+    )]
     pub related_elements: IfcList<Id>,
 
     /// Spatial structure element, within which the element is
-- 
2.43.0


From 1d5a4d1fec70b5687a4dbf5bc6a164e7ea28f0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 04/16] fix: report an unparsable file or owner history time
 stamp as a load error instead of panicking

---
 ifc_rs/src/meta/header/deserialize.rs | 9 +++++----
 ifc_rs/src/parser/timestamp.rs        | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/ifc_rs/src/meta/header/deserialize.rs b/ifc_rs/src/meta/header/deserialize.rs
index 16c42fe..dd1fc7a 100644
--- a/ifc_rs/src/meta/header/deserialize.rs
+++ b/ifc_rs/src/meta/header/deserialize.rs
@@ -114,18 +114,19 @@ impl Header {
     }
 
     fn p_name<'a>() -> impl IFCParser<'a, FileDetails> {
-        // TODO: Better ideas for failing here
-        fn time_from_string(s: String) -> DateTime<Utc> {
+        fn time_from_string(s: String) -> Option<DateTime<Utc>> {
             let date_res = DateTime::parse_from_rfc3339(s.as_str())
                 .or_else(|_| DateTime::parse_from_rfc3339(format!("{s}Z").as_str()));
-            date_res.unwrap().into()
+            date_res.ok().map(Into::into)
         }
         // filename can be $ or an actual filename, see #1, AutoCAD related
         let mut p_name = alt((
             "$".map(|_| FileName::default()),
             p_quote_word().map(FileName),
         ));
-        let mut p_time = p_quote_word().map(time_from_string).map(TimeStamp);
+        let mut p_time = p_quote_word()
+            .verify_map(time_from_string)
+            .map(TimeStamp);
         let mut p_author = delimited(
             "(",
             separated(
diff --git a/ifc_rs/src/parser/timestamp.rs b/ifc_rs/src/parser/timestamp.rs
index 1548461..c2a6c67 100644
--- a/ifc_rs/src/parser/timestamp.rs
+++ b/ifc_rs/src/parser/timestamp.rs
@@ -24,7 +24,7 @@ impl IFCParse for IfcTimestamp {
     where
         Self: Sized,
     {
-        dec_int.map(|i| Self(chrono::DateTime::from_timestamp(i, 0).unwrap()))
+        dec_int.verify_map(|i| chrono::DateTime::from_timestamp(i, 0).map(Self))
     }
 }
 
-- 
2.43.0


From b34d9bbc15600654974b165ca7d6f70459775b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 05/16] fix: don't end an unknown instance at a semicolon
 within its quoted text or comments

---
 ifc_rs/src/parser/dummy.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ifc_rs/src/parser/dummy.rs b/ifc_rs/src/parser/dummy.rs
index 823b343..51b1627 100644
--- a/ifc_rs/src/parser/dummy.rs
+++ b/ifc_rs/src/parser/dummy.rs
@@ -18,10 +18,17 @@ impl IFCParse for Dummy {
     where
         Self: Sized,
     {
-        use super::p_space_or_comment_surrounded;
-        use winnow::{combinator::repeat_till, token::any, Parser};
+        use super::{p_comment, p_quote_word, p_space_or_comment_surrounded};
+        use winnow::{
+            combinator::{alt, repeat_till},
+            token::any,
+            Parser,
+        };
 
-        repeat_till(.., any, p_space_or_comment_surrounded(";"))
+        // a semicolon within a string or a comment doesn't end the instance
+        let p_part = alt((p_quote_word().take(), p_comment().take(), any.take()));
+
+        repeat_till(.., p_part, p_space_or_comment_surrounded(";"))
             .map(|(s, _): (String, _)| Self { s })
     }
 }
-- 
2.43.0


From 1e071945071a7220da4cfc7d2bb9224370a219e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 06/16] fix: write apostrophes within text as doubled ones, as
 the header reader now expects them

---
 ifc_rs/src/meta/header/deserialize.rs | 14 +++++++-------
 ifc_rs/src/meta/header/serialize.rs   | 22 ++++++++++++++++------
 ifc_rs/src/parser/mod.rs              | 11 +++++++++++
 ifc_rs/src/parser/string.rs           |  8 ++++++--
 4 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/ifc_rs/src/meta/header/deserialize.rs b/ifc_rs/src/meta/header/deserialize.rs
index dd1fc7a..a0422a3 100644
--- a/ifc_rs/src/meta/header/deserialize.rs
+++ b/ifc_rs/src/meta/header/deserialize.rs
@@ -122,16 +122,16 @@ impl Header {
         // filename can be $ or an actual filename, see #1, AutoCAD related
         let mut p_name = alt((
             "$".map(|_| FileName::default()),
-            p_quote_word().map(FileName),
+            p_escaped_quote_word().map(FileName),
         ));
-        let mut p_time = p_quote_word()
+        let mut p_time = p_escaped_quote_word()
             .verify_map(time_from_string)
             .map(TimeStamp);
         let mut p_author = delimited(
             "(",
             separated(
                 ..,
-                p_space_or_comment_surrounded(p_quote_word()).map(Author),
+                p_space_or_comment_surrounded(p_escaped_quote_word()).map(Author),
                 ",",
             )
             .map(|v: Vec<_>| AuthorList(v)),
@@ -141,7 +141,7 @@ impl Header {
             "(",
             separated(
                 ..,
-                p_space_or_comment_surrounded(p_quote_word()).map(Organization),
+                p_space_or_comment_surrounded(p_escaped_quote_word()).map(Organization),
                 ",",
             )
             .map(|v: Vec<_>| OrganizationList(v)),
@@ -158,11 +158,11 @@ impl Header {
                 _: Comma::parse(),
                 organization: p_org,
                 _: Comma::parse(),
-                preprocessor_version: p_quote_word().map(PreprocessorVersion),
+                preprocessor_version: p_escaped_quote_word().map(PreprocessorVersion),
                 _: Comma::parse(),
-                originating_system: p_quote_word().map(OriginatingSystem),
+                originating_system: p_escaped_quote_word().map(OriginatingSystem),
                 _: Comma::parse(),
-                authorization: p_quote_word().map(Authorization),
+                authorization: p_escaped_quote_word().map(Authorization),
                 _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";"))
             }
         }
diff --git a/ifc_rs/src/meta/header/serialize.rs b/ifc_rs/src/meta/header/serialize.rs
index a59bea5..bfca321 100644
--- a/ifc_rs/src/meta/header/serialize.rs
+++ b/ifc_rs/src/meta/header/serialize.rs
@@ -2,6 +2,8 @@ use std::fmt::Display;
 
 use itertools::Itertools;
 
+use crate::parser::escape_quotes;
+
 use super::{
     description::{FileDescription, ViewDefinition},
     details::FileDetails,
@@ -54,7 +56,7 @@ impl Display for ViewDefinition {
 
 impl Display for FileDetails {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(f, "'{name}'", name = self.name.0)?;
+        write!(f, "'{name}'", name = escape_quotes(&self.name.0))?;
         write!(f, ",")?;
         write!(
             f,
@@ -68,7 +70,7 @@ impl Display for FileDetails {
             authors = self
                 .author
                 .iter()
-                .map(|author| format!("'{a}'", a = author.0))
+                .map(|author| format!("'{a}'", a = escape_quotes(&author.0)))
                 .join(",")
         )?;
         write!(f, ",")?;
@@ -78,15 +80,23 @@ impl Display for FileDetails {
             orgs = self
                 .organization
                 .iter()
-                .map(|org| format!("'{o}'", o = org.0))
+                .map(|org| format!("'{o}'", o = escape_quotes(&org.0)))
                 .join(",")
         )?;
         write!(f, ",")?;
-        write!(f, "'{prep_v}'", prep_v = self.preprocessor_version.0)?;
+        write!(
+            f,
+            "'{prep_v}'",
+            prep_v = escape_quotes(&self.preprocessor_version.0)
+        )?;
         write!(f, ",")?;
-        write!(f, "'{sys}'", sys = self.originating_system.0)?;
+        write!(
+            f,
+            "'{sys}'",
+            sys = escape_quotes(&self.originating_system.0)
+        )?;
         write!(f, ",")?;
-        write!(f, "'{auth}'", auth = self.authorization.0)?;
+        write!(f, "'{auth}'", auth = escape_quotes(&self.authorization.0))?;
         Ok(())
     }
 }
diff --git a/ifc_rs/src/parser/mod.rs b/ifc_rs/src/parser/mod.rs
index 0322e8d..4411572 100644
--- a/ifc_rs/src/parser/mod.rs
+++ b/ifc_rs/src/parser/mod.rs
@@ -59,6 +59,17 @@ pub(crate) fn p_quote_word<'a>() -> impl IFCParser<'a, String> {
     delimited("'", p_word_until('\''), "'")
 }
 
+/// text in single quotes, within which a doubled quote stands for a single one
+pub(crate) fn p_escaped_quote_word<'a>() -> impl IFCParser<'a, String> {
+    let p_part = alt((take_while(1.., |c: char| c != '\''), "''".value("'")));
+    delimited("'", repeat(.., p_part), "'")
+}
+
+/// doubles the single quotes of a text which is about to be printed in single quotes
+pub(crate) fn escape_quotes(text: impl AsRef<str>) -> String {
+    text.as_ref().replace('\'', "''")
+}
+
 pub(crate) fn p_comment<'a>() -> impl IFCParser<'a, ()> {
     preceded(
         "/*",
diff --git a/ifc_rs/src/parser/string.rs b/ifc_rs/src/parser/string.rs
index 74a0e3e..35c9e2d 100644
--- a/ifc_rs/src/parser/string.rs
+++ b/ifc_rs/src/parser/string.rs
@@ -2,7 +2,7 @@ use std::fmt::Display;
 
 use winnow::Parser;
 
-use crate::parser::{p_quote_word, IFCParse, IFCParser};
+use crate::parser::{escape_quotes, p_quote_word, IFCParse, IFCParser};
 
 // IFC doesn't support UTF8 in all versions and uses a special encoding for things like
 // german umlaute. The easiest thing to use it `\X2\<unicode sequence>\X0\`
@@ -58,6 +58,10 @@ impl IFCParse for StringPrimitive {
 
 impl Display for StringPrimitive {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(f, "'{label}'", label = translate_encode(self.0.as_str()))
+        write!(
+            f,
+            "'{label}'",
+            label = translate_encode(escape_quotes(self.0.as_str()))
+        )
     }
 }
-- 
2.43.0


From d63b42f37963379fb750a9dea1540c8e6d92d4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:00 +0000
Subject: [PATCH 07/16] fix: relate the spaces of a storey to the space type
 they were created with

---
 ifc_rs/src/ifc_builder/storey.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/ifc_rs/src/ifc_builder/storey.rs b/ifc_rs/src/ifc_builder/storey.rs
index e557af4..c504935 100644
--- a/ifc_rs/src/ifc_builder/storey.rs
+++ b/ifc_rs/src/ifc_builder/storey.rs
@@ -283,6 +283,25 @@ impl<'a> Drop for IfcStoreyBuilder<'a> {
                 spatial_relation.relate_structure(*shading_device, &mut self.project.ifc);
         }
 
+        // spaces ----------------------
+
+        // relate space type to space
+        for (index, (space_type, spaces)) in self.space_type_to_space.iter().enumerate() {
+            let mut space_space_type_relation = RelDefinesByType::new(
+                format!("SpaceTypeToSpace{index}"),
+                *space_type,
+                &mut self.project.ifc,
+            )
+            .owner_history(self.owner_history, &mut self.project.ifc);
+
+            for space in spaces {
+                space_space_type_relation =
+                    space_space_type_relation.relate_obj(*space, &mut self.project.ifc)
+            }
+
+            self.project.ifc.data.insert_new(space_space_type_relation);
+        }
+
         // insert all spatial relations of this story
         self.project.ifc.data.insert_new(spatial_relation);
 
-- 
2.43.0


From 7c111d03dc483b4084f2c4999ff226759fb02fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:11 +0000
Subject: [PATCH 08/16] fix: relate the height property set of a new storey to
 that storey

---
 ifc_rs/src/ifc_builder/building.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ifc_rs/src/ifc_builder/building.rs b/ifc_rs/src/ifc_builder/building.rs
index efb07bc..96c5eee 100644
--- a/ifc_rs/src/ifc_builder/building.rs
+++ b/ifc_rs/src/ifc_builder/building.rs
@@ -57,7 +57,8 @@ impl<'a> IfcBuildingBuilder<'a> {
             IfcValue::Real(elevation.into()),
             None,
         );
-        _ = property_builder.finish();
+        let properties = property_builder.finish();
+        storey_builder.relate_properties_object(properties, storey_id);
 
         storey_builder
     }
-- 
2.43.0


From f6733dd8737d4eb8927d7ac2427590069945e32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 09/16] fix: spell the electric units, the coulomb and the
 commissioning engineer role as in the IFC schema

---
 ifc_rs/src/objects/actor_role/mod.rs |  2 +-
 ifc_rs/src/units/name.rs             |  2 +-
 ifc_rs/src/units/unit_enum.rs        | 12 ++++++------
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/ifc_rs/src/objects/actor_role/mod.rs b/ifc_rs/src/objects/actor_role/mod.rs
index 500a923..bb2f890 100644
--- a/ifc_rs/src/objects/actor_role/mod.rs
+++ b/ifc_rs/src/objects/actor_role/mod.rs
@@ -65,7 +65,7 @@ pub enum Role {
     FacilitiesManager,
     #[strum(to_string = ".CIVILENGINEER.")]
     CivilEngineer,
-    #[strum(to_string = ".COMISSIONENGINEER.")]
+    #[strum(to_string = ".COMMISSIONINGENGINEER.")]
     ComissionEngineer,
     #[strum(to_string = ".ENGINEER.")]
     Engineer,
diff --git a/ifc_rs/src/units/name.rs b/ifc_rs/src/units/name.rs
index 570943e..76f7069 100644
--- a/ifc_rs/src/units/name.rs
+++ b/ifc_rs/src/units/name.rs
@@ -24,7 +24,7 @@ pub enum IfcUnitName {
     Candela,
 
     /// Unit for electric charge.
-    #[strum(to_string = ".COULOUMB.")]
+    #[strum(to_string = ".COULOMB.")]
     Couloumb,
 
     /// Unit for volume.
diff --git a/ifc_rs/src/units/unit_enum.rs b/ifc_rs/src/units/unit_enum.rs
index 39ea217..b95904c 100644
--- a/ifc_rs/src/units/unit_enum.rs
+++ b/ifc_rs/src/units/unit_enum.rs
@@ -28,27 +28,27 @@ pub enum IfcUnitEnum {
     DoseEquivalentUnit,
 
     /// Represents units of electric capacitance, such as "Farad"
-    #[strum(to_string = ".ELCTRICCAPACITANCEUNIT.")]
+    #[strum(to_string = ".ELECTRICCAPACITANCEUNIT.")]
     ElectricCapacitanceUnit,
 
     /// Represents units of electric charge, such as "Coulomb"
-    #[strum(to_string = ".ELCTRICCHARGEUNIT.")]
+    #[strum(to_string = ".ELECTRICCHARGEUNIT.")]
     ElectricChargeUnit,
 
     /// Represents units of electric conductance, such as "Siemens"
-    #[strum(to_string = ".ELCTRICCONDUCTANCEUNIT.")]
+    #[strum(to_string = ".ELECTRICCONDUCTANCEUNIT.")]
     ElectricConductanceUnit,
 
     /// Represents units of electric current, such as "Ampere"
-    #[strum(to_string = ".ELCTRICCURRENTUNIT.")]
+    #[strum(to_string = ".ELECTRICCURRENTUNIT.")]
     ElectricCurrentUnit,
 
     /// Represents units of electric resistance, such as "Ohm"
-    #[strum(to_string = ".ELCTRICRESISTANCEUNIT.")]
+    #[strum(to_string = ".ELECTRICRESISTANCEUNIT.")]
     ElectricResistanceUnit,
 
     /// Represents units of electric voltage, such as "Volt"
-    #[strum(to_string = ".ELCTRICVOLTAGEUNIT.")]
+    #[strum(to_string = ".ELECTRICVOLTAGEUNIT.")]
     ElectricVoltageUnit,
 
     /// Represents units of energy, such as "Joule"
-- 
2.43.0


From 5726d2466914757341eb96c38d8a6d910c416a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:08 +0000
Subject: [PATCH 10/16] fix: reject header time stamps whose year in UTC cannot
 be written with four digits

---
 ifc_rs/src/meta/header/deserialize.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ifc_rs/src/meta/header/deserialize.rs b/ifc_rs/src/meta/header/deserialize.rs
index a0422a3..4e2c3aa 100644
--- a/ifc_rs/src/meta/header/deserialize.rs
+++ b/ifc_rs/src/meta/header/deserialize.rs
@@ -1,6 +1,6 @@
 use std::str::FromStr;
 
-use chrono::{DateTime, Utc};
+use chrono::{DateTime, Datelike, Utc};
 use strum::VariantNames;
 use winnow::combinator::{alt, delimited, preceded, repeat, separated};
 use winnow::prelude::*;
@@ -117,7 +117,11 @@ impl Header {
         fn time_from_string(s: String) -> Option<DateTime<Utc>> {
             let date_res = DateTime::parse_from_rfc3339(s.as_str())
                 .or_else(|_| DateTime::parse_from_rfc3339(format!("{s}Z").as_str()));
-            date_res.ok().map(Into::into)
+            // a time stamp is written in UTC, where its year must still have four digits
+            date_res
+                .ok()
+                .map(Into::into)
+                .filter(|date: &DateTime<Utc>| (0..=9999).contains(&date.year()))
         }
         // filename can be $ or an actual filename, see #1, AutoCAD related
         let mut p_name = alt((
-- 
2.43.0


From 3b4ec9ac3d0435340db8be81e718915ab98299ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:52 +0000
Subject: [PATCH 11/16] fix: accept layout and comments before the closing
 semicolon of an instance

---
 .../arbitrary_closed_profile_def/deserialize.rs     |  2 +-
 ifc_rs/src/geometry/axis/deserialize.rs             |  5 +++--
 ifc_rs/src/geometry/direction/deserialize.rs        | 13 +++++++++++--
 ifc_rs/src/geometry/extruded_area_solid.rs          |  2 +-
 .../src/geometry/indexed_poly_curve/deserialize.rs  |  3 ++-
 ifc_rs/src/geometry/local_placement/mod.rs          |  6 +++---
 ifc_rs/src/geometry/non_uniform_transformations.rs  |  6 +++---
 ifc_rs/src/geometry/point/deserialize.rs            | 13 +++++++++++--
 ifc_rs/src/geometry/point_list/deserialize.rs       |  5 +++--
 ifc_rs/src/geometry/polyline/deserialize.rs         |  2 +-
 .../product_definition_shape/deserialize.rs         |  5 +++--
 .../geometry/rectangle_profile_def/deserialize.rs   |  2 +-
 .../geometry/representation_context/deserialize.rs  |  3 ++-
 .../representation_subcontext/deserialize.rs        |  3 ++-
 .../geometry/shape_representation/deserialize.rs    |  6 +++---
 ifc_rs/src/geometry/uniform_transformations.rs      |  4 ++--
 ifc_rs/src/materials/material.rs                    |  6 +++---
 ifc_rs/src/materials/material_constituent.rs        |  7 ++++---
 ifc_rs/src/materials/material_constituent_set.rs    |  6 +++---
 ifc_rs/src/materials/material_layer.rs              |  6 +++---
 ifc_rs/src/materials/material_layer_set.rs          |  6 +++---
 ifc_rs/src/materials/material_layer_set_usage.rs    |  6 +++---
 ifc_rs/src/objects/actor_role/deserialize.rs        |  3 ++-
 ifc_rs/src/objects/address/deserialize.rs           |  5 +++--
 ifc_rs/src/objects/application/deserialize.rs       |  3 ++-
 ifc_rs/src/objects/building.rs                      |  7 ++++---
 ifc_rs/src/objects/door/deserialize.rs              |  2 +-
 ifc_rs/src/objects/doortype/deserialize.rs          |  2 +-
 ifc_rs/src/objects/opening_element/deserialize.rs   |  2 +-
 ifc_rs/src/objects/organization/deserialize.rs      |  3 ++-
 ifc_rs/src/objects/owner_history/deserialize.rs     |  3 ++-
 ifc_rs/src/objects/person/deserialize.rs            |  3 ++-
 ifc_rs/src/objects/person_and_org/deserialize.rs    |  3 ++-
 ifc_rs/src/objects/project.rs                       |  4 ++--
 ifc_rs/src/objects/roof/deserialize.rs              |  2 +-
 ifc_rs/src/objects/rooftype/deserialize.rs          |  2 +-
 ifc_rs/src/objects/shading_device.rs                |  6 +++---
 ifc_rs/src/objects/shading_device_type.rs           |  5 +++--
 ifc_rs/src/objects/site.rs                          |  6 +++---
 ifc_rs/src/objects/slab/deserialize.rs              |  2 +-
 ifc_rs/src/objects/slabtype/deserialize.rs          |  2 +-
 ifc_rs/src/objects/space/deserialize.rs             |  2 +-
 ifc_rs/src/objects/spacetype/deserialize.rs         |  2 +-
 ifc_rs/src/objects/storey.rs                        |  7 ++++---
 ifc_rs/src/objects/wall/deserialize.rs              |  2 +-
 ifc_rs/src/objects/walltype/deserialize.rs          |  2 +-
 ifc_rs/src/objects/window/deserialize.rs            |  2 +-
 ifc_rs/src/objects/windowtype/deserialize.rs        |  2 +-
 ifc_rs/src/properties/material.rs                   |  2 +-
 ifc_rs/src/properties/set.rs                        |  2 +-
 ifc_rs/src/properties/single_value.rs               |  2 +-
 ifc_rs/src/relations/mapped_item.rs                 |  4 ++--
 ifc_rs/src/relations/rel_aggregates.rs              |  6 +++---
 ifc_rs/src/relations/rel_associates_material.rs     |  5 +++--
 .../relations/rel_contained_in_spatial_structure.rs |  6 +++---
 ifc_rs/src/relations/rel_declares.rs                |  6 +++---
 ifc_rs/src/relations/rel_defines_by_properties.rs   |  4 ++--
 ifc_rs/src/relations/rel_defines_by_type.rs         |  4 ++--
 ifc_rs/src/relations/rel_fills_element.rs           |  5 +++--
 ifc_rs/src/relations/rel_voids_element.rs           |  5 +++--
 ifc_rs/src/relations/representation_map.rs          |  4 ++--
 ifc_rs/src/units/assignment.rs                      |  6 ++++--
 ifc_rs/src/units/conversion_based_unit.rs           |  2 +-
 ifc_rs/src/units/derived_unit.rs                    |  4 ++--
 ifc_rs/src/units/derived_unit_element.rs            |  4 ++--
 ifc_rs/src/units/dimensional_exponents.rs           |  4 ++--
 ifc_rs/src/units/measure_with_unit.rs               |  4 ++--
 ifc_rs/src/units/monetary_unit.rs                   |  7 +++++--
 ifc_rs/src/units/si_unit.rs                         |  4 ++--
 69 files changed, 167 insertions(+), 124 deletions(-)

diff --git a/ifc_rs/src/geometry/arbitrary_closed_profile_def/deserialize.rs b/ifc_rs/src/geometry/arbitrary_closed_profile_def/deserialize.rs
index 009bb71..127a24e 100644
--- a/ifc_rs/src/geometry/arbitrary_closed_profile_def/deserialize.rs
+++ b/ifc_rs/src/geometry/arbitrary_closed_profile_def/deserialize.rs
@@ -17,7 +17,7 @@ impl IFCParse for ArbitraryClosedProfileDef {
                 _: Comma::parse(),
                 outer_curve: Id::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/geometry/axis/deserialize.rs b/ifc_rs/src/geometry/axis/deserialize.rs
index 48cecf4..e30fdbf 100644
--- a/ifc_rs/src/geometry/axis/deserialize.rs
+++ b/ifc_rs/src/geometry/axis/deserialize.rs
@@ -1,3 +1,4 @@
+use crate::parser::p_space_or_comment;
 use winnow::{
     combinator::{delimited, separated_pair},
     Parser,
@@ -14,7 +15,7 @@ impl IFCParse for Axis2D {
         delimited(
             "IFCAXIS2PLACEMENT2D(",
             separated_pair(TypedId::parse(), Comma::parse(), OptionalParameter::parse()),
-            ");",
+            (")", p_space_or_comment(), ";"),
         )
         .map(|(location, local_x)| Self { location, local_x })
     }
@@ -31,7 +32,7 @@ impl IFCParse for Axis3D {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            (")", p_space_or_comment(), ";"),
         )
         .map(|(location, _, local_z, _, local_x)| Self {
             location,
diff --git a/ifc_rs/src/geometry/direction/deserialize.rs b/ifc_rs/src/geometry/direction/deserialize.rs
index eac93b9..aed4170 100644
--- a/ifc_rs/src/geometry/direction/deserialize.rs
+++ b/ifc_rs/src/geometry/direction/deserialize.rs
@@ -2,6 +2,7 @@ use winnow::{combinator::delimited, Parser};
 
 use super::{Direction2D, Direction3D};
 use crate::parser::{
+    p_space_or_comment,
     real::{IfcDVec2, IfcDVec3},
     IFCParse, IFCParser,
 };
@@ -11,7 +12,11 @@ impl IFCParse for Direction2D {
     where
         Self: Sized,
     {
-        delimited("IFCDIRECTION(", IfcDVec2::parse().map(Self), ");")
+        delimited(
+            "IFCDIRECTION(",
+            IfcDVec2::parse().map(Self),
+            (")", p_space_or_comment(), ";"),
+        )
     }
 }
 
@@ -20,7 +25,11 @@ impl IFCParse for Direction3D {
     where
         Self: Sized,
     {
-        delimited("IFCDIRECTION(", IfcDVec3::parse().map(Self), ");")
+        delimited(
+            "IFCDIRECTION(",
+            IfcDVec3::parse().map(Self),
+            (")", p_space_or_comment(), ";"),
+        )
     }
 }
 
diff --git a/ifc_rs/src/geometry/extruded_area_solid.rs b/ifc_rs/src/geometry/extruded_area_solid.rs
index 26e7b09..1b30498 100644
--- a/ifc_rs/src/geometry/extruded_area_solid.rs
+++ b/ifc_rs/src/geometry/extruded_area_solid.rs
@@ -115,7 +115,7 @@ impl IFCParse for ExtrudedAreaSolid {
                 _: Comma::parse(),
                 depth: RealPrimitive::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/geometry/indexed_poly_curve/deserialize.rs b/ifc_rs/src/geometry/indexed_poly_curve/deserialize.rs
index 9082733..51cb258 100644
--- a/ifc_rs/src/geometry/indexed_poly_curve/deserialize.rs
+++ b/ifc_rs/src/geometry/indexed_poly_curve/deserialize.rs
@@ -1,3 +1,4 @@
+use crate::parser::p_space_or_comment;
 use winnow::{combinator::delimited, Parser};
 
 use crate::{
@@ -17,7 +18,7 @@ impl IFCParse for IndexedPolyCurve {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            (")", p_space_or_comment(), ";"),
         )
         .map(|(points, _, segments, _, self_intersect)| Self {
             points,
diff --git a/ifc_rs/src/geometry/local_placement/mod.rs b/ifc_rs/src/geometry/local_placement/mod.rs
index 2dffb7c..5169c71 100644
--- a/ifc_rs/src/geometry/local_placement/mod.rs
+++ b/ifc_rs/src/geometry/local_placement/mod.rs
@@ -5,8 +5,8 @@ use ifc_rs_verify_derive::IfcVerify;
 use crate::{
     id::{Id, IdOr},
     parser::{
-        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
-        IFCParser,
+        comma::Comma, optional::OptionalParameter, p_space_or_comment,
+        p_space_or_comment_surrounded, IFCParse, IFCParser,
     },
     prelude::*,
 };
@@ -61,7 +61,7 @@ impl IFCParse for LocalPlacement {
                 _: Comma::parse(),
                 relative_placement: Id::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/geometry/non_uniform_transformations.rs b/ifc_rs/src/geometry/non_uniform_transformations.rs
index 0951ea7..f06550b 100644
--- a/ifc_rs/src/geometry/non_uniform_transformations.rs
+++ b/ifc_rs/src/geometry/non_uniform_transformations.rs
@@ -5,8 +5,8 @@ use ifc_rs_verify_derive::IfcVerify;
 use crate::{
     id::IdOr,
     parser::{
-        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded,
-        real::RealPrimitive, IFCParse,
+        comma::Comma, optional::OptionalParameter, p_space_or_comment,
+        p_space_or_comment_surrounded, real::RealPrimitive, IFCParse,
     },
     prelude::*,
 };
@@ -117,7 +117,7 @@ impl IFCParse for CartesianTransformationOperator3DnonUniform {
                 scale_y: OptionalParameter::parse(),
                 _: Comma::parse(),
                 scale_z: OptionalParameter::parse(),
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/geometry/point/deserialize.rs b/ifc_rs/src/geometry/point/deserialize.rs
index 023b07a..97d0f44 100644
--- a/ifc_rs/src/geometry/point/deserialize.rs
+++ b/ifc_rs/src/geometry/point/deserialize.rs
@@ -2,6 +2,7 @@ use winnow::{combinator::delimited, Parser};
 
 use super::{Point2D, Point3D};
 use crate::parser::{
+    p_space_or_comment,
     real::{IfcDVec2, IfcDVec3},
     IFCParse, IFCParser,
 };
@@ -11,7 +12,11 @@ impl IFCParse for Point2D {
     where
         Self: Sized,
     {
-        delimited("IFCCARTESIANPOINT(", IfcDVec2::parse().map(Self), ");")
+        delimited(
+            "IFCCARTESIANPOINT(",
+            IfcDVec2::parse().map(Self),
+            (")", p_space_or_comment(), ";"),
+        )
     }
 }
 
@@ -20,7 +25,11 @@ impl IFCParse for Point3D {
     where
         Self: Sized,
     {
-        delimited("IFCCARTESIANPOINT(", IfcDVec3::parse().map(Self), ");")
+        delimited(
+            "IFCCARTESIANPOINT(",
+            IfcDVec3::parse().map(Self),
+            (")", p_space_or_comment(), ";"),
+        )
     }
 }
 
diff --git a/ifc_rs/src/geometry/point_list/deserialize.rs b/ifc_rs/src/geometry/point_list/deserialize.rs
index 03b613d..88e8d05 100644
--- a/ifc_rs/src/geometry/point_list/deserialize.rs
+++ b/ifc_rs/src/geometry/point_list/deserialize.rs
@@ -1,3 +1,4 @@
+use crate::parser::p_space_or_comment;
 use winnow::{combinator::delimited, Parser};
 
 use crate::{
@@ -13,7 +14,7 @@ impl IFCParse for PointList2D {
         delimited(
             "IFCCARTESIANPOINTLIST2D(",
             (IfcList::parse(), Comma::parse(), OptionalParameter::parse()),
-            ");",
+            (")", p_space_or_comment(), ";"),
         )
         .map(|(coord_list, _, tag_list)| Self {
             coord_list,
@@ -30,7 +31,7 @@ impl IFCParse for PointList3D {
         delimited(
             "IFCCARTESIANPOINTLIST3D(",
             (IfcList::parse(), Comma::parse(), OptionalParameter::parse()),
-            ");",
+            (")", p_space_or_comment(), ";"),
         )
         .map(|(coord_list, _, tag_list)| Self {
             coord_list,
diff --git a/ifc_rs/src/geometry/polyline/deserialize.rs b/ifc_rs/src/geometry/polyline/deserialize.rs
index 01d0748..f2f3673 100644
--- a/ifc_rs/src/geometry/polyline/deserialize.rs
+++ b/ifc_rs/src/geometry/polyline/deserialize.rs
@@ -7,7 +7,7 @@ impl IFCParse for PolyLine {
             PolyLine {
                 _: p_space_or_comment_surrounded("IFCPOLYLINE("),
                 points: IfcList::parse(),
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/geometry/product_definition_shape/deserialize.rs b/ifc_rs/src/geometry/product_definition_shape/deserialize.rs
index 7daa223..4b1ca85 100644
--- a/ifc_rs/src/geometry/product_definition_shape/deserialize.rs
+++ b/ifc_rs/src/geometry/product_definition_shape/deserialize.rs
@@ -1,6 +1,7 @@
 use crate::parser::IFCParse;
 use crate::parser::{
-    comma::Comma, list::IfcList, optional::OptionalParameter, p_space_or_comment_surrounded,
+    comma::Comma, list::IfcList, optional::OptionalParameter, p_space_or_comment,
+    p_space_or_comment_surrounded,
 };
 
 use super::ProductDefinitionShape;
@@ -18,7 +19,7 @@ impl IFCParse for ProductDefinitionShape {
                 description: OptionalParameter::parse(),
                 _: Comma::parse(),
                 representations: IfcList::parse(),
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/geometry/rectangle_profile_def/deserialize.rs b/ifc_rs/src/geometry/rectangle_profile_def/deserialize.rs
index 8c8323f..cd77cfe 100644
--- a/ifc_rs/src/geometry/rectangle_profile_def/deserialize.rs
+++ b/ifc_rs/src/geometry/rectangle_profile_def/deserialize.rs
@@ -22,7 +22,7 @@ impl IFCParse for RectangleProfileDef {
                 _: Comma::parse(),
                 y_dim: RealPrimitive::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/geometry/representation_context/deserialize.rs b/ifc_rs/src/geometry/representation_context/deserialize.rs
index 1c3bde4..8494c46 100644
--- a/ifc_rs/src/geometry/representation_context/deserialize.rs
+++ b/ifc_rs/src/geometry/representation_context/deserialize.rs
@@ -1,4 +1,5 @@
 use super::GeometricRepresentationContext;
+use crate::parser::p_space_or_comment;
 use crate::{
     geometry::dimension_count::DimensionCount,
     id::Id,
@@ -21,7 +22,7 @@ impl IFCParse for GeometricRepresentationContext {
                 world_coord_system: Id::parse(),
                 _: Comma::parse(),
                 true_north: OptionalParameter::parse(),
-                _: ");",
+                _: (")", p_space_or_comment(), ";"),
             }
         }
     }
diff --git a/ifc_rs/src/geometry/representation_subcontext/deserialize.rs b/ifc_rs/src/geometry/representation_subcontext/deserialize.rs
index 33463a6..6d4961a 100644
--- a/ifc_rs/src/geometry/representation_subcontext/deserialize.rs
+++ b/ifc_rs/src/geometry/representation_subcontext/deserialize.rs
@@ -1,3 +1,4 @@
+use crate::parser::p_space_or_comment;
 use winnow::Parser;
 
 use crate::{
@@ -33,7 +34,7 @@ impl IFCParse for GeometricRepresentationSubContext {
                 target_view: GeometricProjection::parse(),
                 _: Comma::parse(),
                 user_defined_target_view: OptionalParameter::parse(),
-                _: ");"
+                _: (")", p_space_or_comment(), ";")
             }
         }
     }
diff --git a/ifc_rs/src/geometry/shape_representation/deserialize.rs b/ifc_rs/src/geometry/shape_representation/deserialize.rs
index f17218c..3ae8ee0 100644
--- a/ifc_rs/src/geometry/shape_representation/deserialize.rs
+++ b/ifc_rs/src/geometry/shape_representation/deserialize.rs
@@ -1,7 +1,7 @@
 use crate::{
     parser::{
-        comma::Comma, list::IfcList, optional::OptionalParameter, p_space_or_comment_surrounded,
-        IFCParse,
+        comma::Comma, list::IfcList, optional::OptionalParameter, p_space_or_comment,
+        p_space_or_comment_surrounded, IFCParse,
     },
     prelude::*,
 };
@@ -23,7 +23,7 @@ impl IFCParse for ShapeRepresentation {
                 representation_type: OptionalParameter::parse(),
                 _: Comma::parse(),
                 items: IfcList::parse(),
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/geometry/uniform_transformations.rs b/ifc_rs/src/geometry/uniform_transformations.rs
index 5187bc2..b1cb08c 100644
--- a/ifc_rs/src/geometry/uniform_transformations.rs
+++ b/ifc_rs/src/geometry/uniform_transformations.rs
@@ -4,7 +4,7 @@ use ifc_rs_verify_derive::IfcVerify;
 
 use crate::{
     id::IdOr,
-    parser::{p_space_or_comment_surrounded, IFCParse},
+    parser::{p_space_or_comment, p_space_or_comment_surrounded, IFCParse},
     prelude::*,
 };
 
@@ -85,7 +85,7 @@ impl IFCParse for CartesianTransformationOperator3D {
             CartesianTransformationOperator3D {
                 _: p_space_or_comment_surrounded("IFCCARTESIANTRANSFORMATIONOPERATOR3D("),
                 base: Transform3DBase::parse(),
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/materials/material.rs b/ifc_rs/src/materials/material.rs
index 5d4408b..34c6b71 100644
--- a/ifc_rs/src/materials/material.rs
+++ b/ifc_rs/src/materials/material.rs
@@ -4,8 +4,8 @@ use ifc_rs_verify_derive::IfcVerify;
 
 use crate::{
     parser::{
-        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded,
-        string::StringPrimitive, IFCParse, IFCParser,
+        comma::Comma, optional::OptionalParameter, p_space_or_comment,
+        p_space_or_comment_surrounded, string::StringPrimitive, IFCParse, IFCParser,
     },
     prelude::*,
 };
@@ -60,7 +60,7 @@ impl IFCParse for Material {
                 _: Comma::parse(),
                 category: OptionalParameter::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/materials/material_constituent.rs b/ifc_rs/src/materials/material_constituent.rs
index 3ed7f3d..00d8da0 100644
--- a/ifc_rs/src/materials/material_constituent.rs
+++ b/ifc_rs/src/materials/material_constituent.rs
@@ -5,8 +5,9 @@ use ifc_rs_verify_derive::IfcVerify;
 use crate::{
     id::{IdOr, TypedId},
     parser::{
-        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded,
-        real::RealPrimitive, string::StringPrimitive, IFCParse, IFCParser,
+        comma::Comma, optional::OptionalParameter, p_space_or_comment,
+        p_space_or_comment_surrounded, real::RealPrimitive, string::StringPrimitive, IFCParse,
+        IFCParser,
     },
     prelude::*,
 };
@@ -95,7 +96,7 @@ impl IFCParse for MaterialConstituent {
                 _: Comma::parse(),
                 category: OptionalParameter::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/materials/material_constituent_set.rs b/ifc_rs/src/materials/material_constituent_set.rs
index 706638c..df90b7b 100644
--- a/ifc_rs/src/materials/material_constituent_set.rs
+++ b/ifc_rs/src/materials/material_constituent_set.rs
@@ -5,8 +5,8 @@ use ifc_rs_verify_derive::IfcVerify;
 use crate::{
     id::{IdOr, TypedId},
     parser::{
-        comma::Comma, list::IfcList, optional::OptionalParameter, p_space_or_comment_surrounded,
-        string::StringPrimitive, IFCParse, IFCParser,
+        comma::Comma, list::IfcList, optional::OptionalParameter, p_space_or_comment,
+        p_space_or_comment_surrounded, string::StringPrimitive, IFCParse, IFCParser,
     },
     prelude::*,
 };
@@ -79,7 +79,7 @@ impl IFCParse for MaterialConstituentSet {
                 _: Comma::parse(),
                 material_constituents: IfcList::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/materials/material_layer.rs b/ifc_rs/src/materials/material_layer.rs
index ec19564..cc16f43 100644
--- a/ifc_rs/src/materials/material_layer.rs
+++ b/ifc_rs/src/materials/material_layer.rs
@@ -6,8 +6,8 @@ use crate::{
     id::{IdOr, TypedId},
     parser::{
         bool::BoolPrimitive, comma::Comma, integer::IntegerPrimitive, optional::OptionalParameter,
-        p_space_or_comment_surrounded, real::RealPrimitive, string::StringPrimitive, IFCParse,
-        IFCParser,
+        p_space_or_comment, p_space_or_comment_surrounded, real::RealPrimitive,
+        string::StringPrimitive, IFCParse, IFCParser,
     },
     prelude::*,
 };
@@ -128,7 +128,7 @@ impl IFCParse for MaterialLayer {
                 _: Comma::parse(),
                 priority: OptionalParameter::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/materials/material_layer_set.rs b/ifc_rs/src/materials/material_layer_set.rs
index d16fe9b..a9dc38c 100644
--- a/ifc_rs/src/materials/material_layer_set.rs
+++ b/ifc_rs/src/materials/material_layer_set.rs
@@ -5,8 +5,8 @@ use ifc_rs_verify_derive::IfcVerify;
 use crate::{
     id::{IdOr, TypedId},
     parser::{
-        comma::Comma, list::IfcList, optional::OptionalParameter, p_space_or_comment_surrounded,
-        string::StringPrimitive, IFCParse, IFCParser,
+        comma::Comma, list::IfcList, optional::OptionalParameter, p_space_or_comment,
+        p_space_or_comment_surrounded, string::StringPrimitive, IFCParse, IFCParser,
     },
     prelude::*,
 };
@@ -72,7 +72,7 @@ impl IFCParse for MaterialLayerSet {
                 _: Comma::parse(),
                 description: OptionalParameter::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/materials/material_layer_set_usage.rs b/ifc_rs/src/materials/material_layer_set_usage.rs
index cc86ed2..f773787 100644
--- a/ifc_rs/src/materials/material_layer_set_usage.rs
+++ b/ifc_rs/src/materials/material_layer_set_usage.rs
@@ -5,8 +5,8 @@ use ifc_rs_verify_derive::IfcVerify;
 use crate::{
     id::{Id, IdOr, TypedId},
     parser::{
-        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded,
-        real::RealPrimitive, IFCParse, IFCParser,
+        comma::Comma, optional::OptionalParameter, p_space_or_comment,
+        p_space_or_comment_surrounded, real::RealPrimitive, IFCParse, IFCParser,
     },
     prelude::*,
 };
@@ -101,7 +101,7 @@ impl IFCParse for MaterialLayerSetUsage {
                 _: Comma::parse(),
                 reference_extent: OptionalParameter::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/objects/actor_role/deserialize.rs b/ifc_rs/src/objects/actor_role/deserialize.rs
index 6931a29..043fd6c 100644
--- a/ifc_rs/src/objects/actor_role/deserialize.rs
+++ b/ifc_rs/src/objects/actor_role/deserialize.rs
@@ -1,3 +1,4 @@
+use crate::parser::p_space_or_comment;
 use winnow::{combinator::delimited, Parser};
 
 use crate::{
@@ -16,7 +17,7 @@ impl IFCParse for ActorRole {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            (")", p_space_or_comment(), ";"),
         )
         .map(|(role, _, user_defined_role, _, description)| Self {
             role,
diff --git a/ifc_rs/src/objects/address/deserialize.rs b/ifc_rs/src/objects/address/deserialize.rs
index 90d1a22..94c80ab 100644
--- a/ifc_rs/src/objects/address/deserialize.rs
+++ b/ifc_rs/src/objects/address/deserialize.rs
@@ -1,3 +1,4 @@
+use crate::parser::p_space_or_comment;
 use winnow::{combinator::delimited, Parser};
 
 use crate::{
@@ -26,7 +27,7 @@ impl IFCParse for TelecomAddress {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            (")", p_space_or_comment(), ";"),
         )
         .map(
             |(
@@ -84,7 +85,7 @@ impl IFCParse for PostalAddress {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            (")", p_space_or_comment(), ";"),
         )
         .map(
             |(
diff --git a/ifc_rs/src/objects/application/deserialize.rs b/ifc_rs/src/objects/application/deserialize.rs
index 596ee75..d37a179 100644
--- a/ifc_rs/src/objects/application/deserialize.rs
+++ b/ifc_rs/src/objects/application/deserialize.rs
@@ -1,3 +1,4 @@
+use crate::parser::p_space_or_comment;
 use crate::{
     id::TypedId,
     objects::application::Application,
@@ -16,7 +17,7 @@ impl IFCParse for Application {
                 application_full_name: StringPrimitive::parse(),
                 _: Comma::parse(),
                 application_identifier: StringPrimitive::parse(),
-                _: ");",
+                _: (")", p_space_or_comment(), ";"),
             }
         }
     }
diff --git a/ifc_rs/src/objects/building.rs b/ifc_rs/src/objects/building.rs
index 97590c7..5c2f4af 100644
--- a/ifc_rs/src/objects/building.rs
+++ b/ifc_rs/src/objects/building.rs
@@ -8,8 +8,9 @@ use ifc_rs_verify_derive::IfcVerify;
 use crate::{
     id::{IdOr, TypedId},
     parser::{
-        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded,
-        real::RealPrimitive, string::StringPrimitive, IFCParse, IFCParser,
+        comma::Comma, optional::OptionalParameter, p_space_or_comment,
+        p_space_or_comment_surrounded, real::RealPrimitive, string::StringPrimitive, IFCParse,
+        IFCParser,
     },
     prelude::*,
 };
@@ -128,7 +129,7 @@ impl IFCParse for Building {
                 _: Comma::parse(),
                 building_address: OptionalParameter::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/objects/door/deserialize.rs b/ifc_rs/src/objects/door/deserialize.rs
index 986f418..411e191 100644
--- a/ifc_rs/src/objects/door/deserialize.rs
+++ b/ifc_rs/src/objects/door/deserialize.rs
@@ -24,7 +24,7 @@ impl IFCParse for Door {
                 _: Comma::parse(),
                 user_defining_operation_type: OptionalParameter::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/objects/doortype/deserialize.rs b/ifc_rs/src/objects/doortype/deserialize.rs
index 7197937..05fc0c2 100644
--- a/ifc_rs/src/objects/doortype/deserialize.rs
+++ b/ifc_rs/src/objects/doortype/deserialize.rs
@@ -29,7 +29,7 @@ impl IFCParse for DoorType {
                 _: Comma::parse(),
                 user_defined_partitioning_type: OptionalParameter::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/objects/opening_element/deserialize.rs b/ifc_rs/src/objects/opening_element/deserialize.rs
index b86c2b0..396ab61 100644
--- a/ifc_rs/src/objects/opening_element/deserialize.rs
+++ b/ifc_rs/src/objects/opening_element/deserialize.rs
@@ -15,7 +15,7 @@ impl IFCParse for OpeningElement {
                 _: Comma::parse(),
                 predefined_type: OptionalParameter::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/objects/organization/deserialize.rs b/ifc_rs/src/objects/organization/deserialize.rs
index b853465..69d4f1c 100644
--- a/ifc_rs/src/objects/organization/deserialize.rs
+++ b/ifc_rs/src/objects/organization/deserialize.rs
@@ -1,3 +1,4 @@
+use crate::parser::p_space_or_comment;
 use winnow::{combinator::delimited, Parser};
 
 use crate::{
@@ -22,7 +23,7 @@ impl IFCParse for Organization {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            (")", p_space_or_comment(), ";"),
         )
         .map(
             |(id, _, name, _, description, _, roles, _, addresses)| Self {
diff --git a/ifc_rs/src/objects/owner_history/deserialize.rs b/ifc_rs/src/objects/owner_history/deserialize.rs
index ece44d9..beaf8ff 100644
--- a/ifc_rs/src/objects/owner_history/deserialize.rs
+++ b/ifc_rs/src/objects/owner_history/deserialize.rs
@@ -1,3 +1,4 @@
+use crate::parser::p_space_or_comment;
 use winnow::{combinator::delimited, Parser};
 
 use crate::{
@@ -28,7 +29,7 @@ impl IFCParse for OwnerHistory {
                 Comma::parse(),
                 IfcTimestamp::parse(),
             ),
-            ");",
+            (")", p_space_or_comment(), ";"),
         )
         .map(
             |(
diff --git a/ifc_rs/src/objects/person/deserialize.rs b/ifc_rs/src/objects/person/deserialize.rs
index c235276..2e04ec9 100644
--- a/ifc_rs/src/objects/person/deserialize.rs
+++ b/ifc_rs/src/objects/person/deserialize.rs
@@ -1,3 +1,4 @@
+use crate::parser::p_space_or_comment;
 use winnow::{combinator::delimited, Parser};
 
 use crate::{
@@ -26,7 +27,7 @@ impl IFCParse for Person {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            (")", p_space_or_comment(), ";"),
         )
         .map(
             |(
diff --git a/ifc_rs/src/objects/person_and_org/deserialize.rs b/ifc_rs/src/objects/person_and_org/deserialize.rs
index 860315c..de1b5ad 100644
--- a/ifc_rs/src/objects/person_and_org/deserialize.rs
+++ b/ifc_rs/src/objects/person_and_org/deserialize.rs
@@ -1,3 +1,4 @@
+use crate::parser::p_space_or_comment;
 use winnow::{combinator::delimited, Parser};
 
 use crate::{
@@ -17,7 +18,7 @@ impl IFCParse for PersonAndOrganization {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            (")", p_space_or_comment(), ";"),
         )
         .map(|(the_person, _, the_organization, _, roles)| Self {
             the_person: the_person.into(),
diff --git a/ifc_rs/src/objects/project.rs b/ifc_rs/src/objects/project.rs
index f8c2deb..df88429 100644
--- a/ifc_rs/src/objects/project.rs
+++ b/ifc_rs/src/objects/project.rs
@@ -4,7 +4,7 @@ use std::{fmt::Display, ops::Deref};
 use ifc_rs_verify_derive::IfcVerify;
 
 use crate::parser::string::StringPrimitive;
-use crate::parser::{p_space_or_comment_surrounded, IFCParse, IFCParser};
+use crate::parser::{p_space_or_comment, p_space_or_comment_surrounded, IFCParse, IFCParser};
 use crate::prelude::*;
 
 use super::shared::context::Context;
@@ -67,7 +67,7 @@ impl IFCParse for Project {
 
                 context: Context::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/objects/roof/deserialize.rs b/ifc_rs/src/objects/roof/deserialize.rs
index 468186f..eaaee7f 100644
--- a/ifc_rs/src/objects/roof/deserialize.rs
+++ b/ifc_rs/src/objects/roof/deserialize.rs
@@ -15,7 +15,7 @@ impl IFCParse for Roof {
                 _: Comma::parse(),
                 predefined_type: OptionalParameter::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/objects/rooftype/deserialize.rs b/ifc_rs/src/objects/rooftype/deserialize.rs
index 2b8e0f5..57950d6 100644
--- a/ifc_rs/src/objects/rooftype/deserialize.rs
+++ b/ifc_rs/src/objects/rooftype/deserialize.rs
@@ -15,7 +15,7 @@ impl IFCParse for RoofType {
                 _: Comma::parse(),
                 predefined_type: RoofTypeEnum::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/objects/shading_device.rs b/ifc_rs/src/objects/shading_device.rs
index a3d8603..79bea5b 100644
--- a/ifc_rs/src/objects/shading_device.rs
+++ b/ifc_rs/src/objects/shading_device.rs
@@ -8,8 +8,8 @@ use ifc_rs_verify_derive::IfcVerify;
 use crate::{
     id::TypedId,
     parser::{
-        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded,
-        string::StringPrimitive, IFCParse, IFCParser,
+        comma::Comma, optional::OptionalParameter, p_space_or_comment,
+        p_space_or_comment_surrounded, string::StringPrimitive, IFCParse, IFCParser,
     },
     prelude::*,
 };
@@ -55,7 +55,7 @@ impl IFCParse for ShadingDevice {
                 _: Comma::parse(),
                 predefined_type: OptionalParameter::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/objects/shading_device_type.rs b/ifc_rs/src/objects/shading_device_type.rs
index b73e851..1629fd5 100644
--- a/ifc_rs/src/objects/shading_device_type.rs
+++ b/ifc_rs/src/objects/shading_device_type.rs
@@ -4,7 +4,8 @@ use ifc_rs_verify_derive::IfcVerify;
 
 use crate::{
     parser::{
-        comma::Comma, p_space_or_comment_surrounded, string::StringPrimitive, IFCParse, IFCParser,
+        comma::Comma, p_space_or_comment, p_space_or_comment_surrounded, string::StringPrimitive,
+        IFCParse, IFCParser,
     },
     prelude::*,
 };
@@ -53,7 +54,7 @@ impl IFCParse for ShadingDeviceType {
                 _: Comma::parse(),
                 predefined_type: ShadingDeviceTypeEnum::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/objects/site.rs b/ifc_rs/src/objects/site.rs
index bfeedb0..4d50e5b 100644
--- a/ifc_rs/src/objects/site.rs
+++ b/ifc_rs/src/objects/site.rs
@@ -9,8 +9,8 @@ use crate::{
     id::{IdOr, TypedId},
     parser::{
         comma::Comma, integer::IntegerPrimitive, list::IfcList, optional::OptionalParameter,
-        p_space_or_comment_surrounded, real::RealPrimitive, string::StringPrimitive, IFCParse,
-        IFCParser,
+        p_space_or_comment, p_space_or_comment_surrounded, real::RealPrimitive,
+        string::StringPrimitive, IFCParse, IFCParser,
     },
     prelude::*,
 };
@@ -184,7 +184,7 @@ impl IFCParse for Site {
                 _: Comma::parse(),
                 site_address: OptionalParameter::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/objects/slab/deserialize.rs b/ifc_rs/src/objects/slab/deserialize.rs
index a6ae8f5..871b01b 100644
--- a/ifc_rs/src/objects/slab/deserialize.rs
+++ b/ifc_rs/src/objects/slab/deserialize.rs
@@ -16,7 +16,7 @@ impl IFCParse for Slab {
                 _: Comma::parse(),
                 predefined_type: OptionalParameter::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/objects/slabtype/deserialize.rs b/ifc_rs/src/objects/slabtype/deserialize.rs
index 42676e5..7ab009a 100644
--- a/ifc_rs/src/objects/slabtype/deserialize.rs
+++ b/ifc_rs/src/objects/slabtype/deserialize.rs
@@ -15,7 +15,7 @@ impl IFCParse for SlabType {
                 _: Comma::parse(),
                 predefined_type: SlabTypeEnum::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/objects/space/deserialize.rs b/ifc_rs/src/objects/space/deserialize.rs
index f48c860..cb1d441 100644
--- a/ifc_rs/src/objects/space/deserialize.rs
+++ b/ifc_rs/src/objects/space/deserialize.rs
@@ -18,7 +18,7 @@ impl IFCParse for Space {
                 _: Comma::parse(),
                 elevation_with_flooring: OptionalParameter::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/objects/spacetype/deserialize.rs b/ifc_rs/src/objects/spacetype/deserialize.rs
index 3ec67dc..3b8bc74 100644
--- a/ifc_rs/src/objects/spacetype/deserialize.rs
+++ b/ifc_rs/src/objects/spacetype/deserialize.rs
@@ -22,7 +22,7 @@ impl IFCParse for SpaceType {
                 _: Comma::parse(),
                 long_name: OptionalParameter::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/objects/storey.rs b/ifc_rs/src/objects/storey.rs
index 34f0713..156934d 100644
--- a/ifc_rs/src/objects/storey.rs
+++ b/ifc_rs/src/objects/storey.rs
@@ -17,8 +17,9 @@ use super::{
 };
 use crate::{
     parser::{
-        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded,
-        real::RealPrimitive, string::StringPrimitive, IFCParse, IFCParser,
+        comma::Comma, optional::OptionalParameter, p_space_or_comment,
+        p_space_or_comment_surrounded, real::RealPrimitive, string::StringPrimitive, IFCParse,
+        IFCParser,
     },
     prelude::*,
 };
@@ -133,7 +134,7 @@ impl IFCParse for Storey {
                 _: Comma::parse(),
                 elevation: OptionalParameter::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/objects/wall/deserialize.rs b/ifc_rs/src/objects/wall/deserialize.rs
index 236dd8e..b4126c1 100644
--- a/ifc_rs/src/objects/wall/deserialize.rs
+++ b/ifc_rs/src/objects/wall/deserialize.rs
@@ -16,7 +16,7 @@ impl IFCParse for Wall {
                 _: Comma::parse(),
                 predefined_type: OptionalParameter::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/objects/walltype/deserialize.rs b/ifc_rs/src/objects/walltype/deserialize.rs
index a9d2c2d..5fd466c 100644
--- a/ifc_rs/src/objects/walltype/deserialize.rs
+++ b/ifc_rs/src/objects/walltype/deserialize.rs
@@ -17,7 +17,7 @@ impl IFCParse for WallType {
                 _: Comma::parse(),
                 predefined_type: WallTypeEnum::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/objects/window/deserialize.rs b/ifc_rs/src/objects/window/deserialize.rs
index 83fae73..f8ebb45 100644
--- a/ifc_rs/src/objects/window/deserialize.rs
+++ b/ifc_rs/src/objects/window/deserialize.rs
@@ -24,7 +24,7 @@ impl IFCParse for Window {
                 _: Comma::parse(),
                 user_defining_partitioning_type: OptionalParameter::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/objects/windowtype/deserialize.rs b/ifc_rs/src/objects/windowtype/deserialize.rs
index 3564986..3a2bd8f 100644
--- a/ifc_rs/src/objects/windowtype/deserialize.rs
+++ b/ifc_rs/src/objects/windowtype/deserialize.rs
@@ -30,7 +30,7 @@ impl IFCParse for WindowType {
                 _: Comma::parse(),
                 user_defined_partitioning_type: OptionalParameter::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/properties/material.rs b/ifc_rs/src/properties/material.rs
index c085a4c..89533b1 100644
--- a/ifc_rs/src/properties/material.rs
+++ b/ifc_rs/src/properties/material.rs
@@ -59,7 +59,7 @@ impl IFCParse for MaterialProperties {
                 _: Comma::parse(),
                 material: TypedId::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/properties/set.rs b/ifc_rs/src/properties/set.rs
index 392b0d6..043ba30 100644
--- a/ifc_rs/src/properties/set.rs
+++ b/ifc_rs/src/properties/set.rs
@@ -77,7 +77,7 @@ impl IFCParse for PropertySet {
                 _: Comma::parse(),
                 properties: IfcList::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/properties/single_value.rs b/ifc_rs/src/properties/single_value.rs
index aaeabf1..83e643b 100644
--- a/ifc_rs/src/properties/single_value.rs
+++ b/ifc_rs/src/properties/single_value.rs
@@ -65,7 +65,7 @@ impl IFCParse for PropertySingleValue {
                 _: Comma::parse(),
                 unit: OptionalParameter::parse(),
 
-                _: p_space_or_comment_surrounded(");")
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";"))
             }
         }
     }
diff --git a/ifc_rs/src/relations/mapped_item.rs b/ifc_rs/src/relations/mapped_item.rs
index 0722143..7c073fd 100644
--- a/ifc_rs/src/relations/mapped_item.rs
+++ b/ifc_rs/src/relations/mapped_item.rs
@@ -4,7 +4,7 @@ use ifc_rs_verify_derive::IfcVerify;
 
 use crate::{
     id::IdOr,
-    parser::{comma::Comma, p_space_or_comment_surrounded, IFCParse},
+    parser::{comma::Comma, p_space_or_comment, p_space_or_comment_surrounded, IFCParse},
     prelude::*,
 };
 
@@ -129,7 +129,7 @@ impl IFCParse for MappedItem {
                 source: IdOr::parse(),
                 _: Comma::parse(),
                 target: Id::parse(),
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/relations/rel_aggregates.rs b/ifc_rs/src/relations/rel_aggregates.rs
index ec06747..b8d3002 100644
--- a/ifc_rs/src/relations/rel_aggregates.rs
+++ b/ifc_rs/src/relations/rel_aggregates.rs
@@ -5,8 +5,8 @@ use ifc_rs_verify_derive::IfcVerify;
 use crate::{
     id::Id,
     parser::{
-        comma::Comma, list::IfcList, p_space_or_comment_surrounded, string::StringPrimitive,
-        IFCParse, IFCParser,
+        comma::Comma, list::IfcList, p_space_or_comment, p_space_or_comment_surrounded,
+        string::StringPrimitive, IFCParse, IFCParser,
     },
     prelude::*,
 };
@@ -76,7 +76,7 @@ impl IFCParse for RelAggregates {
                 _: Comma::parse(),
                 related_objects: IfcList::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/relations/rel_associates_material.rs b/ifc_rs/src/relations/rel_associates_material.rs
index 74d16c7..3ba3a96 100644
--- a/ifc_rs/src/relations/rel_associates_material.rs
+++ b/ifc_rs/src/relations/rel_associates_material.rs
@@ -5,7 +5,8 @@ use ifc_rs_verify_derive::IfcVerify;
 use crate::{
     id::{Id, IdOr},
     parser::{
-        comma::Comma, p_space_or_comment_surrounded, string::StringPrimitive, IFCParse, IFCParser,
+        comma::Comma, p_space_or_comment, p_space_or_comment_surrounded, string::StringPrimitive,
+        IFCParse, IFCParser,
     },
     prelude::*,
 };
@@ -78,7 +79,7 @@ impl IFCParse for RelAssociatesMaterial {
                 _: Comma::parse(),
                 relating_material: Id::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs b/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
index 9ccb8db..be38dd0 100644
--- a/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
+++ b/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
@@ -4,8 +4,8 @@ use ifc_rs_verify_derive::IfcVerify;
 
 use crate::id::{Id, IdOr};
 use crate::parser::{
-    comma::Comma, list::IfcList, p_space_or_comment_surrounded, string::StringPrimitive, IFCParse,
-    IFCParser,
+    comma::Comma, list::IfcList, p_space_or_comment, p_space_or_comment_surrounded,
+    string::StringPrimitive, IFCParse, IFCParser,
 };
 use crate::prelude::*;
 
@@ -97,7 +97,7 @@ impl IFCParse for RelContainedInSpatialStructure {
                 _: Comma::parse(),
                 relating_structure: Id::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/relations/rel_declares.rs b/ifc_rs/src/relations/rel_declares.rs
index 170d5ab..ac6dee3 100644
--- a/ifc_rs/src/relations/rel_declares.rs
+++ b/ifc_rs/src/relations/rel_declares.rs
@@ -5,8 +5,8 @@ use ifc_rs_verify_derive::IfcVerify;
 use crate::{
     id::{Id, IdOr, TypedId},
     parser::{
-        comma::Comma, list::IfcList, p_space_or_comment_surrounded, string::StringPrimitive,
-        IFCParse, IFCParser,
+        comma::Comma, list::IfcList, p_space_or_comment, p_space_or_comment_surrounded,
+        string::StringPrimitive, IFCParse, IFCParser,
     },
     prelude::*,
 };
@@ -81,7 +81,7 @@ impl IFCParse for RelDeclares {
                 _ : Comma::parse(),
                 related_definitions: IfcList::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/relations/rel_defines_by_properties.rs b/ifc_rs/src/relations/rel_defines_by_properties.rs
index e4590d6..1afd082 100644
--- a/ifc_rs/src/relations/rel_defines_by_properties.rs
+++ b/ifc_rs/src/relations/rel_defines_by_properties.rs
@@ -6,10 +6,10 @@ use crate::id::Id;
 use crate::id::IdOr;
 use crate::parser::comma::Comma;
 use crate::parser::list::IfcList;
-use crate::parser::p_space_or_comment_surrounded;
 use crate::parser::string::StringPrimitive;
 use crate::parser::IFCParse;
 use crate::parser::IFCParser;
+use crate::parser::{p_space_or_comment, p_space_or_comment_surrounded};
 use crate::prelude::*;
 
 /// The objectified relationship IfcRelDefinesByProperties defines the relationships between
@@ -83,7 +83,7 @@ impl IFCParse for RelDefinesByProperties {
                 _ : Comma::parse(),
                 relating_property_definition: Id::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/relations/rel_defines_by_type.rs b/ifc_rs/src/relations/rel_defines_by_type.rs
index ca2747f..43d86f1 100644
--- a/ifc_rs/src/relations/rel_defines_by_type.rs
+++ b/ifc_rs/src/relations/rel_defines_by_type.rs
@@ -6,10 +6,10 @@ use crate::id::Id;
 use crate::id::IdOr;
 use crate::parser::comma::Comma;
 use crate::parser::list::IfcList;
-use crate::parser::p_space_or_comment_surrounded;
 use crate::parser::string::StringPrimitive;
 use crate::parser::IFCParse;
 use crate::parser::IFCParser;
+use crate::parser::{p_space_or_comment, p_space_or_comment_surrounded};
 use crate::prelude::*;
 
 /// The objectified relationship IfcRelDefinesByType defines the relationship
@@ -78,7 +78,7 @@ impl IFCParse for RelDefinesByType {
                 _ : Comma::parse(),
                 relating_type: Id::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/relations/rel_fills_element.rs b/ifc_rs/src/relations/rel_fills_element.rs
index 1dc8dd2..43e1c1b 100644
--- a/ifc_rs/src/relations/rel_fills_element.rs
+++ b/ifc_rs/src/relations/rel_fills_element.rs
@@ -5,7 +5,8 @@ use ifc_rs_verify_derive::IfcVerify;
 use crate::{
     id::{Id, IdOr, TypedId},
     parser::{
-        comma::Comma, p_space_or_comment_surrounded, string::StringPrimitive, IFCParse, IFCParser,
+        comma::Comma, p_space_or_comment, p_space_or_comment_surrounded, string::StringPrimitive,
+        IFCParse, IFCParser,
     },
     prelude::*,
 };
@@ -60,7 +61,7 @@ impl IFCParse for RelFillsElement {
                 _: Comma::parse(),
                 related_building_element: Id::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/relations/rel_voids_element.rs b/ifc_rs/src/relations/rel_voids_element.rs
index 3430394..981d70e 100644
--- a/ifc_rs/src/relations/rel_voids_element.rs
+++ b/ifc_rs/src/relations/rel_voids_element.rs
@@ -5,7 +5,8 @@ use ifc_rs_verify_derive::IfcVerify;
 use crate::{
     id::{Id, IdOr, TypedId},
     parser::{
-        comma::Comma, p_space_or_comment_surrounded, string::StringPrimitive, IFCParse, IFCParser,
+        comma::Comma, p_space_or_comment, p_space_or_comment_surrounded, string::StringPrimitive,
+        IFCParse, IFCParser,
     },
     prelude::*,
 };
@@ -64,7 +65,7 @@ impl IFCParse for RelVoidsElement {
                 _: Comma::parse(),
                 related_opening_element: Id::parse().map(TypedId::new),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/relations/representation_map.rs b/ifc_rs/src/relations/representation_map.rs
index 212c44c..e711fa3 100644
--- a/ifc_rs/src/relations/representation_map.rs
+++ b/ifc_rs/src/relations/representation_map.rs
@@ -4,7 +4,7 @@ use ifc_rs_verify_derive::IfcVerify;
 
 use crate::{
     id::IdOr,
-    parser::{comma::Comma, p_space_or_comment_surrounded, IFCParse},
+    parser::{comma::Comma, p_space_or_comment, p_space_or_comment_surrounded, IFCParse},
     prelude::*,
 };
 
@@ -78,7 +78,7 @@ impl IFCParse for RepresentationMap {
                 origin: IdOr::parse(),
                 _: Comma::parse(),
                 representation: IdOr::parse(),
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/units/assignment.rs b/ifc_rs/src/units/assignment.rs
index 4400306..f399ae4 100644
--- a/ifc_rs/src/units/assignment.rs
+++ b/ifc_rs/src/units/assignment.rs
@@ -4,7 +4,9 @@ use ifc_rs_verify_derive::IfcVerify;
 
 use crate::{
     id::IdOr,
-    parser::{list::IfcList, p_space_or_comment_surrounded, IFCParse, IFCParser},
+    parser::{
+        list::IfcList, p_space_or_comment, p_space_or_comment_surrounded, IFCParse, IFCParser,
+    },
     prelude::*,
 };
 
@@ -38,7 +40,7 @@ impl IFCParse for UnitAssigment {
 
                 units: IfcList::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/units/conversion_based_unit.rs b/ifc_rs/src/units/conversion_based_unit.rs
index 0d4f05a..6f3bf06 100644
--- a/ifc_rs/src/units/conversion_based_unit.rs
+++ b/ifc_rs/src/units/conversion_based_unit.rs
@@ -52,7 +52,7 @@ impl IFCParse for ConversionBasedUnit {
                 _: Comma::parse(),
                 conversion_factor: OptionalParameter::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/units/derived_unit.rs b/ifc_rs/src/units/derived_unit.rs
index cf7cdd6..d7bb632 100644
--- a/ifc_rs/src/units/derived_unit.rs
+++ b/ifc_rs/src/units/derived_unit.rs
@@ -4,7 +4,7 @@ use ifc_rs_verify_derive::IfcVerify;
 
 use crate::{
     prelude::*,
-    units::{comma::Comma, p_space_or_comment_surrounded},
+    units::{comma::Comma, p_space_or_comment, p_space_or_comment_surrounded},
 };
 
 use super::{
@@ -36,7 +36,7 @@ impl IFCParse for DerivedUnit {
                 _: Comma::parse(),
                 user_defined_type: OptionalParameter::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/units/derived_unit_element.rs b/ifc_rs/src/units/derived_unit_element.rs
index a210f35..2f99db2 100644
--- a/ifc_rs/src/units/derived_unit_element.rs
+++ b/ifc_rs/src/units/derived_unit_element.rs
@@ -4,7 +4,7 @@ use ifc_rs_verify_derive::IfcVerify;
 
 use crate::{
     prelude::*,
-    units::{comma::Comma, p_space_or_comment_surrounded},
+    units::{comma::Comma, p_space_or_comment, p_space_or_comment_surrounded},
 };
 
 use super::{integer::IntegerPrimitive, IFCParse, IFCParser};
@@ -29,7 +29,7 @@ impl IFCParse for DerivedUnitElement {
                 _: Comma::parse(),
                 exponent: IntegerPrimitive::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/units/dimensional_exponents.rs b/ifc_rs/src/units/dimensional_exponents.rs
index b554f3c..3c5e40d 100644
--- a/ifc_rs/src/units/dimensional_exponents.rs
+++ b/ifc_rs/src/units/dimensional_exponents.rs
@@ -5,7 +5,7 @@ use winnow::ascii::dec_int;
 
 use crate::{
     prelude::*,
-    units::{comma::Comma, p_space_or_comment_surrounded},
+    units::{comma::Comma, p_space_or_comment, p_space_or_comment_surrounded},
 };
 
 use super::IFCParse;
@@ -85,7 +85,7 @@ impl IFCParse for DimensionalExponents {
                 amount_of_substance: dec_int,
                 _: Comma::parse(),
                 luminouse_intensity: dec_int,
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/units/measure_with_unit.rs b/ifc_rs/src/units/measure_with_unit.rs
index cde0e6a..41c8d58 100644
--- a/ifc_rs/src/units/measure_with_unit.rs
+++ b/ifc_rs/src/units/measure_with_unit.rs
@@ -4,7 +4,7 @@ use ifc_rs_verify_derive::IfcVerify;
 
 use crate::{
     prelude::*,
-    units::{comma::Comma, p_space_or_comment_surrounded},
+    units::{comma::Comma, p_space_or_comment, p_space_or_comment_surrounded},
 };
 
 use super::{IFCParse, IFCParser};
@@ -34,7 +34,7 @@ impl IFCParse for MeasureWithUnit {
                 _: Comma::parse(),
                 unit: Id::parse().map(TypedId::new),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/units/monetary_unit.rs b/ifc_rs/src/units/monetary_unit.rs
index b3c1bf9..7d43991 100644
--- a/ifc_rs/src/units/monetary_unit.rs
+++ b/ifc_rs/src/units/monetary_unit.rs
@@ -3,7 +3,10 @@ use std::fmt::Display;
 use ifc_rs_verify_derive::IfcVerify;
 
 use super::{string::StringPrimitive, IFCParse, IFCParser};
-use crate::{prelude::*, units::p_space_or_comment_surrounded};
+use crate::{
+    prelude::*,
+    units::{p_space_or_comment, p_space_or_comment_surrounded},
+};
 
 /// IfcMonetaryUnit is a unit to define currency for money.
 ///
@@ -25,7 +28,7 @@ impl IFCParse for MonetaryUnit {
 
                 currency: StringPrimitive::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
diff --git a/ifc_rs/src/units/si_unit.rs b/ifc_rs/src/units/si_unit.rs
index dc0d7bc..6ecdaed 100644
--- a/ifc_rs/src/units/si_unit.rs
+++ b/ifc_rs/src/units/si_unit.rs
@@ -8,7 +8,7 @@ use super::{
 };
 use crate::{
     prelude::*,
-    units::{comma::Comma, p_space_or_comment_surrounded},
+    units::{comma::Comma, p_space_or_comment, p_space_or_comment_surrounded},
 };
 
 /// The IfcSIUnit covers both standard base SI units such as meter and second,
@@ -68,7 +68,7 @@ impl IFCParse for SiUnit {
                 _: Comma::parse(),
                 name: IfcUnitName::parse(),
 
-                _: p_space_or_comment_surrounded(");"),
+                _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";")),
             }
         }
     }
-- 
2.43.0


From 35c3fbc99badebdd6195932eaa24f3c3905e7bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 12/16] fix: do not take a text with a first character beyond 3
 for a global id

---
 ifc_rs/src/id/ifc_uuid.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ifc_rs/src/id/ifc_uuid.rs b/ifc_rs/src/id/ifc_uuid.rs
index 8bbc6ef..4ca9038 100644
--- a/ifc_rs/src/id/ifc_uuid.rs
+++ b/ifc_rs/src/id/ifc_uuid.rs
@@ -80,6 +80,8 @@ impl IFCParse for IfcGloballyUniqueId {
         winnow::combinator::delimited(
             "'",
             take_while(22..=22, |c: char| ALPHABET.contains(c))
+                // 22 characters hold 132 bits, so the first one may only use two of its bits
+                .verify(|x: &str| x.starts_with(['0', '1', '2', '3']))
                 .map(|x: &str| {
                     x.chars()
                         .filter_map(|c| ALPHABET.find(c))
-- 
2.43.0


From d3ba0f7bd788dba01ad0a21e5493941c5bb43508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 13/16] Verification hook: 128-bit value of a global id (cfg
 ifc_rs_verif)

---
 ifc_rs/src/id/ifc_uuid.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ifc_rs/src/id/ifc_uuid.rs b/ifc_rs/src/id/ifc_uuid.rs
index 4ca9038..3e1666a 100644
--- a/ifc_rs/src/id/ifc_uuid.rs
+++ b/ifc_rs/src/id/ifc_uuid.rs
@@ -72,6 +72,19 @@ impl IfcGloballyUniqueId {
     }
 }
 
+/// 128-bit value of an id, for the verification harness only
+#[allow(unexpected_cfgs)]
+#[cfg(ifc_rs_verif)]
+impl IfcGloballyUniqueId {
+    pub fn verif_from_u128(value: u128) -> Self {
+        Self(uuid::Uuid::from_u128(value))
+    }
+
+    pub fn verif_to_u128(&self) -> u128 {
+        self.0.as_u128()
+    }
+}
+
 impl IFCParse for IfcGloballyUniqueId {
     fn parse<'a>() -> impl IFCParser<'a, Self>
     where
-- 
2.43.0


From d542a70d8080af17ebc2fe542aafa12dda829309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:52 +0000
Subject: [PATCH 14/16] fix: true north of a representation context is a
 direction

GeometricRepresentationContext::true_north took an axis placement, so a
model that used it could be written but not loaded again.
---
 ifc_rs/src/geometry/direction/mod.rs              | 4 ++++
 ifc_rs/src/geometry/representation_context/mod.rs | 4 ++--
 ifc_rs/src/traits/sub_types.rs                    | 2 ++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ifc_rs/src/geometry/direction/mod.rs b/ifc_rs/src/geometry/direction/mod.rs
index 1aa39ed..eed986b 100644
--- a/ifc_rs/src/geometry/direction/mod.rs
+++ b/ifc_rs/src/geometry/direction/mod.rs
@@ -27,6 +27,8 @@ impl From<DVec2> for Direction2D {
 
 impl IfcType for Direction2D {}
 
+impl Direction for Direction2D {}
+
 /// The IfcDirection provides a direction in two or three dimensional space depending on the number
 /// of DirectionRatio's provided. The IfcDirection does not imply a vector length, and the
 /// direction ratios does not have to be normalized.
@@ -45,3 +47,5 @@ impl From<DVec3> for Direction3D {
 }
 
 impl IfcType for Direction3D {}
+
+impl Direction for Direction3D {}
diff --git a/ifc_rs/src/geometry/representation_context/mod.rs b/ifc_rs/src/geometry/representation_context/mod.rs
index a6b0b01..5470660 100644
--- a/ifc_rs/src/geometry/representation_context/mod.rs
+++ b/ifc_rs/src/geometry/representation_context/mod.rs
@@ -70,9 +70,9 @@ impl GeometricRepresentationContext {
         self
     }
 
-    pub fn true_north<A: AxisPlacement>(
+    pub fn true_north<D: Direction>(
         mut self,
-        direction: impl Into<IdOr<A>>,
+        direction: impl Into<IdOr<D>>,
         ifc: &mut IFC,
     ) -> Self {
         self.true_north = direction.into().or_insert(ifc).id().into();
diff --git a/ifc_rs/src/traits/sub_types.rs b/ifc_rs/src/traits/sub_types.rs
index cbdb5ef..555f214 100644
--- a/ifc_rs/src/traits/sub_types.rs
+++ b/ifc_rs/src/traits/sub_types.rs
@@ -4,6 +4,8 @@ pub trait Transform3D: IfcType {}
 
 pub trait AxisPlacement: IfcType {}
 
+pub trait Direction: IfcType {}
+
 pub trait Curve: IfcType {}
 
 pub trait CartesianPoint: IfcType {}
-- 
2.43.0


From c1fb079a8fadf43b19fe63bc3256a0ded86b48ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:02 +0000
Subject: [PATCH 15/16] fix: wall extruded along the vertical got an axis line
 of NaN coordinates

---
 ifc_rs/src/ifc_builder/walls.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ifc_rs/src/ifc_builder/walls.rs b/ifc_rs/src/ifc_builder/walls.rs
index f56067b..484fe8e 100644
--- a/ifc_rs/src/ifc_builder/walls.rs
+++ b/ifc_rs/src/ifc_builder/walls.rs
@@ -222,7 +222,12 @@ impl<'a> IfcStoreyBuilder<'a> {
     ) -> IfcWallBuilder<'a, 'b> {
         let wall_thickness = self.calculate_material_layer_set_thickness(material);
 
-        let curve_axis_dir = wall_information.direction.cross(DVec3::Z).normalize();
+        // a vertical direction is perpendicular to every horizontal one
+        let curve_axis_dir = wall_information
+            .direction
+            .cross(DVec3::Z)
+            .try_normalize()
+            .unwrap_or(DVec3::X);
         let curve_axis_representation = ShapeRepresentation::new(
             self.sub_context,
             RepresentationIdentifier::Axis,
-- 
2.43.0


From c9c14249b5126d4cd8d0156c1a76dfb61202cb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:02 +0000
Subject: [PATCH 16/16] fix: transform of an object by id turned its axis
 representation into a body

---
 ifc_rs/src/ifc_builder/transforms.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ifc_rs/src/ifc_builder/transforms.rs b/ifc_rs/src/ifc_builder/transforms.rs
index d79639b..82ebb9d 100644
--- a/ifc_rs/src/ifc_builder/transforms.rs
+++ b/ifc_rs/src/ifc_builder/transforms.rs
@@ -173,9 +173,19 @@ impl<'a> IfcStoreyBuilder<'a> {
                         shape_repr,
                         &mut self.project.ifc,
                     );
+                    let shape_repr_identifier = self
+                        .project
+                        .ifc
+                        .data
+                        .get(shape_repr)
+                        .representation_identifier
+                        .custom()
+                        .copied()
+                        .unwrap_or(RepresentationIdentifier::Body);
+
                     let r = ShapeRepresentation::new(
                         self.sub_context,
-                        RepresentationIdentifier::Body,
+                        shape_repr_identifier,
                         RepresentationType::MappedRepresentation,
                         &mut self.project.ifc,
                     )
-- 
2.43.0

