From dbcb31539d1084cb28243c96a6578b3a6217ed3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 01/22] fix: do not panic on a string default of a character
 type without a length

---
 src/analyzer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 95018ec..b57ec58 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -339,12 +339,12 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                 match type_name {
                   ColumnTypeName::Bit
                   | ColumnTypeName::Char
-                  if matches!(col.r#type.args[0], Value::Integer(len) if val.len() as i64 != len) => {
+                  if matches!(col.r#type.args.first(), Some(Value::Integer(len)) if val.len() as i64 != *len) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
                   ColumnTypeName::Varbit
                   | ColumnTypeName::VarChar
-                  if matches!(col.r#type.args[0], Value::Integer(cap) if val.len() as i64 > cap) => {
+                  if matches!(col.r#type.args.first(), Some(Value::Integer(cap)) if val.len() as i64 > *cap) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
                   _ => ()
-- 
2.43.0


From 9e9ee0bed634c4d86728f7a292ef4b4b62990dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 02/22] fix: measure string defaults in characters, not bytes

---
 src/analyzer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index b57ec58..70808dd 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -339,12 +339,12 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                 match type_name {
                   ColumnTypeName::Bit
                   | ColumnTypeName::Char
-                  if matches!(col.r#type.args.first(), Some(Value::Integer(len)) if val.len() as i64 != *len) => {
+                  if matches!(col.r#type.args.first(), Some(Value::Integer(len)) if val.chars().count() as i64 != *len) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
                   ColumnTypeName::Varbit
                   | ColumnTypeName::VarChar
-                  if matches!(col.r#type.args.first(), Some(Value::Integer(cap)) if val.len() as i64 > *cap) => {
+                  if matches!(col.r#type.args.first(), Some(Value::Integer(cap)) if val.chars().count() as i64 > *cap) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
                   _ => ()
-- 
2.43.0


From aee4604f33cfedb5006bedd48c320e6836ebea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 03/22] fix: accept the greatest bigint as a default; every i64
 fits

---
 src/analyzer/mod.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 70808dd..b923930 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -364,10 +364,6 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                   if (*val > i32::MAX as i64) || (*val < i32::MIN as i64) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
-                  ColumnTypeName::BigInt
-                  if val.overflowing_add(1).1 || val.overflowing_sub(1).1 => {
-                    throw_err(err.clone(), &span_range, input)?;
-                  }
                   _ => ()
                 };
               },
-- 
2.43.0


From a82bcbf0ebdb0fc46ccd8941892b9c36fbe370d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 04/22] fix: name the left type, not the left column, in a
 foreign key type mismatch

---
 src/analyzer/indexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 2ea2b2d..efad448 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -398,7 +398,7 @@ impl IndexedRef {
           r_ident: r.to_string.clone(),
           l_ident: l.to_string.clone(),
           r_type: r_type.raw.clone(),
-          l_type: l.raw.clone(),
+          l_type: l_type.raw.clone(),
         };
 
         throw_err(err, &self.span_range, input)?;
-- 
2.43.0


From 737229dbe030a9db16b3ffbda06efc2f136c9e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 05/22] fix: require a key on both sides of a many-to-many
 relation

---
 src/analyzer/indexer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index efad448..a120772 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -411,7 +411,9 @@ impl IndexedRef {
           r_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique),
         ) {
           (Relation::One2One, false, false) => Some((InvalidForeignKeyErr::One2One, &self.span_range)),
-          (Relation::Many2Many, false, false) => Some((InvalidForeignKeyErr::Many2Many, &self.span_range)),
+          (Relation::Many2Many, false, _) | (Relation::Many2Many, _, false) => {
+            Some((InvalidForeignKeyErr::Many2Many, &self.span_range))
+          }
           (Relation::One2Many, false, _) => {
             Some((InvalidForeignKeyErr::NitherUniqueKeyNorPrimaryKey, &self.lhs.span_range))
           }
-- 
2.43.0


From 2975207be2c1623a593b5e29dca6e7f45ea31499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 06/22] fix: a single-column key declared in the indexes block
 is a key for relations

---
 src/analyzer/indexer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index a120772..c076535 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -407,8 +407,10 @@ impl IndexedRef {
       if composition_len == 1 {
         let err = match (
           &self.rel,
-          l_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique),
-          r_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique),
+          l_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique)
+            || is_valid_composite(&lhs_ident.compositions, &lhs_table.indexes),
+          r_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique)
+            || is_valid_composite(&rhs_ident.compositions, &rhs_table.indexes),
         ) {
           (Relation::One2One, false, false) => Some((InvalidForeignKeyErr::One2One, &self.span_range)),
           (Relation::Many2Many, false, _) | (Relation::Many2Many, _, false) => {
-- 
2.43.0


From fc0227793170034532f890a7d35520105bd57062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 07/22] fix: an omitted schema and the default schema are the
 same in relations

---
 src/analyzer/helper.rs  | 5 +++++
 src/analyzer/indexer.rs | 4 ++--
 src/analyzer/mod.rs     | 2 +-
 src/utils/mod.rs        | 3 ++-
 4 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/analyzer/helper.rs b/src/analyzer/helper.rs
index 663fa15..a015639 100644
--- a/src/analyzer/helper.rs
+++ b/src/analyzer/helper.rs
@@ -34,6 +34,11 @@ pub(super) fn check_prop_duplicate_keys(attrs: &Vec<Property>, input: &str) -> A
   Ok(())
 }
 
+/// Gets the schema name of an identifier, or the default one if it is not specified.
+pub(crate) fn schema_name(schema: &Option<Ident>) -> &str {
+  schema.as_ref().map_or(DEFAULT_SCHEMA, |s| s.to_string.as_str())
+}
+
 pub(super) fn eq_elements<T: Eq + Ord>(lhs: impl Iterator<Item = T>, rhs: impl Iterator<Item = T>) -> bool {
   BTreeSet::from_iter(lhs) == BTreeSet::from_iter(rhs)
 }
diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index c076535..77b3d39 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -347,7 +347,7 @@ impl IndexedRef {
       tables
         .iter()
         .find(|table| {
-          table.ident.schema.as_ref().map(|s| &s.to_string) == ref_ident.schema.as_ref().map(|s| &s.to_string)
+          schema_name(&table.ident.schema) == schema_name(&ref_ident.schema)
             && table.ident.name.to_string == ref_ident.table.to_string
         })
         .map(Ok)
@@ -472,7 +472,7 @@ impl IndexedRef {
   /// Should use after calling `validate_ref_type`.
   pub fn occupy_same_column(&self, other: &Self, indexer: &Indexer) -> bool {
     let eq_ident = |lhs: &RefIdent, rhs: &RefIdent| -> bool {
-      lhs.schema.as_ref().map(|s| &s.to_string) == rhs.schema.as_ref().map(|s| &s.to_string)
+      schema_name(&lhs.schema) == schema_name(&rhs.schema)
         && lhs.table.to_string == rhs.table.to_string
         && eq_elements(
           lhs.compositions.iter().map(|s| &s.to_string),
diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index b923930..c8a48d4 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -8,7 +8,7 @@ use crate::ast::*;
 use crate::DEFAULT_SCHEMA;
 
 mod err;
-mod helper;
+pub(crate) mod helper;
 mod indexer;
 
 use helper::*;
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 250fee3..77a26dc 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -1,3 +1,4 @@
+use crate::analyzer::helper::schema_name;
 use crate::analyzer::*;
 use crate::ast::*;
 
@@ -35,7 +36,7 @@ pub fn get_table_refs(table_ident: &TableIdent, analyzed_indexer: &AnalyzedIndex
   let mut ref_self_blocks = vec![];
 
   let eq = |table_ident: &TableIdent, ref_ident: &RefIdent| {
-    table_ident.schema.clone().map(|s| s.to_string) == ref_ident.schema.clone().map(|s| s.to_string)
+    schema_name(&table_ident.schema) == schema_name(&ref_ident.schema)
       && table_ident.name.to_string == ref_ident.table.to_string
   };
 
-- 
2.43.0


From 98336b53ce84e948c97b4e05f99c73b326aae3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 08/22] fix: an alias does not apply to a schema-qualified
 table name in a relation

---
 src/analyzer/indexer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 77b3d39..babd8bb 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -272,7 +272,12 @@ impl Indexer {
   }
 
   /// Gets a new ref block if it is pointing to an alias.
+  /// An alias stands for a whole table name, so a schema-qualified identifier is never one.
   pub fn resolve_ref_alias(&self, ident: &RefIdent) -> RefIdent {
+    if ident.schema.is_some() {
+      return ident.clone();
+    }
+
     match self.resolve_alias(&ident.table.to_string) {
       Some((schema, table)) => {
         RefIdent {
-- 
2.43.0


From a06d6969e508d8614cbe9b6e8619dfe83483853f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 09/22] fix: the left side of an inline relation is its own
 table, even if another table has its name as alias

---
 src/analyzer/indexer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index babd8bb..8a2e69c 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -320,7 +320,14 @@ impl IndexedRef {
 
         let lhs = RefIdent {
           span_range: span_range.clone(),
-          schema: table_ident.schema.clone(),
+          // always qualified, so that it cannot be taken for the alias of another table
+          schema: table_ident.schema.clone().or_else(|| {
+            Some(Ident {
+              span_range: table_ident.span_range.clone(),
+              raw: DEFAULT_SCHEMA.to_string(),
+              to_string: DEFAULT_SCHEMA.to_string(),
+            })
+          }),
           table: table_ident.name.clone(),
           compositions: vec![col_name.clone()],
         };
-- 
2.43.0


From 86fa2faba32a535ee200776e547bc2b9ad96dbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 10/22] fix: a schema-qualified table group item must name a
 declared table

---
 src/analyzer/indexer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 8a2e69c..27d7cac 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -153,7 +153,13 @@ impl Indexer {
       let mut indexed_items = BTreeSet::new();
       for group_item in &table_group.items {
         let ident = match &group_item.schema {
-          Some(item_schema) => (item_schema.to_string.clone(), group_item.ident_alias.to_string.clone()),
+          Some(item_schema) => {
+            if !self.contains_table(&item_schema.to_string, &group_item.ident_alias.to_string) {
+              throw_err(Err::TableNotFound, &group_item.span_range, input)?;
+            }
+
+            (item_schema.to_string.clone(), group_item.ident_alias.to_string.clone())
+          }
           None => {
             match self.resolve_alias(&group_item.ident_alias.to_string) {
               Some(ident) => ident.clone(),
-- 
2.43.0


From 6378cccd21c18e5ece82216f4c8f9c3dddfaeaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 11/22] fix: reject duplicate setting keys of a table group

---
 src/analyzer/indexer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 27d7cac..e2481f8 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -146,6 +146,10 @@ impl Indexer {
   /// - `DuplicateTableGroupItem`
   pub(super) fn index_table_groups(&mut self, table_groups: &Vec<&TableGroupBlock>, input: &str) -> AnalyzerResult<()> {
     for table_group in table_groups {
+      if let Some(settings) = &table_group.settings {
+        check_attr_duplicate_keys(&settings.attributes, input)?;
+      }
+
       if self.table_group_map.get(&table_group.ident.to_string).is_some() {
         throw_err(Err::DuplicateTableGroupName, &table_group.ident.span_range, input)?;
       }
-- 
2.43.0


From 51c89b73f1aca60ee360c0e875bd97a54ddc9d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 12/22] fix: allow a dot in the quoted schema name of an enum
 type

---
 src/analyzer/mod.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index c8a48d4..957486e 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -284,12 +284,10 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                   type_name
                 }
                 Err(_) => {
-                  let splited: Vec<_> = raw_type.split('.').collect();
-
-                  let (enum_schema, enum_name) = match splited.len() {
-                    1 => (None, raw_type),
-                    2 => (Some(splited[0].to_string()), splited[1].to_string()),
-                    _ => throw_err(Err::InvalidEnum, &col.r#type.span_range, input)?,
+                  // only a (quoted) schema name can contain a dot, the type name cannot
+                  let (enum_schema, enum_name) = match raw_type.rsplit_once('.') {
+                    Some((schema, name)) => (Some(schema.to_string()), name.to_string()),
+                    None => (None, raw_type),
                   };
 
                   match &col.settings {
-- 
2.43.0


From 6557488a5c2903648c4aff9e4434635b6b5ed435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 13/22] fix: allow null and expressions as the default of an
 enum column

---
 src/analyzer/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 957486e..a2641ab 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -299,7 +299,13 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                         .and_then(|opt_span| opt_span)
                         .unwrap_or_else(|| unreachable!("default value is missing"));
 
-                      match indexer.lookup_enum_values(&enum_schema, &enum_name, &vec![default_value.to_string()]) {
+                      // null and expressions are not names of enum values
+                      let default_values = match default_value {
+                        Value::Null | Value::Expr(_) => vec![],
+                        value => vec![value.to_string()],
+                      };
+
+                      match indexer.lookup_enum_values(&enum_schema, &enum_name, &default_values) {
                         (false, (_, _)) => throw_err(Err::SchemaNotFound, &col.r#type.span_range, input)?,
                         (true, (false, _)) => throw_err(Err::EnumNotFound, &col.r#type.span_range, input)?,
                         (true, (true, f)) if f.iter().any(|f| f == &false) => throw_err(Err::EnumValueNotFound, &default_value_span, input)?,
-- 
2.43.0


From edbd1a0bc055a979eb67df9558b937a01028f531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 14/22] fix: do not take enums of the same name in different
 schemas for the same type in relations

---
 src/analyzer/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index a2641ab..4a37bd1 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -289,6 +289,8 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                     Some((schema, name)) => (Some(schema.to_string()), name.to_string()),
                     None => (None, raw_type),
                   };
+                  // enums of different schemas are different types
+                  let full_enum_name = format!("{}.{}", enum_schema.as_deref().unwrap_or(DEFAULT_SCHEMA), enum_name);
 
                   match &col.settings {
                     Some(ColumnSettings { attributes, default: Some(default_value), .. }) => {
@@ -309,11 +311,11 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                         (false, (_, _)) => throw_err(Err::SchemaNotFound, &col.r#type.span_range, input)?,
                         (true, (false, _)) => throw_err(Err::EnumNotFound, &col.r#type.span_range, input)?,
                         (true, (true, f)) if f.iter().any(|f| f == &false) => throw_err(Err::EnumValueNotFound, &default_value_span, input)?,
-                        _ => ColumnTypeName::Enum(enum_name)
+                        _ => ColumnTypeName::Enum(full_enum_name)
                       }
                     }
                     _ => {
-                      ColumnTypeName::Enum(enum_name)
+                      ColumnTypeName::Enum(full_enum_name)
                     }
                   }
                 }
-- 
2.43.0


From c2af48183a3f8bbb93414d72ecba1c54bac60954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 15/22] fix: compare index definitions by all their columns and
 expressions, in either order of declaration

---
 src/analyzer/indexer.rs | 22 +++++++++++++++++++---
 src/analyzer/mod.rs     | 40 +++++++++++++---------------------------
 2 files changed, 32 insertions(+), 30 deletions(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index e2481f8..3b97433 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -552,13 +552,29 @@ impl From<RefBlock> for IndexedRef {
   }
 }
 
+/// A part of an index or a key: a column or an expression.
+#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone)]
+pub enum IndexKey {
+  Column(String),
+  Expr(String),
+}
+
+impl From<&IndexesColumnType> for IndexKey {
+  fn from(col: &IndexesColumnType) -> Self {
+    match col {
+      IndexesColumnType::String(ident) => Self::Column(ident.to_string.clone()),
+      IndexesColumnType::Expr(expr) => Self::Expr(expr.value.to_string()),
+    }
+  }
+}
+
 /// Represents indexed meta data during parsing.
 #[derive(Debug, PartialEq, Clone, Default)]
 pub struct TableIndexer {
   /// A list of primary column names (composition applicable).
-  pub pk_list: Vec<String>,
+  pub pk_list: Vec<IndexKey>,
   /// A list of column names with unique constraint  (composition applicable).
-  pub unique_list: Vec<BTreeSet<String>>,
+  pub unique_list: Vec<BTreeSet<IndexKey>>,
   /// A list of indexed column names (composition applicable).
-  pub indexed_list: Vec<(Vec<String>, Option<IndexesType>)>,
+  pub indexed_list: Vec<(Vec<IndexKey>, Option<IndexesType>)>,
 }
diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 4a37bd1..e8cc095 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -113,12 +113,14 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
             throw_err(Err::ArrayPrimaryKey, &col.span_range, input)?;
           }
 
-          tmp_table_indexer.pk_list.push(col.name.to_string.clone())
+          tmp_table_indexer
+            .pk_list
+            .push(IndexKey::Column(col.name.to_string.clone()))
         }
         if settings.is_unique {
           tmp_table_indexer
             .unique_list
-            .push(BTreeSet::from([col.name.to_string.clone()]))
+            .push(BTreeSet::from([IndexKey::Column(col.name.to_string.clone())]))
         }
 
         let filtered: BTreeSet<_> = settings
@@ -150,18 +152,8 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
           throw_err(Err::EmptyIndexesBlock, &indexes_block.span_range, input)?;
         }
 
-        let idents: Vec<_> = def
-          .cols
-          .iter()
-          .filter_map(|id| {
-            match id {
-              IndexesColumnType::String(s) => Some(s),
-              _ => None,
-            }
-          })
-          .cloned()
-          .collect();
-        let ident_strings: Vec<_> = idents.iter().map(|s| s.to_string.clone()).collect();
+        let keys: Vec<_> = def.cols.iter().map(IndexKey::from).collect();
+        let key_set: BTreeSet<_> = keys.iter().cloned().collect();
 
         for ident in &def.cols {
           if let IndexesColumnType::String(col_name) = ident {
@@ -189,45 +181,39 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                 throw_err(Err::DuplicatePrimaryKey, &def.span_range, input)?;
               }
 
-              tmp_table_indexer.pk_list.extend(ident_strings.clone())
+              tmp_table_indexer.pk_list.extend(keys.clone())
             } else if settings.is_unique {
-              if tmp_table_indexer
-                .unique_list
-                .iter()
-                .any(|uniq_item| idents.iter().all(|id| uniq_item.contains(&id.to_string)))
-              {
+              if tmp_table_indexer.unique_list.contains(&key_set) {
                 throw_err(Err::DuplicateUniqueKey, &def.span_range, input)?;
               }
 
-              tmp_table_indexer
-                .unique_list
-                .push(ident_strings.clone().into_iter().collect())
+              tmp_table_indexer.unique_list.push(key_set)
             }
 
             if settings.r#type.is_some() {
               if tmp_table_indexer
                 .indexed_list
                 .iter()
-                .any(|(idx_item, idx_type)| idx_item == &ident_strings && idx_type == &settings.r#type)
+                .any(|(idx_item, idx_type)| idx_item == &keys && idx_type == &settings.r#type)
               {
                 throw_err(Err::DuplicateIndexKey, &def.span_range, input)?;
               }
 
               tmp_table_indexer
                 .indexed_list
-                .push((ident_strings, settings.r#type.clone()));
+                .push((keys, settings.r#type.clone()));
             }
           }
           None => {
             if tmp_table_indexer
               .indexed_list
               .iter()
-              .any(|(idx_item, _)| idx_item == &ident_strings)
+              .any(|(idx_item, idx_type)| idx_item == &keys && idx_type.is_none())
             {
               throw_err(Err::DuplicateIndexKey, &def.span_range, input)?;
             }
 
-            tmp_table_indexer.indexed_list.push((ident_strings, None))
+            tmp_table_indexer.indexed_list.push((keys, None))
           }
         };
       }
-- 
2.43.0


From 6ad12c20b066b9ee867629904e0663eee88b7f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 16/22] fix: keep comment markers that begin a quoted string or
 identifier

---
 src/dbml.pest | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dbml.pest b/src/dbml.pest
index bd013ed..1006494 100644
--- a/src/dbml.pest
+++ b/src/dbml.pest
@@ -5,15 +5,15 @@ COMMENT = _{ single_line_comment | multi_line_comment }
 single_line_comment = { "//" ~ (!NEWLINE ~ ANY)* }
 multi_line_comment = { "/*" ~ (!"*/" ~ ANY)* ~ "*/" }
 
-// literals
+// literals (compound-atomic, so that comment markers inside the quotes are text)
 double_quoted_value = @{ (!"\"" ~ ANY)* }
-double_quoted_string = { "\"" ~ double_quoted_value ~ "\"" }
+double_quoted_string = ${ "\"" ~ WHITESPACE* ~ double_quoted_value ~ "\"" }
 single_quoted_value = @{ (!"'" ~ ANY)* }
-single_quoted_string = { "'" ~ single_quoted_value ~ "'"}
+single_quoted_string = ${ "'" ~ WHITESPACE* ~ single_quoted_value ~ "'" }
 backquoted_quoted_value = @{ (!"`" ~ ANY)* }
-backquoted_quoted_string = { "`" ~ backquoted_quoted_value ~ "`" }
+backquoted_quoted_string = ${ "`" ~ WHITESPACE* ~ backquoted_quoted_value ~ "`" }
 triple_quoted_value = @{ (!"'''" ~ ANY)* }
-triple_quoted_string = { "'''" ~ triple_quoted_value ~ "'''" }
+triple_quoted_string = ${ "'''" ~ WHITESPACE* ~ triple_quoted_value ~ "'''" }
 
 var = @{ ASCII_ALPHA ~ (ASCII_ALPHANUMERIC | "_")* }
 spaced_var = @{ ASCII_ALPHA ~ (" "? ~ (ASCII_ALPHANUMERIC | "_"))* }
-- 
2.43.0


From ed2557333d1266aa1c4bb2e1656404c7c1d34fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 17/22] fix: accept bare words that begin with true, false or
 null

---
 src/dbml.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbml.pest b/src/dbml.pest
index 1006494..c7523d7 100644
--- a/src/dbml.pest
+++ b/src/dbml.pest
@@ -30,7 +30,7 @@ string_value = { triple_quoted_string | single_quoted_string }
 integer = @{ ASCII_DIGIT+ }
 decimal = @{ ASCII_DIGIT+ ~ "." ~ ASCII_DIGIT* }
 number_value = { decimal | integer }
-boolean_value = @{ "true" | "false" | "null" }
+boolean_value = @{ ("true" | "false" | "null") ~ !(ASCII_ALPHANUMERIC | "_") }
 hex_value = @{ "#" ~ (ASCII_HEX_DIGIT{3}){1,2} }
 value = { string_value | backquoted_quoted_string | boolean_value | number_value | hex_value }
 
-- 
2.43.0


From e694ab9d40e238fb48631ce6af4c261a19fe4e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 18/22] fix: allow whitespace inside the parentheses and
 brackets of a column type

---
 src/dbml.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dbml.pest b/src/dbml.pest
index c7523d7..14df4db 100644
--- a/src/dbml.pest
+++ b/src/dbml.pest
@@ -71,8 +71,8 @@ enum_decl = { ^"Enum " ~ decl_ident ~ enum_block }
 // table block
 col_attribute = { ref_inline | attribute }
 col_settings = { "[" ~ (col_attribute ~ ("," ~ col_attribute)*)? ~ "]" }
-col_type_arg = { "(" ~ (value ~ ("," ~ value)*)? ~ ")" }
-col_type_array = { "[" ~ integer? ~ "]" }
+col_type_arg = !{ "(" ~ (value ~ ("," ~ value)*)? ~ ")" }
+col_type_array = !{ "[" ~ integer? ~ "]" }
 col_type_unquoted = ${ var ~ col_type_arg? ~ col_type_array* }
 col_type_quoted = ${ "\"" ~ spaced_var ~ col_type_arg? ~ col_type_array* ~ "\"" ~ col_type_array* }
 col_type = ${ (ident ~ ".")? ~ (col_type_quoted | col_type_unquoted ) }
-- 
2.43.0


From f9af0fadb7ef7503362a08a1ec0b87d097349da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 19/22] fix: allow any whitespace after a block keyword, not
 only a space

---
 src/dbml.pest | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/dbml.pest b/src/dbml.pest
index 14df4db..3265f33 100644
--- a/src/dbml.pest
+++ b/src/dbml.pest
@@ -34,6 +34,13 @@ boolean_value = @{ ("true" | "false" | "null") ~ !(ASCII_ALPHANUMERIC | "_") }
 hex_value = @{ "#" ~ (ASCII_HEX_DIGIT{3}){1,2} }
 value = { string_value | backquoted_quoted_string | boolean_value | number_value | hex_value }
 
+// keywords that must be followed by whitespace (written out, as implicit whitespace would be skipped before it)
+project_kw = _{ ^"Project " | ^"Project\t" | ^"Project\n" | ^"Project\r" }
+table_kw = _{ ^"Table " | ^"Table\t" | ^"Table\n" | ^"Table\r" }
+table_group_kw = _{ ^"TableGroup " | ^"TableGroup\t" | ^"TableGroup\n" | ^"TableGroup\r" }
+enum_kw = _{ ^"Enum " | ^"Enum\t" | ^"Enum\n" | ^"Enum\r" }
+as_kw = _{ ^"as " | ^"as\t" | ^"as\n" | ^"as\r" }
+
 // top-level ident
 decl_ident = { ident ~ ("." ~ ident)? }
 
@@ -66,7 +73,7 @@ indexes_decl = { ^"Indexes" ~ indexes_block }
 enum_settings = { "[" ~ (attribute ~ ("," ~ attribute)*)? ~ "]" }
 enum_value = { ident ~ enum_settings? }
 enum_block = { "{" ~ enum_value* ~ "}" }
-enum_decl = { ^"Enum " ~ decl_ident ~ enum_block }
+enum_decl = { enum_kw ~ decl_ident ~ enum_block }
 
 // table block
 col_attribute = { ref_inline | attribute }
@@ -78,15 +85,15 @@ col_type_quoted = ${ "\"" ~ spaced_var ~ col_type_arg? ~ col_type_array* ~ "\""
 col_type = ${ (ident ~ ".")? ~ (col_type_quoted | col_type_unquoted ) }
 table_col = { ident ~ col_type ~ col_settings? }
 table_block = { "{" ~ (table_col | note_decl | indexes_decl)* ~ "}" }
-table_alias = { ^"as " ~ ident }
-table_decl = { ^"Table " ~ decl_ident ~ table_alias? ~ block_settings?  ~ table_block }
+table_alias = { as_kw ~ ident }
+table_decl = { table_kw ~ decl_ident ~ table_alias? ~ block_settings?  ~ table_block }
 
 // table group block
 table_group_block = { "{" ~ (note_decl | decl_ident)* ~ "}" }
-table_group_decl = { ^"TableGroup " ~ ident ~ block_settings? ~ table_group_block }
+table_group_decl = { table_group_kw ~ ident ~ block_settings? ~ table_group_block }
 
 // project block
 project_block = { "{" ~ (note_decl | property)* ~ "}" }
-project_decl = { ^"Project " ~ ident ~ project_block }
+project_decl = { project_kw ~ ident ~ project_block }
 
 schema = { SOI ~ (project_decl | table_decl | enum_decl | ref_decl | table_group_decl | note_decl)* ~ EOI }
-- 
2.43.0


From 7c6eaed81aac93d2efcfbe861344609ea3dba38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 20/22] verif: export the analysis under cfg(dbml_verif)

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index aa5fb07..72b07c1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,6 +1,7 @@
 #![forbid(unsafe_code)]
 #![forbid(clippy::all)]
 #![no_std]
+#![allow(unexpected_cfgs)]
 
 use ast::SchemaBlock;
 use pest::error::Error as ParseError;
@@ -21,6 +22,13 @@ pub(crate) mod utils;
 #[cfg(feature = "utils")]
 pub mod utils;
 
+/// The analysis entry point and its result, for verification builds (`--cfg dbml_verif`) only.
+#[cfg(dbml_verif)]
+#[doc(hidden)]
+pub mod verif {
+  pub use crate::analyzer::*;
+}
+
 use analyzer::*;
 pub use parser::parse as parse_dbml_unchecked;
 
-- 
2.43.0


From 23dff8a6e3bdff3c7488dae051bd3e1a27812da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 21/22] fix: a symmetric relation of a column with itself does
 not conflict with one to another column

---
 src/analyzer/indexer.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 3b97433..50c3711 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -504,14 +504,15 @@ impl IndexedRef {
 
     match (&self.rel, &other.rel) {
       (Relation::Many2Many, Relation::Many2Many) | (Relation::One2One, Relation::One2One) => {
-        [&self.lhs, &self.rhs].iter().all(|self_side| {
-          [&other.lhs, &other.rhs].iter().any(|other_side| {
-            let self_ident = indexer.resolve_ref_alias(self_side);
-            let other_ident = indexer.resolve_ref_alias(other_side);
+        let eq_side = |self_side: &RefIdent, other_side: &RefIdent| {
+          let self_ident = indexer.resolve_ref_alias(self_side);
+          let other_ident = indexer.resolve_ref_alias(other_side);
 
-            eq_ident(&self_ident, &other_ident)
-          })
-        })
+          eq_ident(&self_ident, &other_ident)
+        };
+
+        (eq_side(&self.lhs, &other.lhs) && eq_side(&self.rhs, &other.rhs))
+          || (eq_side(&self.lhs, &other.rhs) && eq_side(&self.rhs, &other.lhs))
       }
       _ => {
         // TODO: add support for one-to-one relation validation
-- 
2.43.0


From 4a9fee1451c3f5d1a6fdfeef77564a2c580eae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:26 +0000
Subject: [PATCH 22/22] fix: do not count an expression of an index as a
 repeated column of a composite endpoint

---
 src/analyzer/indexer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 50c3711..3aa77f2 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -391,8 +391,9 @@ impl IndexedRef {
             compositions.len() == def_item.cols.len()
               && def_item.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique)
               && eq_elements(
-                compositions.iter().map(|s| &s.to_string),
-                def_item.cols.iter().filter_map(|s| {
+                compositions.iter().map(|s| Some(&s.to_string)),
+                // an expression is none of the columns
+                def_item.cols.iter().map(|s| {
                   match s {
                     IndexesColumnType::String(s) => Some(&s.to_string),
                     _ => None,
-- 
2.43.0

