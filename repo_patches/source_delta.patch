From 454a286855d8ec34ff24b74f6935b4108efc8e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 1/6] fix: negating the smallest integer in a plural formula no
 longer panics

All other operators of a plural formula wrap on overflow; unary minus panicked in
builds with overflow checks (formula `-n`, count 1 << 63).
---
 src/plural/formula/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plural/formula/node.rs b/src/plural/formula/node.rs
index 8753c08..76f62e6 100644
--- a/src/plural/formula/node.rs
+++ b/src/plural/formula/node.rs
@@ -94,7 +94,7 @@ impl Node {
             Node::Num(v) => *v,
             Node::UnOp { op, rhs } => match op {
                 UnOp::Not => bool_to_num(rhs.execute(n) == 0),
-                UnOp::Neg => -rhs.execute(n),
+                UnOp::Neg => rhs.execute(n).overflowing_neg().0,
             },
             Node::BinOp { op, lhs, rhs } => {
                 let lhs = lhs.execute(n);
-- 
2.43.0


From 993f831c6d73462ba21fd51d7a41892ea6899057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 2/6] fix: stop reading plural variants at the first missing
 index

A missing `msgstr[i]` shifted all following variants down by one, so that a plural
lookup returned the text of another form. With a huge `nplurals` the loop also ran
`nplurals` times and practically never ended.
---
 src/po/message_extractor.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/po/message_extractor.rs b/src/po/message_extractor.rs
index f5dd44c..6d95de3 100644
--- a/src/po/message_extractor.rs
+++ b/src/po/message_extractor.rs
@@ -80,9 +80,10 @@ impl<'r, D: Decoder> MessageExtractor<'r, D> {
                     let count = forms.as_ref().map_or(2, |f| f.get_count());
 
                     for i in 0..count {
-                        if let Some(v) = self.parse_msg(&format!("msgstr[{}]", i))? {
-                            values.push(v);
-                        };
+                        match self.parse_msg(&format!("msgstr[{}]", i))? {
+                            Some(v) => values.push(v),
+                            None => break,
+                        }
                     }
 
                     return Ok(if values.is_empty() {
-- 
2.43.0


From e04aac6c411b6d8d88d70e45c1e02c668ffecba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 3/6] fix: a translator comment is never read as a string or
 keyword line

`# "text"` was taken for a continuation of the preceding string and `# msgid "x"`
for an entry; only `#~`, `#|` and `#~|` introduce such lines.
---
 src/po/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/po/parser.rs b/src/po/parser.rs
index ad566c7..c1f97bc 100644
--- a/src/po/parser.rs
+++ b/src/po/parser.rs
@@ -22,7 +22,7 @@ impl PoParser {
             map_re: Regex::new(r"(\S+?)\s*=\s*(.*?)\s*;").unwrap(),
             map_check_re: Regex::new(r"^\s*(\S+?\s*=\s*.*?\s*;\s*)*$").unwrap(),
             message_re: Regex::new(
-                r#"^\s*(?:#(~?\|?))?\s*(msgctxt|msgid|msgid_plural|msgstr(?:\[(?:0|[1-9]\d*)\])?)?\s*"(.*)"\s*$"#,
+                r#"^\s*(?:#(~\|?|\|))?\s*(msgctxt|msgid|msgid_plural|msgstr(?:\[(?:0|[1-9]\d*)\])?)?\s*"(.*)"\s*$"#,
             )
             .unwrap(),
             comment_re: Regex::new(r#"^\s*#(.)?\s*(.*)$"#).unwrap(),
-- 
2.43.0


From 5703797ff202e8c3b6d12e37ae80d39439dd9b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 4/6] fix: an escaped quote does not close a string

A line cut right behind an escaped quote was accepted as a complete string that ends
with a backslash; it is unterminated.
---
 src/po/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/po/parser.rs b/src/po/parser.rs
index c1f97bc..76215b6 100644
--- a/src/po/parser.rs
+++ b/src/po/parser.rs
@@ -22,7 +22,7 @@ impl PoParser {
             map_re: Regex::new(r"(\S+?)\s*=\s*(.*?)\s*;").unwrap(),
             map_check_re: Regex::new(r"^\s*(\S+?\s*=\s*.*?\s*;\s*)*$").unwrap(),
             message_re: Regex::new(
-                r#"^\s*(?:#(~\|?|\|))?\s*(msgctxt|msgid|msgid_plural|msgstr(?:\[(?:0|[1-9]\d*)\])?)?\s*"(.*)"\s*$"#,
+                r#"^\s*(?:#(~\|?|\|))?\s*(msgctxt|msgid|msgid_plural|msgstr(?:\[(?:0|[1-9]\d*)\])?)?\s*"((?:[^\\]|\\.)*)"\s*$"#,
             )
             .unwrap(),
             comment_re: Regex::new(r#"^\s*#(.)?\s*(.*)$"#).unwrap(),
-- 
2.43.0


From 5078f5adeb93a8e066b2355725802e6898b007c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 5/6] fix: reject plural formulas that are too long to be
 evaluated recursively

A header with a very deep formula overflowed the stack and aborted the process.
---
 src/plural/formula/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/plural/formula/mod.rs b/src/plural/formula/mod.rs
index 0564cc3..db13ece 100644
--- a/src/plural/formula/mod.rs
+++ b/src/plural/formula/mod.rs
@@ -5,6 +5,11 @@ use lalrpop_util::{lalrpop_mod, ParseError};
 
 lalrpop_mod!(formula, "/plural/formula/formula.rs");
 
+/// Longest accepted formula, in bytes.
+///
+/// The expression tree is walked recursively, and its depth is bounded by the length of its source.
+const MAX_SOURCE_LEN: usize = 4096;
+
 #[derive(Clone, Debug, PartialEq, Eq)]
 pub(super) struct Formula {
     expr: node::Node,
@@ -18,6 +23,14 @@ impl Formula {
             return Ok(Formula { expr: node::Node::Var });
         }
 
+        if input.len() > MAX_SOURCE_LEN {
+            return Err(Error::PluralForms(format!(
+                "The formula is too long ({} bytes, at most {} are accepted)",
+                input.len(),
+                MAX_SOURCE_LEN,
+            )));
+        }
+
         let parser = formula::FormulaParser::new();
         let res: Result<node::Node, ParseError<_, _, _>> = parser.parse(input);
 
-- 
2.43.0


From 41c1c0f4722aaa41a37e83a245356078ce4d5ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 6/6] fix: give plural formulas the operator precedence of C

`!n % 10` was read as `!(n % 10)`, `a == b < c` as `(a == b) < c`, and `!!n` was
rejected, so such rules selected the wrong variant.
---
 src/plural/formula/formula.lalrpop | 32 ++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/plural/formula/formula.lalrpop b/src/plural/formula/formula.lalrpop
index cdd62da..24e44ce 100644
--- a/src/plural/formula/formula.lalrpop
+++ b/src/plural/formula/formula.lalrpop
@@ -26,17 +26,20 @@ And: Node = {
 };
 
 Logical: Node = {
-    <l:Logical> "==" <r:Not> => Node::new_binop(BinOp::Eq, l, r),
-    <l:Logical> "!=" <r:Not> => Node::new_binop(BinOp::Ne, l, r),
-    <l:Logical> "<" <r:Not> => Node::new_binop(BinOp::Lt, l, r),
-    <l:Logical> "<=" <r:Not> => Node::new_binop(BinOp::Lte, l, r),
-    <l:Logical> ">" <r:Not> => Node::new_binop(BinOp::Gt, l, r),
-    <l:Logical> ">=" <r:Not> => Node::new_binop(BinOp::Gte, l, r),
+    <l:Logical> "==" <r:Relation> => Node::new_binop(BinOp::Eq, l, r),
+    <l:Logical> "!=" <r:Relation> => Node::new_binop(BinOp::Ne, l, r),
+    Relation,
+};
+
+Relation: Node = {
+    <l:Relation> "<" <r:Not> => Node::new_binop(BinOp::Lt, l, r),
+    <l:Relation> "<=" <r:Not> => Node::new_binop(BinOp::Lte, l, r),
+    <l:Relation> ">" <r:Not> => Node::new_binop(BinOp::Gt, l, r),
+    <l:Relation> ">=" <r:Not> => Node::new_binop(BinOp::Gte, l, r),
     Not,
 };
 
 Not: Node = {
-    "!" <r:Add> => Node::new_unop(UnOp::Not, r),
     "not" <r:Add> => Node::new_unop(UnOp::Not, r),
     Add,
 };
@@ -44,7 +47,20 @@ Not: Node = {
 Add: Node = {
     <l:Add> "+" <r:Mul> => Node::new_binop(BinOp::Add, l, r),
     <l:Add> "-" <r:Mul> => Node::new_binop(BinOp::Sub, l, r),
-    Mul,
+    FirstMul,
+};
+
+// The first operands of a sum and of a product may be negated by `!`, which binds tighter than `*`.
+FirstMul: Node = {
+    <l:FirstMul> "*" <r:Factor> => Node::new_binop(BinOp::Mul, l, r),
+    <l:FirstMul> "/" <r:Factor> => Node::new_binop(BinOp::Div, l, r),
+    <l:FirstMul> "%" <r:Factor> => Node::new_binop(BinOp::Mod, l, r),
+    FirstFactor,
+}
+
+FirstFactor: Node = {
+    "!" <r:FirstFactor> => Node::new_unop(UnOp::Not, r),
+    Factor,
 };
 
 Mul: Node = {
-- 
2.43.0

