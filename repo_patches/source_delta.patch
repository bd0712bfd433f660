From 707e2dbb7f313054bef9617446826f3a26a3eb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:07 +0000
Subject: [PATCH 1/4] fix: report failure of rustfmt instead of exiting
 successfully

The exit status of the formatter was ignored, so a rustfmt that failed or was
killed (possibly after truncating the output file) still gave exit status 0.
---
 make_pluralrules/src/main.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/make_pluralrules/src/main.rs b/make_pluralrules/src/main.rs
index f8641a1..219de8c 100644
--- a/make_pluralrules/src/main.rs
+++ b/make_pluralrules/src/main.rs
@@ -3,7 +3,7 @@ use make_pluralrules::generate_rs;
 use std::process::Command;
 
 use std::fs;
-use std::io::Write;
+use std::io::{self, Write};
 
 fn main() -> std::io::Result<()> {
     let matches = App::new("CLDR Plural Rules Rust Generator")
@@ -29,10 +29,20 @@ fn main() -> std::io::Result<()> {
     file.write_all(complete_rs_code.as_bytes())?;
 
     if !matches.is_present("ugly") {
-        Command::new("rustfmt")
+        let output = Command::new("rustfmt")
             .args(&[output_path])
             .output()
             .expect("Failed to format the output using `rustfmt`");
+        if !output.status.success() {
+            return Err(io::Error::new(
+                io::ErrorKind::Other,
+                format!(
+                    "`rustfmt` failed ({}): {}",
+                    output.status,
+                    String::from_utf8_lossy(&output.stderr)
+                ),
+            ));
+        }
     }
 
     Ok(())
-- 
2.43.0


From 7040928dec54f0ecb2425ee1e92cda63f5c6edfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:37 +0000
Subject: [PATCH 2/4] fix: reject plural rules that are only partly understood

---
 make_pluralrules/src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/make_pluralrules/src/lib.rs b/make_pluralrules/src/lib.rs
index d233385..682d4ff 100644
--- a/make_pluralrules/src/lib.rs
+++ b/make_pluralrules/src/lib.rs
@@ -88,9 +88,12 @@ fn gen_type_rs(rules: BTreeMap<String, BTreeMap<String, String>>) -> Vec<TokenSt
             // cat_name is the simplified category name from the CLDR source file
             let cat_name = rule_name.split('-').collect::<Vec<_>>()[2];
 
-            // representation is the
-            let representation = cldr_pluralrules_parser::parse_plural_condition(rule_line)
-                .expect("Parsing of a condition succeeded");
+            // representation is the syntax tree of the condition. All of the text before the samples has to be
+            // understood: a part that was left out would silently change the meaning of the rule.
+            let condition = rule_line.split('@').next().unwrap_or("").trim_end();
+            let representation = cldr_pluralrules_parser::parse_plural_rule(condition)
+                .expect("Parsing of a condition succeeded")
+                .condition;
 
             let cat = if cat_name == "zero" {
                 PluralCategory::ZERO
-- 
2.43.0


From f6772fad2cc7ed2a6c0493f6d939caa95b690a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:37 +0000
Subject: [PATCH 3/4] fix: reject relations with nothing to compare with

---
 make_pluralrules/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/make_pluralrules/src/lib.rs b/make_pluralrules/src/lib.rs
index 682d4ff..c8b2612 100644
--- a/make_pluralrules/src/lib.rs
+++ b/make_pluralrules/src/lib.rs
@@ -94,6 +94,10 @@ fn gen_type_rs(rules: BTreeMap<String, BTreeMap<String, String>>) -> Vec<TokenSt
             let representation = cldr_pluralrules_parser::parse_plural_rule(condition)
                 .expect("Parsing of a condition succeeded")
                 .condition;
+            let mut relations = representation.0.iter().flat_map(|and| and.0.iter());
+            if relations.any(|relation| relation.range_list.0.is_empty()) {
+                panic!("Nothing to compare with in {}", condition);
+            }
 
             let cat = if cat_name == "zero" {
                 PluralCategory::ZERO
-- 
2.43.0


From ada0c5e2c07c143e0e2e21ff8bd69e803530d618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:37 +0000
Subject: [PATCH 4/4] fix: reject unknown plural categories instead of dropping
 their rules

---
 make_pluralrules/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/make_pluralrules/src/lib.rs b/make_pluralrules/src/lib.rs
index c8b2612..0d8c97c 100644
--- a/make_pluralrules/src/lib.rs
+++ b/make_pluralrules/src/lib.rs
@@ -109,8 +109,10 @@ fn gen_type_rs(rules: BTreeMap<String, BTreeMap<String, String>>) -> Vec<TokenSt
                 PluralCategory::FEW
             } else if cat_name == "many" {
                 PluralCategory::MANY
-            } else {
+            } else if cat_name == "other" {
                 PluralCategory::OTHER
+            } else {
+                panic!("Unknown plural category {}", rule_name)
             };
 
             // Only allow rules that are not `OTHER` to be added. `OTHER` can have no rules and is added outside of the loop.
-- 
2.43.0

