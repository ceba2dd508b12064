From 346c07a3a605f2d563fa99acc60c328295d04383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:41 +0000
Subject: [PATCH 1/2] fix: make Evaluator::default() a usable evaluator instead
 of one with empty tables

---
 src/evaluate/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/evaluate/mod.rs b/src/evaluate/mod.rs
index cffc1bd..ba7027e 100644
--- a/src/evaluate/mod.rs
+++ b/src/evaluate/mod.rs
@@ -73,9 +73,13 @@ use crate::{card::Card, error::EvalError, evaluate::lookup_table::LookupTable};
 ///     "Full house, jacks over fours"
 /// );
 /// ```
-#[derive(Clone, Debug, PartialEq, Eq, Default)]
+#[derive(Clone, Debug, PartialEq, Eq)]
 pub struct Evaluator(LookupTable);
 
+impl Default for Evaluator {
+    fn default() -> Self { Self::new() }
+}
+
 impl Evaluator {
     /// Create a new [`Evaluator`]. Try to call this method only once and share
     /// the instance as much as possible.
-- 
2.43.0


From ce7425cf7d2cb621a905639b97e2f109551cb906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:41 +0000
Subject: [PATCH 2/2] fix: report the invalid card text's length in characters,
 not bytes

---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 4d8f05c..de5e236 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -104,7 +104,7 @@ impl fmt::Display for ParseCardError {
                 f,
                 "Error parsing input '{}' as a Card: Found input of length {}, expected 2",
                 original_input,
-                original_input.len()
+                original_input.chars().count()
             ),
             Self::InvalidRank {
                 ref original_input,
-- 
2.43.0

