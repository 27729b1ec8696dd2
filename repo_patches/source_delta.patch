From 8e452a8bbff0fc6aa1d37e56e7db7b42a1fa692b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:57 +0000
Subject: [PATCH 1/3] fix: report the number of characters, not bytes, in
 ParseCardError::InvalidLength
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The card parser counts characters, and the message compares the count with the
expected two, but the message gave the byte length: "é" was rejected with
"Found input of length 2, expected 2".
---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 4d8f05c..de5e236 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -104,7 +104,7 @@ impl fmt::Display for ParseCardError {
                 f,
                 "Error parsing input '{}' as a Card: Found input of length {}, expected 2",
                 original_input,
-                original_input.len()
+                original_input.chars().count()
             ),
             Self::InvalidRank {
                 ref original_input,
-- 
2.43.0


From c25c394418900953dd2b0941821829e1e49b6a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:04 +0000
Subject: [PATCH 2/3] fix: make Evaluator::default() a working evaluator

The derived Default left both lookup tables empty, so evaluating any valid hand
with Evaluator::default() panicked.
---
 src/evaluate/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/evaluate/mod.rs b/src/evaluate/mod.rs
index cffc1bd..ba7027e 100644
--- a/src/evaluate/mod.rs
+++ b/src/evaluate/mod.rs
@@ -73,9 +73,13 @@ use crate::{card::Card, error::EvalError, evaluate::lookup_table::LookupTable};
 ///     "Full house, jacks over fours"
 /// );
 /// ```
-#[derive(Clone, Debug, PartialEq, Eq, Default)]
+#[derive(Clone, Debug, PartialEq, Eq)]
 pub struct Evaluator(LookupTable);
 
+impl Default for Evaluator {
+    fn default() -> Self { Self::new() }
+}
+
 impl Evaluator {
     /// Create a new [`Evaluator`]. Try to call this method only once and share
     /// the instance as much as possible.
-- 
2.43.0


From 01f1d85de679046f0133737ada0c284c792ee6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:10 +0000
Subject: [PATCH 3/3] fix: render EvalError::CardsNotUnique the same way every
 time

The duplicated cards were collected through a hash map with random keys, so with
two or more duplicated cards the same error value printed them in an order that
changed from call to call. List them in the order in which they first repeat.
---
 src/error.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index de5e236..c149db1 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -190,16 +190,8 @@ impl fmt::Display for EvalError {
             Self::CardsNotUnique(ref cards) => {
                 let dups: String = cards
                     .iter()
-                    .counts()
-                    .into_iter()
-                    .filter_map(|(card, count)| {
-                        if count > 1 {
-                            Some(card.rank_suit_string())
-                        } else {
-                            None
-                        }
-                    })
-                    .collect::<Vec<_>>()
+                    .duplicates()
+                    .map(|card| card.rank_suit_string())
                     .join(" ");
                 write!(
                     f,
-- 
2.43.0

