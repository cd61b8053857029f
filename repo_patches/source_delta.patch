From f1b32907513729dc1e820c5567877cae99afea2b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:25 +0000
Subject: [PATCH 1/9] fix: load special tokens that need escaping in JSON

---
 src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 198eee8..81a576e 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -393,7 +393,7 @@ impl<'de> Visitor<'de> for TokenizerVisitor {
         A: serde::de::MapAccess<'de>,
     {
         let mut version: Option<String> = None;
-        let mut special_tokens: Vec<&str> = Vec::new();
+        let mut special_tokens: Vec<String> = Vec::new();
         let mut vocab: Vec<ScoredToken> = Vec::new();
         let mut processors: Vec<ProcessorWrapper> = Vec::new();
 
-- 
2.43.0


From b52bcf2f0e188df6686fe260a1cb5345370e448e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:25 +0000
Subject: [PATCH 2/9] fix: empty special tokens made encoding loop forever

---
 src/tokenizer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 81a576e..3b999b9 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -326,6 +326,11 @@ impl<'a> Iterator for SpecialTokenSplitter<'a> {
             let suffix = &input[i..];
 
             for special_token in self.special_tokens {
+                // An empty special token would match without making progress.
+                if special_token.is_empty() {
+                    continue;
+                }
+
                 if suffix.starts_with(special_token) {
                     if i > 0 {
                         self.cursor += i;
-- 
2.43.0


From 30a8d4fd3ec600bcf0fca478a53f00b16c2cb2de Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:25 +0000
Subject: [PATCH 3/9] fix: byte 255 was missing from generated vocabularies

---
 src/generate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generate.rs b/src/generate.rs
index 5761095..072f2e5 100644
--- a/src/generate.rs
+++ b/src/generate.rs
@@ -161,7 +161,7 @@ impl VocabularyGenerator {
             .map(|(_, freq)| *freq)
             .copied()
             .unwrap_or(1);
-        let mut vocab: Vec<ScoredToken> = (0..255_u8)
+        let mut vocab: Vec<ScoredToken> = (0..=255_u8)
             .map(|b| {
                 seen.insert(vec![b]);
                 ScoredToken::from_u8(b, highest_freq as f64, true)
-- 
2.43.0


From e84afd39de98808b7b6a4465bb8fe2c62caa5332 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:25 +0000
Subject: [PATCH 4/9] fix: filter removed tokens whose score equals the minimum

---
 src/filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter.rs b/src/filter.rs
index 2e7d487..a8548c6 100644
--- a/src/filter.rs
+++ b/src/filter.rs
@@ -33,7 +33,7 @@ impl VocabularyFilter {
         for token in vocab.iter() {
             let should_keep = num_tokens_removed >= num_tokens_to_remove
                 || (token.keep && !self.force)
-                || token.score > self.min_score.unwrap_or(f64::NEG_INFINITY);
+                || token.score >= self.min_score.unwrap_or(f64::NEG_INFINITY);
 
             if should_keep {
                 new_vocab.push(token.clone());
-- 
2.43.0


From db50c546a6c47885ee2e0bab9f648a4db88e3110 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:25 +0000
Subject: [PATCH 5/9] fix: merge looped forever when the last round found no
 allowed merge

---
 src/merge.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/merge.rs b/src/merge.rs
index 22ebcaa..9bbf7a1 100644
--- a/src/merge.rs
+++ b/src/merge.rs
@@ -83,10 +83,11 @@ impl ModelVocabularyMerger {
 
             pairs.sort_unstable_by(|a, b| b.1.cmp(&a.1));
 
-            let mut merges = std::cmp::min(
+            let max_merges = std::cmp::min(
                 self.step,
                 self.num_merges - (model.vocab_size() - start_vocab_size),
             );
+            let mut merges = max_merges;
             for ((a, b), freq) in pairs.iter().copied() {
                 if merges == 0 {
                     break;
@@ -125,7 +126,7 @@ impl ModelVocabularyMerger {
                 log::info!("Merged a={} b={} freq={} into={}", a, b, freq, token);
             }
 
-            if merges == self.step {
+            if merges == max_merges {
                 log::warn!(
                     "No more merges possible after {} merges, consider increasing the number of merges",
                     model.vocab_size() - start_vocab_size
-- 
2.43.0


From 7dd84e0fe2217ce39431a2922db22c18ee4a7b2a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:25 +0000
Subject: [PATCH 6/9] fix: prune overshot its target when the kept tokens
 already exceed it

---
 src/prune.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prune.rs b/src/prune.rs
index 4013caf..e7291fc 100644
--- a/src/prune.rs
+++ b/src/prune.rs
@@ -307,7 +307,7 @@ impl ModelVocabularyPruner {
 
         candidates.sort_unstable_by(|(_, a), (_, b)| b.partial_cmp(a).unwrap());
         for (id, _) in candidates {
-            if pruned_vocab.len() == pruned_size {
+            if pruned_vocab.len() >= pruned_size {
                 break;
             }
             pruned_vocab.push(model.vocab()[id].clone());
-- 
2.43.0


From 74507a3d98eef9f95feb1591abd23094fbb08a1b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:25 +0000
Subject: [PATCH 7/9] fix: prune looped forever when a round removes no token

---
 src/prune.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/prune.rs b/src/prune.rs
index e7291fc..0eab762 100644
--- a/src/prune.rs
+++ b/src/prune.rs
@@ -22,6 +22,8 @@ impl ModelVocabularyPruner {
 
     pub fn prune(&self, model: &mut Model, samples: &[&str]) -> Result<()> {
         while model.vocab_size() > self.vocab_size {
+            let round_vocab_size = model.vocab_size();
+
             for subiter in 0..self.em_subiters {
                 log::info!("EM subiter {}/{}", subiter + 1, self.em_subiters);
 
@@ -51,6 +53,14 @@ impl ModelVocabularyPruner {
             // Prune the vocabulary.
             let vocab = self.prune_vocab(model, samples)?;
             *model = Model::from(vocab);
+
+            if model.vocab_size() >= round_vocab_size {
+                log::warn!(
+                    "No more tokens can be pruned, stopping at vocab_size={}",
+                    model.vocab_size()
+                );
+                break;
+            }
         }
 
         Ok(())
-- 
2.43.0


From ad3e9e58352852c0e3c2130c4f408a3d77c91d4e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:25 +0000
Subject: [PATCH 8/9] fix: Viterbi returned the EOS node as part of the best
 path

---
 src/lattice.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lattice.rs b/src/lattice.rs
index 4252a66..06b8285 100644
--- a/src/lattice.rs
+++ b/src/lattice.rs
@@ -138,7 +138,10 @@ impl<'a> Lattice<'a> {
         }
 
         let mut results = Vec::with_capacity(sentence_len / 4);
-        let mut node_idx = self.begin_nodes[sentence_len][0];
+        // The EOS node is not part of the path.
+        let Some(mut node_idx) = self.nodes[self.begin_nodes[sentence_len][0]].prev else {
+            return results;
+        };
         while let Some(prev_node_idx) = self.nodes[node_idx].prev {
             let node = self.nodes[node_idx].clone();
             results.push(node.clone());
-- 
2.43.0


From db3b359777312decbe599d6768ffd908b7bb83f6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:37 +0000
Subject: [PATCH 9/9] fix: Python save() reported success when writing failed

---
 bindings/python/src/lib.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index 6c38d90..de145a9 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -148,17 +148,10 @@ impl PyTokenizer {
         self.tokenizer.special_vocab_size()
     }
 
-    fn save(&self, filename: &str) {
-        match self.tokenizer.save(filename) {
-            Ok(_) => {}
-            Err(e) => {
-                Python::with_gil(|py| {
-                    PyIOError::new_err(e.to_string()).restore(py);
-                    assert!(PyErr::occurred(py));
-                    drop(PyErr::fetch(py));
-                });
-            }
-        }
+    fn save(&self, filename: &str) -> PyResult<()> {
+        self.tokenizer
+            .save(filename)
+            .map_err(|e| PyIOError::new_err(e.to_string()))
     }
 
     fn common_prefix_search(&self, text: &str) -> Vec<TokenID> {
-- 
2.43.0

