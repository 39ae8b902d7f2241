From 5952f306752ff6e23f63cbdc876e71f5636840a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:31 +0000
Subject: [PATCH 1/9] fix: keep byte-set bits past the alphabet size clear in
 ANY_BYTE and mk_byte_set_not

---
 src/ast.rs      | 12 ++++++++----
 src/lib.rs      |  2 +-
 src/simplify.rs | 10 +---------
 src/syntax.rs   |  6 +++++-
 4 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 6706098..6db2aac 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -286,13 +286,17 @@ impl ExprSet {
 
         let id = r.exprs.insert(&[]);
         assert!(id == 0);
+
+        // bits past alphabet_size have to stay clear, they don't stand for any byte
+        let mut any_byte = vec![0u32; alphabet_words];
+        for b in 0..alphabet_size {
+            byteset_set(&mut any_byte, b);
+        }
+
         let inserts = vec![
             (r.mk(Expr::EmptyString), ExprRef::EMPTY_STRING),
             (r.mk(Expr::NoMatch), ExprRef::NO_MATCH),
-            (
-                r.mk(Expr::ByteSet(&vec![0xffffffff; alphabet_words])),
-                ExprRef::ANY_BYTE,
-            ),
+            (r.mk(Expr::ByteSet(&any_byte)), ExprRef::ANY_BYTE),
             (
                 r.mk_repeat(ExprRef::ANY_BYTE, 0, u32::MAX),
                 ExprRef::ANY_BYTE_STRING,
diff --git a/src/lib.rs b/src/lib.rs
index b4f4ae9..295bd77 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -15,7 +15,7 @@ mod syntax;
 pub use ast::{ExprRef, NextByte};
 pub use regex::{AlphabetInfo, Regex, StateID};
 
-pub use regexbuilder::{RegexAst, RegexBuilder, JsonQuoteOptions};
+pub use regexbuilder::{JsonQuoteOptions, RegexAst, RegexBuilder};
 
 pub use mapper::map_ast; // utility function
 
diff --git a/src/simplify.rs b/src/simplify.rs
index c09d1c4..befccc0 100644
--- a/src/simplify.rs
+++ b/src/simplify.rs
@@ -294,15 +294,7 @@ impl ExprSet {
     }
 
     pub fn mk_byte_set_not(&mut self, x: ExprRef) -> ExprRef {
-        match self.get(x) {
-            Expr::Byte(b) => {
-                let mut r = vec![!0u32; self.alphabet_words];
-                byteset_clear(&mut r, b as usize);
-                self.mk_byte_set(&r)
-            }
-            Expr::ByteSet(bs) => self.mk_byte_set(&bs.iter().map(|v| !*v).collect::<Vec<_>>()),
-            _ => panic!(),
-        }
+        self.mk_byte_set_or_core(&[x], true)
     }
 
     pub fn mk_byte_set_or(&mut self, args: &[ExprRef]) -> ExprRef {
diff --git a/src/syntax.rs b/src/syntax.rs
index 7778b4e..13cf288 100644
--- a/src/syntax.rs
+++ b/src/syntax.rs
@@ -82,7 +82,11 @@ impl ExprSet {
     fn handle_unicode_ranges(&mut self, u: &ClassUnicode) -> ExprRef {
         let mut root = TrieNode::new(TrieSelector::Byte(0));
 
-        let key = u.ranges().iter().map(|r| (r.start() ,r.end() )).collect::<Vec<_>>();
+        let key = u
+            .ranges()
+            .iter()
+            .map(|r| (r.start(), r.end()))
+            .collect::<Vec<_>>();
 
         if let Some(r) = self.unicode_cache.get(&key) {
             return *r;
-- 
2.43.0


From ed158de3bb32f4c744882c67c536748764a0b7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 2/9] fix: byte compression when all 256 bytes get their own
 symbol

---
 src/bytecompress.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/bytecompress.rs b/src/bytecompress.rs
index 6942b8b..24165b8 100644
--- a/src/bytecompress.rs
+++ b/src/bytecompress.rs
@@ -12,8 +12,6 @@ pub struct ByteCompressor {
     map_cache: HashMap<ExprRef, ExprRef>,
 }
 
-const INVALID_MAPPING: u8 = 0xff;
-
 impl ByteCompressor {
     pub fn new() -> Self {
         ByteCompressor {
@@ -80,7 +78,9 @@ impl ByteCompressor {
     }
 
     pub fn compress(&mut self, exprset: &ExprSet, rx_list: &[ExprRef]) -> (ExprSet, Vec<ExprRef>) {
-        self.mapping = vec![INVALID_MAPPING; exprset.alphabet_size()];
+        // tracked separately, as every u8 is a valid symbol when all 256 bytes are distinct
+        self.mapping = vec![0; exprset.alphabet_size()];
+        let mut assigned = vec![false; exprset.alphabet_size()];
 
         let mut todo = rx_list.to_vec();
         let mut visited = vec![false; exprset.len()];
@@ -93,9 +93,10 @@ impl ByteCompressor {
             match exprset.get(e) {
                 Expr::Byte(b) => {
                     assert!(
-                        self.mapping[b as usize] == INVALID_MAPPING,
+                        !assigned[b as usize],
                         "visiting the same byte the second time"
                     );
+                    assigned[b as usize] = true;
                     self.mapping[b as usize] = self.alphabet_size as u8;
                     self.alphabet_size += 1;
                 }
@@ -108,9 +109,10 @@ impl ByteCompressor {
 
         let num = self.bytesets.len();
         if num <= 64 {
-            self.compress_bytesets(|_| 0u64, |v, idx| *v |= 1 << idx);
+            self.compress_bytesets(&assigned, |_| 0u64, |v, idx| *v |= 1 << idx);
         } else {
             self.compress_bytesets(
+                &assigned,
                 |size| vec![0u32; (size + 31) / 32],
                 |v, idx| v[idx / 32] |= 1 << (idx % 32),
             );
@@ -127,12 +129,13 @@ impl ByteCompressor {
     #[inline(always)]
     fn compress_bytesets<T: Eq + Hash>(
         &mut self,
+        assigned: &[bool],
         alloc: impl Fn(usize) -> T,
         set_true: impl Fn(&mut T, usize),
     ) {
         let mut byte_mapping = HashMap::new();
         for b in 0..self.mapping.len() {
-            if self.mapping[b] == INVALID_MAPPING {
+            if !assigned[b] {
                 let mut v = alloc(self.bytesets.len());
                 for (idx, bs) in self.bytesets.iter().enumerate() {
                     if byteset_contains(bs, b) {
-- 
2.43.0


From f11efe5baac61651ff0b4073d205953fb8d0efde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:58 +0000
Subject: [PATCH 3/9] fix: prefix closure of an expression with intersection or
 complement accepts the empty string

---
 src/ast.rs      |  4 +++-
 src/simplify.rs | 29 ++++++++++++++++++-----------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 6db2aac..56dac14 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -3,7 +3,7 @@ use std::{
     ops::{BitAnd, BitOr, RangeInclusive},
 };
 
-use crate::{hashcons::VecHashCons, pp::PrettyPrinter};
+use crate::{hashcons::VecHashCons, pp::PrettyPrinter, relevance::RelevanceCache};
 use bytemuck_derive::{Pod, Zeroable};
 
 #[derive(Pod, Zeroable, Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
@@ -268,6 +268,7 @@ pub struct ExprSet {
     pp: PrettyPrinter,
     pub(crate) optimize: bool,
     pub(crate) unicode_cache: std::collections::HashMap<Vec<(char, char)>, ExprRef>,
+    pub(crate) prefixes_cache: RelevanceCache,
 }
 
 impl ExprSet {
@@ -282,6 +283,7 @@ impl ExprSet {
             pp: PrettyPrinter::new_simple(alphabet_size),
             optimize: true,
             unicode_cache: std::collections::HashMap::new(),
+            prefixes_cache: RelevanceCache::new(),
         };
 
         let id = r.exprs.insert(&[]);
diff --git a/src/simplify.rs b/src/simplify.rs
index befccc0..1c1f973 100644
--- a/src/simplify.rs
+++ b/src/simplify.rs
@@ -2,6 +2,7 @@ use crate::ast::{
     byteset_clear, byteset_contains, byteset_intersection, byteset_set, byteset_union, Expr,
     ExprFlags, ExprRef, ExprSet, ExprTag,
 };
+use crate::relevance::RelevanceCache;
 
 impl ExprSet {
     pub(crate) fn pay(&mut self, cost: usize) {
@@ -46,21 +47,27 @@ impl ExprSet {
             ExprRef::NO_MATCH
         } else if e == ExprRef::EMPTY_STRING {
             ExprRef::EMPTY_STRING
+        } else if matches!(self.get(e), Expr::Prefixes(_, _)) {
+            e
+        } else if self.is_non_empty(e) {
+            // the empty string is a prefix of any string
+            self.mk(Expr::Prefixes(ExprFlags::POSITIVE_NULLABLE, e))
         } else {
-            match self.get(e) {
-                Expr::Prefixes(_, _) => e,
-                _ => self.mk(Expr::Prefixes(
-                    if self.is_positive(e) {
-                        ExprFlags::POSITIVE_NULLABLE
-                    } else {
-                        ExprFlags::ZERO
-                    },
-                    e,
-                )),
-            }
+            ExprRef::NO_MATCH
         }
     }
 
+    fn is_non_empty(&mut self, e: ExprRef) -> bool {
+        if self.is_positive(e) {
+            return true;
+        }
+        // this can recurse (via symbolic derivatives), but only for nested mk_prefixes()
+        let mut cache = std::mem::replace(&mut self.prefixes_cache, RelevanceCache::new());
+        let r = cache.is_non_empty(self, e);
+        self.prefixes_cache = cache;
+        r
+    }
+
     pub fn mk_repeat(&mut self, e: ExprRef, min: u32, max: u32) -> ExprRef {
         self.pay(2);
         if e == ExprRef::NO_MATCH {
-- 
2.43.0


From fb870d11a09df4da652ac095c0df97ce07b50ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:13 +0000
Subject: [PATCH 4/9] fix: JSON quoting of a class with all control characters
 doesn't let in quote and backslash

---
 src/regexbuilder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/regexbuilder.rs b/src/regexbuilder.rs
index 310d8e8..e22eb27 100644
--- a/src/regexbuilder.rs
+++ b/src/regexbuilder.rs
@@ -244,10 +244,10 @@ impl RegexBuilder {
             }
         }
 
-        // byteset of all possible single-char quotes
+        // byteset of all possible single-char quotes for control characters
         fn single_quote_byteset(include_nl: bool, options: &JsonQuoteOptions) -> Vec<u32> {
             let mut quoted_bs = byteset_256();
-            for c in b"\"\\bfrt" {
+            for c in b"bfrt" {
                 options.set_if_allowed(&mut quoted_bs, *c);
             }
             if include_nl {
-- 
2.43.0


From c75c41ce07dcd2d8ad1fb94c6295220a5ed589d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 5/9] fix: inserting an empty vector into a fresh VecHashCons

---
 src/hashcons.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hashcons.rs b/src/hashcons.rs
index 8a9d9bb..a1fdef5 100644
--- a/src/hashcons.rs
+++ b/src/hashcons.rs
@@ -81,6 +81,7 @@ impl VecHashCons {
     pub fn start_insert(&mut self) {
         assert!(self.curr_elt.backing_end == 0);
         self.curr_elt.backing_end = self.curr_elt.backing_start;
+        self.ensure_size();
     }
 
     #[inline(always)]
-- 
2.43.0


From d44f15a875dc07401974032429e9b7c240c447bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 6/9] fix: report an inverted repeat range as an error

---
 src/regexbuilder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/regexbuilder.rs b/src/regexbuilder.rs
index e22eb27..b921a18 100644
--- a/src/regexbuilder.rs
+++ b/src/regexbuilder.rs
@@ -483,6 +483,7 @@ impl RegexBuilder {
                     RegexAst::Literal(s) => self.exprset.mk_literal(s),
                     RegexAst::ByteLiteral(s) => self.exprset.mk_byte_literal(s),
                     RegexAst::Repeat(_, min, max) => {
+                        ensure!(min <= max, "invalid repeat range");
                         self.exprset.mk_repeat(new_args[0], *min, *max)
                     }
                     RegexAst::Prefixes(_) => self.exprset.mk_prefixes(new_args[0]),
-- 
2.43.0


From 85b096bee882e2dd75ad098ab645e77a655f0b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:25 +0000
Subject: [PATCH 7/9] fix: printing byte sets of an ExprSet with a small
 alphabet

---
 src/pp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pp.rs b/src/pp.rs
index f9fe918..79de09b 100644
--- a/src/pp.rs
+++ b/src/pp.rs
@@ -276,8 +276,10 @@ pub fn byteset_to_string(s: &[u32]) -> String {
     let mut res = String::new();
     let mut start = None;
     let mut first = true;
-    for i in 0..=256 {
-        if i <= 0xff && byteset_contains(s, i) {
+    // the set can be shorter than 256 bits when the alphabet is smaller
+    let num_bits = std::cmp::min(256, s.len() * 32);
+    for i in 0..=num_bits {
+        if i < num_bits && byteset_contains(s, i) {
             if start.is_none() {
                 start = Some(i);
             }
-- 
2.43.0


From d90e7c1e3f3dce99e588bdde8080af9ce01533c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:25 +0000
Subject: [PATCH 8/9] fix: printing RegexAst with an invalid ExprRef

---
 src/regexbuilder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/regexbuilder.rs b/src/regexbuilder.rs
index b921a18..49fc5db 100644
--- a/src/regexbuilder.rs
+++ b/src/regexbuilder.rs
@@ -182,7 +182,8 @@ impl RegexAst {
                     dst.push_str(&format!(" {:?}", String::from_utf8_lossy(&s)));
                 }
                 RegexAst::ExprRef(r) => {
-                    if let Some(es) = exprset {
+                    // the ref may not come from this exprset
+                    if let Some(es) = exprset.filter(|es| es.is_valid(*r)) {
                         let e_len = max_len.saturating_sub(dst.len());
                         dst.push_str(&format!(" {}", es.expr_to_string_max_len(*r, e_len)));
                     } else {
-- 
2.43.0


From 5097db17faf183cac18ecf5bc740d7394e334d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 9/9] Undo unrelated formatting that came along with 5952f30

---
 src/lib.rs    | 2 +-
 src/syntax.rs | 6 +-----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 295bd77..b4f4ae9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -15,7 +15,7 @@ mod syntax;
 pub use ast::{ExprRef, NextByte};
 pub use regex::{AlphabetInfo, Regex, StateID};
 
-pub use regexbuilder::{JsonQuoteOptions, RegexAst, RegexBuilder};
+pub use regexbuilder::{RegexAst, RegexBuilder, JsonQuoteOptions};
 
 pub use mapper::map_ast; // utility function
 
diff --git a/src/syntax.rs b/src/syntax.rs
index 13cf288..7778b4e 100644
--- a/src/syntax.rs
+++ b/src/syntax.rs
@@ -82,11 +82,7 @@ impl ExprSet {
     fn handle_unicode_ranges(&mut self, u: &ClassUnicode) -> ExprRef {
         let mut root = TrieNode::new(TrieSelector::Byte(0));
 
-        let key = u
-            .ranges()
-            .iter()
-            .map(|r| (r.start(), r.end()))
-            .collect::<Vec<_>>();
+        let key = u.ranges().iter().map(|r| (r.start() ,r.end() )).collect::<Vec<_>>();
 
         if let Some(r) = self.unicode_cache.get(&key) {
             return *r;
-- 
2.43.0

