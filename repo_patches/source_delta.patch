From 6cf8740f392c507968e5e780e4b47b34c368a02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 01/41] fix: find substrings that span several chunks or start
 mid-tail in a multi-byte character

SourceCursor::find_str joined only the one following chunk and dropped the tail
when it did not start on a character boundary, so it missed existing matches.
---
 projects/oak-core/src/source/cursor.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/projects/oak-core/src/source/cursor.rs b/projects/oak-core/src/source/cursor.rs
index a550e28..42a4a27 100644
--- a/projects/oak-core/src/source/cursor.rs
+++ b/projects/oak-core/src/source/cursor.rs
@@ -435,13 +435,23 @@ impl<'s, S: Source + ?Sized> SourceCursor<'s, S> {
             }
 
             if pat_len > 1 {
+                // A match that starts in this chunk may end any number of chunks later.
                 let keep = pat_len - 1;
+                let mut tail_start = text.len().saturating_sub(keep);
+                while !text.is_char_boundary(tail_start) {
+                    tail_start -= 1
+                }
+                let tail = text.get(tail_start..).unwrap_or("");
+                let tail_abs_start = chunk_end.saturating_sub(tail.len());
+                let wanted = tail.len() + keep;
                 self.scratch.clear();
-                let tail = text.get(text.len().saturating_sub(keep)..).unwrap_or("");
                 self.scratch.push_str(tail);
-                let tail_abs_start = chunk_end.saturating_sub(tail.len());
-                let next_chunk = self.source.chunk_at(chunk_end);
-                self.scratch.push_str(next_chunk.text);
+                let mut next = chunk_end;
+                while self.scratch.len() < wanted && next < end {
+                    let next_chunk = self.source.chunk_at(next);
+                    self.scratch.push_str(next_chunk.text);
+                    next = next_chunk.end()
+                }
                 if let Some(pos) = self.scratch.find(pattern) {
                     return Some(tail_abs_start + pos);
                 }
-- 
2.43.0


From 52ec9eb0d28c0eec860ebf43174f226f587a5584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:29 +0000
Subject: [PATCH 02/41] fix: relexing with a cache kept the end marker and
 tokens past a truncated end

---
 projects/oak-core/src/lexer/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/projects/oak-core/src/lexer/mod.rs b/projects/oak-core/src/lexer/mod.rs
index 0e17a44..c4f4726 100644
--- a/projects/oak-core/src/lexer/mod.rs
+++ b/projects/oak-core/src/lexer/mod.rs
@@ -289,14 +289,16 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
         let len = source.length();
         let relex_from = relex_from.min(len);
 
-        // Fast path: fully re-used
-        if relex_from >= len {
+        // Fast path: fully re-used. Only sound if the cached tokens describe exactly this text:
+        // after a truncation they extend past the end of the source.
+        let count = cache.count_tokens();
+        let cached_end = count.checked_sub(1).and_then(|i| cache.get_token(i)).map(|t| t.span.end);
+        if relex_from >= len && cached_end == Some(len) {
             let mut tokens = Vec::new();
             if let Some(cached) = cache.get_tokens() {
                 tokens.extend_from_slice(cached)
             }
             else {
-                let count = cache.count_tokens();
                 tokens.reserve(count);
                 for i in 0..count {
                     if let Some(t) = cache.get_token(i) {
@@ -317,7 +319,8 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
 
         if let Some(cached) = cache.get_tokens() {
             // Binary search for the cut-off point since tokens are sorted by position
-            let idx = cached.partition_point(|t| t.span.end <= relex_from);
+            // The end-of-stream marker is not text: it is never kept and does not count as backtracking.
+            let idx = cached.partition_point(|t| t.span.end <= relex_from && !t.kind.is_end_of_stream());
             let keep = idx.saturating_sub(BACKTRACK_TOKENS);
             if keep > 0 {
                 reused_tokens.extend_from_slice(&cached[..keep])
@@ -325,13 +328,12 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
         }
         else {
             // Fallback for caches that don't support slice access
-            let count = cache.count_tokens();
             for i in 0..count {
                 let Some(token) = cache.get_token(i)
                 else {
                     break;
                 };
-                if token.span.end <= relex_from {
+                if token.span.end <= relex_from && !token.kind.is_end_of_stream() {
                     reused_tokens.push(token);
                 }
                 else {
-- 
2.43.0


From bd62aa7d1baa1b04aa092e31a8cd442fd4c686e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 03/41] fix: free arena chunks that cannot be pooled, and the
 pool itself at thread exit

---
 projects/oak-core/src/memory/arena.rs | 35 ++++++++++++++++++---------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/projects/oak-core/src/memory/arena.rs b/projects/oak-core/src/memory/arena.rs
index cf47615..1ae6d7a 100644
--- a/projects/oak-core/src/memory/arena.rs
+++ b/projects/oak-core/src/memory/arena.rs
@@ -60,7 +60,19 @@ const ALIGN: usize = 8;
 // - **Automatic Cleanup:** All chunks are either recycled into this pool or freed when
 //   the `SyntaxArena` is dropped.
 thread_local! {
-    static CHUNK_POOL: RefCell<Vec<NonNull<u8>>> = RefCell::new(Vec::with_capacity(16))
+    static CHUNK_POOL: RefCell<ChunkPool> = RefCell::new(ChunkPool(Vec::with_capacity(16)))
+}
+
+/// The pooled chunks of one thread, freed when the thread ends.
+struct ChunkPool(Vec<NonNull<u8>>);
+
+impl Drop for ChunkPool {
+    fn drop(&mut self) {
+        let layout = Layout::from_size_align(CHUNK_SIZE, ALIGN).unwrap();
+        for ptr in self.0.drain(..) {
+            unsafe { dealloc(ptr.as_ptr(), layout) }
+        }
+    }
 }
 
 /// A high-performance bump allocator optimized for AST nodes.
@@ -277,7 +289,7 @@ impl SyntaxArena {
     unsafe fn alloc_chunk(size: usize) -> NonNull<u8> {
         // Try to get from pool if size matches the standard chunk size.
         if size == CHUNK_SIZE {
-            let ptr = CHUNK_POOL.try_with(|pool| pool.borrow_mut().pop());
+            let ptr = CHUNK_POOL.try_with(|pool| pool.borrow_mut().0.pop());
 
             if let Ok(Some(ptr)) = ptr {
                 return ptr;
@@ -325,18 +337,19 @@ impl SyntaxArena {
     unsafe fn recycle_chunk(ptr: NonNull<u8>, size: usize) {
         if size == CHUNK_SIZE {
             // Only pool standard-sized chunks to maintain predictability.
-            let _ = CHUNK_POOL.try_with(|pool| {
+            let pooled = CHUNK_POOL.try_with(|pool| {
                 let mut pool = pool.borrow_mut();
-                if pool.len() < 64 {
-                    // Hard limit to prevent memory bloating per thread.
-                    pool.push(ptr)
+                // Hard limit to prevent memory bloating per thread.
+                let room = pool.0.len() < 64;
+                if room {
+                    pool.0.push(ptr)
                 }
+                room
             });
-            // If try_with fails (e.g. during thread destruction), we just leak or dealloc?
-            // Since we can't access pool, we should dealloc.
-            // But try_with error usually means TLS is gone.
-            // We can check error kind. For simplicity, we just fallback to dealloc if pool is unreachable.
-            return;
+            // `Err` means the pool is already gone (thread destruction).
+            if let Ok(true) = pooled {
+                return;
+            }
         }
         // If not pooled (either because it's a huge chunk or the pool is full/unreachable), deallocate immediately.
         let layout = Layout::from_size_align(size, ALIGN).unwrap();
-- 
2.43.0


From cce3b1f7e2444a91f19bfd0a59fb30c0cd6ddfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 04/41] fix: an iterator shorter than announced exposed
 uninitialised arena memory

---
 projects/oak-core/src/memory/arena.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/projects/oak-core/src/memory/arena.rs b/projects/oak-core/src/memory/arena.rs
index 1ae6d7a..3c37cd8 100644
--- a/projects/oak-core/src/memory/arena.rs
+++ b/projects/oak-core/src/memory/arena.rs
@@ -175,9 +175,8 @@ impl SyntaxArena {
     ///
     /// # Safety
     ///
-    /// The iterator must yield exactly `count` items. If it yields fewer, the remaining
-    /// memory will be uninitialized (UB if accessed). If it yields more, the extra
-    /// items are ignored. `T` must be POD.
+    /// The iterator should yield `count` items. If it yields fewer, the returned slice
+    /// holds only those. If it yields more, the extra items are ignored. `T` must be POD.
     #[inline(always)]
     pub fn alloc_slice_fill_iter<T, I>(&self, count: usize, iter: I) -> &mut [T]
     where
@@ -202,11 +201,8 @@ impl SyntaxArena {
                 i += 1
             }
 
-            // In a production-ready system, we should handle the case where iter is short.
-            // But for our internal use in deep_clone, we know the count is exact.
-            debug_assert_eq!(i, count, "Iterator yielded fewer items than expected");
-
-            std::slice::from_raw_parts_mut(base_ptr, count)
+            // A short iterator leaves the tail of the reservation unused: only what was written is exposed.
+            std::slice::from_raw_parts_mut(base_ptr, i)
         }
     }
 
-- 
2.43.0


From 667f23b4414e64fc1bebdc16b3f74bb268ee0eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 05/41] fix: adding metadata to an arena invalidated references
 to earlier metadata

---
 projects/oak-core/src/memory/arena.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/projects/oak-core/src/memory/arena.rs b/projects/oak-core/src/memory/arena.rs
index 3c37cd8..0041e6c 100644
--- a/projects/oak-core/src/memory/arena.rs
+++ b/projects/oak-core/src/memory/arena.rs
@@ -92,7 +92,8 @@ pub struct SyntaxArena {
     /// The start pointer of the current chunk (used for recycling/freeing).
     current_chunk_start: UnsafeCell<NonNull<u8>>,
     /// Store for token provenance metadata.
-    metadata: UnsafeCell<Vec<TokenProvenance>>,
+    // Boxed, so that references handed out by `get_metadata` survive growth of the vector.
+    metadata: UnsafeCell<Vec<Box<TokenProvenance>>>,
 }
 
 impl SyntaxArena {
@@ -109,14 +110,14 @@ impl SyntaxArena {
     /// Stores a token provenance in the arena and returns its index.
     pub fn add_metadata(&self, provenance: TokenProvenance) -> std::num::NonZeroU32 {
         let metadata = unsafe { &mut *self.metadata.get() };
-        metadata.push(provenance);
+        metadata.push(Box::new(provenance));
         std::num::NonZeroU32::new(metadata.len() as u32).expect("Metadata index overflow")
     }
 
     /// Retrieves a token provenance by index.
     pub fn get_metadata(&self, index: std::num::NonZeroU32) -> Option<&TokenProvenance> {
         let metadata = unsafe { &*self.metadata.get() };
-        metadata.get(index.get() as usize - 1)
+        metadata.get(index.get() as usize - 1).map(|provenance| &**provenance)
     }
 
     /// Allocates a value of type `T` in the arena and moves `value` into it.
-- 
2.43.0


From 0d2ea96f6c94391ca2c6041a386827eadc05d9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:46 +0000
Subject: [PATCH 06/41] fix: a parse session kept using a tree whose memory was
 released after failed parses

---
 projects/oak-core/src/parser/session.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/projects/oak-core/src/parser/session.rs b/projects/oak-core/src/parser/session.rs
index 5723601..707a344 100644
--- a/projects/oak-core/src/parser/session.rs
+++ b/projects/oak-core/src/parser/session.rs
@@ -35,6 +35,8 @@ pub struct ParseSession<L: Language + Send + Sync> {
     arena_old: Option<SyntaxArena>,
     /// Pointer to the root of the last parsed tree.
     last_root: Cell<Option<NonNull<()>>>,
+    /// Whether `last_root` was committed in the current generation, i.e. points into `arena_active`.
+    committed: Cell<bool>,
     /// Full output from the last lexing pass.
     last_lex: Option<LexOutput<L>>,
 }
@@ -51,13 +53,13 @@ impl<L: Language + Send + Sync> Default for ParseSession<L> {
 impl<L: Language + Send + Sync> ParseSession<L> {
     /// Creates a new parse session.
     pub fn new(capacity: usize) -> Self {
-        Self { arena_active: SyntaxArena::new(capacity), arena_old: None, last_root: Cell::new(None), last_lex: None }
+        Self { arena_active: SyntaxArena::new(capacity), arena_old: None, last_root: Cell::new(None), committed: Cell::new(false), last_lex: None }
     }
 
     /// Returns the root of the last parsed tree.
     pub fn last_root(&self) -> Option<&GreenNode<'_, L>> {
         let ptr = self.last_root.get()?;
-        // Safety: last_root is guaranteed to be in arena_active after commit_generation
+        // Safety: last_root points into arena_active, or into arena_old if the current generation committed no tree
         unsafe { Some(&*(ptr.as_ptr() as *const GreenNode<'_, L>)) }
     }
 }
@@ -83,7 +85,10 @@ impl<L: Language + Send + Sync> ParseCache<L> for ParseSession<L> {
     }
 
     fn prepare_generation(&mut self) {
-        // 1. Move active to old. Oldest is dropped.
+        // 1. Move active to old. Oldest is dropped, along with a tree that no later generation replaced.
+        if !self.committed.replace(false) {
+            self.last_root.set(None)
+        }
         self.arena_old = Some(std::mem::replace(&mut self.arena_active, SyntaxArena::new(16)));
 
         // 2. last_root now correctly points into arena_old.
@@ -94,6 +99,7 @@ impl<L: Language + Send + Sync> ParseCache<L> for ParseSession<L> {
     fn commit_generation(&self, root: &GreenNode<L>) {
         // Safety: We cast to void pointer because ParseSession manages the lifetime.
         unsafe { self.last_root.set(Some(NonNull::new_unchecked(root as *const _ as *mut ()))) }
+        self.committed.set(true)
     }
 }
 
-- 
2.43.0


From f6f31c28c4036315919871aa93f714ef0962a319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:46 +0000
Subject: [PATCH 07/41] fix: with_source_id left unexpected-end errors without
 their source

---
 projects/oak-core/src/errors/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/oak-core/src/errors/mod.rs b/projects/oak-core/src/errors/mod.rs
index 5f5bef3..5bb09da 100644
--- a/projects/oak-core/src/errors/mod.rs
+++ b/projects/oak-core/src/errors/mod.rs
@@ -471,6 +471,7 @@ impl OakError {
             OakErrorKind::SyntaxError { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::UnexpectedCharacter { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::UnexpectedToken { source_id: u, .. } => *u = Some(source_id),
+            OakErrorKind::UnexpectedEof { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::ExpectedToken { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::ExpectedName { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::TrailingCommaNotAllowed { source_id: u, .. } => *u = Some(source_id),
-- 
2.43.0


From d82f8debe2adcd7599ceb4ec9313f2bc35ba1bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:17 +0000
Subject: [PATCH 08/41] fix: incremental parsing reused nodes whose tokens, or
 the token that ends them, had changed

---
 projects/oak-core/src/parser/state.rs | 63 ++++++++++++++++-----------
 projects/oak-core/src/tree/cursor.rs  |  9 +++-
 2 files changed, 46 insertions(+), 26 deletions(-)

diff --git a/projects/oak-core/src/parser/state.rs b/projects/oak-core/src/parser/state.rs
index 28f3785..674f4f2 100644
--- a/projects/oak-core/src/parser/state.rs
+++ b/projects/oak-core/src/parser/state.rs
@@ -557,36 +557,49 @@ impl<'a, L: Language, S: Source + ?Sized> ParserState<'a, L, S> {
             if start == target_old_pos {
                 if let Some(node) = inc.cursor.as_node() {
                     if node.kind == kind {
-                        if !inc.is_dirty(start, end) {
-                            // Verify tokens
-                            let node_len = node.text_len() as usize;
-
-                            // Check token stream
-                            let mut lookahead = 0;
-                            let mut current_pos = new_pos;
-                            let target_new_end = new_pos + node_len;
-
-                            while let Some(t) = self.tokens.peek_at(lookahead) {
-                                if t.span.start != current_pos {
-                                    // Token stream doesn't match expected positions
-                                    break;
-                                }
+                        // The tokens ahead must be exactly the leaves of the old node, and the token after it, which
+                        // decides where the node ends, must be the one that followed it before.
+                        let mut consumed = 0;
+                        let mut current_pos = new_pos;
+                        let mut unchanged = node.text_len() > 0 && !inc.is_dirty(start, end);
+                        let mut same_token = |leaf: GreenLeaf<L>, lookahead: usize| match self.tokens.peek_at(lookahead) {
+                            Some(t) if t.span.start == current_pos && t.kind == leaf.kind && t.length() == leaf.length as usize => {
                                 current_pos = t.span.end;
+                                true
+                            }
+                            _ => false,
+                        };
+
+                        let mut leaves = Cursor::new(node);
+                        while unchanged && leaves.step() {
+                            if let GreenTree::Leaf(leaf) = leaves.current() {
+                                unchanged = same_token(leaf, consumed);
+                                consumed += 1
+                            }
+                        }
 
-                                if t.span.end == target_new_end {
-                                    // Found the end!
-                                    let tokens_consumed = lookahead + 1;
-                                    let new_node = deep_clone_node(node, self.sink.arena);
-                                    self.sink.push_node(new_node);
-                                    self.tokens.set_index(current_index + tokens_consumed);
-                                    inc.cursor.step_over();
-                                    return true;
-                                }
-                                else if t.span.end > target_new_end {
+                        let mut decided_by = end + 1;
+                        let mut following = inc.cursor.clone();
+                        let mut lookahead = consumed;
+                        let mut more = following.step_next();
+                        while unchanged && more {
+                            if let GreenTree::Leaf(leaf) = following.current() {
+                                unchanged = same_token(leaf, lookahead);
+                                lookahead += 1;
+                                if !L::TokenType::is_ignored(&leaf.kind) {
+                                    decided_by = following.end_offset();
                                     break;
                                 }
-                                lookahead += 1;
                             }
+                            more = following.step()
+                        }
+
+                        if unchanged && !inc.is_dirty(start, decided_by) {
+                            let new_node = deep_clone_node(node, self.sink.arena);
+                            self.sink.push_node(new_node);
+                            self.tokens.set_index(current_index + consumed);
+                            inc.cursor.step_over();
+                            return true;
                         }
                     }
                 }
diff --git a/projects/oak-core/src/tree/cursor.rs b/projects/oak-core/src/tree/cursor.rs
index 664be62..ba85d91 100644
--- a/projects/oak-core/src/tree/cursor.rs
+++ b/projects/oak-core/src/tree/cursor.rs
@@ -13,7 +13,7 @@ use crate::{
 ///
 /// It maintains a path from the root to the current node, allowing for
 /// `parent()` navigation and offset tracking.
-#[derive(Debug, Clone)]
+#[derive(Debug)]
 pub struct Cursor<'a, L: Language> {
     /// The current element (Node or Leaf).
     current: GreenTree<'a, L>,
@@ -24,6 +24,13 @@ pub struct Cursor<'a, L: Language> {
     stack: Vec<(&'a GreenNode<'a, L>, usize, usize)>,
 }
 
+// Manually implement Clone to avoid L: Clone bound
+impl<'a, L: Language> Clone for Cursor<'a, L> {
+    fn clone(&self) -> Self {
+        Self { current: self.current, offset: self.offset, stack: self.stack.clone() }
+    }
+}
+
 impl<'a, L: Language> Cursor<'a, L> {
     /// Creates a new cursor starting at the given root node.
     pub fn new(root: &'a GreenNode<'a, L>) -> Self {
-- 
2.43.0


From aa6afad12b60103d98380e3ae6d4ed3bc188614c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 09/41] fix: incremental parsing lost the errors of the nodes
 it reused

---
 projects/oak-core/src/parser/mod.rs     |  5 ++++-
 projects/oak-core/src/parser/session.rs | 18 ++++++++++++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/projects/oak-core/src/parser/mod.rs b/projects/oak-core/src/parser/mod.rs
index eac77cb..b74ec22 100644
--- a/projects/oak-core/src/parser/mod.rs
+++ b/projects/oak-core/src/parser/mod.rs
@@ -108,12 +108,15 @@ where
     }
 
     // 4. Run Parser Logic
+    let lexical_errors = st.errors.len();
     let result = run(&mut st);
+    let reusable = st.errors.len() == lexical_errors;
     let output = st.finish(result);
 
     // 5. Commit Generation
     if let Ok(root) = output.result {
-        cache.commit_generation(root)
+        cache.commit_generation(root);
+        cache.set_reusable(reusable)
     }
 
     output
diff --git a/projects/oak-core/src/parser/session.rs b/projects/oak-core/src/parser/session.rs
index 707a344..2d73fdf 100644
--- a/projects/oak-core/src/parser/session.rs
+++ b/projects/oak-core/src/parser/session.rs
@@ -22,6 +22,10 @@ pub trait ParseCache<L: Language>: LexerCache<L> {
 
     /// Commits the result of a parsing generation.
     fn commit_generation(&self, root: &GreenNode<L>);
+
+    /// Records whether the parser reported no error for the committed tree.
+    /// Reusing nodes of a tree with errors would lose the errors, since reused nodes are not parsed again.
+    fn set_reusable(&self, _reusable: bool) {}
 }
 
 /// A memory pool that manages the lifecycle of parsing generations.
@@ -37,6 +41,8 @@ pub struct ParseSession<L: Language + Send + Sync> {
     last_root: Cell<Option<NonNull<()>>>,
     /// Whether `last_root` was committed in the current generation, i.e. points into `arena_active`.
     committed: Cell<bool>,
+    /// Whether the tree at `last_root` may be reused by the next generation.
+    reusable: Cell<bool>,
     /// Full output from the last lexing pass.
     last_lex: Option<LexOutput<L>>,
 }
@@ -53,7 +59,7 @@ impl<L: Language + Send + Sync> Default for ParseSession<L> {
 impl<L: Language + Send + Sync> ParseSession<L> {
     /// Creates a new parse session.
     pub fn new(capacity: usize) -> Self {
-        Self { arena_active: SyntaxArena::new(capacity), arena_old: None, last_root: Cell::new(None), committed: Cell::new(false), last_lex: None }
+        Self { arena_active: SyntaxArena::new(capacity), arena_old: None, last_root: Cell::new(None), committed: Cell::new(false), reusable: Cell::new(true), last_lex: None }
     }
 
     /// Returns the root of the last parsed tree.
@@ -71,7 +77,7 @@ impl<L: Language + Send + Sync> ParseCache<L> for ParseSession<L> {
 
     fn old_tree(&self) -> Option<&GreenNode<'_, L>> {
         let ptr = self.last_root.get()?;
-        if self.arena_old.is_some() {
+        if self.arena_old.is_some() && self.reusable.get() {
             // Safety: last_root is guaranteed to be in arena_old after swap_generations
             unsafe { Some(&*(ptr.as_ptr() as *const GreenNode<'_, L>)) }
         }
@@ -101,6 +107,10 @@ impl<L: Language + Send + Sync> ParseCache<L> for ParseSession<L> {
         unsafe { self.last_root.set(Some(NonNull::new_unchecked(root as *const _ as *mut ()))) }
         self.committed.set(true)
     }
+
+    fn set_reusable(&self, reusable: bool) {
+        self.reusable.set(reusable)
+    }
 }
 
 impl<L: Language + Send + Sync> LexerCache<L> for ParseSession<L> {
@@ -145,4 +155,8 @@ impl<'a, L: Language, C: ParseCache<L> + ?Sized> ParseCache<L> for &'a mut C {
     fn commit_generation(&self, root: &GreenNode<L>) {
         (**self).commit_generation(root)
     }
+
+    fn set_reusable(&self, reusable: bool) {
+        (**self).set_reusable(reusable)
+    }
 }
-- 
2.43.0


From ff5a24ec2d746f9112c2557752256beaf79fe88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 10/41] fix: updating one file's symbols dropped other files'
 symbols of the same name

---
 projects/oak-resolver/src/lib.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/projects/oak-resolver/src/lib.rs b/projects/oak-resolver/src/lib.rs
index c811aba..342c3dd 100644
--- a/projects/oak-resolver/src/lib.rs
+++ b/projects/oak-resolver/src/lib.rs
@@ -9,7 +9,7 @@ use oak_symbols::SymbolInformation;
 use std::path::PathBuf;
 use url::Url;
 
-use std::sync::RwLock;
+use std::sync::{Mutex, RwLock};
 
 /// Trait for resolving module imports to file URIs.
 pub trait ModuleResolver: Send + Sync {
@@ -68,30 +68,37 @@ impl ModuleResolver for StandardResolver {
 pub struct GlobalSymbolTable {
     /// Map of URI to symbols defined in that file.
     file_symbols: DashMap<String, Vec<SymbolInformation>>,
-    /// Map of fully qualified name to symbol information.
-    qualified_symbols: DashMap<String, SymbolInformation>,
+    /// Map of fully qualified name to the symbols of that name, each with the URI of the file that defines it.
+    qualified_symbols: DashMap<String, Vec<(String, SymbolInformation)>>,
+    /// Serializes updates, which touch both maps.
+    update_lock: Mutex<()>,
 }
 
 impl GlobalSymbolTable {
     /// Creates a new, empty `GlobalSymbolTable`.
     pub fn new() -> Self {
-        Self { file_symbols: DashMap::new(), qualified_symbols: DashMap::new() }
+        Self { file_symbols: DashMap::new(), qualified_symbols: DashMap::new(), update_lock: Mutex::new(()) }
     }
 
     /// Add or update symbols for a file.
     pub fn update_file_symbols(&self, uri: String, symbols: Vec<SymbolInformation>) {
+        let _guard = self.update_lock.lock().unwrap_or_else(|e| e.into_inner());
+
         // Remove old qualified symbols for this file
         if let Some((_, old_symbols)) = self.file_symbols.remove(&uri) {
             for sym in old_symbols {
                 let fqn = self.make_qualified_name(&sym);
-                self.qualified_symbols.remove(&fqn);
+                self.qualified_symbols.remove_if_mut(&fqn, |_, found| {
+                    found.retain(|(file, _)| *file != uri);
+                    found.is_empty()
+                });
             }
         }
 
         // Add new symbols
         for sym in &symbols {
             let fqn = self.make_qualified_name(sym);
-            self.qualified_symbols.insert(fqn, sym.clone());
+            self.qualified_symbols.entry(fqn).or_default().push((uri.clone(), sym.clone()));
         }
         self.file_symbols.insert(uri, symbols);
     }
@@ -105,7 +112,7 @@ impl GlobalSymbolTable {
 
     /// Lookup a symbol by its fully qualified name.
     pub fn lookup(&self, fqn: &str) -> Option<SymbolInformation> {
-        self.qualified_symbols.get(fqn).map(|r| r.value().clone())
+        self.qualified_symbols.get(fqn).and_then(|r| r.value().last().map(|(_, sym)| sym.clone()))
     }
 
     /// Get all symbols defined in a specific file.
@@ -115,7 +122,7 @@ impl GlobalSymbolTable {
 
     /// Find all symbols matching a query (for workspace/symbol).
     pub fn query(&self, query: &str) -> Vec<SymbolInformation> {
-        self.qualified_symbols.iter().filter(|r| r.key().contains(query)).map(|r| r.value().clone()).collect()
+        self.qualified_symbols.iter().filter(|r| r.key().contains(query)).flat_map(|r| r.value().iter().map(|(_, sym)| sym.clone()).collect::<Vec<_>>()).collect()
     }
 }
 
-- 
2.43.0


From 7cede57cbb79c83ccc0c45776a4f888379db6b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:36 +0000
Subject: [PATCH 11/41] fix: diagnostic codes were not escaped in HTML output

---
 projects/oak-diagnostic/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/oak-diagnostic/src/lib.rs b/projects/oak-diagnostic/src/lib.rs
index b1dcc49..0539658 100644
--- a/projects/oak-diagnostic/src/lib.rs
+++ b/projects/oak-diagnostic/src/lib.rs
@@ -472,7 +472,7 @@ impl Emitter for HtmlEmitter {
         out.push_str("<div class=\"diagnostic\">\n");
         out.push_str(&format!("  <div class=\"header {}\">\n", sev_class));
         if let Some(code) = &diagnostic.code {
-            out.push_str(&format!("    <span class=\"code\">[{}]</span> <span class=\"message\">{}</span>\n", code, html_escape(&message)));
+            out.push_str(&format!("    <span class=\"code\">[{}]</span> <span class=\"message\">{}</span>\n", html_escape(code), html_escape(&message)));
         }
         else {
             out.push_str(&format!("    <span class=\"severity\">[{}]</span> <span class=\"message\">{}</span>\n", sev_class, html_escape(&message)));
-- 
2.43.0


From 7dca730f137dce3f833ac2f26297db4bfb92802e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:36 +0000
Subject: [PATCH 12/41] fix: labels of errors at multi-byte characters ended
 inside the character

---
 projects/oak-diagnostic/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/projects/oak-diagnostic/src/lib.rs b/projects/oak-diagnostic/src/lib.rs
index 0539658..648f3b3 100644
--- a/projects/oak-diagnostic/src/lib.rs
+++ b/projects/oak-diagnostic/src/lib.rs
@@ -138,27 +138,27 @@ impl DiagnosticProvider for OakError {
             OakErrorKind::IoError { .. } => {}
             OakErrorKind::SyntaxError { offset, .. } | OakErrorKind::UnexpectedCharacter { offset, .. } => {
                 let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
+                let end = start + source.get_char_at(start).map_or(0, char::len_utf8);
                 diag = diag.with_label(core::range::Range { start, end }, "here");
             }
             OakErrorKind::UnexpectedToken { token, offset, .. } => {
                 let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
+                let end = start + source.get_char_at(start).map_or(0, char::len_utf8);
                 diag = diag.with_label(core::range::Range { start, end }, "here").with_arg("token", token.clone());
             }
             OakErrorKind::ExpectedToken { expected, offset, .. } => {
                 let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
+                let end = start + source.get_char_at(start).map_or(0, char::len_utf8);
                 diag = diag.with_label(core::range::Range { start, end }, "here").with_arg("expected", expected.clone());
             }
             OakErrorKind::ExpectedName { name_kind, offset, .. } => {
                 let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
+                let end = start + source.get_char_at(start).map_or(0, char::len_utf8);
                 diag = diag.with_label(core::range::Range { start, end }, "here").with_arg("name_kind", name_kind.clone());
             }
             OakErrorKind::TrailingCommaNotAllowed { offset, .. } => {
                 let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
+                let end = start + source.get_char_at(start).map_or(0, char::len_utf8);
                 diag = diag.with_label(core::range::Range { start, end }, "here");
             }
             _ => {}
-- 
2.43.0


From 5b73decb4fdeee5a2ea2adfc58a01bb36c3d5f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:36 +0000
Subject: [PATCH 13/41] fix: diagnostics ending on the empty last line lost
 their snippet and message

---
 projects/oak-diagnostic/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/projects/oak-diagnostic/src/lib.rs b/projects/oak-diagnostic/src/lib.rs
index 648f3b3..38ac416 100644
--- a/projects/oak-diagnostic/src/lib.rs
+++ b/projects/oak-diagnostic/src/lib.rs
@@ -208,7 +208,7 @@ impl Emitter for ConsoleEmitter {
         let mut out = String::new();
         let line_map = LineMap::from_source(source);
         let full_text = source.get_text_in(core::range::Range { start: 0, end: source.length() }).into_owned();
-        let lines: Vec<&str> = full_text.lines().collect();
+        let lines: Vec<&str> = full_text.split('\n').map(|line| line.strip_suffix('\r').unwrap_or(line)).collect();
 
         // 1. Header: [code] severity: message or [severity]: message
         let sev_name = match diagnostic.severity {
@@ -353,7 +353,7 @@ impl Emitter for PlainTextEmitter {
         let mut out = String::new();
         let line_map = LineMap::from_source(source);
         let full_text = source.get_text_in(core::range::Range { start: 0, end: source.length() }).into_owned();
-        let lines: Vec<&str> = full_text.lines().collect();
+        let lines: Vec<&str> = full_text.split('\n').map(|line| line.strip_suffix('\r').unwrap_or(line)).collect();
 
         // 1. Header: [code] severity: message or [severity]: message
         let sev_name = match diagnostic.severity {
@@ -460,7 +460,7 @@ impl Emitter for HtmlEmitter {
         let mut out = String::new();
         let line_map = LineMap::from_source(source);
         let full_text = source.get_text_in(core::range::Range { start: 0, end: source.length() }).into_owned();
-        let lines: Vec<&str> = full_text.lines().collect();
+        let lines: Vec<&str> = full_text.split('\n').map(|line| line.strip_suffix('\r').unwrap_or(line)).collect();
         let sev_class = match diagnostic.severity {
             Severity::Error => "error",
             Severity::Warning => "warning",
-- 
2.43.0


From fa7b0018b5abf0a74b0372627c88e40402535050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:08 +0000
Subject: [PATCH 14/41] fix: tools the MCP server lists (search,
 set_file_content) were refused as unknown

---
 projects/oak-mcp/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/projects/oak-mcp/src/lib.rs b/projects/oak-mcp/src/lib.rs
index d185f11..0e5bed3 100644
--- a/projects/oak-mcp/src/lib.rs
+++ b/projects/oak-mcp/src/lib.rs
@@ -8,6 +8,7 @@
 
 use oak_core::Range;
 use oak_lsp::service::LanguageService;
+use oak_vfs::WritableVfs;
 use serde::{Deserialize, Serialize};
 use serde_json::{Value as JsonValue, json};
 use std::sync::Arc;
@@ -257,7 +258,14 @@ where
                 let _items = self.service.completion(uri, offset).await;
                 Ok(json!([]))
             }
-            "semantic_search" => {
+            "set_file_content" => {
+                let uri = args.get("uri").and_then(|v| v.as_str()).ok_or("Missing uri")?;
+                let content = args.get("content").and_then(|v| v.as_str()).ok_or("Missing content")?;
+
+                self.service.vfs().write_file(uri, content.into());
+                Ok(json!(null))
+            }
+            "search" | "semantic_search" => {
                 let searcher = self.searcher.as_ref().ok_or("Semantic search is not enabled")?;
                 let query = args.get("query").and_then(|v| v.as_str()).ok_or("Missing query")?;
                 let limit = args.get("limit").and_then(|v| v.as_u64()).unwrap_or(5) as usize;
-- 
2.43.0


From 9dd96ba53747f2b40be2f2590db83e2f3a524ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 15/41] fix: REPL editing panicked on or corrupted lines with
 multi-byte characters

---
 projects/oak-repl/src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/projects/oak-repl/src/lib.rs b/projects/oak-repl/src/lib.rs
index e1004e0..a698641 100644
--- a/projects/oak-repl/src/lib.rs
+++ b/projects/oak-repl/src/lib.rs
@@ -94,7 +94,7 @@ pub struct LineBuffer {
     lines: Vec<String>,
     /// The index of the current line being edited.
     current_line: usize,
-    /// The cursor position within the current line.
+    /// The cursor position within the current line, in characters.
     cursor_pos: usize,
 }
 
@@ -106,7 +106,8 @@ impl LineBuffer {
 
     /// Insert a character at the current cursor position.
     pub fn insert(&mut self, ch: char) {
-        self.lines[self.current_line].insert(self.cursor_pos, ch);
+        let at = self.cursor_byte();
+        self.lines[self.current_line].insert(at, ch);
         self.cursor_pos += 1;
     }
 
@@ -114,7 +115,8 @@ impl LineBuffer {
     pub fn backspace(&mut self) -> bool {
         if self.cursor_pos > 0 {
             self.cursor_pos -= 1;
-            self.lines[self.current_line].remove(self.cursor_pos);
+            let at = self.cursor_byte();
+            self.lines[self.current_line].remove(at);
             true
         }
         else if self.current_line > 0 {
@@ -130,6 +132,12 @@ impl LineBuffer {
         }
     }
 
+    /// The byte offset in the current line of the cursor, which counts characters.
+    fn cursor_byte(&self) -> usize {
+        let line = &self.lines[self.current_line];
+        line.char_indices().nth(self.cursor_pos).map_or(line.len(), |(i, _)| i)
+    }
+
     /// Get the full text content of the buffer.
     pub fn full_text(&self) -> String {
         self.lines.join("\n")
-- 
2.43.0


From 7b47447f471aeb0d46d5dcdc5d8386a30a476ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 16/41] fix: labels and styles with markup characters broke
 rendered SVG

---
 projects/oak-visualize/src/render/mod.rs | 45 +++++++++++++++++-------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/projects/oak-visualize/src/render/mod.rs b/projects/oak-visualize/src/render/mod.rs
index e704a16..f07987a 100644
--- a/projects/oak-visualize/src/render/mod.rs
+++ b/projects/oak-visualize/src/render/mod.rs
@@ -106,6 +106,22 @@ impl ElementStyle {
     }
 }
 
+/// Escapes text for use as XML character data or inside a quoted attribute value
+fn escape_xml(text: &str) -> String {
+    let mut escaped = String::with_capacity(text.len());
+    for c in text.chars() {
+        match c {
+            '&' => escaped.push_str("&amp;"),
+            '<' => escaped.push_str("&lt;"),
+            '>' => escaped.push_str("&gt;"),
+            '"' => escaped.push_str("&quot;"),
+            '\'' => escaped.push_str("&#39;"),
+            _ => escaped.push(c),
+        }
+    }
+    escaped
+}
+
 /// SVG renderer for layouts
 pub struct SvgRenderer {
     config: RenderConfig,
@@ -148,7 +164,7 @@ impl SvgRenderer {
         svg.push('\n');
 
         // Background
-        svg.push_str(&format!(r#"  <rect width="100%" height="100%" fill="{}"/>"#, self.config.background_color));
+        svg.push_str(&format!(r#"  <rect width="100%" height="100%" fill="{}"/>"#, escape_xml(&self.config.background_color)));
         svg.push('\n');
 
         // Define styles
@@ -173,7 +189,7 @@ impl SvgRenderer {
                 self.config.arrow_size,
                 self.config.arrow_size,
                 self.config.arrow_size,
-                self.config.edge_color
+                escape_xml(&self.config.edge_color)
             ));
             svg.push('\n')
         }
@@ -209,7 +225,7 @@ impl SvgRenderer {
         let stroke_width = style.and_then(|s| s.stroke_width).unwrap_or(self.config.node_stroke_width);
 
         // Node rectangle
-        svg.push_str(&format!(r#"    <rect x="{}" y="{}" width="{}" height="{}" fill="{}" stroke="{}" stroke-width="{}" class="node""#, rect.origin.x, rect.origin.y, rect.size.width, rect.size.height, fill_color, stroke_color, stroke_width));
+        svg.push_str(&format!(r#"    <rect x="{}" y="{}" width="{}" height="{}" fill="{}" stroke="{}" stroke-width="{}" class="node""#, rect.origin.x, rect.origin.y, rect.size.width, rect.size.height, escape_xml(fill_color), escape_xml(stroke_color), stroke_width));
 
         // Add custom attributes
         if let Some(style) = style {
@@ -217,10 +233,10 @@ impl SvgRenderer {
                 svg.push_str(&format!(r#" opacity="{}""#, opacity))
             }
             if let Some(class) = &style.class_name {
-                svg.push_str(&format!(r#" class="node {}""#, class))
+                svg.push_str(&format!(r#" class="node {}""#, escape_xml(class)))
             }
             for (key, value) in &style.attributes {
-                svg.push_str(&format!(r#" {}="{}""#, key, value))
+                svg.push_str(&format!(r#" {}="{}""#, key, escape_xml(value)))
             }
         }
 
@@ -234,7 +250,12 @@ impl SvgRenderer {
             let center = rect.center();
             svg.push_str(&format!(
                 r#"    <text x="{}" y="{}" text-anchor="middle" dominant-baseline="central" fill="{}" font-size="{}" font-family="{}" class="label">{}</text>"#,
-                center.x, center.y, text_color, text_size, self.config.font_family, node.label
+                center.x,
+                center.y,
+                escape_xml(text_color),
+                text_size,
+                escape_xml(&self.config.font_family),
+                escape_xml(&node.label)
             ));
             svg.push('\n')
         }
@@ -261,7 +282,7 @@ impl SvgRenderer {
             path_data.push_str(&format!(" L {} {}", point.x, point.y))
         }
 
-        svg.push_str(&format!(r#"    <path d="{}" stroke="{}" stroke-width="{}" fill="none" class="edge""#, path_data, stroke_color, stroke_width));
+        svg.push_str(&format!(r#"    <path d="{}" stroke="{}" stroke-width="{}" fill="none" class="edge""#, path_data, escape_xml(stroke_color), stroke_width));
 
         // Add arrow marker for directed edges
         if self.config.show_arrows {
@@ -274,10 +295,10 @@ impl SvgRenderer {
                 svg.push_str(&format!(r#" opacity="{}""#, opacity))
             }
             if let Some(class) = &style.class_name {
-                svg.push_str(&format!(r#" class="edge {}""#, class))
+                svg.push_str(&format!(r#" class="edge {}""#, escape_xml(class)))
             }
             for (key, value) in &style.attributes {
-                svg.push_str(&format!(r#" {}="{}""#, key, value))
+                svg.push_str(&format!(r#" {}="{}""#, key, escape_xml(value)))
             }
         }
 
@@ -301,10 +322,10 @@ impl SvgRenderer {
                 r#"    <text x="{}" y="{}" text-anchor="middle" dominant-baseline="central" fill="{}" font-size="{}" font-family="{}" class="label">{}</text>"#,
                 mid_point.x,
                 mid_point.y - 5.0, // Offset slightly above the edge
-                text_color,
+                escape_xml(text_color),
                 text_size,
-                self.config.font_family,
-                label
+                escape_xml(&self.config.font_family),
+                escape_xml(label)
             ));
             svg.push('\n')
         }
-- 
2.43.0


From 000f2abcac97ab13a407cd7cfcedb8c2e977c1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 17/41] fix: styled nodes and edges were rendered with two
 class attributes

---
 projects/oak-visualize/src/render/mod.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/projects/oak-visualize/src/render/mod.rs b/projects/oak-visualize/src/render/mod.rs
index f07987a..3c5d79b 100644
--- a/projects/oak-visualize/src/render/mod.rs
+++ b/projects/oak-visualize/src/render/mod.rs
@@ -225,16 +225,18 @@ impl SvgRenderer {
         let stroke_width = style.and_then(|s| s.stroke_width).unwrap_or(self.config.node_stroke_width);
 
         // Node rectangle
-        svg.push_str(&format!(r#"    <rect x="{}" y="{}" width="{}" height="{}" fill="{}" stroke="{}" stroke-width="{}" class="node""#, rect.origin.x, rect.origin.y, rect.size.width, rect.size.height, escape_xml(fill_color), escape_xml(stroke_color), stroke_width));
+        svg.push_str(&format!(r#"    <rect x="{}" y="{}" width="{}" height="{}" fill="{}" stroke="{}" stroke-width="{}""#, rect.origin.x, rect.origin.y, rect.size.width, rect.size.height, escape_xml(fill_color), escape_xml(stroke_color), stroke_width));
+
+        match style.and_then(|s| s.class_name.as_ref()) {
+            Some(class) => svg.push_str(&format!(r#" class="node {}""#, escape_xml(class))),
+            None => svg.push_str(r#" class="node""#),
+        }
 
         // Add custom attributes
         if let Some(style) = style {
             if let Some(opacity) = style.opacity {
                 svg.push_str(&format!(r#" opacity="{}""#, opacity))
             }
-            if let Some(class) = &style.class_name {
-                svg.push_str(&format!(r#" class="node {}""#, escape_xml(class)))
-            }
             for (key, value) in &style.attributes {
                 svg.push_str(&format!(r#" {}="{}""#, key, escape_xml(value)))
             }
@@ -282,7 +284,12 @@ impl SvgRenderer {
             path_data.push_str(&format!(" L {} {}", point.x, point.y))
         }
 
-        svg.push_str(&format!(r#"    <path d="{}" stroke="{}" stroke-width="{}" fill="none" class="edge""#, path_data, escape_xml(stroke_color), stroke_width));
+        svg.push_str(&format!(r#"    <path d="{}" stroke="{}" stroke-width="{}" fill="none""#, path_data, escape_xml(stroke_color), stroke_width));
+
+        match style.and_then(|s| s.class_name.as_ref()) {
+            Some(class) => svg.push_str(&format!(r#" class="edge {}""#, escape_xml(class))),
+            None => svg.push_str(r#" class="edge""#),
+        }
 
         // Add arrow marker for directed edges
         if self.config.show_arrows {
@@ -294,9 +301,6 @@ impl SvgRenderer {
             if let Some(opacity) = style.opacity {
                 svg.push_str(&format!(r#" opacity="{}""#, opacity))
             }
-            if let Some(class) = &style.class_name {
-                svg.push_str(&format!(r#" class="edge {}""#, escape_xml(class)))
-            }
             for (key, value) in &style.attributes {
                 svg.push_str(&format!(r#" {}="{}""#, key, escape_xml(value)))
             }
-- 
2.43.0


From 4ba5de5d6b04bdb52f09aadca7329a349c55a9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 18/41] fix: layout engines dropped the labels and types of the
 nodes they placed

---
 projects/oak-visualize/src/layout/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projects/oak-visualize/src/layout/mod.rs b/projects/oak-visualize/src/layout/mod.rs
index 8729ca6..b47f926 100644
--- a/projects/oak-visualize/src/layout/mod.rs
+++ b/projects/oak-visualize/src/layout/mod.rs
@@ -221,8 +221,10 @@ impl LayoutEngine for HierarchicalLayout {
         };
 
         // Add nodes to layout
-        for (id, rect) in positioned_nodes {
-            layout.add_node(id, rect);
+        for node in nodes {
+            if let Some(rect) = positioned_nodes.get(&node.id) {
+                layout.add_node_with_metadata(node.id.clone(), node.label.clone(), *rect, node.node_type);
+            }
         }
 
         // Add edges with routing
@@ -347,7 +349,7 @@ impl LayoutEngine for ForceDirectedLayout {
         for node in nodes {
             if let Some(position) = positions.get(&node.id) {
                 let rect = Rect::new(Point::new(position.x - node.size.width / 2.0, position.y - node.size.height / 2.0), node.size);
-                layout.add_node(node.id.clone(), rect)
+                layout.add_node_with_metadata(node.id.clone(), node.label.clone(), rect, node.node_type)
             }
         }
 
-- 
2.43.0


From 30d5a4a2eb93f900e10e00ea11bb52396052f71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 19/41] fix: force-directed layout placed nodes with self-loops
 at NaN

---
 projects/oak-visualize/src/layout/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/projects/oak-visualize/src/layout/mod.rs b/projects/oak-visualize/src/layout/mod.rs
index b47f926..2a18db4 100644
--- a/projects/oak-visualize/src/layout/mod.rs
+++ b/projects/oak-visualize/src/layout/mod.rs
@@ -328,11 +328,14 @@ impl LayoutEngine for ForceDirectedLayout {
                     let distance = pos1.distance_to(pos2);
                     let ideal_length = config.horizontal_spacing;
                     let force_magnitude = self.spring_strength * (distance - ideal_length);
-                    let force_direction = Point::new(diff.x / distance, diff.y / distance);
-                    let force = Point::new(force_direction.x * force_magnitude, force_direction.y * force_magnitude);
 
-                    *forces.get_mut(&edge.from).unwrap() = *forces.get(&edge.from).unwrap() + force;
-                    *forces.get_mut(&edge.to).unwrap() = *forces.get(&edge.to).unwrap() - force
+                    if distance > 0.0 {
+                        let force_direction = Point::new(diff.x / distance, diff.y / distance);
+                        let force = Point::new(force_direction.x * force_magnitude, force_direction.y * force_magnitude);
+
+                        *forces.get_mut(&edge.from).unwrap() = *forces.get(&edge.from).unwrap() + force;
+                        *forces.get_mut(&edge.to).unwrap() = *forces.get(&edge.to).unwrap() - force
+                    }
                 }
             }
 
-- 
2.43.0


From b5a84e192726a794dde13382479b9f109d490a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 20/41] fix: hierarchical layout overflowed the stack or
 dropped nodes on cycles and panicked on unknown nodes

---
 projects/oak-visualize/src/layout/mod.rs | 31 ++++++++++++++++++++----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/projects/oak-visualize/src/layout/mod.rs b/projects/oak-visualize/src/layout/mod.rs
index 2a18db4..d3b8ad8 100644
--- a/projects/oak-visualize/src/layout/mod.rs
+++ b/projects/oak-visualize/src/layout/mod.rs
@@ -391,24 +391,45 @@ fn build_hierarchy(nodes: &[LayoutNode], edges: &[LayoutEdge]) -> crate::Result<
     let mut children_map: HashMap<String, Vec<String>> = HashMap::new();
     let mut has_parent: std::collections::HashSet<String> = std::collections::HashSet::new();
 
+    let known: std::collections::HashSet<&str> = nodes.iter().map(|node| node.id.as_str()).collect();
     for edge in edges {
-        children_map.entry(edge.from.clone()).or_default().push(edge.to.clone());
-        has_parent.insert(edge.to.clone());
+        // Edges to or from unknown nodes do not take part in the hierarchy
+        if known.contains(edge.from.as_str()) && known.contains(edge.to.as_str()) {
+            children_map.entry(edge.from.clone()).or_default().push(edge.to.clone());
+            has_parent.insert(edge.to.clone());
+        }
     }
 
     let mut roots = Vec::new();
+    let mut placed = std::collections::HashSet::new();
     for node in nodes {
         if !has_parent.contains(&node.id) {
-            roots.push(build_hierarchy_node(&node.id, nodes, &children_map))
+            roots.push(build_hierarchy_node(&node.id, nodes, &children_map, &mut Vec::new(), &mut placed))
+        }
+    }
+
+    // Nodes that can only be reached through a cycle start a hierarchy of their own
+    for node in nodes {
+        if !placed.contains(&node.id) {
+            roots.push(build_hierarchy_node(&node.id, nodes, &children_map, &mut Vec::new(), &mut placed))
         }
     }
 
     Ok(roots)
 }
 
-fn build_hierarchy_node(id: &str, nodes: &[LayoutNode], children_map: &HashMap<String, Vec<String>>) -> HierarchyNode {
+fn build_hierarchy_node(id: &str, nodes: &[LayoutNode], children_map: &HashMap<String, Vec<String>>, ancestors: &mut Vec<String>, placed: &mut std::collections::HashSet<String>) -> HierarchyNode {
     let node = nodes.iter().find(|n| n.id == id).unwrap();
-    let children = children_map.get(id).map(|child_ids| child_ids.iter().map(|child_id| build_hierarchy_node(child_id, nodes, children_map)).collect()).unwrap_or_default();
+    placed.insert(id.to_string());
+    ancestors.push(id.to_string());
+    let mut children = Vec::new();
+    for child_id in children_map.get(id).into_iter().flatten() {
+        // An edge back to an ancestor closes a cycle
+        if !ancestors.contains(child_id) {
+            children.push(build_hierarchy_node(child_id, nodes, children_map, ancestors, placed))
+        }
+    }
+    ancestors.pop();
 
     HierarchyNode { id: id.to_string(), children, size: node.size }
 }
-- 
2.43.0


From b1e795e48abcccb77276fde51f9dab3396a3f3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 21/41] fix: bottom-up and right-left layouts were laid out
 top-down and left-right

---
 projects/oak-visualize/src/layout/mod.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/projects/oak-visualize/src/layout/mod.rs b/projects/oak-visualize/src/layout/mod.rs
index d3b8ad8..f69f789 100644
--- a/projects/oak-visualize/src/layout/mod.rs
+++ b/projects/oak-visualize/src/layout/mod.rs
@@ -485,13 +485,25 @@ fn layout_node_left_right(node: &HierarchyNode, x: &mut f64, y: f64, config: &La
 }
 
 fn layout_bottom_up(hierarchy: &[HierarchyNode], config: &LayoutConfig) -> HashMap<String, Rect> {
-    // Similar to top_down but reversed
-    layout_top_down(hierarchy, config)
+    // Same as top_down, mirrored vertically
+    let mut positions = layout_top_down(hierarchy, config);
+    let bottom = positions.values().map(|rect| rect.max_y()).fold(0.0, f64::max);
+    for rect in positions.values_mut() {
+        rect.origin.y = bottom + config.margin - rect.max_y();
+    }
+
+    positions
 }
 
 fn layout_right_left(hierarchy: &[HierarchyNode], config: &LayoutConfig) -> HashMap<String, Rect> {
-    // Similar to left_right but reversed
-    layout_left_right(hierarchy, config)
+    // Same as left_right, mirrored horizontally
+    let mut positions = layout_left_right(hierarchy, config);
+    let right = positions.values().map(|rect| rect.max_x()).fold(0.0, f64::max);
+    for rect in positions.values_mut() {
+        rect.origin.x = right + config.margin - rect.max_x();
+    }
+
+    positions
 }
 
 fn route_edge(from_rect: &Rect, to_rect: &Rect, from_id: &str, to_id: &str, label: Option<String>) -> Edge {
-- 
2.43.0


From b589052bc3e9a2992010fb1e586fe0db9558afb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 22/41] fix: layered graph layout panicked on edges to unknown
 nodes

---
 projects/oak-visualize/src/graph/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/projects/oak-visualize/src/graph/mod.rs b/projects/oak-visualize/src/graph/mod.rs
index a7cbe15..4f5dffc 100644
--- a/projects/oak-visualize/src/graph/mod.rs
+++ b/projects/oak-visualize/src/graph/mod.rs
@@ -515,7 +515,12 @@ impl GraphLayout {
 
         // Calculate in-degrees
         for edge in &graph.edges {
-            *in_degree.get_mut(&edge.to).unwrap() += 1;
+            if !graph.nodes.contains_key(&edge.from) {
+                continue;
+            }
+            if let Some(degree) = in_degree.get_mut(&edge.to) {
+                *degree += 1;
+            }
         }
 
         // Process layers
-- 
2.43.0


From fc084547f13157c2fa41cab6e252518703189d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 23/41] fix: connectivity of directed graphs depended on hash
 order, and unknown nodes were counted

---
 projects/oak-visualize/src/graph/mod.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/projects/oak-visualize/src/graph/mod.rs b/projects/oak-visualize/src/graph/mod.rs
index 4f5dffc..2966bc7 100644
--- a/projects/oak-visualize/src/graph/mod.rs
+++ b/projects/oak-visualize/src/graph/mod.rs
@@ -143,9 +143,19 @@ impl Graph {
 
             visited.insert(node);
 
-            for neighbor in self.get_neighbors(node) {
-                if !visited.contains(neighbor) {
-                    stack.push(neighbor);
+            // Connectivity does not depend on the direction of the edges
+            for edge in &self.edges {
+                let neighbor = if edge.from == node {
+                    &edge.to
+                }
+                else if edge.to == node {
+                    &edge.from
+                }
+                else {
+                    continue;
+                };
+                if self.nodes.contains_key(neighbor) && !visited.contains(neighbor.as_str()) {
+                    stack.push(neighbor.as_str());
                 }
             }
         }
-- 
2.43.0


From f062967d625572404d7f824d044b1c31a2c4f892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 24/41] fix: every edge of an undirected graph was reported as
 a cycle

---
 projects/oak-visualize/src/graph/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/projects/oak-visualize/src/graph/mod.rs b/projects/oak-visualize/src/graph/mod.rs
index 2966bc7..d59961e 100644
--- a/projects/oak-visualize/src/graph/mod.rs
+++ b/projects/oak-visualize/src/graph/mod.rs
@@ -171,21 +171,26 @@ impl Graph {
 
         for node_id in self.nodes.keys() {
             if !visited.contains(node_id) {
-                self.dfs_cycles(node_id, &mut visited, &mut rec_stack, &mut path, &mut cycles);
+                self.dfs_cycles(node_id, None, &mut visited, &mut rec_stack, &mut path, &mut cycles);
             }
         }
 
         cycles
     }
 
-    fn dfs_cycles(&self, node: &str, visited: &mut HashSet<String>, rec_stack: &mut HashSet<String>, path: &mut Vec<String>, cycles: &mut Vec<Vec<String>>) {
+    fn dfs_cycles(&self, node: &str, mut parent: Option<&str>, visited: &mut HashSet<String>, rec_stack: &mut HashSet<String>, path: &mut Vec<String>, cycles: &mut Vec<Vec<String>>) {
         visited.insert(node.to_string());
         rec_stack.insert(node.to_string());
         path.push(node.to_string());
 
         for neighbor in self.get_neighbors(node) {
+            // The undirected edge that led here is no way back
+            if !self.directed && parent == Some(neighbor) {
+                parent = None;
+                continue;
+            }
             if !visited.contains(neighbor) {
-                self.dfs_cycles(neighbor, visited, rec_stack, path, cycles);
+                self.dfs_cycles(neighbor, Some(node), visited, rec_stack, path, cycles);
             }
             else if rec_stack.contains(neighbor) {
                 // Found a cycle
-- 
2.43.0


From dfda47118112d3e76b2898ec1fb82454584cc75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 25/41] fix: graph layouts dropped edge labels

---
 projects/oak-visualize/src/graph/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/projects/oak-visualize/src/graph/mod.rs b/projects/oak-visualize/src/graph/mod.rs
index d59961e..42de737 100644
--- a/projects/oak-visualize/src/graph/mod.rs
+++ b/projects/oak-visualize/src/graph/mod.rs
@@ -378,7 +378,8 @@ impl GraphLayout {
         // Add edges
         for edge in &graph.edges {
             if let (Some(from_node), Some(to_node)) = (layout.nodes.get(&edge.from), layout.nodes.get(&edge.to)) {
-                let layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                let mut layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                layout_edge.label = edge.label.clone();
                 layout.add_edge(layout_edge);
             }
         }
@@ -415,7 +416,8 @@ impl GraphLayout {
         // Add edges
         for edge in &graph.edges {
             if let (Some(from_node), Some(to_node)) = (layout.nodes.get(&edge.from), layout.nodes.get(&edge.to)) {
-                let layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                let mut layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                layout_edge.label = edge.label.clone();
                 layout.add_edge(layout_edge);
             }
         }
@@ -458,7 +460,8 @@ impl GraphLayout {
         // Add edges
         for edge in &graph.edges {
             if let (Some(from_node), Some(to_node)) = (layout.nodes.get(&edge.from), layout.nodes.get(&edge.to)) {
-                let layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                let mut layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                layout_edge.label = edge.label.clone();
                 layout.add_edge(layout_edge);
             }
         }
@@ -497,7 +500,8 @@ impl GraphLayout {
         // Add edges
         for edge in &graph.edges {
             if let (Some(from_node), Some(to_node)) = (layout.nodes.get(&edge.from), layout.nodes.get(&edge.to)) {
-                let layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                let mut layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                layout_edge.label = edge.label.clone();
                 layout.add_edge(layout_edge);
             }
         }
-- 
2.43.0


From 8823d7954b0c05aaae1ddba6e7362523a693863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 26/41] fix: edges of tree layouts had no points, so none was
 drawn

---
 projects/oak-visualize/src/tree/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projects/oak-visualize/src/tree/mod.rs b/projects/oak-visualize/src/tree/mod.rs
index 4337796..043bd4a 100644
--- a/projects/oak-visualize/src/tree/mod.rs
+++ b/projects/oak-visualize/src/tree/mod.rs
@@ -412,7 +412,10 @@ impl TreeLayout {
     /// Recursively add edges from the given node to all its descendants
     fn add_tree_edges(&self, node: &TreeNode, layout: &mut Layout) {
         for child in &node.children {
-            let edge = Edge::new(node.id.clone(), child.id.clone());
+            let mut edge = Edge::new(node.id.clone(), child.id.clone());
+            if let (Some(from_node), Some(to_node)) = (layout.nodes.get(&node.id), layout.nodes.get(&child.id)) {
+                edge.points = vec![from_node.rect.center(), to_node.rect.center()];
+            }
             layout.add_edge(edge);
 
             // Recursively add edges for children
-- 
2.43.0


From 53094c9240c37757ac718aedff71d679046ec357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 27/41] fix: layered tree layout overlapped siblings of
 different widths

---
 projects/oak-visualize/src/tree/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/oak-visualize/src/tree/mod.rs b/projects/oak-visualize/src/tree/mod.rs
index 043bd4a..43a0bca 100644
--- a/projects/oak-visualize/src/tree/mod.rs
+++ b/projects/oak-visualize/src/tree/mod.rs
@@ -186,7 +186,8 @@ impl TreeLayout {
 
         // Add nodes to layout
         for (id, (position, size, label, node_type)) in node_positions {
-            let rect = Rect::new(position, size);
+            // Positions are horizontal centers
+            let rect = Rect::new(Point::new(position.x - size.width / 2.0, position.y), size);
             let nt = match node_type.as_str() {
                 "function" => crate::layout::NodeType::Function,
                 "struct" => crate::layout::NodeType::Struct,
-- 
2.43.0


From c06ab86703ccf6c828c1da4e05b1f15b0bf8603d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:33 +0000
Subject: [PATCH 28/41] fix: compact tree layout overlapped nodes wider than
 their children

---
 projects/oak-visualize/src/tree/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/projects/oak-visualize/src/tree/mod.rs b/projects/oak-visualize/src/tree/mod.rs
index 43a0bca..156ac8d 100644
--- a/projects/oak-visualize/src/tree/mod.rs
+++ b/projects/oak-visualize/src/tree/mod.rs
@@ -363,7 +363,9 @@ impl TreeLayout {
     fn position_compact_node(&self, node: &TreeNode, x: f64, y: f64, level: usize) -> PositionedTreeNode {
         let size = self.get_node_size(node);
         let mut positioned_children = Vec::new();
-        let mut child_x = x;
+        let children_width = self.compact_children_width(node);
+        let subtree_width = size.width.max(children_width);
+        let mut child_x = x + (subtree_width - children_width) / 2.0;
 
         for child in &node.children {
             let positioned_child = self.position_compact_node(child, child_x, y + self.config.level_distance, level + 1);
@@ -371,14 +373,18 @@ impl TreeLayout {
             positioned_children.push(positioned_child);
         }
 
-        let subtree_width = if positioned_children.is_empty() { size.width } else { positioned_children.iter().map(|c| c.subtree_width).sum::<f64>() + (positioned_children.len() - 1) as f64 * self.config.sibling_distance };
-
         // Center the node over its children
         let node_x = if positioned_children.is_empty() { x } else { x + subtree_width / 2.0 - size.width / 2.0 };
 
         PositionedTreeNode { id: node.id.clone(), label: node.label.clone(), node_type: node.node_type.clone(), position: Point::new(node_x, y), size, subtree_width, children: positioned_children }
     }
 
+    /// Width of the subtrees below a node, side by side
+    fn compact_children_width(&self, node: &TreeNode) -> f64 {
+        let subtrees: f64 = node.children.iter().map(|child| self.get_node_size(child).width.max(self.compact_children_width(child))).sum();
+        subtrees + node.children.len().saturating_sub(1) as f64 * self.config.sibling_distance
+    }
+
     fn position_balloon_children(&self, children: &[TreeNode], center: Point, radius: f64, node_positions: &mut HashMap<String, (Point, Size, String, String)>) {
         if children.is_empty() {
             return;
-- 
2.43.0


From 2e2678cf969b82aca1852fd7330957fb1af2296d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 29/41] fix: try_parse kept the errors recorded in an abandoned
 attempt

---
 projects/oak-core/src/parser/state.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projects/oak-core/src/parser/state.rs b/projects/oak-core/src/parser/state.rs
index 674f4f2..09e0861 100644
--- a/projects/oak-core/src/parser/state.rs
+++ b/projects/oak-core/src/parser/state.rs
@@ -459,10 +459,12 @@ impl<'a, L: Language, S: Source + ?Sized> ParserState<'a, L, S> {
         F: FnOnce(&mut Self) -> Result<T, OakError>,
     {
         let checkpoint = self.checkpoint();
+        let recorded = self.errors.len();
         match parser(self) {
             Ok(value) => Ok(value),
             Err(err) => {
                 self.restore(checkpoint);
+                self.errors.truncate(recorded);
                 Err(err)
             }
         }
-- 
2.43.0


From 161d2fb7369b9bae79892729049eb7dadd47fe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:41 +0000
Subject: [PATCH 30/41] fix: relexing an emptied text reused the old tokens

A cached relex of a text that became empty took the reuse-everything path and kept
the end marker of the previous lex.
---
 projects/oak-core/src/lexer/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/projects/oak-core/src/lexer/mod.rs b/projects/oak-core/src/lexer/mod.rs
index c4f4726..bc30917 100644
--- a/projects/oak-core/src/lexer/mod.rs
+++ b/projects/oak-core/src/lexer/mod.rs
@@ -289,6 +289,11 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
         let len = source.length();
         let relex_from = relex_from.min(len);
 
+        // Everything may have changed, even if everything is an empty text.
+        if relex_from == 0 {
+            return Self { cursor: SourceCursor::new(source), tokens: vec![], errors: vec![] };
+        }
+
         // Fast path: fully re-used. Only sound if the cached tokens describe exactly this text:
         // after a truncation they extend past the end of the source.
         let count = cache.count_tokens();
@@ -310,10 +315,6 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
             return Self { cursor: SourceCursor::new_at(source, offset), tokens, errors: vec![] };
         }
 
-        if relex_from == 0 {
-            return Self { cursor: SourceCursor::new(source), tokens: vec![], errors: vec![] };
-        }
-
         let mut reused_tokens = Vec::new();
         const BACKTRACK_TOKENS: usize = 1;
 
-- 
2.43.0


From c28e2a86308250e799907d293dfdd946841b9ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:41 +0000
Subject: [PATCH 31/41] fix: relexing kept tokens whose lexer had looked at the
 edited text

A token's lexer may look several characters ahead: after "3." the digit of "3.5", after
".." the third dot. Relexing backed up by one token only and kept "3" next to ".5".
---
 projects/oak-core/src/lexer/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projects/oak-core/src/lexer/mod.rs b/projects/oak-core/src/lexer/mod.rs
index bc30917..94c088d 100644
--- a/projects/oak-core/src/lexer/mod.rs
+++ b/projects/oak-core/src/lexer/mod.rs
@@ -316,7 +316,9 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
         }
 
         let mut reused_tokens = Vec::new();
-        const BACKTRACK_TOKENS: usize = 1;
+        // A lexer may have looked at several of the following characters, such as the dots of `...`
+        // or the digit after the point of a number, before it settled on a token.
+        const BACKTRACK_TOKENS: usize = 8;
 
         if let Some(cached) = cache.get_tokens() {
             // Binary search for the cut-off point since tokens are sorted by position
-- 
2.43.0


From 46d092026cc8dd92850a94373aec46bdd112ea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:41 +0000
Subject: [PATCH 32/41] fix: LexerState::rest stopped at the end of the current
 chunk

It is documented to reach the end of the source. Lexers that match on it tokenised ropes
and chunked sources differently from strings.
---
 projects/oak-core/src/lexer/mod.rs         |  4 +--
 projects/oak-core/src/lexer/scan_string.rs |  2 +-
 projects/oak-core/src/source/cursor.rs     | 33 +++++++++++++++++++++-
 3 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/projects/oak-core/src/lexer/mod.rs b/projects/oak-core/src/lexer/mod.rs
index 94c088d..ff194e9 100644
--- a/projects/oak-core/src/lexer/mod.rs
+++ b/projects/oak-core/src/lexer/mod.rs
@@ -357,7 +357,7 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
     ///
     /// A string slice containing the remaining text
     pub fn rest(&mut self) -> &str {
-        self.cursor.rest()
+        self.cursor.rest_of_source()
     }
 
     /// Gets the remaining text as a byte slice.
@@ -365,7 +365,7 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
     /// Useful for byte-oriented scanning operations.
     #[inline]
     pub fn rest_bytes(&mut self) -> &[u8] {
-        self.cursor.rest().as_bytes()
+        self.cursor.rest_of_source().as_bytes()
     }
 
     /// Checks if the lexer has consumed all input from the source.
diff --git a/projects/oak-core/src/lexer/scan_string.rs b/projects/oak-core/src/lexer/scan_string.rs
index 11a8a01..c1f0d84 100644
--- a/projects/oak-core/src/lexer/scan_string.rs
+++ b/projects/oak-core/src/lexer/scan_string.rs
@@ -30,7 +30,7 @@ impl StringConfig {
 
             loop {
                 let (rest_len, found_info) = {
-                    let rest = state.rest();
+                    let rest = state.cursor.rest();
                     if rest.is_empty() {
                         (0, None)
                     }
diff --git a/projects/oak-core/src/source/cursor.rs b/projects/oak-core/src/source/cursor.rs
index 42a4a27..ec84dcc 100644
--- a/projects/oak-core/src/source/cursor.rs
+++ b/projects/oak-core/src/source/cursor.rs
@@ -21,6 +21,8 @@ pub struct SourceCursor<'s, S: Source + ?Sized> {
     offset: usize,
     chunk: TextChunk<'s>,
     scratch: String,
+    /// The text from some offset to the end of the source, when it spans several chunks.
+    tail: Option<(usize, String)>,
 }
 
 impl<'s, S: Source + ?Sized> fmt::Debug for SourceCursor<'s, S> {
@@ -40,7 +42,7 @@ impl<'s, S: Source + ?Sized> SourceCursor<'s, S> {
         let end = source.length();
         let offset = offset.min(end);
         let chunk = source.chunk_at(offset);
-        Self { source, offset, chunk, scratch: String::new() }
+        Self { source, offset, chunk, scratch: String::new(), tail: None }
     }
 
     /// Returns the current byte offset of the cursor.
@@ -83,6 +85,35 @@ impl<'s, S: Source + ?Sized> SourceCursor<'s, S> {
         self.chunk.slice_from(self.offset)
     }
 
+    /// Returns the remaining text up to the end of the source, across all chunks.
+    pub fn rest_of_source(&mut self) -> &str {
+        self.ensure_chunk();
+        let end = self.source.length();
+        if self.chunk.end() >= end {
+            return self.chunk.slice_from(self.offset);
+        }
+        let offset = self.offset;
+        if self.tail.as_ref().map_or(true, |(start, _)| *start > offset) {
+            let mut text = String::with_capacity(end - offset);
+            text.push_str(self.chunk.slice_from(offset));
+            let mut next = self.chunk.end();
+            while next < end {
+                let chunk = self.source.chunk_at(next);
+                let part = chunk.slice_from(next);
+                if part.is_empty() {
+                    break;
+                }
+                text.push_str(part);
+                next += part.len();
+            }
+            self.tail = Some((offset, text));
+        }
+        match &self.tail {
+            Some((start, text)) => text.get(offset - start..).unwrap_or(""),
+            None => "",
+        }
+    }
+
     /// Returns the end byte offset of the current chunk.
     pub fn chunk_end(&mut self) -> usize {
         self.ensure_chunk();
-- 
2.43.0


From 16ffb13d38927192b3ba343590fb517effa9ec8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:41 +0000
Subject: [PATCH 33/41] fix: trivia in front of the root was not in the tree

Creating the parser state skips leading trivia, so a root opened at the first checkpoint
did not contain it: the tree was shorter than the text and every offset was shifted.
---
 projects/oak-core/src/parser/state.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/projects/oak-core/src/parser/state.rs b/projects/oak-core/src/parser/state.rs
index 09e0861..93a8b10 100644
--- a/projects/oak-core/src/parser/state.rs
+++ b/projects/oak-core/src/parser/state.rs
@@ -632,9 +632,30 @@ impl<'a, L: Language, S: Source + ?Sized> ParserState<'a, L, S> {
 
     /// Finishes the parsing process and returns the final output.
     pub fn finish(self, result: Result<&'a GreenNode<'a, L>, OakError>) -> crate::parser::ParseOutput<'a, L> {
+        let result = result.map(|root| self.with_leading_trivia(root));
         crate::errors::OakDiagnostics { result, diagnostics: self.errors }
     }
 
+    /// Moves the trivia in front of the root into it: creating the state has already skipped it,
+    /// so a root that starts at the first checkpoint does not contain it. A tree some of whose tokens
+    /// have been dropped cannot be completed this way and is left alone.
+    fn with_leading_trivia(&self, root: &'a GreenNode<'a, L>) -> &'a GreenNode<'a, L> {
+        let children = &self.sink.children;
+        let leading = children.iter().take_while(|child| matches!(child, GreenTree::Leaf(leaf) if L::TokenType::is_ignored(&leaf.kind))).count();
+        match children.get(leading) {
+            Some(GreenTree::Node(node)) if leading > 0 && std::ptr::eq(*node, root) => {
+                let length: usize = children[..=leading].iter().map(|child| child.len() as usize).sum();
+                if length != self.current_offset() {
+                    return root;
+                }
+                let mut all = children[..leading].to_vec();
+                all.extend_from_slice(root.children);
+                self.sink.arena.alloc(GreenNode::new(root.kind, self.sink.arena.alloc_slice_copy(&all)))
+            }
+            _ => root,
+        }
+    }
+
     /// Wraps the parsing of a node with incremental reuse support.
     ///
     /// This method first attempts to reuse an existing node of the given kind from the previous tree.
-- 
2.43.0


From fe1d415914ecf5c47497c6432f857911e9dfd4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 34/41] fix: snapshots with floats failed after they were
 written and read again

---
 projects/oak-testing/src/building.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projects/oak-testing/src/building.rs b/projects/oak-testing/src/building.rs
index 9974ac5..727558c 100644
--- a/projects/oak-testing/src/building.rs
+++ b/projects/oak-testing/src/building.rs
@@ -182,6 +182,9 @@ impl BuilderTester {
                     if expected_file.exists() && !force_regenerated {
                         let expected_json = json_from_path(&expected_file)?;
                         let expected: BuilderTestExpected = serde_json::from_value(expected_json).map_err(|e| OakError::custom_error(e.to_string()))?;
+                        // Numbers may change when they are written and read again: compare what would be read back
+                        let json_val = serde_json::to_string(&test_result).map_err(|e| OakError::custom_error(e.to_string()))?;
+                        let test_result: BuilderTestExpected = serde_json::from_str(&json_val).map_err(|e| OakError::custom_error(e.to_string()))?;
                         if test_result != expected {
                             return Err(OakError::test_failure(file_path.to_path_buf(), format!("{:#?}", expected), format!("{:#?}", test_result)));
                         }
-- 
2.43.0


From 937a16da22e56efd340fc5af7249e1bbbe2016db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:32 +0000
Subject: [PATCH 35/41] fix: DiskWatcher::unwatch_all went on watching
 everything

---
 projects/oak-vfs/src/vfs/watch.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/projects/oak-vfs/src/vfs/watch.rs b/projects/oak-vfs/src/vfs/watch.rs
index 7d6f732..276cdfa 100644
--- a/projects/oak-vfs/src/vfs/watch.rs
+++ b/projects/oak-vfs/src/vfs/watch.rs
@@ -24,6 +24,8 @@ pub trait VfsWatcher {
 /// A watcher implementation that watches files on disk.
 pub struct DiskWatcher {
     watcher: notify::RecommendedWatcher,
+    /// The paths being watched.
+    watched: Vec<PathBuf>,
 }
 
 impl DiskWatcher {
@@ -48,20 +50,35 @@ impl DiskWatcher {
                 }
             }
         })?;
-        Ok(Self { watcher })
+        Ok(Self { watcher, watched: Vec::new() })
     }
 }
 
 impl VfsWatcher for DiskWatcher {
     fn watch(&mut self, uri: &str) -> Result<()> {
-        self.watcher.watch(PathBuf::from(uri).as_path(), RecursiveMode::Recursive)
+        let path = PathBuf::from(uri);
+        self.watcher.watch(&path, RecursiveMode::Recursive)?;
+        if !self.watched.contains(&path) {
+            self.watched.push(path)
+        }
+        Ok(())
     }
 
     fn unwatch(&mut self, uri: &str) -> Result<()> {
-        self.watcher.unwatch(PathBuf::from(uri).as_path())
+        let path = PathBuf::from(uri);
+        self.watched.retain(|watched| *watched != path);
+        self.watcher.unwatch(&path)
     }
 
     fn unwatch_all(&mut self) -> Result<()> {
-        Ok(())
+        let mut result = Ok(());
+        for path in std::mem::take(&mut self.watched) {
+            match self.watcher.unwatch(&path) {
+                // what has been removed from the disk is not watched any more
+                Ok(()) | Err(notify::Error { kind: notify::ErrorKind::WatchNotFound, .. }) => {}
+                Err(e) => result = Err(e),
+            }
+        }
+        result
     }
 }
-- 
2.43.0


From dd5fc7f2936ad8bb4db93eb2764d1b940744e39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:57 +0000
Subject: [PATCH 36/41] fix: parse_one_pass reused nodes parsed from an earlier
 text

It is documented to parse from scratch, but handed the session's previous
tree to the parser together with an empty list of edits, so that nodes were
reused although the text had changed.
---
 projects/oak-core/src/parser/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projects/oak-core/src/parser/mod.rs b/projects/oak-core/src/parser/mod.rs
index b74ec22..fce7792 100644
--- a/projects/oak-core/src/parser/mod.rs
+++ b/projects/oak-core/src/parser/mod.rs
@@ -67,6 +67,8 @@ where
     P: Parser<L>,
     S: Source + ?Sized,
 {
+    // Without edits nothing tells which parts of an earlier tree still hold for this text.
+    cache.set_reusable(false);
     parser.parse(text, &[], cache)
 }
 
-- 
2.43.0


From 534aa6ff87f1f30faf43efdcd6f86d7a63e9630b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:48 +0000
Subject: [PATCH 37/41] fix: a colour could end the HTML attribute it is
 written in

---
 projects/oak-highlight/src/exporters/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/oak-highlight/src/exporters/mod.rs b/projects/oak-highlight/src/exporters/mod.rs
index 57b1f9d..64e5653 100644
--- a/projects/oak-highlight/src/exporters/mod.rs
+++ b/projects/oak-highlight/src/exporters/mod.rs
@@ -96,11 +96,11 @@ impl HtmlExporter {
         let mut style_attrs = Vec::new();
 
         if let Some(color) = &segment.style.color {
-            style_attrs.push(format!("color: {}", color))
+            style_attrs.push(format!("color: {}", html_escape(color)))
         }
 
         if let Some(bg_color) = &segment.style.background_color {
-            style_attrs.push(format!("background-color: {}", bg_color))
+            style_attrs.push(format!("background-color: {}", html_escape(bg_color)))
         }
 
         if segment.style.bold {
-- 
2.43.0


From 96df5632d3a292942be024912cc16f843cf51a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:53 +0000
Subject: [PATCH 38/41] fix: a line that is not UTF-8 ended the MCP session

---
 projects/oak-mcp/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/projects/oak-mcp/src/lib.rs b/projects/oak-mcp/src/lib.rs
index 0e5bed3..23bb046 100644
--- a/projects/oak-mcp/src/lib.rs
+++ b/projects/oak-mcp/src/lib.rs
@@ -121,10 +121,11 @@ where
         R: tokio::io::AsyncBufRead + Unpin,
         W: tokio::io::AsyncWrite + Unpin,
     {
-        let mut line = String::new();
+        let mut line = Vec::new();
 
-        while reader.read_line(&mut line).await.map_err(|e| e.to_string())? > 0 {
-            let input = line.trim();
+        while reader.read_until(b'\n', &mut line).await.map_err(|e| e.to_string())? > 0 {
+            // A line that is not text is no message, but not the end of the session either.
+            let input = std::str::from_utf8(&line).unwrap_or_default().trim();
             if input.is_empty() {
                 line.clear();
                 continue;
-- 
2.43.0


From fd52cbbd400d71581cacc12d685d1c9a0bd79ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:45 +0000
Subject: [PATCH 39/41] fix: json! took an expression that begins with a number
 apart

In a list, `1 - x` was read as the number 1 and the element -x, and
`2 * x` as 2 and what x refers to: the value built silently had other
elements than were written. A literal is now taken alone only when it
is the whole element.
---
 projects/oak-macros/src/json.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/projects/oak-macros/src/json.rs b/projects/oak-macros/src/json.rs
index babaa06..23bbaa1 100644
--- a/projects/oak-macros/src/json.rs
+++ b/projects/oak-macros/src/json.rs
@@ -80,16 +80,19 @@ impl Parse for JsonExpr {
         else {
             // Check if it's a number literal or a complex expression
             let fork = input.fork();
-            if let Ok(Lit::Float(f)) = fork.parse::<Lit>() {
-                input.parse::<Lit>()?;
-                Ok(JsonExpr::Number(syn::parse_quote!(#f)))
-            }
-            else if let Ok(Lit::Int(i)) = fork.parse::<Lit>() {
-                input.parse::<Lit>()?;
-                Ok(JsonExpr::Number(syn::parse_quote!(#i)))
-            }
-            else {
-                Ok(JsonExpr::Expr(input.parse()?))
+            let literal = fork.parse::<Lit>();
+            // A literal that is followed by anything else begins an expression, such as `1 - x`.
+            let whole = fork.is_empty() || fork.peek(Token![,]);
+            match literal {
+                Ok(Lit::Float(f)) if whole => {
+                    input.parse::<Lit>()?;
+                    Ok(JsonExpr::Number(syn::parse_quote!(#f)))
+                }
+                Ok(Lit::Int(i)) if whole => {
+                    input.parse::<Lit>()?;
+                    Ok(JsonExpr::Number(syn::parse_quote!(#i)))
+                }
+                _ => Ok(JsonExpr::Expr(input.parse()?)),
             }
         }
     }
-- 
2.43.0


From 62b2c18433a3b47630de78dc81175ff302806da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:42 +0000
Subject: [PATCH 40/41] fix: reused nodes kept provenance of another arena

---
 projects/oak-core/src/parser/state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/oak-core/src/parser/state.rs b/projects/oak-core/src/parser/state.rs
index 93a8b10..02ade59 100644
--- a/projects/oak-core/src/parser/state.rs
+++ b/projects/oak-core/src/parser/state.rs
@@ -575,7 +575,8 @@ impl<'a, L: Language, S: Source + ?Sized> ParserState<'a, L, S> {
                         let mut leaves = Cursor::new(node);
                         while unchanged && leaves.step() {
                             if let GreenTree::Leaf(leaf) = leaves.current() {
-                                unchanged = same_token(leaf, consumed);
+                                // A provenance record stays behind in the old arena, with spans of the old text.
+                                unchanged = leaf.metadata.is_none() && same_token(leaf, consumed);
                                 consumed += 1
                             }
                         }
-- 
2.43.0


From 20291edb8afc75e359a36ff959d1e3996a2e233f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:27 +0000
Subject: [PATCH 41/41] fix: an insertion where a replacement starts was
 applied out of place

---
 projects/oak-core/src/source/rope.rs | 2 +-
 projects/oak-core/src/source/text.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/oak-core/src/source/rope.rs b/projects/oak-core/src/source/rope.rs
index 5904e52..2ea8e46 100644
--- a/projects/oak-core/src/source/rope.rs
+++ b/projects/oak-core/src/source/rope.rs
@@ -51,7 +51,7 @@ impl RopeBuffer {
         }
 
         let mut order: Vec<usize> = (0..edits.len()).collect();
-        order.sort_by_key(|&i| edits[i].span.start);
+        order.sort_by_key(|&i| (edits[i].span.start, edits[i].span.end));
 
         let mut reparse_from = old_len;
         let mut reparse_to = 0;
diff --git a/projects/oak-core/src/source/text.rs b/projects/oak-core/src/source/text.rs
index 8cfe25a..3b2ebdd 100644
--- a/projects/oak-core/src/source/text.rs
+++ b/projects/oak-core/src/source/text.rs
@@ -69,7 +69,7 @@ impl SourceText {
         }
 
         let mut order: Vec<usize> = (0..edits.len()).collect();
-        order.sort_by_key(|&i| edits[i].span.start);
+        order.sort_by_key(|&i| (edits[i].span.start, edits[i].span.end));
 
         let mut reparse_from = old_len;
         let mut reparse_to = 0;
-- 
2.43.0

