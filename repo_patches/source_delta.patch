From 8447bb3576f0d4c3297b35265bb3f8f35fa3f55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:24 +0000
Subject: [PATCH 01/19] fix: find patterns that cross multi-byte tails or
 several short chunks

SourceCursor::find_str sliced the kept tail at an arbitrary byte, so the tail was
dropped when that byte fell inside a multi-byte character, and it only looked one
chunk ahead, so a pattern spanning three or more chunks was never found.
---
 projects/oak-core/src/source/cursor.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/projects/oak-core/src/source/cursor.rs b/projects/oak-core/src/source/cursor.rs
index a550e28..68de3b3 100644
--- a/projects/oak-core/src/source/cursor.rs
+++ b/projects/oak-core/src/source/cursor.rs
@@ -437,11 +437,20 @@ impl<'s, S: Source + ?Sized> SourceCursor<'s, S> {
             if pat_len > 1 {
                 let keep = pat_len - 1;
                 self.scratch.clear();
-                let tail = text.get(text.len().saturating_sub(keep)..).unwrap_or("");
+                let mut tail_start = text.len().saturating_sub(keep);
+                while !text.is_char_boundary(tail_start) {
+                    tail_start += 1
+                }
+                let tail = &text[tail_start..];
                 self.scratch.push_str(tail);
                 let tail_abs_start = chunk_end.saturating_sub(tail.len());
-                let next_chunk = self.source.chunk_at(chunk_end);
-                self.scratch.push_str(next_chunk.text);
+                // The match may span several short chunks, so gather every byte it could still need.
+                let mut next = chunk_end;
+                while next < end && next - chunk_end < keep {
+                    let next_chunk = self.source.chunk_at(next);
+                    self.scratch.push_str(next_chunk.text);
+                    next = next_chunk.end()
+                }
                 if let Some(pos) = self.scratch.find(pattern) {
                     return Some(tail_abs_start + pos);
                 }
-- 
2.43.0


From d9d77d608b108e0466c92cf777f3fdfb044c635e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:50 +0000
Subject: [PATCH 02/19] fix: do not reuse cached tokens past the end of a
 document that was cut short

---
 projects/oak-core/src/lexer/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projects/oak-core/src/lexer/mod.rs b/projects/oak-core/src/lexer/mod.rs
index 0e17a44..e740d37 100644
--- a/projects/oak-core/src/lexer/mod.rs
+++ b/projects/oak-core/src/lexer/mod.rs
@@ -289,7 +289,7 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
         let len = source.length();
         let relex_from = relex_from.min(len);
 
-        // Fast path: fully re-used
+        // Fast path: fully re-used, unless the cached tokens describe a document that has since been cut short
         if relex_from >= len {
             let mut tokens = Vec::new();
             if let Some(cached) = cache.get_tokens() {
@@ -304,8 +304,10 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
                     }
                 }
             }
-            let offset = tokens.last().map(|t| t.span.end).unwrap_or(0).min(len);
-            return Self { cursor: SourceCursor::new_at(source, offset), tokens, errors: vec![] };
+            let end = tokens.last().map(|t| t.span.end).unwrap_or(0);
+            if end == len {
+                return Self { cursor: SourceCursor::new_at(source, end), tokens, errors: vec![] };
+            }
         }
 
         if relex_from == 0 {
-- 
2.43.0


From 04024e03323bcdbfd2e39d06f9dc833272099250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:28 +0000
Subject: [PATCH 03/19] fix: the end-of-input token of the old document is not
 reused when relexing

---
 projects/oak-core/src/lexer/mod.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/projects/oak-core/src/lexer/mod.rs b/projects/oak-core/src/lexer/mod.rs
index e740d37..f8330cb 100644
--- a/projects/oak-core/src/lexer/mod.rs
+++ b/projects/oak-core/src/lexer/mod.rs
@@ -209,6 +209,14 @@ impl<K> Token<K> {
     }
 }
 
+impl<K: TokenType> Token<K> {
+    /// Whether this is the empty token that marks the end of the input.
+    #[inline]
+    fn is_end(&self) -> bool {
+        self.kind == K::END_OF_STREAM && self.span.start == self.span.end
+    }
+}
+
 /// A stream of tokens with associated source text.
 #[derive(Debug, Clone)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
@@ -319,7 +327,8 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
 
         if let Some(cached) = cache.get_tokens() {
             // Binary search for the cut-off point since tokens are sorted by position
-            let idx = cached.partition_point(|t| t.span.end <= relex_from);
+            // (the end of the old document is no token of the new one)
+            let idx = cached.partition_point(|t| t.span.end <= relex_from && !t.is_end());
             let keep = idx.saturating_sub(BACKTRACK_TOKENS);
             if keep > 0 {
                 reused_tokens.extend_from_slice(&cached[..keep])
@@ -333,7 +342,7 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
                 else {
                     break;
                 };
-                if token.span.end <= relex_from {
+                if token.span.end <= relex_from && !token.is_end() {
                     reused_tokens.push(token);
                 }
                 else {
@@ -694,7 +703,10 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
     #[inline]
     pub fn add_eof(&mut self) {
         let end = self.get_position();
-        self.add_token(L::TokenType::END_OF_STREAM, end, end)
+        // Fully re-used tokens already include it
+        if self.tokens.last().is_none_or(|t| !t.is_end() || t.span.end != end) {
+            self.add_token(L::TokenType::END_OF_STREAM, end, end)
+        }
     }
 
     /// Gets the current character at the current position.
-- 
2.43.0


From 51cc1fbba39d79724c787045b2dc98b9e689169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 04/19] fix: keep the definitions other files give for a name
 when a file is updated

---
 projects/oak-resolver/src/lib.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/projects/oak-resolver/src/lib.rs b/projects/oak-resolver/src/lib.rs
index c811aba..5c9ac35 100644
--- a/projects/oak-resolver/src/lib.rs
+++ b/projects/oak-resolver/src/lib.rs
@@ -68,8 +68,8 @@ impl ModuleResolver for StandardResolver {
 pub struct GlobalSymbolTable {
     /// Map of URI to symbols defined in that file.
     file_symbols: DashMap<String, Vec<SymbolInformation>>,
-    /// Map of fully qualified name to symbol information.
-    qualified_symbols: DashMap<String, SymbolInformation>,
+    /// Map of fully qualified name to its definitions, each with the URI of the file it comes from.
+    qualified_symbols: DashMap<String, Vec<(String, SymbolInformation)>>,
 }
 
 impl GlobalSymbolTable {
@@ -84,14 +84,18 @@ impl GlobalSymbolTable {
         if let Some((_, old_symbols)) = self.file_symbols.remove(&uri) {
             for sym in old_symbols {
                 let fqn = self.make_qualified_name(&sym);
-                self.qualified_symbols.remove(&fqn);
+                // Definitions of the same name in other files stay
+                self.qualified_symbols.remove_if_mut(&fqn, |_, defs| {
+                    defs.retain(|(from, _)| *from != uri);
+                    defs.is_empty()
+                });
             }
         }
 
         // Add new symbols
         for sym in &symbols {
             let fqn = self.make_qualified_name(sym);
-            self.qualified_symbols.insert(fqn, sym.clone());
+            self.qualified_symbols.entry(fqn).or_default().push((uri.clone(), sym.clone()));
         }
         self.file_symbols.insert(uri, symbols);
     }
@@ -105,7 +109,7 @@ impl GlobalSymbolTable {
 
     /// Lookup a symbol by its fully qualified name.
     pub fn lookup(&self, fqn: &str) -> Option<SymbolInformation> {
-        self.qualified_symbols.get(fqn).map(|r| r.value().clone())
+        self.qualified_symbols.get(fqn).and_then(|r| r.value().last().map(|(_, sym)| sym.clone()))
     }
 
     /// Get all symbols defined in a specific file.
@@ -115,7 +119,7 @@ impl GlobalSymbolTable {
 
     /// Find all symbols matching a query (for workspace/symbol).
     pub fn query(&self, query: &str) -> Vec<SymbolInformation> {
-        self.qualified_symbols.iter().filter(|r| r.key().contains(query)).map(|r| r.value().clone()).collect()
+        self.qualified_symbols.iter().filter(|r| r.key().contains(query)).filter_map(|r| r.value().last().map(|(_, sym)| sym.clone())).collect()
     }
 }
 
-- 
2.43.0


From 48986e0ae42046143e521977e09ebec22948dd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 05/19] fix: the closest workspace folder is the one with the
 most path components

---
 projects/oak-lsp/src/workspace.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/oak-lsp/src/workspace.rs b/projects/oak-lsp/src/workspace.rs
index 81c70e4..b9406d4 100644
--- a/projects/oak-lsp/src/workspace.rs
+++ b/projects/oak-lsp/src/workspace.rs
@@ -83,7 +83,7 @@ impl WorkspaceManager {
             let folder_path = entry.value();
 
             if path.starts_with(folder_path) {
-                let len = folder_path.as_os_str().len();
+                let len = folder_path.components().count();
                 if best_match.as_ref().map_or(true, |(_, best_len)| len > *best_len) {
                     best_match = Some((folder_uri.clone(), len));
                 }
-- 
2.43.0


From eb2afa0328e7f914f9bc167da371d98de3b55a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 06/19] fix: reuse a subtree only if it is made of the tokens
 at its place

A reused node kept its old token kinds when an edit behind it changed
how its text is tokenised, could swallow the end marker, and left the
parser standing on trivia that a fresh parse takes into the node.
---
 projects/oak-core/src/parser/state.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/projects/oak-core/src/parser/state.rs b/projects/oak-core/src/parser/state.rs
index 28f3785..c431899 100644
--- a/projects/oak-core/src/parser/state.rs
+++ b/projects/oak-core/src/parser/state.rs
@@ -25,6 +25,25 @@ pub fn deep_clone_node<'a, L: Language>(node: &GreenNode<'_, L>, arena: &'a Synt
     arena.alloc(new_node)
 }
 
+/// Compares the leaves of a node with the tokens from `lookahead` on, kind by kind and length by length.
+///
+/// Returns the lookahead after the last leaf, or `None` if a leaf and a token differ.
+fn matching_tokens<L: Language>(node: &GreenNode<'_, L>, tokens: &TokenSource<L>, mut lookahead: usize) -> Option<usize> {
+    for child in node.children {
+        match child {
+            GreenTree::Node(n) => lookahead = matching_tokens(n, tokens, lookahead)?,
+            GreenTree::Leaf(l) => {
+                let token = tokens.peek_at(lookahead)?;
+                if token.kind != l.kind || token.length() != l.length as usize {
+                    return None;
+                }
+                lookahead += 1
+            }
+        }
+    }
+    Some(lookahead)
+}
+
 /// Provides tokens to the parser.
 pub struct TokenSource<L: Language> {
     tokens: Tokens<L>,
@@ -576,6 +595,14 @@ impl<'a, L: Language, S: Source + ?Sized> ParserState<'a, L, S> {
                                 if t.span.end == target_new_end {
                                     // Found the end!
                                     let tokens_consumed = lookahead + 1;
+                                    if matching_tokens(node, &self.tokens, 0) != Some(tokens_consumed) {
+                                        // Same extent, but not the tokens the node was made of
+                                        break;
+                                    }
+                                    if self.tokens.peek_at(tokens_consumed).is_some_and(|t| L::TokenType::is_ignored(&t.kind)) {
+                                        // A fresh parse takes the trivia behind its last token into the node
+                                        break;
+                                    }
                                     let new_node = deep_clone_node(node, self.sink.arena);
                                     self.sink.push_node(new_node);
                                     self.tokens.set_index(current_index + tokens_consumed);
-- 
2.43.0


From 3051ab51027e7eed653246981195550e8e93e2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 07/19] fix: reuse a subtree only if the token behind it is the
 one that was there

---
 projects/oak-core/src/parser/state.rs | 22 +++++++++++++++++++++-
 projects/oak-core/src/tree/cursor.rs  |  8 +++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/projects/oak-core/src/parser/state.rs b/projects/oak-core/src/parser/state.rs
index c431899..ed4625f 100644
--- a/projects/oak-core/src/parser/state.rs
+++ b/projects/oak-core/src/parser/state.rs
@@ -44,6 +44,19 @@ fn matching_tokens<L: Language>(node: &GreenNode<'_, L>, tokens: &TokenSource<L>
     Some(lookahead)
 }
 
+/// Returns the first leaf behind the element the cursor is at, if there is one.
+fn leaf_behind<'a, L: Language>(cursor: &Cursor<'a, L>) -> Option<GreenLeaf<L>> {
+    let mut cursor = cursor.clone();
+    let mut more = cursor.step_next();
+    while more {
+        if let GreenTree::Leaf(leaf) = cursor.current() {
+            return Some(leaf);
+        }
+        more = cursor.step()
+    }
+    None
+}
+
 /// Provides tokens to the parser.
 pub struct TokenSource<L: Language> {
     tokens: Tokens<L>,
@@ -599,8 +612,15 @@ impl<'a, L: Language, S: Source + ?Sized> ParserState<'a, L, S> {
                                         // Same extent, but not the tokens the node was made of
                                         break;
                                     }
-                                    if self.tokens.peek_at(tokens_consumed).is_some_and(|t| L::TokenType::is_ignored(&t.kind)) {
+                                    let same_follower = match (leaf_behind(&inc.cursor), self.tokens.peek_at(tokens_consumed)) {
                                         // A fresh parse takes the trivia behind its last token into the node
+                                        (Some(l), Some(t)) => t.kind == l.kind && t.length() == l.length as usize && !L::TokenType::is_ignored(&t.kind),
+                                        (None, Some(t)) => t.kind == L::TokenType::END_OF_STREAM,
+                                        (Some(_), None) => false,
+                                        (None, None) => true,
+                                    };
+                                    if !same_follower {
+                                        // The parser decides where a node ends by looking at the token behind it
                                         break;
                                     }
                                     let new_node = deep_clone_node(node, self.sink.arena);
diff --git a/projects/oak-core/src/tree/cursor.rs b/projects/oak-core/src/tree/cursor.rs
index 664be62..5696362 100644
--- a/projects/oak-core/src/tree/cursor.rs
+++ b/projects/oak-core/src/tree/cursor.rs
@@ -13,7 +13,7 @@ use crate::{
 ///
 /// It maintains a path from the root to the current node, allowing for
 /// `parent()` navigation and offset tracking.
-#[derive(Debug, Clone)]
+#[derive(Debug)]
 pub struct Cursor<'a, L: Language> {
     /// The current element (Node or Leaf).
     current: GreenTree<'a, L>,
@@ -24,6 +24,12 @@ pub struct Cursor<'a, L: Language> {
     stack: Vec<(&'a GreenNode<'a, L>, usize, usize)>,
 }
 
+impl<'a, L: Language> Clone for Cursor<'a, L> {
+    fn clone(&self) -> Self {
+        Self { current: self.current, offset: self.offset, stack: self.stack.clone() }
+    }
+}
+
 impl<'a, L: Language> Cursor<'a, L> {
     /// Creates a new cursor starting at the given root node.
     pub fn new(root: &'a GreenNode<'a, L>) -> Self {
-- 
2.43.0


From 206aecab889de7bcfc97b26eba62c9ee8bf80ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 08/19] fix: keep the arena of the last committed tree when a
 parse was abandoned

---
 projects/oak-core/src/parser/session.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/projects/oak-core/src/parser/session.rs b/projects/oak-core/src/parser/session.rs
index 5723601..b49dc53 100644
--- a/projects/oak-core/src/parser/session.rs
+++ b/projects/oak-core/src/parser/session.rs
@@ -35,6 +35,8 @@ pub struct ParseSession<L: Language + Send + Sync> {
     arena_old: Option<SyntaxArena>,
     /// Pointer to the root of the last parsed tree.
     last_root: Cell<Option<NonNull<()>>>,
+    /// Whether the last parsed tree lies in `arena_active` rather than in `arena_old`.
+    committed: Cell<bool>,
     /// Full output from the last lexing pass.
     last_lex: Option<LexOutput<L>>,
 }
@@ -51,7 +53,7 @@ impl<L: Language + Send + Sync> Default for ParseSession<L> {
 impl<L: Language + Send + Sync> ParseSession<L> {
     /// Creates a new parse session.
     pub fn new(capacity: usize) -> Self {
-        Self { arena_active: SyntaxArena::new(capacity), arena_old: None, last_root: Cell::new(None), last_lex: None }
+        Self { arena_active: SyntaxArena::new(capacity), arena_old: None, last_root: Cell::new(None), committed: Cell::new(false), last_lex: None }
     }
 
     /// Returns the root of the last parsed tree.
@@ -84,7 +86,11 @@ impl<L: Language + Send + Sync> ParseCache<L> for ParseSession<L> {
 
     fn prepare_generation(&mut self) {
         // 1. Move active to old. Oldest is dropped.
-        self.arena_old = Some(std::mem::replace(&mut self.arena_active, SyntaxArena::new(16)));
+        let active = std::mem::replace(&mut self.arena_active, SyntaxArena::new(16));
+        // A generation without a commit is dropped instead: last_root still points into arena_old.
+        if self.committed.replace(false) || self.last_root.get().is_none() {
+            self.arena_old = Some(active)
+        }
 
         // 2. last_root now correctly points into arena_old.
         // 3. Clear last lex output to force re-lexing for the new generation.
@@ -94,6 +100,7 @@ impl<L: Language + Send + Sync> ParseCache<L> for ParseSession<L> {
     fn commit_generation(&self, root: &GreenNode<L>) {
         // Safety: We cast to void pointer because ParseSession manages the lifetime.
         unsafe { self.last_root.set(Some(NonNull::new_unchecked(root as *const _ as *mut ()))) }
+        self.committed.set(true)
     }
 }
 
-- 
2.43.0


From 0d42bfa839e2452de89435d019996988fc28359c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:40 +0000
Subject: [PATCH 09/19] fix: free chunks the pool has no room for

---
 projects/oak-core/src/memory/arena.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/projects/oak-core/src/memory/arena.rs b/projects/oak-core/src/memory/arena.rs
index cf47615..f457279 100644
--- a/projects/oak-core/src/memory/arena.rs
+++ b/projects/oak-core/src/memory/arena.rs
@@ -325,18 +325,19 @@ impl SyntaxArena {
     unsafe fn recycle_chunk(ptr: NonNull<u8>, size: usize) {
         if size == CHUNK_SIZE {
             // Only pool standard-sized chunks to maintain predictability.
-            let _ = CHUNK_POOL.try_with(|pool| {
+            let pooled = CHUNK_POOL.try_with(|pool| {
                 let mut pool = pool.borrow_mut();
-                if pool.len() < 64 {
-                    // Hard limit to prevent memory bloating per thread.
+                // Hard limit to prevent memory bloating per thread.
+                let room = pool.len() < 64;
+                if room {
                     pool.push(ptr)
                 }
+                room
             });
-            // If try_with fails (e.g. during thread destruction), we just leak or dealloc?
-            // Since we can't access pool, we should dealloc.
-            // But try_with error usually means TLS is gone.
-            // We can check error kind. For simplicity, we just fallback to dealloc if pool is unreachable.
-            return;
+            // If try_with fails, the thread is being destroyed and the pool is unreachable.
+            if pooled.unwrap_or(false) {
+                return;
+            }
         }
         // If not pooled (either because it's a huge chunk or the pool is full/unreachable), deallocate immediately.
         let layout = Layout::from_size_align(size, ALIGN).unwrap();
-- 
2.43.0


From 12bf07a2e5407b5699457f9c29fbed765189ed4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:40 +0000
Subject: [PATCH 10/19] fix: free the pooled chunks of a thread when it ends

---
 projects/oak-core/src/memory/arena.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/projects/oak-core/src/memory/arena.rs b/projects/oak-core/src/memory/arena.rs
index f457279..c67845f 100644
--- a/projects/oak-core/src/memory/arena.rs
+++ b/projects/oak-core/src/memory/arena.rs
@@ -60,7 +60,19 @@ const ALIGN: usize = 8;
 // - **Automatic Cleanup:** All chunks are either recycled into this pool or freed when
 //   the `SyntaxArena` is dropped.
 thread_local! {
-    static CHUNK_POOL: RefCell<Vec<NonNull<u8>>> = RefCell::new(Vec::with_capacity(16))
+    static CHUNK_POOL: RefCell<ChunkPool> = RefCell::new(ChunkPool(Vec::with_capacity(16)))
+}
+
+/// The chunks of `CHUNK_POOL`, freed when the thread ends.
+struct ChunkPool(Vec<NonNull<u8>>);
+
+impl Drop for ChunkPool {
+    fn drop(&mut self) {
+        let layout = Layout::from_size_align(CHUNK_SIZE, ALIGN).unwrap();
+        for ptr in &self.0 {
+            unsafe { dealloc(ptr.as_ptr(), layout) }
+        }
+    }
 }
 
 /// A high-performance bump allocator optimized for AST nodes.
@@ -277,7 +289,7 @@ impl SyntaxArena {
     unsafe fn alloc_chunk(size: usize) -> NonNull<u8> {
         // Try to get from pool if size matches the standard chunk size.
         if size == CHUNK_SIZE {
-            let ptr = CHUNK_POOL.try_with(|pool| pool.borrow_mut().pop());
+            let ptr = CHUNK_POOL.try_with(|pool| pool.borrow_mut().0.pop());
 
             if let Ok(Some(ptr)) = ptr {
                 return ptr;
@@ -326,7 +338,7 @@ impl SyntaxArena {
         if size == CHUNK_SIZE {
             // Only pool standard-sized chunks to maintain predictability.
             let pooled = CHUNK_POOL.try_with(|pool| {
-                let mut pool = pool.borrow_mut();
+                let pool = &mut pool.borrow_mut().0;
                 // Hard limit to prevent memory bloating per thread.
                 let room = pool.len() < 64;
                 if room {
-- 
2.43.0


From d03f8af867d50c1365ceb4a6ba691f5a9dc6e2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:40 +0000
Subject: [PATCH 11/19] fix: keep token provenance in place when more is added

---
 projects/oak-core/src/memory/arena.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/projects/oak-core/src/memory/arena.rs b/projects/oak-core/src/memory/arena.rs
index c67845f..5ffa154 100644
--- a/projects/oak-core/src/memory/arena.rs
+++ b/projects/oak-core/src/memory/arena.rs
@@ -91,8 +91,8 @@ pub struct SyntaxArena {
     full_chunks: UnsafeCell<Vec<(NonNull<u8>, usize)>>,
     /// The start pointer of the current chunk (used for recycling/freeing).
     current_chunk_start: UnsafeCell<NonNull<u8>>,
-    /// Store for token provenance metadata.
-    metadata: UnsafeCell<Vec<TokenProvenance>>,
+    /// Store for token provenance metadata, boxed so that entries stay in place as more are added.
+    metadata: UnsafeCell<Vec<Box<TokenProvenance>>>,
 }
 
 impl SyntaxArena {
@@ -109,14 +109,14 @@ impl SyntaxArena {
     /// Stores a token provenance in the arena and returns its index.
     pub fn add_metadata(&self, provenance: TokenProvenance) -> std::num::NonZeroU32 {
         let metadata = unsafe { &mut *self.metadata.get() };
-        metadata.push(provenance);
+        metadata.push(Box::new(provenance));
         std::num::NonZeroU32::new(metadata.len() as u32).expect("Metadata index overflow")
     }
 
     /// Retrieves a token provenance by index.
     pub fn get_metadata(&self, index: std::num::NonZeroU32) -> Option<&TokenProvenance> {
         let metadata = unsafe { &*self.metadata.get() };
-        metadata.get(index.get() as usize - 1)
+        metadata.get(index.get() as usize - 1).map(|p| &**p)
     }
 
     /// Allocates a value of type `T` in the arena and moves `value` into it.
-- 
2.43.0


From 181e457294fc93f5cef6e3b1d9b5de1a254ad87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 12/19] fix: escape the diagnostic code in HTML output

---
 projects/oak-diagnostic/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/oak-diagnostic/src/lib.rs b/projects/oak-diagnostic/src/lib.rs
index b1dcc49..0539658 100644
--- a/projects/oak-diagnostic/src/lib.rs
+++ b/projects/oak-diagnostic/src/lib.rs
@@ -472,7 +472,7 @@ impl Emitter for HtmlEmitter {
         out.push_str("<div class=\"diagnostic\">\n");
         out.push_str(&format!("  <div class=\"header {}\">\n", sev_class));
         if let Some(code) = &diagnostic.code {
-            out.push_str(&format!("    <span class=\"code\">[{}]</span> <span class=\"message\">{}</span>\n", code, html_escape(&message)));
+            out.push_str(&format!("    <span class=\"code\">[{}]</span> <span class=\"message\">{}</span>\n", html_escape(code), html_escape(&message)));
         }
         else {
             out.push_str(&format!("    <span class=\"severity\">[{}]</span> <span class=\"message\">{}</span>\n", sev_class, html_escape(&message)));
-- 
2.43.0


From 234b2a4ff9703716e7a9f670a6982306cdba262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 13/19] fix: quote the empty last line in rendered diagnostics

---
 projects/oak-diagnostic/src/lib.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/projects/oak-diagnostic/src/lib.rs b/projects/oak-diagnostic/src/lib.rs
index 0539658..4fa4736 100644
--- a/projects/oak-diagnostic/src/lib.rs
+++ b/projects/oak-diagnostic/src/lib.rs
@@ -208,7 +208,7 @@ impl Emitter for ConsoleEmitter {
         let mut out = String::new();
         let line_map = LineMap::from_source(source);
         let full_text = source.get_text_in(core::range::Range { start: 0, end: source.length() }).into_owned();
-        let lines: Vec<&str> = full_text.lines().collect();
+        let lines = source_lines(&full_text);
 
         // 1. Header: [code] severity: message or [severity]: message
         let sev_name = match diagnostic.severity {
@@ -245,6 +245,15 @@ impl Emitter for ConsoleEmitter {
     }
 }
 
+/// Splits the text into lines as [LineMap] counts them: the text behind the last line feed is a line of its own, even if empty.
+fn source_lines(text: &str) -> Vec<&str> {
+    let mut lines: Vec<&str> = text.lines().collect();
+    if text.is_empty() || text.ends_with('\n') {
+        lines.push("")
+    }
+    lines
+}
+
 struct Characters {
     vbar: &'static str,
     hbar: &'static str,
@@ -353,7 +362,7 @@ impl Emitter for PlainTextEmitter {
         let mut out = String::new();
         let line_map = LineMap::from_source(source);
         let full_text = source.get_text_in(core::range::Range { start: 0, end: source.length() }).into_owned();
-        let lines: Vec<&str> = full_text.lines().collect();
+        let lines = source_lines(&full_text);
 
         // 1. Header: [code] severity: message or [severity]: message
         let sev_name = match diagnostic.severity {
@@ -460,7 +469,7 @@ impl Emitter for HtmlEmitter {
         let mut out = String::new();
         let line_map = LineMap::from_source(source);
         let full_text = source.get_text_in(core::range::Range { start: 0, end: source.length() }).into_owned();
-        let lines: Vec<&str> = full_text.lines().collect();
+        let lines = source_lines(&full_text);
         let sev_class = match diagnostic.severity {
             Severity::Error => "error",
             Severity::Warning => "warning",
-- 
2.43.0


From 3be27b3301ffbd8dad56917830aa4e54929e59a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 14/19] fix: end multi-line markers under the last character of
 the span

---
 projects/oak-diagnostic/src/lib.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/projects/oak-diagnostic/src/lib.rs b/projects/oak-diagnostic/src/lib.rs
index 4fa4736..7365a21 100644
--- a/projects/oak-diagnostic/src/lib.rs
+++ b/projects/oak-diagnostic/src/lib.rs
@@ -324,9 +324,7 @@ impl ConsoleEmitter {
                     else if i == end_line {
                         out.push_str(&format!("{:>width$} \x1b[34m{}\x1b[0m {}{}{} {}\n", line_num, chars.vbar, color, chars.vbar, "\x1b[0m", line_text, width = line_num_width));
 
-                        let underline_len = end_col.max(1);
-                        let underline = "^".repeat(underline_len);
-                        out.push_str(&format!("{} \x1b[34m{}\x1b[0m {}{}{}{}", padding, chars.vbar, color, chars.lbot, chars.hbar.repeat(end_col), underline));
+                        out.push_str(&format!("{} \x1b[34m{}\x1b[0m {}{}{}{}", padding, chars.vbar, color, chars.lbot, chars.hbar.repeat(end_col), "^"));
 
                         if let Some(msg) = &label.message {
                             out.push_str(&format!(" {}\x1b[0m\n", msg));
@@ -440,9 +438,7 @@ impl PlainTextEmitter {
                     else if i == end_line {
                         out.push_str(&format!("{:>width$} {} {}{}\n", line_num, chars.vbar, chars.vbar, line_text, width = line_num_width));
 
-                        let underline_len = end_col.max(1);
-                        let underline = "^".repeat(underline_len);
-                        out.push_str(&format!("{} {} {}{}{}", padding, chars.vbar, chars.lbot, chars.hbar.repeat(end_col), underline));
+                        out.push_str(&format!("{} {} {}{}{}", padding, chars.vbar, chars.lbot, chars.hbar.repeat(end_col.saturating_sub(1)), "^"));
 
                         if let Some(msg) = &label.message {
                             out.push_str(&format!(" {}\n", msg));
@@ -548,10 +544,8 @@ impl HtmlEmitter {
                     else if i == end_line {
                         out.push_str(&format!("<span class=\"line-num\">{: >width$}</span> <span class=\"vbar\">│</span> <span class=\"multiline\">│</span>{}\n", line_num, html_escape(line_text), width = line_num_width));
 
-                        let underline_len = end_col.max(1);
-                        let underline = "^".repeat(underline_len);
-                        out.push_str(&format!("<span class=\"padding\">{}</span> <span class=\"vbar\">│</span> <span class=\"multiline\">└</span><span class=\"underline\">{}</span>", padding, "─".repeat(end_col)));
-                        out.push_str(&format!("<span class=\"underline\">{}</span>", underline));
+                        out.push_str(&format!("<span class=\"padding\">{}</span> <span class=\"vbar\">│</span> <span class=\"multiline\">└</span><span class=\"underline\">{}</span>", padding, "─".repeat(end_col.saturating_sub(1))));
+                        out.push_str(&format!("<span class=\"underline\">{}</span>", "^"));
                         if let Some(msg) = &label.message {
                             out.push_str(&format!(" <span class=\"label-msg\">{}</span>", html_escape(msg)));
                         }
-- 
2.43.0


From 55dd71599f8495cbd670c901fe6052d3083e6b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 15/19] fix: make error labels cover the whole character at
 their offset

---
 projects/oak-diagnostic/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/projects/oak-diagnostic/src/lib.rs b/projects/oak-diagnostic/src/lib.rs
index 7365a21..acb49c2 100644
--- a/projects/oak-diagnostic/src/lib.rs
+++ b/projects/oak-diagnostic/src/lib.rs
@@ -138,27 +138,27 @@ impl DiagnosticProvider for OakError {
             OakErrorKind::IoError { .. } => {}
             OakErrorKind::SyntaxError { offset, .. } | OakErrorKind::UnexpectedCharacter { offset, .. } => {
                 let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
+                let end = start + source.get_char_at(start).map_or(0, char::len_utf8);
                 diag = diag.with_label(core::range::Range { start, end }, "here");
             }
             OakErrorKind::UnexpectedToken { token, offset, .. } => {
                 let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
+                let end = start + source.get_char_at(start).map_or(0, char::len_utf8);
                 diag = diag.with_label(core::range::Range { start, end }, "here").with_arg("token", token.clone());
             }
             OakErrorKind::ExpectedToken { expected, offset, .. } => {
                 let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
+                let end = start + source.get_char_at(start).map_or(0, char::len_utf8);
                 diag = diag.with_label(core::range::Range { start, end }, "here").with_arg("expected", expected.clone());
             }
             OakErrorKind::ExpectedName { name_kind, offset, .. } => {
                 let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
+                let end = start + source.get_char_at(start).map_or(0, char::len_utf8);
                 diag = diag.with_label(core::range::Range { start, end }, "here").with_arg("name_kind", name_kind.clone());
             }
             OakErrorKind::TrailingCommaNotAllowed { offset, .. } => {
                 let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
+                let end = start + source.get_char_at(start).map_or(0, char::len_utf8);
                 diag = diag.with_label(core::range::Range { start, end }, "here");
             }
             _ => {}
-- 
2.43.0


From 609af19abf495435db4f5f57098e8d3418f68159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:32 +0000
Subject: [PATCH 16/19] fix: keep the REPL cursor on character boundaries

---
 projects/oak-repl/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/projects/oak-repl/src/lib.rs b/projects/oak-repl/src/lib.rs
index e1004e0..5295263 100644
--- a/projects/oak-repl/src/lib.rs
+++ b/projects/oak-repl/src/lib.rs
@@ -104,9 +104,16 @@ impl LineBuffer {
         Self { lines: vec![String::new()], current_line: 0, cursor_pos: 0 }
     }
 
+    /// The byte offset of the cursor, whose position counts characters, within the current line.
+    fn cursor_offset(&self) -> usize {
+        let line = &self.lines[self.current_line];
+        line.char_indices().nth(self.cursor_pos).map_or(line.len(), |(offset, _)| offset)
+    }
+
     /// Insert a character at the current cursor position.
     pub fn insert(&mut self, ch: char) {
-        self.lines[self.current_line].insert(self.cursor_pos, ch);
+        let offset = self.cursor_offset();
+        self.lines[self.current_line].insert(offset, ch);
         self.cursor_pos += 1;
     }
 
@@ -114,7 +121,8 @@ impl LineBuffer {
     pub fn backspace(&mut self) -> bool {
         if self.cursor_pos > 0 {
             self.cursor_pos -= 1;
-            self.lines[self.current_line].remove(self.cursor_pos);
+            let offset = self.cursor_offset();
+            self.lines[self.current_line].remove(offset);
             true
         }
         else if self.current_line > 0 {
-- 
2.43.0


From 134605158eea9096df68a6ac3273788b4d956f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:32 +0000
Subject: [PATCH 17/19] fix: serve every tool the MCP server lists

---
 projects/oak-mcp/src/lib.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/projects/oak-mcp/src/lib.rs b/projects/oak-mcp/src/lib.rs
index d185f11..e27442a 100644
--- a/projects/oak-mcp/src/lib.rs
+++ b/projects/oak-mcp/src/lib.rs
@@ -8,6 +8,7 @@
 
 use oak_core::Range;
 use oak_lsp::service::LanguageService;
+use oak_vfs::WritableVfs;
 use serde::{Deserialize, Serialize};
 use serde_json::{Value as JsonValue, json};
 use std::sync::Arc;
@@ -214,8 +215,10 @@ where
     ///
     /// Currently supports:
     /// - `hover`: Get hover information for a position.
-    /// - `definitions`: Get definitions for a symbol at a position.
-    /// - `search`: Perform semantic search (if searcher is available).
+    /// - `symbols`, `diagnostics`: Query a file.
+    /// - `definition`, `references`, `completion`: Query a position.
+    /// - `set_file_content`: Update or create a file.
+    /// - `search`, `semantic_search`: Perform semantic search (if searcher is available).
     pub async fn handle_tool_call(&self, name: &str, args: JsonValue) -> Result<JsonValue, String> {
         match name {
             "hover" => {
@@ -257,7 +260,14 @@ where
                 let _items = self.service.completion(uri, offset).await;
                 Ok(json!([]))
             }
-            "semantic_search" => {
+            "set_file_content" => {
+                let uri = args.get("uri").and_then(|v| v.as_str()).ok_or("Missing uri")?;
+                let content = args.get("content").and_then(|v| v.as_str()).ok_or("Missing content")?;
+
+                self.service.vfs().write_file(uri, content.into());
+                Ok(json!(null))
+            }
+            "search" | "semantic_search" => {
                 let searcher = self.searcher.as_ref().ok_or("Semantic search is not enabled")?;
                 let query = args.get("query").and_then(|v| v.as_str()).ok_or("Missing query")?;
                 let limit = args.get("limit").and_then(|v| v.as_u64()).unwrap_or(5) as usize;
-- 
2.43.0


From e524270c83ba43a4d7ea0b06284c00bcd81b6673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:17 +0000
Subject: [PATCH 18/19] fix: give the diagnostic of an unexpected end of file
 its place

---
 projects/oak-diagnostic/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/oak-diagnostic/src/lib.rs b/projects/oak-diagnostic/src/lib.rs
index acb49c2..bacdd0b 100644
--- a/projects/oak-diagnostic/src/lib.rs
+++ b/projects/oak-diagnostic/src/lib.rs
@@ -136,7 +136,7 @@ impl DiagnosticProvider for OakError {
 
         match kind {
             OakErrorKind::IoError { .. } => {}
-            OakErrorKind::SyntaxError { offset, .. } | OakErrorKind::UnexpectedCharacter { offset, .. } => {
+            OakErrorKind::SyntaxError { offset, .. } | OakErrorKind::UnexpectedCharacter { offset, .. } | OakErrorKind::UnexpectedEof { offset, .. } => {
                 let start = (*offset).min(source.length());
                 let end = start + source.get_char_at(start).map_or(0, char::len_utf8);
                 diag = diag.with_label(core::range::Range { start, end }, "here");
-- 
2.43.0


From cd95802ed2ea30791b097cc58a5c9cdd82d977ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:17 +0000
Subject: [PATCH 19/19] fix: attach a source id to errors about an unexpected
 end of file

---
 projects/oak-core/src/errors/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/oak-core/src/errors/mod.rs b/projects/oak-core/src/errors/mod.rs
index 5f5bef3..5bb09da 100644
--- a/projects/oak-core/src/errors/mod.rs
+++ b/projects/oak-core/src/errors/mod.rs
@@ -471,6 +471,7 @@ impl OakError {
             OakErrorKind::SyntaxError { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::UnexpectedCharacter { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::UnexpectedToken { source_id: u, .. } => *u = Some(source_id),
+            OakErrorKind::UnexpectedEof { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::ExpectedToken { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::ExpectedName { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::TrailingCommaNotAllowed { source_id: u, .. } => *u = Some(source_id),
-- 
2.43.0

