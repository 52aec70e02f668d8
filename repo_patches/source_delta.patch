From 2f1df014db4f7b006053234edb18102f0154bf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:44 +0000
Subject: [PATCH 01/21] fix: do not hold the document lock while the client
 displays a graph

visualize-cfg kept the DashMap guard of the document alive across the
showDot request. A change of the same document arriving before the client's
reply blocked the only server task on that lock, so the reply could never be
processed: the server deadlocked.
---
 src/main.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 50c5aea..ad416ba 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -661,27 +661,27 @@ impl LanguageServer for Backend {
     async fn execute_command(&self, params: ExecuteCommandParams) -> Result<Option<Value>> {
         match (params.command.as_str(), &params.arguments[..]) {
             ("visualize-cfg", [Value::String(doc_uri), Value::String(func_name)]) => {
-                let index = &self
-                    .document_map
-                    .get(doc_uri)
-                    .ok_or_else(|| Error {
+                // The lock on the document must not be held while waiting for the client.
+                // Otherwise, concurrent changes of the document would deadlock the server.
+                let dot_graph = {
+                    let doc = self.document_map.get(doc_uri).ok_or_else(|| Error {
                         code: ErrorCode::InvalidParams,
                         message: format!("document `{}` not found", doc_uri).into(),
                         data: None,
-                    })?
-                    .index;
-                let func_body = index
-                    .function_bodies
-                    .iter()
-                    .find(|b| b.name.0 == *func_name)
-                    .ok_or_else(|| Error {
-                        code: ErrorCode::InvalidParams,
-                        message: format!("function `{}` not found", func_name).into(),
-                        data: None,
                     })?;
-
+                    let func_body = doc
+                        .index
+                        .function_bodies
+                        .iter()
+                        .find(|b| b.name.0 == *func_name)
+                        .ok_or_else(|| Error {
+                            code: ErrorCode::InvalidParams,
+                            message: format!("function `{}` not found", func_name).into(),
+                            data: None,
+                        })?;
+                    create_cfg_dot_visualization(func_body)
+                };
                 let title = format!("CFG for {}", func_name);
-                let dot_graph = create_cfg_dot_visualization(func_body);
 
                 // Make this dependent on a client setting / client capability
                 // since it reuqires additional client-siye collabolation
-- 
2.43.0


From 694c7639430ff811956736c45c41441c2b32eca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:07 +0000
Subject: [PATCH 02/21] fix: apply the last content change of a didChange
 notification

The first content change was used, although the last one determines the
text, and an empty list of changes crashed the server.
---
 src/main.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index ad416ba..aaaa19c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -170,12 +170,16 @@ impl LanguageServer for Backend {
     }
 
     async fn did_change(&self, mut params: DidChangeTextDocumentParams) {
-        self.on_change(TextDocumentItem {
-            uri: params.text_document.uri,
-            text: std::mem::take(&mut params.content_changes[0].text),
-            version: params.text_document.version,
-        })
-        .await
+        // We are using full syncs, i.e. every change contains the complete document.
+        // The changes are applied in order, i.e. the last one determines the final text.
+        if let Some(change) = params.content_changes.pop() {
+            self.on_change(TextDocumentItem {
+                uri: params.text_document.uri,
+                text: change.text,
+                version: params.text_document.version,
+            })
+            .await
+        }
     }
 
     async fn goto_definition(
-- 
2.43.0


From 292db7870b0758bd27e077c58df239c157463dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:31 +0000
Subject: [PATCH 03/21] fix: map between char offsets and LSP positions in
 UTF-16 code units

The spans of the tokenizer are char offsets, but were interpreted as byte
offsets, and columns were counted in chars instead of UTF-16 code units. Hence,
all positions after a non-ASCII character were wrong. Also, positions beyond
the end of a line ended up in the following lines, and separators like
form feeds were counted as line breaks.
---
 src/lsp_utils.rs | 32 +++++++++++++++++++++++++++-----
 src/main.rs      |  6 +++---
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/lsp_utils.rs b/src/lsp_utils.rs
index b693ff6..45800f3 100644
--- a/src/lsp_utils.rs
+++ b/src/lsp_utils.rs
@@ -1,17 +1,39 @@
-use ropey::Rope;
+use ropey::{Rope, RopeSlice};
 use tower_lsp::lsp_types::{Position, Range};
 
 use crate::hir_tokenizer::Span;
 
+/// Creates a rope which is split into lines as specified by LSP, i.e. at `\n`, `\r\n` and `\r`.
+/// Ropey recognizes additional line breaks. We hide them behind characters of the same width,
+/// since the rope is used only to map between offsets and positions.
+pub fn create_rope(text: &str) -> Rope {
+    let non_lsp_line_breaks = ['\u{B}', '\u{C}', '\u{85}', '\u{2028}', '\u{2029}'];
+    Rope::from_str(&text.replace(non_lsp_line_breaks, " "))
+}
+
+/// The contents of a line, without its line break
+pub fn get_line_content(rope: &Rope, line: usize) -> Option<RopeSlice> {
+    let content = rope.get_line(line)?;
+    let mut len = content.len_chars();
+    while len > 0 && matches!(content.char(len - 1), '\n' | '\r') {
+        len -= 1;
+    }
+    Some(content.slice(..len))
+}
+
+/// Converts a LSP position (line, UTF-16 code unit) to a char offset.
+/// Characters beyond the end of the line are mapped to the end of the line.
 pub fn lsp_pos_to_offset(rope: &Rope, pos: &Position) -> Option<usize> {
-    let char = rope.try_line_to_char(pos.line as usize).ok()?;
-    Some(char + pos.character as usize)
+    let line = get_line_content(rope, pos.line as usize)?;
+    let character = (pos.character as usize).min(line.len_utf16_cu());
+    Some(rope.line_to_char(pos.line as usize) + line.utf16_cu_to_char(character))
 }
 
+/// Converts a char offset to a LSP position (line, UTF-16 code unit)
 pub fn offset_to_lsp_pos(rope: &Rope, pos: usize) -> Option<Position> {
-    let line = rope.try_byte_to_line(pos).ok()?;
+    let line = rope.try_char_to_line(pos).ok()?;
     let first = rope.try_line_to_char(line).ok()?;
-    let character = rope.try_byte_to_char(pos).ok()? - first;
+    let character = rope.char_to_utf16_cu(pos) - rope.char_to_utf16_cu(first);
     Some(Position {
         line: line.try_into().ok()?,
         character: character.try_into().ok()?,
diff --git a/src/main.rs b/src/main.rs
index aaaa19c..8431ac6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -12,7 +12,7 @@ use hyper_ir_lsp::diagnostics::{
 };
 use hyper_ir_lsp::hir_index::{create_index, HIRIndex, SymbolOccurrence, UseDefKind, UseDefList};
 use hyper_ir_lsp::hir_parser::{parse_from_str, BasicBlock, Instruction, ParserResult, Statement};
-use hyper_ir_lsp::lsp_utils::{lsp_pos_to_offset, offset_to_lsp_pos, range_to_lsp};
+use hyper_ir_lsp::lsp_utils::{create_rope, lsp_pos_to_offset, offset_to_lsp_pos, range_to_lsp};
 use hyper_ir_lsp::rename::{extract_number_from_identifier, get_rename_edits, get_shift_edits};
 use hyper_ir_lsp::semantic_token::{
     convert_to_lsp_tokens, semantic_tokens_from_tokens, HIRSemanticToken, LEGEND_TYPE,
@@ -737,8 +737,8 @@ struct TextDocumentItem {
 
 impl Backend {
     async fn on_change(&self, params: TextDocumentItem) {
-        let rope = ropey::Rope::from_str(&params.text);
-        let src = rope.to_string();
+        let rope = create_rope(&params.text);
+        let src = params.text;
 
         let ParserResult {
             tokens,
-- 
2.43.0


From 4da88b34488afb61d677404b5809cbe7249f802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:40 +0000
Subject: [PATCH 04/21] fix: compute semantic tokens in UTF-16 code units and
 split them at line breaks

The length of a token was given in chars, its position was computed from
byte offsets, and strings spanning multiple lines were emitted as a single
token, which is not allowed by LSP.
---
 src/semantic_token.rs | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/semantic_token.rs b/src/semantic_token.rs
index f082033..37507d4 100644
--- a/src/semantic_token.rs
+++ b/src/semantic_token.rs
@@ -1,7 +1,10 @@
 use ropey::Rope;
 use tower_lsp::lsp_types::{SemanticToken, SemanticTokenType};
 
-use crate::hir_tokenizer::{Span, Token};
+use crate::{
+    hir_tokenizer::{Span, Token},
+    lsp_utils::{get_line_content, range_to_lsp},
+};
 
 pub const LEGEND_TYPE: &[SemanticTokenType] = &[
     SemanticTokenType::COMMENT,
@@ -57,29 +60,43 @@ pub fn semantic_tokens_from_tokens(tokens: &[(Token, Span)]) -> Vec<HIRSemanticT
 pub fn convert_to_lsp_tokens(rope: &Rope, semtoks: &[HIRSemanticToken]) -> Vec<SemanticToken> {
     let mut pre_line = 0;
     let mut pre_start = 0;
-    let lsp_tokens = semtoks
-        .iter()
-        .filter_map(|token| {
-            let line = rope.try_byte_to_line(token.start).ok()? as u32;
-            let first = rope.try_line_to_char(line as usize).ok()? as u32;
-            let start = rope.try_byte_to_char(token.start).ok()? as u32 - first;
+    let mut lsp_tokens = Vec::with_capacity(semtoks.len());
+    for token in semtoks {
+        let span = token.start..token.start + token.length;
+        let Some(range) = range_to_lsp(rope, &span) else {
+            continue;
+        };
+        // LSP tokens must not span multiple lines. Emit one token per line instead.
+        for line in range.start.line..=range.end.line {
+            let start = if line == range.start.line {
+                range.start.character
+            } else {
+                0
+            };
+            let end = if line == range.end.line {
+                range.end.character
+            } else {
+                get_line_content(rope, line as usize).map_or(0, |l| l.len_utf16_cu() as u32)
+            };
+            if start >= end {
+                continue;
+            }
             let delta_line = line - pre_line;
             let delta_start = if delta_line == 0 {
                 start - pre_start
             } else {
                 start
             };
-            let ret = Some(SemanticToken {
+            lsp_tokens.push(SemanticToken {
                 delta_line,
                 delta_start,
-                length: token.length as u32,
+                length: end - start,
                 token_type: token.token_type as u32,
                 token_modifiers_bitset: 0,
             });
             pre_line = line;
             pre_start = start;
-            ret
-        })
-        .collect::<Vec<_>>();
+        }
+    }
     lsp_tokens
 }
-- 
2.43.0


From b675b14fba2b60f1977e8f2dfd4424faa8913008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:07 +0000
Subject: [PATCH 05/21] fix: do not consider the carriage return of a CRLF as
 part of a comment

---
 src/hir_tokenizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hir_tokenizer.rs b/src/hir_tokenizer.rs
index 9761e3e..7ba8bea 100644
--- a/src/hir_tokenizer.rs
+++ b/src/hir_tokenizer.rs
@@ -53,7 +53,9 @@ pub fn tokenizer() -> impl Parser<char, Vec<Spanned<Token>>, Error = Simple<char
 
     // A comment parser
     let comment = just('#')
-        .chain(take_until(just('\n').or(end().to('\n')).rewind()))
+        .chain(take_until(
+            newline.clone().to('\n').or(end().to('\n')).rewind(),
+        ))
         .to(Token::Comment);
 
     // A parser for hex numbers
-- 
2.43.0


From 6044873559553961e7a4921ce073ec9bdcb1541c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:44 +0000
Subject: [PATCH 06/21] fix: do not include skipped characters in the span of
 the following token

---
 src/hir_tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hir_tokenizer.rs b/src/hir_tokenizer.rs
index 7ba8bea..3623aff 100644
--- a/src/hir_tokenizer.rs
+++ b/src/hir_tokenizer.rs
@@ -140,10 +140,10 @@ pub fn tokenizer() -> impl Parser<char, Vec<Spanned<Token>>, Error = Simple<char
         debugref,
         newline,
     ))
+    .map_with_span(|tok, span| (tok, span))
     .recover_with(skip_then_retry_until([]));
 
     token
-        .map_with_span(|tok, span| (tok, span))
         .padded_by(one_of(" \t").repeated())
         .repeated()
         .then_ignore(end())
-- 
2.43.0


From 40f17de294e39c23a1ec6bf4ea3a13467448809d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:44 +0000
Subject: [PATCH 07/21] fix: keep the remaining document usable if the last
 line is malformed or blank

---
 src/hir_parser.rs    | 4 +++-
 src/hir_tokenizer.rs | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/hir_parser.rs b/src/hir_parser.rs
index 41d06c7..0399b06 100644
--- a/src/hir_parser.rs
+++ b/src/hir_parser.rs
@@ -423,7 +423,9 @@ pub fn parser() -> impl Parser<Token, Vec<Statement>, Error = Simple<Token>> + C
         .padded_by(just(Token::Newline).repeated())
         .recover_with(skip_then_retry_until([]))
         .repeated()
-        .then_ignore(end())
+        .then_ignore(just(Token::Newline).repeated())
+        // Unknown tokens at the end of the document must not discard the other statements
+        .then_ignore(end().recover_with(skip_parser(any().repeated().ignored())))
 }
 
 pub struct ParserResult {
diff --git a/src/hir_tokenizer.rs b/src/hir_tokenizer.rs
index 3623aff..3252c99 100644
--- a/src/hir_tokenizer.rs
+++ b/src/hir_tokenizer.rs
@@ -143,10 +143,14 @@ pub fn tokenizer() -> impl Parser<char, Vec<Spanned<Token>>, Error = Simple<char
     .map_with_span(|tok, span| (tok, span))
     .recover_with(skip_then_retry_until([]));
 
+    let whitespace = one_of(" \t").repeated();
+
     token
-        .padded_by(one_of(" \t").repeated())
+        .padded_by(whitespace.clone())
         .repeated()
-        .then_ignore(end())
+        .then_ignore(whitespace)
+        // Unknown characters at the end of the document must not discard the other tokens
+        .then_ignore(end().recover_with(skip_parser(any().repeated().ignored())))
 }
 
 #[test]
-- 
2.43.0


From 2f951b448cfffdc39c499bfe241097db7c1c0a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:44 +0000
Subject: [PATCH 08/21] fix: report syntax errors at the end of the document

---
 src/hir_parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hir_parser.rs b/src/hir_parser.rs
index 0399b06..41f8c8e 100644
--- a/src/hir_parser.rs
+++ b/src/hir_parser.rs
@@ -440,9 +440,9 @@ pub fn parse_from_str(src: &str) -> ParserResult {
 
     // Parse
     let (stmts, parse_errs) = if let Some(tokens) = tokens.as_ref() {
-        let strlen = src.len();
+        let end_of_input = src.chars().count();
         parser().parse_recovery(Stream::from_iter(
-            strlen..strlen + 1,
+            end_of_input..end_of_input,
             // TODO: can we somehow avoid this copy?
             tokens.clone().into_iter().filter(|t| t.0 != Token::Comment),
         ))
-- 
2.43.0


From 8daba41edd29f1ec4ff286a09291a28b83df54f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:36 +0000
Subject: [PATCH 09/21] fix: extract the value of debug annotations in
 documents with non-ASCII characters

---
 src/hir_index.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/hir_index.rs b/src/hir_index.rs
index d3246e7..3f7c9af 100644
--- a/src/hir_index.rs
+++ b/src/hir_index.rs
@@ -195,6 +195,13 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
         ..Default::default()
     };
 
+    // Maps char offsets to byte offsets
+    let byte_offsets = src
+        .char_indices()
+        .map(|(byte_offset, _)| byte_offset)
+        .chain(std::iter::once(src.len()))
+        .collect::<Vec<_>>();
+
     // Index all definitions / declarations based on the actual parse tree
     let mut unresolved_function_dbgrefs: HashMap<String, String> = Default::default();
     for s in stmts.iter() {
@@ -214,8 +221,8 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
             Statement::DbgAnnotation { name, def } => {
                 index.add_global_spanned(SymbolKind::DbgAnnotation, UseDefKind::Def, name);
                 if !def.is_empty() {
-                    let start = def.first().unwrap().1.start;
-                    let end = def.last().unwrap().1.end;
+                    let start = byte_offsets[def.first().unwrap().1.start];
+                    let end = byte_offsets[def.last().unwrap().1.end];
                     let value = &src[start..end];
                     index
                         .dgb_annotation_values
-- 
2.43.0


From f2ab4051f72b95064bef3896a17ea02ff683c6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:43 +0000
Subject: [PATCH 10/21] fix: extract the number of identifiers with non-ASCII
 characters

---
 src/rename.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/rename.rs b/src/rename.rs
index 558d253..d6a65d8 100644
--- a/src/rename.rs
+++ b/src/rename.rs
@@ -7,10 +7,7 @@ use crate::{
 };
 
 pub fn extract_number_from_identifier(id: &str) -> Option<(&str, i64)> {
-    let offset = id
-        .rfind(|c: char| !c.is_numeric())
-        .map(|i| i + 1)
-        .unwrap_or(0);
+    let offset = id.trim_end_matches(|c: char| c.is_numeric()).len();
     let (name, nr) = id.split_at(offset);
     Some((name, nr.parse::<i64>().ok()?))
 }
-- 
2.43.0


From dca80b03c19fdc0fc4cc371d801954ea2e52fc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:50 +0000
Subject: [PATCH 11/21] fix: ignore workspace roots which do not have a path

---
 src/backtrace.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backtrace.rs b/src/backtrace.rs
index fc185e6..8bfb051 100644
--- a/src/backtrace.rs
+++ b/src/backtrace.rs
@@ -8,7 +8,7 @@ use tower_lsp::lsp_types::{
 pub fn resolve_relative_path(root_paths: &[Url], path: &str) -> Option<Url> {
     root_paths.iter().find_map(|baseuri| {
         let mut uri = baseuri.clone();
-        uri.path_segments_mut().unwrap().extend(path.split('/'));
+        uri.path_segments_mut().ok()?.extend(path.split('/'));
         if uri.to_file_path().ok()?.exists() {
             Some(uri)
         } else {
-- 
2.43.0


From e3e0ba2db5bcecccf3de4aab83be9e9ce7d46c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:56 +0000
Subject: [PATCH 12/21] fix: do not fail for external definitions without line
 number

---
 src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 8431ac6..c5300ab 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -804,12 +804,14 @@ impl Backend {
             ranges.extend(usedefs.external_defs.iter().filter_map(|d| {
                 let root_paths = self.root_paths.lock().unwrap();
                 let uri = resolve_relative_path(&root_paths, &d.filepath)?;
+                // Debug annotations count lines from 1, LSP counts them from 0
+                let line = d.line.saturating_sub(1);
 
                 Some(Location {
                     uri,
                     range: Range {
-                        start: Position::new(d.line - 1, 0),
-                        end: Position::new(d.line - 1, 0),
+                        start: Position::new(line, 0),
+                        end: Position::new(line, 0),
                     },
                 })
             }));
-- 
2.43.0


From a05709ad6571987d2a7f22e65fa4b307521a47a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:03 +0000
Subject: [PATCH 13/21] fix: shorten symbol names with non-ASCII characters

---
 src/backtrace.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backtrace.rs b/src/backtrace.rs
index 8bfb051..7a3651d 100644
--- a/src/backtrace.rs
+++ b/src/backtrace.rs
@@ -172,10 +172,10 @@ fn backtrace_json_to_md(frames: &[Frame]) -> String {
 }
 
 fn shorten_name(s: &str, len: usize) -> String {
-    if s.len() < len - 2 {
+    if s.chars().count() < len - 2 {
         s.to_string()
     } else {
-        s[..len - 2].to_string() + "…"
+        s.chars().take(len - 2).collect::<String>() + "…"
     }
 }
 
-- 
2.43.0


From 773ca5b3b4dfae5c85e8caca6d5aa024e293bf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:30 +0000
Subject: [PATCH 14/21] fix: find external definitions independent of the order
 of declarations and annotations

---
 src/hir_index.rs | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/hir_index.rs b/src/hir_index.rs
index 3f7c9af..72857ca 100644
--- a/src/hir_index.rs
+++ b/src/hir_index.rs
@@ -203,7 +203,8 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
         .collect::<Vec<_>>();
 
     // Index all definitions / declarations based on the actual parse tree
-    let mut unresolved_function_dbgrefs: HashMap<String, String> = Default::default();
+    let mut function_dbgrefs: Vec<(String, String)> = Default::default();
+    let mut external_defs: HashMap<String, Vec<ExternalDef>> = Default::default();
     for s in stmts.iter() {
         match s {
             Statement::GlobalVar { name, def: _ } => {
@@ -214,7 +215,7 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
             } => {
                 index.add_global_spanned(SymbolKind::Function, UseDefKind::Decl, &signature.name);
                 if let Some(dbgref) = dbgref {
-                    unresolved_function_dbgrefs.insert(dbgref.0.clone(), signature.name.0.clone());
+                    function_dbgrefs.push((signature.name.0.clone(), dbgref.0.clone()));
                 }
             }
             Statement::FuncDependencies { .. } => {}
@@ -229,20 +230,16 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
                         .insert(name.0.clone(), value.to_string());
                 }
                 // Recognize the filenames and numbers associated with function definitions
-                if let Some(funcname) = unresolved_function_dbgrefs.get(&name.0) {
-                    if let [(Token::Str(dbgstr), _)] = &def[..] {
-                        if let [filepath, linestr] = dbgstr.split(':').collect::<Vec<_>>()[..] {
-                            if let Ok(line) = linestr.parse::<u32>() {
-                                index
-                                    .functions
-                                    .get_mut(funcname)
-                                    .unwrap()
-                                    .external_defs
-                                    .push(ExternalDef {
-                                        filepath: filepath.to_string(),
-                                        line,
-                                    });
-                            }
+                if let [(Token::Str(dbgstr), _)] = &def[..] {
+                    if let [filepath, linestr] = dbgstr.split(':').collect::<Vec<_>>()[..] {
+                        if let Ok(line) = linestr.parse::<u32>() {
+                            external_defs
+                                .entry(name.0.clone())
+                                .or_default()
+                                .push(ExternalDef {
+                                    filepath: filepath.to_string(),
+                                    line,
+                                });
                         }
                     }
                 }
@@ -320,6 +317,17 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
         }
     }
 
+    // Associate the external definitions with the declared functions. The annotations might
+    // appear before the declarations, and multiple functions can share the same annotation.
+    for (funcname, dbgref) in function_dbgrefs {
+        let usedefs = index.functions.entry(funcname).or_default();
+        for external_def in external_defs.get(&dbgref).into_iter().flatten() {
+            if !usedefs.external_defs.contains(external_def) {
+                usedefs.external_defs.push(external_def.clone());
+            }
+        }
+    }
+
     // Index all uses based on the raw token stream
     let mut func_body_id: Option<usize> = None;
     for t in tokens.iter() {
-- 
2.43.0


From 6d5027e29f436ff6dbbe75eb838029670bd6b639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:21 +0000
Subject: [PATCH 15/21] fix: refuse to rename a symbol to something which is
 not a valid identifier

---
 src/main.rs   | 12 ++++++++++--
 src/rename.rs | 15 +++++++++++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index c5300ab..cb8a993 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -13,7 +13,9 @@ use hyper_ir_lsp::diagnostics::{
 use hyper_ir_lsp::hir_index::{create_index, HIRIndex, SymbolOccurrence, UseDefKind, UseDefList};
 use hyper_ir_lsp::hir_parser::{parse_from_str, BasicBlock, Instruction, ParserResult, Statement};
 use hyper_ir_lsp::lsp_utils::{create_rope, lsp_pos_to_offset, offset_to_lsp_pos, range_to_lsp};
-use hyper_ir_lsp::rename::{extract_number_from_identifier, get_rename_edits, get_shift_edits};
+use hyper_ir_lsp::rename::{
+    extract_number_from_identifier, get_rename_edits, get_shift_edits, is_valid_name,
+};
 use hyper_ir_lsp::semantic_token::{
     convert_to_lsp_tokens, semantic_tokens_from_tokens, HIRSemanticToken, LEGEND_TYPE,
 };
@@ -380,12 +382,18 @@ impl LanguageServer for Backend {
             {
                 return Result::Err(Error::invalid_params("Name contains invalid character"));
             }
-            if new_name.chars().next().unwrap().is_numeric()
+            if new_name.is_empty() {
+                return Result::Err(Error::invalid_params("Name must not be empty"));
+            }
+            if new_name.starts_with(char::is_numeric)
                 && symbol.symbol_kind != hyper_ir_lsp::hir_index::SymbolKind::DbgAnnotation
             {
                 return Result::Err(Error::invalid_params("Name must not start with a digit"));
             }
             new_name = format!("{}{}", prefix, new_name);
+            if !is_valid_name(symbol.symbol_kind, &new_name) {
+                return Result::Err(Error::invalid_params("Name is not a valid identifier"));
+            }
 
             // Rename all occurrences
             let usedefs = doc
diff --git a/src/rename.rs b/src/rename.rs
index d6a65d8..e7493e0 100644
--- a/src/rename.rs
+++ b/src/rename.rs
@@ -1,11 +1,26 @@
+use chumsky::Parser;
 use ropey::Rope;
 use tower_lsp::lsp_types::TextEdit;
 
 use crate::{
     hir_index::{HIRIndex, SymbolKind, UseDefList},
+    hir_tokenizer::{tokenizer, Token},
     lsp_utils::range_to_lsp,
 };
 
+/// Checks if the name (including its prefix) is understood by the tokenizer as an
+/// identifier of the given kind
+pub fn is_valid_name(symbol_kind: SymbolKind, name: &str) -> bool {
+    let tokens = tokenizer().parse(name).unwrap_or_default();
+    match (symbol_kind, &tokens[..]) {
+        (SymbolKind::GlobalVar | SymbolKind::Function, [(Token::GlobalName(n), _)]) => n == name,
+        (SymbolKind::DbgAnnotation, [(Token::DebugRef(n), _)]) => n == name,
+        (SymbolKind::Label, [(Token::Ident(n), _)]) => n == name,
+        (SymbolKind::LocalVar, [(Token::LocalName(n), _)]) => n == name,
+        _ => false,
+    }
+}
+
 pub fn extract_number_from_identifier(id: &str) -> Option<(&str, i64)> {
     let offset = id.trim_end_matches(|c: char| c.is_numeric()).len();
     let (name, nr) = id.split_at(offset);
-- 
2.43.0


From 599bf22f4ee9468841456bbfd90d0cc786403d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:30 +0000
Subject: [PATCH 16/21] fix: refuse to shift numbers below zero or out of range

---
 src/main.rs   | 12 ++++++++----
 src/rename.rs | 15 +++++++++------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index cb8a993..ec5da20 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -349,7 +349,9 @@ impl LanguageServer for Backend {
             let rename_nr = new_name[1..].parse::<i64>().map_err(|_e| {
                 Error::invalid_params(format!("Invalid relative rename `{}`", new_name))
             })?;
-            let rename_shift = sign * rename_nr;
+            let rename_shift = rename_nr
+                .checked_mul(sign)
+                .ok_or_else(|| Error::invalid_params("Shifted number is out of range"))?;
             let (_, rename_start) =
                 extract_number_from_identifier(&symbol.name).ok_or_else(|| {
                     Error::invalid_params(
@@ -364,6 +366,7 @@ impl LanguageServer for Backend {
                 rename_start,
                 rename_shift,
             )
+            .ok_or_else(|| Error::invalid_params("Shifted number is out of range"))?
         } else {
             // Check the new name and make sure it contains the expected prefix
             let prefix = match symbol.symbol_kind {
@@ -463,8 +466,8 @@ impl LanguageServer for Backend {
         if !self.code_actions_lazy_resolve.lock().unwrap().get() {
             actions = actions
                 .drain(..)
-                .map(|a| self.do_code_action_resolve(a).ok().unwrap())
-                .collect();
+                .map(|a| self.do_code_action_resolve(a))
+                .collect::<Result<_>>()?;
         }
 
         Ok(Some(
@@ -856,7 +859,8 @@ impl Backend {
                     func_body_id,
                     renamed_nr,
                     1,
-                );
+                )
+                .ok_or_else(|| Error::invalid_params("Shifted number is out of range"))?;
                 updated_action.edit = Some(WorkspaceEdit {
                     changes: Some(HashMap::from([(uri, edits)])),
                     ..Default::default()
diff --git a/src/rename.rs b/src/rename.rs
index e7493e0..deff76c 100644
--- a/src/rename.rs
+++ b/src/rename.rs
@@ -42,6 +42,8 @@ pub fn get_rename_edits(rope: &Rope, usedefs: &UseDefList, new_name: &str) -> Ve
         .collect()
 }
 
+/// Shifts the numbering of all symbols starting with the given number.
+/// Returns `None` if one of the numbers would become negative or too large.
 pub fn get_shift_edits(
     rope: &Rope,
     index: &HIRIndex,
@@ -49,8 +51,8 @@ pub fn get_shift_edits(
     func_body_id: Option<usize>,
     renamed_nr: i64,
     shift: i64,
-) -> Vec<TextEdit> {
-    index
+) -> Option<Vec<TextEdit>> {
+    let edits = index
         .get_by_symbol_kind(
             symbol_kind,
             func_body_id.map(|id| &index.function_bodies[id]),
@@ -61,11 +63,12 @@ pub fn get_shift_edits(
             if nr < renamed_nr {
                 return None;
             }
-            let new_name = format!("{}{}", prefix, (nr + shift).wrapping_abs());
-            Some(get_rename_edits(rope, usedefs, &new_name))
+            let new_nr = nr.checked_add(shift).filter(|new_nr| *new_nr >= 0);
+            let new_name = new_nr.map(|new_nr| format!("{}{}", prefix, new_nr));
+            Some(new_name.map(|new_name| get_rename_edits(rope, usedefs, &new_name)))
         })
-        .flatten()
-        .collect::<Vec<_>>()
+        .collect::<Option<Vec<_>>>()?;
+    Some(edits.into_iter().flatten().collect())
 }
 
 #[test]
-- 
2.43.0


From bfb5071f87244cd4fb4af09be36f3b3e25c69bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:59 +0000
Subject: [PATCH 17/21] fix: do not fail if an outdated code action is resolved

---
 src/hir_index.rs | 6 ++++++
 src/main.rs      | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/hir_index.rs b/src/hir_index.rs
index 72857ca..fc9edf3 100644
--- a/src/hir_index.rs
+++ b/src/hir_index.rs
@@ -65,6 +65,12 @@ pub enum SymbolKind {
     LocalVar,
 }
 
+impl SymbolKind {
+    pub fn is_func_local(&self) -> bool {
+        matches!(self, SymbolKind::Label | SymbolKind::LocalVar)
+    }
+}
+
 #[derive(Clone, Debug, PartialEq, Eq)]
 pub struct SymbolOccurrence {
     pub span: Span,
diff --git a/src/main.rs b/src/main.rs
index ec5da20..087f3b2 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -852,6 +852,14 @@ impl Backend {
                     .document_map
                     .get(&uri.to_string())
                     .ok_or_else(|| Error::invalid_params("Document not found"))?;
+                // The document might have changed since the code action was created
+                let is_valid_scope = match func_body_id {
+                    Some(id) => id < doc.index.function_bodies.len(),
+                    None => !symbol_kind.is_func_local(),
+                };
+                if !is_valid_scope {
+                    return Err(Error::invalid_params("Function body not found"));
+                }
                 let edits = get_shift_edits(
                     &doc.rope,
                     &doc.index,
-- 
2.43.0


From 23e4c5f3df134853fbf600e0161dbb34f0477c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:12 +0000
Subject: [PATCH 18/21] fix: do not let line breaks in symbol names end the
 Markdown code

---
 src/backtrace.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/backtrace.rs b/src/backtrace.rs
index 7a3651d..84ce3eb 100644
--- a/src/backtrace.rs
+++ b/src/backtrace.rs
@@ -109,10 +109,13 @@ pub fn identify_relevant_frames(frames: &[Frame]) -> Option<usize> {
 fn sanitize_markdown_code(txt: &str) -> String {
     let mut sanitized = String::with_capacity(txt.bytes().len());
     for c in txt.chars() {
-        if c.is_alphanumeric() || c.is_whitespace() {
+        if c.is_alphanumeric() {
             // We allow all alphanumeric chars.
             // Hopefully, none of them has a special meaning in Markdown.
             sanitized.push(c);
+        } else if c.is_whitespace() {
+            // Line breaks would end the Markdown code
+            sanitized.push(' ');
         } else {
             match c {
                 // Forward characters which are safe in Markdown code blocks.
-- 
2.43.0


From 2564392efa3e44fc5848e3366a0d7df4b54eb134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:27 +0000
Subject: [PATCH 19/21] fix: do not crash if the visualization of a control
 flow graph is cancelled

---
 src/main.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 087f3b2..a79231f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -700,9 +700,13 @@ impl LanguageServer for Backend {
 
                 // Make this dependent on a client setting / client capability
                 // since it reuqires additional client-siye collabolation
-                self.client
-                    .send_request::<ShowGraph>(ShowGraphParams { title, dot_graph })
+                // Wait for the response in a separate task. If the client cancels this command,
+                // `tower_lsp` drops our future, but it requires that the response is still received.
+                let client = self.client.clone();
+                let params = ShowGraphParams { title, dot_graph };
+                tokio::spawn(async move { client.send_request::<ShowGraph>(params).await })
                     .await
+                    .unwrap_or_else(|_| Err(Error::internal_error()))
                     .map_err(|e| Error {
                         code: ErrorCode::InternalError,
                         message: format!("Failed displaying the dot graph: `{}`", e).into(),
-- 
2.43.0


From 50ebbf732c4cd7c116a2fdb946642cf80f58186a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:39 +0000
Subject: [PATCH 20/21] fix: do not link to directories as if they were source
 files

---
 src/backtrace.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backtrace.rs b/src/backtrace.rs
index 84ce3eb..f1fb44a 100644
--- a/src/backtrace.rs
+++ b/src/backtrace.rs
@@ -9,7 +9,7 @@ pub fn resolve_relative_path(root_paths: &[Url], path: &str) -> Option<Url> {
     root_paths.iter().find_map(|baseuri| {
         let mut uri = baseuri.clone();
         uri.path_segments_mut().ok()?.extend(path.split('/'));
-        if uri.to_file_path().ok()?.exists() {
+        if uri.to_file_path().ok()?.is_file() {
             Some(uri)
         } else {
             None
-- 
2.43.0


From dc2b461a9c6186811eb34b954905c5dc67345cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:29 +0000
Subject: [PATCH 21/21] fix: do not index the definition of a global variable
 as a use of a function of the same name

---
 src/hir_index.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hir_index.rs b/src/hir_index.rs
index fc9edf3..2147032 100644
--- a/src/hir_index.rs
+++ b/src/hir_index.rs
@@ -337,6 +337,11 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
     // Index all uses based on the raw token stream
     let mut func_body_id: Option<usize> = None;
     for t in tokens.iter() {
+        // Definitions and declarations were already indexed above. In particular, the definition
+        // of a global variable is not a use of a function with the same name.
+        if index.reverse_idx.contains_key(&t.1.start) {
+            continue;
+        }
         match &t.0 {
             Token::GlobalName(name) => {
                 if index.functions.contains_key(&name.to_string()) {
-- 
2.43.0

