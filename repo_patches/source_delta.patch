From 469a9e938b5a1b34ad3d221dc6bc5d9564999d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:57 +0000
Subject: [PATCH 01/49] hook: expose backend and config modules under
 cfg(jinja_lsp_verif)

---
 jinja-lsp/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jinja-lsp/src/lib.rs b/jinja-lsp/src/lib.rs
index b830c30..8f1a1f7 100644
--- a/jinja-lsp/src/lib.rs
+++ b/jinja-lsp/src/lib.rs
@@ -1,6 +1,14 @@
+#![allow(unexpected_cfgs)]
+
+#[cfg(not(jinja_lsp_verif))]
 mod backend;
+#[cfg(jinja_lsp_verif)]
+pub mod backend;
 pub mod channels;
+#[cfg(not(jinja_lsp_verif))]
 mod config;
+#[cfg(jinja_lsp_verif)]
+pub mod config;
 pub mod filter;
 pub mod lsp_files;
 pub mod template_tests;
-- 
2.43.0


From 2339dd480739e37c23d65f693ac6de5b8d884718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:01 +0000
Subject: [PATCH 02/49] fix: parse a newly read or reopened document from
 scratch

An old tree that was not edited to match the new text made tree-sitter
reuse stale nodes (wrong answers, or a panic for a shorter text).
---
 jinja-lsp/src/lsp_files.rs | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 02f48e0..6d54596 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -127,21 +127,10 @@ impl LspFiles {
         lang_type: LangType,
         file_content: &str,
     ) -> Option<()> {
+        // This text replaces the whole document, so no earlier tree describes its edits.
+        let new_tree = self.parsers.parse(lang_type, file_content, None)?;
         let trees = self.trees.get_mut(&lang_type)?;
-        let old_tree = trees.get_mut(&file_name.to_string());
-        match old_tree {
-            Some(old_tree) => {
-                let new_tree = self
-                    .parsers
-                    .parse(lang_type, file_content, Some(old_tree))?;
-                trees.insert(file_name.to_string(), new_tree);
-            }
-            None => {
-                // tree doesn't exist, first insertion
-                let new_tree = self.parsers.parse(lang_type, file_content, None)?;
-                trees.insert(file_name.to_string(), new_tree);
-            }
-        };
+        trees.insert(file_name.to_string(), new_tree);
         None
     }
 
-- 
2.43.0


From af4375e0dd56e643dc6b708b220d97634365ede0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:59 +0000
Subject: [PATCH 03/49] fix: apply document changes at UTF-16 positions and
 accept full-text changes

Positions were taken as byte offsets but applied as char offsets, positions
outside the document panicked, changes without a range were dropped, and the
end point handed to tree-sitter was computed on the text before the change.
---
 jinja-lsp-queries/src/to_input_edit.rs | 99 +++++++++++++++++---------
 jinja-lsp/src/lsp_files.rs             | 22 +++---
 2 files changed, 75 insertions(+), 46 deletions(-)

diff --git a/jinja-lsp-queries/src/to_input_edit.rs b/jinja-lsp-queries/src/to_input_edit.rs
index a672b53..1dc6d61 100644
--- a/jinja-lsp-queries/src/to_input_edit.rs
+++ b/jinja-lsp-queries/src/to_input_edit.rs
@@ -12,51 +12,49 @@ pub trait ToInputEdit {
 }
 
 impl ToInputEdit for Rope {
+    /// Row and byte column of an LSP (UTF-16) position, moved into the document if it is outside.
     fn to_point(&self, position: Position) -> Point {
-        Point::new(position.line as usize, position.character as usize)
+        point_at(self, self.to_byte(position))
     }
 
     fn to_byte(&self, position: Position) -> usize {
-        let start_line = self.line_to_byte(position.line as usize);
-        start_line + position.character as usize
-    }
-
-    fn to_position(&self, mut offset: usize) -> Position {
-        offset = offset.min(self.len_bytes());
-        let mut low = 0usize;
-        let mut high = self.len_lines();
-        if high == 0 {
-            return Position {
-                line: 0,
-                character: offset as u32,
-            };
-        }
-        while low < high {
-            let mid = low + (high - low) / 2;
-            if self.line_to_byte(mid) > offset {
-                high = mid;
-            } else {
-                low = mid + 1;
+        let (start, end) = line_bytes(self, position.line as usize);
+        let mut byte = start;
+        let mut character = 0;
+        for ch in self.byte_slice(start..end).chars() {
+            character += ch.len_utf16();
+            if character > position.character as usize {
+                break;
             }
+            byte += ch.len_utf8();
         }
-        let line = low - 1;
-        let character = offset - self.line_to_byte(line);
-        Position::new(line as u32, character as u32)
+        byte
     }
 
-    fn to_input_edit(&self, range: Range, text: &str) -> InputEdit {
-        let start = range.start;
-        let end = range.end;
-
-        let start_byte = self.to_byte(start);
-        let start_position = self.to_point(start);
+    fn to_position(&self, offset: usize) -> Position {
+        let point = point_at(self, offset.min(self.len_bytes()));
+        let (start, _) = line_bytes(self, point.row);
+        let character: usize = self
+            .byte_slice(start..start + point.column)
+            .chars()
+            .map(char::len_utf16)
+            .sum();
+        Position::new(point.row as u32, character as u32)
+    }
 
+    fn to_input_edit(&self, range: Range, text: &str) -> InputEdit {
+        let start_byte = self.to_byte(range.start);
+        let start_position = point_at(self, start_byte);
+        let old_end_byte = self.to_byte(range.end);
+        let old_end_position = point_at(self, old_end_byte);
         let new_end_byte = start_byte + text.len();
-        let new_end_position = self.to_position(new_end_byte);
-        let new_end_position = self.to_point(new_end_position);
-
-        let old_end_byte = self.to_byte(end);
-        let old_end_position = self.to_point(end);
+        let new_end_position = match text.rfind('\n') {
+            Some(last) => Point::new(
+                start_position.row + text.matches('\n').count(),
+                text.len() - last - 1,
+            ),
+            None => Point::new(start_position.row, start_position.column + text.len()),
+        };
 
         InputEdit {
             start_byte,
@@ -69,6 +67,37 @@ impl ToInputEdit for Rope {
     }
 }
 
+/// Bytes of a line without its line break (LF or CRLF, the breaks tree-sitter counts as well).
+fn line_bytes(rope: &Rope, line: usize) -> (usize, usize) {
+    let (mut start, mut row) = (0, 0);
+    for (index, byte) in rope.bytes().enumerate() {
+        if byte == b'\n' {
+            if row == line {
+                let crlf = index > start && rope.byte(index - 1) == b'\r';
+                return (start, if crlf { index - 1 } else { index });
+            }
+            row += 1;
+            start = index + 1;
+        }
+    }
+    if row < line {
+        start = rope.len_bytes();
+    }
+    (start, rope.len_bytes())
+}
+
+fn point_at(rope: &Rope, offset: usize) -> Point {
+    let mut point = Point::default();
+    for byte in rope.bytes().take(offset) {
+        if byte == b'\n' {
+            point = Point::new(point.row + 1, 0);
+        } else {
+            point.column += 1;
+        }
+    }
+    point
+}
+
 pub fn to_position2(point: Point) -> Position {
     Position::new(point.row as u32, point.column as u32)
 }
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 6d54596..54e52b5 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -157,18 +157,18 @@ impl LspFiles {
         let lang_type = self.config.file_ext(&Path::new(&uri));
         let mut changes = vec![];
         for change in params.content_changes {
-            let range = change.range?;
-            let input_edit = rope.to_input_edit(range, &change.text);
-            let start = rope.to_byte(range.start);
-            let end = rope.to_byte(range.end);
-            if start <= end {
-                rope.remove(start..end);
-            } else {
-                rope.remove(end..start);
-            }
-            if !change.text.is_empty() {
-                rope.insert(start, &change.text);
+            // A change without a range replaces the whole document.
+            let mut range = change
+                .range
+                .unwrap_or(Range::new(Position::default(), Position::new(u32::MAX, 0)));
+            if range.start > range.end {
+                range = Range::new(range.end, range.start);
             }
+            let input_edit = rope.to_input_edit(range, &change.text);
+            let start = rope.byte_to_char(input_edit.start_byte);
+            let end = rope.byte_to_char(input_edit.old_end_byte);
+            rope.remove(start..end);
+            rope.insert(start, &change.text);
             let mut w = FileContent::default();
             let _ = rope.write_to(&mut w);
             changes.push((w.content, input_edit));
-- 
2.43.0


From 6cb8433c101d3605384a86791c267a800593d425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:15 +0000
Subject: [PATCH 04/49] fix: debounce the diagnostics of each document
 separately

An edit of one document aborted the pending refresh of another, whose
diagnostics and variables then stayed stale.
---
 jinja-lsp/src/lsp_files.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 54e52b5..9f3bac3 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -53,7 +53,7 @@ pub struct LspFiles {
     pub parsers: Parsers,
     pub queries: Queries,
     pub config: JinjaConfig,
-    pub diagnostics_task: Option<JoinHandle<()>>,
+    pub diagnostics_tasks: HashMap<String, JoinHandle<()>>,
     pub main_channel: Option<mpsc::Sender<LspMessage>>,
     pub variables: HashMap<String, Vec<Identifier>>,
     pub code_actions: HashMap<String, Vec<Identifier>>,
@@ -180,16 +180,18 @@ impl LspFiles {
             text_document: TextDocumentIdentifier::new(params.text_document.uri),
             text: None,
         };
-        if let Some(task) = &self.diagnostics_task {
+        // Another edit of the same document postpones its refresh, and only its own.
+        if let Some(task) = self.diagnostics_tasks.get(&uri) {
             task.abort();
         }
         let channel = self.main_channel.clone();
-        self.diagnostics_task = Some(tokio::spawn(async move {
+        let task = tokio::spawn(async move {
             sleep(Duration::from_millis(200)).await;
             if let Some(channel) = channel {
                 let _ = channel.send(LspMessage::DidSave(param)).await;
             }
-        }));
+        });
+        self.diagnostics_tasks.insert(uri, task);
         None
     }
 
@@ -906,7 +908,6 @@ impl Default for LspFiles {
         let mut trees = HashMap::new();
         trees.insert(LangType::Template, HashMap::new());
         trees.insert(LangType::Backend, HashMap::new());
-        let diagnostics_task = None;
         let main_channel = None;
         Self {
             trees,
@@ -914,7 +915,7 @@ impl Default for LspFiles {
             queries: Queries::default(),
             documents: HashMap::new(),
             config: JinjaConfig::default(),
-            diagnostics_task,
+            diagnostics_tasks: HashMap::new(),
             main_channel,
             variables: HashMap::default(),
             is_vscode: false,
@@ -935,7 +936,6 @@ impl Clone for LspFiles {
         let is_vscode = self.is_vscode;
         let code_actions = self.code_actions.clone();
         let config = self.config.clone();
-        let task = None;
         Self {
             trees,
             documents,
@@ -946,7 +946,7 @@ impl Clone for LspFiles {
             variables,
             code_actions,
             is_vscode,
-            diagnostics_task: task,
+            diagnostics_tasks: HashMap::new(),
             ignore_globals: self.ignore_globals,
         }
     }
-- 
2.43.0


From 1dd029d2c6ec3a2d62674791fa4a4903017963be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:44 +0000
Subject: [PATCH 05/49] fix: no deadlock between the language and the
 diagnostics task

Both waited for free places in each other's bounded channel, and the
language task waited for places in the channel it empties itself; a burst of
messages stopped the server for good.
---
 jinja-lsp/src/backend.rs              |  3 ++-
 jinja-lsp/src/channels/diagnostics.rs |  4 ++--
 jinja-lsp/src/channels/lsp.rs         | 25 +++++++++++++++----------
 3 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/jinja-lsp/src/backend.rs b/jinja-lsp/src/backend.rs
index e33a91a..1a0e556 100644
--- a/jinja-lsp/src/backend.rs
+++ b/jinja-lsp/src/backend.rs
@@ -156,7 +156,8 @@ impl LanguageServer for Backend {
 impl Backend {
     pub fn _new(client: Client) -> Self {
         let (lsp_sender, lsp_recv) = mpsc::channel(50);
-        let (diagnostic_sender, diagnostic_recv) = mpsc::channel(20);
+        // Unbounded: the two tasks send to each other, and a bounded cycle can fill up and stop.
+        let (diagnostic_sender, diagnostic_recv) = mpsc::unbounded_channel();
         lsp_task(
             client.clone(),
             diagnostic_sender,
diff --git a/jinja-lsp/src/channels/diagnostics.rs b/jinja-lsp/src/channels/diagnostics.rs
index 9b5dc06..fe92399 100644
--- a/jinja-lsp/src/channels/diagnostics.rs
+++ b/jinja-lsp/src/channels/diagnostics.rs
@@ -3,7 +3,7 @@ use std::collections::HashMap;
 use jinja_lsp_queries::{
     lsp_helper::create_diagnostic, search::Identifier, tree_builder::JinjaDiagnostic,
 };
-use tokio::sync::mpsc::{Receiver, Sender};
+use tokio::sync::mpsc::{Sender, UnboundedReceiver};
 use tower_lsp::{
     lsp_types::{MessageType, Url},
     Client,
@@ -13,7 +13,7 @@ use super::lsp::LspMessage;
 
 pub fn diagnostics_task(
     client: Client,
-    mut receiver: Receiver<DiagnosticMessage>,
+    mut receiver: UnboundedReceiver<DiagnosticMessage>,
     lsp_channel: Sender<LspMessage>,
 ) {
     tokio::spawn(async move {
diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index 5a0ba6a..ba045f7 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -31,7 +31,7 @@ use super::diagnostics::DiagnosticMessage;
 
 pub fn lsp_task(
     client: Client,
-    diagnostics_channel: mpsc::Sender<DiagnosticMessage>,
+    diagnostics_channel: mpsc::UnboundedSender<DiagnosticMessage>,
     lsp_channel: mpsc::Sender<LspMessage>,
     mut lsp_recv: mpsc::Receiver<LspMessage>,
 ) {
@@ -128,9 +128,8 @@ pub fn lsp_task(
                     } else {
                         match walkdir(&config) {
                             Ok(errors) => {
-                                let _ = diagnostics_channel
-                                    .send(DiagnosticMessage::Errors(errors.0))
-                                    .await;
+                                let _ =
+                                    diagnostics_channel.send(DiagnosticMessage::Errors(errors.0));
                                 let vscode = lsp_data.is_vscode;
                                 lsp_data = errors.1;
                                 lsp_data.is_vscode = vscode;
@@ -151,7 +150,7 @@ pub fn lsp_task(
                 }
                 LspMessage::DidSave(params) => {
                     if let Some(errors) = lsp_data.did_save(params) {
-                        let _ = diagnostics_channel.send(errors).await;
+                        let _ = diagnostics_channel.send(errors);
                     }
                 }
                 LspMessage::Completion(params, sender) => {
@@ -332,14 +331,13 @@ pub fn lsp_task(
                 LspMessage::ExecuteCommand(params, sender) => {
                     let command = params.command;
                     if command == "reset_variables" {
-                        let (sender2, _) = oneshot::channel();
-                        let _ = lsp_channel.send(LspMessage::Initialized(sender2)).await;
+                        send_initialized(lsp_channel.clone());
                         let _ = sender.send(None);
                     }
                 }
                 LspMessage::DidOpen(params) => {
                     if let Some(errors) = lsp_data.did_open(params, false) {
-                        let _ = diagnostics_channel.send(errors).await;
+                        let _ = diagnostics_channel.send(errors);
                     }
                 }
                 LspMessage::DocumentSymbol(params, sender) => {
@@ -348,7 +346,6 @@ pub fn lsp_task(
                     }
                 }
                 LspMessage::DidChangeConfiguration(params) => {
-                    let (sender, _) = oneshot::channel();
                     if let Ok(c) = serde_json::from_value(params.settings) {
                         config = c;
                         config.user_defined = true;
@@ -357,7 +354,7 @@ pub fn lsp_task(
                     if !config.user_defined {
                         continue;
                     }
-                    let _ = lsp_channel.send(LspMessage::Initialized(sender)).await;
+                    send_initialized(lsp_channel.clone());
                 }
                 LspMessage::CodeActions(code_actions) => {
                     lsp_data.add_code_actions(code_actions);
@@ -367,6 +364,14 @@ pub fn lsp_task(
     });
 }
 
+/// The task that empties the channel cannot wait for a free place in it.
+fn send_initialized(lsp_channel: mpsc::Sender<LspMessage>) {
+    tokio::spawn(async move {
+        let (sender, _) = oneshot::channel();
+        let _ = lsp_channel.send(LspMessage::Initialized(sender)).await;
+    });
+}
+
 pub enum LspMessage {
     Initialize(Box<InitializeParams>, oneshot::Sender<InitializeResult>),
     Initialized(oneshot::Sender<bool>),
-- 
2.43.0


From a0a10bebd456caa5154b9e9f772d422c9e88df11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:44 +0000
Subject: [PATCH 06/49] fix: refresh changed documents without a scanned
 workspace

The channel was only set after a successful scan, so with an unsupported
language or a missing directory edits never reached the diagnostics.
---
 jinja-lsp/src/channels/lsp.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index ba045f7..0bce38d 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -37,6 +37,7 @@ pub fn lsp_task(
 ) {
     let mut config = JinjaConfig::default();
     let mut lsp_data = LspFiles::default();
+    lsp_data.main_channel = Some(lsp_channel.clone());
     let filters = init_filter_completions();
     let template_tests = init_template_test_completions();
     let snippets = snippets();
-- 
2.43.0


From 738442b4ac132b2d1594bd7840365fea5d868b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:42 +0000
Subject: [PATCH 07/49] fix: keep open documents when the workspace is read
 again

Resetting variables or changing the configuration replaced unsaved editor
text by the file on disk. Open documents are now tracked (a closed one falls
back to the file), and files that disappeared lose their diagnostics.
---
 jinja-lsp/src/backend.rs      |  4 +-
 jinja-lsp/src/channels/lsp.rs | 26 +++++++-----
 jinja-lsp/src/lsp_files.rs    | 75 ++++++++++++++++++++++++++++-------
 3 files changed, 80 insertions(+), 25 deletions(-)

diff --git a/jinja-lsp/src/backend.rs b/jinja-lsp/src/backend.rs
index 1a0e556..69208e5 100644
--- a/jinja-lsp/src/backend.rs
+++ b/jinja-lsp/src/backend.rs
@@ -55,7 +55,9 @@ impl LanguageServer for Backend {
         let _ = self.main_channel.send(LspMessage::DidOpen(params)).await;
     }
 
-    async fn did_close(&self, _params: DidCloseTextDocumentParams) {}
+    async fn did_close(&self, params: DidCloseTextDocumentParams) {
+        let _ = self.main_channel.send(LspMessage::DidClose(params)).await;
+    }
 
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
         let _ = self.main_channel.send(LspMessage::DidChange(params)).await;
diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index 0bce38d..fc130a6 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -9,12 +9,12 @@ use tower_lsp::{
         CodeActionParams, CodeActionProviderCapability, CodeActionResponse, CompletionItem,
         CompletionItemKind, CompletionOptions, CompletionParams, CompletionResponse,
         CompletionTextEdit, DidChangeConfigurationParams, DidChangeTextDocumentParams,
-        DidOpenTextDocumentParams, DidSaveTextDocumentParams, DocumentSymbolParams,
-        DocumentSymbolResponse, Documentation, ExecuteCommandOptions, ExecuteCommandParams,
-        GotoDefinitionParams, GotoDefinitionResponse, Hover, HoverContents, HoverParams,
-        HoverProviderCapability, InitializeParams, InitializeResult, InsertReplaceEdit,
-        MarkupContent, MarkupKind, MessageType, OneOf, ServerCapabilities, ServerInfo,
-        TextDocumentIdentifier, TextDocumentSyncCapability, TextDocumentSyncKind,
+        DidCloseTextDocumentParams, DidOpenTextDocumentParams, DidSaveTextDocumentParams,
+        DocumentSymbolParams, DocumentSymbolResponse, Documentation, ExecuteCommandOptions,
+        ExecuteCommandParams, GotoDefinitionParams, GotoDefinitionResponse, Hover, HoverContents,
+        HoverParams, HoverProviderCapability, InitializeParams, InitializeResult,
+        InsertReplaceEdit, MarkupContent, MarkupKind, MessageType, OneOf, ServerCapabilities,
+        ServerInfo, TextDocumentIdentifier, TextDocumentSyncCapability, TextDocumentSyncKind,
         TextDocumentSyncOptions, TextDocumentSyncSaveOptions, TextEdit,
     },
     Client,
@@ -128,11 +128,11 @@ pub fn lsp_task(
                             .await;
                     } else {
                         match walkdir(&config) {
-                            Ok(errors) => {
-                                let _ =
-                                    diagnostics_channel.send(DiagnosticMessage::Errors(errors.0));
+                            Ok((mut errors, mut files)) => {
+                                files.keep_open_documents(&lsp_data, &mut errors);
+                                let _ = diagnostics_channel.send(DiagnosticMessage::Errors(errors));
                                 let vscode = lsp_data.is_vscode;
-                                lsp_data = errors.1;
+                                lsp_data = files;
                                 lsp_data.is_vscode = vscode;
                                 lsp_data.config = config.clone();
                                 lsp_data.main_channel = Some(lsp_channel.clone());
@@ -341,6 +341,11 @@ pub fn lsp_task(
                         let _ = diagnostics_channel.send(errors);
                     }
                 }
+                LspMessage::DidClose(params) => {
+                    if let Some(errors) = lsp_data.did_close(params) {
+                        let _ = diagnostics_channel.send(errors);
+                    }
+                }
                 LspMessage::DocumentSymbol(params, sender) => {
                     if let Some(symbols) = lsp_data.document_symbols(params) {
                         let _ = sender.send(Some(symbols));
@@ -377,6 +382,7 @@ pub enum LspMessage {
     Initialize(Box<InitializeParams>, oneshot::Sender<InitializeResult>),
     Initialized(oneshot::Sender<bool>),
     DidOpen(DidOpenTextDocumentParams),
+    DidClose(DidCloseTextDocumentParams),
     DidChange(DidChangeTextDocumentParams),
     DidSave(DidSaveTextDocumentParams),
     Completion(
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 9f3bac3..f082d74 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -23,9 +23,10 @@ use std::{
 use tokio::{sync::mpsc, task::JoinHandle, time::sleep};
 use tower_lsp::lsp_types::{
     CodeAction, CodeActionKind, CodeActionOrCommand, Command, CompletionItemKind,
-    CompletionTextEdit, CreateFile, CreateFileOptions, DidOpenTextDocumentParams,
-    DocumentChangeOperation, DocumentChanges, DocumentSymbol, DocumentSymbolResponse,
-    InsertReplaceEdit, ResourceOp, TextDocumentIdentifier, TextEdit, WorkspaceEdit,
+    CompletionTextEdit, CreateFile, CreateFileOptions, DidCloseTextDocumentParams,
+    DidOpenTextDocumentParams, DocumentChangeOperation, DocumentChanges, DocumentSymbol,
+    DocumentSymbolResponse, InsertReplaceEdit, ResourceOp, TextDocumentIdentifier, TextEdit,
+    WorkspaceEdit,
 };
 
 use jinja_lsp_queries::{
@@ -50,6 +51,7 @@ use crate::{
 pub struct LspFiles {
     trees: HashMap<LangType, HashMap<String, Tree>>,
     documents: HashMap<String, Rope>,
+    open_documents: HashSet<String>,
     pub parsers: Parsers,
     pub queries: Queries,
     pub config: JinjaConfig,
@@ -66,16 +68,44 @@ impl LspFiles {
         if let Ok(name) = std::fs::canonicalize(path) {
             let name = name.to_str()?;
             let file_content = read_to_string(name).ok()?;
-            let rope = Rope::from_str(&file_content);
             let name = format!("file://{}", name);
-            let adding = name.clone();
-            self.documents.insert(name.to_string(), rope);
-            self.add_tree(&name, lang_type, &file_content);
-            self.add_variables(&adding, lang_type, &file_content);
+            self.set_text(&name, lang_type, &file_content);
         }
         None
     }
 
+    fn set_text(&mut self, name: &str, lang_type: LangType, file_content: &str) {
+        self.delete_variables(name);
+        self.documents
+            .insert(name.to_string(), Rope::from_str(file_content));
+        self.add_tree(name, lang_type, file_content);
+        self.add_variables(name, lang_type, file_content);
+    }
+
+    /// Takes over the documents open in the editor, their text can differ from the file.
+    pub fn keep_open_documents(
+        &mut self,
+        previous: &LspFiles,
+        diags: &mut HashMap<String, Vec<(JinjaDiagnostic, Identifier)>>,
+    ) {
+        for name in &previous.open_documents {
+            let lang_type = self.config.file_ext(&Path::new(name));
+            if let (Some(lang_type), Some(rope)) = (lang_type, previous.documents.get(name)) {
+                self.set_text(name, lang_type, &rope.to_string());
+                self.open_documents.insert(name.to_string());
+            }
+        }
+        self.read_trees(diags);
+        for name in &self.open_documents {
+            diags.insert(name.to_string(), self.read_tree(name).unwrap_or_default());
+        }
+        for name in previous.documents.keys() {
+            if !self.documents.contains_key(name) {
+                diags.insert(name.to_string(), vec![]);
+            }
+        }
+    }
+
     fn add_variables(&mut self, name: &str, lang_type: LangType, file_content: &str) -> Option<()> {
         let trees = self.trees.get(&lang_type).unwrap();
         let tree = trees.get(name)?;
@@ -777,12 +807,8 @@ impl LspFiles {
     ) -> Option<DiagnosticMessage> {
         let name = params.text_document.uri.as_str();
         let lang_type = self.config.file_ext(&Path::new(name))?;
-        let file_content = params.text_document.text;
-        let rope = Rope::from_str(&file_content);
-        self.delete_variables(name);
-        self.documents.insert(name.to_string(), rope);
-        self.add_tree(name, lang_type, &file_content);
-        self.add_variables(name, lang_type, &file_content);
+        self.set_text(name, lang_type, &params.text_document.text);
+        self.open_documents.insert(name.to_string());
         let mut hm = HashMap::new();
         if ignore {
             return Some(DiagnosticMessage::Errors(hm));
@@ -793,6 +819,25 @@ impl LspFiles {
         Some(msg)
     }
 
+    pub fn did_close(&mut self, params: DidCloseTextDocumentParams) -> Option<DiagnosticMessage> {
+        let uri = params.text_document.uri;
+        let name = uri.as_str();
+        let lang_type = self.config.file_ext(&Path::new(name))?;
+        self.open_documents.remove(name);
+        match uri.to_file_path().map(read_to_string) {
+            Ok(Ok(file_content)) => self.set_text(name, lang_type, &file_content),
+            _ => {
+                self.documents.remove(name);
+                self.trees.get_mut(&lang_type)?.remove(name);
+                self.variables.remove(name);
+                self.code_actions.remove(name);
+            }
+        }
+        let diagnostics = self.read_tree(name).unwrap_or_default();
+        let hm = HashMap::from([(name.to_owned(), diagnostics)]);
+        Some(DiagnosticMessage::Errors(hm))
+    }
+
     pub fn read_objects(&self, uri: Url) -> Option<Vec<JinjaObject>> {
         let rope = self.documents.get(uri.as_str())?;
         let mut writter = FileContent::default();
@@ -914,6 +959,7 @@ impl Default for LspFiles {
             parsers: Parsers::default(),
             queries: Queries::default(),
             documents: HashMap::new(),
+            open_documents: HashSet::new(),
             config: JinjaConfig::default(),
             diagnostics_tasks: HashMap::new(),
             main_channel,
@@ -939,6 +985,7 @@ impl Clone for LspFiles {
         Self {
             trees,
             documents,
+            open_documents: self.open_documents.clone(),
             parsers,
             queries,
             config,
-- 
2.43.0


From 9fd348077bf6b2c84a877526d82e54930a64f0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:43 +0000
Subject: [PATCH 08/49] fix: keep the definitions before a syntax error

A document with a syntax error got no diagnostics when it was opened, and
every variable of it was reported when it was edited; the definitions that
precede the error are known in both cases.
---
 jinja-lsp/src/lsp_files.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index f082d74..1633156 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -133,12 +133,6 @@ impl LspFiles {
             }
             LangType::Template => {
                 let mut variables = vec![];
-                let query_snippets = &self.queries.jinja_snippets;
-                let snippets =
-                    snippets_query(query_snippets, tree, trigger_point, file_content, true);
-                if snippets.is_error {
-                    return None;
-                }
                 let query_defs = &self.queries.jinja_definitions;
                 let mut definitions =
                     definition_query(query_defs, tree, trigger_point, file_content, true)
-- 
2.43.0


From ac4ed0b5193e8afcb4cb92d63e90c1d467600738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:43 +0000
Subject: [PATCH 09/49] fix: name scanned files by their encoded URI

A path with a space or a non-ASCII letter got another name than the URI the
editor uses for it, so the file was known twice.
---
 jinja-lsp/src/lsp_files.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 1633156..a1f9e1d 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -66,10 +66,9 @@ pub struct LspFiles {
 impl LspFiles {
     pub fn read_file(&mut self, path: &&Path, lang_type: LangType) -> Option<()> {
         if let Ok(name) = std::fs::canonicalize(path) {
-            let name = name.to_str()?;
-            let file_content = read_to_string(name).ok()?;
-            let name = format!("file://{}", name);
-            self.set_text(&name, lang_type, &file_content);
+            let file_content = read_to_string(&name).ok()?;
+            let name = Url::from_file_path(name).ok()?;
+            self.set_text(name.as_str(), lang_type, &file_content);
         }
         None
     }
-- 
2.43.0


From 8531bcd92bbf2b10d937bf7d9dd20312086ce84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:37 +0000
Subject: [PATCH 10/49] fix: resolve a template name the same way everywhere

Diagnostics, goto definition and the code action disagreed on absolute
names, directories and names below a file, and the action's URI had a
malformed path.
---
 jinja-lsp-queries/src/lsp_helper.rs | 35 ++++++++++++++---------------
 jinja-lsp/src/lsp_files.rs          | 20 ++++++-----------
 2 files changed, 24 insertions(+), 31 deletions(-)

diff --git a/jinja-lsp-queries/src/lsp_helper.rs b/jinja-lsp-queries/src/lsp_helper.rs
index e5399d3..cd77889 100644
--- a/jinja-lsp-queries/src/lsp_helper.rs
+++ b/jinja-lsp-queries/src/lsp_helper.rs
@@ -1,4 +1,7 @@
-use std::{collections::HashMap, io::ErrorKind, path::PathBuf};
+use std::{
+    collections::HashMap,
+    path::{Path, PathBuf},
+};
 
 use tower_lsp::lsp_types::{Diagnostic, DiagnosticSeverity, Position, Range};
 use tree_sitter::{Point, Tree};
@@ -93,18 +96,9 @@ pub fn search_errors(
                 .filter(|identifier| identifier.identifier_type == IdentifierType::JinjaTemplate);
             for i in id_templates {
                 let err_type = JinjaDiagnostic::TemplateNotFound;
-                if i.name.is_empty() {
+                if find_template(&templates, &i.name).is_none() {
                     let diagnostic = (err_type, i.to_owned());
                     diagnostics.push(diagnostic);
-                } else {
-                    let mut templates = templates.clone();
-                    templates.push(path_items(&i.name));
-                    if let Err(err) = std::fs::canonicalize(templates) {
-                        if err.kind() == ErrorKind::NotFound {
-                            let diagnostic = (err_type, i.to_owned());
-                            diagnostics.push(diagnostic);
-                        }
-                    }
                 }
             }
             Some(diagnostics)
@@ -115,13 +109,9 @@ pub fn search_errors(
                 .iter()
                 .filter(|id| id.identifier_type == IdentifierType::JinjaTemplate);
             for template in templates2 {
-                let mut templates = templates.clone();
-                templates.push(path_items(&template.name));
-                if let Err(err) = std::fs::canonicalize(templates) {
-                    if err.kind() == ErrorKind::NotFound {
-                        let diagnostic = (JinjaDiagnostic::TemplateNotFound, template.to_owned());
-                        diagnostics.push(diagnostic);
-                    }
+                if find_template(&templates, &template.name).is_none() {
+                    let diagnostic = (JinjaDiagnostic::TemplateNotFound, template.to_owned());
+                    diagnostics.push(diagnostic);
                 }
             }
             Some(diagnostics)
@@ -149,3 +139,12 @@ pub fn create_diagnostic(
 pub fn path_items(template: &str) -> PathBuf {
     template.split('/').collect()
 }
+
+/// The file of a template, whose name is relative to the template directory.
+pub fn find_template(templates: &Path, name: &str) -> Option<PathBuf> {
+    let path = templates.join(path_items(name));
+    if !path.is_file() {
+        return None;
+    }
+    std::fs::canonicalize(path).ok()
+}
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index a1f9e1d..808b635 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -1,5 +1,5 @@
 use jinja_lsp_queries::{
-    lsp_helper::{path_items, search_errors},
+    lsp_helper::{find_template, path_items, search_errors},
     search::{
         completion_start,
         definition::definition_query,
@@ -434,11 +434,8 @@ impl LspFiles {
                     let query = &self.queries.jinja_imports;
                     let query = templates_query(query, tree, point, &writter.content, false);
                     let identifier = query.in_template(point)?.get_identifier(point)?;
-                    let mut path = self.config.templates.clone();
-                    path.push(&identifier.name);
-                    let buffer = std::fs::canonicalize(path).ok()?;
-                    let url = format!("file://{}", buffer.to_str()?);
-                    let url = Url::parse(&url).ok()?;
+                    let buffer = find_template(&self.config.templates, &identifier.name)?;
+                    let url = Url::from_file_path(buffer).ok()?;
                     let range = Range::new(Position::default(), Position::default());
                     let location = Location::new(url, range);
                     res = Some(GotoDefinitionResponse::Scalar(location));
@@ -481,11 +478,8 @@ impl LspFiles {
                 let templates =
                     backend_templates_query(query, tree, point, &writter.content, false);
                 let template = templates.in_template(point)?;
-                let mut path = self.config.templates.clone();
-                path.push(&template.name);
-                let buffer = std::fs::canonicalize(path).ok()?;
-                let url = format!("file://{}", buffer.to_str()?);
-                let url = Url::parse(&url).ok()?;
+                let buffer = find_template(&self.config.templates, &template.name)?;
+                let url = Url::from_file_path(buffer).ok()?;
                 let range = Range::new(Position::default(), Position::default());
                 let location = Location::new(url, range);
                 Some(GotoDefinitionResponse::Scalar(location))
@@ -557,13 +551,13 @@ impl LspFiles {
                 }
                 Some(commands)
             }
+            JinjaCodeAction::CreateTemplate(template) if template.is_empty() => None,
             JinjaCodeAction::CreateTemplate(template) => {
                 let templates = self.config.templates.to_owned();
                 if let Ok(mut path) = std::fs::canonicalize(templates) {
                     path.push(path_items(&template));
-                    let name = format!("file:///{}", path.to_str().unwrap());
                     let cf = CreateFile {
-                        uri: Url::parse(&name).unwrap(),
+                        uri: Url::from_file_path(path).ok()?,
                         options: Some(CreateFileOptions {
                             overwrite: Some(false),
                             ignore_if_exists: Some(true),
-- 
2.43.0


From 46cc16873211453329f1825d4e98b48e3edaa1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:06 +0000
Subject: [PATCH 11/49] fix: complete template names relative to the template
 directory

The name was cut out of the URI by searching the configured path in it, and
the typed text was looked for in the absolute path of each template.
---
 jinja-lsp/src/lsp_files.rs | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 808b635..7931e00 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -707,30 +707,21 @@ impl LspFiles {
 
     pub fn read_templates(
         &self,
-        mut prefix: String,
+        prefix: String,
         range: Range,
         start_point: Position,
         _: Option<String>,
     ) -> Option<Vec<CompletionItem>> {
         let all_templates = self.trees.get(&LangType::Template)?;
-        if prefix.is_empty() {
-            prefix = String::from("file:///");
-        }
-        let templates = all_templates
-            .keys()
-            .filter(|template| template.contains(&prefix));
+        let root = std::fs::canonicalize(&self.config.templates).ok()?;
+        // Templates are referred to by their path below the template directory.
+        let labels = all_templates.keys().filter_map(|template| {
+            let path = Url::parse(template).ok()?.to_file_path().ok()?;
+            let label = path.strip_prefix(&root).ok()?.to_str()?;
+            Some(label.replace(std::path::MAIN_SEPARATOR, "/"))
+        });
         let mut abc = vec![];
-        for template in templates {
-            let c = &self
-                .config
-                .templates
-                .as_path()
-                .to_str()
-                .unwrap()
-                .replace('.', "");
-            let mut parts = template.split(c);
-            parts.next();
-            let label = parts.next()?.replacen('/', "", 1);
+        for label in labels.filter(|label| label.contains(&prefix)) {
             let new_text = format!("\"{label}\"");
             let mut additional_text_edits = None;
             let text_edit = {
-- 
2.43.0


From 1988e2e4134739b174ce943c6354298446ba5f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:06 +0000
Subject: [PATCH 12/49] fix: insert the chosen variable in Visual Studio Code

The edit put back the typed prefix instead of the name that was chosen.
---
 jinja-lsp/src/lsp_files.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 7931e00..70ea878 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -653,7 +653,7 @@ impl LspFiles {
                         let mut edits = vec;
                         edits.push(TextEdit {
                             range: incomplete_range,
-                            new_text: start_item.to_string(),
+                            new_text: identifier.name.to_string(),
                         });
                         additional_text_edits = Some(edits);
                         CompletionTextEdit::Edit(TextEdit {
-- 
2.43.0


From 143466bcb756df6a6d7936b022d97e18eb12ba20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:56 +0000
Subject: [PATCH 13/49] fix: complete a template name that spans lines without
 overflow

---
 jinja-lsp-queries/src/search/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/mod.rs b/jinja-lsp-queries/src/search/mod.rs
index 2659569..2538cd5 100644
--- a/jinja-lsp-queries/src/search/mod.rs
+++ b/jinja-lsp-queries/src/search/mod.rs
@@ -61,7 +61,7 @@ pub fn completion_start(mut trigger_point: Point, identifier: &Identifier) -> Op
     if len == 0 {
         return Some("");
     }
-    let diff = identifier.end.column - trigger_point.column;
+    let diff = identifier.end.column.saturating_sub(trigger_point.column);
     if diff == 0 || diff == 1 {
         return Some(&identifier.name);
     }
-- 
2.43.0


From 94ba4562c340b07d3a9ea37c01c7ed17ac17792c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:56 +0000
Subject: [PATCH 14/49] fix: answer from the object under the cursor, not from
 what follows it

Captures behind the cursor changed the identifier, the expression or the
range that goto definition and completion used, a missing object was indexed
(underflow), and filters were offered at the start of every document.
---
 jinja-lsp-queries/src/search/objects.rs | 81 +++++++++----------------
 1 file changed, 27 insertions(+), 54 deletions(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 7049bb1..8312201 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -10,7 +10,6 @@ pub struct JinjaObject {
     pub is_filter: bool,
     pub is_test: bool,
     pub fields: Vec<(String, (Point, Point))>,
-    pub capture_first: bool,
 }
 
 impl JinjaObject {
@@ -20,7 +19,6 @@ impl JinjaObject {
             location: (start, end),
             fields: vec![],
             is_filter,
-            capture_first: false,
             is_test,
         }
     }
@@ -184,7 +182,8 @@ impl JinjaObjects {
     }
 
     pub fn in_pipe(&self, trigger_point: Point) -> bool {
-        trigger_point >= self.pipe.0 && trigger_point <= self.pipe.1
+        let found = self.pipe.0 < self.pipe.1;
+        found && trigger_point >= self.pipe.0 && trigger_point <= self.pipe.1
     }
 
     pub fn in_expr(&self, trigger_point: Point) -> bool {
@@ -233,6 +232,10 @@ impl JinjaObjects {
             .map_or(Range::default(), |item| item.full_range())
     }
 
+    fn chain_end(&self) -> Option<Point> {
+        self.objects.last().map(JinjaObject::last_field_end)
+    }
+
     pub fn is_test(&self, trigger_point: Point) -> bool {
         self.test.2 && trigger_point >= self.test.1 && trigger_point.row == self.test.1.row
     }
@@ -249,67 +252,37 @@ pub fn objects_query(
     let mut objects = JinjaObjects::default();
     let mut cursor_qry = QueryCursor::new();
     let capture_names = query.capture_names();
-    let mut continued = false;
-    let mut my_id = 0;
-    let mut my_expr = (
-        Point::default(),
-        Point::default(),
-        ExpressionRange::default(),
-    );
+    let mut ident = None;
     let matches = cursor_qry.matches(query, closest_node, text.as_bytes());
     'loop1: for m in matches {
         for capture in m.captures {
-            let smaller = trigger_point <= capture.node.start_position();
-            if all || trigger_point >= capture.node.start_position() {
-                let name = &capture_names[capture.index as usize];
-                let checked = objects.check(name, capture, text);
-                if checked.is_none() {
+            let start = capture.node.start_position();
+            let name = capture_names[capture.index as usize];
+            if !all && trigger_point < start {
+                // Behind the trigger point, only the fields of the object under it matter.
+                if objects.is_filter() || !objects.is_hover(trigger_point) {
                     break 'loop1;
                 }
-            } else if smaller {
-                let name = capture_names[capture.index as usize];
-                if objects.is_filter() || name == "expr" {
+                ident.get_or_insert(objects.ident);
+                let same_chain = match name {
+                    "dot" => objects.chain_end() == Some(start),
+                    "just_id" => objects.dot.1 == start,
+                    // Every operator is captured as pipe too, dots included.
+                    "pipe" if objects.chain_end() == Some(start) => continue,
+                    _ => false,
+                };
+                if !same_chain {
                     break 'loop1;
-                } else if !continued {
-                    if objects.is_hover(trigger_point) {
-                        continued = true;
-                        my_id = objects.objects.len() - 1;
-                        my_expr = objects.expr;
-                        continue;
-                    } else {
-                        break 'loop1;
-                    }
-                } else if continued {
-                    let name = &capture_names[capture.index as usize];
-                    let checked = objects.check(name, capture, text);
-                    if checked.is_none() {
-                        break 'loop1;
-                    } else if checked.is_some_and(|item| {
-                        matches!(
-                            item,
-                            ObjectAction::Expression
-                                | ObjectAction::NewObject
-                                | ObjectAction::Invalid
-                        )
-                    }) {
-                        objects
-                            .objects
-                            .get_mut(my_id)
-                            .and_then(|obj| -> Option<()> {
-                                objects.ident = obj.location;
-                                obj.capture_first = true;
-                                None
-                            });
-                        if my_id != objects.objects.len() - 1 {
-                            objects.objects.pop();
-                            objects.expr = my_expr;
-                        }
-                        break 'loop1;
-                    }
                 }
             }
+            if objects.check(name, capture, text).is_none() {
+                break 'loop1;
+            }
         }
     }
+    if let Some(ident) = ident {
+        objects.ident = ident;
+    }
     objects
 }
 
-- 
2.43.0


From 43601ad0d8ab14d1e5235d734601699bcc41bc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:17 +0000
Subject: [PATCH 15/49] fix: open and close scopes at tags only

Only the first keyword of a statement opens or closes a scope, elif and else
close the branch before them, the second target of a for loop is the one after
a comma, a with block defines the names before '=' and a macro the names in its
parameter list. Values, inline conditions and call arguments define nothing.
---
 jinja-lsp-queries/src/search/definition.rs | 62 +++++++++++++++++-----
 jinja-lsp-queries/src/search/queries.rs    |  2 +-
 2 files changed, 50 insertions(+), 14 deletions(-)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index 4eb8c15..d8ecd7e 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -1,6 +1,6 @@
 use std::collections::{HashSet, LinkedList};
 
-use tree_sitter::{Point, Query, QueryCapture, QueryCursor, Tree};
+use tree_sitter::{Node, Point, Query, QueryCapture, QueryCursor, Tree};
 
 use super::{Identifier, IdentifierType};
 
@@ -158,6 +158,12 @@ pub struct JinjaDefinitions {
 impl JinjaDefinitions {
     fn check(&mut self, name: &str, capture: &QueryCapture<'_>, text: &str) -> Option<bool> {
         let id = capture.node.id();
+        // A keyword inside of a statement (inline if, with context) is not a tag.
+        let begin = capture.node.prev_sibling();
+        let begin = begin.filter(|node| node.kind() == "statement_begin");
+        if matches!(name, "definition" | "scope" | "endblock") && begin.is_none() {
+            return Some(false);
+        }
         match name {
             "definition" => {
                 if self.all_ids.contains(&id) {
@@ -188,6 +194,10 @@ impl JinjaDefinitions {
                 }
             }
             "scope" => {
+                let content = capture.node.utf8_text(text.as_bytes()).ok()?;
+                if matches!(content, "elif" | "else") {
+                    self.close_scope(begin?.start_position());
+                }
                 self.can_close_scope = false;
                 self.can_open_scope = true;
                 self.is_end = false;
@@ -231,11 +241,14 @@ impl JinjaDefinitions {
                         Definition::ForLoop { key, value } => {
                             if key.name.is_empty() {
                                 *key = identifier;
-                            } else if let Some(value) = value {
-                                if value.name.is_empty() {
-                                    *value = identifier;
-                                    self.can_add_id = false;
+                            } else {
+                                let comma = operator_before(capture, text, &[","]);
+                                let key_before = comma.and_then(|comma| comma.prev_sibling());
+                                if key_before.is_some_and(|node| node.start_position() == key.start)
+                                {
+                                    *value = Some(identifier);
                                 }
+                                self.can_add_id = false;
                             }
                         }
                         Definition::Set { key, .. } => {
@@ -245,13 +258,20 @@ impl JinjaDefinitions {
                             }
                         }
                         Definition::With { keys } => {
-                            keys.push(identifier);
+                            // Everything else is part of a value.
+                            let next = capture.node.next_sibling();
+                            let next = next.and_then(|node| node.utf8_text(text.as_bytes()).ok());
+                            if next.is_some_and(|text| text.trim() == "=") {
+                                keys.push(identifier);
+                            }
                         }
                         Definition::Macro { keys, scope } => {
                             if keys.is_empty() {
                                 identifier.scope_ends.0 = *scope;
+                                keys.push(identifier);
+                            } else if operator_before(capture, text, &["(", ","]).is_some() {
+                                keys.push(identifier);
                             }
-                            keys.push(identifier);
                         }
                         Definition::Block { name } => {
                             if name.name.is_empty() {
@@ -267,16 +287,13 @@ impl JinjaDefinitions {
                     self.can_close_scope = false;
                     self.can_add_id = false;
                     self.is_end = false;
-                    if let Some(mut last) = self.current_scope.pop_front() {
-                        last.end = capture.node.start_position();
-                        self.all_scopes.push(last);
-                    }
+                    self.close_scope(capture.node.start_position());
                 }
             }
             "scope_start" => {
+                self.can_add_id = false;
                 if self.can_open_scope {
                     self.can_open_scope = false;
-                    self.can_add_id = false;
                     if let Some(last) = self.current_scope.front_mut() {
                         last.start = capture.node.end_position();
                     }
@@ -287,12 +304,20 @@ impl JinjaDefinitions {
         Some(true)
     }
 
+    fn close_scope(&mut self, end: Point) {
+        if let Some(mut last) = self.current_scope.pop_front() {
+            last.end = end;
+            self.all_scopes.push(last);
+        }
+    }
+
     pub fn identifiers(self) -> Vec<Identifier> {
         let mut ids = vec![];
         for id in self.definitions {
             id.collect(&mut ids);
         }
-
+        // A definition that is not written yet has no name.
+        ids.retain(|id| !id.name.is_empty());
         ids
     }
 
@@ -359,6 +384,17 @@ impl JinjaDefinitions {
     }
 }
 
+fn operator_before<'a>(
+    capture: &QueryCapture<'a>,
+    text: &str,
+    endings: &[&str],
+) -> Option<Node<'a>> {
+    let operator = capture.node.prev_sibling()?;
+    let content = operator.utf8_text(text.as_bytes()).ok()?.trim_end();
+    let found = endings.iter().any(|ending| content.ends_with(ending));
+    (operator.kind() == "operator" && found).then_some(operator)
+}
+
 pub fn definition_query(
     query: &Query,
     tree: &Tree,
diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index 844e3ed..ea41eac 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -217,7 +217,7 @@ const DEFINITIONS: &str = r#"
 
     (
         (keyword) @endblock
-        (#match? @endblock "^end")
+        (#match? @endblock "^end(for|if|with|macro|block|filter|autoescape|raw)$")
     )
 
 (
-- 
2.43.0


From d9de25d06b28f5f7f9a866edb76fd446f78bd7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:03 +0000
Subject: [PATCH 16/49] fix: read keywords and filters of an expression as such

Inside of {{ }} the keywords are parsed as identifiers and were reported as
undefined variables, and so were a test after 'is' and a filter after ')' or ']'.
---
 jinja-lsp-queries/src/search/objects.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 8312201..b8689ed 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -63,6 +63,14 @@ impl JinjaObjects {
                 return None;
             }
             "just_id" => {
+                // Keywords of an expression are parsed as identifiers.
+                let content = capture.node.utf8_text(source.as_bytes()).ok()?;
+                if self.dot.1 != start && KEYWORDS.contains(&content) {
+                    if content == "is" {
+                        self.test = (start, end, true);
+                    }
+                    return Some(ObjectAction::Invalid);
+                }
                 return Some(self.build_object(capture, source));
             }
             "dot" => {
@@ -71,8 +79,18 @@ impl JinjaObjects {
             }
             "pipe" => {
                 let content = capture.node.utf8_text(source.as_bytes()).ok()?;
-                if content.starts_with('|') {
-                    self.pipe = (start, end);
+                // Neighbouring operators are one node: ")|" ends with a pipe too.
+                if content.trim_end().ends_with('|') {
+                    let before = &content[..content.rfind('|')?];
+                    let mut pipe = start;
+                    for byte in before.bytes() {
+                        if byte == b'\n' {
+                            pipe = Point::new(pipe.row + 1, 0);
+                        } else {
+                            pipe.column += 1;
+                        }
+                    }
+                    self.pipe = (pipe, end);
                 }
                 return Some(ObjectAction::NewFilter);
             }
@@ -297,6 +315,8 @@ pub enum CompletionType {
     IncompleteFilter { name: String, range: Range },
 }
 
+static KEYWORDS: [&str; 6] = ["if", "else", "and", "or", "in", "is"];
+
 static VALID_IDENTIFIERS: [&str; 8] = [
     "loop", "true", "false", "not", "as", "module", "super", "url_for",
 ];
-- 
2.43.0


From ec5359dd735f87e2b0c7d3d7dad69c6782a15106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:21 +0000
Subject: [PATCH 17/49] fix: a block name or the filter of a filter block is
 not a variable

---
 jinja-lsp-queries/src/lsp_helper.rs     |  2 +-
 jinja-lsp-queries/src/search/objects.rs | 18 ++++++++++--------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/jinja-lsp-queries/src/lsp_helper.rs b/jinja-lsp-queries/src/lsp_helper.rs
index cd77889..f09b2ed 100644
--- a/jinja-lsp-queries/src/lsp_helper.rs
+++ b/jinja-lsp-queries/src/lsp_helper.rs
@@ -34,7 +34,7 @@ pub fn search_errors(
             let objects = objects.show();
             let this_file = variables.get(file_name)?;
             for object in objects {
-                if object.is_filter || object.is_test {
+                if object.is_filter || object.is_test || object.is_block {
                     continue;
                 }
                 let mut exist = false;
diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index b8689ed..916619f 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -9,6 +9,7 @@ pub struct JinjaObject {
     pub location: (Point, Point),
     pub is_filter: bool,
     pub is_test: bool,
+    pub is_block: bool,
     pub fields: Vec<(String, (Point, Point))>,
 }
 
@@ -20,6 +21,7 @@ impl JinjaObject {
             fields: vec![],
             is_filter,
             is_test,
+            is_block: false,
         }
     }
 
@@ -151,14 +153,14 @@ impl JinjaObjects {
                 }
                 self.ident = (start, end);
                 let is_test = self.test.2;
-                let is_filter = self.is_hover(start) && self.is_filter();
-                self.objects.push(JinjaObject::new(
-                    String::from(value),
-                    start,
-                    end,
-                    is_filter,
-                    is_test,
-                ));
+                let keyword = capture.node.prev_sibling();
+                let keyword = keyword.and_then(|node| node.utf8_text(source.as_bytes()).ok());
+                let is_filter =
+                    self.is_hover(start) && self.is_filter() || keyword == Some("filter");
+                let mut object =
+                    JinjaObject::new(String::from(value), start, end, is_filter, is_test);
+                object.is_block = matches!(keyword, Some("block" | "endblock"));
+                self.objects.push(object);
                 self.test.2 = false;
                 return ObjectAction::NewObject;
             }
-- 
2.43.0


From 6962f2caaa3af0f56a4e1cc2f0fc33d2fbfd3e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:08 +0000
Subject: [PATCH 18/49] fix: look up variables among variables only

A block or template of the same name was taken for the definition of a variable,
and the definition itself was not recognised as one.
---
 jinja-lsp-queries/src/lsp_helper.rs |  1 +
 jinja-lsp-queries/src/search/mod.rs | 10 ++++++++++
 jinja-lsp/src/lsp_files.rs          |  9 +++++++--
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp-queries/src/lsp_helper.rs b/jinja-lsp-queries/src/lsp_helper.rs
index f09b2ed..a6b60ca 100644
--- a/jinja-lsp-queries/src/lsp_helper.rs
+++ b/jinja-lsp-queries/src/lsp_helper.rs
@@ -69,6 +69,7 @@ pub fn search_errors(
                         let temp = file
                             .1
                             .iter()
+                            .filter(|variable| variable.is_variable())
                             .filter(|variable| variable.name == object.name);
                         if temp.count() != 0 {
                             err_type = JinjaDiagnostic::DefinedSomewhere;
diff --git a/jinja-lsp-queries/src/search/mod.rs b/jinja-lsp-queries/src/search/mod.rs
index 2538cd5..893ded6 100644
--- a/jinja-lsp-queries/src/search/mod.rs
+++ b/jinja-lsp-queries/src/search/mod.rs
@@ -45,6 +45,16 @@ impl Identifier {
     }
 }
 
+impl Identifier {
+    /// Neither a block nor a template is a variable, whatever its name.
+    pub fn is_variable(&self) -> bool {
+        !matches!(
+            self.identifier_type,
+            IdentifierType::TemplateBlock | IdentifierType::JinjaTemplate
+        )
+    }
+}
+
 impl From<&JinjaObject> for Identifier {
     fn from(value: &JinjaObject) -> Self {
         let mut identifier = Identifier::new(&value.name, value.location.0, value.location.1);
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 70ea878..33fd729 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -416,9 +416,11 @@ impl LspFiles {
                 let objects = objects_query(query, tree, point, &writter.content, false);
                 let mut res = objects.is_ident(point).and_then(|ident| {
                     ident.clone_into(&mut current_ident);
+                    let is_block = objects.get_last_id()?.is_block;
                     let variables = self.variables.get(&uri)?;
                     let max = variables
                         .iter()
+                        .filter(|item| item.is_variable() != is_block)
                         .filter(|item| {
                             item.name == ident && item.start <= point && point <= item.scope_ends.1
                         })
@@ -448,7 +450,9 @@ impl LspFiles {
                             continue;
                         }
                         let variables = file.1.iter().filter(|item| {
-                            item.name.split('.').next().unwrap_or(&item.name) == current_ident
+                            item.is_variable()
+                                && item.name.split('.').next().unwrap_or(&item.name)
+                                    == current_ident
                         });
                         for variable in variables {
                             let uri = {
@@ -858,7 +862,7 @@ impl LspFiles {
             .iter()
             .filter(|variable| variable.identifier_type != IdentifierType::TemplateBlock)
             .filter(|variable| {
-                let bigger = hover.start >= variable.end;
+                let bigger = hover.start >= variable.start;
                 let in_scope = hover.start <= variable.scope_ends.1;
                 let same_name = hover.name == variable.name;
                 bigger && in_scope && same_name
@@ -874,6 +878,7 @@ impl LspFiles {
             let variables = file
                 .1
                 .iter()
+                .filter(|item| item.is_variable())
                 .filter(|item| item.name.split('.').next().unwrap_or(&item.name) == hover.name);
             if variables.count() > 0 {
                 return Some(IdentifierType::BackendVariable);
-- 
2.43.0


From 9c2ed870a284e8003e9703e0a7833841fedafb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:49 +0000
Subject: [PATCH 19/49] fix: exchange positions with the editor in UTF-16 code
 units

Requests, completion ranges, symbols, definitions and diagnostics used byte
columns, which are off behind the first character that is not ASCII.
---
 jinja-lsp-queries/src/to_input_edit.rs |  7 +++
 jinja-lsp/src/lsp_files.rs             | 80 +++++++++++++++-----------
 2 files changed, 55 insertions(+), 32 deletions(-)

diff --git a/jinja-lsp-queries/src/to_input_edit.rs b/jinja-lsp-queries/src/to_input_edit.rs
index 1dc6d61..3aa9823 100644
--- a/jinja-lsp-queries/src/to_input_edit.rs
+++ b/jinja-lsp-queries/src/to_input_edit.rs
@@ -98,6 +98,13 @@ fn point_at(rope: &Rope, offset: usize) -> Point {
     point
 }
 
+/// LSP (UTF-16) position of a row and byte column, `lines` are the lines of the document.
+pub fn to_utf16(lines: &[&str], point: Point) -> Position {
+    let line = lines.get(point.row).and_then(|line| line.get(..point.column));
+    let character = line.map_or(point.column, |line| line.encode_utf16().count());
+    Position::new(point.row as u32, character as u32)
+}
+
 pub fn to_position2(point: Point) -> Position {
     Position::new(point.row as u32, point.column as u32)
 }
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 33fd729..77559df 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -10,7 +10,7 @@ use jinja_lsp_queries::{
         rust_template_completion::backend_templates_query,
         snippets_completion::snippets_query,
         templates::templates_query,
-        to_range, Identifier, IdentifierType,
+        to_point, Identifier, IdentifierType,
     },
     tree_builder::{JinjaDiagnostic, LangType},
 };
@@ -32,7 +32,7 @@ use tower_lsp::lsp_types::{
 use jinja_lsp_queries::{
     parsers::Parsers,
     search::objects::CompletionType,
-    to_input_edit::{to_position2, ToInputEdit},
+    to_input_edit::{to_utf16, ToInputEdit},
 };
 use ropey::Rope;
 
@@ -226,7 +226,7 @@ impl LspFiles {
         let lang_type = self.config.file_ext(&Path::new(name))?;
         let trees = self.trees.get(&lang_type)?;
         let tree = trees.get(name)?;
-        search_errors(
+        let mut errors = search_errors(
             tree,
             &content,
             &self.queries,
@@ -235,7 +235,20 @@ impl LspFiles {
             self.config.templates.clone(),
             lang_type,
             self.ignore_globals,
-        )
+        )?;
+        let lines: Vec<_> = content.split('\n').collect();
+        for (_, identifier) in &mut errors {
+            identifier.start = to_point(to_utf16(&lines, identifier.start));
+            identifier.end = to_point(to_utf16(&lines, identifier.end));
+        }
+        Some(errors)
+    }
+
+    /// Range of the editor, whose columns count UTF-16 code units instead of bytes.
+    fn to_range(&self, name: &str, start: Point, end: Point) -> Range {
+        let text = self.documents.get(name).map(Rope::to_string);
+        let lines: Vec<_> = text.iter().flat_map(|text| text.split('\n')).collect();
+        Range::new(to_utf16(&lines, start), to_utf16(&lines, end))
     }
 
     pub fn did_save(&mut self, params: DidSaveTextDocumentParams) -> Option<DiagnosticMessage> {
@@ -278,13 +291,12 @@ impl LspFiles {
         }
 
         let uri = params.text_document_position.text_document.uri.to_string();
-        let row = params.text_document_position.position.line;
-        let column = params.text_document_position.position.character;
-        let point = Point::new(row as usize, column as usize);
+        let position = params.text_document_position.position;
         let ext = self.config.file_ext(&Path::new(&uri))?;
         let trees = self.trees.get(&ext)?;
         let tree = trees.get(&uri)?;
         let doc = self.documents.get(&uri)?;
+        let point = doc.to_point(position);
         let mut writter = FileContent::default();
         let _ = doc.write_to(&mut writter);
         match ext {
@@ -292,22 +304,26 @@ impl LspFiles {
                 let query = &self.queries.jinja_snippets;
                 let snippets = snippets_query(query, tree, point, &writter.content, false);
                 if snippets.to_complete(point).is_some() {
-                    let start = to_position2(point);
-                    let mut end = to_position2(point);
+                    let start = position;
+                    let mut end = position;
                     end.character += 1;
                     let range = Range::new(start, end);
                     return Some((CompletionType::Snippets { range }, false));
                 }
                 let query = &self.queries.jinja_objects;
                 let objects = objects_query(query, tree, point, &writter.content, false);
-                if let Some(completion) = objects.completion(point) {
+                if let Some(mut completion) = objects.completion(point) {
+                    if let CompletionType::IncompleteIdentifier { range, .. } = &mut completion.0 {
+                        let (start, end) = (to_point(range.start), to_point(range.end));
+                        *range = self.to_range(&uri, start, end);
+                    }
                     return Some(completion);
                 }
                 let query = &self.queries.jinja_imports;
                 let query = templates_query(query, tree, point, &writter.content, false);
                 let identifier = query.in_template(point)?.get_identifier(point)?;
                 let start = completion_start(point, identifier)?;
-                let range = to_range((identifier.start, identifier.end));
+                let range = self.to_range(&uri, identifier.start, identifier.end);
                 Some((
                     CompletionType::IncludedTemplate {
                         name: start.to_owned(),
@@ -326,7 +342,7 @@ impl LspFiles {
                 );
                 let identifier = rust_templates.in_template(point)?;
                 let start = completion_start(point, identifier)?;
-                let range = to_range((identifier.start, identifier.end));
+                let range = self.to_range(&uri, identifier.start, identifier.end);
                 Some((
                     CompletionType::IncludedTemplate {
                         name: start.to_owned(),
@@ -361,13 +377,11 @@ impl LspFiles {
             .text_document
             .uri
             .to_string();
-        let row = params.text_document_position_params.position.line;
-        let column = params.text_document_position_params.position.character;
-        let trigger_point = Point::new(row as usize, column as usize);
         let trees = self.trees.get(&LangType::Template)?;
         let tree = trees.get(&uri)?;
         let query = &self.queries.jinja_objects;
         let doc = self.documents.get(&uri)?;
+        let trigger_point = doc.to_point(params.text_document_position_params.position);
         let mut writter = FileWriter::default();
         let _ = doc.write_to(&mut writter);
         let objects = objects_query(query, tree, trigger_point, &writter.content, false);
@@ -401,10 +415,8 @@ impl LspFiles {
         let lang_type = self.config.file_ext(&Path::new(&uri))?;
         let trees = self.trees.get(&lang_type)?;
         let tree = trees.get(&uri)?;
-        let row = params.text_document_position_params.position.line;
-        let column = params.text_document_position_params.position.character;
-        let point = Point::new(row as usize, column as usize);
         let doc = self.documents.get(&uri)?;
+        let point = doc.to_point(params.text_document_position_params.position);
         let mut writter = FileWriter::default();
         let _ = doc.write_to(&mut writter);
 
@@ -425,8 +437,7 @@ impl LspFiles {
                             item.name == ident && item.start <= point && point <= item.scope_ends.1
                         })
                         .max()?;
-                    let (start, end) = (to_position2(max.start), to_position2(max.end));
-                    let range = Range::new(start, end);
+                    let range = self.to_range(&uri, max.start, max.end);
                     Some(GotoDefinitionResponse::Scalar(Location {
                         uri: uri2.clone(),
                         range,
@@ -464,9 +475,7 @@ impl LspFiles {
                                     Url::parse(file.0).unwrap()
                                 }
                             };
-                            let start = to_position2(variable.start);
-                            let end = to_position2(variable.end);
-                            let range = Range::new(start, end);
+                            let range = self.to_range(file.0, variable.start, variable.end);
                             let location = Location::new(uri, range);
                             all.push(location);
                         }
@@ -494,9 +503,8 @@ impl LspFiles {
     pub fn code_action(&self, action_params: CodeActionParams) -> Option<JinjaCodeAction> {
         let uri = action_params.text_document.uri.to_string();
         let lang_type = self.config.file_ext(&Path::new(&uri))?;
-        let row = action_params.range.start.line;
-        let column = action_params.range.start.character;
-        let point = Point::new(row as usize, column as usize);
+        // Code actions come from diagnostics, which are already in positions of the editor.
+        let point = to_point(action_params.range.start);
         let trees = self.trees.get(&lang_type)?;
         let tree = trees.get(&uri)?;
         let code_actions = self.code_actions.get(&uri)?;
@@ -512,6 +520,7 @@ impl LspFiles {
                 if let Some(code_action) = code_action {
                     return Some(JinjaCodeAction::CreateTemplate(code_action.name.to_owned()));
                 }
+                let point = doc.to_point(action_params.range.start);
                 let objects = objects_query(query, tree, point, &writter.content, false);
                 if objects.in_expr(point) {
                     return Some(JinjaCodeAction::Reset);
@@ -621,10 +630,8 @@ impl LspFiles {
         nodejs_uri: Option<String>,
     ) -> Option<Vec<CompletionItem>> {
         let mut items = vec![];
-        let start = position.line as usize;
-        let end = position.character as usize;
-        let position = Point::new(start, end);
         let uri = &uri.to_string();
+        let position = self.documents.get(uri)?.to_point(position);
         let mut names = HashSet::new();
         let this_file = self.variables.get(uri)?;
         let this_file = this_file
@@ -892,15 +899,24 @@ impl LspFiles {
         params: tower_lsp::lsp_types::DocumentSymbolParams,
     ) -> Option<DocumentSymbolResponse> {
         let mut symbols = vec![];
-        let variables = self.variables.get(params.text_document.uri.as_str())?;
+        let uri = params.text_document.uri.as_str();
+        let variables = self.variables.get(uri)?;
+        let text = self.documents.get(uri)?.to_string();
+        let lines: Vec<_> = text.split('\n').collect();
+        let to_range = |variable: &Identifier| {
+            Range::new(
+                to_utf16(&lines, variable.start),
+                to_utf16(&lines, variable.end),
+            )
+        };
         for variable in variables {
             #[allow(deprecated)]
             let symbol = DocumentSymbol {
                 name: variable.name.to_owned(),
                 detail: None,
                 kind: variable.identifier_type.symbol_kind(),
-                range: to_range((variable.start, variable.end)),
-                selection_range: to_range((variable.start, variable.end)),
+                range: to_range(variable),
+                selection_range: to_range(variable),
                 children: None,
                 deprecated: None,
                 tags: None,
-- 
2.43.0


From cddfa4379954790baf928436a8c5d2d1f18dd555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:00 +0000
Subject: [PATCH 20/49] fix: members of calls and names of arguments are not
 variables

'y' in f(x).y and in f(y=x) was reported as an undefined variable.
---
 jinja-lsp-queries/src/lsp_helper.rs     |  3 ++-
 jinja-lsp-queries/src/search/objects.rs | 23 ++++++++++++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp-queries/src/lsp_helper.rs b/jinja-lsp-queries/src/lsp_helper.rs
index a6b60ca..191655d 100644
--- a/jinja-lsp-queries/src/lsp_helper.rs
+++ b/jinja-lsp-queries/src/lsp_helper.rs
@@ -34,7 +34,8 @@ pub fn search_errors(
             let objects = objects.show();
             let this_file = variables.get(file_name)?;
             for object in objects {
-                if object.is_filter || object.is_test || object.is_block {
+                let known = object.is_filter || object.is_test;
+                if known || object.is_block || object.is_argument {
                     continue;
                 }
                 let mut exist = false;
diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 916619f..e9618dc 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -10,6 +10,7 @@ pub struct JinjaObject {
     pub is_filter: bool,
     pub is_test: bool,
     pub is_block: bool,
+    pub is_argument: bool,
     pub fields: Vec<(String, (Point, Point))>,
 }
 
@@ -22,6 +23,7 @@ impl JinjaObject {
             is_filter,
             is_test,
             is_block: false,
+            is_argument: false,
         }
     }
 
@@ -46,6 +48,7 @@ pub struct JinjaObjects {
     objects: Vec<JinjaObject>,
     dot: (Point, Point),
     pipe: (Point, Point),
+    member: Point,
     test: (Point, Point, bool),
     expr: (Point, Point, ExpressionRange),
     ident: (Point, Point),
@@ -76,7 +79,11 @@ impl JinjaObjects {
                 return Some(self.build_object(capture, source));
             }
             "dot" => {
-                self.dot = (start, end);
+                if start == self.member {
+                    self.member = end;
+                } else {
+                    self.dot = (start, end);
+                }
                 return Some(ObjectAction::NewField);
             }
             "pipe" => {
@@ -94,6 +101,10 @@ impl JinjaObjects {
                     }
                     self.pipe = (pipe, end);
                 }
+                // A member of a call or of an item, it belongs to no object.
+                if content != "." && content.trim_end().ends_with('.') {
+                    self.member = end;
+                }
                 return Some(ObjectAction::NewFilter);
             }
             "is" => {
@@ -124,6 +135,10 @@ impl JinjaObjects {
         let start = capture.node.start_position();
         let end = capture.node.end_position();
         if let Ok(value) = value {
+            if start == self.member {
+                self.member = end;
+                return ObjectAction::Invalid;
+            }
             if start.row == self.dot.1.row && start.column == self.dot.1.column {
                 let last_object = self.objects.last_mut().map(|last| {
                     last.fields.push((String::from(value), (start, end)));
@@ -160,6 +175,12 @@ impl JinjaObjects {
                 let mut object =
                     JinjaObject::new(String::from(value), start, end, is_filter, is_test);
                 object.is_block = matches!(keyword, Some("block" | "endblock"));
+                let next = capture.node.next_sibling();
+                let next = next.and_then(|node| node.utf8_text(source.as_bytes()).ok());
+                object.is_argument = next.is_some_and(|next| {
+                    let next = next.trim_start();
+                    next.starts_with('=') && !next.starts_with("==")
+                });
                 self.objects.push(object);
                 self.test.2 = false;
                 return ObjectAction::NewObject;
-- 
2.43.0


From 450bb751ded2026acaba864962dc59caf7896204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 21/49] fix: a bracketed value of a with block or macro defines
 nothing, and ends nothing

---
 jinja-lsp-queries/src/search/definition.rs | 26 ++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index d8ecd7e..0842c54 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -261,7 +261,9 @@ impl JinjaDefinitions {
                             // Everything else is part of a value.
                             let next = capture.node.next_sibling();
                             let next = next.and_then(|node| node.utf8_text(text.as_bytes()).ok());
-                            if next.is_some_and(|text| text.trim() == "=") {
+                            let next = next.unwrap_or_default().trim_start();
+                            let equals = next.starts_with('=') && !next.starts_with("==");
+                            if equals && nesting(capture, text) == Some(0) {
                                 keys.push(identifier);
                             }
                         }
@@ -269,7 +271,9 @@ impl JinjaDefinitions {
                             if keys.is_empty() {
                                 identifier.scope_ends.0 = *scope;
                                 keys.push(identifier);
-                            } else if operator_before(capture, text, &["(", ","]).is_some() {
+                            } else if operator_before(capture, text, &["(", ","]).is_some()
+                                && nesting(capture, text) == Some(1)
+                            {
                                 keys.push(identifier);
                             }
                         }
@@ -395,6 +399,24 @@ fn operator_before<'a>(
     (operator.kind() == "operator" && found).then_some(operator)
 }
 
+/// Number of brackets around a part of a statement.
+fn nesting(capture: &QueryCapture<'_>, text: &str) -> Option<i32> {
+    if capture.node.parent()?.kind() != "statement" {
+        return None;
+    }
+    let mut nesting = 0;
+    let mut previous = capture.node.prev_sibling();
+    while let Some(node) = previous.filter(|node| node.kind() != "statement_begin") {
+        if node.kind() == "operator" {
+            let content = node.utf8_text(text.as_bytes()).ok()?;
+            nesting += content.matches(['(', '[']).count() as i32;
+            nesting -= content.matches([')', ']']).count() as i32;
+        }
+        previous = node.prev_sibling();
+    }
+    Some(nesting)
+}
+
 pub fn definition_query(
     query: &Query,
     tree: &Tree,
-- 
2.43.0


From d962255ac54666f988916eabbfbfba48f1a446ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:57 +0000
Subject: [PATCH 22/49] fix: no hover on block names that happen to be
 variables

---
 jinja-lsp/src/lsp_files.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 77559df..dd06442 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -387,6 +387,9 @@ impl LspFiles {
         let objects = objects_query(query, tree, trigger_point, &writter.content, false);
         if objects.is_hover(trigger_point) {
             let object = objects.get_last_id()?;
+            if object.is_block {
+                return None;
+            }
             if object.is_filter {
                 return Some((Identifier::from(object), CompletionType::Filter));
             } else if object.is_test {
-- 
2.43.0


From bbb98091f9c362dc3028f8d9a392a0712bcfe7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:20 +0000
Subject: [PATCH 23/49] fix: parse a changed document from scratch

---
 jinja-lsp/src/lsp_files.rs | 29 +++++------------------------
 1 file changed, 5 insertions(+), 24 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index dd06442..89719d5 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -41,7 +41,7 @@ use tower_lsp::lsp_types::{
     DidChangeTextDocumentParams, DidSaveTextDocumentParams, GotoDefinitionParams,
     GotoDefinitionResponse, HoverParams, Location, Position, Range, Url,
 };
-use tree_sitter::{InputEdit, Point, Tree};
+use tree_sitter::{Point, Tree};
 
 use crate::{
     channels::{diagnostics::DiagnosticMessage, lsp::LspMessage},
@@ -157,28 +157,10 @@ impl LspFiles {
         None
     }
 
-    pub fn input_edit(
-        &mut self,
-        file: &String,
-        code: String,
-        input_edit: InputEdit,
-        lang_type: Option<LangType>,
-    ) -> Option<()> {
-        let lang_type = lang_type?;
-        let trees = self.trees.get_mut(&lang_type)?;
-        let old_tree = trees.get_mut(file)?;
-        old_tree.edit(&input_edit);
-        let new_tree = self.parsers.parse(lang_type, &code, Some(old_tree))?;
-        let trees = self.trees.get_mut(&lang_type)?;
-        trees.insert(file.to_string(), new_tree);
-        None
-    }
-
     pub fn did_change(&mut self, params: DidChangeTextDocumentParams) -> Option<()> {
         let uri = params.text_document.uri.to_string();
         let rope = self.documents.get_mut(&uri)?;
         let lang_type = self.config.file_ext(&Path::new(&uri));
-        let mut changes = vec![];
         for change in params.content_changes {
             // A change without a range replaces the whole document.
             let mut range = change
@@ -192,12 +174,11 @@ impl LspFiles {
             let end = rope.byte_to_char(input_edit.old_end_byte);
             rope.remove(start..end);
             rope.insert(start, &change.text);
-            let mut w = FileContent::default();
-            let _ = rope.write_to(&mut w);
-            changes.push((w.content, input_edit));
         }
-        for change in changes {
-            self.input_edit(&uri, change.0, change.1, lang_type);
+        // Parsed anew: with the earlier tree, the parser keeps parts that the new text does not have.
+        let content = rope.to_string();
+        if let Some(lang_type) = lang_type {
+            self.add_tree(&uri, lang_type, &content);
         }
         let param = DidSaveTextDocumentParams {
             text_document: TextDocumentIdentifier::new(params.text_document.uri),
-- 
2.43.0


From f8a6162ebf25018ecd60aee91b6b3c1b882ab290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:49 +0000
Subject: [PATCH 24/49] fix: snippets at the last column an editor can name

---
 jinja-lsp/src/lsp_files.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 89719d5..488091e 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -287,7 +287,7 @@ impl LspFiles {
                 if snippets.to_complete(point).is_some() {
                     let start = position;
                     let mut end = position;
-                    end.character += 1;
+                    end.character = end.character.saturating_add(1);
                     let range = Range::new(start, end);
                     return Some((CompletionType::Snippets { range }, false));
                 }
-- 
2.43.0


From 6b98f60150f3272625a553f6cfd185066291eb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:53 +0000
Subject: [PATCH 25/49] fix: handle the messages of the editor in the order in
 which they came

---
 jinja-lsp/src/backend.rs              | 47 ++++++++++-----------------
 jinja-lsp/src/channels/diagnostics.rs |  8 ++---
 jinja-lsp/src/channels/lsp.rs         | 17 ++++------
 jinja-lsp/src/lsp_files.rs            |  6 ++--
 4 files changed, 31 insertions(+), 47 deletions(-)

diff --git a/jinja-lsp/src/backend.rs b/jinja-lsp/src/backend.rs
index 69208e5..51cc99e 100644
--- a/jinja-lsp/src/backend.rs
+++ b/jinja-lsp/src/backend.rs
@@ -1,6 +1,6 @@
 use serde_json::Value;
 use tokio::sync::{
-    mpsc::{self, Sender},
+    mpsc::{self, UnboundedSender},
     oneshot,
 };
 use tower_lsp::{
@@ -25,7 +25,7 @@ use crate::channels::{
 };
 
 pub struct Backend {
-    main_channel: Sender<LspMessage>,
+    main_channel: UnboundedSender<LspMessage>,
 }
 
 #[tower_lsp::async_trait]
@@ -34,8 +34,7 @@ impl LanguageServer for Backend {
         let (sender, rx) = oneshot::channel();
         let _ = self
             .main_channel
-            .send(LspMessage::Initialize(Box::new(params), sender))
-            .await;
+            .send(LspMessage::Initialize(Box::new(params), sender));
         if let Ok(msg) = rx.await {
             Ok(msg)
         } else {
@@ -45,34 +44,30 @@ impl LanguageServer for Backend {
 
     async fn initialized(&self, _params: InitializedParams) {
         let (sender, _) = oneshot::channel();
-        let _ = self
-            .main_channel
-            .send(LspMessage::Initialized(sender))
-            .await;
+        let _ = self.main_channel.send(LspMessage::Initialized(sender));
     }
 
     async fn did_open(&self, params: DidOpenTextDocumentParams) {
-        let _ = self.main_channel.send(LspMessage::DidOpen(params)).await;
+        let _ = self.main_channel.send(LspMessage::DidOpen(params));
     }
 
     async fn did_close(&self, params: DidCloseTextDocumentParams) {
-        let _ = self.main_channel.send(LspMessage::DidClose(params)).await;
+        let _ = self.main_channel.send(LspMessage::DidClose(params));
     }
 
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
-        let _ = self.main_channel.send(LspMessage::DidChange(params)).await;
+        let _ = self.main_channel.send(LspMessage::DidChange(params));
     }
 
     async fn did_save(&self, params: DidSaveTextDocumentParams) {
-        let _ = self.main_channel.send(LspMessage::DidSave(params)).await;
+        let _ = self.main_channel.send(LspMessage::DidSave(params));
     }
 
     async fn completion(&self, params: CompletionParams) -> Result<Option<CompletionResponse>> {
         let (sender, tx) = oneshot::channel();
         let _ = self
             .main_channel
-            .send(LspMessage::Completion(params, sender))
-            .await;
+            .send(LspMessage::Completion(params, sender));
         if let Ok(completion) = tx.await {
             return Ok(completion);
         }
@@ -81,10 +76,7 @@ impl LanguageServer for Backend {
 
     async fn hover(&self, params: HoverParams) -> Result<Option<Hover>> {
         let (sender, tx) = oneshot::channel();
-        let _ = self
-            .main_channel
-            .send(LspMessage::Hover(params, sender))
-            .await;
+        let _ = self.main_channel.send(LspMessage::Hover(params, sender));
         if let Ok(hover) = tx.await {
             return Ok(hover);
         }
@@ -98,8 +90,7 @@ impl LanguageServer for Backend {
         let (sender, tx) = oneshot::channel();
         let _ = self
             .main_channel
-            .send(LspMessage::GoToDefinition(params, sender))
-            .await;
+            .send(LspMessage::GoToDefinition(params, sender));
         if let Ok(definition) = tx.await {
             return Ok(definition);
         }
@@ -110,8 +101,7 @@ impl LanguageServer for Backend {
         let (sender, tx) = oneshot::channel();
         let _ = self
             .main_channel
-            .send(LspMessage::CodeAction(params, sender))
-            .await;
+            .send(LspMessage::CodeAction(params, sender));
         if let Ok(code_action) = tx.await {
             return Ok(code_action);
         }
@@ -122,8 +112,7 @@ impl LanguageServer for Backend {
         let (sender, _) = oneshot::channel();
         let _ = self
             .main_channel
-            .send(LspMessage::ExecuteCommand(params, sender))
-            .await;
+            .send(LspMessage::ExecuteCommand(params, sender));
         Ok(None)
     }
 
@@ -134,8 +123,7 @@ impl LanguageServer for Backend {
         let (sender, tx) = oneshot::channel();
         let _ = self
             .main_channel
-            .send(LspMessage::DocumentSymbol(params, sender))
-            .await;
+            .send(LspMessage::DocumentSymbol(params, sender));
         if let Ok(symbols) = tx.await {
             return Ok(symbols);
         }
@@ -146,8 +134,7 @@ impl LanguageServer for Backend {
     async fn did_change_configuration(&self, params: DidChangeConfigurationParams) {
         let _ = self
             .main_channel
-            .send(LspMessage::DidChangeConfiguration(params))
-            .await;
+            .send(LspMessage::DidChangeConfiguration(params));
     }
 
     async fn shutdown(&self) -> Result<()> {
@@ -157,7 +144,9 @@ impl LanguageServer for Backend {
 
 impl Backend {
     pub fn _new(client: Client) -> Self {
-        let (lsp_sender, lsp_recv) = mpsc::channel(50);
+        // Unbounded: several messages are handled at once, and only those that never wait for a
+        // place in the channel enter it in the order in which they came.
+        let (lsp_sender, lsp_recv) = mpsc::unbounded_channel();
         // Unbounded: the two tasks send to each other, and a bounded cycle can fill up and stop.
         let (diagnostic_sender, diagnostic_recv) = mpsc::unbounded_channel();
         lsp_task(
diff --git a/jinja-lsp/src/channels/diagnostics.rs b/jinja-lsp/src/channels/diagnostics.rs
index fe92399..54ddc7a 100644
--- a/jinja-lsp/src/channels/diagnostics.rs
+++ b/jinja-lsp/src/channels/diagnostics.rs
@@ -3,7 +3,7 @@ use std::collections::HashMap;
 use jinja_lsp_queries::{
     lsp_helper::create_diagnostic, search::Identifier, tree_builder::JinjaDiagnostic,
 };
-use tokio::sync::mpsc::{Sender, UnboundedReceiver};
+use tokio::sync::mpsc::{UnboundedReceiver, UnboundedSender};
 use tower_lsp::{
     lsp_types::{MessageType, Url},
     Client,
@@ -14,7 +14,7 @@ use super::lsp::LspMessage;
 pub fn diagnostics_task(
     client: Client,
     mut receiver: UnboundedReceiver<DiagnosticMessage>,
-    lsp_channel: Sender<LspMessage>,
+    lsp_channel: UnboundedSender<LspMessage>,
 ) {
     tokio::spawn(async move {
         while let Some(msg) = receiver.recv().await {
@@ -43,9 +43,7 @@ pub fn diagnostics_task(
                         let uri = Url::parse(&uri).unwrap();
                         client.publish_diagnostics(uri, v, None).await;
                     }
-                    let _ = lsp_channel
-                        .send(LspMessage::CodeActions(code_actions))
-                        .await;
+                    let _ = lsp_channel.send(LspMessage::CodeActions(code_actions));
                 }
             }
         }
diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index fc130a6..35642a5 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -32,8 +32,8 @@ use super::diagnostics::DiagnosticMessage;
 pub fn lsp_task(
     client: Client,
     diagnostics_channel: mpsc::UnboundedSender<DiagnosticMessage>,
-    lsp_channel: mpsc::Sender<LspMessage>,
-    mut lsp_recv: mpsc::Receiver<LspMessage>,
+    lsp_channel: mpsc::UnboundedSender<LspMessage>,
+    mut lsp_recv: mpsc::UnboundedReceiver<LspMessage>,
 ) {
     let mut config = JinjaConfig::default();
     let mut lsp_data = LspFiles::default();
@@ -332,7 +332,7 @@ pub fn lsp_task(
                 LspMessage::ExecuteCommand(params, sender) => {
                     let command = params.command;
                     if command == "reset_variables" {
-                        send_initialized(lsp_channel.clone());
+                        send_initialized(&lsp_channel);
                         let _ = sender.send(None);
                     }
                 }
@@ -360,7 +360,7 @@ pub fn lsp_task(
                     if !config.user_defined {
                         continue;
                     }
-                    send_initialized(lsp_channel.clone());
+                    send_initialized(&lsp_channel);
                 }
                 LspMessage::CodeActions(code_actions) => {
                     lsp_data.add_code_actions(code_actions);
@@ -370,12 +370,9 @@ pub fn lsp_task(
     });
 }
 
-/// The task that empties the channel cannot wait for a free place in it.
-fn send_initialized(lsp_channel: mpsc::Sender<LspMessage>) {
-    tokio::spawn(async move {
-        let (sender, _) = oneshot::channel();
-        let _ = lsp_channel.send(LspMessage::Initialized(sender)).await;
-    });
+fn send_initialized(lsp_channel: &mpsc::UnboundedSender<LspMessage>) {
+    let (sender, _) = oneshot::channel();
+    let _ = lsp_channel.send(LspMessage::Initialized(sender));
 }
 
 pub enum LspMessage {
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 488091e..0396119 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -56,7 +56,7 @@ pub struct LspFiles {
     pub queries: Queries,
     pub config: JinjaConfig,
     pub diagnostics_tasks: HashMap<String, JoinHandle<()>>,
-    pub main_channel: Option<mpsc::Sender<LspMessage>>,
+    pub main_channel: Option<mpsc::UnboundedSender<LspMessage>>,
     pub variables: HashMap<String, Vec<Identifier>>,
     pub code_actions: HashMap<String, Vec<Identifier>>,
     pub is_vscode: bool,
@@ -192,7 +192,7 @@ impl LspFiles {
         let task = tokio::spawn(async move {
             sleep(Duration::from_millis(200)).await;
             if let Some(channel) = channel {
-                let _ = channel.send(LspMessage::DidSave(param)).await;
+                let _ = channel.send(LspMessage::DidSave(param));
             }
         });
         self.diagnostics_tasks.insert(uri, task);
@@ -579,7 +579,7 @@ impl LspFiles {
                 tokio::spawn(async move {
                     sleep(Duration::from_millis(1400)).await;
                     if let Some(lsp_channel) = lsp_channel {
-                        let _ = lsp_channel.send(LspMessage::DidSave(param)).await;
+                        let _ = lsp_channel.send(LspMessage::DidSave(param));
                     }
                 });
                 Some(commands)
-- 
2.43.0


From a321eea94ed7b16110853a7a326cb19812e06229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:10 +0000
Subject: [PATCH 26/49] fix: complete names with characters of several bytes

---
 jinja-lsp-queries/src/search/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jinja-lsp-queries/src/search/mod.rs b/jinja-lsp-queries/src/search/mod.rs
index 893ded6..a89bb29 100644
--- a/jinja-lsp-queries/src/search/mod.rs
+++ b/jinja-lsp-queries/src/search/mod.rs
@@ -79,9 +79,12 @@ pub fn completion_start(mut trigger_point: Point, identifier: &Identifier) -> Op
         return Some(&identifier.name);
         // return None;
     }
-    let to = len - diff;
-    let s = identifier.name.get(0..to + 1);
-    s
+    let mut to = len - diff + 1;
+    // The cursor can be behind a character of several bytes.
+    while !identifier.name.is_char_boundary(to) {
+        to -= 1;
+    }
+    identifier.name.get(0..to)
 }
 pub fn to_range(points: (Point, Point)) -> Range {
     let start = Position::new(points.0.row as u32, points.0.column as u32);
-- 
2.43.0


From b08d59534a2b5e490c8a8cb836b2926006f96367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:16 +0000
Subject: [PATCH 27/49] fix: insert the chosen template in Visual Studio Code

---
 jinja-lsp/src/lsp_files.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 0396119..18c2e7f 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -704,7 +704,7 @@ impl LspFiles {
         &self,
         prefix: String,
         range: Range,
-        start_point: Position,
+        _: Position,
         _: Option<String>,
     ) -> Option<Vec<CompletionItem>> {
         let all_templates = self.trees.get(&LangType::Template)?;
@@ -727,8 +727,8 @@ impl LspFiles {
                     additional_text_edits = Some(edits);
                     Some(CompletionTextEdit::Edit(TextEdit {
                         range: Range {
-                            start: start_point,
-                            end: start_point,
+                            start: range.start,
+                            end: range.start,
                         },
                         new_text: "".to_string(),
                     }))
-- 
2.43.0


From df2bf6b2ac89014005f24ab1a0e5f8df667cbff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:16 +0000
Subject: [PATCH 28/49] fix: offer filters before the end of a tag that strips
 whitespace

---
 jinja-lsp-queries/src/search/objects.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index e9618dc..16ae164 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -88,8 +88,11 @@ impl JinjaObjects {
             }
             "pipe" => {
                 let content = capture.node.utf8_text(source.as_bytes()).ok()?;
-                // Neighbouring operators are one node: ")|" ends with a pipe too.
-                if content.trim_end().ends_with('|') {
+                // Neighbouring operators are one node: ")|" ends with a pipe too, "|-" of
+                // "|-}}" is a pipe and a part of the end.
+                let operator = content.trim_end();
+                let operator = operator.strip_suffix('-').unwrap_or(operator);
+                if operator.trim_end().ends_with('|') {
                     let before = &content[..content.rfind('|')?];
                     let mut pipe = start;
                     for byte in before.bytes() {
-- 
2.43.0


From 37ed87e5cca554e83dcf20e18b961d27bbb4595e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:05 +0000
Subject: [PATCH 29/49] fix: keep quotes inside of a template name of the
 backend

---
 jinja-lsp-queries/src/search/rust_template_completion.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp-queries/src/search/rust_template_completion.rs b/jinja-lsp-queries/src/search/rust_template_completion.rs
index ca42323..17e0b32 100644
--- a/jinja-lsp-queries/src/search/rust_template_completion.rs
+++ b/jinja-lsp-queries/src/search/rust_template_completion.rs
@@ -21,10 +21,12 @@ impl BackendTemplates {
     pub fn check(&mut self, name: &str, capture: &QueryCapture<'_>, text: &str) -> Option<()> {
         if name == "template_name" && self.in_method {
             let template = capture.node.utf8_text(text.as_bytes()).ok()?;
-            let template = template.replace(['\"', '\''], "");
+            // Only the quotes around the name, which can have the other ones in it.
+            let quote = if template.ends_with('\'') { '\'' } else { '"' };
+            let template = template.trim_matches(quote);
             let start = capture.node.start_position();
             let end = capture.node.end_position();
-            let mut identifer = Identifier::new(&template, start, end);
+            let mut identifer = Identifier::new(template, start, end);
             identifer.identifier_type = IdentifierType::JinjaTemplate;
             self.templates.push(identifer);
             self.in_method = false;
-- 
2.43.0


From d82e0927cf170234903e714ece295435841ccb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:30 +0000
Subject: [PATCH 30/49] fix: a test like true or in does not turn the next name
 into a test

---
 jinja-lsp-queries/src/search/objects.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 16ae164..6b1c3ed 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -1,5 +1,5 @@
 use tower_lsp::lsp_types::Range;
-use tree_sitter::{Point, Query, QueryCapture, QueryCursor, Tree};
+use tree_sitter::{Node, Point, Query, QueryCapture, QueryCursor, Tree};
 
 use super::{completion_start, to_range, to_range2, Identifier};
 
@@ -165,12 +165,12 @@ impl JinjaObjects {
                     }
                 }
             } else {
+                let is_test = value != "not" && follows_is(capture, source);
                 // TODO: in future add those to main library
-                if VALID_IDENTIFIERS.contains(&value) {
+                if !is_test && VALID_IDENTIFIERS.contains(&value) {
                     return ObjectAction::Invalid;
                 }
                 self.ident = (start, end);
-                let is_test = self.test.2;
                 let keyword = capture.node.prev_sibling();
                 let keyword = keyword.and_then(|node| node.utf8_text(source.as_bytes()).ok());
                 let is_filter =
@@ -285,6 +285,16 @@ impl JinjaObjects {
     }
 }
 
+/// Only the word right behind `is` or `is not` is a test.
+fn follows_is(capture: &QueryCapture<'_>, source: &str) -> bool {
+    let text = |node: &Node<'_>| node.utf8_text(source.as_bytes()).unwrap_or_default().trim();
+    let mut previous = capture.node.prev_sibling();
+    if previous.is_some_and(|node| text(&node) == "not") {
+        previous = previous.and_then(|node| node.prev_sibling());
+    }
+    previous.is_some_and(|node| text(&node) == "is")
+}
+
 pub fn objects_query(
     query: &Query,
     tree: &Tree,
-- 
2.43.0


From 9bdf31bfa731eb323b1aa695add0676c0121bfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:40 +0000
Subject: [PATCH 31/49] fix: no tests are offered behind the end of the tag

---
 jinja-lsp-queries/src/search/objects.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 6b1c3ed..b70f2d7 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -50,6 +50,7 @@ pub struct JinjaObjects {
     pipe: (Point, Point),
     member: Point,
     test: (Point, Point, bool),
+    test_end: Option<Point>,
     expr: (Point, Point, ExpressionRange),
     ident: (Point, Point),
 }
@@ -73,6 +74,7 @@ impl JinjaObjects {
                 if self.dot.1 != start && KEYWORDS.contains(&content) {
                     if content == "is" {
                         self.test = (start, end, true);
+                        self.test_end = tag_end(capture);
                     }
                     return Some(ObjectAction::Invalid);
                 }
@@ -112,6 +114,7 @@ impl JinjaObjects {
             }
             "is" => {
                 self.test = (start, end, true);
+                self.test_end = tag_end(capture);
                 return Some(ObjectAction::NewTest);
             }
             "expr" => {
@@ -281,10 +284,19 @@ impl JinjaObjects {
     }
 
     pub fn is_test(&self, trigger_point: Point) -> bool {
-        self.test.2 && trigger_point >= self.test.1 && trigger_point.row == self.test.1.row
+        let in_tag = self.test_end.is_none_or(|end| trigger_point < end);
+        let on_line = trigger_point.row == self.test.1.row;
+        self.test.2 && in_tag && trigger_point >= self.test.1 && on_line
     }
 }
 
+/// End of the tag or expression around a word, if it has one already.
+fn tag_end(capture: &QueryCapture<'_>) -> Option<Point> {
+    let parent = capture.node.parent()?;
+    let complete = matches!(parent.kind(), "statement" | "expression");
+    complete.then(|| parent.end_position())
+}
+
 /// Only the word right behind `is` or `is not` is a test.
 fn follows_is(capture: &QueryCapture<'_>, source: &str) -> bool {
     let text = |node: &Node<'_>| node.utf8_text(source.as_bytes()).unwrap_or_default().trim();
-- 
2.43.0


From 76077a387803ab66b05af53096353cbe4c81418a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:51 +0000
Subject: [PATCH 32/49] fix: reading the workspace again clears the diagnostics
 of closed backend files

---
 jinja-lsp/src/lsp_files.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 18c2e7f..371846c 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -99,9 +99,7 @@ impl LspFiles {
             diags.insert(name.to_string(), self.read_tree(name).unwrap_or_default());
         }
         for name in previous.documents.keys() {
-            if !self.documents.contains_key(name) {
-                diags.insert(name.to_string(), vec![]);
-            }
+            diags.entry(name.to_string()).or_default();
         }
     }
 
-- 
2.43.0


From 299e9236d9b51750487806733e740a4b60f8a841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:50 +0000
Subject: [PATCH 33/49] fix: know a file by one URI, however the editor escapes
 its path

---
 jinja-lsp/src/channels/lsp.rs | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index 35642a5..1430155 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -15,7 +15,7 @@ use tower_lsp::{
         HoverParams, HoverProviderCapability, InitializeParams, InitializeResult,
         InsertReplaceEdit, MarkupContent, MarkupKind, MessageType, OneOf, ServerCapabilities,
         ServerInfo, TextDocumentIdentifier, TextDocumentSyncCapability, TextDocumentSyncKind,
-        TextDocumentSyncOptions, TextDocumentSyncSaveOptions, TextEdit,
+        TextDocumentSyncOptions, TextDocumentSyncSaveOptions, TextEdit, Url,
     },
     Client,
 };
@@ -42,7 +42,13 @@ pub fn lsp_task(
     let template_tests = init_template_test_completions();
     let snippets = snippets();
     tokio::spawn(async move {
-        while let Some(msg) = lsp_recv.recv().await {
+        while let Some(mut msg) = lsp_recv.recv().await {
+            // Editors escape more or less of the same path, a file is known by one URI.
+            if let Some(uri) = msg.uri() {
+                if let Ok(Ok(same)) = uri.to_file_path().map(Url::from_file_path) {
+                    *uri = same;
+                }
+            }
             match msg {
                 LspMessage::Initialize(params, sender) => {
                     if let Some(client_info) = params.client_info {
@@ -403,3 +409,27 @@ pub enum LspMessage {
     DidChangeConfiguration(DidChangeConfigurationParams),
     CodeActions(HashMap<String, Vec<Identifier>>),
 }
+
+impl LspMessage {
+    /// The document that the message is about.
+    fn uri(&mut self) -> Option<&mut Url> {
+        match self {
+            LspMessage::DidOpen(params) => Some(&mut params.text_document.uri),
+            LspMessage::DidClose(params) => Some(&mut params.text_document.uri),
+            LspMessage::DidChange(params) => Some(&mut params.text_document.uri),
+            LspMessage::DidSave(params) => Some(&mut params.text_document.uri),
+            LspMessage::Completion(params, _) => {
+                Some(&mut params.text_document_position.text_document.uri)
+            }
+            LspMessage::Hover(params, _) => {
+                Some(&mut params.text_document_position_params.text_document.uri)
+            }
+            LspMessage::GoToDefinition(params, _) => {
+                Some(&mut params.text_document_position_params.text_document.uri)
+            }
+            LspMessage::CodeAction(params, _) => Some(&mut params.text_document.uri),
+            LspMessage::DocumentSymbol(params, _) => Some(&mut params.text_document.uri),
+            _ => None,
+        }
+    }
+}
-- 
2.43.0


From 37a7333c67cbb7b162f7620fcc488cee55e54c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:29 +0000
Subject: [PATCH 34/49] fix: a tag without a template name completes none at
 the start of the document

---
 jinja-lsp-queries/src/search/templates.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/templates.rs b/jinja-lsp-queries/src/search/templates.rs
index b66fe43..97c5338 100644
--- a/jinja-lsp-queries/src/search/templates.rs
+++ b/jinja-lsp-queries/src/search/templates.rs
@@ -28,7 +28,9 @@ impl Import {
             Import::Extends { template }
             | Import::From { template, .. }
             | Import::Import { template, .. } => {
-                if trigger_point >= template.start && trigger_point <= template.end {
+                // A name that is not there (yet) is nowhere.
+                let named = template.start != template.end;
+                if named && trigger_point >= template.start && trigger_point <= template.end {
                     Some(template)
                 } else {
                     None
-- 
2.43.0


From a1d300d1201e11f4fe9be13dbfe3f1326a7e10e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:29 +0000
Subject: [PATCH 35/49] fix: modifiers of tags and the literals None, none,
 True and False are not variables

---
 jinja-lsp-queries/src/search/objects.rs | 28 +++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index b70f2d7..2163abf 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -78,6 +78,9 @@ impl JinjaObjects {
                     }
                     return Some(ObjectAction::Invalid);
                 }
+                if is_modifier(capture, source) {
+                    return Some(ObjectAction::Invalid);
+                }
                 return Some(self.build_object(capture, source));
             }
             "dot" => {
@@ -307,6 +310,26 @@ fn follows_is(capture: &QueryCapture<'_>, source: &str) -> bool {
     previous.is_some_and(|node| text(&node) == "is")
 }
 
+/// Words like `scoped` or `ignore missing` behind what a tag is about.
+fn is_modifier(capture: &QueryCapture<'_>, source: &str) -> bool {
+    let text = |node: Node<'_>| node.utf8_text(source.as_bytes()).unwrap_or_default().trim();
+    let Some(previous) = capture.node.prev_sibling() else {
+        return false;
+    };
+    match text(capture.node) {
+        "scoped" | "required" | "recursive" | "ignore" | "missing" | "without" => {
+            matches!(previous.kind(), "identifier" | "string" | "object")
+                || previous.kind() == "operator" && text(previous).ends_with([')', ']'])
+        }
+        "context" => {
+            let first = previous.prev_sibling();
+            let first = first.is_none_or(|node| node.kind() == "statement_begin");
+            !first && matches!(text(previous), "with" | "without")
+        }
+        _ => false,
+    }
+}
+
 pub fn objects_query(
     query: &Query,
     tree: &Tree,
@@ -365,8 +388,9 @@ pub enum CompletionType {
 
 static KEYWORDS: [&str; 6] = ["if", "else", "and", "or", "in", "is"];
 
-static VALID_IDENTIFIERS: [&str; 8] = [
-    "loop", "true", "false", "not", "as", "module", "super", "url_for",
+static VALID_IDENTIFIERS: [&str; 12] = [
+    "loop", "true", "True", "false", "False", "none", "None", "not", "as", "module", "super",
+    "url_for",
 ];
 
 #[derive(Default, Debug, Clone, Copy)]
-- 
2.43.0


From 0de6b40c25ff2eff7c28825c286fe4994c0b6ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:36 +0000
Subject: [PATCH 36/49] fix: text, comments, raw blocks, quotes in strings and
 % hid or broke tags

The grammar takes # or % in front of a tag for text that goes on, ends comments at #,
parses what raw blocks hold, ends strings at any quote and knows no modulo.
---
 jinja-lsp-queries/src/lib.rs     |   1 +
 jinja-lsp-queries/src/parsers.rs |   4 +-
 jinja-lsp-queries/src/plain.rs   | 128 +++++++++++++++++++++++++++++++
 3 files changed, 131 insertions(+), 2 deletions(-)
 create mode 100644 jinja-lsp-queries/src/plain.rs

diff --git a/jinja-lsp-queries/src/lib.rs b/jinja-lsp-queries/src/lib.rs
index db0bb54..0d31bc6 100644
--- a/jinja-lsp-queries/src/lib.rs
+++ b/jinja-lsp-queries/src/lib.rs
@@ -1,5 +1,6 @@
 pub mod lsp_helper;
 pub mod parsers;
+mod plain;
 pub mod search;
 pub mod to_input_edit;
 pub mod tree_builder;
diff --git a/jinja-lsp-queries/src/parsers.rs b/jinja-lsp-queries/src/parsers.rs
index ef6d2fd..1d2e195 100644
--- a/jinja-lsp-queries/src/parsers.rs
+++ b/jinja-lsp-queries/src/parsers.rs
@@ -1,6 +1,6 @@
 use tree_sitter::{Parser, Tree};
 
-use crate::tree_builder::LangType;
+use crate::{plain::plain, tree_builder::LangType};
 
 pub struct Parsers {
     jinja: Parser,
@@ -15,7 +15,7 @@ impl Parsers {
         old_tree: Option<&Tree>,
     ) -> Option<Tree> {
         match lang_type {
-            LangType::Template => self.jinja.parse(text, old_tree),
+            LangType::Template => self.jinja.parse(plain(text), old_tree),
             LangType::Backend => self.backend.parse(text, old_tree),
         }
     }
diff --git a/jinja-lsp-queries/src/plain.rs b/jinja-lsp-queries/src/plain.rs
new file mode 100644
index 0000000..aefbc83
--- /dev/null
+++ b/jinja-lsp-queries/src/plain.rs
@@ -0,0 +1,128 @@
+//! Text for the grammar, which takes a few things for tags (or for errors) that are none:
+//! `#` or `%` directly in front of a tag, `#` in a comment, whatever a raw block holds,
+//! a quote in a string with quotes of the other kind, and `%` as an operator.
+
+/// The same text, every byte at the same place, with such things blanked out.
+pub(crate) fn plain(text: &str) -> String {
+    let source = text.as_bytes();
+    let mut bytes = source.to_vec();
+    let mut at = 0;
+    while at < source.len() {
+        let rest = &source[at..];
+        if rest.starts_with(b"{#") {
+            let Some(len) = find(&rest[2..], b"#}") else {
+                break;
+            };
+            blank(&mut bytes[at + 2..at + 2 + len], b"#");
+            at += len + 4;
+        } else if rest.starts_with(b"{{") || rest.starts_with(b"{%") {
+            let Some((len, odd)) = tag(rest) else {
+                at += 2;
+                continue;
+            };
+            for index in odd {
+                bytes[at + index] = if rest[index] == b'%' { b'/' } else { b' ' };
+            }
+            at += len;
+            if word(&rest[..len]) == b"raw" {
+                let Some(len) = raw(&source[at..]) else {
+                    break;
+                };
+                blank(&mut bytes[at..at + len], b"{#%}");
+                at += len;
+            }
+        } else {
+            if b"#%".contains(&rest[0]) && begins(&rest[1..]) {
+                bytes[at] = b' ';
+            }
+            at += 1;
+        }
+    }
+    // Only ASCII was replaced, by ASCII.
+    String::from_utf8(bytes).unwrap_or_else(|_| text.to_owned())
+}
+
+fn find(bytes: &[u8], what: &[u8]) -> Option<usize> {
+    bytes.windows(what.len()).position(|part| part == what)
+}
+
+fn blank(bytes: &mut [u8], what: &[u8]) {
+    for byte in bytes.iter_mut().filter(|byte| what.contains(byte)) {
+        *byte = b' ';
+    }
+}
+
+fn begins(bytes: &[u8]) -> bool {
+    bytes.len() > 1 && bytes[0] == b'{' && b"{#%".contains(&bytes[1])
+}
+
+/// Length of the tag or expression at the start, if it ends before another one begins, and where
+/// it has quotes in strings and `%` outside of them.
+fn tag(bytes: &[u8]) -> Option<(usize, Vec<usize>)> {
+    let end: &[u8] = if bytes[1] == b'%' { b"%}" } else { b"}}" };
+    let mut odd = vec![];
+    let mut objects = 0usize;
+    let mut at = 2;
+    while at < bytes.len() {
+        let rest = &bytes[at..];
+        match rest[0] {
+            _ if objects == 0 && rest.starts_with(end) => return Some((at + 2, odd)),
+            b'{' if begins(rest) => return None,
+            b'{' => objects += 1,
+            b'}' => objects = objects.checked_sub(1)?,
+            b'%' => odd.push(at),
+            quote @ (b'"' | b'\'') => {
+                let len = string(rest, quote)?;
+                odd.extend((at + 1..at + len - 1).filter(|index| b"\"'".contains(&bytes[*index])));
+                at += len - 1;
+            }
+            _ => {}
+        }
+        at += 1;
+    }
+    None
+}
+
+/// Length of the string at the start. One of several lines, with tags in it, just was not closed.
+fn string(bytes: &[u8], quote: u8) -> Option<usize> {
+    let mut lines = false;
+    let mut tags = false;
+    let mut at = 1;
+    while at < bytes.len() && !(lines && tags) {
+        let rest = &bytes[at..];
+        match rest[0] {
+            b'\\' => at += 1,
+            b'\n' => lines = true,
+            byte if byte == quote => return Some(at + 1),
+            _ => tags |= begins(rest) || rest.starts_with(b"%}") || rest.starts_with(b"}}"),
+        }
+        at += 1;
+    }
+    None
+}
+
+/// The first word of a tag.
+fn word(tag: &[u8]) -> &[u8] {
+    let trimmed = tag[2..].trim_ascii_start();
+    let trimmed = trimmed
+        .strip_prefix(b"-")
+        .or(trimmed.strip_prefix(b"+"))
+        .unwrap_or(trimmed);
+    let trimmed = trimmed.trim_ascii_start();
+    let len = trimmed
+        .iter()
+        .take_while(|byte| byte.is_ascii_alphanumeric() || **byte == b'_');
+    &trimmed[..len.count()]
+}
+
+/// Length of what is in front of `{% endraw %}`.
+fn raw(bytes: &[u8]) -> Option<usize> {
+    let mut at = 0;
+    loop {
+        at += find(&bytes[at..], b"{%")?;
+        if word(&bytes[at..]) == b"endraw" {
+            return Some(at);
+        }
+        at += 2;
+    }
+}
-- 
2.43.0


From a70232b07df76bf5ae8bf596bc036d304b4b023a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:56 +0000
Subject: [PATCH 37/49] fix: ranges given to Node count UTF-16 code units, not
 bytes

---
 jinja-lsp-nodejs/src/lib.rs | 43 ++++++++++++++++++-------------------
 jinja-lsp/src/lsp_files.rs  |  2 +-
 2 files changed, 22 insertions(+), 23 deletions(-)

diff --git a/jinja-lsp-nodejs/src/lib.rs b/jinja-lsp-nodejs/src/lib.rs
index 3436232..67fdb14 100644
--- a/jinja-lsp-nodejs/src/lib.rs
+++ b/jinja-lsp-nodejs/src/lib.rs
@@ -15,7 +15,6 @@ use jinja_lsp_queries::{
     snippets_completion::snippets,
     Identifier, IdentifierType,
   },
-  to_input_edit::to_position2,
 };
 
 use tower_lsp::lsp_types::{
@@ -147,6 +146,9 @@ impl NodejsLspFiles {
     }
     content = format!("{space_before}{content}");
     let mut all_identifiers = vec![];
+    let uri = Url::parse(&format!("file:///home/{filename}.{id}.{ext}"))
+      .unwrap()
+      .to_string();
     let params: DidOpenTextDocumentParams = DidOpenTextDocumentParams {
       text_document: TextDocumentItem::new(
         Url::parse(&format!("file:///home/{filename}.{id}.{ext}")).unwrap(),
@@ -167,13 +169,10 @@ impl NodejsLspFiles {
               let action_object = ActionObject::from(obj);
               for global_action in global_actions {
                 if global_action.compare(&action_object.fields) {
-                  let mut start = JsPosition::from(obj.location.0);
-                  let mut end = JsPosition::from(obj.last_field_end());
-                  start.line += line;
-                  end.line += line;
+                  let range = self.range_in_file(&uri, obj.location.0, obj.last_field_end(), line);
                   let identifier = JsIdentifier {
-                    start,
-                    end,
+                    start: JsPosition::from(&range.start),
+                    end: JsPosition::from(&range.end),
                     name: obj.name.to_owned(),
                     identifier_type: JsIdentifierType::Link,
                     error: None,
@@ -195,13 +194,10 @@ impl NodejsLspFiles {
               let action_object = ActionObject::from(obj);
               for global_action in global_actions {
                 if global_action.compare(&action_object.fields) {
-                  let mut start = JsPosition::from(obj.start);
-                  let mut end = JsPosition::from(obj.end);
-                  start.line += line;
-                  end.line += line;
+                  let range = self.range_in_file(&uri, obj.start, obj.end, line);
                   let identifier = JsIdentifier {
-                    start,
-                    end,
+                    start: JsPosition::from(&range.start),
+                    end: JsPosition::from(&range.end),
                     name: obj.field.to_owned(),
                     identifier_type: JsIdentifierType::Link,
                     error: None,
@@ -239,14 +235,23 @@ impl NodejsLspFiles {
     all_identifiers
   }
 
+  /// Range in the file the template begins at `line` of, columns count UTF-16 code units.
+  fn range_in_file(&self, uri: &str, start: Point, end: Point, line: u32) -> Range {
+    let mut range = self.lsp_files.to_range(uri, start, end);
+    range.start.line += line;
+    range.end.line += line;
+    range
+  }
+
   #[napi]
   pub fn get_variables(&self, id: String, line: u32) -> Option<Vec<JsIdentifier>> {
     let variables = self.lsp_files.variables.get(&id)?;
     let mut converted = vec![];
     for variable in variables {
+      let range = self.range_in_file(&id, variable.start, variable.end, line);
       let mut variable2 = JsIdentifier::from(variable);
-      variable2.start.line += line;
-      variable2.end.line += line;
+      variable2.start = JsPosition::from(&range.start);
+      variable2.end = JsPosition::from(&range.end);
       converted.push(variable2);
     }
     Some(converted)
@@ -273,13 +278,7 @@ impl NodejsLspFiles {
     };
     let hover = self.lsp_files.hover(params)?;
     let mut res = None;
-    let mut range = Range {
-      start: to_position2(hover.0.start),
-      end: to_position2(hover.0.end),
-    };
-    range.start.line += line;
-    range.end.line += line;
-    let range = Some(range);
+    let range = Some(self.range_in_file(uri.as_str(), hover.0.start, hover.0.end, line));
     let full_name = hover.0.name.to_owned();
     if hover.1 == CompletionType::Filter {
       let filter = self.filters.iter().find(|name| name.name == hover.0.name);
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 371846c..3f038bd 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -224,7 +224,7 @@ impl LspFiles {
     }
 
     /// Range of the editor, whose columns count UTF-16 code units instead of bytes.
-    fn to_range(&self, name: &str, start: Point, end: Point) -> Range {
+    pub fn to_range(&self, name: &str, start: Point, end: Point) -> Range {
         let text = self.documents.get(name).map(Rope::to_string);
         let lines: Vec<_> = text.iter().flat_map(|text| text.split('\n')).collect();
         Range::new(to_utf16(&lines, start), to_utf16(&lines, end))
-- 
2.43.0


From 56aa10b3a70b2d78f35d72cdf1276c43fef54233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:52 +0000
Subject: [PATCH 38/49] fix: definition of a name known by a link hint ended
 the Node process

---
 jinja-lsp/src/lsp_files.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 3f038bd..4257e51 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -448,14 +448,17 @@ impl LspFiles {
                                     == current_ident
                         });
                         for variable in variables {
-                            let uri = {
-                                if variable.start == Point::new(0, 0)
-                                    && variable.end == Point::new(0, 0)
-                                {
-                                    Url::parse(&format!("{}-{}", &file.0, &variable.name)).unwrap()
-                                } else {
-                                    Url::parse(file.0).unwrap()
-                                }
+                            let mut uri = file.0.to_string();
+                            if variable.start == Point::new(0, 0)
+                                && variable.end == Point::new(0, 0)
+                            {
+                                uri = format!("{uri}-{}", &variable.name);
+                            }
+                            // Link hints of Node have a name of their own instead of the URI of a file.
+                            let uri =
+                                Url::parse(&uri).or_else(|_| Url::parse(&format!("file:///{uri}")));
+                            let Ok(uri) = uri else {
+                                continue;
                             };
                             let range = self.to_range(file.0, variable.start, variable.end);
                             let location = Location::new(uri, range);
-- 
2.43.0


From 8d0a7d64d54ed149b5d30f44bffe1da8230e80c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:02 +0000
Subject: [PATCH 39/49] fix: deleting the templates of a file deleted those of
 files with a longer name

---
 jinja-lsp/src/lsp_files.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 4257e51..069238e 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -915,10 +915,12 @@ impl LspFiles {
         self.documents.clear();
     }
 
+    /// Deletes the documents of a file, their names end with it, a number and an extension.
     pub fn delete_documents_with_id(&mut self, id: String) {
         let mut ids = vec![];
         for i in &self.documents {
-            if i.0.contains(&id) {
+            let file = i.0.rsplitn(3, '.').nth(2);
+            if file.is_some_and(|file| file.ends_with(&id)) {
                 ids.push(i.0.clone());
             }
         }
-- 
2.43.0


From f45a6649f4bab9cc47be0e7a4850b2d142c0e9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:46 +0000
Subject: [PATCH 40/49] fix: in files named with temp, names of other templates
 were links to the backend

---
 jinja-lsp-nodejs/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-nodejs/src/lib.rs b/jinja-lsp-nodejs/src/lib.rs
index 67fdb14..40b4f83 100644
--- a/jinja-lsp-nodejs/src/lib.rs
+++ b/jinja-lsp-nodejs/src/lib.rs
@@ -502,7 +502,8 @@ impl NodejsLspFiles {
       GotoDefinitionResponse::Array(locations) => {
         for mut location in locations {
           let uri2 = location.uri.to_string();
-          if uri2.contains("temp") {
+          // Only link hints, not other templates in a file whose name holds this word.
+          if uri2.contains("temp") && !uri2.starts_with("file:///home/") {
             location.uri = Url::parse(&uri2).unwrap();
             location.range.start.line += line;
             location.range.end.line += line;
-- 
2.43.0


From 3042cd068b502c5177beb94f5562fa434de4bb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:46 +0000
Subject: [PATCH 41/49] fix: positions above a template were taken for its end

---
 jinja-lsp-nodejs/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jinja-lsp-nodejs/src/lib.rs b/jinja-lsp-nodejs/src/lib.rs
index 40b4f83..3f20529 100644
--- a/jinja-lsp-nodejs/src/lib.rs
+++ b/jinja-lsp-nodejs/src/lib.rs
@@ -265,7 +265,7 @@ impl NodejsLspFiles {
     line: u32,
     mut position: JsPosition,
   ) -> Option<JsHover> {
-    position.line -= line;
+    position.line = position.line.checked_sub(line)?;
     let uri = Url::parse(&format!("file:///home/{filename}.{id}.jinja")).unwrap();
     let params: HoverParams = HoverParams {
       text_document_position_params: TextDocumentPositionParams::new(
@@ -342,7 +342,7 @@ impl NodejsLspFiles {
     line: u32,
     mut position: JsPosition,
   ) -> Option<Vec<JsCompletionItem>> {
-    position.line -= line;
+    position.line = position.line.checked_sub(line)?;
     let original_uri = filename.to_string();
     let uri = Url::parse(&format!("file:///home/{filename}.{id}.jinja")).unwrap();
     let position = Position::new(position.line, position.character);
@@ -473,7 +473,7 @@ impl NodejsLspFiles {
     line: u32,
     mut position: JsPosition,
   ) -> Option<Vec<JsLocation>> {
-    position.line -= line;
+    position.line = position.line.checked_sub(line)?;
     let uri = Url::parse(&format!("file:///home/{filename}.{id}.jinja")).unwrap();
     let params: GotoDefinitionParams = GotoDefinitionParams {
       text_document_position_params: TextDocumentPositionParams::new(
-- 
2.43.0


From baa6e8784ba093e0e445561e7a3b713fa9e4703f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:57 +0000
Subject: [PATCH 42/49] fix: members of loop, literals and calls were taken for
 variables

---
 jinja-lsp-queries/src/search/objects.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 2163abf..624c01c 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -84,10 +84,12 @@ impl JinjaObjects {
                 return Some(self.build_object(capture, source));
             }
             "dot" => {
-                if start == self.member {
-                    self.member = end;
-                } else {
+                // What is in front can be a member of a call, `loop` or a literal, no object.
+                let previous = capture.node.prev_sibling();
+                if previous.is_some_and(|node| node.start_position() == self.ident.0) {
                     self.dot = (start, end);
+                } else {
+                    self.member = end;
                 }
                 return Some(ObjectAction::NewField);
             }
-- 
2.43.0


From 7b2cb8609eca37ed8adf2ef2b3798cfcb37c5b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:57 +0000
Subject: [PATCH 43/49] fix: numbers like 1e5 or 0x1F were taken for variables

---
 jinja-lsp-queries/src/search/queries.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index ea41eac..4a8c73a 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -62,7 +62,7 @@ const OBJECTS: &str = r#"
 
         (
           (identifier) @just_id
-          (#not-match? @just_id "(^\\d+$)")
+          (#not-match? @just_id "^\\d")
         )
 
         (
@@ -203,7 +203,7 @@ const DEFINITIONS: &str = r#"
 
 (
   (identifier) @id
-  (#not-match? @id "^(\\d+)$")
+  (#not-match? @id "^\\d")
 )
     (
     	(keyword) @definition
-- 
2.43.0


From 1a1837f3a5da1d6c8f655c0f74a1701b25660109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:57 +0000
Subject: [PATCH 44/49] fix: counting the brackets of a long tag took time to
 the third power

---
 jinja-lsp-queries/src/search/definition.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index 0842c54..99cf4dc 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -401,18 +401,20 @@ fn operator_before<'a>(
 
 /// Number of brackets around a part of a statement.
 fn nesting(capture: &QueryCapture<'_>, text: &str) -> Option<i32> {
-    if capture.node.parent()?.kind() != "statement" {
+    let statement = capture.node.parent()?;
+    if statement.kind() != "statement" {
         return None;
     }
     let mut nesting = 0;
-    let mut previous = capture.node.prev_sibling();
-    while let Some(node) = previous.filter(|node| node.kind() != "statement_begin") {
+    for node in statement.children(&mut statement.walk()) {
+        if node.start_byte() >= capture.node.start_byte() {
+            break;
+        }
         if node.kind() == "operator" {
             let content = node.utf8_text(text.as_bytes()).ok()?;
             nesting += content.matches(['(', '[']).count() as i32;
             nesting -= content.matches([')', ']']).count() as i32;
         }
-        previous = node.prev_sibling();
     }
     Some(nesting)
 }
-- 
2.43.0


From d7a6cb0c51783ab0d08dad4d032f954fd3c51741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:35 +0000
Subject: [PATCH 45/49] fix: quotes inside of a template name were dropped

---
 jinja-lsp-queries/src/search/templates.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/templates.rs b/jinja-lsp-queries/src/search/templates.rs
index 97c5338..159feed 100644
--- a/jinja-lsp-queries/src/search/templates.rs
+++ b/jinja-lsp-queries/src/search/templates.rs
@@ -156,7 +156,9 @@ impl JinjaImports {
                 if let Current::Id(id) = self.current {
                     let last = self.imports.get_mut(&id)?;
                     let name = capture.node.utf8_text(text.as_bytes()).ok()?;
-                    let name = name.replace(['\"', '\''], "");
+                    // Only the quotes around the name, which can have the other ones in it.
+                    let quote = if name.ends_with('\'') { '\'' } else { '"' };
+                    let name = name.trim_matches(quote).to_owned();
                     let start = capture.node.start_position();
                     let end = capture.node.end_position();
                     match last {
-- 
2.43.0


From 5e72f41d440d8ced22ead25d0d378cc060b2fc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:35 +0000
Subject: [PATCH 46/49] fix: announce that openings and closings of documents
 are wanted

---
 jinja-lsp/src/channels/lsp.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index 1430155..028accf 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -81,6 +81,7 @@ pub fn lsp_task(
                         capabilities: ServerCapabilities {
                             text_document_sync: Some(TextDocumentSyncCapability::Options(
                                 TextDocumentSyncOptions {
+                                    open_close: Some(true),
                                     change: Some(TextDocumentSyncKind::INCREMENTAL),
                                     will_save: Some(true),
                                     save: Some(TextDocumentSyncSaveOptions::Supported(true)),
-- 
2.43.0


From e5b091146559cb6288dc8e154e3424f55c0dbcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:35 +0000
Subject: [PATCH 47/49] fix: code actions were not known yet when their
 diagnostics were published

---
 jinja-lsp/src/channels/diagnostics.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp/src/channels/diagnostics.rs b/jinja-lsp/src/channels/diagnostics.rs
index 54ddc7a..1dde8d4 100644
--- a/jinja-lsp/src/channels/diagnostics.rs
+++ b/jinja-lsp/src/channels/diagnostics.rs
@@ -22,7 +22,7 @@ pub fn diagnostics_task(
                 DiagnosticMessage::Str(msg) => client.log_message(MessageType::INFO, msg).await,
                 DiagnosticMessage::Errors(all_errors) => {
                     let mut code_actions = HashMap::new();
-                    for (uri, errors) in all_errors.into_iter() {
+                    for (uri, errors) in all_errors.iter() {
                         let template_errors = errors
                             .iter()
                             .filter(|err| err.0 == JinjaDiagnostic::TemplateNotFound);
@@ -31,6 +31,10 @@ pub fn diagnostics_task(
                             v.push(err.1.to_owned());
                         }
                         code_actions.insert(uri.to_owned(), v);
+                    }
+                    // Before the editor sees the diagnostics, so that it can ask for their actions.
+                    let _ = lsp_channel.send(LspMessage::CodeActions(code_actions));
+                    for (uri, errors) in all_errors.into_iter() {
                         let mut v = vec![];
                         for error in errors {
                             let diagnostic = create_diagnostic(
@@ -43,7 +47,6 @@ pub fn diagnostics_task(
                         let uri = Url::parse(&uri).unwrap();
                         client.publish_diagnostics(uri, v, None).await;
                     }
-                    let _ = lsp_channel.send(LspMessage::CodeActions(code_actions));
                 }
             }
         }
-- 
2.43.0


From 9aa5f99ce17862ededb46cbbcabc7d385516b772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:24 +0000
Subject: [PATCH 48/49] fix: parts of computed template names were taken for
 names of templates

---
 jinja-lsp-queries/src/search/templates.rs | 55 ++++++++++++++++++++---
 1 file changed, 50 insertions(+), 5 deletions(-)

diff --git a/jinja-lsp-queries/src/search/templates.rs b/jinja-lsp-queries/src/search/templates.rs
index 159feed..c82fa71 100644
--- a/jinja-lsp-queries/src/search/templates.rs
+++ b/jinja-lsp-queries/src/search/templates.rs
@@ -1,6 +1,6 @@
 use std::collections::HashMap;
 
-use tree_sitter::{Point, Query, QueryCapture, QueryCursor, Tree};
+use tree_sitter::{Node, Point, Query, QueryCapture, QueryCursor, Tree};
 
 use super::{Identifier, IdentifierType};
 
@@ -47,7 +47,11 @@ impl Import {
 
     fn collect(self, ids: &mut Vec<Identifier>) {
         match self {
-            Import::Extends { template } => ids.push(template),
+            Import::Extends { template } | Import::Import { template, .. } => {
+                if template.start != template.end {
+                    ids.push(template);
+                }
+            }
             Import::Include { templates } => {
                 for i in templates {
                     ids.push(i);
@@ -57,16 +61,54 @@ impl Import {
                 template,
                 identifiers,
             } => {
-                ids.push(template);
+                if template.start != template.end {
+                    ids.push(template);
+                }
                 for i in identifiers {
                     ids.push(i);
                 }
             }
-            Import::Import { template, .. } => {
-                ids.push(template);
+        }
+    }
+}
+
+/// Is this string the name of a template, or only a part of an expression that computes one,
+/// like in `'pages/' ~ name`, `names['home']` or `name|default('home')`?
+fn is_whole_name(string: Node<'_>, text: &str) -> bool {
+    let token = |node: Node<'_>| node.utf8_text(text.as_bytes()).unwrap_or("").trim();
+    let after = string.next_sibling().is_none_or(|next| {
+        next.kind() != "operator" || token(next).starts_with([',', ')', ']'])
+    });
+    let before = string.prev_sibling().is_none_or(|previous| match previous.kind() {
+        "keyword" => ["extends", "include", "import", "from", "else"].contains(&token(previous)),
+        "operator" => token(previous).ends_with([',', '(', '[']),
+        _ => true,
+    });
+    if !after || !before {
+        return false;
+    }
+    // Brackets around it which are those of a call or of an index.
+    let mut brackets = vec![];
+    let mut after_value = false;
+    let mut current = string.parent().and_then(|parent| parent.child(0));
+    while let Some(node) = current.filter(|node| node.id() != string.id()) {
+        if node.kind() == "operator" {
+            for c in token(node).chars().filter(|c| !c.is_whitespace()) {
+                match c {
+                    '(' | '[' => brackets.push(after_value),
+                    ')' | ']' => {
+                        brackets.pop();
+                    }
+                    _ => (),
+                }
+                after_value = c == ')' || c == ']';
             }
+        } else {
+            after_value = node.kind() != "keyword";
         }
+        current = node.next_sibling();
     }
+    !brackets.contains(&true)
 }
 
 #[derive(Default, Debug)]
@@ -155,6 +197,9 @@ impl JinjaImports {
             "template_name" => {
                 if let Current::Id(id) = self.current {
                     let last = self.imports.get_mut(&id)?;
+                    if !is_whole_name(capture.node, text) {
+                        return Some(());
+                    }
                     let name = capture.node.utf8_text(text.as_bytes()).ok()?;
                     // Only the quotes around the name, which can have the other ones in it.
                     let quote = if name.ends_with('\'') { '\'' } else { '"' };
-- 
2.43.0


From 91fc306d469a5b18eb246fcb3ea8db7121d3aee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:24 +0000
Subject: [PATCH 49/49] fix: prefixes of Python strings were taken for a part
 of the template name

---
 .../src/search/rust_template_completion.rs          | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/jinja-lsp-queries/src/search/rust_template_completion.rs b/jinja-lsp-queries/src/search/rust_template_completion.rs
index 17e0b32..d762d44 100644
--- a/jinja-lsp-queries/src/search/rust_template_completion.rs
+++ b/jinja-lsp-queries/src/search/rust_template_completion.rs
@@ -20,16 +20,23 @@ impl BackendTemplates {
 
     pub fn check(&mut self, name: &str, capture: &QueryCapture<'_>, text: &str) -> Option<()> {
         if name == "template_name" && self.in_method {
-            let template = capture.node.utf8_text(text.as_bytes()).ok()?;
+            self.in_method = false;
+            let literal = capture.node.utf8_text(text.as_bytes()).ok()?;
+            // Python's prefixes are no part of the name, and what f-strings name is not known.
+            let prefix = literal.find(['"', '\''])?;
+            if literal[..prefix].contains(['f', 'F']) && literal.contains('{') {
+                return None;
+            }
+            let template = &literal[prefix..];
             // Only the quotes around the name, which can have the other ones in it.
             let quote = if template.ends_with('\'') { '\'' } else { '"' };
             let template = template.trim_matches(quote);
-            let start = capture.node.start_position();
+            let mut start = capture.node.start_position();
+            start.column += prefix;
             let end = capture.node.end_position();
             let mut identifer = Identifier::new(template, start, end);
             identifer.identifier_type = IdentifierType::JinjaTemplate;
             self.templates.push(identifer);
-            self.in_method = false;
         } else if name == "method_name" {
             let content = capture.node.utf8_text(text.as_bytes()).ok()?;
             if !METHODS.contains(&content) {
-- 
2.43.0

