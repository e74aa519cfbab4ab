From e5c7b2ebdd430baf12ab7bb5670f1b90d26def75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:05 +0000
Subject: [PATCH 01/56] fix: parse reopened documents from scratch instead of
 reusing an unrelated tree

didOpen (and re-indexing) passed the previous, unedited tree of the file to
tree-sitter together with different text. The resulting tree could refer to
bytes outside of the new text, which panicked the server's only worker.
---
 jinja-lsp/src/lsp_files.rs | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 02f48e0..a843ae8 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -128,20 +128,10 @@ impl LspFiles {
         file_content: &str,
     ) -> Option<()> {
         let trees = self.trees.get_mut(&lang_type)?;
-        let old_tree = trees.get_mut(&file_name.to_string());
-        match old_tree {
-            Some(old_tree) => {
-                let new_tree = self
-                    .parsers
-                    .parse(lang_type, file_content, Some(old_tree))?;
-                trees.insert(file_name.to_string(), new_tree);
-            }
-            None => {
-                // tree doesn't exist, first insertion
-                let new_tree = self.parsers.parse(lang_type, file_content, None)?;
-                trees.insert(file_name.to_string(), new_tree);
-            }
-        };
+        // The previous tree (if any) describes other content and was not
+        // edited to match this one, so it can't be used for incremental parsing.
+        let new_tree = self.parsers.parse(lang_type, file_content, None)?;
+        trees.insert(file_name.to_string(), new_tree);
         None
     }
 
-- 
2.43.0


From bd79fd08d067b61e5c6e6cbad5e8bed9f6c8cf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:46 +0000
Subject: [PATCH 02/56] fix: compute the new end position of an edit from the
 inserted text

It was looked up in the text before the edit, so tree-sitter kept stale rows
and columns for everything after an edit that adds or removes lines.
---
 jinja-lsp-queries/src/to_input_edit.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp-queries/src/to_input_edit.rs b/jinja-lsp-queries/src/to_input_edit.rs
index a672b53..a8029be 100644
--- a/jinja-lsp-queries/src/to_input_edit.rs
+++ b/jinja-lsp-queries/src/to_input_edit.rs
@@ -52,8 +52,14 @@ impl ToInputEdit for Rope {
         let start_position = self.to_point(start);
 
         let new_end_byte = start_byte + text.len();
-        let new_end_position = self.to_position(new_end_byte);
-        let new_end_position = self.to_point(new_end_position);
+        // The new end belongs to the edited text, not to this (old) one.
+        let new_end_position = match text.rfind('\n') {
+            Some(last) => Point::new(
+                start_position.row + text.matches('\n').count(),
+                text.len() - last - 1,
+            ),
+            None => Point::new(start_position.row, start_position.column + text.len()),
+        };
 
         let old_end_byte = self.to_byte(end);
         let old_end_position = self.to_point(end);
-- 
2.43.0


From c4b15ad9764d27071b3ba874fdabef43144294f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:51 +0000
Subject: [PATCH 03/56] fix: apply edits at the UTF-16 positions of the text
 they refer to

Positions were used as byte columns, and the resulting byte offsets as char
indices of the rope, so every edit after a non-ASCII character changed the
wrong place or panicked, as did positions outside of the text. Lines are now
separated by line feeds only, as in tree-sitter.
---
 jinja-lsp-queries/src/to_input_edit.rs | 36 ++++++++++++++++++++++----
 jinja-lsp/src/lsp_files.rs             | 12 +++------
 2 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/jinja-lsp-queries/src/to_input_edit.rs b/jinja-lsp-queries/src/to_input_edit.rs
index a8029be..b3bd028 100644
--- a/jinja-lsp-queries/src/to_input_edit.rs
+++ b/jinja-lsp-queries/src/to_input_edit.rs
@@ -12,13 +12,39 @@ pub trait ToInputEdit {
 }
 
 impl ToInputEdit for Rope {
+    /// Columns are in bytes, as expected by tree-sitter.
     fn to_point(&self, position: Position) -> Point {
-        Point::new(position.line as usize, position.character as usize)
+        let byte = self.to_byte(position);
+        let mut point = Point::default();
+        for b in self.bytes().take(byte) {
+            if b == b'\n' {
+                point.row += 1;
+                point.column = 0;
+            } else {
+                point.column += 1;
+            }
+        }
+        point
     }
 
+    /// `position.character` is in UTF-16 code units. Positions outside of the
+    /// text are moved to the end of the line or to the end of the text.
     fn to_byte(&self, position: Position) -> usize {
-        let start_line = self.line_to_byte(position.line as usize);
-        start_line + position.character as usize
+        let (mut byte, mut line, mut character) = (0, 0, 0);
+        let mut chars = self.chars().peekable();
+        while let Some(c) = chars.next() {
+            if line == position.line as usize {
+                let end_of_line = c == '\n' || (c == '\r' && chars.peek() == Some(&'\n'));
+                if end_of_line || character >= position.character as usize {
+                    break;
+                }
+                character += c.len_utf16();
+            } else if c == '\n' {
+                line += 1;
+            }
+            byte += c.len_utf8();
+        }
+        byte
     }
 
     fn to_position(&self, mut offset: usize) -> Position {
@@ -45,8 +71,8 @@ impl ToInputEdit for Rope {
     }
 
     fn to_input_edit(&self, range: Range, text: &str) -> InputEdit {
-        let start = range.start;
-        let end = range.end;
+        let start = range.start.min(range.end);
+        let end = range.start.max(range.end);
 
         let start_byte = self.to_byte(start);
         let start_position = self.to_point(start);
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index a843ae8..60c2f98 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -160,15 +160,11 @@ impl LspFiles {
         for change in params.content_changes {
             let range = change.range?;
             let input_edit = rope.to_input_edit(range, &change.text);
-            let start = rope.to_byte(range.start);
-            let end = rope.to_byte(range.end);
-            if start <= end {
-                rope.remove(start..end);
-            } else {
-                rope.remove(end..start);
-            }
+            let start = rope.byte_to_char(rope.to_byte(range.start));
+            let end = rope.byte_to_char(rope.to_byte(range.end));
+            rope.remove(start.min(end)..start.max(end));
             if !change.text.is_empty() {
-                rope.insert(start, &change.text);
+                rope.insert(start.min(end), &change.text);
             }
             let mut w = FileContent::default();
             let _ = rope.write_to(&mut w);
-- 
2.43.0


From daf4f55e216caeeb00bcf0ddc128c97505d78cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:07 +0000
Subject: [PATCH 04/56] fix: accept didChange events that replace the whole
 document

A content change without a range made the server drop it together with the
remaining changes of the notification, leaving rope and tree out of step.
---
 jinja-lsp/src/lsp_files.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 60c2f98..084980c 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -158,7 +158,12 @@ impl LspFiles {
         let lang_type = self.config.file_ext(&Path::new(&uri));
         let mut changes = vec![];
         for change in params.content_changes {
-            let range = change.range?;
+            let Some(range) = change.range else {
+                // the whole document is replaced
+                *rope = Rope::from_str(&change.text);
+                changes.push((change.text, None));
+                continue;
+            };
             let input_edit = rope.to_input_edit(range, &change.text);
             let start = rope.byte_to_char(rope.to_byte(range.start));
             let end = rope.byte_to_char(rope.to_byte(range.end));
@@ -168,10 +173,14 @@ impl LspFiles {
             }
             let mut w = FileContent::default();
             let _ = rope.write_to(&mut w);
-            changes.push((w.content, input_edit));
+            changes.push((w.content, Some(input_edit)));
         }
         for change in changes {
-            self.input_edit(&uri, change.0, change.1, lang_type);
+            if let Some(input_edit) = change.1 {
+                self.input_edit(&uri, change.0, input_edit, lang_type);
+            } else if let Some(lang_type) = lang_type {
+                self.add_tree(&uri, lang_type, &change.0);
+            }
         }
         let param = DidSaveTextDocumentParams {
             text_document: TextDocumentIdentifier::new(params.text_document.uri),
-- 
2.43.0


From 371b443aeca466df6545e27fe74149bc3d1bde94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:06 +0000
Subject: [PATCH 05/56] fix: don't let the worker wait for queues that wait for
 the worker

With a burst of messages both bounded channels filled up: the worker waited for
the diagnostics task, which waited for the worker (code actions). The worker
also waited for room in its own queue on reset_variables and on a changed
configuration. The server then never answered again.
---
 jinja-lsp/src/backend.rs              |  2 +-
 jinja-lsp/src/channels/diagnostics.rs |  4 ++--
 jinja-lsp/src/channels/lsp.rs         | 26 +++++++++++++++++---------
 3 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/jinja-lsp/src/backend.rs b/jinja-lsp/src/backend.rs
index e33a91a..1bd69aa 100644
--- a/jinja-lsp/src/backend.rs
+++ b/jinja-lsp/src/backend.rs
@@ -156,7 +156,7 @@ impl LanguageServer for Backend {
 impl Backend {
     pub fn _new(client: Client) -> Self {
         let (lsp_sender, lsp_recv) = mpsc::channel(50);
-        let (diagnostic_sender, diagnostic_recv) = mpsc::channel(20);
+        let (diagnostic_sender, diagnostic_recv) = mpsc::unbounded_channel();
         lsp_task(
             client.clone(),
             diagnostic_sender,
diff --git a/jinja-lsp/src/channels/diagnostics.rs b/jinja-lsp/src/channels/diagnostics.rs
index 9b5dc06..fe92399 100644
--- a/jinja-lsp/src/channels/diagnostics.rs
+++ b/jinja-lsp/src/channels/diagnostics.rs
@@ -3,7 +3,7 @@ use std::collections::HashMap;
 use jinja_lsp_queries::{
     lsp_helper::create_diagnostic, search::Identifier, tree_builder::JinjaDiagnostic,
 };
-use tokio::sync::mpsc::{Receiver, Sender};
+use tokio::sync::mpsc::{Sender, UnboundedReceiver};
 use tower_lsp::{
     lsp_types::{MessageType, Url},
     Client,
@@ -13,7 +13,7 @@ use super::lsp::LspMessage;
 
 pub fn diagnostics_task(
     client: Client,
-    mut receiver: Receiver<DiagnosticMessage>,
+    mut receiver: UnboundedReceiver<DiagnosticMessage>,
     lsp_channel: Sender<LspMessage>,
 ) {
     tokio::spawn(async move {
diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index 5a0ba6a..13c2c8c 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -31,7 +31,7 @@ use super::diagnostics::DiagnosticMessage;
 
 pub fn lsp_task(
     client: Client,
-    diagnostics_channel: mpsc::Sender<DiagnosticMessage>,
+    diagnostics_channel: mpsc::UnboundedSender<DiagnosticMessage>,
     lsp_channel: mpsc::Sender<LspMessage>,
     mut lsp_recv: mpsc::Receiver<LspMessage>,
 ) {
@@ -41,7 +41,16 @@ pub fn lsp_task(
     let template_tests = init_template_test_completions();
     let snippets = snippets();
     tokio::spawn(async move {
-        while let Some(msg) = lsp_recv.recv().await {
+        // message that is handled before those in the channel
+        let mut next_msg = None;
+        loop {
+            let msg = match next_msg.take() {
+                Some(msg) => msg,
+                None => match lsp_recv.recv().await {
+                    Some(msg) => msg,
+                    None => break,
+                },
+            };
             match msg {
                 LspMessage::Initialize(params, sender) => {
                     if let Some(client_info) = params.client_info {
@@ -128,9 +137,8 @@ pub fn lsp_task(
                     } else {
                         match walkdir(&config) {
                             Ok(errors) => {
-                                let _ = diagnostics_channel
-                                    .send(DiagnosticMessage::Errors(errors.0))
-                                    .await;
+                                let _ =
+                                    diagnostics_channel.send(DiagnosticMessage::Errors(errors.0));
                                 let vscode = lsp_data.is_vscode;
                                 lsp_data = errors.1;
                                 lsp_data.is_vscode = vscode;
@@ -151,7 +159,7 @@ pub fn lsp_task(
                 }
                 LspMessage::DidSave(params) => {
                     if let Some(errors) = lsp_data.did_save(params) {
-                        let _ = diagnostics_channel.send(errors).await;
+                        let _ = diagnostics_channel.send(errors);
                     }
                 }
                 LspMessage::Completion(params, sender) => {
@@ -333,13 +341,13 @@ pub fn lsp_task(
                     let command = params.command;
                     if command == "reset_variables" {
                         let (sender2, _) = oneshot::channel();
-                        let _ = lsp_channel.send(LspMessage::Initialized(sender2)).await;
+                        next_msg = Some(LspMessage::Initialized(sender2));
                         let _ = sender.send(None);
                     }
                 }
                 LspMessage::DidOpen(params) => {
                     if let Some(errors) = lsp_data.did_open(params, false) {
-                        let _ = diagnostics_channel.send(errors).await;
+                        let _ = diagnostics_channel.send(errors);
                     }
                 }
                 LspMessage::DocumentSymbol(params, sender) => {
@@ -357,7 +365,7 @@ pub fn lsp_task(
                     if !config.user_defined {
                         continue;
                     }
-                    let _ = lsp_channel.send(LspMessage::Initialized(sender)).await;
+                    next_msg = Some(LspMessage::Initialized(sender));
                 }
                 LspMessage::CodeActions(code_actions) => {
                     lsp_data.add_code_actions(code_actions);
-- 
2.43.0


From 70c39c6f6e270475278d88fe5d2e0ff510547354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 06/56] fix: keep one pending diagnostics task per changed
 document

There was a single one for all documents: a change in one document cancelled
the pending diagnostics of every other document, so they were never refreshed
after edits in several documents (e.g. rename in files).
---
 jinja-lsp/src/lsp_files.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 084980c..77184e4 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -53,7 +53,8 @@ pub struct LspFiles {
     pub parsers: Parsers,
     pub queries: Queries,
     pub config: JinjaConfig,
-    pub diagnostics_task: Option<JoinHandle<()>>,
+    /// Pending diagnostics of changed documents
+    pub diagnostics_task: HashMap<String, JoinHandle<()>>,
     pub main_channel: Option<mpsc::Sender<LspMessage>>,
     pub variables: HashMap<String, Vec<Identifier>>,
     pub code_actions: HashMap<String, Vec<Identifier>>,
@@ -186,16 +187,17 @@ impl LspFiles {
             text_document: TextDocumentIdentifier::new(params.text_document.uri),
             text: None,
         };
-        if let Some(task) = &self.diagnostics_task {
+        if let Some(task) = self.diagnostics_task.get(&uri) {
             task.abort();
         }
         let channel = self.main_channel.clone();
-        self.diagnostics_task = Some(tokio::spawn(async move {
+        let task = tokio::spawn(async move {
             sleep(Duration::from_millis(200)).await;
             if let Some(channel) = channel {
                 let _ = channel.send(LspMessage::DidSave(param)).await;
             }
-        }));
+        });
+        self.diagnostics_task.insert(uri, task);
         None
     }
 
@@ -912,7 +914,7 @@ impl Default for LspFiles {
         let mut trees = HashMap::new();
         trees.insert(LangType::Template, HashMap::new());
         trees.insert(LangType::Backend, HashMap::new());
-        let diagnostics_task = None;
+        let diagnostics_task = HashMap::new();
         let main_channel = None;
         Self {
             trees,
@@ -941,7 +943,7 @@ impl Clone for LspFiles {
         let is_vscode = self.is_vscode;
         let code_actions = self.code_actions.clone();
         let config = self.config.clone();
-        let task = None;
+        let task = HashMap::new();
         Self {
             trees,
             documents,
-- 
2.43.0


From c04a325b2b0d71afc116aad5ad9db307f80a7b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:32 +0000
Subject: [PATCH 07/56] fix: only the first keyword of a statement opens or
 closes a scope

Inline keywords such as in {% for a in b if c %}, {% set a = b if c else d %}
or {% include "a" with context %} opened scopes that were never closed, so the
matching end tags closed the wrong scopes.
---
 jinja-lsp-queries/src/search/definition.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index 4eb8c15..f5e1b6e 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -158,7 +158,13 @@ pub struct JinjaDefinitions {
 impl JinjaDefinitions {
     fn check(&mut self, name: &str, capture: &QueryCapture<'_>, text: &str) -> Option<bool> {
         let id = capture.node.id();
+        let first_keyword = capture
+            .node
+            .prev_sibling()
+            .is_some_and(|prev| prev.kind() == "statement_begin");
         match name {
+            // e.g. `if` in {% for a in b if c %} doesn't start a statement
+            "definition" | "scope" | "endblock" if !first_keyword => {}
             "definition" => {
                 if self.all_ids.contains(&id) {
                     return Some(false);
-- 
2.43.0


From 0ec6b005261acbb7874400c65962d20fcfd95c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:35 +0000
Subject: [PATCH 08/56] fix: end the scope of a branch at the following elif or
 else

Every branch opened a scope but the end tag closed only the last one, so scopes
around an if with several branches, and for loops with an else, never ended.
---
 jinja-lsp-queries/src/search/definition.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index f5e1b6e..efb99fd 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -194,6 +194,14 @@ impl JinjaDefinitions {
                 }
             }
             "scope" => {
+                let content = capture.node.utf8_text(text.as_bytes()).ok()?;
+                if matches!(content, "elif" | "else") {
+                    // the previous branch ends where this statement begins
+                    if let Some(mut last) = self.current_scope.pop_front() {
+                        last.end = capture.node.parent()?.start_position();
+                        self.all_scopes.push(last);
+                    }
+                }
                 self.can_close_scope = false;
                 self.can_open_scope = true;
                 self.is_end = false;
-- 
2.43.0


From 7634544412a7e5283d2005638c73ad03abda09a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:39 +0000
Subject: [PATCH 09/56] fix: don't close scopes with end tags of statements
 without a scope

set, call and trans don't open a scope, but endset, endcall and endtrans closed
the one around them.
---
 jinja-lsp-queries/src/search/queries.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index 844e3ed..aa82660 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -217,7 +217,7 @@ const DEFINITIONS: &str = r#"
 
     (
         (keyword) @endblock
-        (#match? @endblock "^end")
+        (#match? @endblock "^end(for|with|macro|block|if|filter|autoescape|raw)$")
     )
 
 (
-- 
2.43.0


From bb2efcf6b0c10f1b50f3f90eca930c9effae6736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:45 +0000
Subject: [PATCH 10/56] fix: define every target of a loop and of a set
 statement

---
 jinja-lsp-queries/src/search/definition.rs | 69 ++++++++++++----------
 jinja-lsp-queries/src/search/queries.rs    |  5 ++
 2 files changed, 44 insertions(+), 30 deletions(-)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index efb99fd..936507a 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -8,10 +8,10 @@ use super::{Identifier, IdentifierType};
 pub enum Definition {
     ForLoop {
         key: Identifier,
-        value: Option<Identifier>,
+        values: Vec<Identifier>,
     },
     Set {
-        key: Identifier,
+        keys: Vec<Identifier>,
         equals: bool,
     },
     With {
@@ -29,17 +29,21 @@ pub enum Definition {
 impl Definition {
     fn collect(self, ids: &mut Vec<Identifier>) {
         match self {
-            Definition::ForLoop { mut key, value, .. } => {
+            Definition::ForLoop {
+                mut key, values, ..
+            } => {
                 key.identifier_type = IdentifierType::ForLoopKey;
                 ids.push(key);
-                if let Some(mut value) = value {
+                for mut value in values {
                     value.identifier_type = IdentifierType::ForLoopValue;
                     ids.push(value);
                 }
             }
-            Definition::Set { mut key, .. } => {
-                key.identifier_type = IdentifierType::SetVariable;
-                ids.push(key);
+            Definition::Set { keys, .. } => {
+                for mut key in keys {
+                    key.identifier_type = IdentifierType::SetVariable;
+                    ids.push(key);
+                }
             }
             Definition::With { keys, .. } => {
                 for mut key in keys {
@@ -70,10 +74,10 @@ impl From<&str> for Definition {
         match value {
             "for" => Self::ForLoop {
                 key: Identifier::default(),
-                value: None,
+                values: vec![],
             },
             "set" => Self::Set {
-                key: Identifier::default(),
+                keys: vec![],
                 equals: false,
             },
             "with" => Self::With { keys: vec![] },
@@ -86,7 +90,7 @@ impl From<&str> for Definition {
             },
             _ => Self::ForLoop {
                 key: Identifier::default(),
-                value: None,
+                values: vec![],
             },
         }
     }
@@ -223,6 +227,12 @@ impl JinjaDefinitions {
                     self.can_open_scope = false;
                 }
             }
+            "in" => {
+                // targets of the loop are before `in`
+                if let Some(Definition::ForLoop { .. }) = self.definitions.last() {
+                    self.can_add_id = false;
+                }
+            }
             "error" => {
                 return None;
             }
@@ -242,19 +252,17 @@ impl JinjaDefinitions {
                 let last = self.definitions.last_mut();
                 if let Some(last) = last {
                     match last {
-                        Definition::ForLoop { key, value } => {
+                        Definition::ForLoop { key, values } => {
                             if key.name.is_empty() {
                                 *key = identifier;
-                            } else if let Some(value) = value {
-                                if value.name.is_empty() {
-                                    *value = identifier;
-                                    self.can_add_id = false;
-                                }
+                            } else {
+                                values.push(identifier);
                             }
                         }
-                        Definition::Set { key, .. } => {
-                            if key.name.is_empty() {
-                                *key = identifier;
+                        Definition::Set { keys, .. } => {
+                            if keys.last().map_or(true, |key| follows(capture, key, text)) {
+                                keys.push(identifier);
+                            } else {
                                 self.can_add_id = false;
                             }
                         }
@@ -314,26 +322,18 @@ impl JinjaDefinitions {
         let global_scope = Scope::new(last_line);
         for def in self.definitions.iter_mut() {
             match def {
-                Definition::ForLoop { key, value } => {
+                Definition::ForLoop { key, values } => {
                     let scope = self
                         .all_scopes
                         .iter()
                         .find(|item| item.id == key.scope_ends.0);
                     let scope = scope.unwrap_or(&global_scope);
                     key.scope_ends.1 = scope.end;
-                    if let Some(value) = value {
+                    for value in values {
                         value.scope_ends.1 = scope.end;
                     }
                 }
-                Definition::Set { key, .. } => {
-                    let scope = self
-                        .all_scopes
-                        .iter()
-                        .find(|item| item.id == key.scope_ends.0);
-                    let scope = scope.unwrap_or(&global_scope);
-                    key.scope_ends.1 = scope.end;
-                }
-                Definition::With { keys } => {
+                Definition::Set { keys, .. } | Definition::With { keys } => {
                     for key in keys {
                         let scope = self
                             .all_scopes
@@ -373,6 +373,15 @@ impl JinjaDefinitions {
     }
 }
 
+/// `b` follows `a` in {% set a, b = c %}
+fn follows(capture: &QueryCapture<'_>, key: &Identifier, text: &str) -> bool {
+    capture.node.prev_sibling().is_some_and(|comma| {
+        let content = comma.utf8_text(text.as_bytes()).unwrap_or_default();
+        let prev = comma.prev_sibling();
+        content.trim() == "," && prev.is_some_and(|prev| prev.start_position() == key.start)
+    })
+}
+
 pub fn definition_query(
     query: &Query,
     tree: &Tree,
diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index aa82660..186e394 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -220,6 +220,11 @@ const DEFINITIONS: &str = r#"
         (#match? @endblock "^end(for|with|macro|block|if|filter|autoescape|raw)$")
     )
 
+(
+    (keyword) @in
+    (#eq? @in "in")
+)
+
 (
 	(operator) @equals
     (#match? @equals "=")
-- 
2.43.0


From 34379623d4dd044b7397da341e9f059a063e5c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:09 +0000
Subject: [PATCH 11/56] fix: don't define the values of a with statement and
 the defaults of a macro

---
 jinja-lsp-queries/src/search/definition.rs | 46 +++++++++++++++++++++-
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index 936507a..23f7a77 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -267,13 +267,17 @@ impl JinjaDefinitions {
                             }
                         }
                         Definition::With { keys } => {
-                            keys.push(identifier);
+                            if is_assigned(capture, text) {
+                                keys.push(identifier);
+                            }
                         }
                         Definition::Macro { keys, scope } => {
                             if keys.is_empty() {
                                 identifier.scope_ends.0 = *scope;
+                                keys.push(identifier);
+                            } else if is_parameter(capture, text) {
+                                keys.push(identifier);
                             }
-                            keys.push(identifier);
                         }
                         Definition::Block { name } => {
                             if name.name.is_empty() {
@@ -382,6 +386,44 @@ fn follows(capture: &QueryCapture<'_>, key: &Identifier, text: &str) -> bool {
     })
 }
 
+/// `a` and `b` (but not `c`, `d`) are assigned in {% with a = 1, b = c(d = 2) %}
+fn is_assigned(capture: &QueryCapture<'_>, text: &str) -> bool {
+    let next = capture.node.next_sibling().map_or("", |operator| {
+        operator.utf8_text(text.as_bytes()).unwrap_or_default()
+    });
+    next.starts_with('=') && !next.starts_with("==") && depth(capture, text) == Some(0)
+}
+
+/// `a` and `b` (but not `c`) are parameters in {% macro name(a, b = c) %}
+fn is_parameter(capture: &QueryCapture<'_>, text: &str) -> bool {
+    let prev = capture.node.prev_sibling().map_or("", |operator| {
+        operator.utf8_text(text.as_bytes()).unwrap_or_default()
+    });
+    prev.trim_end().ends_with(['(', ',']) && depth(capture, text) == Some(1)
+}
+
+/// Number of brackets that are open before this node of the statement.
+fn depth(capture: &QueryCapture<'_>, text: &str) -> Option<i32> {
+    if capture.node.parent()?.kind() != "statement" {
+        return None;
+    }
+    let mut depth = 0;
+    let mut node = capture.node.prev_sibling();
+    while let Some(prev) = node {
+        if prev.kind() == "operator" {
+            for c in prev.utf8_text(text.as_bytes()).ok()?.chars() {
+                match c {
+                    '(' | '[' => depth += 1,
+                    ')' | ']' => depth -= 1,
+                    _ => {}
+                }
+            }
+        }
+        node = prev.prev_sibling();
+    }
+    Some(depth)
+}
+
 pub fn definition_query(
     query: &Query,
     tree: &Tree,
-- 
2.43.0


From 25b5c4ba04ea936eb7d62145d2f044ab75d23957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:33 +0000
Subject: [PATCH 12/56] fix: recognise filters of calls and subscripts

---
 jinja-lsp-queries/src/search/objects.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 7049bb1..ba30fa1 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -73,8 +73,14 @@ impl JinjaObjects {
             }
             "pipe" => {
                 let content = capture.node.utf8_text(source.as_bytes()).ok()?;
-                if content.starts_with('|') {
-                    self.pipe = (start, end);
+                // e.g. `) | ` in {{ name(1) | upper }}
+                if let Some(before) = content.trim_end().strip_suffix('|') {
+                    let column = match before.rfind('\n') {
+                        Some(newline) => before.len() - newline - 1,
+                        None => start.column + before.len(),
+                    };
+                    let row = start.row + before.matches('\n').count();
+                    self.pipe = (Point::new(row, column), end);
                 }
                 return Some(ObjectAction::NewFilter);
             }
-- 
2.43.0


From 8f46e1d34877c5140fb2d0f240fa8444492489a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:59 +0000
Subject: [PATCH 13/56] fix: don't take attributes of calls, subscripts and
 ignored names for variables

---
 jinja-lsp-queries/src/search/objects.rs | 15 +++++++++++++++
 jinja-lsp-queries/src/search/queries.rs |  2 +-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index ba30fa1..f0e03d3 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -45,6 +45,8 @@ impl JinjaObject {
 pub struct JinjaObjects {
     objects: Vec<JinjaObject>,
     dot: (Point, Point),
+    unknown_object: bool,
+    ignored: Point,
     pipe: (Point, Point),
     test: (Point, Point, bool),
     expr: (Point, Point, ExpressionRange),
@@ -69,6 +71,13 @@ impl JinjaObjects {
             }
             "dot" => {
                 self.dot = (start, end);
+                // e.g. `b` in {{ a().b }} and {{ loop.b }} isn't a field of a variable
+                let content = capture.node.utf8_text(source.as_bytes()).ok()?;
+                let prev = capture.node.prev_sibling();
+                self.unknown_object = content.trim_end() != "."
+                    || prev.map_or(true, |prev| {
+                        prev.kind() != "identifier" || prev.end_position() == self.ignored
+                    });
                 return Some(ObjectAction::NewField);
             }
             "pipe" => {
@@ -113,6 +122,10 @@ impl JinjaObjects {
         let end = capture.node.end_position();
         if let Ok(value) = value {
             if start.row == self.dot.1.row && start.column == self.dot.1.column {
+                if self.unknown_object {
+                    self.ignored = end;
+                    return ObjectAction::Invalid;
+                }
                 let last_object = self.objects.last_mut().map(|last| {
                     last.fields.push((String::from(value), (start, end)));
                     self.ident = (start, end);
@@ -122,6 +135,7 @@ impl JinjaObjects {
                     None => {
                         // TODO: in future add those to main library
                         if VALID_IDENTIFIERS.contains(&value) {
+                            self.ignored = end;
                             return ObjectAction::Invalid;
                         }
                         self.ident = (start, end);
@@ -137,6 +151,7 @@ impl JinjaObjects {
             } else {
                 // TODO: in future add those to main library
                 if VALID_IDENTIFIERS.contains(&value) {
+                    self.ignored = end;
                     return ObjectAction::Invalid;
                 }
                 self.ident = (start, end);
diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index 186e394..36baf3c 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -57,7 +57,7 @@ const OBJECTS: &str = r#"
     [
         (
             (operator) @dot
-            (#eq? @dot "\.")
+            (#match? @dot "\\.\\s*$")
         )
 
         (
-- 
2.43.0


From 8e510cc3c8d9697ce77ab96380ec6b6a2106dd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:57 +0000
Subject: [PATCH 14/56] fix: recognise keywords, constants and tests in
 expressions

---
 jinja-lsp-queries/src/search/objects.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index f0e03d3..7864930 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -121,6 +121,19 @@ impl JinjaObjects {
         let start = capture.node.start_position();
         let end = capture.node.end_position();
         if let Ok(value) = value {
+            // `none` and `true` are names of tests too
+            let test_name = self.test.2 && value != "not";
+            let parent = capture.node.parent();
+            if start != self.dot.1 && parent.is_some_and(|parent| parent.kind() != "statement") {
+                // the grammar has keywords only in statements
+                if value == "is" {
+                    self.test = (start, end, true);
+                    return ObjectAction::NewTest;
+                } else if KEYWORDS.contains(&value) && !test_name {
+                    self.ignored = end;
+                    return ObjectAction::Invalid;
+                }
+            }
             if start.row == self.dot.1.row && start.column == self.dot.1.column {
                 if self.unknown_object {
                     self.ignored = end;
@@ -134,7 +147,7 @@ impl JinjaObjects {
                     Some(_) => {}
                     None => {
                         // TODO: in future add those to main library
-                        if VALID_IDENTIFIERS.contains(&value) {
+                        if VALID_IDENTIFIERS.contains(&value) && !test_name {
                             self.ignored = end;
                             return ObjectAction::Invalid;
                         }
@@ -150,7 +163,7 @@ impl JinjaObjects {
                 }
             } else {
                 // TODO: in future add those to main library
-                if VALID_IDENTIFIERS.contains(&value) {
+                if VALID_IDENTIFIERS.contains(&value) && !test_name {
                     self.ignored = end;
                     return ObjectAction::Invalid;
                 }
@@ -345,10 +358,13 @@ pub enum CompletionType {
     IncompleteFilter { name: String, range: Range },
 }
 
-static VALID_IDENTIFIERS: [&str; 8] = [
-    "loop", "true", "false", "not", "as", "module", "super", "url_for",
+static VALID_IDENTIFIERS: [&str; 12] = [
+    "loop", "true", "false", "not", "as", "module", "super", "url_for", "True", "False", "none",
+    "None",
 ];
 
+static KEYWORDS: [&str; 5] = ["and", "or", "in", "if", "else"];
+
 #[derive(Default, Debug, Clone, Copy)]
 pub struct ExpressionRange {
     begin: (Point, Point),
-- 
2.43.0


From 106256277fe4a8b9f55dc059dca798ae6ded1027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:22 +0000
Subject: [PATCH 15/56] fix: don't take keyword arguments and block modifiers
 for variables

---
 jinja-lsp-queries/src/search/objects.rs | 39 ++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 7864930..3d9ca57 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -1,5 +1,5 @@
 use tower_lsp::lsp_types::Range;
-use tree_sitter::{Point, Query, QueryCapture, QueryCursor, Tree};
+use tree_sitter::{Node, Point, Query, QueryCapture, QueryCursor, Tree};
 
 use super::{completion_start, to_range, to_range2, Identifier};
 
@@ -121,6 +121,10 @@ impl JinjaObjects {
         let start = capture.node.start_position();
         let end = capture.node.end_position();
         if let Ok(value) = value {
+            if !is_variable(capture, source) {
+                self.ignored = end;
+                return ObjectAction::Invalid;
+            }
             // `none` and `true` are names of tests too
             let test_name = self.test.2 && value != "not";
             let parent = capture.node.parent();
@@ -272,6 +276,39 @@ impl JinjaObjects {
     }
 }
 
+/// Names of blocks in `endblock`, modifiers of `block` and keyword arguments
+/// aren't variables.
+fn is_variable(capture: &QueryCapture<'_>, source: &str) -> bool {
+    let text = |node: Option<Node>| {
+        let text = node.and_then(|node| node.utf8_text(source.as_bytes()).ok());
+        text.unwrap_or_default()
+    };
+    let parent = capture.node.parent();
+    let statement = parent.filter(|parent| parent.kind() == "statement");
+    match text(statement.and_then(|statement| statement.child(1))) {
+        "endblock" => return false,
+        "block" if text(capture.node.prev_sibling()) != "block" => return false,
+        // parameters with default values
+        "macro" => return true,
+        _ => {}
+    }
+    let next = text(capture.node.next_sibling());
+    if !next.starts_with('=') || next.starts_with("==") {
+        return true;
+    }
+    let mut depth = 0;
+    let mut node = capture.node.prev_sibling();
+    while let Some(prev) = node.filter(|_| depth <= 0) {
+        if prev.kind() == "operator" {
+            let operator = text(node);
+            depth += operator.matches('(').count() as i32;
+            depth -= operator.matches(')').count() as i32;
+        }
+        node = prev.prev_sibling();
+    }
+    depth <= 0
+}
+
 pub fn objects_query(
     query: &Query,
     tree: &Tree,
-- 
2.43.0


From fbdf7ece53b3ffedd3ac8a68f75592c78e205497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:55 +0000
Subject: [PATCH 16/56] fix: don't take names of blocks and templates for
 variables

---
 jinja-lsp-queries/src/lsp_helper.rs | 10 +++++++++-
 jinja-lsp-queries/src/search/mod.rs |  8 ++++++++
 jinja-lsp/src/lsp_files.rs          |  5 ++++-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp-queries/src/lsp_helper.rs b/jinja-lsp-queries/src/lsp_helper.rs
index e5399d3..5214531 100644
--- a/jinja-lsp-queries/src/lsp_helper.rs
+++ b/jinja-lsp-queries/src/lsp_helper.rs
@@ -34,6 +34,13 @@ pub fn search_errors(
                 if object.is_filter || object.is_test {
                     continue;
                 }
+                let block_name = this_file.iter().any(|variable| {
+                    variable.identifier_type == IdentifierType::TemplateBlock
+                        && variable.start == object.location.0
+                });
+                if block_name {
+                    continue;
+                }
                 let mut exist = false;
                 let mut err_type = JinjaDiagnostic::Undefined;
                 let mut to_warn = false;
@@ -66,7 +73,8 @@ pub fn search_errors(
                         let temp = file
                             .1
                             .iter()
-                            .filter(|variable| variable.name == object.name);
+                            .filter(|variable| variable.name == object.name)
+                            .filter(|variable| variable.identifier_type.is_variable());
                         if temp.count() != 0 {
                             err_type = JinjaDiagnostic::DefinedSomewhere;
                             to_warn = true;
diff --git a/jinja-lsp-queries/src/search/mod.rs b/jinja-lsp-queries/src/search/mod.rs
index 2659569..a52b809 100644
--- a/jinja-lsp-queries/src/search/mod.rs
+++ b/jinja-lsp-queries/src/search/mod.rs
@@ -106,6 +106,14 @@ pub enum IdentifierType {
 }
 
 impl IdentifierType {
+    /// Blocks and templates aren't variables that can be used in expressions.
+    pub fn is_variable(&self) -> bool {
+        !matches!(
+            self,
+            IdentifierType::TemplateBlock | IdentifierType::JinjaTemplate
+        )
+    }
+
     pub fn completion_detail(&self) -> &'static str {
         match self {
             IdentifierType::ForLoopKey => "For loop key",
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 77184e4..e8b63e2 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -434,7 +434,9 @@ impl LspFiles {
                             continue;
                         }
                         let variables = file.1.iter().filter(|item| {
-                            item.name.split('.').next().unwrap_or(&item.name) == current_ident
+                            item.identifier_type.is_variable()
+                                && item.name.split('.').next().unwrap_or(&item.name)
+                                    == current_ident
                         });
                         for variable in variables {
                             let uri = {
@@ -857,6 +859,7 @@ impl LspFiles {
             let variables = file
                 .1
                 .iter()
+                .filter(|item| item.identifier_type.is_variable())
                 .filter(|item| item.name.split('.').next().unwrap_or(&item.name) == hover.name);
             if variables.count() > 0 {
                 return Some(IdentifierType::BackendVariable);
-- 
2.43.0


From 372550619654ab8f3de6998f30bec0bc95437229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:38 +0000
Subject: [PATCH 17/56] fix: don't take the block around a variable for its
 definition

---
 jinja-lsp/src/lsp_files.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index e8b63e2..9524db7 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -405,6 +405,8 @@ impl LspFiles {
                         .filter(|item| {
                             item.name == ident && item.start <= point && point <= item.scope_ends.1
                         })
+                        // a block is only the definition of its own name
+                        .filter(|item| item.identifier_type.is_variable() || point <= item.end)
                         .max()?;
                     let (start, end) = (to_position2(max.start), to_position2(max.end));
                     let range = Range::new(start, end);
-- 
2.43.0


From 76848c467dea7b720113307951e00ca67002fb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:38 +0000
Subject: [PATCH 18/56] fix: recognise the filter of a filter statement

---
 jinja-lsp-queries/src/search/objects.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 3d9ca57..17c4e9a 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -173,7 +173,12 @@ impl JinjaObjects {
                 }
                 self.ident = (start, end);
                 let is_test = self.test.2;
-                let is_filter = self.is_hover(start) && self.is_filter();
+                // e.g. `upper` in {% filter upper %}
+                let filter_statement = capture.node.prev_sibling().is_some_and(|prev| {
+                    let begin = prev.prev_sibling().map_or("", |begin| begin.kind());
+                    begin == "statement_begin" && prev.utf8_text(source.as_bytes()) == Ok("filter")
+                });
+                let is_filter = self.is_hover(start) && self.is_filter() || filter_statement;
                 self.objects.push(JinjaObject::new(
                     String::from(value),
                     start,
-- 
2.43.0


From 504cb303c97f2f0b37e7f6a7b39eaa7289a3f120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:55 +0000
Subject: [PATCH 19/56] fix: use percent-encoded URIs for files of the
 workspace

---
 jinja-lsp/src/lsp_files.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 9524db7..70a5e44 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -65,10 +65,10 @@ pub struct LspFiles {
 impl LspFiles {
     pub fn read_file(&mut self, path: &&Path, lang_type: LangType) -> Option<()> {
         if let Ok(name) = std::fs::canonicalize(path) {
-            let name = name.to_str()?;
-            let file_content = read_to_string(name).ok()?;
+            let file_content = read_to_string(&name).ok()?;
             let rope = Rope::from_str(&file_content);
-            let name = format!("file://{}", name);
+            // characters that aren't allowed in URI are encoded, like in URIs of the client
+            let name = Url::from_file_path(name).ok()?.to_string();
             let adding = name.clone();
             self.documents.insert(name.to_string(), rope);
             self.add_tree(&name, lang_type, &file_content);
@@ -422,8 +422,7 @@ impl LspFiles {
                     let mut path = self.config.templates.clone();
                     path.push(&identifier.name);
                     let buffer = std::fs::canonicalize(path).ok()?;
-                    let url = format!("file://{}", buffer.to_str()?);
-                    let url = Url::parse(&url).ok()?;
+                    let url = Url::from_file_path(buffer).ok()?;
                     let range = Range::new(Position::default(), Position::default());
                     let location = Location::new(url, range);
                     res = Some(GotoDefinitionResponse::Scalar(location));
@@ -471,8 +470,7 @@ impl LspFiles {
                 let mut path = self.config.templates.clone();
                 path.push(&template.name);
                 let buffer = std::fs::canonicalize(path).ok()?;
-                let url = format!("file://{}", buffer.to_str()?);
-                let url = Url::parse(&url).ok()?;
+                let url = Url::from_file_path(buffer).ok()?;
                 let range = Range::new(Position::default(), Position::default());
                 let location = Location::new(url, range);
                 Some(GotoDefinitionResponse::Scalar(location))
-- 
2.43.0


From 5d0ac1009696a77a3d828da5a0eb4dceeb828569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:10 +0000
Subject: [PATCH 20/56] fix: create the missing template at its path

---
 jinja-lsp/src/lsp_files.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 70a5e44..5740ec4 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -546,9 +546,8 @@ impl LspFiles {
                 let templates = self.config.templates.to_owned();
                 if let Ok(mut path) = std::fs::canonicalize(templates) {
                     path.push(path_items(&template));
-                    let name = format!("file:///{}", path.to_str().unwrap());
                     let cf = CreateFile {
-                        uri: Url::parse(&name).unwrap(),
+                        uri: Url::from_file_path(path).ok()?,
                         options: Some(CreateFileOptions {
                             overwrite: Some(false),
                             ignore_if_exists: Some(true),
-- 
2.43.0


From c7e23d5df65900793a21f3e6872c430d6325cfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:53 +0000
Subject: [PATCH 21/56] fix: complete templates by their path in the directory
 of templates

---
 jinja-lsp/src/lsp_files.rs | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 5740ec4..ff33b86 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -697,30 +697,23 @@ impl LspFiles {
 
     pub fn read_templates(
         &self,
-        mut prefix: String,
+        prefix: String,
         range: Range,
         start_point: Position,
         _: Option<String>,
     ) -> Option<Vec<CompletionItem>> {
         let all_templates = self.trees.get(&LangType::Template)?;
-        if prefix.is_empty() {
-            prefix = String::from("file:///");
-        }
-        let templates = all_templates
-            .keys()
-            .filter(|template| template.contains(&prefix));
+        let root = std::fs::canonicalize(&self.config.templates).ok()?;
         let mut abc = vec![];
-        for template in templates {
-            let c = &self
-                .config
-                .templates
-                .as_path()
-                .to_str()
-                .unwrap()
-                .replace('.', "");
-            let mut parts = template.split(c);
-            parts.next();
-            let label = parts.next()?.replacen('/', "", 1);
+        for template in all_templates.keys() {
+            let path = Url::parse(template)
+                .ok()
+                .and_then(|url| url.to_file_path().ok());
+            let label =
+                path.and_then(|path| Some(path.strip_prefix(&root).ok()?.to_str()?.to_owned()));
+            let Some(label) = label.filter(|label| label.contains(&prefix)) else {
+                continue;
+            };
             let new_text = format!("\"{label}\"");
             let mut additional_text_edits = None;
             let text_edit = {
-- 
2.43.0


From ebcc075908f2aca7b1463d064fda5c6e9346dd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:53 +0000
Subject: [PATCH 22/56] fix: insert the completed identifier in Visual Studio
 Code

---
 jinja-lsp/src/lsp_files.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index ff33b86..bb89324 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -643,7 +643,7 @@ impl LspFiles {
                         let mut edits = vec;
                         edits.push(TextEdit {
                             range: incomplete_range,
-                            new_text: start_item.to_string(),
+                            new_text: identifier.name.to_string(),
                         });
                         additional_text_edits = Some(edits);
                         CompletionTextEdit::Edit(TextEdit {
-- 
2.43.0


From ff944b47a529dff9dbd13c73b8adc934af0f4a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:53 +0000
Subject: [PATCH 23/56] fix: don't underflow when completing a template in
 string with several lines

---
 jinja-lsp-queries/src/search/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/mod.rs b/jinja-lsp-queries/src/search/mod.rs
index a52b809..e248436 100644
--- a/jinja-lsp-queries/src/search/mod.rs
+++ b/jinja-lsp-queries/src/search/mod.rs
@@ -61,7 +61,8 @@ pub fn completion_start(mut trigger_point: Point, identifier: &Identifier) -> Op
     if len == 0 {
         return Some("");
     }
-    let diff = identifier.end.column - trigger_point.column;
+    // the identifier can be a string that ends in other line
+    let diff = identifier.end.column.saturating_sub(trigger_point.column);
     if diff == 0 || diff == 1 {
         return Some(&identifier.name);
     }
-- 
2.43.0


From 609a6a0553dc9bfdf3d172fd7721d53f8f8c800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:02 +0000
Subject: [PATCH 24/56] fix: don't complete filters at the beginning of
 document

---
 jinja-lsp-queries/src/search/objects.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 17c4e9a..053eec0 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -227,7 +227,8 @@ impl JinjaObjects {
     }
 
     pub fn in_pipe(&self, trigger_point: Point) -> bool {
-        trigger_point >= self.pipe.0 && trigger_point <= self.pipe.1
+        let found = self.pipe.0 != self.pipe.1;
+        found && trigger_point >= self.pipe.0 && trigger_point <= self.pipe.1
     }
 
     pub fn in_expr(&self, trigger_point: Point) -> bool {
-- 
2.43.0


From 06fe8c7e4d11f5ba13628ae5dde2aa3480e1597e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:15 +0000
Subject: [PATCH 25/56] fix: keep content of open documents when the workspace
 is indexed again

---
 jinja-lsp/src/backend.rs      |  4 +++-
 jinja-lsp/src/channels/lsp.rs | 20 +++++++++++++-------
 jinja-lsp/src/lsp_files.rs    | 35 ++++++++++++++++++++++++++++++++---
 3 files changed, 48 insertions(+), 11 deletions(-)

diff --git a/jinja-lsp/src/backend.rs b/jinja-lsp/src/backend.rs
index 1bd69aa..1828af5 100644
--- a/jinja-lsp/src/backend.rs
+++ b/jinja-lsp/src/backend.rs
@@ -55,7 +55,9 @@ impl LanguageServer for Backend {
         let _ = self.main_channel.send(LspMessage::DidOpen(params)).await;
     }
 
-    async fn did_close(&self, _params: DidCloseTextDocumentParams) {}
+    async fn did_close(&self, params: DidCloseTextDocumentParams) {
+        let _ = self.main_channel.send(LspMessage::DidClose(params)).await;
+    }
 
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
         let _ = self.main_channel.send(LspMessage::DidChange(params)).await;
diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index 13c2c8c..bd2b15a 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -9,12 +9,12 @@ use tower_lsp::{
         CodeActionParams, CodeActionProviderCapability, CodeActionResponse, CompletionItem,
         CompletionItemKind, CompletionOptions, CompletionParams, CompletionResponse,
         CompletionTextEdit, DidChangeConfigurationParams, DidChangeTextDocumentParams,
-        DidOpenTextDocumentParams, DidSaveTextDocumentParams, DocumentSymbolParams,
-        DocumentSymbolResponse, Documentation, ExecuteCommandOptions, ExecuteCommandParams,
-        GotoDefinitionParams, GotoDefinitionResponse, Hover, HoverContents, HoverParams,
-        HoverProviderCapability, InitializeParams, InitializeResult, InsertReplaceEdit,
-        MarkupContent, MarkupKind, MessageType, OneOf, ServerCapabilities, ServerInfo,
-        TextDocumentIdentifier, TextDocumentSyncCapability, TextDocumentSyncKind,
+        DidCloseTextDocumentParams, DidOpenTextDocumentParams, DidSaveTextDocumentParams,
+        DocumentSymbolParams, DocumentSymbolResponse, Documentation, ExecuteCommandOptions,
+        ExecuteCommandParams, GotoDefinitionParams, GotoDefinitionResponse, Hover, HoverContents,
+        HoverParams, HoverProviderCapability, InitializeParams, InitializeResult,
+        InsertReplaceEdit, MarkupContent, MarkupKind, MessageType, OneOf, ServerCapabilities,
+        ServerInfo, TextDocumentIdentifier, TextDocumentSyncCapability, TextDocumentSyncKind,
         TextDocumentSyncOptions, TextDocumentSyncSaveOptions, TextEdit,
     },
     Client,
@@ -136,7 +136,9 @@ pub fn lsp_task(
                             .await;
                     } else {
                         match walkdir(&config) {
-                            Ok(errors) => {
+                            Ok(mut errors) => {
+                                errors.1.keep_open_documents(&lsp_data);
+                                errors.1.read_trees(&mut errors.0);
                                 let _ =
                                     diagnostics_channel.send(DiagnosticMessage::Errors(errors.0));
                                 let vscode = lsp_data.is_vscode;
@@ -350,6 +352,9 @@ pub fn lsp_task(
                         let _ = diagnostics_channel.send(errors);
                     }
                 }
+                LspMessage::DidClose(params) => {
+                    lsp_data.did_close(params);
+                }
                 LspMessage::DocumentSymbol(params, sender) => {
                     if let Some(symbols) = lsp_data.document_symbols(params) {
                         let _ = sender.send(Some(symbols));
@@ -379,6 +384,7 @@ pub enum LspMessage {
     Initialize(Box<InitializeParams>, oneshot::Sender<InitializeResult>),
     Initialized(oneshot::Sender<bool>),
     DidOpen(DidOpenTextDocumentParams),
+    DidClose(DidCloseTextDocumentParams),
     DidChange(DidChangeTextDocumentParams),
     DidSave(DidSaveTextDocumentParams),
     Completion(
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index bb89324..068ea1e 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -23,9 +23,10 @@ use std::{
 use tokio::{sync::mpsc, task::JoinHandle, time::sleep};
 use tower_lsp::lsp_types::{
     CodeAction, CodeActionKind, CodeActionOrCommand, Command, CompletionItemKind,
-    CompletionTextEdit, CreateFile, CreateFileOptions, DidOpenTextDocumentParams,
-    DocumentChangeOperation, DocumentChanges, DocumentSymbol, DocumentSymbolResponse,
-    InsertReplaceEdit, ResourceOp, TextDocumentIdentifier, TextEdit, WorkspaceEdit,
+    CompletionTextEdit, CreateFile, CreateFileOptions, DidCloseTextDocumentParams,
+    DidOpenTextDocumentParams, DocumentChangeOperation, DocumentChanges, DocumentSymbol,
+    DocumentSymbolResponse, InsertReplaceEdit, ResourceOp, TextDocumentIdentifier, TextEdit,
+    WorkspaceEdit,
 };
 
 use jinja_lsp_queries::{
@@ -50,6 +51,8 @@ use crate::{
 pub struct LspFiles {
     trees: HashMap<LangType, HashMap<String, Tree>>,
     documents: HashMap<String, Rope>,
+    /// Documents whose content is managed by the client
+    open_documents: HashSet<String>,
     pub parsers: Parsers,
     pub queries: Queries,
     pub config: JinjaConfig,
@@ -781,6 +784,7 @@ impl LspFiles {
         let rope = Rope::from_str(&file_content);
         self.delete_variables(name);
         self.documents.insert(name.to_string(), rope);
+        self.open_documents.insert(name.to_string());
         self.add_tree(name, lang_type, &file_content);
         self.add_variables(name, lang_type, &file_content);
         let mut hm = HashMap::new();
@@ -793,6 +797,26 @@ impl LspFiles {
         Some(msg)
     }
 
+    pub fn did_close(&mut self, params: DidCloseTextDocumentParams) {
+        self.open_documents
+            .remove(params.text_document.uri.as_str());
+    }
+
+    /// Documents that are open can be different from files that were indexed.
+    pub fn keep_open_documents(&mut self, previous: &LspFiles) {
+        for name in &previous.open_documents {
+            let lang_type = self.config.file_ext(&Path::new(name));
+            if let (Some(rope), Some(lang_type)) = (previous.documents.get(name), lang_type) {
+                let file_content = rope.to_string();
+                self.delete_variables(name);
+                self.documents.insert(name.to_string(), rope.clone());
+                self.open_documents.insert(name.to_string());
+                self.add_tree(name, lang_type, &file_content);
+                self.add_variables(name, lang_type, &file_content);
+            }
+        }
+    }
+
     pub fn read_objects(&self, uri: Url) -> Option<Vec<JinjaObject>> {
         let rope = self.documents.get(uri.as_str())?;
         let mut writter = FileContent::default();
@@ -885,6 +909,7 @@ impl LspFiles {
 
     pub fn delete_documents(&mut self) {
         self.documents.clear();
+        self.open_documents.clear();
     }
 
     pub fn delete_documents_with_id(&mut self, id: String) {
@@ -896,6 +921,7 @@ impl LspFiles {
         }
         for i in ids {
             self.documents.remove(&i);
+            self.open_documents.remove(&i);
             self.variables.remove(&i);
             if let Some(templates) = self.trees.get_mut(&LangType::Template) {
                 templates.remove(&i);
@@ -916,6 +942,7 @@ impl Default for LspFiles {
             parsers: Parsers::default(),
             queries: Queries::default(),
             documents: HashMap::new(),
+            open_documents: HashSet::new(),
             config: JinjaConfig::default(),
             diagnostics_task,
             main_channel,
@@ -933,6 +960,7 @@ impl Clone for LspFiles {
         let parsers = Parsers::default();
         let queries = Queries::default();
         let documents = self.documents.clone();
+        let open_documents = self.open_documents.clone();
         let main_channel = self.main_channel.clone();
         let variables = self.variables.clone();
         let is_vscode = self.is_vscode;
@@ -942,6 +970,7 @@ impl Clone for LspFiles {
         Self {
             trees,
             documents,
+            open_documents,
             parsers,
             queries,
             config,
-- 
2.43.0


From 1b5a7fd12247aad579e9a46908331ef26296c734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:30 +0000
Subject: [PATCH 26/56] fix: ask clients for notifications about open documents

---
 jinja-lsp/src/channels/lsp.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index bd2b15a..45ba911 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -83,6 +83,7 @@ pub fn lsp_task(
                         capabilities: ServerCapabilities {
                             text_document_sync: Some(TextDocumentSyncCapability::Options(
                                 TextDocumentSyncOptions {
+                                    open_close: Some(true),
                                     change: Some(TextDocumentSyncKind::INCREMENTAL),
                                     will_save: Some(true),
                                     save: Some(TextDocumentSyncSaveOptions::Supported(true)),
-- 
2.43.0


From 2f520d0401a65031cb8087f57824e2898f2133aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:42 +0000
Subject: [PATCH 27/56] fix: use UTF-16 positions in requests and in answers

---
 jinja-lsp-nodejs/src/lib.rs            | 19 +++----
 jinja-lsp-queries/src/to_input_edit.rs | 41 ++++++++-------
 jinja-lsp/src/lsp_files.rs             | 72 ++++++++++++++++----------
 3 files changed, 76 insertions(+), 56 deletions(-)

diff --git a/jinja-lsp-nodejs/src/lib.rs b/jinja-lsp-nodejs/src/lib.rs
index 3436232..159d9cf 100644
--- a/jinja-lsp-nodejs/src/lib.rs
+++ b/jinja-lsp-nodejs/src/lib.rs
@@ -15,7 +15,6 @@ use jinja_lsp_queries::{
     snippets_completion::snippets,
     Identifier, IdentifierType,
   },
-  to_input_edit::to_position2,
 };
 
 use tower_lsp::lsp_types::{
@@ -155,6 +154,7 @@ impl NodejsLspFiles {
         content,
       ),
     };
+    let uri = params.text_document.uri.to_string();
     self.lsp_files.did_open(params, true);
     match ext.as_str() {
       "jinja" => {
@@ -167,8 +167,8 @@ impl NodejsLspFiles {
               let action_object = ActionObject::from(obj);
               for global_action in global_actions {
                 if global_action.compare(&action_object.fields) {
-                  let mut start = JsPosition::from(obj.location.0);
-                  let mut end = JsPosition::from(obj.last_field_end());
+                  let mut start = JsPosition::from(&self.lsp_files.position(&uri, obj.location.0));
+                  let mut end = JsPosition::from(&self.lsp_files.position(&uri, obj.last_field_end()));
                   start.line += line;
                   end.line += line;
                   let identifier = JsIdentifier {
@@ -195,8 +195,8 @@ impl NodejsLspFiles {
               let action_object = ActionObject::from(obj);
               for global_action in global_actions {
                 if global_action.compare(&action_object.fields) {
-                  let mut start = JsPosition::from(obj.start);
-                  let mut end = JsPosition::from(obj.end);
+                  let mut start = JsPosition::from(&self.lsp_files.position(&uri, obj.start));
+                  let mut end = JsPosition::from(&self.lsp_files.position(&uri, obj.end));
                   start.line += line;
                   end.line += line;
                   let identifier = JsIdentifier {
@@ -245,6 +245,8 @@ impl NodejsLspFiles {
     let mut converted = vec![];
     for variable in variables {
       let mut variable2 = JsIdentifier::from(variable);
+      variable2.start = JsPosition::from(&self.lsp_files.position(&id, variable.start));
+      variable2.end = JsPosition::from(&self.lsp_files.position(&id, variable.end));
       variable2.start.line += line;
       variable2.end.line += line;
       converted.push(variable2);
@@ -273,10 +275,9 @@ impl NodejsLspFiles {
     };
     let hover = self.lsp_files.hover(params)?;
     let mut res = None;
-    let mut range = Range {
-      start: to_position2(hover.0.start),
-      end: to_position2(hover.0.end),
-    };
+    let mut range = self
+      .lsp_files
+      .range(uri.as_str(), (hover.0.start, hover.0.end));
     range.start.line += line;
     range.end.line += line;
     let range = Some(range);
diff --git a/jinja-lsp-queries/src/to_input_edit.rs b/jinja-lsp-queries/src/to_input_edit.rs
index b3bd028..96e76e6 100644
--- a/jinja-lsp-queries/src/to_input_edit.rs
+++ b/jinja-lsp-queries/src/to_input_edit.rs
@@ -7,7 +7,7 @@ use tree_sitter::{InputEdit, Point};
 pub trait ToInputEdit {
     fn to_point(&self, position: Position) -> Point;
     fn to_byte(&self, position: Position) -> usize;
-    fn to_position(&self, offset: usize) -> Position;
+    fn to_position(&self, point: Point) -> Position;
     fn to_input_edit(&self, range: Range, text: &str) -> InputEdit;
 }
 
@@ -47,27 +47,30 @@ impl ToInputEdit for Rope {
         byte
     }
 
-    fn to_position(&self, mut offset: usize) -> Position {
-        offset = offset.min(self.len_bytes());
-        let mut low = 0usize;
-        let mut high = self.len_lines();
-        if high == 0 {
-            return Position {
-                line: 0,
-                character: offset as u32,
-            };
+    /// Inverse of `to_point`
+    fn to_position(&self, point: Point) -> Position {
+        let mut row = 0;
+        let mut line_start = 0;
+        for chunk in self.chunks() {
+            let lines = chunk.bytes().filter(|b| *b == b'\n').count();
+            if row + lines >= point.row {
+                let newlines = chunk.match_indices('\n').map(|newline| newline.0 + 1);
+                line_start += newlines.take(point.row - row).last().unwrap_or_default();
+                row = point.row;
+                break;
+            }
+            row += lines;
+            line_start += chunk.len();
         }
-        while low < high {
-            let mid = low + (high - low) / 2;
-            if self.line_to_byte(mid) > offset {
-                high = mid;
-            } else {
-                low = mid + 1;
+        let (mut column, mut character) = (0, 0);
+        for c in self.chars_at(self.byte_to_char(line_start)) {
+            if c == '\n' || column >= point.column {
+                break;
             }
+            column += c.len_utf8();
+            character += c.len_utf16();
         }
-        let line = low - 1;
-        let character = offset - self.line_to_byte(line);
-        Position::new(line as u32, character as u32)
+        Position::new(row as u32, character as u32)
     }
 
     fn to_input_edit(&self, range: Range, text: &str) -> InputEdit {
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 068ea1e..4e9d44d 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -10,7 +10,7 @@ use jinja_lsp_queries::{
         rust_template_completion::backend_templates_query,
         snippets_completion::snippets_query,
         templates::templates_query,
-        to_range, Identifier, IdentifierType,
+        to_point, Identifier, IdentifierType,
     },
     tree_builder::{JinjaDiagnostic, LangType},
 };
@@ -212,7 +212,7 @@ impl LspFiles {
         let lang_type = self.config.file_ext(&Path::new(name))?;
         let trees = self.trees.get(&lang_type)?;
         let tree = trees.get(name)?;
-        search_errors(
+        let mut errors = search_errors(
             tree,
             &content,
             &self.queries,
@@ -221,7 +221,14 @@ impl LspFiles {
             self.config.templates.clone(),
             lang_type,
             self.ignore_globals,
-        )
+        )?;
+        for (_, identifier) in &mut errors {
+            // diagnostics are for the client
+            let range = self.range(name, (identifier.start, identifier.end));
+            identifier.start = to_point(range.start);
+            identifier.end = to_point(range.end);
+        }
+        Some(errors)
     }
 
     pub fn did_save(&mut self, params: DidSaveTextDocumentParams) -> Option<DiagnosticMessage> {
@@ -245,6 +252,16 @@ impl LspFiles {
         Some(message)
     }
 
+    /// Position of this point (with column in bytes) for the client
+    pub fn position(&self, uri: &str, point: Point) -> Position {
+        let doc = self.documents.get(uri);
+        doc.map_or(to_position2(point), |doc| doc.to_position(point))
+    }
+
+    pub fn range(&self, uri: &str, points: (Point, Point)) -> Range {
+        Range::new(self.position(uri, points.0), self.position(uri, points.1))
+    }
+
     pub fn completion(&self, params: CompletionParams) -> Option<(CompletionType, bool)> {
         let can_complete = {
             matches!(
@@ -264,13 +281,12 @@ impl LspFiles {
         }
 
         let uri = params.text_document_position.text_document.uri.to_string();
-        let row = params.text_document_position.position.line;
-        let column = params.text_document_position.position.character;
-        let point = Point::new(row as usize, column as usize);
+        let position = params.text_document_position.position;
         let ext = self.config.file_ext(&Path::new(&uri))?;
         let trees = self.trees.get(&ext)?;
         let tree = trees.get(&uri)?;
         let doc = self.documents.get(&uri)?;
+        let point = doc.to_point(position);
         let mut writter = FileContent::default();
         let _ = doc.write_to(&mut writter);
         match ext {
@@ -278,22 +294,24 @@ impl LspFiles {
                 let query = &self.queries.jinja_snippets;
                 let snippets = snippets_query(query, tree, point, &writter.content, false);
                 if snippets.to_complete(point).is_some() {
-                    let start = to_position2(point);
-                    let mut end = to_position2(point);
+                    let mut end = position;
                     end.character += 1;
-                    let range = Range::new(start, end);
+                    let range = Range::new(position, end);
                     return Some((CompletionType::Snippets { range }, false));
                 }
                 let query = &self.queries.jinja_objects;
                 let objects = objects_query(query, tree, point, &writter.content, false);
-                if let Some(completion) = objects.completion(point) {
+                if let Some(mut completion) = objects.completion(point) {
+                    if let CompletionType::IncompleteIdentifier { range, .. } = &mut completion.0 {
+                        *range = self.range(&uri, (to_point(range.start), to_point(range.end)));
+                    }
                     return Some(completion);
                 }
                 let query = &self.queries.jinja_imports;
                 let query = templates_query(query, tree, point, &writter.content, false);
                 let identifier = query.in_template(point)?.get_identifier(point)?;
                 let start = completion_start(point, identifier)?;
-                let range = to_range((identifier.start, identifier.end));
+                let range = self.range(&uri, (identifier.start, identifier.end));
                 Some((
                     CompletionType::IncludedTemplate {
                         name: start.to_owned(),
@@ -312,7 +330,7 @@ impl LspFiles {
                 );
                 let identifier = rust_templates.in_template(point)?;
                 let start = completion_start(point, identifier)?;
-                let range = to_range((identifier.start, identifier.end));
+                let range = self.range(&uri, (identifier.start, identifier.end));
                 Some((
                     CompletionType::IncludedTemplate {
                         name: start.to_owned(),
@@ -347,13 +365,11 @@ impl LspFiles {
             .text_document
             .uri
             .to_string();
-        let row = params.text_document_position_params.position.line;
-        let column = params.text_document_position_params.position.character;
-        let trigger_point = Point::new(row as usize, column as usize);
         let trees = self.trees.get(&LangType::Template)?;
         let tree = trees.get(&uri)?;
         let query = &self.queries.jinja_objects;
         let doc = self.documents.get(&uri)?;
+        let trigger_point = doc.to_point(params.text_document_position_params.position);
         let mut writter = FileWriter::default();
         let _ = doc.write_to(&mut writter);
         let objects = objects_query(query, tree, trigger_point, &writter.content, false);
@@ -387,10 +403,8 @@ impl LspFiles {
         let lang_type = self.config.file_ext(&Path::new(&uri))?;
         let trees = self.trees.get(&lang_type)?;
         let tree = trees.get(&uri)?;
-        let row = params.text_document_position_params.position.line;
-        let column = params.text_document_position_params.position.character;
-        let point = Point::new(row as usize, column as usize);
         let doc = self.documents.get(&uri)?;
+        let point = doc.to_point(params.text_document_position_params.position);
         let mut writter = FileWriter::default();
         let _ = doc.write_to(&mut writter);
 
@@ -411,8 +425,7 @@ impl LspFiles {
                         // a block is only the definition of its own name
                         .filter(|item| item.identifier_type.is_variable() || point <= item.end)
                         .max()?;
-                    let (start, end) = (to_position2(max.start), to_position2(max.end));
-                    let range = Range::new(start, end);
+                    let range = self.range(&uri, (max.start, max.end));
                     Some(GotoDefinitionResponse::Scalar(Location {
                         uri: uri2.clone(),
                         range,
@@ -452,9 +465,7 @@ impl LspFiles {
                                     Url::parse(file.0).unwrap()
                                 }
                             };
-                            let start = to_position2(variable.start);
-                            let end = to_position2(variable.end);
-                            let range = Range::new(start, end);
+                            let range = self.range(file.0, (variable.start, variable.end));
                             let location = Location::new(uri, range);
                             all.push(location);
                         }
@@ -502,6 +513,7 @@ impl LspFiles {
                 if let Some(code_action) = code_action {
                     return Some(JinjaCodeAction::CreateTemplate(code_action.name.to_owned()));
                 }
+                let point = doc.to_point(action_params.range.start);
                 let objects = objects_query(query, tree, point, &writter.content, false);
                 if objects.in_expr(point) {
                     return Some(JinjaCodeAction::Reset);
@@ -610,10 +622,8 @@ impl LspFiles {
         nodejs_uri: Option<String>,
     ) -> Option<Vec<CompletionItem>> {
         let mut items = vec![];
-        let start = position.line as usize;
-        let end = position.character as usize;
-        let position = Point::new(start, end);
         let uri = &uri.to_string();
+        let position = self.documents.get(uri)?.to_point(position);
         let mut names = HashSet::new();
         let this_file = self.variables.get(uri)?;
         let this_file = this_file
@@ -896,8 +906,14 @@ impl LspFiles {
                 name: variable.name.to_owned(),
                 detail: None,
                 kind: variable.identifier_type.symbol_kind(),
-                range: to_range((variable.start, variable.end)),
-                selection_range: to_range((variable.start, variable.end)),
+                range: self.range(
+                    params.text_document.uri.as_str(),
+                    (variable.start, variable.end),
+                ),
+                selection_range: self.range(
+                    params.text_document.uri.as_str(),
+                    (variable.start, variable.end),
+                ),
                 children: None,
                 deprecated: None,
                 tags: None,
-- 
2.43.0


From 45540dbb7893d89d529182c4c7e87d7d3c385836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:14 +0000
Subject: [PATCH 28/56] fix: don't abort when a definition isn't in a file with
 URI

---
 jinja-lsp-nodejs/src/lib.rs |  2 +-
 jinja-lsp/src/lsp_files.rs  | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/jinja-lsp-nodejs/src/lib.rs b/jinja-lsp-nodejs/src/lib.rs
index 159d9cf..f3e02ed 100644
--- a/jinja-lsp-nodejs/src/lib.rs
+++ b/jinja-lsp-nodejs/src/lib.rs
@@ -495,7 +495,7 @@ impl NodejsLspFiles {
       GotoDefinitionResponse::Scalar(mut location) => {
         let uri2 = location.uri.to_string();
         if uri2.contains(&filename) {
-          location.uri = Url::parse(&filename).unwrap();
+          location.uri = Url::parse(&filename).unwrap_or(location.uri);
           location.range.start.line += line;
           location.range.end.line += line;
           definitions.push(JsLocation::from(&location));
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 4e9d44d..12892a0 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -460,11 +460,17 @@ impl LspFiles {
                                 if variable.start == Point::new(0, 0)
                                     && variable.end == Point::new(0, 0)
                                 {
-                                    Url::parse(&format!("{}-{}", &file.0, &variable.name)).unwrap()
+                                    format!("{}-{}", &file.0, &variable.name)
                                 } else {
-                                    Url::parse(file.0).unwrap()
+                                    file.0.to_owned()
                                 }
                             };
+                            // links are saved with name that isn't always URI, e.g. `temp`
+                            let Ok(uri) =
+                                Url::parse(&uri).or_else(|_| Url::parse(&format!("file:///{uri}")))
+                            else {
+                                continue;
+                            };
                             let range = self.range(file.0, (variable.start, variable.end));
                             let location = Location::new(uri, range);
                             all.push(location);
-- 
2.43.0


From 45c6732bf516e3283444f24654f5fba8763f9379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:56 +0000
Subject: [PATCH 29/56] fix: find the definition from any attribute of a
 variable

---
 jinja-lsp-queries/src/search/objects.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 053eec0..63e3d7c 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -328,6 +328,7 @@ pub fn objects_query(
     let capture_names = query.capture_names();
     let mut continued = false;
     let mut my_id = 0;
+    let mut my_ident = (Point::default(), Point::default());
     let mut my_expr = (
         Point::default(),
         Point::default(),
@@ -351,6 +352,7 @@ pub fn objects_query(
                     if objects.is_hover(trigger_point) {
                         continued = true;
                         my_id = objects.objects.len() - 1;
+                        my_ident = objects.ident;
                         my_expr = objects.expr;
                         continue;
                     } else {
@@ -373,7 +375,8 @@ pub fn objects_query(
                             .objects
                             .get_mut(my_id)
                             .and_then(|obj| -> Option<()> {
-                                objects.ident = obj.location;
+                                // the variable or its attribute at this point
+                                objects.ident = my_ident;
                                 obj.capture_first = true;
                                 None
                             });
-- 
2.43.0


From 5a1554bc8522acea801326142fc2f01b7f052928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:36 +0000
Subject: [PATCH 30/56] fix: don't replace attributes of the following variable
 in completion

---
 jinja-lsp-queries/src/search/objects.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 63e3d7c..0147d57 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -354,6 +354,10 @@ pub fn objects_query(
                         my_id = objects.objects.len() - 1;
                         my_ident = objects.ident;
                         my_expr = objects.expr;
+                        if name == "just_id" && capture.node.start_position() != objects.dot.1 {
+                            // attributes after it aren't attributes of the object
+                            break 'loop1;
+                        }
                         continue;
                     } else {
                         break 'loop1;
-- 
2.43.0


From 46d1140a908ec5aa4a8968ab4ee3f5c0b27053d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:17 +0000
Subject: [PATCH 31/56] fix: complete and answer inside of attributes and
 before filters

---
 jinja-lsp-queries/src/search/objects.rs | 35 ++++++++++---------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 0147d57..82b0b18 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -148,7 +148,7 @@ impl JinjaObjects {
                     self.ident = (start, end);
                 });
                 match last_object {
-                    Some(_) => {}
+                    Some(_) => return ObjectAction::NewField,
                     None => {
                         // TODO: in future add those to main library
                         if VALID_IDENTIFIERS.contains(&value) && !test_name {
@@ -228,7 +228,7 @@ impl JinjaObjects {
 
     pub fn in_pipe(&self, trigger_point: Point) -> bool {
         let found = self.pipe.0 != self.pipe.1;
-        found && trigger_point >= self.pipe.0 && trigger_point <= self.pipe.1
+        found && trigger_point > self.pipe.0 && trigger_point <= self.pipe.1
     }
 
     pub fn in_expr(&self, trigger_point: Point) -> bool {
@@ -358,16 +358,13 @@ pub fn objects_query(
                             // attributes after it aren't attributes of the object
                             break 'loop1;
                         }
-                        continue;
                     } else {
                         break 'loop1;
                     }
-                } else if continued {
-                    let name = &capture_names[capture.index as usize];
+                }
+                if continued {
                     let checked = objects.check(name, capture, text);
-                    if checked.is_none() {
-                        break 'loop1;
-                    } else if checked.is_some_and(|item| {
+                    if checked.is_none_or(|item| {
                         matches!(
                             item,
                             ObjectAction::Expression
@@ -375,25 +372,21 @@ pub fn objects_query(
                                 | ObjectAction::Invalid
                         )
                     }) {
-                        objects
-                            .objects
-                            .get_mut(my_id)
-                            .and_then(|obj| -> Option<()> {
-                                // the variable or its attribute at this point
-                                objects.ident = my_ident;
-                                obj.capture_first = true;
-                                None
-                            });
-                        if my_id != objects.objects.len() - 1 {
-                            objects.objects.pop();
-                            objects.expr = my_expr;
-                        }
                         break 'loop1;
                     }
                 }
             }
         }
     }
+    if continued {
+        // the variable or its attribute at this point
+        objects.objects.truncate(my_id + 1);
+        objects.ident = my_ident;
+        objects.expr = my_expr;
+        if let Some(obj) = objects.objects.get_mut(my_id) {
+            obj.capture_first = true;
+        }
+    }
     objects
 }
 
-- 
2.43.0


From 3057d109dfb6d3286c6f1b7c254b611094f2cabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:17 +0000
Subject: [PATCH 32/56] fix: don't search templates in every combination of
 nodes of a statement

---
 jinja-lsp-queries/src/search/queries.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index 36baf3c..430c67f 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -118,8 +118,8 @@ const JINJA_IMPORTS: &str = r#"
   [
 
     (statement
-      (statement_begin)
-      (keyword) @extends_keyword
+      (statement_begin) .
+      (keyword) @extends_keyword .
       (string) @template_name
       (statement_end)
       (#eq? @extends_keyword "extends")
@@ -127,7 +127,7 @@ const JINJA_IMPORTS: &str = r#"
 
 
     (statement
-      (statement_begin)
+      (statement_begin) .
       (keyword) @include_keyword
       (string) @template_name
       (statement_end)
@@ -135,9 +135,9 @@ const JINJA_IMPORTS: &str = r#"
     ) @include
 
     (statement
-      (statement_begin)
-      (keyword) @from_keyword
-      (string) @template_name
+      (statement_begin) .
+      (keyword) @from_keyword .
+      (string) @template_name .
       (keyword)? @import_keyword
       (identifier)? @import_identifier
       (#not-match? @import_identifier "(^\\d)")
@@ -148,10 +148,10 @@ const JINJA_IMPORTS: &str = r#"
 
 
     (statement
-      (statement_begin)
-      (keyword) @import_keyword
-      (string) @template_name
-      (identifier)? @as_keyword
+      (statement_begin) .
+      (keyword) @import_keyword .
+      (string) @template_name .
+      (identifier)? @as_keyword .
       (identifier)? @import_identifier
       (#not-match? @import_identifier "(^\\d)")
       (#eq? @import_keyword "import")
-- 
2.43.0


From 92af6858933ab679e565ce01c860ff51240f747a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:38 +0000
Subject: [PATCH 33/56] fix: look at every sibling only once

---
 jinja-lsp-queries/src/search/definition.rs | 14 +++++++------
 jinja-lsp-queries/src/search/objects.rs    | 23 ++++++++++++++--------
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index 23f7a77..6d7022d 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -404,14 +404,17 @@ fn is_parameter(capture: &QueryCapture<'_>, text: &str) -> bool {
 
 /// Number of brackets that are open before this node of the statement.
 fn depth(capture: &QueryCapture<'_>, text: &str) -> Option<i32> {
-    if capture.node.parent()?.kind() != "statement" {
+    let statement = capture.node.parent()?;
+    if statement.kind() != "statement" {
         return None;
     }
     let mut depth = 0;
-    let mut node = capture.node.prev_sibling();
-    while let Some(prev) = node {
-        if prev.kind() == "operator" {
-            for c in prev.utf8_text(text.as_bytes()).ok()?.chars() {
+    for node in statement.children(&mut statement.walk()) {
+        if node.start_byte() >= capture.node.start_byte() {
+            break;
+        }
+        if node.kind() == "operator" {
+            for c in node.utf8_text(text.as_bytes()).ok()?.chars() {
                 match c {
                     '(' | '[' => depth += 1,
                     ')' | ']' => depth -= 1,
@@ -419,7 +422,6 @@ fn depth(capture: &QueryCapture<'_>, text: &str) -> Option<i32> {
                 }
             }
         }
-        node = prev.prev_sibling();
     }
     Some(depth)
 }
diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 82b0b18..b079d8d 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -303,16 +303,23 @@ fn is_variable(capture: &QueryCapture<'_>, source: &str) -> bool {
         return true;
     }
     let mut depth = 0;
-    let mut node = capture.node.prev_sibling();
-    while let Some(prev) = node.filter(|_| depth <= 0) {
-        if prev.kind() == "operator" {
-            let operator = text(node);
-            depth += operator.matches('(').count() as i32;
-            depth -= operator.matches(')').count() as i32;
+    if let Some(parent) = parent {
+        for node in parent.children(&mut parent.walk()) {
+            if node.start_byte() >= capture.node.start_byte() {
+                break;
+            }
+            if node.kind() == "operator" {
+                for c in text(Some(node)).chars() {
+                    match c {
+                        '(' => depth += 1,
+                        ')' if depth > 0 => depth -= 1,
+                        _ => {}
+                    }
+                }
+            }
         }
-        node = prev.prev_sibling();
     }
-    depth <= 0
+    depth == 0
 }
 
 pub fn objects_query(
-- 
2.43.0


From f897039d38d71a526e6fbfb890c6bf9f39e7a29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:49 +0000
Subject: [PATCH 34/56] fix: match templates of statements without waiting for
 their ends

---
 jinja-lsp-queries/src/search/queries.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index 430c67f..e7b9a33 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -121,7 +121,6 @@ const JINJA_IMPORTS: &str = r#"
       (statement_begin) .
       (keyword) @extends_keyword .
       (string) @template_name
-      (statement_end)
       (#eq? @extends_keyword "extends")
     ) @extends
 
@@ -130,7 +129,6 @@ const JINJA_IMPORTS: &str = r#"
       (statement_begin) .
       (keyword) @include_keyword
       (string) @template_name
-      (statement_end)
       (#eq? @include_keyword "include")
     ) @include
 
@@ -141,7 +139,6 @@ const JINJA_IMPORTS: &str = r#"
       (keyword)? @import_keyword
       (identifier)? @import_identifier
       (#not-match? @import_identifier "(^\\d)")
-      (statement_end)
       (#eq? @from_keyword "from")
       (#eq? @import_keyword "import")
     ) @from
@@ -156,7 +153,6 @@ const JINJA_IMPORTS: &str = r#"
       (#not-match? @import_identifier "(^\\d)")
       (#eq? @import_keyword "import")
       (#eq? @as_keyword "as")
-      (statement_end)
     ) @import
 
     (ERROR) @error
-- 
2.43.0


From 178ddeb2fbbb38a6ac76eb88cb8792235de7efcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:44 +0000
Subject: [PATCH 35/56] fix: look for files of templates the same way
 everywhere

---
 jinja-lsp-queries/src/lsp_helper.rs | 24 +++++++++---------------
 jinja-lsp/src/lsp_files.rs          | 12 ++++++++----
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/jinja-lsp-queries/src/lsp_helper.rs b/jinja-lsp-queries/src/lsp_helper.rs
index 5214531..ac79076 100644
--- a/jinja-lsp-queries/src/lsp_helper.rs
+++ b/jinja-lsp-queries/src/lsp_helper.rs
@@ -1,4 +1,4 @@
-use std::{collections::HashMap, io::ErrorKind, path::PathBuf};
+use std::{collections::HashMap, path::PathBuf};
 
 use tower_lsp::lsp_types::{Diagnostic, DiagnosticSeverity, Position, Range};
 use tree_sitter::{Point, Tree};
@@ -105,13 +105,10 @@ pub fn search_errors(
                     let diagnostic = (err_type, i.to_owned());
                     diagnostics.push(diagnostic);
                 } else {
-                    let mut templates = templates.clone();
-                    templates.push(path_items(&i.name));
-                    if let Err(err) = std::fs::canonicalize(templates) {
-                        if err.kind() == ErrorKind::NotFound {
-                            let diagnostic = (err_type, i.to_owned());
-                            diagnostics.push(diagnostic);
-                        }
+                    let templates = templates.join(path_items(&i.name));
+                    if !templates.is_file() {
+                        let diagnostic = (err_type, i.to_owned());
+                        diagnostics.push(diagnostic);
                     }
                 }
             }
@@ -123,13 +120,10 @@ pub fn search_errors(
                 .iter()
                 .filter(|id| id.identifier_type == IdentifierType::JinjaTemplate);
             for template in templates2 {
-                let mut templates = templates.clone();
-                templates.push(path_items(&template.name));
-                if let Err(err) = std::fs::canonicalize(templates) {
-                    if err.kind() == ErrorKind::NotFound {
-                        let diagnostic = (JinjaDiagnostic::TemplateNotFound, template.to_owned());
-                        diagnostics.push(diagnostic);
-                    }
+                let templates = templates.join(path_items(&template.name));
+                if !templates.is_file() {
+                    let diagnostic = (JinjaDiagnostic::TemplateNotFound, template.to_owned());
+                    diagnostics.push(diagnostic);
                 }
             }
             Some(diagnostics)
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 12892a0..5f6b5c4 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -435,9 +435,11 @@ impl LspFiles {
                     let query = &self.queries.jinja_imports;
                     let query = templates_query(query, tree, point, &writter.content, false);
                     let identifier = query.in_template(point)?.get_identifier(point)?;
-                    let mut path = self.config.templates.clone();
-                    path.push(&identifier.name);
+                    let path = self.config.templates.join(path_items(&identifier.name));
                     let buffer = std::fs::canonicalize(path).ok()?;
+                    if !buffer.is_file() {
+                        return None;
+                    }
                     let url = Url::from_file_path(buffer).ok()?;
                     let range = Range::new(Position::default(), Position::default());
                     let location = Location::new(url, range);
@@ -487,9 +489,11 @@ impl LspFiles {
                 let templates =
                     backend_templates_query(query, tree, point, &writter.content, false);
                 let template = templates.in_template(point)?;
-                let mut path = self.config.templates.clone();
-                path.push(&template.name);
+                let path = self.config.templates.join(path_items(&template.name));
                 let buffer = std::fs::canonicalize(path).ok()?;
+                if !buffer.is_file() {
+                    return None;
+                }
                 let url = Url::from_file_path(buffer).ok()?;
                 let range = Range::new(Position::default(), Position::default());
                 let location = Location::new(url, range);
-- 
2.43.0


From d57edaf5c41681df889817a943924271ef6b8a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:15 +0000
Subject: [PATCH 36/56] fix: keep quotes inside of names of templates in
 backend files

---
 jinja-lsp-queries/src/search/rust_template_completion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp-queries/src/search/rust_template_completion.rs b/jinja-lsp-queries/src/search/rust_template_completion.rs
index ca42323..8948f3d 100644
--- a/jinja-lsp-queries/src/search/rust_template_completion.rs
+++ b/jinja-lsp-queries/src/search/rust_template_completion.rs
@@ -21,10 +21,10 @@ impl BackendTemplates {
     pub fn check(&mut self, name: &str, capture: &QueryCapture<'_>, text: &str) -> Option<()> {
         if name == "template_name" && self.in_method {
             let template = capture.node.utf8_text(text.as_bytes()).ok()?;
-            let template = template.replace(['\"', '\''], "");
+            let template = template.trim_matches(['\"', '\'']);
             let start = capture.node.start_position();
             let end = capture.node.end_position();
-            let mut identifer = Identifier::new(&template, start, end);
+            let mut identifer = Identifier::new(template, start, end);
             identifer.identifier_type = IdentifierType::JinjaTemplate;
             self.templates.push(identifer);
             self.in_method = false;
-- 
2.43.0


From fdf710cd857eb94a70fe7503f7abd99155a9a353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:07 +0000
Subject: [PATCH 37/56] fix: treat URIs of clients that encode other characters
 as the same file

---
 jinja-lsp/src/backend.rs | 43 ++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/jinja-lsp/src/backend.rs b/jinja-lsp/src/backend.rs
index 1828af5..5db7184 100644
--- a/jinja-lsp/src/backend.rs
+++ b/jinja-lsp/src/backend.rs
@@ -8,7 +8,7 @@ use tower_lsp::{
     lsp_types::{
         CompletionParams, CompletionResponse, DidChangeConfigurationParams,
         DidCloseTextDocumentParams, DidOpenTextDocumentParams, DocumentSymbolParams,
-        DocumentSymbolResponse, InitializeParams, InitializeResult,
+        DocumentSymbolResponse, InitializeParams, InitializeResult, Url,
     },
     Client, LanguageServer,
 };
@@ -24,6 +24,17 @@ use crate::channels::{
     lsp::{lsp_task, LspMessage},
 };
 
+/// Clients don't encode the same characters of paths, e.g. `[` in VS Code
+fn normalize(uri: &mut Url) {
+    if let Some(same) = uri
+        .to_file_path()
+        .ok()
+        .and_then(|path| Url::from_file_path(path).ok())
+    {
+        *uri = same;
+    }
+}
+
 pub struct Backend {
     main_channel: Sender<LspMessage>,
 }
@@ -51,23 +62,28 @@ impl LanguageServer for Backend {
             .await;
     }
 
-    async fn did_open(&self, params: DidOpenTextDocumentParams) {
+    async fn did_open(&self, mut params: DidOpenTextDocumentParams) {
+        normalize(&mut params.text_document.uri);
         let _ = self.main_channel.send(LspMessage::DidOpen(params)).await;
     }
 
-    async fn did_close(&self, params: DidCloseTextDocumentParams) {
+    async fn did_close(&self, mut params: DidCloseTextDocumentParams) {
+        normalize(&mut params.text_document.uri);
         let _ = self.main_channel.send(LspMessage::DidClose(params)).await;
     }
 
-    async fn did_change(&self, params: DidChangeTextDocumentParams) {
+    async fn did_change(&self, mut params: DidChangeTextDocumentParams) {
+        normalize(&mut params.text_document.uri);
         let _ = self.main_channel.send(LspMessage::DidChange(params)).await;
     }
 
-    async fn did_save(&self, params: DidSaveTextDocumentParams) {
+    async fn did_save(&self, mut params: DidSaveTextDocumentParams) {
+        normalize(&mut params.text_document.uri);
         let _ = self.main_channel.send(LspMessage::DidSave(params)).await;
     }
 
-    async fn completion(&self, params: CompletionParams) -> Result<Option<CompletionResponse>> {
+    async fn completion(&self, mut params: CompletionParams) -> Result<Option<CompletionResponse>> {
+        normalize(&mut params.text_document_position.text_document.uri);
         let (sender, tx) = oneshot::channel();
         let _ = self
             .main_channel
@@ -79,7 +95,8 @@ impl LanguageServer for Backend {
         Ok(None)
     }
 
-    async fn hover(&self, params: HoverParams) -> Result<Option<Hover>> {
+    async fn hover(&self, mut params: HoverParams) -> Result<Option<Hover>> {
+        normalize(&mut params.text_document_position_params.text_document.uri);
         let (sender, tx) = oneshot::channel();
         let _ = self
             .main_channel
@@ -93,8 +110,9 @@ impl LanguageServer for Backend {
 
     async fn goto_definition(
         &self,
-        params: GotoDefinitionParams,
+        mut params: GotoDefinitionParams,
     ) -> Result<Option<GotoDefinitionResponse>> {
+        normalize(&mut params.text_document_position_params.text_document.uri);
         let (sender, tx) = oneshot::channel();
         let _ = self
             .main_channel
@@ -106,7 +124,11 @@ impl LanguageServer for Backend {
         Ok(None)
     }
 
-    async fn code_action(&self, params: CodeActionParams) -> Result<Option<CodeActionResponse>> {
+    async fn code_action(
+        &self,
+        mut params: CodeActionParams,
+    ) -> Result<Option<CodeActionResponse>> {
+        normalize(&mut params.text_document.uri);
         let (sender, tx) = oneshot::channel();
         let _ = self
             .main_channel
@@ -129,8 +151,9 @@ impl LanguageServer for Backend {
 
     async fn document_symbol(
         &self,
-        params: DocumentSymbolParams,
+        mut params: DocumentSymbolParams,
     ) -> Result<Option<DocumentSymbolResponse>> {
+        normalize(&mut params.text_document.uri);
         let (sender, tx) = oneshot::channel();
         let _ = self
             .main_channel
-- 
2.43.0


From 13d100d38dc0825d4d33de82270b408fa06a9f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:08 +0000
Subject: [PATCH 38/56] fix: complete templates by the part of the name before
 the position

---
 jinja-lsp-queries/src/search/mod.rs | 11 +++++++++++
 jinja-lsp/src/lsp_files.rs          |  6 +++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/jinja-lsp-queries/src/search/mod.rs b/jinja-lsp-queries/src/search/mod.rs
index e248436..540caa8 100644
--- a/jinja-lsp-queries/src/search/mod.rs
+++ b/jinja-lsp-queries/src/search/mod.rs
@@ -74,6 +74,17 @@ pub fn completion_start(mut trigger_point: Point, identifier: &Identifier) -> Op
     let s = identifier.name.get(0..to + 1);
     s
 }
+
+/// Part of template name (without quote) before this point
+pub fn template_start(trigger_point: Point, identifier: &Identifier) -> &str {
+    let begin = identifier.start.column + 1;
+    if trigger_point.row != identifier.start.row {
+        return &identifier.name;
+    }
+    let typed = trigger_point.column.saturating_sub(begin);
+    identifier.name.get(..typed).unwrap_or(&identifier.name)
+}
+
 pub fn to_range(points: (Point, Point)) -> Range {
     let start = Position::new(points.0.row as u32, points.0.column as u32);
     let end = Position::new(points.1.row as u32, points.1.column as u32);
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 5f6b5c4..d10f8c2 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -1,7 +1,6 @@
 use jinja_lsp_queries::{
     lsp_helper::{path_items, search_errors},
     search::{
-        completion_start,
         definition::definition_query,
         objects::{objects_query, JinjaObject},
         python_identifiers::{python_identifiers, PythonIdentifier},
@@ -9,6 +8,7 @@ use jinja_lsp_queries::{
         rust_identifiers::backend_definition_query,
         rust_template_completion::backend_templates_query,
         snippets_completion::snippets_query,
+        template_start,
         templates::templates_query,
         to_point, Identifier, IdentifierType,
     },
@@ -310,7 +310,7 @@ impl LspFiles {
                 let query = &self.queries.jinja_imports;
                 let query = templates_query(query, tree, point, &writter.content, false);
                 let identifier = query.in_template(point)?.get_identifier(point)?;
-                let start = completion_start(point, identifier)?;
+                let start = template_start(point, identifier);
                 let range = self.range(&uri, (identifier.start, identifier.end));
                 Some((
                     CompletionType::IncludedTemplate {
@@ -329,7 +329,7 @@ impl LspFiles {
                     false,
                 );
                 let identifier = rust_templates.in_template(point)?;
-                let start = completion_start(point, identifier)?;
+                let start = template_start(point, identifier);
                 let range = self.range(&uri, (identifier.start, identifier.end));
                 Some((
                     CompletionType::IncludedTemplate {
-- 
2.43.0


From 06bc0b85e2e79a9a0803f03a7a7276f7321180cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:07 +0000
Subject: [PATCH 39/56] fix: offer snippets in begun statements before other
 constructs

---
 .../src/search/snippets_completion.rs         | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/jinja-lsp-queries/src/search/snippets_completion.rs b/jinja-lsp-queries/src/search/snippets_completion.rs
index 207f682..1a59b79 100644
--- a/jinja-lsp-queries/src/search/snippets_completion.rs
+++ b/jinja-lsp-queries/src/search/snippets_completion.rs
@@ -65,6 +65,7 @@ pub fn snippets_query(
     let mut cursor_qry = QueryCursor::new();
     let capture_names = query.capture_names();
     let matches = cursor_qry.matches(query, closest_node, text.as_bytes());
+    let position = trigger_point;
     trigger_point.column += 2;
     let captures = matches.into_iter().flat_map(|m| {
         m.captures
@@ -78,9 +79,34 @@ pub fn snippets_query(
             break;
         }
     }
+    if begun_statement(tree, position, text).is_some() {
+        snippets.is_error = true;
+        snippets.end = snippets.end.max(position);
+    }
     snippets
 }
 
+/// The construct after a statement that was just begun can be part of it or end the error.
+fn begun_statement(tree: &Tree, position: Point, text: &str) -> Option<()> {
+    let line = text.split_inclusive('\n').take(position.row);
+    let offset = line.map(|line| line.len()).sum::<usize>() + position.column;
+    let before = text.get(..offset)?.trim_end_matches([' ', '\t']);
+    let before = before.strip_suffix(['-', '+']).unwrap_or(before);
+    let start = before.strip_suffix("{%")?.len();
+    let begin = tree
+        .root_node()
+        .descendant_for_byte_range(start, start + 2)?;
+    let parent = begin.parent()?;
+    let begun = match parent.kind() {
+        "statement_begin" => parent.next_sibling().is_none_or(|keyword| {
+            // missing keyword
+            keyword.start_byte() == keyword.end_byte()
+        }),
+        _ => begin.kind() == "{%",
+    };
+    begun.then_some(())
+}
+
 /// Range will be updated
 pub fn snippets() -> Vec<CompletionItem> {
     // label detail text
-- 
2.43.0


From 705c4582d87008193e51581313a5e17ae582ab52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:34 +0000
Subject: [PATCH 40/56] fix: offer snippets in begun statements before text and
 other statements

---
 jinja-lsp-queries/src/search/snippets_completion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp-queries/src/search/snippets_completion.rs b/jinja-lsp-queries/src/search/snippets_completion.rs
index 1a59b79..f204697 100644
--- a/jinja-lsp-queries/src/search/snippets_completion.rs
+++ b/jinja-lsp-queries/src/search/snippets_completion.rs
@@ -99,8 +99,8 @@ fn begun_statement(tree: &Tree, position: Point, text: &str) -> Option<()> {
     let parent = begin.parent()?;
     let begun = match parent.kind() {
         "statement_begin" => parent.next_sibling().is_none_or(|keyword| {
-            // missing keyword
-            keyword.start_byte() == keyword.end_byte()
+            // missing keyword or the one of another statement
+            keyword.start_byte() == keyword.end_byte() || keyword.is_error()
         }),
         _ => begin.kind() == "{%",
     };
-- 
2.43.0


From f3a889c97b494fb05fb9a77c8ae189ed40598cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:29 +0000
Subject: [PATCH 41/56] fix: offer snippets in begun statements whose begin was
 continued

---
 jinja-lsp-queries/src/search/snippets_completion.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jinja-lsp-queries/src/search/snippets_completion.rs b/jinja-lsp-queries/src/search/snippets_completion.rs
index f204697..f21dbfd 100644
--- a/jinja-lsp-queries/src/search/snippets_completion.rs
+++ b/jinja-lsp-queries/src/search/snippets_completion.rs
@@ -98,6 +98,7 @@ fn begun_statement(tree: &Tree, position: Point, text: &str) -> Option<()> {
         .descendant_for_byte_range(start, start + 2)?;
     let parent = begin.parent()?;
     let begun = match parent.kind() {
+        "statement_begin" if parent.has_error() => true,
         "statement_begin" => parent.next_sibling().is_none_or(|keyword| {
             // missing keyword or the one of another statement
             keyword.start_byte() == keyword.end_byte() || keyword.is_error()
-- 
2.43.0


From 8ae7852d5cc54dc0be09356aa6719e58d1988aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:59 +0000
Subject: [PATCH 42/56] fix: find variables of render calls on any object in
 Python files

---
 jinja-lsp-queries/src/search/queries.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index e7b9a33..781b7bc 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -273,7 +273,6 @@ pub static PYTHON_DEFINITIONS: &str = r#"
       
       (call
         function: (attribute
-          object: (identifier)
           attribute: (identifier) @method
         ) 
         arguments: (argument_list
-- 
2.43.0


From 4bca7c862d14c784064a8213ffb6c0d0e2c41fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:11 +0000
Subject: [PATCH 43/56] fix: answer requests with the definitions of the
 changed text

---
 jinja-lsp/src/lsp_files.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index d10f8c2..cfc40ba 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -186,6 +186,11 @@ impl LspFiles {
                 self.add_tree(&uri, lang_type, &change.0);
             }
         }
+        if let (Some(lang_type), Some(rope)) = (lang_type, self.documents.get(&uri)) {
+            // requests can come before diagnostics
+            let content = rope.to_string();
+            self.add_variables(&uri, lang_type, &content);
+        }
         let param = DidSaveTextDocumentParams {
             text_document: TextDocumentIdentifier::new(params.text_document.uri),
             text: None,
-- 
2.43.0


From fe8c68e0f1d6fd9165189c0287f9d5304dbb6084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:19 +0000
Subject: [PATCH 44/56] fix: parse changed templates from scratch, their tokens
 depend on text before them

---
 jinja-lsp/src/lsp_files.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index cfc40ba..20a8bd7 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -150,7 +150,12 @@ impl LspFiles {
         let trees = self.trees.get_mut(&lang_type)?;
         let old_tree = trees.get_mut(file)?;
         old_tree.edit(&input_edit);
-        let new_tree = self.parsers.parse(lang_type, &code, Some(old_tree))?;
+        let old_tree = match lang_type {
+            LangType::Backend => Some(&*old_tree),
+            // Tokens of templates depend on text before them, they can't be reused.
+            LangType::Template => None,
+        };
+        let new_tree = self.parsers.parse(lang_type, &code, old_tree)?;
         let trees = self.trees.get_mut(&lang_type)?;
         trees.insert(file.to_string(), new_tree);
         None
-- 
2.43.0


From 3bcba32c47f690316f814c3c08a3f9a5c66cfc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:29 +0000
Subject: [PATCH 45/56] fix: handle messages in the order they were sent

---
 jinja-lsp/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp/src/main.rs b/jinja-lsp/src/main.rs
index 375a608..f9b9880 100644
--- a/jinja-lsp/src/main.rs
+++ b/jinja-lsp/src/main.rs
@@ -18,5 +18,9 @@ async fn main() {
 
     let (service, socket) = LspService::build(Backend::_new).finish();
 
-    Server::new(stdin, stdout, socket).serve(service).await;
+    Server::new(stdin, stdout, socket)
+        // messages are handled in order
+        .concurrency_level(1)
+        .serve(service)
+        .await;
 }
-- 
2.43.0


From 57a244cc3709b343cc31625a55d805180081cb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:41 +0000
Subject: [PATCH 46/56] fix: complete snippets at the last possible column
 without overflow

---
 jinja-lsp/src/lsp_files.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 20a8bd7..883a9eb 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -305,7 +305,7 @@ impl LspFiles {
                 let snippets = snippets_query(query, tree, point, &writter.content, false);
                 if snippets.to_complete(point).is_some() {
                     let mut end = position;
-                    end.character += 1;
+                    end.character = end.character.saturating_add(1);
                     let range = Range::new(position, end);
                     return Some((CompletionType::Snippets { range }, false));
                 }
-- 
2.43.0


From 21c3972780f0dc049a36c02562b13e53a39ebebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:33 +0000
Subject: [PATCH 47/56] fix: move lines of the node bindings without overflow

---
 jinja-lsp-nodejs/src/lib.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/jinja-lsp-nodejs/src/lib.rs b/jinja-lsp-nodejs/src/lib.rs
index f3e02ed..d73a640 100644
--- a/jinja-lsp-nodejs/src/lib.rs
+++ b/jinja-lsp-nodejs/src/lib.rs
@@ -169,8 +169,8 @@ impl NodejsLspFiles {
                 if global_action.compare(&action_object.fields) {
                   let mut start = JsPosition::from(&self.lsp_files.position(&uri, obj.location.0));
                   let mut end = JsPosition::from(&self.lsp_files.position(&uri, obj.last_field_end()));
-                  start.line += line;
-                  end.line += line;
+                  start.line = start.line.saturating_add(line);
+                  end.line = end.line.saturating_add(line);
                   let identifier = JsIdentifier {
                     start,
                     end,
@@ -197,8 +197,8 @@ impl NodejsLspFiles {
                 if global_action.compare(&action_object.fields) {
                   let mut start = JsPosition::from(&self.lsp_files.position(&uri, obj.start));
                   let mut end = JsPosition::from(&self.lsp_files.position(&uri, obj.end));
-                  start.line += line;
-                  end.line += line;
+                  start.line = start.line.saturating_add(line);
+                  end.line = end.line.saturating_add(line);
                   let identifier = JsIdentifier {
                     start,
                     end,
@@ -247,8 +247,8 @@ impl NodejsLspFiles {
       let mut variable2 = JsIdentifier::from(variable);
       variable2.start = JsPosition::from(&self.lsp_files.position(&id, variable.start));
       variable2.end = JsPosition::from(&self.lsp_files.position(&id, variable.end));
-      variable2.start.line += line;
-      variable2.end.line += line;
+      variable2.start.line = variable2.start.line.saturating_add(line);
+      variable2.end.line = variable2.end.line.saturating_add(line);
       converted.push(variable2);
     }
     Some(converted)
@@ -262,7 +262,7 @@ impl NodejsLspFiles {
     line: u32,
     mut position: JsPosition,
   ) -> Option<JsHover> {
-    position.line -= line;
+    position.line = position.line.checked_sub(line)?;
     let uri = Url::parse(&format!("file:///home/{filename}.{id}.jinja")).unwrap();
     let params: HoverParams = HoverParams {
       text_document_position_params: TextDocumentPositionParams::new(
@@ -278,8 +278,8 @@ impl NodejsLspFiles {
     let mut range = self
       .lsp_files
       .range(uri.as_str(), (hover.0.start, hover.0.end));
-    range.start.line += line;
-    range.end.line += line;
+    range.start.line = range.start.line.saturating_add(line);
+    range.end.line = range.end.line.saturating_add(line);
     let range = Some(range);
     let full_name = hover.0.name.to_owned();
     if hover.1 == CompletionType::Filter {
@@ -344,7 +344,7 @@ impl NodejsLspFiles {
     line: u32,
     mut position: JsPosition,
   ) -> Option<Vec<JsCompletionItem>> {
-    position.line -= line;
+    position.line = position.line.checked_sub(line)?;
     let original_uri = filename.to_string();
     let uri = Url::parse(&format!("file:///home/{filename}.{id}.jinja")).unwrap();
     let position = Position::new(position.line, position.character);
@@ -442,8 +442,8 @@ impl NodejsLspFiles {
         // }
       }
       CompletionType::IncompleteIdentifier { name, mut range } => {
-        range.start.line += line;
-        range.end.line += line;
+        range.start.line = range.start.line.saturating_add(line);
+        range.end.line = range.end.line.saturating_add(line);
         let url = &original_uri.to_string();
         let mut ret = vec![];
         let variables = self.lsp_files.get_variable(name, url.to_string(), "temp")?;
@@ -475,7 +475,7 @@ impl NodejsLspFiles {
     line: u32,
     mut position: JsPosition,
   ) -> Option<Vec<JsLocation>> {
-    position.line -= line;
+    position.line = position.line.checked_sub(line)?;
     let uri = Url::parse(&format!("file:///home/{filename}.{id}.jinja")).unwrap();
     let params: GotoDefinitionParams = GotoDefinitionParams {
       text_document_position_params: TextDocumentPositionParams::new(
@@ -496,8 +496,8 @@ impl NodejsLspFiles {
         let uri2 = location.uri.to_string();
         if uri2.contains(&filename) {
           location.uri = Url::parse(&filename).unwrap_or(location.uri);
-          location.range.start.line += line;
-          location.range.end.line += line;
+          location.range.start.line = location.range.start.line.saturating_add(line);
+          location.range.end.line = location.range.end.line.saturating_add(line);
           definitions.push(JsLocation::from(&location));
         }
       }
@@ -506,8 +506,8 @@ impl NodejsLspFiles {
           let uri2 = location.uri.to_string();
           if uri2.contains("temp") {
             location.uri = Url::parse(&uri2).unwrap();
-            location.range.start.line += line;
-            location.range.end.line += line;
+            location.range.start.line = location.range.start.line.saturating_add(line);
+            location.range.end.line = location.range.end.line.saturating_add(line);
             let mut js_location = JsLocation::from(&location);
             js_location.is_backend = true;
             definitions.push(js_location);
-- 
2.43.0


From 7903e51c87740d7163613c1888a4444c872dfef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:33 +0000
Subject: [PATCH 48/56] fix: delete exactly the documents of a file in the node
 bindings

---
 jinja-lsp-nodejs/src/lib.rs | 6 +++++-
 jinja-lsp/src/lsp_files.rs  | 9 ++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/jinja-lsp-nodejs/src/lib.rs b/jinja-lsp-nodejs/src/lib.rs
index d73a640..2cc5005 100644
--- a/jinja-lsp-nodejs/src/lib.rs
+++ b/jinja-lsp-nodejs/src/lib.rs
@@ -123,7 +123,11 @@ impl NodejsLspFiles {
 
   #[napi]
   pub fn delete_all(&mut self, filename: String) {
-    self.lsp_files.delete_documents_with_id(filename);
+    if let Ok(uri) = Url::parse(&format!("file:///home/{filename}.0.jinja")) {
+      let uri = uri.as_str();
+      let id = uri.strip_suffix("0.jinja").unwrap_or(uri);
+      self.lsp_files.delete_documents_with_id(id.to_string());
+    }
     self.counter = 0;
     // self.lsp_files.main_channel
   }
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 883a9eb..6402e90 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -948,10 +948,13 @@ impl LspFiles {
         self.open_documents.clear();
     }
 
+    /// Documents are named `{id}{number}.{extension}`
     pub fn delete_documents_with_id(&mut self, id: String) {
         let mut ids = vec![];
         for i in &self.documents {
-            if i.0.contains(&id) {
+            let rest = i.0.strip_prefix(&id).and_then(|rest| rest.split_once('.'));
+            if rest.is_some_and(|(number, ext)| number.parse::<u32>().is_ok() && !ext.contains('.'))
+            {
                 ids.push(i.0.clone());
             }
         }
@@ -959,8 +962,8 @@ impl LspFiles {
             self.documents.remove(&i);
             self.open_documents.remove(&i);
             self.variables.remove(&i);
-            if let Some(templates) = self.trees.get_mut(&LangType::Template) {
-                templates.remove(&i);
+            for trees in self.trees.values_mut() {
+                trees.remove(&i);
             }
         }
     }
-- 
2.43.0


From 356f3ed46113e91014e6541d71d255dc0236fbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:33 +0000
Subject: [PATCH 49/56] fix: describe only links with the name of the variable
 in the node bindings

---
 jinja-lsp-nodejs/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-nodejs/src/lib.rs b/jinja-lsp-nodejs/src/lib.rs
index 2cc5005..688ef39 100644
--- a/jinja-lsp-nodejs/src/lib.rs
+++ b/jinja-lsp-nodejs/src/lib.rs
@@ -311,7 +311,8 @@ impl NodejsLspFiles {
       };
       let value = actions
         .iter()
-        .find(|item| item.name.starts_with(&full_name))
+        .filter(|_| data_type == IdentifierType::BackendVariable)
+        .find(|item| item.name.split('.').next() == Some(full_name.as_str()))
         .unwrap_or(&action);
       let markup_content = MarkupContent {
         kind: MarkupKind::Markdown,
-- 
2.43.0


From 6e12ff49cdde25c1e52de234ac777ef49b712ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:44 +0000
Subject: [PATCH 50/56] fix: find definitions of one file and of links only in
 the node bindings

---
 jinja-lsp-nodejs/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp-nodejs/src/lib.rs b/jinja-lsp-nodejs/src/lib.rs
index 688ef39..bb628ed 100644
--- a/jinja-lsp-nodejs/src/lib.rs
+++ b/jinja-lsp-nodejs/src/lib.rs
@@ -499,7 +499,7 @@ impl NodejsLspFiles {
     match defintion {
       GotoDefinitionResponse::Scalar(mut location) => {
         let uri2 = location.uri.to_string();
-        if uri2.contains(&filename) {
+        if uri2 == uri.as_str() {
           location.uri = Url::parse(&filename).unwrap_or(location.uri);
           location.range.start.line = location.range.start.line.saturating_add(line);
           location.range.end.line = location.range.end.line.saturating_add(line);
@@ -509,7 +509,8 @@ impl NodejsLspFiles {
       GotoDefinitionResponse::Array(locations) => {
         for mut location in locations {
           let uri2 = location.uri.to_string();
-          if uri2.contains("temp") {
+          // other definitions aren't links
+          if uri2.starts_with("file:///temp-") {
             location.uri = Url::parse(&uri2).unwrap();
             location.range.start.line = location.range.start.line.saturating_add(line);
             location.range.end.line = location.range.end.line.saturating_add(line);
-- 
2.43.0


From af9ae8bf24bff55f52b5e98d5035ac604f40cb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:44 +0000
Subject: [PATCH 51/56] fix: don't link names of filters and tests in the node
 bindings

---
 jinja-lsp-nodejs/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-nodejs/src/lib.rs b/jinja-lsp-nodejs/src/lib.rs
index bb628ed..d77e960 100644
--- a/jinja-lsp-nodejs/src/lib.rs
+++ b/jinja-lsp-nodejs/src/lib.rs
@@ -167,7 +167,9 @@ impl NodejsLspFiles {
           .read_objects(Url::parse(&format!("file:///home/{filename}.{id}.{ext}")).unwrap());
         if let Some(objects) = objects {
           if let Some(global_actions) = self.action_objects.get("temp") {
-            for obj in &objects {
+            // names of filters and tests aren't variables
+            let variables = objects.iter().filter(|obj| !obj.is_filter && !obj.is_test);
+            for obj in variables {
               let action_object = ActionObject::from(obj);
               for global_action in global_actions {
                 if global_action.compare(&action_object.fields) {
-- 
2.43.0


From 6e3f1cb7e9cd5b76fc7cb86966a88d40fdcdebbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:03 +0000
Subject: [PATCH 52/56] fix: hover tests with their documentation in the node
 bindings

---
 jinja-lsp-nodejs/src/lib.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/jinja-lsp-nodejs/src/lib.rs b/jinja-lsp-nodejs/src/lib.rs
index d77e960..746743d 100644
--- a/jinja-lsp-nodejs/src/lib.rs
+++ b/jinja-lsp-nodejs/src/lib.rs
@@ -5,6 +5,7 @@ use std::collections::HashMap;
 use jinja_lsp::{
   filter::{init_filter_completions, FilterCompletion},
   lsp_files::LspFiles,
+  template_tests::init_template_test_completions,
 };
 use jinja_lsp_queries::{
   parsers::Parsers,
@@ -302,6 +303,21 @@ impl NodejsLspFiles {
         };
         res = Some(hover);
       }
+    } else if hover.1 == CompletionType::Test {
+      let tests = init_template_test_completions();
+      let test = tests.iter().find(|test| test.name == hover.0.name);
+      if let Some(test) = test {
+        let markup_content = MarkupContent {
+          kind: MarkupKind::Markdown,
+          value: test.desc.to_string(),
+        };
+        let hover_contents = HoverContents::Markup(markup_content);
+        let hover = Hover {
+          contents: hover_contents,
+          range,
+        };
+        res = Some(hover);
+      }
     } else if let Some(data_type) = self.lsp_files.data_type(uri.clone(), hover.0) {
       let value = data_type.completion_detail().to_owned();
       let value = format!("{value}\n\n---\n**{}**", &full_name);
-- 
2.43.0


From 6c3df32e2479f796429d9fff5c26963de31c6a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:57 +0000
Subject: [PATCH 53/56] fix: names of filters and tests are no variables with a
 definition

---
 jinja-lsp/src/lsp_files.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 6402e90..8dfcbe1 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -424,7 +424,11 @@ impl LspFiles {
             LangType::Template => {
                 let query = &self.queries.jinja_objects;
                 let objects = objects_query(query, tree, point, &writter.content, false);
-                let mut res = objects.is_ident(point).and_then(|ident| {
+                let variable = objects
+                    .get_last_id()
+                    .filter(|object| !object.is_filter && !object.is_test)
+                    .and_then(|_| objects.is_ident(point));
+                let mut res = variable.and_then(|ident| {
                     ident.clone_into(&mut current_ident);
                     let variables = self.variables.get(&uri)?;
                     let max = variables
-- 
2.43.0


From 79c686a1814e7ecabb310d33251b1133fa4815c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:32 +0000
Subject: [PATCH 54/56] fix: hover no variables of other files over names of
 blocks

---
 jinja-lsp/src/lsp_files.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 8dfcbe1..8cbee19 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -889,6 +889,12 @@ impl LspFiles {
 
     pub fn data_type(&self, uri: Url, hover: Identifier) -> Option<IdentifierType> {
         let this_file = self.variables.get(uri.as_str())?;
+        let block = this_file.iter().any(|item| {
+            item.identifier_type == IdentifierType::TemplateBlock && item.start == hover.start
+        });
+        if block {
+            return None;
+        }
         let this_file = this_file
             .iter()
             .filter(|variable| variable.identifier_type != IdentifierType::TemplateBlock)
-- 
2.43.0


From 43e8cc3d15b5fa7aad1941d614c65c372ef6197d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:48 +0000
Subject: [PATCH 55/56] fix: complete for clients that send no context

---
 jinja-lsp/src/lsp_files.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 8cbee19..db7be97 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -274,9 +274,10 @@ impl LspFiles {
 
     pub fn completion(&self, params: CompletionParams) -> Option<(CompletionType, bool)> {
         let can_complete = {
+            // clients don't have to send context
             matches!(
                 params.context,
-                Some(CompletionContext {
+                None | Some(CompletionContext {
                     trigger_kind: CompletionTriggerKind::TRIGGER_CHARACTER,
                     ..
                 }) | Some(CompletionContext {
-- 
2.43.0


From c1cbee16edd727858102978416916ee2046d897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:06 +0000
Subject: [PATCH 56/56] fix: a carriage return ends a line too

The protocol lets clients count lines that end with a carriage return
only; positions behind one were off by a line in both directions.
---
 jinja-lsp-queries/src/to_input_edit.rs | 32 ++++++++++++++++++--------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/jinja-lsp-queries/src/to_input_edit.rs b/jinja-lsp-queries/src/to_input_edit.rs
index 96e76e6..7b6381d 100644
--- a/jinja-lsp-queries/src/to_input_edit.rs
+++ b/jinja-lsp-queries/src/to_input_edit.rs
@@ -34,12 +34,12 @@ impl ToInputEdit for Rope {
         let mut chars = self.chars().peekable();
         while let Some(c) = chars.next() {
             if line == position.line as usize {
-                let end_of_line = c == '\n' || (c == '\r' && chars.peek() == Some(&'\n'));
+                let end_of_line = c == '\n' || c == '\r';
                 if end_of_line || character >= position.character as usize {
                     break;
                 }
                 character += c.len_utf16();
-            } else if c == '\n' {
+            } else if c == '\n' || (c == '\r' && chars.peek() != Some(&'\n')) {
                 line += 1;
             }
             byte += c.len_utf8();
@@ -51,26 +51,35 @@ impl ToInputEdit for Rope {
     fn to_position(&self, point: Point) -> Position {
         let mut row = 0;
         let mut line_start = 0;
+        // lines of the client can also end with a carriage return
+        let mut line = 0;
         for chunk in self.chunks() {
-            let lines = chunk.bytes().filter(|b| *b == b'\n').count();
-            if row + lines >= point.row {
+            let rows = chunk.bytes().filter(|b| *b == b'\n').count();
+            if row + rows >= point.row {
                 let newlines = chunk.match_indices('\n').map(|newline| newline.0 + 1);
-                line_start += newlines.take(point.row - row).last().unwrap_or_default();
-                row = point.row;
+                let start = newlines.take(point.row - row).last().unwrap_or_default();
+                line += point.row - row + carriage_returns(&chunk[..start]);
+                line_start += start;
                 break;
             }
-            row += lines;
+            row += rows;
+            line += rows + carriage_returns(chunk);
             line_start += chunk.len();
         }
         let (mut column, mut character) = (0, 0);
-        for c in self.chars_at(self.byte_to_char(line_start)) {
+        let mut chars = self.chars_at(self.byte_to_char(line_start)).peekable();
+        while let Some(c) = chars.next() {
             if c == '\n' || column >= point.column {
                 break;
             }
             column += c.len_utf8();
             character += c.len_utf16();
+            if c == '\r' && chars.peek() != Some(&'\n') {
+                line += 1;
+                character = 0;
+            }
         }
-        Position::new(row as u32, character as u32)
+        Position::new(line as u32, character as u32)
     }
 
     fn to_input_edit(&self, range: Range, text: &str) -> InputEdit {
@@ -104,6 +113,11 @@ impl ToInputEdit for Rope {
     }
 }
 
+/// Number of carriage returns that end a line, without those before a line feed
+fn carriage_returns(text: &str) -> usize {
+    text.bytes().filter(|b| *b == b'\r').count() - text.matches("\r\n").count()
+}
+
 pub fn to_position2(point: Point) -> Position {
     Position::new(point.row as u32, point.column as u32)
 }
-- 
2.43.0

