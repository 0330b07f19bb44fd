From e492abf2ba3fc53dda4654a53feaa26f3b331bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:20 +0000
Subject: [PATCH 01/47] fix: compute the new end position of an edit from the
 inserted text

---
 jinja-lsp-queries/src/to_input_edit.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp-queries/src/to_input_edit.rs b/jinja-lsp-queries/src/to_input_edit.rs
index a672b53..8219be8 100644
--- a/jinja-lsp-queries/src/to_input_edit.rs
+++ b/jinja-lsp-queries/src/to_input_edit.rs
@@ -52,8 +52,13 @@ impl ToInputEdit for Rope {
         let start_position = self.to_point(start);
 
         let new_end_byte = start_byte + text.len();
-        let new_end_position = self.to_position(new_end_byte);
-        let new_end_position = self.to_point(new_end_position);
+        let new_end_position = match text.rfind('\n') {
+            Some(last) => Point::new(
+                start_position.row + text.matches('\n').count(),
+                text.len() - last - 1,
+            ),
+            None => Point::new(start_position.row, start_position.column + text.len()),
+        };
 
         let old_end_byte = self.to_byte(end);
         let old_end_position = self.to_point(end);
-- 
2.43.0


From 9ac7e572199ba50456a2e958c62930440a3aab82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:39 +0000
Subject: [PATCH 02/47] fix: convert edit positions as UTF-16 columns and
 accept full-text changes

---
 jinja-lsp-queries/src/to_input_edit.rs | 25 ++++++++++++++++-----
 jinja-lsp/src/lsp_files.rs             | 31 +++++++++++++++++---------
 2 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/jinja-lsp-queries/src/to_input_edit.rs b/jinja-lsp-queries/src/to_input_edit.rs
index 8219be8..8c5eabd 100644
--- a/jinja-lsp-queries/src/to_input_edit.rs
+++ b/jinja-lsp-queries/src/to_input_edit.rs
@@ -13,12 +13,24 @@ pub trait ToInputEdit {
 
 impl ToInputEdit for Rope {
     fn to_point(&self, position: Position) -> Point {
-        Point::new(position.line as usize, position.character as usize)
+        let byte = self.to_byte(position);
+        let line = self.byte_to_line(byte);
+        Point::new(line, byte - self.line_to_byte(line))
     }
 
     fn to_byte(&self, position: Position) -> usize {
-        let start_line = self.line_to_byte(position.line as usize);
-        start_line + position.character as usize
+        let line = position.line as usize;
+        if line >= self.len_lines() {
+            return self.len_bytes();
+        }
+        let text = self.line(line);
+        let mut end = text.len_chars();
+        while end > 0 && matches!(text.char(end - 1), '\n' | '\r') {
+            end -= 1;
+        }
+        // columns count UTF-16 code units; a column past the end of the line means its end
+        let column = (position.character as usize).min(text.char_to_utf16_cu(end));
+        self.line_to_byte(line) + text.char_to_byte(text.utf16_cu_to_char(column))
     }
 
     fn to_position(&self, mut offset: usize) -> Position {
@@ -40,13 +52,14 @@ impl ToInputEdit for Rope {
             }
         }
         let line = low - 1;
-        let character = offset - self.line_to_byte(line);
+        let text = self.line(line);
+        let character = text.char_to_utf16_cu(text.byte_to_char(offset - self.line_to_byte(line)));
         Position::new(line as u32, character as u32)
     }
 
     fn to_input_edit(&self, range: Range, text: &str) -> InputEdit {
-        let start = range.start;
-        let end = range.end;
+        let start = range.start.min(range.end);
+        let end = range.end.max(range.start);
 
         let start_byte = self.to_byte(start);
         let start_position = self.to_point(start);
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 02f48e0..7aa36b6 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -168,24 +168,33 @@ impl LspFiles {
         let lang_type = self.config.file_ext(&Path::new(&uri));
         let mut changes = vec![];
         for change in params.content_changes {
-            let range = change.range?;
+            let Some(range) = change.range else {
+                // without a range the whole document is replaced
+                *rope = Rope::from_str(&change.text);
+                changes.push((change.text, None));
+                continue;
+            };
             let input_edit = rope.to_input_edit(range, &change.text);
-            let start = rope.to_byte(range.start);
-            let end = rope.to_byte(range.end);
-            if start <= end {
-                rope.remove(start..end);
-            } else {
-                rope.remove(end..start);
-            }
+            let start = rope.byte_to_char(input_edit.start_byte);
+            let end = rope.byte_to_char(input_edit.old_end_byte);
+            rope.remove(start..end);
             if !change.text.is_empty() {
                 rope.insert(start, &change.text);
             }
             let mut w = FileContent::default();
             let _ = rope.write_to(&mut w);
-            changes.push((w.content, input_edit));
+            changes.push((w.content, Some(input_edit)));
         }
-        for change in changes {
-            self.input_edit(&uri, change.0, change.1, lang_type);
+        for (content, input_edit) in changes {
+            match (input_edit, lang_type) {
+                (Some(input_edit), _) => {
+                    self.input_edit(&uri, content, input_edit, lang_type);
+                }
+                (None, Some(lang_type)) => {
+                    self.add_tree(&uri, lang_type, &content);
+                }
+                (None, None) => {}
+            }
         }
         let param = DidSaveTextDocumentParams {
             text_document: TextDocumentIdentifier::new(params.text_document.uri),
-- 
2.43.0


From c5d89cf82f5a2373f3c3cf5f2eb389de170260ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:37 +0000
Subject: [PATCH 03/47] fix: see the pipe in an operator that holds more than
 the pipe

---
 jinja-lsp-queries/src/search/objects.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 7049bb1..ce32835 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -72,9 +72,18 @@ impl JinjaObjects {
                 return Some(ObjectAction::NewField);
             }
             "pipe" => {
+                // one operator can hold more than the pipe: `f()|int`
                 let content = capture.node.utf8_text(source.as_bytes()).ok()?;
-                if content.starts_with('|') {
-                    self.pipe = (start, end);
+                if content.trim_end().ends_with('|') {
+                    let before = &content[..content.rfind('|')?];
+                    let pipe_start = match before.rfind('\n') {
+                        Some(line) => {
+                            let row = start.row + before.matches('\n').count();
+                            Point::new(row, before.len() - line - 1)
+                        }
+                        None => Point::new(start.row, start.column + before.len()),
+                    };
+                    self.pipe = (pipe_start, end);
                 }
                 return Some(ObjectAction::NewFilter);
             }
-- 
2.43.0


From 0ed67fa43a9cea5b0a3bb58116e0c387799341df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:37 +0000
Subject: [PATCH 04/47] fix: do not offer filters at the start of a document

---
 jinja-lsp-queries/src/search/objects.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index ce32835..1ff7d76 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -193,7 +193,7 @@ impl JinjaObjects {
     }
 
     pub fn in_pipe(&self, trigger_point: Point) -> bool {
-        trigger_point >= self.pipe.0 && trigger_point <= self.pipe.1
+        self.pipe.0 < self.pipe.1 && trigger_point >= self.pipe.0 && trigger_point <= self.pipe.1
     }
 
     pub fn in_expr(&self, trigger_point: Point) -> bool {
-- 
2.43.0


From e899ae3e1123ce4dc20ecc84e6039b37a7d00d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:37 +0000
Subject: [PATCH 05/47] fix: do not take the fields of calls, strings and loop
 for variables

---
 jinja-lsp-queries/src/search/objects.rs | 31 +++++++++++--------------
 jinja-lsp-queries/src/search/queries.rs |  2 +-
 2 files changed, 14 insertions(+), 19 deletions(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 1ff7d76..a39a5e0 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -45,6 +45,8 @@ impl JinjaObject {
 pub struct JinjaObjects {
     objects: Vec<JinjaObject>,
     dot: (Point, Point),
+    dot_of_object: bool,
+    last_end: usize,
     pipe: (Point, Point),
     test: (Point, Point, bool),
     expr: (Point, Point, ExpressionRange),
@@ -69,6 +71,11 @@ impl JinjaObjects {
             }
             "dot" => {
                 self.dot = (start, end);
+                // `f().x` and `"a".x` are fields of a value, not of the last object
+                let content = capture.node.utf8_text(source.as_bytes()).ok()?;
+                let skipped = source.get(self.last_end..capture.node.start_byte());
+                self.dot_of_object =
+                    content.trim() == "." && skipped.is_some_and(|text| text.trim().is_empty());
                 return Some(ObjectAction::NewField);
             }
             "pipe" => {
@@ -116,26 +123,13 @@ impl JinjaObjects {
         let end = capture.node.end_position();
         if let Ok(value) = value {
             if start.row == self.dot.1.row && start.column == self.dot.1.column {
-                let last_object = self.objects.last_mut().map(|last| {
+                if !self.dot_of_object {
+                    return ObjectAction::Invalid;
+                }
+                if let Some(last) = self.objects.last_mut() {
                     last.fields.push((String::from(value), (start, end)));
                     self.ident = (start, end);
-                });
-                match last_object {
-                    Some(_) => {}
-                    None => {
-                        // TODO: in future add those to main library
-                        if VALID_IDENTIFIERS.contains(&value) {
-                            return ObjectAction::Invalid;
-                        }
-                        self.ident = (start, end);
-                        let is_test = self.test.2;
-                        let is_filter = self.is_hover(start) && self.is_filter();
-                        let obj =
-                            JinjaObject::new(String::from(value), start, end, is_filter, is_test);
-                        self.objects.push(obj);
-                        self.test.2 = false;
-                        return ObjectAction::NewObject;
-                    }
+                    self.last_end = capture.node.end_byte();
                 }
             } else {
                 // TODO: in future add those to main library
@@ -152,6 +146,7 @@ impl JinjaObjects {
                     is_filter,
                     is_test,
                 ));
+                self.last_end = capture.node.end_byte();
                 self.test.2 = false;
                 return ObjectAction::NewObject;
             }
diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index 844e3ed..fb254d3 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -57,7 +57,7 @@ const OBJECTS: &str = r#"
     [
         (
             (operator) @dot
-            (#eq? @dot "\.")
+            (#match? @dot "\\.\\s*$")
         )
 
         (
-- 
2.43.0


From 49db31f96145e26ff922278342006df845232660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:37 +0000
Subject: [PATCH 06/47] fix: know the operators and constants inside
 expressions

---
 jinja-lsp-queries/src/search/objects.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index a39a5e0..8191346 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -133,9 +133,14 @@ impl JinjaObjects {
                 }
             } else {
                 // TODO: in future add those to main library
-                if VALID_IDENTIFIERS.contains(&value) {
+                let test_name = self.test.2 && value != "not";
+                if !test_name && VALID_IDENTIFIERS.contains(&value) {
                     return ObjectAction::Invalid;
                 }
+                if value == "is" {
+                    self.test = (start, end, true);
+                    return ObjectAction::NewTest;
+                }
                 self.ident = (start, end);
                 let is_test = self.test.2;
                 let is_filter = self.is_hover(start) && self.is_filter();
@@ -328,8 +333,9 @@ pub enum CompletionType {
     IncompleteFilter { name: String, range: Range },
 }
 
-static VALID_IDENTIFIERS: [&str; 8] = [
-    "loop", "true", "false", "not", "as", "module", "super", "url_for",
+static VALID_IDENTIFIERS: [&str; 17] = [
+    "loop", "true", "false", "not", "as", "module", "super", "url_for", "and", "or", "if", "else",
+    "in", "none", "None", "True", "False",
 ];
 
 #[derive(Default, Debug, Clone, Copy)]
-- 
2.43.0


From 55cfc64e51a3603ef345422c2055104d1d8146b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:36 +0000
Subject: [PATCH 07/47] fix: open a scope only for the first keyword of a
 statement

---
 jinja-lsp-queries/src/search/definition.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index 4eb8c15..8d4c51e 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -1,6 +1,6 @@
 use std::collections::{HashSet, LinkedList};
 
-use tree_sitter::{Point, Query, QueryCapture, QueryCursor, Tree};
+use tree_sitter::{Node, Point, Query, QueryCapture, QueryCursor, Tree};
 
 use super::{Identifier, IdentifierType};
 
@@ -158,6 +158,10 @@ pub struct JinjaDefinitions {
 impl JinjaDefinitions {
     fn check(&mut self, name: &str, capture: &QueryCapture<'_>, text: &str) -> Option<bool> {
         let id = capture.node.id();
+        if matches!(name, "definition" | "scope") && !is_first_keyword(capture.node) {
+            // `x if y else z`, `include "a" with context`
+            return Some(false);
+        }
         match name {
             "definition" => {
                 if self.all_ids.contains(&id) {
@@ -359,6 +363,11 @@ impl JinjaDefinitions {
     }
 }
 
+fn is_first_keyword(node: Node) -> bool {
+    node.prev_sibling()
+        .is_some_and(|prev| prev.kind() == "statement_begin")
+}
+
 pub fn definition_query(
     query: &Query,
     tree: &Tree,
-- 
2.43.0


From 580b6d3002d6f73d79ba5cfd38e36be3e3e71b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:36 +0000
Subject: [PATCH 08/47] fix: close a scope only at the end of a block that
 opened one

---
 jinja-lsp-queries/src/search/queries.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index fb254d3..0684077 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -217,7 +217,7 @@ const DEFINITIONS: &str = r#"
 
     (
         (keyword) @endblock
-        (#match? @endblock "^end")
+        (#match? @endblock "^end(for|with|macro|block|if|filter|autoescape|raw)$")
     )
 
 (
-- 
2.43.0


From 66b0da4b33b4ee3314f281b3f0f2329bb6a96099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:36 +0000
Subject: [PATCH 09/47] fix: end the scope of a branch at elif and else

---
 jinja-lsp-queries/src/search/definition.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index 8d4c51e..d7058bb 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -150,6 +150,7 @@ pub struct JinjaDefinitions {
     can_open_scope: bool,
     can_add_id: bool,
     is_end: bool,
+    next_branch: Option<usize>,
     pub current_scope: LinkedList<Scope>,
     pub all_scopes: Vec<Scope>,
     all_ids: HashSet<usize>,
@@ -192,6 +193,16 @@ impl JinjaDefinitions {
                 }
             }
             "scope" => {
+                let content = capture.node.utf8_text(text.as_bytes()).unwrap();
+                if matches!(content, "elif" | "else") {
+                    // the previous branch ends where this statement begins
+                    self.next_branch = Some(id);
+                    self.is_end = true;
+                    self.can_close_scope = true;
+                    self.can_open_scope = false;
+                    self.can_add_id = false;
+                    return Some(true);
+                }
                 self.can_close_scope = false;
                 self.can_open_scope = true;
                 self.is_end = false;
@@ -275,6 +286,13 @@ impl JinjaDefinitions {
                         last.end = capture.node.start_position();
                         self.all_scopes.push(last);
                     }
+                    if let Some(id) = self.next_branch.take() {
+                        self.can_open_scope = true;
+                        self.current_scope.push_front(Scope {
+                            id,
+                            ..Default::default()
+                        });
+                    }
                 }
             }
             "scope_start" => {
-- 
2.43.0


From 9341b68f42c29e4f6b7a9879e3f40422d5577bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:36 +0000
Subject: [PATCH 10/47] fix: define every target of a for loop

---
 jinja-lsp-queries/src/search/definition.rs | 34 +++++++++++++---------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index d7058bb..5dca71f 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -8,7 +8,7 @@ use super::{Identifier, IdentifierType};
 pub enum Definition {
     ForLoop {
         key: Identifier,
-        value: Option<Identifier>,
+        values: Vec<Identifier>,
     },
     Set {
         key: Identifier,
@@ -29,10 +29,12 @@ pub enum Definition {
 impl Definition {
     fn collect(self, ids: &mut Vec<Identifier>) {
         match self {
-            Definition::ForLoop { mut key, value, .. } => {
+            Definition::ForLoop {
+                mut key, values, ..
+            } => {
                 key.identifier_type = IdentifierType::ForLoopKey;
                 ids.push(key);
-                if let Some(mut value) = value {
+                for mut value in values {
                     value.identifier_type = IdentifierType::ForLoopValue;
                     ids.push(value);
                 }
@@ -70,7 +72,7 @@ impl From<&str> for Definition {
         match value {
             "for" => Self::ForLoop {
                 key: Identifier::default(),
-                value: None,
+                values: vec![],
             },
             "set" => Self::Set {
                 key: Identifier::default(),
@@ -86,7 +88,7 @@ impl From<&str> for Definition {
             },
             _ => Self::ForLoop {
                 key: Identifier::default(),
-                value: None,
+                values: vec![],
             },
         }
     }
@@ -243,14 +245,13 @@ impl JinjaDefinitions {
                 let last = self.definitions.last_mut();
                 if let Some(last) = last {
                     match last {
-                        Definition::ForLoop { key, value } => {
-                            if key.name.is_empty() {
+                        Definition::ForLoop { key, values } => {
+                            if is_after_in(capture.node, text) {
+                                self.can_add_id = false;
+                            } else if key.name.is_empty() {
                                 *key = identifier;
-                            } else if let Some(value) = value {
-                                if value.name.is_empty() {
-                                    *value = identifier;
-                                    self.can_add_id = false;
-                                }
+                            } else {
+                                values.push(identifier);
                             }
                         }
                         Definition::Set { key, .. } => {
@@ -322,14 +323,14 @@ impl JinjaDefinitions {
         let global_scope = Scope::new(last_line);
         for def in self.definitions.iter_mut() {
             match def {
-                Definition::ForLoop { key, value } => {
+                Definition::ForLoop { key, values } => {
                     let scope = self
                         .all_scopes
                         .iter()
                         .find(|item| item.id == key.scope_ends.0);
                     let scope = scope.unwrap_or(&global_scope);
                     key.scope_ends.1 = scope.end;
-                    if let Some(value) = value {
+                    for value in values {
                         value.scope_ends.1 = scope.end;
                     }
                 }
@@ -381,6 +382,11 @@ impl JinjaDefinitions {
     }
 }
 
+fn is_after_in(node: Node, text: &str) -> bool {
+    std::iter::successors(node.prev_sibling(), |node| node.prev_sibling())
+        .any(|node| node.kind() == "keyword" && node.utf8_text(text.as_bytes()) == Ok("in"))
+}
+
 fn is_first_keyword(node: Node) -> bool {
     node.prev_sibling()
         .is_some_and(|prev| prev.kind() == "statement_begin")
-- 
2.43.0


From c80e58c050809126e1544542a51cc4db8f51e32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:36 +0000
Subject: [PATCH 11/47] fix: do not define the values of with variables and
 macro parameters

---
 jinja-lsp-queries/src/search/definition.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index 5dca71f..a2a965a 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -261,13 +261,19 @@ impl JinjaDefinitions {
                             }
                         }
                         Definition::With { keys } => {
-                            keys.push(identifier);
+                            let next = operator(capture.node.next_sibling(), text);
+                            if next.starts_with('=') && !next.starts_with("==") {
+                                keys.push(identifier);
+                            }
                         }
                         Definition::Macro { keys, scope } => {
+                            let prev = operator(capture.node.prev_sibling(), text);
                             if keys.is_empty() {
                                 identifier.scope_ends.0 = *scope;
+                                keys.push(identifier);
+                            } else if prev.ends_with(['(', ',']) {
+                                keys.push(identifier);
                             }
-                            keys.push(identifier);
                         }
                         Definition::Block { name } => {
                             if name.name.is_empty() {
@@ -382,6 +388,13 @@ impl JinjaDefinitions {
     }
 }
 
+fn operator<'a>(node: Option<Node>, text: &'a str) -> &'a str {
+    node.filter(|node| node.kind() == "operator")
+        .and_then(|node| node.utf8_text(text.as_bytes()).ok())
+        .unwrap_or_default()
+        .trim()
+}
+
 fn is_after_in(node: Node, text: &str) -> bool {
     std::iter::successors(node.prev_sibling(), |node| node.prev_sibling())
         .any(|node| node.kind() == "keyword" && node.utf8_text(text.as_bytes()) == Ok("in"))
-- 
2.43.0


From 5921105fffb4a78e6391b6d644ea377e8a8a4cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:36 +0000
Subject: [PATCH 12/47] fix: define every target of a set statement

---
 jinja-lsp-queries/src/search/definition.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index a2a965a..15c130a 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -254,10 +254,16 @@ impl JinjaDefinitions {
                                 values.push(identifier);
                             }
                         }
-                        Definition::Set { key, .. } => {
+                        Definition::Set { key, equals } => {
                             if key.name.is_empty() {
                                 *key = identifier;
+                            } else if *equals {
                                 self.can_add_id = false;
+                            } else if operator(capture.node.prev_sibling(), text) == "," {
+                                self.definitions.push(Definition::Set {
+                                    key: identifier,
+                                    equals: false,
+                                });
                             }
                         }
                         Definition::With { keys } => {
@@ -303,9 +309,9 @@ impl JinjaDefinitions {
                 }
             }
             "scope_start" => {
+                self.can_add_id = false;
                 if self.can_open_scope {
                     self.can_open_scope = false;
-                    self.can_add_id = false;
                     if let Some(last) = self.current_scope.front_mut() {
                         last.start = capture.node.end_position();
                     }
-- 
2.43.0


From 6efb26ce58c69f0e686fd04d2cb4a8a2a9ca99a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:28 +0000
Subject: [PATCH 13/47] fix: parse a reopened document from scratch

---
 jinja-lsp/src/lsp_files.rs | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 7aa36b6..6b20509 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -128,20 +128,9 @@ impl LspFiles {
         file_content: &str,
     ) -> Option<()> {
         let trees = self.trees.get_mut(&lang_type)?;
-        let old_tree = trees.get_mut(&file_name.to_string());
-        match old_tree {
-            Some(old_tree) => {
-                let new_tree = self
-                    .parsers
-                    .parse(lang_type, file_content, Some(old_tree))?;
-                trees.insert(file_name.to_string(), new_tree);
-            }
-            None => {
-                // tree doesn't exist, first insertion
-                let new_tree = self.parsers.parse(lang_type, file_content, None)?;
-                trees.insert(file_name.to_string(), new_tree);
-            }
-        };
+        // an old tree describes another text: it is of use only after `Tree::edit`
+        let new_tree = self.parsers.parse(lang_type, file_content, None)?;
+        trees.insert(file_name.to_string(), new_tree);
         None
     }
 
-- 
2.43.0


From 3ba7f7d74563dd4137471521485e16841a2afd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:28 +0000
Subject: [PATCH 14/47] fix: do not underflow when completing inside a string
 of many lines

---
 jinja-lsp-queries/src/search/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jinja-lsp-queries/src/search/mod.rs b/jinja-lsp-queries/src/search/mod.rs
index 2659569..dd7e966 100644
--- a/jinja-lsp-queries/src/search/mod.rs
+++ b/jinja-lsp-queries/src/search/mod.rs
@@ -61,6 +61,9 @@ pub fn completion_start(mut trigger_point: Point, identifier: &Identifier) -> Op
     if len == 0 {
         return Some("");
     }
+    if identifier.end.row != trigger_point.row || identifier.end.column < trigger_point.column {
+        return Some(&identifier.name);
+    }
     let diff = identifier.end.column - trigger_point.column;
     if diff == 0 || diff == 1 {
         return Some(&identifier.name);
-- 
2.43.0


From bef5ff5fb57fee8f5e7dce5ed57f334bb8dac5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:28 +0000
Subject: [PATCH 15/47] fix: do not take blocks and template names for
 variables

---
 jinja-lsp-queries/src/lsp_helper.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/jinja-lsp-queries/src/lsp_helper.rs b/jinja-lsp-queries/src/lsp_helper.rs
index e5399d3..21ae2ec 100644
--- a/jinja-lsp-queries/src/lsp_helper.rs
+++ b/jinja-lsp-queries/src/lsp_helper.rs
@@ -34,6 +34,13 @@ pub fn search_errors(
                 if object.is_filter || object.is_test {
                     continue;
                 }
+                let is_block_name = this_file.iter().any(|variable| {
+                    variable.identifier_type == IdentifierType::TemplateBlock
+                        && variable.start == object.location.0
+                });
+                if is_block_name {
+                    continue;
+                }
                 let mut exist = false;
                 let mut err_type = JinjaDiagnostic::Undefined;
                 let mut to_warn = false;
@@ -63,10 +70,11 @@ pub fn search_errors(
                     }
                     to_warn = true;
                     for file in variables {
-                        let temp = file
-                            .1
-                            .iter()
-                            .filter(|variable| variable.name == object.name);
+                        let temp = file.1.iter().filter(|variable| {
+                            variable.name == object.name
+                                && variable.identifier_type != IdentifierType::TemplateBlock
+                                && variable.identifier_type != IdentifierType::JinjaTemplate
+                        });
                         if temp.count() != 0 {
                             err_type = JinjaDiagnostic::DefinedSomewhere;
                             to_warn = true;
-- 
2.43.0


From 46c050620a4ca6254867a32d0506b6f528bbb64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:28 +0000
Subject: [PATCH 16/47] fix: do not take the modifiers of include and import
 for variables

---
 jinja-lsp-queries/src/search/objects.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 8191346..a66c594 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -1,5 +1,5 @@
 use tower_lsp::lsp_types::Range;
-use tree_sitter::{Point, Query, QueryCapture, QueryCursor, Tree};
+use tree_sitter::{Node, Point, Query, QueryCapture, QueryCursor, Tree};
 
 use super::{completion_start, to_range, to_range2, Identifier};
 
@@ -67,6 +67,9 @@ impl JinjaObjects {
                 return None;
             }
             "just_id" => {
+                if is_modifier(capture.node, source) {
+                    return Some(ObjectAction::Invalid);
+                }
                 return Some(self.build_object(capture, source));
             }
             "dot" => {
@@ -247,6 +250,16 @@ impl JinjaObjects {
     }
 }
 
+/// `{% include "a" ignore missing with context %}`
+fn is_modifier(node: Node, source: &str) -> bool {
+    let text = |node: Node| node.utf8_text(source.as_bytes()).unwrap_or_default();
+    matches!(text(node), "ignore" | "missing" | "context" | "without")
+        && node
+            .parent()
+            .and_then(|parent| parent.child(1))
+            .is_some_and(|first| matches!(text(first), "include" | "import" | "from"))
+}
+
 pub fn objects_query(
     query: &Query,
     tree: &Tree,
-- 
2.43.0


From c889732a4322299dc3aab1c8db06625faf37aabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:28 +0000
Subject: [PATCH 17/47] fix: go to a template by the path that diagnostics
 check

---
 jinja-lsp/src/lsp_files.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 6b20509..e68a7e6 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -419,7 +419,7 @@ impl LspFiles {
                     let query = templates_query(query, tree, point, &writter.content, false);
                     let identifier = query.in_template(point)?.get_identifier(point)?;
                     let mut path = self.config.templates.clone();
-                    path.push(&identifier.name);
+                    path.push(path_items(&identifier.name));
                     let buffer = std::fs::canonicalize(path).ok()?;
                     let url = format!("file://{}", buffer.to_str()?);
                     let url = Url::parse(&url).ok()?;
@@ -466,7 +466,7 @@ impl LspFiles {
                     backend_templates_query(query, tree, point, &writter.content, false);
                 let template = templates.in_template(point)?;
                 let mut path = self.config.templates.clone();
-                path.push(&template.name);
+                path.push(path_items(&template.name));
                 let buffer = std::fs::canonicalize(path).ok()?;
                 let url = format!("file://{}", buffer.to_str()?);
                 let url = Url::parse(&url).ok()?;
-- 
2.43.0


From 13cab6061a7cbc44857323235c13633c83820994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:28 +0000
Subject: [PATCH 18/47] fix: create a template under the uri of its path

---
 jinja-lsp/src/lsp_files.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index e68a7e6..4a92c15 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -545,7 +545,7 @@ impl LspFiles {
                 let templates = self.config.templates.to_owned();
                 if let Ok(mut path) = std::fs::canonicalize(templates) {
                     path.push(path_items(&template));
-                    let name = format!("file:///{}", path.to_str().unwrap());
+                    let name = format!("file://{}", path.to_str().unwrap());
                     let cf = CreateFile {
                         uri: Url::parse(&name).unwrap(),
                         options: Some(CreateFileOptions {
-- 
2.43.0


From 9b78d53f7546d6afcac2bc33ee240c26bed7b31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:28 +0000
Subject: [PATCH 19/47] fix: offer templates by their path under the template
 directory

---
 jinja-lsp/src/lsp_files.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 4a92c15..f6f25d4 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -697,30 +697,21 @@ impl LspFiles {
 
     pub fn read_templates(
         &self,
-        mut prefix: String,
+        prefix: String,
         range: Range,
         start_point: Position,
         _: Option<String>,
     ) -> Option<Vec<CompletionItem>> {
         let all_templates = self.trees.get(&LangType::Template)?;
-        if prefix.is_empty() {
-            prefix = String::from("file:///");
-        }
+        let root = std::fs::canonicalize(&self.config.templates).ok()?;
+        let root = format!("file://{}/", root.to_str()?);
         let templates = all_templates
             .keys()
+            .filter_map(|template| template.strip_prefix(&root))
             .filter(|template| template.contains(&prefix));
         let mut abc = vec![];
         for template in templates {
-            let c = &self
-                .config
-                .templates
-                .as_path()
-                .to_str()
-                .unwrap()
-                .replace('.', "");
-            let mut parts = template.split(c);
-            parts.next();
-            let label = parts.next()?.replacen('/', "", 1);
+            let label = template.to_string();
             let new_text = format!("\"{label}\"");
             let mut additional_text_edits = None;
             let text_edit = {
-- 
2.43.0


From d8bab84c8a3dc1a70e5a994e6dcc53f363cfc293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 20/47] fix: complete template names by what is typed before
 the cursor

---
 jinja-lsp-queries/src/search/mod.rs | 10 ++++++++++
 jinja-lsp/src/lsp_files.rs          |  6 +++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/jinja-lsp-queries/src/search/mod.rs b/jinja-lsp-queries/src/search/mod.rs
index dd7e966..4a4dcae 100644
--- a/jinja-lsp-queries/src/search/mod.rs
+++ b/jinja-lsp-queries/src/search/mod.rs
@@ -76,6 +76,16 @@ pub fn completion_start(mut trigger_point: Point, identifier: &Identifier) -> Op
     let s = identifier.name.get(0..to + 1);
     s
 }
+
+/// The part of a template name, which stands between quotes, that is before the trigger point
+pub fn template_start(trigger_point: Point, identifier: &Identifier) -> &str {
+    if trigger_point.row != identifier.start.row {
+        return &identifier.name;
+    }
+    let typed = trigger_point.column.saturating_sub(identifier.start.column + 1);
+    identifier.name.get(..typed).unwrap_or(&identifier.name)
+}
+
 pub fn to_range(points: (Point, Point)) -> Range {
     let start = Position::new(points.0.row as u32, points.0.column as u32);
     let end = Position::new(points.1.row as u32, points.1.column as u32);
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index f6f25d4..702764b 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -1,7 +1,6 @@
 use jinja_lsp_queries::{
     lsp_helper::{path_items, search_errors},
     search::{
-        completion_start,
         definition::definition_query,
         objects::{objects_query, JinjaObject},
         python_identifiers::{python_identifiers, PythonIdentifier},
@@ -9,6 +8,7 @@ use jinja_lsp_queries::{
         rust_identifiers::backend_definition_query,
         rust_template_completion::backend_templates_query,
         snippets_completion::snippets_query,
+        template_start,
         templates::templates_query,
         to_range, Identifier, IdentifierType,
     },
@@ -290,7 +290,7 @@ impl LspFiles {
                 let query = &self.queries.jinja_imports;
                 let query = templates_query(query, tree, point, &writter.content, false);
                 let identifier = query.in_template(point)?.get_identifier(point)?;
-                let start = completion_start(point, identifier)?;
+                let start = template_start(point, identifier);
                 let range = to_range((identifier.start, identifier.end));
                 Some((
                     CompletionType::IncludedTemplate {
@@ -309,7 +309,7 @@ impl LspFiles {
                     false,
                 );
                 let identifier = rust_templates.in_template(point)?;
-                let start = completion_start(point, identifier)?;
+                let start = template_start(point, identifier);
                 let range = to_range((identifier.start, identifier.end));
                 Some((
                     CompletionType::IncludedTemplate {
-- 
2.43.0


From 2604108a5f3a91952f5fde060a7d9c10335ccc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:23 +0000
Subject: [PATCH 21/47] fix: do not take the filter of a filter block for a
 variable

---
 jinja-lsp-queries/src/search/mod.rs     |  4 +++-
 jinja-lsp-queries/src/search/objects.rs | 10 +++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp-queries/src/search/mod.rs b/jinja-lsp-queries/src/search/mod.rs
index 4a4dcae..67e8680 100644
--- a/jinja-lsp-queries/src/search/mod.rs
+++ b/jinja-lsp-queries/src/search/mod.rs
@@ -82,7 +82,9 @@ pub fn template_start(trigger_point: Point, identifier: &Identifier) -> &str {
     if trigger_point.row != identifier.start.row {
         return &identifier.name;
     }
-    let typed = trigger_point.column.saturating_sub(identifier.start.column + 1);
+    let typed = trigger_point
+        .column
+        .saturating_sub(identifier.start.column + 1);
     identifier.name.get(..typed).unwrap_or(&identifier.name)
 }
 
diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index a66c594..f71d766 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -146,7 +146,8 @@ impl JinjaObjects {
                 }
                 self.ident = (start, end);
                 let is_test = self.test.2;
-                let is_filter = self.is_hover(start) && self.is_filter();
+                let is_filter = self.is_hover(start) && self.is_filter()
+                    || is_filter_block(capture.node, source);
                 self.objects.push(JinjaObject::new(
                     String::from(value),
                     start,
@@ -250,6 +251,13 @@ impl JinjaObjects {
     }
 }
 
+/// `{% filter upper %}`
+fn is_filter_block(node: Node, source: &str) -> bool {
+    node.prev_sibling().is_some_and(|prev| {
+        prev.kind() == "keyword" && prev.utf8_text(source.as_bytes()) == Ok("filter")
+    })
+}
+
 /// `{% include "a" ignore missing with context %}`
 fn is_modifier(node: Node, source: &str) -> bool {
     let text = |node: Node| node.utf8_text(source.as_bytes()).unwrap_or_default();
-- 
2.43.0


From c2c3e4001df2eb3345e8716027c942920115fe04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:39 +0000
Subject: [PATCH 22/47] fix: parse from scratch after a broken text

Tokens that the parser found while recovering from an error can have another
extent than in a valid text (keywords get the space before them), so they must
not be reused for the text that no longer has the error.
---
 jinja-lsp/src/lsp_files.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 702764b..7b14abe 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -144,8 +144,11 @@ impl LspFiles {
         let lang_type = lang_type?;
         let trees = self.trees.get_mut(&lang_type)?;
         let old_tree = trees.get_mut(file)?;
+        // tokens of a broken document do not always have the same extent in a valid one
+        let reusable = !old_tree.root_node().has_error();
         old_tree.edit(&input_edit);
-        let new_tree = self.parsers.parse(lang_type, &code, Some(old_tree))?;
+        let old_tree = Some(&*old_tree).filter(|_| reusable);
+        let new_tree = self.parsers.parse(lang_type, &code, old_tree)?;
         let trees = self.trees.get_mut(&lang_type)?;
         trees.insert(file.to_string(), new_tree);
         None
-- 
2.43.0


From 5cc4e3163c15a2e62927ba545f2abf128af64a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:29 +0000
Subject: [PATCH 23/47] fix: only a file is a template

---
 jinja-lsp-queries/src/lsp_helper.rs | 18 +++++++-----------
 jinja-lsp/src/lsp_files.rs          |  8 ++++++--
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/jinja-lsp-queries/src/lsp_helper.rs b/jinja-lsp-queries/src/lsp_helper.rs
index 21ae2ec..0e82d7b 100644
--- a/jinja-lsp-queries/src/lsp_helper.rs
+++ b/jinja-lsp-queries/src/lsp_helper.rs
@@ -1,4 +1,4 @@
-use std::{collections::HashMap, io::ErrorKind, path::PathBuf};
+use std::{collections::HashMap, path::PathBuf};
 
 use tower_lsp::lsp_types::{Diagnostic, DiagnosticSeverity, Position, Range};
 use tree_sitter::{Point, Tree};
@@ -107,11 +107,9 @@ pub fn search_errors(
                 } else {
                     let mut templates = templates.clone();
                     templates.push(path_items(&i.name));
-                    if let Err(err) = std::fs::canonicalize(templates) {
-                        if err.kind() == ErrorKind::NotFound {
-                            let diagnostic = (err_type, i.to_owned());
-                            diagnostics.push(diagnostic);
-                        }
+                    if !templates.is_file() {
+                        let diagnostic = (err_type, i.to_owned());
+                        diagnostics.push(diagnostic);
                     }
                 }
             }
@@ -125,11 +123,9 @@ pub fn search_errors(
             for template in templates2 {
                 let mut templates = templates.clone();
                 templates.push(path_items(&template.name));
-                if let Err(err) = std::fs::canonicalize(templates) {
-                    if err.kind() == ErrorKind::NotFound {
-                        let diagnostic = (JinjaDiagnostic::TemplateNotFound, template.to_owned());
-                        diagnostics.push(diagnostic);
-                    }
+                if !templates.is_file() {
+                    let diagnostic = (JinjaDiagnostic::TemplateNotFound, template.to_owned());
+                    diagnostics.push(diagnostic);
                 }
             }
             Some(diagnostics)
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 7b14abe..1d40eec 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -423,7 +423,9 @@ impl LspFiles {
                     let identifier = query.in_template(point)?.get_identifier(point)?;
                     let mut path = self.config.templates.clone();
                     path.push(path_items(&identifier.name));
-                    let buffer = std::fs::canonicalize(path).ok()?;
+                    let buffer = std::fs::canonicalize(path)
+                        .ok()
+                        .filter(|file| file.is_file())?;
                     let url = format!("file://{}", buffer.to_str()?);
                     let url = Url::parse(&url).ok()?;
                     let range = Range::new(Position::default(), Position::default());
@@ -470,7 +472,9 @@ impl LspFiles {
                 let template = templates.in_template(point)?;
                 let mut path = self.config.templates.clone();
                 path.push(path_items(&template.name));
-                let buffer = std::fs::canonicalize(path).ok()?;
+                let buffer = std::fs::canonicalize(path)
+                    .ok()
+                    .filter(|file| file.is_file())?;
                 let url = format!("file://{}", buffer.to_str()?);
                 let url = Url::parse(&url).ok()?;
                 let range = Range::new(Position::default(), Position::default());
-- 
2.43.0


From 0a1f55cf10bfd64dee90e9a3fb3bfd1967e403e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:33 +0000
Subject: [PATCH 24/47] fix: refresh the diagnostics of every changed document

A change of one document within 200 ms of a change of another one aborted the
refresh of the first, whose diagnostics and variables stayed stale.
---
 jinja-lsp/src/lsp_files.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 1d40eec..2058409 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -53,7 +53,7 @@ pub struct LspFiles {
     pub parsers: Parsers,
     pub queries: Queries,
     pub config: JinjaConfig,
-    pub diagnostics_task: Option<JoinHandle<()>>,
+    pub diagnostics_tasks: HashMap<String, JoinHandle<()>>,
     pub main_channel: Option<mpsc::Sender<LspMessage>>,
     pub variables: HashMap<String, Vec<Identifier>>,
     pub code_actions: HashMap<String, Vec<Identifier>>,
@@ -192,16 +192,18 @@ impl LspFiles {
             text_document: TextDocumentIdentifier::new(params.text_document.uri),
             text: None,
         };
-        if let Some(task) = &self.diagnostics_task {
+        // only a later change of the same document makes this one's diagnostics obsolete
+        if let Some(task) = self.diagnostics_tasks.get(&uri) {
             task.abort();
         }
         let channel = self.main_channel.clone();
-        self.diagnostics_task = Some(tokio::spawn(async move {
+        let task = tokio::spawn(async move {
             sleep(Duration::from_millis(200)).await;
             if let Some(channel) = channel {
                 let _ = channel.send(LspMessage::DidSave(param)).await;
             }
-        }));
+        });
+        self.diagnostics_tasks.insert(uri, task);
         None
     }
 
@@ -913,7 +915,7 @@ impl Default for LspFiles {
         let mut trees = HashMap::new();
         trees.insert(LangType::Template, HashMap::new());
         trees.insert(LangType::Backend, HashMap::new());
-        let diagnostics_task = None;
+        let diagnostics_tasks = HashMap::new();
         let main_channel = None;
         Self {
             trees,
@@ -921,7 +923,7 @@ impl Default for LspFiles {
             queries: Queries::default(),
             documents: HashMap::new(),
             config: JinjaConfig::default(),
-            diagnostics_task,
+            diagnostics_tasks,
             main_channel,
             variables: HashMap::default(),
             is_vscode: false,
@@ -942,7 +944,6 @@ impl Clone for LspFiles {
         let is_vscode = self.is_vscode;
         let code_actions = self.code_actions.clone();
         let config = self.config.clone();
-        let task = None;
         Self {
             trees,
             documents,
@@ -953,7 +954,7 @@ impl Clone for LspFiles {
             variables,
             code_actions,
             is_vscode,
-            diagnostics_task: task,
+            diagnostics_tasks: HashMap::new(),
             ignore_globals: self.ignore_globals,
         }
     }
-- 
2.43.0


From 53d4f68d52d253e18dbeaff6303bc120a34cb1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:20 +0000
Subject: [PATCH 25/47] fix: keep the text of open documents when the
 configuration changes

Reading the workspace again replaced everything the client had sent since it
opened its documents with what is on disk.
---
 jinja-lsp/src/backend.rs      |  4 +++-
 jinja-lsp/src/channels/lsp.rs | 24 ++++++++++++++++++------
 jinja-lsp/src/lsp_files.rs    | 21 ++++++++++++++++++++-
 3 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/jinja-lsp/src/backend.rs b/jinja-lsp/src/backend.rs
index e33a91a..1d5f6fc 100644
--- a/jinja-lsp/src/backend.rs
+++ b/jinja-lsp/src/backend.rs
@@ -55,7 +55,9 @@ impl LanguageServer for Backend {
         let _ = self.main_channel.send(LspMessage::DidOpen(params)).await;
     }
 
-    async fn did_close(&self, _params: DidCloseTextDocumentParams) {}
+    async fn did_close(&self, params: DidCloseTextDocumentParams) {
+        let _ = self.main_channel.send(LspMessage::DidClose(params)).await;
+    }
 
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
         let _ = self.main_channel.send(LspMessage::DidChange(params)).await;
diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index 5a0ba6a..e232391 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -9,12 +9,12 @@ use tower_lsp::{
         CodeActionParams, CodeActionProviderCapability, CodeActionResponse, CompletionItem,
         CompletionItemKind, CompletionOptions, CompletionParams, CompletionResponse,
         CompletionTextEdit, DidChangeConfigurationParams, DidChangeTextDocumentParams,
-        DidOpenTextDocumentParams, DidSaveTextDocumentParams, DocumentSymbolParams,
-        DocumentSymbolResponse, Documentation, ExecuteCommandOptions, ExecuteCommandParams,
-        GotoDefinitionParams, GotoDefinitionResponse, Hover, HoverContents, HoverParams,
-        HoverProviderCapability, InitializeParams, InitializeResult, InsertReplaceEdit,
-        MarkupContent, MarkupKind, MessageType, OneOf, ServerCapabilities, ServerInfo,
-        TextDocumentIdentifier, TextDocumentSyncCapability, TextDocumentSyncKind,
+        DidCloseTextDocumentParams, DidOpenTextDocumentParams, DidSaveTextDocumentParams,
+        DocumentSymbolParams, DocumentSymbolResponse, Documentation, ExecuteCommandOptions,
+        ExecuteCommandParams, GotoDefinitionParams, GotoDefinitionResponse, Hover, HoverContents,
+        HoverParams, HoverProviderCapability, InitializeParams, InitializeResult,
+        InsertReplaceEdit, MarkupContent, MarkupKind, MessageType, OneOf, ServerCapabilities,
+        ServerInfo, TextDocumentIdentifier, TextDocumentSyncCapability, TextDocumentSyncKind,
         TextDocumentSyncOptions, TextDocumentSyncSaveOptions, TextEdit,
     },
     Client,
@@ -132,10 +132,18 @@ pub fn lsp_task(
                                     .send(DiagnosticMessage::Errors(errors.0))
                                     .await;
                                 let vscode = lsp_data.is_vscode;
+                                let opened = lsp_data.opened();
                                 lsp_data = errors.1;
                                 lsp_data.is_vscode = vscode;
                                 lsp_data.config = config.clone();
                                 lsp_data.main_channel = Some(lsp_channel.clone());
+                                // the text of an open document is the client's, not the file's
+                                for text_document in opened {
+                                    let params = DidOpenTextDocumentParams { text_document };
+                                    if let Some(errors) = lsp_data.did_open(params, false) {
+                                        let _ = diagnostics_channel.send(errors).await;
+                                    }
+                                }
                                 let _ = sender.send(true);
                             }
                             Err(err) => {
@@ -342,6 +350,9 @@ pub fn lsp_task(
                         let _ = diagnostics_channel.send(errors).await;
                     }
                 }
+                LspMessage::DidClose(params) => {
+                    lsp_data.did_close(&params.text_document.uri);
+                }
                 LspMessage::DocumentSymbol(params, sender) => {
                     if let Some(symbols) = lsp_data.document_symbols(params) {
                         let _ = sender.send(Some(symbols));
@@ -371,6 +382,7 @@ pub enum LspMessage {
     Initialize(Box<InitializeParams>, oneshot::Sender<InitializeResult>),
     Initialized(oneshot::Sender<bool>),
     DidOpen(DidOpenTextDocumentParams),
+    DidClose(DidCloseTextDocumentParams),
     DidChange(DidChangeTextDocumentParams),
     DidSave(DidSaveTextDocumentParams),
     Completion(
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 2058409..50a1e93 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -25,7 +25,8 @@ use tower_lsp::lsp_types::{
     CodeAction, CodeActionKind, CodeActionOrCommand, Command, CompletionItemKind,
     CompletionTextEdit, CreateFile, CreateFileOptions, DidOpenTextDocumentParams,
     DocumentChangeOperation, DocumentChanges, DocumentSymbol, DocumentSymbolResponse,
-    InsertReplaceEdit, ResourceOp, TextDocumentIdentifier, TextEdit, WorkspaceEdit,
+    InsertReplaceEdit, ResourceOp, TextDocumentIdentifier, TextDocumentItem, TextEdit,
+    WorkspaceEdit,
 };
 
 use jinja_lsp_queries::{
@@ -50,6 +51,7 @@ use crate::{
 pub struct LspFiles {
     trees: HashMap<LangType, HashMap<String, Tree>>,
     documents: HashMap<String, Rope>,
+    opened: HashSet<String>,
     pub parsers: Parsers,
     pub queries: Queries,
     pub config: JinjaConfig,
@@ -787,6 +789,7 @@ impl LspFiles {
         let file_content = params.text_document.text;
         let rope = Rope::from_str(&file_content);
         self.delete_variables(name);
+        self.opened.insert(name.to_string());
         self.documents.insert(name.to_string(), rope);
         self.add_tree(name, lang_type, &file_content);
         self.add_variables(name, lang_type, &file_content);
@@ -800,6 +803,20 @@ impl LspFiles {
         Some(msg)
     }
 
+    pub fn did_close(&mut self, uri: &Url) {
+        self.opened.remove(uri.as_str());
+    }
+
+    /// The documents that the client has open, with its text
+    pub fn opened(&self) -> Vec<TextDocumentItem> {
+        let opened = self.opened.iter().filter_map(|name| {
+            let uri = Url::parse(name).ok()?;
+            let text = self.documents.get(name)?.to_string();
+            Some(TextDocumentItem::new(uri, String::new(), 0, text))
+        });
+        opened.collect()
+    }
+
     pub fn read_objects(&self, uri: Url) -> Option<Vec<JinjaObject>> {
         let rope = self.documents.get(uri.as_str())?;
         let mut writter = FileContent::default();
@@ -922,6 +939,7 @@ impl Default for LspFiles {
             parsers: Parsers::default(),
             queries: Queries::default(),
             documents: HashMap::new(),
+            opened: HashSet::new(),
             config: JinjaConfig::default(),
             diagnostics_tasks,
             main_channel,
@@ -947,6 +965,7 @@ impl Clone for LspFiles {
         Self {
             trees,
             documents,
+            opened: self.opened.clone(),
             parsers,
             queries,
             config,
-- 
2.43.0


From 75b680c28b93e15a72ead0113d117ccda08efa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:18 +0000
Subject: [PATCH 26/47] fix: never let the two tasks of the server wait for
 each other

The task that handles requests waited for room in the channel of the task that
publishes diagnostics, which waited for room in the channel of the first. Opening
a hundred documents at once was enough to stop the server for good. The first
task also waited for room in its own channel after a change of configuration.
---
 jinja-lsp/src/backend.rs              |  3 ++-
 jinja-lsp/src/channels/diagnostics.rs |  4 ++--
 jinja-lsp/src/channels/lsp.rs         | 25 ++++++++++++++++---------
 3 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/jinja-lsp/src/backend.rs b/jinja-lsp/src/backend.rs
index 1d5f6fc..731be7b 100644
--- a/jinja-lsp/src/backend.rs
+++ b/jinja-lsp/src/backend.rs
@@ -158,7 +158,8 @@ impl LanguageServer for Backend {
 impl Backend {
     pub fn _new(client: Client) -> Self {
         let (lsp_sender, lsp_recv) = mpsc::channel(50);
-        let (diagnostic_sender, diagnostic_recv) = mpsc::channel(20);
+        // without a bound: each of the two tasks sends to the other, so neither may wait for it
+        let (diagnostic_sender, diagnostic_recv) = mpsc::unbounded_channel();
         lsp_task(
             client.clone(),
             diagnostic_sender,
diff --git a/jinja-lsp/src/channels/diagnostics.rs b/jinja-lsp/src/channels/diagnostics.rs
index 9b5dc06..fe92399 100644
--- a/jinja-lsp/src/channels/diagnostics.rs
+++ b/jinja-lsp/src/channels/diagnostics.rs
@@ -3,7 +3,7 @@ use std::collections::HashMap;
 use jinja_lsp_queries::{
     lsp_helper::create_diagnostic, search::Identifier, tree_builder::JinjaDiagnostic,
 };
-use tokio::sync::mpsc::{Receiver, Sender};
+use tokio::sync::mpsc::{Sender, UnboundedReceiver};
 use tower_lsp::{
     lsp_types::{MessageType, Url},
     Client,
@@ -13,7 +13,7 @@ use super::lsp::LspMessage;
 
 pub fn diagnostics_task(
     client: Client,
-    mut receiver: Receiver<DiagnosticMessage>,
+    mut receiver: UnboundedReceiver<DiagnosticMessage>,
     lsp_channel: Sender<LspMessage>,
 ) {
     tokio::spawn(async move {
diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index e232391..55ba3e3 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -31,7 +31,7 @@ use super::diagnostics::DiagnosticMessage;
 
 pub fn lsp_task(
     client: Client,
-    diagnostics_channel: mpsc::Sender<DiagnosticMessage>,
+    diagnostics_channel: mpsc::UnboundedSender<DiagnosticMessage>,
     lsp_channel: mpsc::Sender<LspMessage>,
     mut lsp_recv: mpsc::Receiver<LspMessage>,
 ) {
@@ -128,9 +128,8 @@ pub fn lsp_task(
                     } else {
                         match walkdir(&config) {
                             Ok(errors) => {
-                                let _ = diagnostics_channel
-                                    .send(DiagnosticMessage::Errors(errors.0))
-                                    .await;
+                                let _ =
+                                    diagnostics_channel.send(DiagnosticMessage::Errors(errors.0));
                                 let vscode = lsp_data.is_vscode;
                                 let opened = lsp_data.opened();
                                 lsp_data = errors.1;
@@ -141,7 +140,7 @@ pub fn lsp_task(
                                 for text_document in opened {
                                     let params = DidOpenTextDocumentParams { text_document };
                                     if let Some(errors) = lsp_data.did_open(params, false) {
-                                        let _ = diagnostics_channel.send(errors).await;
+                                        let _ = diagnostics_channel.send(errors);
                                     }
                                 }
                                 let _ = sender.send(true);
@@ -159,7 +158,7 @@ pub fn lsp_task(
                 }
                 LspMessage::DidSave(params) => {
                     if let Some(errors) = lsp_data.did_save(params) {
-                        let _ = diagnostics_channel.send(errors).await;
+                        let _ = diagnostics_channel.send(errors);
                     }
                 }
                 LspMessage::Completion(params, sender) => {
@@ -341,13 +340,13 @@ pub fn lsp_task(
                     let command = params.command;
                     if command == "reset_variables" {
                         let (sender2, _) = oneshot::channel();
-                        let _ = lsp_channel.send(LspMessage::Initialized(sender2)).await;
+                        send_later(&lsp_channel, LspMessage::Initialized(sender2));
                         let _ = sender.send(None);
                     }
                 }
                 LspMessage::DidOpen(params) => {
                     if let Some(errors) = lsp_data.did_open(params, false) {
-                        let _ = diagnostics_channel.send(errors).await;
+                        let _ = diagnostics_channel.send(errors);
                     }
                 }
                 LspMessage::DidClose(params) => {
@@ -368,7 +367,7 @@ pub fn lsp_task(
                     if !config.user_defined {
                         continue;
                     }
-                    let _ = lsp_channel.send(LspMessage::Initialized(sender)).await;
+                    send_later(&lsp_channel, LspMessage::Initialized(sender));
                 }
                 LspMessage::CodeActions(code_actions) => {
                     lsp_data.add_code_actions(code_actions);
@@ -378,6 +377,14 @@ pub fn lsp_task(
     });
 }
 
+/// The task that empties the channel must not wait for room in it.
+fn send_later(lsp_channel: &mpsc::Sender<LspMessage>, msg: LspMessage) {
+    let lsp_channel = lsp_channel.clone();
+    tokio::spawn(async move {
+        let _ = lsp_channel.send(msg).await;
+    });
+}
+
 pub enum LspMessage {
     Initialize(Box<InitializeParams>, oneshot::Sender<InitializeResult>),
     Initialized(oneshot::Sender<bool>),
-- 
2.43.0


From 29317b1ca62b8632007c7dcc7425eec918edf399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:43 +0000
Subject: [PATCH 27/47] fix: do not offer templates at the start of a document

---
 jinja-lsp-queries/src/search/templates.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/templates.rs b/jinja-lsp-queries/src/search/templates.rs
index b66fe43..c1f2bc3 100644
--- a/jinja-lsp-queries/src/search/templates.rs
+++ b/jinja-lsp-queries/src/search/templates.rs
@@ -28,7 +28,9 @@ impl Import {
             Import::Extends { template }
             | Import::From { template, .. }
             | Import::Import { template, .. } => {
-                if trigger_point >= template.start && trigger_point <= template.end {
+                // a statement whose name has not been seen yet is nowhere
+                let seen = template.identifier_type == IdentifierType::JinjaTemplate;
+                if seen && trigger_point >= template.start && trigger_point <= template.end {
                     Some(template)
                 } else {
                     None
-- 
2.43.0


From 7c5f275abdbcf7a699e4d523aa6d04d7d781eb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:47 +0000
Subject: [PATCH 28/47] fix: take only what context! holds for variables of a
 template

Identifiers in any macro call (println!, vec!, ...) were taken for variables that
templates know.
---
 jinja-lsp-queries/src/search/queries.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index 0684077..0c4dbf7 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -85,13 +85,14 @@ const OBJECTS: &str = r#"
 pub static RUST_DEFINITIONS: &str = r#"
 ([
 	(macro_invocation
-    	(identifier) @context
+    	macro: [
+        	(identifier) @context
+            (scoped_identifier name: (identifier) @context)
+        ]
+        (token_tree
+        	(identifier) @key_id
+        )
         (#eq? @context "context")
-    ) @macro
-    
-    (token_tree
-    	(identifier) @key_id
-        (#not-eq? @key_id "context")
     )
     
     (
-- 
2.43.0


From 1da67a00347649146b2905a5ebf2f06009e9e4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:49 +0000
Subject: [PATCH 29/47] fix: do not take the names of templates in sources for
 variables

---
 jinja-lsp/src/lsp_files.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 50a1e93..fc9d29d 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -444,7 +444,9 @@ impl LspFiles {
                             continue;
                         }
                         let variables = file.1.iter().filter(|item| {
-                            item.name.split('.').next().unwrap_or(&item.name) == current_ident
+                            item.identifier_type != IdentifierType::JinjaTemplate
+                                && item.name.split('.').next().unwrap_or(&item.name)
+                                    == current_ident
                         });
                         for variable in variables {
                             let uri = {
@@ -872,10 +874,10 @@ impl LspFiles {
             if file.0 == &uri.to_string() {
                 continue;
             }
-            let variables = file
-                .1
-                .iter()
-                .filter(|item| item.name.split('.').next().unwrap_or(&item.name) == hover.name);
+            let variables = file.1.iter().filter(|item| {
+                item.identifier_type != IdentifierType::JinjaTemplate
+                    && item.name.split('.').next().unwrap_or(&item.name) == hover.name
+            });
             if variables.count() > 0 {
                 return Some(IdentifierType::BackendVariable);
             }
-- 
2.43.0


From 5f1f05b01eb461288a5f5950553bd0a6497c250b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:21 +0000
Subject: [PATCH 30/47] fix: do not overflow when completing at the last
 possible column

---
 jinja-lsp/src/lsp_files.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index fc9d29d..5b956d4 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -285,7 +285,7 @@ impl LspFiles {
                 if snippets.to_complete(point).is_some() {
                     let start = to_position2(point);
                     let mut end = to_position2(point);
-                    end.character += 1;
+                    end.character = end.character.saturating_add(1);
                     let range = Range::new(start, end);
                     return Some((CompletionType::Snippets { range }, false));
                 }
-- 
2.43.0


From 42c66732069be846177462f82c7d713b2308705a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:57 +0000
Subject: [PATCH 31/47] fix: know a broken document that is opened as well as
 one that is saved

Whether a document with an error got diagnostics depended on whether it had been
opened without one before.
---
 jinja-lsp/src/lsp_files.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 5b956d4..43fcb29 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -329,10 +329,9 @@ impl LspFiles {
         }
     }
 
-    fn delete_variables(&mut self, uri: &str) -> Option<()> {
-        self.variables.get_mut(uri)?.clear();
-        self.variables.get_mut(uri)?.clear();
-        Some(())
+    fn delete_variables(&mut self, uri: &str) {
+        // a document without variables is still known
+        self.variables.insert(uri.to_owned(), vec![]);
     }
 
     pub fn hover(&self, params: HoverParams) -> Option<(Identifier, CompletionType)> {
-- 
2.43.0


From c705ea0bfd36635075de744810d45a132a62453f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:08 +0000
Subject: [PATCH 32/47] Hook for the verification harness, behind --cfg vsr

---
 jinja-lsp/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/jinja-lsp/src/lib.rs b/jinja-lsp/src/lib.rs
index b830c30..29ee338 100644
--- a/jinja-lsp/src/lib.rs
+++ b/jinja-lsp/src/lib.rs
@@ -1,6 +1,16 @@
+// `vsr` is set by the verification harness only
+#![allow(unexpected_cfgs)]
+
 mod backend;
 pub mod channels;
 mod config;
 pub mod filter;
 pub mod lsp_files;
 pub mod template_tests;
+
+/// What the verification harness needs of the private modules.
+#[cfg(vsr)]
+pub mod hooks {
+    pub use crate::backend::Backend;
+    pub use crate::config::{search_config, walkdir, JinjaConfig};
+}
-- 
2.43.0


From ac13d83e546e11f18f8c39dd0aebe7e0bb23c0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:51 +0000
Subject: [PATCH 33/47] fix: offer tests after 'is' in an expression, not after
 it

---
 jinja-lsp-queries/src/search/objects.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index f71d766..8d11fa4 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -168,6 +168,9 @@ impl JinjaObjects {
         if self.in_pipe(trigger_point) {
             return Some((CompletionType::Filter, autoclose));
         } else if self.in_expr(trigger_point) {
+            if self.is_test(trigger_point) && self.test.0 >= self.expr.0 {
+                return Some((CompletionType::Test, false));
+            }
             if trigger_point == self.expr.2.begin.1 && trigger_point == self.expr.2.end.0 {
                 return Some((CompletionType::Identifier, autoclose));
             }
@@ -247,7 +250,12 @@ impl JinjaObjects {
     }
 
     pub fn is_test(&self, trigger_point: Point) -> bool {
-        self.test.2 && trigger_point >= self.test.1 && trigger_point.row == self.test.1.row
+        // `{{ a is }}` does not wait for its test after the expression
+        let past_expr = self.test.1 < self.expr.1 && trigger_point >= self.expr.1;
+        self.test.2
+            && !past_expr
+            && trigger_point >= self.test.1
+            && trigger_point.row == self.test.1.row
     }
 }
 
-- 
2.43.0


From 7edf5fdae377bbe9940316941ad9e735e5cb3b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:00 +0000
Subject: [PATCH 34/47] fix: encode file names in uris

Files were registered under, and locations and new files given as, uris
with the plain path in them. A client encodes spaces and other characters,
so a template below a directory with a space was known twice, and names
with '%', '#' or '?' led elsewhere.
---
 jinja-lsp/src/lsp_files.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 43fcb29..cbc00c7 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -66,10 +66,9 @@ pub struct LspFiles {
 impl LspFiles {
     pub fn read_file(&mut self, path: &&Path, lang_type: LangType) -> Option<()> {
         if let Ok(name) = std::fs::canonicalize(path) {
-            let name = name.to_str()?;
-            let file_content = read_to_string(name).ok()?;
+            let file_content = read_to_string(&name).ok()?;
             let rope = Rope::from_str(&file_content);
-            let name = format!("file://{}", name);
+            let name = Url::from_file_path(name).ok()?.to_string();
             let adding = name.clone();
             self.documents.insert(name.to_string(), rope);
             self.add_tree(&name, lang_type, &file_content);
@@ -429,8 +428,7 @@ impl LspFiles {
                     let buffer = std::fs::canonicalize(path)
                         .ok()
                         .filter(|file| file.is_file())?;
-                    let url = format!("file://{}", buffer.to_str()?);
-                    let url = Url::parse(&url).ok()?;
+                    let url = Url::from_file_path(buffer).ok()?;
                     let range = Range::new(Position::default(), Position::default());
                     let location = Location::new(url, range);
                     res = Some(GotoDefinitionResponse::Scalar(location));
@@ -480,8 +478,7 @@ impl LspFiles {
                 let buffer = std::fs::canonicalize(path)
                     .ok()
                     .filter(|file| file.is_file())?;
-                let url = format!("file://{}", buffer.to_str()?);
-                let url = Url::parse(&url).ok()?;
+                let url = Url::from_file_path(buffer).ok()?;
                 let range = Range::new(Position::default(), Position::default());
                 let location = Location::new(url, range);
                 Some(GotoDefinitionResponse::Scalar(location))
@@ -557,9 +554,10 @@ impl LspFiles {
                 let templates = self.config.templates.to_owned();
                 if let Ok(mut path) = std::fs::canonicalize(templates) {
                     path.push(path_items(&template));
-                    let name = format!("file://{}", path.to_str().unwrap());
+                    let uri = Url::from_file_path(path).ok()?;
                     let cf = CreateFile {
-                        uri: Url::parse(&name).unwrap(),
+                        // parsed once more to resolve `..`
+                        uri: Url::parse(uri.as_str()).ok()?,
                         options: Some(CreateFileOptions {
                             overwrite: Some(false),
                             ignore_if_exists: Some(true),
@@ -716,14 +714,17 @@ impl LspFiles {
     ) -> Option<Vec<CompletionItem>> {
         let all_templates = self.trees.get(&LangType::Template)?;
         let root = std::fs::canonicalize(&self.config.templates).ok()?;
-        let root = format!("file://{}/", root.to_str()?);
         let templates = all_templates
             .keys()
-            .filter_map(|template| template.strip_prefix(&root))
+            .filter_map(|template| {
+                let path = Url::parse(template).ok()?.to_file_path().ok()?;
+                let template = path.strip_prefix(&root).ok()?.to_str()?;
+                Some(template.to_string())
+            })
             .filter(|template| template.contains(&prefix));
         let mut abc = vec![];
         for template in templates {
-            let label = template.to_string();
+            let label = template;
             let new_text = format!("\"{label}\"");
             let mut additional_text_edits = None;
             let text_edit = {
-- 
2.43.0


From 8ceafea032ba9994dde652be1ee51e2a503e03ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:26 +0000
Subject: [PATCH 35/47] fix: withdraw the diagnostics of files that are no
 longer read

After a configuration change, or after a file was removed, what had been
reported for templates that are no longer part of the workspace stayed.
---
 jinja-lsp/src/channels/lsp.rs | 6 +++++-
 jinja-lsp/src/lsp_files.rs    | 8 ++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index 55ba3e3..180873e 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -127,7 +127,11 @@ pub fn lsp_task(
                             .await;
                     } else {
                         match walkdir(&config) {
-                            Ok(errors) => {
+                            Ok(mut errors) => {
+                                // what was reported for a file that is no longer read is outdated
+                                for template in lsp_data.templates() {
+                                    errors.0.entry(template.to_string()).or_default();
+                                }
                                 let _ =
                                     diagnostics_channel.send(DiagnosticMessage::Errors(errors.0));
                                 let vscode = lsp_data.is_vscode;
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index cbc00c7..5a38d96 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -819,6 +819,14 @@ impl LspFiles {
         opened.collect()
     }
 
+    /// The templates that were read or opened
+    pub fn templates(&self) -> impl Iterator<Item = &String> {
+        self.trees
+            .get(&LangType::Template)
+            .into_iter()
+            .flat_map(|trees| trees.keys())
+    }
+
     pub fn read_objects(&self, uri: Url) -> Option<Vec<JinjaObject>> {
         let rope = self.documents.get(uri.as_str())?;
         let mut writter = FileContent::default();
-- 
2.43.0


From 27fce60e8ceda81069c474b748c4beafba3ab233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:39 +0000
Subject: [PATCH 36/47] fix: positions before an embedded template have no
 answer (Node API)

The subtraction of the template's first line underflowed.
---
 jinja-lsp-nodejs/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jinja-lsp-nodejs/src/lib.rs b/jinja-lsp-nodejs/src/lib.rs
index 3436232..5af92c7 100644
--- a/jinja-lsp-nodejs/src/lib.rs
+++ b/jinja-lsp-nodejs/src/lib.rs
@@ -260,7 +260,7 @@ impl NodejsLspFiles {
     line: u32,
     mut position: JsPosition,
   ) -> Option<JsHover> {
-    position.line -= line;
+    position.line = position.line.checked_sub(line)?;
     let uri = Url::parse(&format!("file:///home/{filename}.{id}.jinja")).unwrap();
     let params: HoverParams = HoverParams {
       text_document_position_params: TextDocumentPositionParams::new(
@@ -343,7 +343,7 @@ impl NodejsLspFiles {
     line: u32,
     mut position: JsPosition,
   ) -> Option<Vec<JsCompletionItem>> {
-    position.line -= line;
+    position.line = position.line.checked_sub(line)?;
     let original_uri = filename.to_string();
     let uri = Url::parse(&format!("file:///home/{filename}.{id}.jinja")).unwrap();
     let position = Position::new(position.line, position.character);
@@ -474,7 +474,7 @@ impl NodejsLspFiles {
     line: u32,
     mut position: JsPosition,
   ) -> Option<Vec<JsLocation>> {
-    position.line -= line;
+    position.line = position.line.checked_sub(line)?;
     let uri = Url::parse(&format!("file:///home/{filename}.{id}.jinja")).unwrap();
     let params: GotoDefinitionParams = GotoDefinitionParams {
       text_document_position_params: TextDocumentPositionParams::new(
-- 
2.43.0


From 852adcd241a39c6019e622c93aafe3c8dd2bfc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:39 +0000
Subject: [PATCH 37/47] fix: handle file names that are no uris, or part of
 another (Node API)

goto_definition panicked on a file name that is not a uri, and found
nothing if its uri is encoded. delete_all kept such files, and deleted
others whose name only begins with the given one.
---
 jinja-lsp-nodejs/src/lib.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/jinja-lsp-nodejs/src/lib.rs b/jinja-lsp-nodejs/src/lib.rs
index 5af92c7..93becde 100644
--- a/jinja-lsp-nodejs/src/lib.rs
+++ b/jinja-lsp-nodejs/src/lib.rs
@@ -124,7 +124,10 @@ impl NodejsLspFiles {
 
   #[napi]
   pub fn delete_all(&mut self, filename: String) {
-    self.lsp_files.delete_documents_with_id(filename);
+    let documents = Url::parse(&format!("file:///home/{filename}.")).unwrap();
+    self
+      .lsp_files
+      .delete_documents_with_id(documents.to_string());
     self.counter = 0;
     // self.lsp_files.main_channel
   }
@@ -492,12 +495,12 @@ impl NodejsLspFiles {
     let mut definitions = vec![];
     match defintion {
       GotoDefinitionResponse::Scalar(mut location) => {
-        let uri2 = location.uri.to_string();
-        if uri2.contains(&filename) {
-          location.uri = Url::parse(&filename).unwrap();
+        if location.uri == uri {
           location.range.start.line += line;
           location.range.end.line += line;
-          definitions.push(JsLocation::from(&location));
+          let mut js_location = JsLocation::from(&location);
+          js_location.uri = filename;
+          definitions.push(js_location);
         }
       }
       GotoDefinitionResponse::Array(locations) => {
-- 
2.43.0


From 4282e55ed6d5c76661893e6f9beacbbf00ff8e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:43 +0000
Subject: [PATCH 38/47] fix: go to the definition of a hinted name without
 failing (Node API)

Hints are kept under a name that is no uri, which was unwrapped.
---
 jinja-lsp/src/lsp_files.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 5a38d96..95c16bb 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -450,11 +450,14 @@ impl LspFiles {
                                 if variable.start == Point::new(0, 0)
                                     && variable.end == Point::new(0, 0)
                                 {
-                                    Url::parse(&format!("{}-{}", &file.0, &variable.name)).unwrap()
+                                    Url::parse(&format!("{}-{}", &file.0, &variable.name))
                                 } else {
-                                    Url::parse(file.0).unwrap()
+                                    Url::parse(file.0)
                                 }
                             };
+                            let Ok(uri) = uri else {
+                                continue;
+                            };
                             let start = to_position2(variable.start);
                             let end = to_position2(variable.end);
                             let range = Range::new(start, end);
-- 
2.43.0


From 8f11ed2a10e98cd04a267cc6699743dd5506b337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:32 +0000
Subject: [PATCH 39/47] fix: keep quotes that belong to a template name in
 sources

---
 jinja-lsp-queries/src/search/rust_template_completion.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/rust_template_completion.rs b/jinja-lsp-queries/src/search/rust_template_completion.rs
index ca42323..bdf0882 100644
--- a/jinja-lsp-queries/src/search/rust_template_completion.rs
+++ b/jinja-lsp-queries/src/search/rust_template_completion.rs
@@ -21,7 +21,9 @@ impl BackendTemplates {
     pub fn check(&mut self, name: &str, capture: &QueryCapture<'_>, text: &str) -> Option<()> {
         if name == "template_name" && self.in_method {
             let template = capture.node.utf8_text(text.as_bytes()).ok()?;
-            let template = template.replace(['\"', '\''], "");
+            // the other kind of quotes belongs to the name
+            let quote = template.chars().find(|c| matches!(c, '"' | '\''));
+            let template = template.replace(quote.unwrap_or('"'), "");
             let start = capture.node.start_position();
             let end = capture.node.end_position();
             let mut identifer = Identifier::new(&template, start, end);
-- 
2.43.0


From 199a5643cbb3ed9ef2f16838284479e72d5f71ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:25 +0000
Subject: [PATCH 40/47] fix: accept the whole name in VS Code

---
 jinja-lsp/src/lsp_files.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 95c16bb..4a5a039 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -656,7 +656,7 @@ impl LspFiles {
                         let mut edits = vec;
                         edits.push(TextEdit {
                             range: incomplete_range,
-                            new_text: start_item.to_string(),
+                            new_text: identifier.name.to_string(),
                         });
                         additional_text_edits = Some(edits);
                         CompletionTextEdit::Edit(TextEdit {
-- 
2.43.0


From 6c04168ffd15000b9f2f94d9e9cb2a6937603fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:42 +0000
Subject: [PATCH 41/47] fix: do not take the modifier of a recursive loop for a
 variable

---
 jinja-lsp-queries/src/search/objects.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 8d11fa4..66e78d0 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -266,14 +266,27 @@ fn is_filter_block(node: Node, source: &str) -> bool {
     })
 }
 
-/// `{% include "a" ignore missing with context %}`
+/// `{% include "a" ignore missing with context %}`, `{% for a in b recursive %}`
 fn is_modifier(node: Node, source: &str) -> bool {
     let text = |node: Node| node.utf8_text(source.as_bytes()).unwrap_or_default();
-    matches!(text(node), "ignore" | "missing" | "context" | "without")
-        && node
-            .parent()
-            .and_then(|parent| parent.child(1))
-            .is_some_and(|first| matches!(text(first), "include" | "import" | "from"))
+    let statement = node.parent().and_then(|parent| parent.child(1)).map(text);
+    match text(node) {
+        "ignore" | "missing" | "context" | "without" => {
+            matches!(statement, Some("include" | "import" | "from"))
+        }
+        "recursive" => {
+            let is_last = node
+                .next_sibling()
+                .is_some_and(|next| next.kind() == "statement_end");
+            let is_operand = node.prev_sibling().is_some_and(|prev| match prev.kind() {
+                "keyword" => true,
+                "operator" => !text(prev).trim_end().ends_with([')', ']']),
+                _ => text(prev) == "not",
+            });
+            statement == Some("for") && is_last && !is_operand
+        }
+        _ => false,
+    }
 }
 
 pub fn objects_query(
-- 
2.43.0


From ab002362fc73e9da5280bd957102042332e862e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:42 +0000
Subject: [PATCH 42/47] fix: do not take the modifiers and the closing name of
 a block for variables

---
 jinja-lsp-queries/src/search/objects.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 66e78d0..72d6389 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -266,14 +266,24 @@ fn is_filter_block(node: Node, source: &str) -> bool {
     })
 }
 
-/// `{% include "a" ignore missing with context %}`, `{% for a in b recursive %}`
+/// `{% include "a" ignore missing with context %}`, `{% for a in b recursive %}`, `{% endblock a %}`
 fn is_modifier(node: Node, source: &str) -> bool {
     let text = |node: Node| node.utf8_text(source.as_bytes()).unwrap_or_default();
     let statement = node.parent().and_then(|parent| parent.child(1)).map(text);
+    if statement == Some("endblock") {
+        return true;
+    }
     match text(node) {
         "ignore" | "missing" | "context" | "without" => {
             matches!(statement, Some("include" | "import" | "from"))
         }
+        // the first identifier is the name of the block
+        "scoped" | "required" => {
+            let is_name = node
+                .prev_sibling()
+                .is_some_and(|prev| prev.kind() == "keyword");
+            statement == Some("block") && !is_name
+        }
         "recursive" => {
             let is_last = node
                 .next_sibling()
-- 
2.43.0


From 8b459c4115cbce1ce2d0ce5b3ad18e937c726c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:42 +0000
Subject: [PATCH 43/47] fix: define the parameters of a call block

---
 jinja-lsp-queries/src/search/definition.rs | 27 +++++++++++++++++++++-
 jinja-lsp-queries/src/search/queries.rs    |  4 ++--
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index 15c130a..71da6b2 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -21,6 +21,9 @@ pub enum Definition {
         keys: Vec<Identifier>,
         scope: usize,
     },
+    Call {
+        keys: Vec<Identifier>,
+    },
     Block {
         name: Identifier,
     },
@@ -59,6 +62,12 @@ impl Definition {
                     ids.push(key.1);
                 }
             }
+            Definition::Call { keys } => {
+                for mut key in keys {
+                    key.identifier_type = IdentifierType::MacroParameter;
+                    ids.push(key);
+                }
+            }
             Definition::Block { mut name, .. } => {
                 name.identifier_type = IdentifierType::TemplateBlock;
                 ids.push(name);
@@ -83,6 +92,7 @@ impl From<&str> for Definition {
                 keys: vec![],
                 scope: 0,
             },
+            "call" => Self::Call { keys: vec![] },
             "block" => Self::Block {
                 name: Identifier::default(),
             },
@@ -281,6 +291,21 @@ impl JinjaDefinitions {
                                 keys.push(identifier);
                             }
                         }
+                        // `{% call(key, other) macro(argument) %}`
+                        Definition::Call { keys } => {
+                            let prev = capture.node.prev_sibling();
+                            let of_call = prev
+                                .and_then(|prev| prev.prev_sibling())
+                                .is_some_and(|prev| prev.kind() == "keyword");
+                            match operator(prev, text) {
+                                "(" if of_call => keys.push(identifier),
+                                "," if !keys.is_empty() => keys.push(identifier),
+                                prev if keys.is_empty() || prev.contains(')') => {
+                                    self.can_add_id = false;
+                                }
+                                _ => {}
+                            }
+                        }
                         Definition::Block { name } => {
                             if name.name.is_empty() {
                                 *name = identifier;
@@ -354,7 +379,7 @@ impl JinjaDefinitions {
                     let scope = scope.unwrap_or(&global_scope);
                     key.scope_ends.1 = scope.end;
                 }
-                Definition::With { keys } => {
+                Definition::With { keys } | Definition::Call { keys } => {
                     for key in keys {
                         let scope = self
                             .all_scopes
diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index 0c4dbf7..2a16174 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -208,7 +208,7 @@ const DEFINITIONS: &str = r#"
 )
     (
     	(keyword) @definition
-        (#match? @definition "^(for|set|with|macro|block)$")
+        (#match? @definition "^(for|set|with|macro|call|block)$")
     )
     
     (
@@ -218,7 +218,7 @@ const DEFINITIONS: &str = r#"
 
     (
         (keyword) @endblock
-        (#match? @endblock "^end(for|with|macro|block|if|filter|autoescape|raw)$")
+        (#match? @endblock "^end(for|with|macro|call|block|if|filter|autoescape|raw)$")
     )
 
 (
-- 
2.43.0


From a9728705f885b7496c6b5a63bc95865b1a0263b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:17 +0000
Subject: [PATCH 44/47] fix: take what stands in raw for text

---
 jinja-lsp-queries/src/search/definition.rs |  7 ++++++-
 jinja-lsp-queries/src/search/mod.rs        | 23 +++++++++++++++++++++-
 jinja-lsp-queries/src/search/objects.rs    |  9 ++++++++-
 jinja-lsp-queries/src/search/templates.rs  |  7 ++++++-
 4 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index 71da6b2..c2be7a9 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -2,7 +2,7 @@ use std::collections::{HashSet, LinkedList};
 
 use tree_sitter::{Node, Point, Query, QueryCapture, QueryCursor, Tree};
 
-use super::{Identifier, IdentifierType};
+use super::{raw_ranges, Identifier, IdentifierType};
 
 #[derive(Debug, Clone)]
 pub enum Definition {
@@ -447,11 +447,16 @@ pub fn definition_query(
     let mut definitions = JinjaDefinitions::default();
     let mut cursor_qry = QueryCursor::new();
     let capture_names = query.capture_names();
+    let raw = raw_ranges(tree, text);
     let matches = cursor_qry.matches(query, closest_node, text.as_bytes());
     let captures = matches.into_iter().flat_map(|m| {
         m.captures
             .iter()
             .filter(|capture| all || capture.node.start_position() <= trigger_point)
+            .filter(|capture| {
+                !raw.iter()
+                    .any(|raw| raw.contains(&capture.node.start_byte()))
+            })
     });
     for capture in captures {
         let name = &capture_names[capture.index as usize];
diff --git a/jinja-lsp-queries/src/search/mod.rs b/jinja-lsp-queries/src/search/mod.rs
index 67e8680..886bfe7 100644
--- a/jinja-lsp-queries/src/search/mod.rs
+++ b/jinja-lsp-queries/src/search/mod.rs
@@ -1,5 +1,5 @@
 use tower_lsp::lsp_types::{CompletionItemKind, Position, Range, SymbolKind};
-use tree_sitter::Point;
+use tree_sitter::{Point, Tree};
 
 use self::objects::JinjaObject;
 
@@ -88,6 +88,27 @@ pub fn template_start(trigger_point: Point, identifier: &Identifier) -> &str {
     identifier.name.get(..typed).unwrap_or(&identifier.name)
 }
 
+/// Bytes between `{% raw %}` and `{% endraw %}`, where nothing has a meaning
+pub fn raw_ranges(tree: &Tree, text: &str) -> Vec<std::ops::Range<usize>> {
+    let mut ranges = vec![];
+    let mut start = None;
+    for node in tree.root_node().children(&mut tree.walk()) {
+        let keyword = node
+            .child(1)
+            .filter(|keyword| keyword.kind() == "keyword")
+            .and_then(|keyword| keyword.utf8_text(text.as_bytes()).ok());
+        match (start, keyword) {
+            (None, Some("raw")) => start = Some(node.end_byte()),
+            (Some(begin), Some("endraw")) => {
+                ranges.push(begin..node.start_byte());
+                start = None;
+            }
+            _ => {}
+        }
+    }
+    ranges
+}
+
 pub fn to_range(points: (Point, Point)) -> Range {
     let start = Position::new(points.0.row as u32, points.0.column as u32);
     let end = Position::new(points.1.row as u32, points.1.column as u32);
diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 72d6389..78c8de3 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -1,7 +1,7 @@
 use tower_lsp::lsp_types::Range;
 use tree_sitter::{Node, Point, Query, QueryCapture, QueryCursor, Tree};
 
-use super::{completion_start, to_range, to_range2, Identifier};
+use super::{completion_start, raw_ranges, to_range, to_range2, Identifier};
 
 #[derive(Default, Debug, Clone)]
 pub struct JinjaObject {
@@ -317,9 +317,16 @@ pub fn objects_query(
         Point::default(),
         ExpressionRange::default(),
     );
+    let raw = raw_ranges(tree, text);
     let matches = cursor_qry.matches(query, closest_node, text.as_bytes());
     'loop1: for m in matches {
         for capture in m.captures {
+            if raw
+                .iter()
+                .any(|raw| raw.contains(&capture.node.start_byte()))
+            {
+                continue;
+            }
             let smaller = trigger_point <= capture.node.start_position();
             if all || trigger_point >= capture.node.start_position() {
                 let name = &capture_names[capture.index as usize];
diff --git a/jinja-lsp-queries/src/search/templates.rs b/jinja-lsp-queries/src/search/templates.rs
index c1f2bc3..b9363c3 100644
--- a/jinja-lsp-queries/src/search/templates.rs
+++ b/jinja-lsp-queries/src/search/templates.rs
@@ -2,7 +2,7 @@ use std::collections::HashMap;
 
 use tree_sitter::{Point, Query, QueryCapture, QueryCursor, Tree};
 
-use super::{Identifier, IdentifierType};
+use super::{raw_ranges, Identifier, IdentifierType};
 
 #[derive(Debug)]
 pub enum Import {
@@ -236,11 +236,16 @@ pub fn templates_query(
     let mut imports = JinjaImports::default();
     let mut cursor_qry = QueryCursor::new();
     let capture_names = query.capture_names();
+    let raw = raw_ranges(tree, text);
     let matches = cursor_qry.matches(query, closest_node, text.as_bytes());
     let captures = matches.into_iter().flat_map(|m| {
         m.captures
             .iter()
             .filter(|capture| all || capture.node.start_position() <= trigger_point)
+            .filter(|capture| {
+                !raw.iter()
+                    .any(|raw| raw.contains(&capture.node.start_byte()))
+            })
     });
     for capture in captures {
         let name = &capture_names[capture.index as usize];
-- 
2.43.0


From 86ed394684813442e6664568b2094773123db6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:44 +0000
Subject: [PATCH 45/47] fix: know what Python hands to render of any template

Only calls on a plain name were seen, not env.get_template("x.html").render(a=1).
---
 jinja-lsp-queries/src/search/queries.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index 2a16174..373a8a2 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -273,7 +273,7 @@ pub static PYTHON_DEFINITIONS: &str = r#"
       
       (call
         function: (attribute
-          object: (identifier)
+          object: (_)
           attribute: (identifier) @method
         ) 
         arguments: (argument_list
-- 
2.43.0


From 5b486557b95e75aef27bacc1d96fe5136d0ec940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:44 +0000
Subject: [PATCH 46/47] fix: know only what add_global, add_filter and
 add_function add

Any method whose name contains one of these was taken for it.
---
 jinja-lsp-queries/src/search/queries.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index 373a8a2..bd26748 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -105,7 +105,7 @@ pub static RUST_DEFINITIONS: &str = r#"
         )
     
         (#eq? @jinja "jinja")
-        (#match? @method "(add_global|add_filter|add_function)")
+        (#match? @method "^(add_global|add_filter|add_function)$")
     
     ) @function
 
-- 
2.43.0


From e24d96c6290a47319ee2e45315d558004827214c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:44 +0000
Subject: [PATCH 47/47] fix: read the names of templates in Python strings with
 a prefix

r"a.html" was looked for under the name ra.html, and an f-string whose value is
known only when the program runs was reported as missing.
---
 .../src/search/rust_template_completion.rs         | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/jinja-lsp-queries/src/search/rust_template_completion.rs b/jinja-lsp-queries/src/search/rust_template_completion.rs
index bdf0882..34eebf3 100644
--- a/jinja-lsp-queries/src/search/rust_template_completion.rs
+++ b/jinja-lsp-queries/src/search/rust_template_completion.rs
@@ -20,16 +20,24 @@ impl BackendTemplates {
 
     pub fn check(&mut self, name: &str, capture: &QueryCapture<'_>, text: &str) -> Option<()> {
         if name == "template_name" && self.in_method {
+            self.in_method = false;
+            let mut cursor = capture.node.walk();
+            let mut parts = capture.node.named_children(&mut cursor);
+            if parts.any(|part| part.kind() == "interpolation") {
+                // known only when the program runs
+                return None;
+            }
             let template = capture.node.utf8_text(text.as_bytes()).ok()?;
+            // what stands before the quotes of a Python string does not belong to the name
+            let template = template.trim_start_matches(|c| !matches!(c, '"' | '\''));
             // the other kind of quotes belongs to the name
-            let quote = template.chars().find(|c| matches!(c, '"' | '\''));
-            let template = template.replace(quote.unwrap_or('"'), "");
+            let quote = template.chars().next().unwrap_or('"');
+            let template = template.replace(quote, "");
             let start = capture.node.start_position();
             let end = capture.node.end_position();
             let mut identifer = Identifier::new(&template, start, end);
             identifer.identifier_type = IdentifierType::JinjaTemplate;
             self.templates.push(identifer);
-            self.in_method = false;
         } else if name == "method_name" {
             let content = capture.node.utf8_text(text.as_bytes()).ok()?;
             if !METHODS.contains(&content) {
-- 
2.43.0

