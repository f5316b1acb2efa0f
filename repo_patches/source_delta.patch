From bccbe64b0e9daed84254afbb18dd3b0ba38f5b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:38 +0000
Subject: [PATCH 01/10] fix: end the search for a matching indentation level

An outdent to a column between two enclosing indentation levels made
bol_indentation_tokens loop forever instead of reporting the error.
---
 src/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index e6ef974..14cb234 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -354,7 +354,8 @@ where
                             self.indentation.pop();
                             self.add_token(TokenType::Outdent);
                         }
-                        Ordering::Less => {}
+                        // No enclosing level has this indentation.
+                        Ordering::Less => break,
                     }
                 }
                 if !found && self.bol_spaces > 0 {
-- 
2.43.0


From 9756e682be879761a26a71a8309c69f2dee163e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:38 +0000
Subject: [PATCH 02/10] fix: leave the REPL at end of input

read_line returns Ok(0) at end of file, and the REPL kept reading and
printing empty results forever.
---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 6f513dd..b690d56 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -58,6 +58,8 @@ fn run_repl() {
 
         let mut input = String::new();
         match stdin.lock().read_line(&mut input) {
+            // End of input.
+            Ok(0) => break,
             Ok(_) => {
                 let result = run(&mut resolver, input, true);
                 print_result(&result, true);
-- 
2.43.0


From 335923b8f2e06c14dc73683f0a91c87286d18b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:38 +0000
Subject: [PATCH 03/10] fix: forget the names of code that failed to resolve

A rejected REPL entry such as `var x = this` left x declared but not
defined, so every later use of x was rejected. Names mentioned by rejected
entries also kept their slots.
---
 src/resolver.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/resolver.rs b/src/resolver.rs
index 1cef972..a4d09f6 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -83,6 +83,9 @@ impl Resolver {
         &mut self,
         mut statements: Vec<Stmt>,
     ) -> Result<ResolvedCode, ParseError> {
+        // If anything is wrong, the caller doesn't get any of the code, so none
+        // of its names may stay behind.
+        let saved_scopes = self.scopes.clone();
         let mut errors = Vec::new();
         for statement in statements.iter_mut() {
             let result = self.resolve_statement(statement);
@@ -94,6 +97,8 @@ impl Resolver {
         if errors.is_empty() {
             Ok(ResolvedCode::new(statements))
         } else {
+            self.scopes = saved_scopes;
+
             Err(ParseError::new(errors))
         }
     }
-- 
2.43.0


From 4b6d6ce28100ee62f5f2b6d92377ef43bffb2a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:02 +0000
Subject: [PATCH 04/10] fix: reject the 256th variable of a scope

Slot indexes are u8, but the limit checked was that of scope distances, so
the 257th variable silently shared the slot of the first.
---
 src/environment.rs |  3 +++
 src/resolver.rs    | 12 ++++++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/environment.rs b/src/environment.rs
index 2594867..f46bd28 100644
--- a/src/environment.rs
+++ b/src/environment.rs
@@ -4,6 +4,9 @@ use serde;
 pub const VAR_LOC_MAX_DISTANCE: u16 = u16::MAX;
 pub const VAR_LOC_MAX_DISTANCE_USIZE: usize = VAR_LOC_MAX_DISTANCE as usize;
 
+// A slot index is a u8, and its largest value is the placeholder.
+pub const MAX_SLOTS_IN_SCOPE: usize = u8::MAX as usize;
+
 // When you declare a variable, you need to know where in the scope it is stored
 // in memory.  We currently use a slot index since a scope is implemented with
 // an environment, which has a vector of slots.  You cannot currently declare
diff --git a/src/resolver.rs b/src/resolver.rs
index a4d09f6..3852de5 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -542,7 +542,9 @@ impl Resolver {
             slot_index,
             defined_state: DeclaredVar,
         };
-        ensure_scope_index_limit(scope.len(), identifier, loc)?;
+        if !scope.contains_key(identifier) {
+            ensure_scope_index_limit(scope.len(), identifier, loc)?;
+        }
 
         let mut already_declared = false;
         scope
@@ -590,7 +592,9 @@ impl Resolver {
             slot_index: scope.len(),
             defined_state: DefinedVar,
         };
-        ensure_scope_index_limit(scope.len(), identifier, loc)?;
+        if !scope.contains_key(identifier) {
+            ensure_scope_index_limit(scope.len(), identifier, loc)?;
+        }
         let mut already_defined = false;
         scope
             .entry(identifier.to_owned())
@@ -620,11 +624,11 @@ impl Default for Resolver {
 
 // The 256th local should fail.
 fn ensure_scope_index_limit(
-    new_scope_len: usize,
+    scope_len: usize,
     identifier: &str,
     loc: &SourceLoc,
 ) -> Result<(), ParseErrorCause> {
-    if new_scope_len > VAR_LOC_MAX_DISTANCE_USIZE {
+    if scope_len >= MAX_SLOTS_IN_SCOPE {
         Err(ParseErrorCause::new_with_location(
             *loc,
             identifier,
-- 
2.43.0


From bb737f37afd404a7886c7f92ef6e6215c1d439f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:02 +0000
Subject: [PATCH 05/10] fix: end lines at CRLF too

CRLF is one grapheme cluster, so it matched neither the carriage return nor
the newline: every line ending in CRLF was rejected, and comments went on
until the next bare newline.
---
 src/scanner.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 14cb234..cf2d626 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -243,7 +243,7 @@ where
                         // Optional carriage return.
                         self.matches("\r");
 
-                        if self.matches("\n") {
+                        if self.matches("\n") || self.matches("\r\n") {
                             self.reset_line();
                             self.is_line_continuation = true;
                         } else {
@@ -267,7 +267,8 @@ where
                         // Ignore this character for the most part.
                         is_whitespace = true;
                     }
-                    "\n" => {
+                    // Note: CRLF is a single grapheme cluster.
+                    "\n" | "\r\n" => {
                         is_whitespace = true;
                         let continue_line = self.following_line_continuation;
                         if !self.is_bol
@@ -444,7 +445,7 @@ where
             match self.grapheme_indices.peek() {
                 None => break,
                 Some((_, grapheme_cluster)) => {
-                    if *grapheme_cluster == "\n" {
+                    if matches!(*grapheme_cluster, "\n" | "\r\n") {
                         // Keep the newline next.
                         break;
                     }
@@ -462,7 +463,7 @@ where
             match self.grapheme_indices.peek() {
                 None => (),
                 Some((_, grapheme_cluster)) => {
-                    if *grapheme_cluster == "\n" {
+                    if matches!(*grapheme_cluster, "\n" | "\r\n") {
                         self.line = self.line.saturating_add(1);
                         self.column = 0;
                     }
-- 
2.43.0


From 850242885daaa1d9c18e89fbc65d36c2cd252359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:02 +0000
Subject: [PATCH 06/10] fix: show the initial text when the module loads before
 the document

If init() finished before DOMContentLoaded, nothing was displayed until the
first edit.
---
 index.html | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index.html b/index.html
index 5cdee12..37b289e 100644
--- a/index.html
+++ b/index.html
@@ -170,6 +170,11 @@
 
         onChange(this);
       })
+
+      // The module was loaded first.
+      if (isLoaded) {
+        onChange(sourceEl);
+      }
     });
   </script>
 </head>
-- 
2.43.0


From e888030f9067ee0b21f163e60645d965699c015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:02 +0000
Subject: [PATCH 07/10] fix: display booleans in the tree

pretty() took them for empty objects, so true and false looked the same.
---
 index.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.html b/index.html
index 37b289e..cb14254 100644
--- a/index.html
+++ b/index.html
@@ -99,7 +99,7 @@
         parts.push('null');
       } else if (obj === undefined) {
         parts.push('undefined');
-      } else if (typ === 'number') {
+      } else if (typ === 'number' || typ === 'boolean') {
         parts.push(obj.toString());
       } else if (typ === 'string') {
         parts.push(escapeString(obj));
-- 
2.43.0


From 8c6d22d0c42bafcf09bf2440830eb70984ede994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:02 +0000
Subject: [PATCH 08/10] fix: report a missing expression instead of
 underflowing

parse_expression("") subtracted with overflow in previous().
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 43f655f..e3f1034 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1140,7 +1140,7 @@ impl<'a> Parser<'a> {
     }
 
     fn previous(&self) -> Option<&Token<'a>> {
-        self.tokens.get(self.current - 1)
+        self.tokens.get(self.current.checked_sub(1)?)
     }
 
     fn previous_source_loc(&self) -> SourceLoc {
-- 
2.43.0


From 88e65c7f62f72e9ad748234c5cbd86381a4b1497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:47 +0000
Subject: [PATCH 09/10] fix: judge break and continue in a function by its own
 loops

---
 src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e3f1034..5d9244f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -227,7 +227,11 @@ impl<'a> Parser<'a> {
         let end_block = self.consume_begin_block(
             "Expect '{' or indent before function body.",
         )?;
-        let body = self.finish_block(end_block)?;
+        // The body is outside any loop around the function.
+        let enclosing_loops = std::mem::replace(&mut self.in_loops, 0);
+        let body = self.finish_block(end_block);
+        self.in_loops = enclosing_loops;
+        let body = body?;
 
         let fun_def = FunctionDefinition::new(
             parameters,
-- 
2.43.0


From 4f6fb7ebd8cd4907fdec35bf8655e8acf7e8604d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:49 +0000
Subject: [PATCH 10/10] fix: quote the operator in an error located at it

---
 src/resolver.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index 3852de5..74d1d3f 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -221,7 +221,13 @@ impl Resolver {
         match expression {
             Expr::Assign(identifier, dist_cell, expr, loc) => {
                 self.resolve_expression(expr)?;
-                let var_loc = self.resolve_local_variable(identifier, loc)?;
+                let var_loc = self
+                    .resolve_local_variable(identifier, loc)
+                    // The location is that of the operator.
+                    .map_err(|error| ParseErrorCause {
+                        token: Some("=".to_owned()),
+                        ..error
+                    })?;
                 dist_cell.set(var_loc);
 
                 Ok(())
-- 
2.43.0

