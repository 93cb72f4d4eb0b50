From 353791b89a354aa58ad6ae012b1fe52701a75674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:05 +0000
Subject: [PATCH 01/16] fix: do not loop forever when a line's indentation
 falls between two open blocks

---
 src/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index e6ef974..6b83fe7 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -354,7 +354,7 @@ where
                             self.indentation.pop();
                             self.add_token(TokenType::Outdent);
                         }
-                        Ordering::Less => {}
+                        Ordering::Less => break,
                     }
                 }
                 if !found && self.bol_spaces > 0 {
-- 
2.43.0


From 39b45dd02c6b1229631ae0acb121cd6429300840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:06 +0000
Subject: [PATCH 02/16] fix: accept an indented block as the body of else

---
 src/parser.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 43f655f..bce59b9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -399,18 +399,10 @@ impl<'a> Parser<'a> {
         let condition = self.expression()?;
         self.consume(TokenType::RightParen, "Expect ')' after if condition.")?;
 
-        let then_stmt = if self.check(TokenType::Terminator)
-            || self.check(TokenType::LeftBrace)
-        {
-            let end_block = self
-                .consume_begin_block("Expect '{' or indent before if body.")?;
-            self.finish_block(end_block).map(Stmt::Block)?
-        } else {
-            self.statement()?
-        };
+        let then_stmt = self.if_body_statement()?;
 
         let else_stmt = if self.match_token(TokenType::Else) {
-            Some(Box::new(self.statement()?))
+            Some(Box::new(self.if_body_statement()?))
         } else {
             None
         };
@@ -418,6 +410,20 @@ impl<'a> Parser<'a> {
         Ok(Stmt::If(condition, Box::new(then_stmt), else_stmt))
     }
 
+    // Parses the body of an if or else: a block, braced or indented, or a
+    // single statement.
+    fn if_body_statement(&mut self) -> Result<Stmt, ParseErrorCause> {
+        if self.check(TokenType::Terminator)
+            || self.check(TokenType::LeftBrace)
+        {
+            let end_block = self
+                .consume_begin_block("Expect '{' or indent before if body.")?;
+            self.finish_block(end_block).map(Stmt::Block)
+        } else {
+            self.statement()
+        }
+    }
+
     fn finish_block(
         &mut self,
         end_block: TokenType,
-- 
2.43.0


From 1e0199aba4cce92ab71e378bd3e43fe36cf2b0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:47 +0000
Subject: [PATCH 03/16] fix: treat CRLF, a single grapheme cluster, as a line
 end

---
 src/scanner.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 6b83fe7..d57e93c 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -243,7 +243,7 @@ where
                         // Optional carriage return.
                         self.matches("\r");
 
-                        if self.matches("\n") {
+                        if self.matches("\n") || self.matches("\r\n") {
                             self.reset_line();
                             self.is_line_continuation = true;
                         } else {
@@ -267,7 +267,8 @@ where
                         // Ignore this character for the most part.
                         is_whitespace = true;
                     }
-                    "\n" => {
+                    // Note: CRLF is a single grapheme cluster.
+                    "\n" | "\r\n" => {
                         is_whitespace = true;
                         let continue_line = self.following_line_continuation;
                         if !self.is_bol
@@ -443,7 +444,7 @@ where
             match self.grapheme_indices.peek() {
                 None => break,
                 Some((_, grapheme_cluster)) => {
-                    if *grapheme_cluster == "\n" {
+                    if matches!(*grapheme_cluster, "\n" | "\r\n") {
                         // Keep the newline next.
                         break;
                     }
@@ -461,7 +462,7 @@ where
             match self.grapheme_indices.peek() {
                 None => (),
                 Some((_, grapheme_cluster)) => {
-                    if *grapheme_cluster == "\n" {
+                    if matches!(*grapheme_cluster, "\n" | "\r\n") {
                         self.line = self.line.saturating_add(1);
                         self.column = 0;
                     }
-- 
2.43.0


From 0c50fd69e66e777124780b52435edfbdc57a107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:48 +0000
Subject: [PATCH 04/16] fix: keep a line continuation when spaces follow the
 operator

---
 src/scanner.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scanner.rs b/src/scanner.rs
index d57e93c..f1f770a 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -259,6 +259,8 @@ where
                     }
                     " " => {
                         is_whitespace = true;
+                        following_line_continuation =
+                            self.following_line_continuation;
                         if self.is_bol {
                             self.bol_spaces = self.bol_spaces.saturating_add(1);
                         }
@@ -266,6 +268,8 @@ where
                     "\r" => {
                         // Ignore this character for the most part.
                         is_whitespace = true;
+                        following_line_continuation =
+                            self.following_line_continuation;
                     }
                     // Note: CRLF is a single grapheme cluster.
                     "\n" | "\r\n" => {
-- 
2.43.0


From 3130efbfaa96840b8df73c488a93525956dc4faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:48 +0000
Subject: [PATCH 05/16] fix: comments change neither indentation nor line
 continuation

---
 src/scanner.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index f1f770a..3ac0889 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -54,7 +54,6 @@ pub struct Scanner<'source, 'g> {
     // Beginning of line spaces used for indentation.
     bol_spaces: u16,
     is_bol: bool,
-    only_comment_on_line: bool,
     is_line_continuation: bool,
     following_line_continuation: bool,
     is_abutting: bool,
@@ -79,7 +78,6 @@ where
             eof: false,
             bol_spaces: 0,
             is_bol: true,
-            only_comment_on_line: false,
             is_line_continuation: false,
             following_line_continuation: false,
             is_abutting: false,
@@ -222,13 +220,16 @@ where
                         following_line_continuation = true;
                     }
                     "/" => {
-                        let was_bol = self.is_bol;
-                        self.bol_indentation_tokens();
                         if self.matches("/") {
-                            // A comment until the end of the line.
+                            // A comment until the end of the line.  It's
+                            // whitespace, so it neither affects indentation nor
+                            // line continuation.
+                            is_whitespace = true;
+                            following_line_continuation =
+                                self.following_line_continuation;
                             self.advance_to_eol();
-                            self.only_comment_on_line = was_bol;
                         } else {
+                            self.bol_indentation_tokens();
                             self.add_token(Slash);
                             following_line_continuation = true;
                         }
@@ -275,12 +276,7 @@ where
                     "\n" | "\r\n" => {
                         is_whitespace = true;
                         let continue_line = self.following_line_continuation;
-                        if !self.is_bol
-                            && !continue_line
-                            // When there's only a comment on a line, don't
-                            // insert a terminator.
-                            && !self.only_comment_on_line
-                        {
+                        if !self.is_bol && !continue_line {
                             self.add_token(Terminator);
                         }
                         self.reset_line();
@@ -318,7 +314,6 @@ where
         self.column = 1;
         self.bol_spaces = 0;
         self.is_bol = true;
-        self.only_comment_on_line = false;
         // If the previous line was blank, do not affect line continuation
         // state.
         if !line_was_blank {
-- 
2.43.0


From 24d2809eff0b6231a87038f0d7e0b55208b5c41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:49 +0000
Subject: [PATCH 06/16] fix: a parenthesis after a backslash line continuation
 does not abut

---
 src/scanner.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scanner.rs b/src/scanner.rs
index 3ac0889..a676d52 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -245,6 +245,7 @@ where
                         self.matches("\r");
 
                         if self.matches("\n") || self.matches("\r\n") {
+                            is_whitespace = true;
                             self.reset_line();
                             self.is_line_continuation = true;
                         } else {
-- 
2.43.0


From 9aeaa8d762c48a0c30ac24ac1e4cd67cb1fe5163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:50 +0000
Subject: [PATCH 07/16] fix: report scanner errors at the offending character,
 not after it

---
 src/scanner.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index a676d52..ec70dc5 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -257,7 +257,7 @@ where
                     }
                     "\t" => {
                         is_whitespace = true;
-                        self.error(ParseErrorCause::new(SourceLoc::new(self.line, self.column), "Illegal tab character; all whitespace must be spaces"));
+                        self.error(ParseErrorCause::new(SourceLoc::new(self.line, self.start_column), "Illegal tab character; all whitespace must be spaces"));
                     }
                     " " => {
                         is_whitespace = true;
@@ -294,7 +294,7 @@ where
                             self.scan_identifier();
                         } else {
                             self.error(ParseErrorCause::new(
-                                SourceLoc::new(self.line, self.column),
+                                SourceLoc::new(self.line, self.start_column),
                                 &format!(
                                     "Unexpected token: {}",
                                     grapheme_cluster
@@ -360,7 +360,7 @@ where
                 }
                 if !found && self.bol_spaces > 0 {
                     self.error(ParseErrorCause::new(
-                        SourceLoc::new(self.line, self.column),
+                        SourceLoc::new(self.line, self.start_column),
                         "Outdent does not match any previous indentation level",
                     ));
                 }
-- 
2.43.0


From a2e52ddf445855683c5c73a1ca407af931182ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:50 +0000
Subject: [PATCH 08/16] fix: do not underflow when the first token is already
 an error

---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index bce59b9..05ba072 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1146,7 +1146,9 @@ impl<'a> Parser<'a> {
     }
 
     fn previous(&self) -> Option<&Token<'a>> {
-        self.tokens.get(self.current - 1)
+        self.current
+            .checked_sub(1)
+            .and_then(|index| self.tokens.get(index))
     }
 
     fn previous_source_loc(&self) -> SourceLoc {
-- 
2.43.0


From 7be2fd53220a5e505d63723192e2452d3128a6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:51 +0000
Subject: [PATCH 09/16] fix: reject break and continue in a function nested in
 a loop

---
 src/parser.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 05ba072..cac36fc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -227,7 +227,11 @@ impl<'a> Parser<'a> {
         let end_block = self.consume_begin_block(
             "Expect '{' or indent before function body.",
         )?;
-        let body = self.finish_block(end_block)?;
+        // The body starts outside of any loop.
+        let enclosing_loops = std::mem::take(&mut self.in_loops);
+        let body_result = self.finish_block(end_block);
+        self.in_loops = enclosing_loops;
+        let body = body_result?;
 
         let fun_def = FunctionDefinition::new(
             parameters,
@@ -492,10 +496,9 @@ impl<'a> Parser<'a> {
         let body_result = if self.check(TokenType::Terminator)
             || self.check(TokenType::LeftBrace)
         {
-            let end_block = self.consume_begin_block(
-                "Expect '{' or indent before loop body.",
-            )?;
-            self.finish_block(end_block).map(Stmt::Block)
+            self.consume_begin_block("Expect '{' or indent before loop body.")
+                .and_then(|end_block| self.finish_block(end_block))
+                .map(Stmt::Block)
         } else {
             self.statement()
         };
-- 
2.43.0


From 1bccb0180ad2816266118c3b03cd68437ac11de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:52 +0000
Subject: [PATCH 10/16] fix: a class method named init is not an initializer

---
 src/resolver.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index 1cef972..3563949 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -399,10 +399,11 @@ impl Resolver {
 
         if result.is_ok() {
             for method in class_def.methods.iter_mut() {
-                let fun_type = if method.name == "init" {
-                    FunctionType::Initializer
-                } else {
-                    FunctionType::Method
+                let fun_type = match method.fun_def.fun_type {
+                    crate::ast::FunctionType::Initializer => {
+                        FunctionType::Initializer
+                    }
+                    _ => FunctionType::Method,
                 };
 
                 result = self.resolve_function(&mut method.fun_def, fun_type);
-- 
2.43.0


From 0c740e04c0a5ad15dd3865d453e2027b652e9de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:52 +0000
Subject: [PATCH 11/16] fix: a global with an invalid initializer can be read
 later

---
 src/resolver.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index 3563949..362a9c4 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -188,10 +188,11 @@ impl Resolver {
             }
             Stmt::Var(identifier, slot_index_cell, expr, loc) => {
                 self.declare(identifier, slot_index_cell, loc)?;
-                self.resolve_expression(expr)?;
+                let result = self.resolve_expression(expr);
+                // Even when the initializer is invalid, it ends here.
                 self.define(identifier, loc)?;
 
-                Ok(())
+                result
             }
             Stmt::While(condition, body) => {
                 self.resolve_expression(condition)?;
-- 
2.43.0


From 46ea394e346bebe92d51138c17114dc543f1e190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:53 +0000
Subject: [PATCH 12/16] fix: reject a scope with more variables than slot
 indices

---
 src/environment.rs |  1 +
 src/resolver.rs    | 14 +++++++++-----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/environment.rs b/src/environment.rs
index 2594867..8b6e566 100644
--- a/src/environment.rs
+++ b/src/environment.rs
@@ -3,6 +3,7 @@ use serde;
 
 pub const VAR_LOC_MAX_DISTANCE: u16 = u16::MAX;
 pub const VAR_LOC_MAX_DISTANCE_USIZE: usize = VAR_LOC_MAX_DISTANCE as usize;
+pub const SLOT_INDEX_MAX_USIZE: usize = u8::MAX as usize;
 
 // When you declare a variable, you need to know where in the scope it is stored
 // in memory.  We currently use a slot index since a scope is implemented with
diff --git a/src/resolver.rs b/src/resolver.rs
index 362a9c4..f6da7d4 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -539,7 +539,9 @@ impl Resolver {
             slot_index,
             defined_state: DeclaredVar,
         };
-        ensure_scope_index_limit(scope.len(), identifier, loc)?;
+        if !scope.contains_key(identifier) {
+            ensure_scope_index_limit(scope.len(), identifier, loc)?;
+        }
 
         let mut already_declared = false;
         scope
@@ -587,7 +589,9 @@ impl Resolver {
             slot_index: scope.len(),
             defined_state: DefinedVar,
         };
-        ensure_scope_index_limit(scope.len(), identifier, loc)?;
+        if !scope.contains_key(identifier) {
+            ensure_scope_index_limit(scope.len(), identifier, loc)?;
+        }
         let mut already_defined = false;
         scope
             .entry(identifier.to_owned())
@@ -615,13 +619,13 @@ impl Default for Resolver {
     }
 }
 
-// The 256th local should fail.
+// The 257th variable should fail since slot indices are a u8.
 fn ensure_scope_index_limit(
-    new_scope_len: usize,
+    slot_index: usize,
     identifier: &str,
     loc: &SourceLoc,
 ) -> Result<(), ParseErrorCause> {
-    if new_scope_len > VAR_LOC_MAX_DISTANCE_USIZE {
+    if slot_index > SLOT_INDEX_MAX_USIZE {
         Err(ParseErrorCause::new_with_location(
             *loc,
             identifier,
-- 
2.43.0


From 61ffe63d8ea1468ce190cf0560de013f0bfdf94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:53 +0000
Subject: [PATCH 13/16] fix: end the REPL at the end of its input

---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 6f513dd..b690d56 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -58,6 +58,8 @@ fn run_repl() {
 
         let mut input = String::new();
         match stdin.lock().read_line(&mut input) {
+            // End of input.
+            Ok(0) => break,
             Ok(_) => {
                 let result = run(&mut resolver, input, true);
                 print_result(&result, true);
-- 
2.43.0


From b199cad3079b9ef39f21154e83d2c830f5c792e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:08 +0000
Subject: [PATCH 14/16] fix: end an expression initializer of a for loop with a
 semicolon

---
 src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index cac36fc..2b18712 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -359,7 +359,12 @@ impl<'a> Parser<'a> {
         } else if self.match_token(TokenType::Var) {
             Some(self.finish_var_declaration(true)?)
         } else {
-            Some(self.expression_statement()?)
+            let expr = self.expression()?;
+            self.consume(
+                TokenType::Semicolon,
+                "Expect ';' after for-loop initializer.",
+            )?;
+            Some(Stmt::Expression(expr))
         };
         let condition = if self.check(TokenType::Semicolon) {
             Expr::LiteralBool(true)
-- 
2.43.0


From 0efb9466c0caa5cae8967ff450416d4f17fd718b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:50 +0000
Subject: [PATCH 15/16] fix: accept a line end after the closing brace of a
 block

---
 src/parser.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 2b18712..42cc2e3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -83,6 +83,7 @@ impl<'a> Parser<'a> {
             match self.declaration() {
                 Ok(statement) => {
                     statements.push(statement);
+                    self.skip_line_end_after_brace();
                 }
                 Err(error) => {
                     errors.push(error);
@@ -160,6 +161,7 @@ impl<'a> Parser<'a> {
                         FunctionType::Method
                     };
                     methods.push(fun_decl);
+                    self.skip_line_end_after_brace();
                 }
                 _ => {
                     return Err(self.error_from_last(
@@ -410,6 +412,10 @@ impl<'a> Parser<'a> {
 
         let then_stmt = self.if_body_statement()?;
 
+        // An else may be on the line after a closing brace.
+        if self.check_next(TokenType::Else) {
+            self.skip_line_end_after_brace();
+        }
         let else_stmt = if self.match_token(TokenType::Else) {
             Some(Box::new(self.if_body_statement()?))
         } else {
@@ -441,6 +447,7 @@ impl<'a> Parser<'a> {
 
         while !self.check(end_block) && !self.is_at_end() {
             statements.push(self.declaration()?);
+            self.skip_line_end_after_brace();
         }
 
         self.consume_end_block(end_block, " after block.")?;
@@ -1053,6 +1060,17 @@ impl<'a> Parser<'a> {
         Ok(map)
     }
 
+    // A closing brace already ends its statement, so the end of the line it's
+    // on has no meaning.
+    fn skip_line_end_after_brace(&mut self) {
+        let after_brace = self.previous().map_or(false, |token| {
+            token.token_type == TokenType::RightBrace
+        });
+        if after_brace {
+            self.match_token(TokenType::Terminator);
+        }
+    }
+
     // Check that the current token is of the given type.
     fn check(&self, token_type: TokenType) -> bool {
         !self.is_at_end()
-- 
2.43.0


From ca378bfb42dfc491d38ddd8a84fa196a18ff0e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:18 +0000
Subject: [PATCH 16/16] fix: the end of the source keeps its column on a very
 long line

---
 src/scanner.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index ec70dc5..1c620eb 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -105,7 +105,6 @@ where
     }
 
     fn close_all_blocks(&mut self) {
-        self.start_column = self.column.saturating_sub(1);
         for _ in 0..self.indentation.len() {
             self.add_token(TokenType::Outdent);
         }
-- 
2.43.0

