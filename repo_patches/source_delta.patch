From 33c06c532a0c0f9fd58cd56929b2083c137bf851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 01/71] fix: count a lone carriage return as a line end
 wherever it stands

---
 src/lib.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 803564b..4732b19 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -344,19 +344,15 @@ fn get_lines(text: &str) -> Vec<Line> {
                     // look ahead 1 char to see if it is a newline pair
                     // if so, don't include it, it will get included in the next
                     // iteration
-                    if let Some(next) = text.get(byte_position..byte_position + 2) {
-                        if next == "\r\n" {
-                            None
-                        } else {
-                            let ret = Line {
-                                start: line_start,
-                                end: byte_position,
-                            };
-                            line_start = byte_position + 1;
-                            Some(ret)
-                        }
-                    } else {
+                    if text[byte_position..].starts_with("\r\n") {
                         None
+                    } else {
+                        let ret = Line {
+                            start: line_start,
+                            end: byte_position,
+                        };
+                        line_start = byte_position + 1;
+                        Some(ret)
                     }
                 }
                 '\n' => {
-- 
2.43.0


From df3f0fa34d31ae0a8d58491256996c15ba2ed407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:59 +0000
Subject: [PATCH 02/71] fix: keep the current position exact across every kind
 of line terminator

---
 src/lib.rs | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4732b19..70ef055 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4201,35 +4201,25 @@ where
 
     fn update_positions(&mut self, look_ahead_span: Span, next_look_ahead_start: usize) -> Res<()> {
         let prev_text = &self.scanner.stream[look_ahead_span.start..next_look_ahead_start];
-        let whitespace = &self.scanner.stream[look_ahead_span.end..next_look_ahead_start];
-        
         let old_look_ahead_pos = self.look_ahead_position;
         self.current_position = old_look_ahead_pos;
-        let line_counts = prev_text.chars().filter(|c| c == &'\n' || c == &'\r' || c == &'\u{2028}' || c == &'\u{2029}').count() - whitespace.matches("\r\n").count();
+        let line_counts = prev_text.chars().filter(|c| Self::is_line_term(*c)).count() - prev_text.matches("\r\n").count();
         if line_counts == 0 {
             self.look_ahead_position.column += prev_text.len();
             return Ok(())
         }
-        let last_line_len = if let Some(last_line) = prev_text.lines().last() {
-            // Lines doesn't include a final empty line if the string ends with a new line
-            // we need to make sure we reset the column to 0 if the string ends with a new line
-            if let Some(ref c) = prev_text.chars().last() {
-                if c == &'\n' || c == &'\r' || c == &'\u{2028}' || c == &'\u{2029}' {
-                    0
-                } else {
-                    last_line.len()
-                }
-
-            } else {
-                0
-            }
-        } else {
-            0
-        };
+        let last_line_len = prev_text
+            .rsplit(Self::is_line_term)
+            .next()
+            .map_or(0, |last_line| last_line.len());
         self.look_ahead_position.line += line_counts;
         self.look_ahead_position.column = last_line_len;
         Ok(())
     }
+    /// Is this character one of the four line terminators
+    fn is_line_term(c: char) -> bool {
+        c == '\n' || c == '\r' || c == '\u{2028}' || c == '\u{2029}'
+    }
     /// Get the next token and validate that it matches
     /// the punct provided, discarding the result
     /// if it does
-- 
2.43.0


From 62db505baf0ce58cdf661454c39904f0db9d7e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 03/71] fix: see a line terminator between tokens when a
 comment stands there too

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 70ef055..be37300 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4155,9 +4155,14 @@ where
     /// and return the last token
     fn next_item(&mut self) -> Res<Item> {
         let mut look_ahead_span = self.look_ahead.span;
+        let prev_end = look_ahead_span.end;
         loop {
-            self.context.has_line_term = self.scanner.pending_new_line;
             if let Some(look_ahead) = self.scanner.next() {
+                // Comments are skipped but the line terminators before, inside and
+                // after them still separate the two tokens
+                self.context.has_line_term = self.scanner.stream[prev_end..look_ahead.span.start]
+                    .chars()
+                    .any(Self::is_line_term);
                 if cfg!(feature = "debug_look_ahead") {
                     self._look_ahead = format!("{:?}: {:?}", look_ahead.token, self.scanner.string_for(&look_ahead.span));
                     debug!("look_ahead: {:?}", self._look_ahead);
-- 
2.43.0


From 93e89da4e12499ae690ec439fed90b7e21170b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 04/71] fix: leave the scanner untouched when looking one token
 ahead

---
 src/lib.rs | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index be37300..838b07d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4258,15 +4258,11 @@ where
     fn at_import_call(&mut self) -> bool {
         debug!("at_import_call");
         if self.at_keyword(Keyword::Import) {
-            let state = self.scanner.get_state();
-            self.scanner.skip_comments();
-            let ret = if let Some(next) = self.scanner.next() {
+            if let Some(next) = self.peek_past_look_ahead() {
                 next.token.matches_punct(&Punct::OpenParen)
             } else {
                 false
-            };
-            self.scanner.set_state(state);
-            ret
+            }
         } else {
             false
         }
@@ -4290,9 +4286,7 @@ where
     /// must be an identifier, `let`, `yield`
     /// `{`, or `[`
     fn at_lexical_decl(&mut self) -> bool {
-        let state = self.scanner.get_state();
-        self.scanner.skip_comments();
-        let ret = if let Some(next) = self.scanner.next() {
+        if let Some(next) = self.peek_past_look_ahead() {
             next.token.is_ident()
                 || next.token.matches_punct(&Punct::OpenBracket)
                 || next.token.matches_punct(&Punct::OpenBrace)
@@ -4300,8 +4294,23 @@ where
                 || next.token.matches_keyword(&Keyword::Yield)
         } else {
             false
+        }
+    }
+    /// The token after `look_ahead` (not including any comments),
+    /// the scanner is left exactly as it was found
+    fn peek_past_look_ahead(&mut self) -> Option<Item> {
+        let state = self.scanner.get_state();
+        let eof = self.scanner.eof;
+        let pending_new_line = self.scanner.pending_new_line;
+        let ret = loop {
+            match self.scanner.next() {
+                Some(ref item) if item.token.is_comment() => continue,
+                item => break item,
+            }
         };
         self.scanner.set_state(state);
+        self.scanner.eof = eof;
+        self.scanner.pending_new_line = pending_new_line;
         ret
     }
     /// Test for if the next token is a specific punct
@@ -4348,12 +4357,13 @@ where
     fn at_async_function(&mut self) -> bool {
         debug!("at_async_function");
         if self.at_contextual_keyword("async") {
-            if let Some(peek) = self.scanner.look_ahead() {
+            let end = self.look_ahead.span.end;
+            if let Some(peek) = self.peek_past_look_ahead() {
                 debug!("peeking ahead {:?}", peek);
-                let pos = self.look_ahead_position;
-                let next_pos = self.get_item_position(&peek);
-                debug!("positions:\n\tlook ahead 1: {:?}\n\tlook ahead 2: {:?}", pos, next_pos);
-                pos.line == next_pos.line && peek.token.matches_keyword(&Keyword::Function)
+                peek.token.matches_keyword(&Keyword::Function)
+                    && !self.scanner.stream[end..peek.span.start]
+                        .chars()
+                        .any(Self::is_line_term)
             } else {
                 debug!("scanner failed to lookahead");
                 false
-- 
2.43.0


From 6606cca082d8e5125928e12309fdebe3804b59c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 05/71] fix: an identifier name is a word, not just any token

---
 src/lib.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 838b07d..04b3f74 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2787,21 +2787,11 @@ where
 
     fn parse_ident_name(&mut self) -> Res<Identifier> {
         debug!("parse_ident_name");
-        let lh = self.get_string(&self.look_ahead.span);
-        debug!("lh: {:?}", lh);
-        let ident = self.next_item()?; 
-        let ret = self.get_string(&ident.span)?;
-        debug!("ident: {:?}", ret);
-        Ok(ret)
-
-        // let ret = match ident.token {
-        //     Token::Ident => Ok(self.scanner.string_for(&ident.span).unwrap_or(String::new())),
-        //     Token::Keyword(k) => Ok(k.to_string()),
-        //     Token::Boolean(b) => Ok(b.to_string()),
-        //     Token::Null => Ok("null".to_string()),
-        //     _ => self.expected_token_error(&ident, &["identifier name"]),
-        // };
-        // ret
+        if !self.at_possible_ident() {
+            return self.expected_token_error(&self.look_ahead, &["identifier name"]);
+        }
+        let ident = self.next_item()?;
+        self.get_string(&ident.span)
     }
 
     fn parse_var_ident(&mut self, is_var: bool) -> Res<Identifier> {
-- 
2.43.0


From bac5fa093fb153fdf86ef87798cf81756ae7b3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 06/71] fix: decide by context which reserved words can be
 binding names

---
 src/lib.rs | 66 ++++++++++++++++++++----------------------------------
 1 file changed, 24 insertions(+), 42 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 04b3f74..73664da 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -690,10 +690,10 @@ where
 
     fn parse_import_specifier(&mut self) -> Res<ImportSpecifier> {
         let (imported, local) = if self.look_ahead.token.is_ident() {
-            let imported = self.parse_var_ident(false)?;
+            let imported = self.parse_var_ident()?;
             let local = if self.at_contextual_keyword("as") {
                 let _ = self.next_item();
-                Some(self.parse_var_ident(false)?)
+                Some(self.parse_var_ident()?)
             } else {
                 None
             };
@@ -702,7 +702,7 @@ where
             let imported = self.parse_ident_name()?;
             let local = if self.at_contextual_keyword("as") {
                 let _ = self.next_item()?;
-                Some(self.parse_var_ident(false)?)
+                Some(self.parse_var_ident()?)
             } else {
                 None
             };
@@ -1451,7 +1451,7 @@ where
         debug!("parse_optionally_labeled_statement");
         self.expect_keyword(k)?;
         let ret = if self.look_ahead.token.is_ident() && !self.context.has_line_term {
-            let id = self.parse_var_ident(false)?;
+            let id = self.parse_var_ident()?;
             if !self.context.label_set.contains(&id) {
                 //error: unknown label
             }
@@ -1695,7 +1695,7 @@ where
         };
         let (id, first_restricted) = if !opt_ident || !self.at_punct(Punct::OpenParen) {
             let start = self.look_ahead.clone();
-            let id = self.parse_var_ident(false)?;
+            let id = self.parse_var_ident()?;
             if self.context.strict && start.token.is_restricted() {
                 return self.expected_token_error(&start, &[]);
             }
@@ -1790,7 +1790,7 @@ where
         let id = if opt_ident && !self.look_ahead.token.is_ident() {
             None
         } else {
-            Some(self.parse_var_ident(false)?)
+            Some(self.parse_var_ident()?)
         };
         super_class = if super_class.is_none() && self.at_contextual_keyword("extends") {
             let _ = self.next_item()?;
@@ -2781,7 +2781,7 @@ where
         if self.context.strict && !is_gen && self.at_keyword(Keyword::Yield) {
             self.parse_ident_name()
         } else {
-            self.parse_var_ident(false)
+            self.parse_var_ident()
         }
     }
 
@@ -2794,31 +2794,19 @@ where
         self.get_string(&ident.span)
     }
 
-    fn parse_var_ident(&mut self, is_var: bool) -> Res<Identifier> {
+    fn parse_var_ident(&mut self) -> Res<Identifier> {
         debug!("parse_var_ident");
         let ident = self.next_item()?;
-        if ident.token.matches_keyword(&Keyword::Yield) {
-            if self.context.strict || !self.context.allow_yield {
-                return self.expected_token_error(&ident, &["variable identifier"]);
-            }
-        } else if !ident.token.is_ident() {
-            if self.context.strict && ident.token.is_strict_reserved() {
-                return self.expected_token_error(&ident, &["variable identifier"]);
-            }
-            if self.context.strict || ident.token.matches_keyword(&Keyword::Let) || !is_var {
-                return self.expected_token_error(&ident, &["variable identifier"]);
-            }
-        } else if (self.context.is_module || self.context.r#await)
-            && &self.scanner.stream[ident.span.start..ident.span.end] == "await"
-        {
+        let valid = match &ident.token {
+            Token::Ident => true,
+            Token::Keyword(Keyword::Yield) => !self.context.strict && self.context.allow_yield,
+            Token::Keyword(Keyword::Await) => !self.context.is_module && !self.context.r#await,
+            token => !self.context.strict && token.is_strict_reserved(),
+        };
+        if !valid {
             return self.expected_token_error(&ident, &["variable identifier"]);
         }
-        let i = match &ident.token {
-            &Token::Ident => self.scanner.string_for(&ident.span).unwrap_or(String::new()),
-            &Token::Keyword(ref k) => k.to_string(),
-            _ => self.expected_token_error(&ident, &["variable identifier"])?,
-        };
-        Ok(i)
+        self.get_string(&ident.span)
     }
 
     fn parse_formal_params(&mut self) -> Res<FormalParams> {
@@ -2920,20 +2908,14 @@ where
         } else if self.at_punct(Punct::OpenBrace) {
             self.parse_object_pattern()
         } else {
-            let is_var = if let Some(kind) = kind {
-                match kind {
-                    VariableKind::Const | VariableKind::Let => {
-                        if self.at_keyword(Keyword::Let) {
-                            return self.expected_token_error(&self.look_ahead, &["identifier"]);
-                        }
-                        false
-                    }
-                    VariableKind::Var => true,
-                }
-            } else {
-                true
+            let lexical = match kind {
+                Some(VariableKind::Const) | Some(VariableKind::Let) => true,
+                _ => false,
             };
-            let ident = self.parse_var_ident(is_var)?;
+            if lexical && self.at_keyword(Keyword::Let) {
+                return self.expected_token_error(&self.look_ahead, &["identifier"]);
+            }
+            let ident = self.parse_var_ident()?;
             let restricted = &ident == "eval" || &ident == "arguments";
             params.push(self.look_ahead.clone());
             Ok((restricted, Pat::Identifier(ident)))
@@ -3010,7 +2992,7 @@ where
         let mut short_hand = false;
         let method = false;
         let (key, value) = if self.look_ahead.token.is_ident() {
-            let key = PropertyKey::Expr(Expr::Ident(self.parse_var_ident(false)?));
+            let key = PropertyKey::Expr(Expr::Ident(self.parse_var_ident()?));
             let value = if self.at_punct(Punct::Assign) {
                 self.expect_punct(Punct::Assign)?;
                 short_hand = true;
-- 
2.43.0


From a38b9d38bfbfb3b72e5c5e9d3f893dd90290694b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 07/71] fix: accept the words that are reserved only in some
 contexts as identifiers elsewhere

---
 src/lib.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 73664da..a408cde 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2333,13 +2333,7 @@ where
             };
             Ok(Expr::Literal(Literal::RegEx(lit)))
         } else if self.look_ahead.token.is_keyword() {
-            if !self.context.strict
-                && ((self.context.allow_yield && self.at_keyword(Keyword::Yield))
-                    || self.at_keyword(Keyword::Let))
-            {
-                let ident = self.parse_ident_name()?;
-                Ok(Expr::Ident(ident))
-            } else if !self.context.strict && self.look_ahead.token.is_strict_reserved() {
+            if self.is_var_ident(&self.look_ahead.token) {
                 let ident = self.parse_ident_name()?;
                 Ok(Expr::Ident(ident))
             } else {
@@ -2797,16 +2791,21 @@ where
     fn parse_var_ident(&mut self) -> Res<Identifier> {
         debug!("parse_var_ident");
         let ident = self.next_item()?;
-        let valid = match &ident.token {
+        if !self.is_var_ident(&ident.token) {
+            return self.expected_token_error(&ident, &["variable identifier"]);
+        }
+        self.get_string(&ident.span)
+    }
+
+    /// Can this token be the name of a variable, function, class or label
+    /// (or a reference to one) in the current context
+    fn is_var_ident(&self, token: &Token) -> bool {
+        match token {
             Token::Ident => true,
             Token::Keyword(Keyword::Yield) => !self.context.strict && self.context.allow_yield,
             Token::Keyword(Keyword::Await) => !self.context.is_module && !self.context.r#await,
             token => !self.context.strict && token.is_strict_reserved(),
-        };
-        if !valid {
-            return self.expected_token_error(&ident, &["variable identifier"]);
         }
-        self.get_string(&ident.span)
     }
 
     fn parse_formal_params(&mut self) -> Res<FormalParams> {
@@ -2991,7 +2990,7 @@ where
         let mut computed = false;
         let mut short_hand = false;
         let method = false;
-        let (key, value) = if self.look_ahead.token.is_ident() {
+        let (key, value) = if self.is_var_ident(&self.look_ahead.token) {
             let key = PropertyKey::Expr(Expr::Ident(self.parse_var_ident()?));
             let value = if self.at_punct(Punct::Assign) {
                 self.expect_punct(Punct::Assign)?;
@@ -4264,6 +4263,8 @@ where
                 || next.token.matches_punct(&Punct::OpenBrace)
                 || next.token.matches_keyword(&Keyword::Let)
                 || next.token.matches_keyword(&Keyword::Yield)
+                || next.token.matches_keyword(&Keyword::Await)
+                || next.token.is_strict_reserved()
         } else {
             false
         }
-- 
2.43.0


From fb3da1b035252718139756665db0b9ad76b8449d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 08/71] fix: parse null as the null literal, not as an
 identifier

---
 src/lib.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a408cde..bfc4f5d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2299,6 +2299,11 @@ where
                 _ => unreachable!(),
             };
             Ok(Expr::Literal(lit))
+        } else if self.look_ahead.token.is_null() {
+            self.context.is_assignment_target = false;
+            self.context.is_binding_element = false;
+            let _ = self.next_item()?;
+            Ok(Expr::Literal(Literal::Null))
         } else if self.look_ahead.is_template() {
             let lit = self.parse_template_literal()?;
             Ok(Expr::Literal(Literal::Template(lit)))
@@ -4128,7 +4133,13 @@ where
         let mut look_ahead_span = self.look_ahead.span;
         let prev_end = look_ahead_span.end;
         loop {
-            if let Some(look_ahead) = self.scanner.next() {
+            if let Some(mut look_ahead) = self.scanner.next() {
+                // The scanner reports the literal `null` as an identifier
+                if look_ahead.token.is_ident()
+                    && &self.scanner.stream[look_ahead.span.start..look_ahead.span.end] == "null"
+                {
+                    look_ahead.token = Token::Null;
+                }
                 // Comments are skipped but the line terminators before, inside and
                 // after them still separate the two tokens
                 self.context.has_line_term = self.scanner.stream[prev_end..look_ahead.span.start]
-- 
2.43.0


From 7d65e40845d5850ba31a3ac7603616bac6fcaf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 09/71] fix: recognize null when looking ahead as well

---
 src/lib.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bfc4f5d..89d9a43 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4133,13 +4133,7 @@ where
         let mut look_ahead_span = self.look_ahead.span;
         let prev_end = look_ahead_span.end;
         loop {
-            if let Some(mut look_ahead) = self.scanner.next() {
-                // The scanner reports the literal `null` as an identifier
-                if look_ahead.token.is_ident()
-                    && &self.scanner.stream[look_ahead.span.start..look_ahead.span.end] == "null"
-                {
-                    look_ahead.token = Token::Null;
-                }
+            if let Some(look_ahead) = self.scan() {
                 // Comments are skipped but the line terminators before, inside and
                 // after them still separate the two tokens
                 self.context.has_line_term = self.scanner.stream[prev_end..look_ahead.span.start]
@@ -4186,6 +4180,16 @@ where
         }
     }
 
+    /// Ask the scanner for one more token, the scanner reports
+    /// the literal `null` as an identifier, this corrects that
+    fn scan(&mut self) -> Option<Item> {
+        let mut item = self.scanner.next()?;
+        if item.token.is_ident() && &self.scanner.stream[item.span.start..item.span.end] == "null" {
+            item.token = Token::Null;
+        }
+        Some(item)
+    }
+
     fn update_positions(&mut self, look_ahead_span: Span, next_look_ahead_start: usize) -> Res<()> {
         let prev_text = &self.scanner.stream[look_ahead_span.start..next_look_ahead_start];
         let old_look_ahead_pos = self.look_ahead_position;
@@ -4287,7 +4291,7 @@ where
         let eof = self.scanner.eof;
         let pending_new_line = self.scanner.pending_new_line;
         let ret = loop {
-            match self.scanner.next() {
+            match self.scan() {
                 Some(ref item) if item.token.is_comment() => continue,
                 item => break item,
             }
-- 
2.43.0


From c76b86bbf303202c9c658c8ff9d80b0efb16d7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:18 +0000
Subject: [PATCH 10/71] fix: let a contextually reserved word label a statement

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 89d9a43..648e142 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -911,6 +911,7 @@ where
                 Keyword::Var => self.parse_var_stmt()?,
                 Keyword::While => Stmt::While(self.parse_while_stmt()?),
                 Keyword::With => Stmt::With(self.parse_with_stmt()?),
+                _ if self.is_var_ident(&lh) => self.parse_labelled_statement()?,
                 _ => Stmt::Expr(self.parse_expression_statement()?),
             },
             _ => return self.expected_token_error(&self.look_ahead, &[]),
-- 
2.43.0


From 13a0c9c042a15dd77f32e34587482d9490a8fcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 11/71] fix: reject break and continue without a statement to
 jump to

---
 src/lib.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 648e142..cca308f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -960,6 +960,7 @@ where
         } else {
             self.expect_punct(Punct::CloseParen)?;
             let prev_iter = self.context.in_iteration;
+            self.context.in_iteration = true;
             let body = self.parse_statement()?;
             self.context.in_iteration = prev_iter;
             body
@@ -1450,19 +1451,26 @@ where
 
     fn parse_optionally_labeled_statement(&mut self, k: Keyword) -> Res<Option<Identifier>> {
         debug!("parse_optionally_labeled_statement");
-        self.expect_keyword(k)?;
-        let ret = if self.look_ahead.token.is_ident() && !self.context.has_line_term {
+        let start = self.look_ahead.clone();
+        self.expect_keyword(k.clone())?;
+        let ret = if self.is_var_ident(&self.look_ahead.token) && !self.context.has_line_term {
+            let label = self.look_ahead.clone();
             let id = self.parse_var_ident()?;
-            if !self.context.label_set.contains(&id) {
-                //error: unknown label
+            if !self.context.label_set.contains(&format!("${}", &id)) && !self.config.tolerant {
+                return self.unexpected_token_error(&label, "unknown label");
             }
             Some(id)
         } else {
             None
         };
         self.consume_semicolon()?;
-        if ret.is_some() && !self.context.in_iteration && !self.context.in_switch {
-            //error: invalid break
+        let has_target = if k == Keyword::Continue {
+            self.context.in_iteration
+        } else {
+            ret.is_some() || self.context.in_iteration || self.context.in_switch
+        };
+        if !has_target && !self.config.tolerant {
+            return self.unexpected_token_error(&start, "no enclosing statement to jump to");
         }
         Ok(ret)
     }
-- 
2.43.0


From da28b32836d9bad622dda9a4008061362cb76932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 12/71] fix: reject a bare try block and a line break after
 throw

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index cca308f..2385a7d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1023,7 +1023,7 @@ where
             None
         };
         if handler.is_none() && finalizer.is_none() {
-            //error: one or the other must be declared
+            return self.expected_token_error(&self.look_ahead, &["catch", "finally"]);
         }
         Ok(TryStmt {
             block,
@@ -1061,7 +1061,7 @@ where
         debug!("parse_throw_stmt");
         self.expect_keyword(Keyword::Throw)?;
         if self.context.has_line_term {
-            //error: no new line allowed after throw
+            return self.unexpected_token_error(&self.look_ahead, "new line after throw");
         }
         let arg = self.parse_expression()?;
         self.consume_semicolon()?;
-- 
2.43.0


From 3d67584f52215ce3eea2cf68902f9368c9c200ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 13/71] fix: end a return statement at a line break whatever
 follows it

---
 src/lib.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2385a7d..680085f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1132,9 +1132,8 @@ where
         }
         self.expect_keyword(Keyword::Return)?;
         // if we are at a semi-colon,or close curly brace or eof
-        //the return doesn't have an arg. If we are at a line term
-        //we need to account for a string literal or template literal
-        //since they both can have new lines
+        //the return doesn't have an arg, the same is true if there
+        //is a line term between the keyword and the next token
 
         let ret = if self.at_return_arg() {
             Some(self.parse_expression()?)
@@ -4242,10 +4241,8 @@ where
     }
 
     fn at_return_arg(&self) -> bool {
-        if self.context.has_line_term {
-            return self.look_ahead.is_string() || self.look_ahead.is_template();
-        }
-        !self.at_punct(Punct::SemiColon)
+        !self.context.has_line_term
+            && !self.at_punct(Punct::SemiColon)
             && !self.at_punct(Punct::CloseBrace)
             && !self.look_ahead.is_eof()
     }
-- 
2.43.0


From 3b376c0641ee11b235c19a653be664a24833b173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 14/71] fix: allow for await only with of and inside async
 functions

---
 src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 680085f..5cabe02 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1193,7 +1193,7 @@ where
         debug!("parse_for_stmt");
 
         self.expect_keyword(Keyword::For)?;
-        let is_await = if self.at_keyword(Keyword::Await) {
+        let is_await = if self.context.r#await && self.at_keyword(Keyword::Await) {
             let _ = self.next_item()?;
             true
         // for await ([lookahead ≠ let] LeftHandSideExpression [?Yield, ?Await] of AssignmentExpression [+In, ?Yield, ?Await]) Statement [?Yield, ?Await, ?Return]
@@ -1203,6 +1203,18 @@ where
             false
         };
         self.expect_punct(Punct::OpenParen)?;
+        let stmt = self.parse_for_head(is_await)?;
+        match stmt {
+            Stmt::ForOf(_) => Ok(stmt),
+            _ if is_await => {
+                self.unexpected_token_error(&self.look_ahead, "for await requires an of clause")
+            }
+            _ => Ok(stmt),
+        }
+    }
+
+    fn parse_for_head(&mut self, is_await: bool) -> Res<Stmt> {
+        debug!("parse_for_head");
         if self.at_punct(Punct::SemiColon) {
             // any semi-colon would mean standard C style for loop
             // for (;;) {}
-- 
2.43.0


From e738c93bc4d0ecb02b8014c36c14bed9f9ab15a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 15/71] fix: tell a let declaration from the identifier let in
 a for head

---
 src/lib.rs | 73 ++++++++++++++++++++++--------------------------------
 1 file changed, 29 insertions(+), 44 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5cabe02..c6fd9fa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1253,7 +1253,9 @@ where
                 let stmt = self.parse_for_loop_cont(Some(init))?;
                 return Ok(Stmt::For(stmt));
             }
-        } else if self.at_keyword(Keyword::Const) || self.at_keyword(Keyword::Let) {
+        } else if self.at_keyword(Keyword::Const)
+            || (self.at_keyword(Keyword::Let) && self.at_lexical_decl())
+        {
             let kind = self.next_item()?;
             let kind = match &kind.token {
                 Token::Keyword(ref k) => match k {
@@ -1263,54 +1265,37 @@ where
                 },
                 _ => return self.expected_token_error(&kind, &["const", "let"]),
             };
-            if !self.context.strict && self.look_ahead.token.matches_keyword(&Keyword::In) {
-                let _in = self.next_item()?;
-                //const or let becomes an ident
-                let k = match kind {
-                    VariableKind::Var => String::from("var"),
-                    VariableKind::Let => String::from("let"),
-                    VariableKind::Const => String::from("const"),
+            let prev_in = self.context.allow_in;
+            self.context.allow_in = false;
+            let mut decls = self.parse_binding_list(kind, true)?;
+            self.context.allow_in = prev_in;
+            if decls.len() == 1 {
+                let decl = if let Some(d) = decls.pop() {
+                    d
+                } else {
+                    return self.expected_token_error(&self.look_ahead, &["variable decl"]);
                 };
-                let left = LoopLeft::Expr(Expr::Ident(k));
-                let right = self.parse_expression()?;
-                Ok(Stmt::ForIn(ForInStmt {
-                    left,
-                    right,
-                    body: Box::new(self.parse_loop_body()?),
-                }))
-            } else {
-                let prev_in = self.context.allow_in;
-                self.context.allow_in = false;
-                let mut decls = self.parse_binding_list(kind, true)?;
-                self.context.allow_in = prev_in;
-                if decls.len() == 1 {
-                    let decl = if let Some(d) = decls.pop() {
-                        d
-                    } else {
-                        return self.expected_token_error(&self.look_ahead, &["variable decl"]);
-                    };
-                    if decl.init.is_none() && self.at_keyword(Keyword::In) {
-                        let left = LoopLeft::Variable(kind, decl);
-                        let _in = self.next_item()?;
-                        let right = self.parse_expression()?;
-                        return Ok(Stmt::ForIn(ForInStmt {
-                            left,
-                            right,
-                            body: Box::new(self.parse_loop_body()?),
-                        }));
-                    } else if decl.init.is_none() && self.at_contextual_keyword("of") {
-                        let left = LoopLeft::Variable(kind, decl);
-                        return Ok(Stmt::ForOf(self.parse_for_of_loop(left, is_await)?));
-                    } else {
-                        let init = LoopInit::Variable(kind, vec![decl]);
-                        let stmt = self.parse_for_loop_cont(Some(init))?;
-                        return Ok(Stmt::For(stmt));
-                    }
+                if decl.init.is_none() && self.at_keyword(Keyword::In) {
+                    let left = LoopLeft::Variable(kind, decl);
+                    let _in = self.next_item()?;
+                    let right = self.parse_expression()?;
+                    return Ok(Stmt::ForIn(ForInStmt {
+                        left,
+                        right,
+                        body: Box::new(self.parse_loop_body()?),
+                    }));
+                } else if decl.init.is_none() && self.at_contextual_keyword("of") {
+                    let left = LoopLeft::Variable(kind, decl);
+                    return Ok(Stmt::ForOf(self.parse_for_of_loop(left, is_await)?));
                 } else {
-                    let init = LoopInit::Variable(kind, decls);
+                    let init = LoopInit::Variable(kind, vec![decl]);
                     let stmt = self.parse_for_loop_cont(Some(init))?;
                     return Ok(Stmt::For(stmt));
                 }
+            } else {
+                let init = LoopInit::Variable(kind, decls);
+                let stmt = self.parse_for_loop_cont(Some(init))?;
+                return Ok(Stmt::For(stmt));
             }
         } else {
             let prev_in = self.context.allow_in;
-- 
2.43.0


From e20e1794f1d27174586f6c37c4833a1200240f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 16/71] fix: check the initializers and targets in a for head

---
 src/lib.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c6fd9fa..661cd23 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1239,7 +1239,7 @@ where
                     let left = LoopLeft::Variable(kind, decl);
                     let stmt = self.parse_for_in_loop(left)?;
                     return Ok(Stmt::ForIn(stmt));
-                } else if self.at_contextual_keyword("of") {
+                } else if decl.init.is_none() && self.at_contextual_keyword("of") {
                     let left = LoopLeft::Variable(kind, decl);
                     let stmt = self.parse_for_of_loop(left, is_await)?;
                     return Ok(Stmt::ForOf(stmt));
@@ -1302,8 +1302,12 @@ where
             self.context.allow_in = false;
             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
             let init = self.parse_assignment_expr()?;
+            let is_target = self.context.is_assignment_target && !Self::is_assignment_expr(&init);
             self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
             self.context.allow_in = prev_in;
+            if !is_target && (self.at_keyword(Keyword::In) || self.at_contextual_keyword("of")) {
+                return self.unexpected_token_error(&self.look_ahead, "Not at assignment target");
+            }
             if self.at_keyword(Keyword::In) {
                 let _ = self.next_item()?;
                 let left = LoopLeft::Expr(init);
@@ -1327,12 +1331,14 @@ where
             } else {
                 let init = if self.at_punct(Punct::Comma) {
                     let mut seq = vec![init];
+                    self.context.allow_in = false;
                     while self.at_punct(Punct::Comma) {
                         let _comma = self.next_item()?;
                         let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
                         seq.push(self.parse_assignment_expr()?);
                         self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
                     }
+                    self.context.allow_in = prev_in;
                     LoopInit::Expr(Expr::Sequence(seq))
                 } else {
                     LoopInit::Expr(init)
@@ -1648,7 +1654,7 @@ where
             }
         }
         let init = if kind == VariableKind::Const {
-            if !self.at_keyword(Keyword::In) && !self.at_contextual_keyword("of") {
+            if !in_for || !self.at_keyword(Keyword::In) && !self.at_contextual_keyword("of") {
                 if self.at_punct(Punct::Assign) {
                     let _ = self.next_item()?;
                     let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
@@ -3740,6 +3746,13 @@ where
         }
     }
 
+    fn is_assignment_expr(expr: &Expr) -> bool {
+        match expr {
+            Expr::Assignment(_) => true,
+            _ => false,
+        }
+    }
+
     fn is_ident(expr: &Expr) -> bool {
         match expr {
             Expr::Ident(_) => true,
-- 
2.43.0


From 0bcb6be4f8eb4a4f6fecdf6354503f0fff6fb204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 17/71] fix: keep the rest element of an array pattern and
 reject anything after an object rest

---
 src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 661cd23..ae571eb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2886,7 +2886,8 @@ where
     fn parse_binding_rest_el(&mut self, params: &mut Vec<Item>) -> Res<(bool, Pat)> {
         debug!("parse_binding_rest_el");
         self.expect_punct(Punct::Spread)?;
-        self.parse_pattern(None, params)
+        let (restricted, arg) = self.parse_pattern(None, params)?;
+        Ok((restricted, Pat::RestElement(Box::new(arg))))
     }
 
     fn parse_pattern_with_default(&mut self, params: &mut Vec<Item>) -> Res<(bool, Pat)> {
@@ -2991,10 +2992,10 @@ where
         self.expect_punct(Punct::Spread)?;
         let (_, arg) = self.parse_pattern(None, &mut vec![])?;
         if self.at_punct(Punct::Assign) {
-            //unexpected token
+            return self.expected_token_error(&self.look_ahead, &["not assignment"]);
         }
         if !self.at_punct(Punct::CloseBrace) {
-            //unable to parse props after rest
+            return self.expected_token_error(&self.look_ahead, &["}"]);
         }
         let rest = Pat::RestElement(Box::new(arg));
         let part = ObjectPatPart::Rest(Box::new(rest));
-- 
2.43.0


From 60b857bb0558a26ba153167ea392f1fb528c486a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 18/71] fix: parse the defaults in a binding pattern in the
 context around the pattern

---
 src/lib.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ae571eb..1519973 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2895,12 +2895,9 @@ where
         let (is_restricted, ret) = self.parse_pattern(None, params)?;
         if self.at_punct(Punct::Assign) {
             let _assign = self.next_item()?;
-            let prev_yield = self.context.allow_yield;
-            self.context.allow_yield = true;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
             let right = self.parse_assignment_expr()?;
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
-            self.context.allow_yield = prev_yield;
             return Ok((
                 is_restricted,
                 Pat::Assignment(AssignmentPat {
@@ -2918,11 +2915,18 @@ where
         params: &mut Vec<Item>,
     ) -> Res<(bool, Pat)> {
         debug!("parse_pattern");
-        if self.at_punct(Punct::OpenBracket) {
-            let kind = kind.unwrap_or(VariableKind::Var);
-            self.parse_array_pattern(params, kind)
-        } else if self.at_punct(Punct::OpenBrace) {
-            self.parse_object_pattern()
+        if self.at_punct(Punct::OpenBracket) || self.at_punct(Punct::OpenBrace) {
+            // `in` is an operator anywhere inside of the brackets
+            let prev_in = self.context.allow_in;
+            self.context.allow_in = true;
+            let ret = if self.at_punct(Punct::OpenBracket) {
+                let kind = kind.unwrap_or(VariableKind::Var);
+                self.parse_array_pattern(params, kind)?
+            } else {
+                self.parse_object_pattern()?
+            };
+            self.context.allow_in = prev_in;
+            Ok(ret)
         } else {
             let lexical = match kind {
                 Some(VariableKind::Const) | Some(VariableKind::Let) => true,
-- 
2.43.0


From 35c94399e41e83e25fb55c7535394aa9345c19ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 19/71] fix: find the argument of yield by every token that can
 start it

---
 src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1519973..b34fdd8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4430,7 +4430,7 @@ where
         if token.is_punct() {
             ret = token.matches_punct(&Punct::OpenBracket)
                 || token.matches_punct(&Punct::OpenParen)
-                || token.matches_punct(&Punct::OpenBracket)
+                || token.matches_punct(&Punct::OpenBrace)
                 || token.matches_punct(&Punct::Plus)
                 || token.matches_punct(&Punct::Minus)
                 || token.matches_punct(&Punct::Not)
@@ -4449,6 +4449,12 @@ where
                 || token.matches_keyword(&Keyword::TypeOf)
                 || token.matches_keyword(&Keyword::Void)
                 || token.matches_keyword(&Keyword::Yield)
+                || token.matches_keyword(&Keyword::Await)
+                || token.matches_keyword(&Keyword::Import)
+                || self.is_var_ident(token)
+        }
+        if self.look_ahead.is_template() {
+            ret = token.is_template_head();
         }
         if token.is_regex() {
             ret = true;
-- 
2.43.0


From aba52de8db0ea109bc730fff9f6c9f2e2f66c24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 20/71] fix: require an arrow after a parameter list that
 cannot be an expression

---
 src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index b34fdd8..1c779d3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2427,6 +2427,13 @@ where
                         let _ = self.next_item()?;
                         if self.at_punct(Punct::CloseParen) {
                             let _ = self.next_item()?;
+                            if !self.at_punct(Punct::FatArrow) {
+                                self.expect_punct(Punct::FatArrow)?;
+                            }
+                            if !self.context.is_binding_element {
+                                return self
+                                    .expected_token_error(&self.look_ahead, &["binding element"]);
+                            }
                             return Ok(Expr::ArrowParamPlaceHolder(
                                 exprs.into_iter().map(|e| FunctionArg::Expr(e)).collect(),
                                 false,
@@ -2440,6 +2447,9 @@ where
                                 exprs.into_iter().map(|e| FunctionArg::Expr(e)).collect();
                             args.push(FunctionArg::Pat(rest));
                             self.expect_punct(Punct::CloseParen)?;
+                            if !self.at_punct(Punct::FatArrow) {
+                                self.expect_punct(Punct::FatArrow)?;
+                            }
                             return Ok(Expr::ArrowParamPlaceHolder(args, false));
                         } else {
                             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
-- 
2.43.0


From a1ffaaa780b7906d1eb5179de5112d8550a41900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 21/71] fix: give the body of an arrow function its own await
 and yield context

---
 src/lib.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 1c779d3..d99f028 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3083,7 +3083,17 @@ where
                 self.context.is_binding_element = false;
                 let is_async = Self::is_async(&current);
                 if let Some(params) = self.reinterpret_as_cover_formals_list(current.clone())? {
+                    if self.context.has_line_term {
+                        return self.unexpected_token_error(&self.look_ahead, "new line before =>");
+                    }
                     self.expect_punct(Punct::FatArrow)?;
+                    let prev_await = self.context.r#await;
+                    let prev_yield = self.context.allow_yield;
+                    let prev_strict = self.context.strict;
+                    let prev_allow_strict = self.context.allow_strict_directive;
+                    self.context.r#await = is_async;
+                    self.context.allow_yield = true;
+                    self.context.allow_strict_directive = params.iter().all(Self::is_simple);
                     if self.at_punct(Punct::OpenBrace) {
                         let prev_in = self.context.allow_in;
                         self.context.allow_in = true;
@@ -3110,6 +3120,10 @@ where
                             body: ArrowFunctionBody::Expr(Box::new(a)),
                         });
                     };
+                    self.context.r#await = prev_await;
+                    self.context.allow_yield = prev_yield;
+                    self.context.strict = prev_strict;
+                    self.context.allow_strict_directive = prev_allow_strict;
                 }
             } else {
                 if self.at_assign() {
-- 
2.43.0


From 264cc0ceabf20237161cf728d2ce7eabf26776d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 22/71] fix: take only async followed by valid parameters as
 the head of an async arrow function

---
 src/lib.rs | 45 ++++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d99f028..2b77126 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3061,13 +3061,11 @@ where
             return self.parse_yield_expr();
         } else {
             let ress::Span { start, end } = self.look_ahead.span;
-            let start_pos = self.look_ahead_position;
             let mut current = self.parse_conditional_expr()?;
-            let curr_line = self.look_ahead_position.line;
-            let start_line = start_pos.line;
             if &self.scanner.stream[start..end] == "async"
-                && curr_line == start_line
-                && (self.look_ahead.token.is_ident() || self.at_keyword(Keyword::Yield))
+                && Self::is_ident(&current)
+                && !self.context.has_line_term
+                && self.is_var_ident(&self.look_ahead.token)
             {
                 let arg = self.parse_primary_expression()?;
                 let arg = self.reinterpret_expr_as_pat(arg)?;
@@ -3893,16 +3891,20 @@ where
                 debug!(target: "look_ahead", "1 {:?}", expr);
             } else if self.at_punct(Punct::OpenParen) {
                 let current_pos = self.look_ahead_position;
-                let async_arrow = is_async && start_pos.line == current_pos.line;
+                let async_arrow =
+                    is_async && Self::is_ident(&expr) && start_pos.line == current_pos.line;
                 self.context.is_binding_element = false;
                 self.context.is_assignment_target = false;
-                let args = if async_arrow {
+                let (args, are_params) = if async_arrow {
                     self.parse_async_args()?
                 } else {
-                    self.parse_args()?
+                    (self.parse_args()?, false)
                 };
                 //TODO: check for bad import call
                 if async_arrow && self.at_punct(Punct::FatArrow) {
+                    if !are_params {
+                        return self.expected_token_error(&self.look_ahead, &["binding element"]);
+                    }
                     let args = args.into_iter().map(|a| FunctionArg::Expr(a)).collect();
                     expr = Expr::ArrowParamPlaceHolder(args, true);
                 } else {
@@ -3942,20 +3944,26 @@ where
         Ok(expr)
     }
     /// Parse the arguments of an async function
-    fn parse_async_args(&mut self) -> Res<Vec<Expr>> {
+    /// the flag tells if they could also be the
+    /// parameters of an async arrow function
+    fn parse_async_args(&mut self) -> Res<(Vec<Expr>, bool)> {
         debug!("parse_async_args");
         self.expect_punct(Punct::OpenParen)?;
         let mut ret = vec![];
+        let mut are_params = true;
         if !self.at_punct(Punct::CloseParen) {
             loop {
+                let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
                 let arg = if self.at_punct(Punct::Spread) {
-                    self.parse_spread_element()?
-                } else {
-                    let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-                    let arg = self.parse_async_arg()?;
-                    self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
+                    let arg = self.parse_spread_element()?;
+                    are_params =
+                        are_params && !Self::has_default(&arg) && self.at_punct(Punct::CloseParen);
                     arg
+                } else {
+                    self.parse_async_arg()?
                 };
+                are_params = are_params && self.context.is_binding_element;
+                self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
                 ret.push(arg);
                 if self.at_punct(Punct::CloseParen) {
                     break;
@@ -3967,7 +3975,14 @@ where
             }
         }
         self.expect_punct(Punct::CloseParen)?;
-        Ok(ret)
+        Ok((ret, are_params))
+    }
+    /// Is this an element of the form `...target = value`
+    fn has_default(spread: &Expr) -> bool {
+        match spread {
+            Expr::Spread(ref e) => Self::is_assignment_expr(e),
+            _ => false,
+        }
     }
     /// Parse an argument of an async function
     /// note: not sure this is needed
-- 
2.43.0


From 19fe5a4748c4e4af983d7aa168c129076d62fadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 23/71] fix: parse every method in the await and yield context
 of its own kind

---
 src/lib.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2b77126..d31d606 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1906,7 +1906,6 @@ where
             if at_get {
                 kind = Some(PropertyKind::Get);
                 computed = self.at_punct(Punct::OpenBracket);
-                self.context.allow_yield = false;
                 key = Some(self.parse_object_property_key()?);
                 value = Some(self.parse_getter_method()?);
             } else if at_set {
@@ -2038,6 +2037,15 @@ where
         }
     }
 
+    /// Set the await and yield context for a method that is not async
+    /// returning the values to restore after its body
+    fn enter_method(&mut self, is_gen: bool) -> (bool, bool) {
+        (
+            replace(&mut self.context.r#await, false),
+            replace(&mut self.context.allow_yield, !is_gen),
+        )
+    }
+
     fn parse_async_property_method(&mut self) -> Res<PropertyValue> {
         debug!("parse_property_method_async_fn");
         let prev_yield = self.context.allow_yield;
@@ -2060,10 +2068,10 @@ where
 
     fn parse_property_method(&mut self) -> Res<PropertyValue> {
         debug!("parse_property_method");
-        let prev_yield = self.context.allow_yield;
-        self.context.allow_yield = false;
+        let (prev_await, prev_yield) = self.enter_method(false);
         let params = self.parse_formal_params()?;
         let body = self.parse_property_method_body(params.simple, params.found_restricted)?;
+        self.context.r#await = prev_await;
         self.context.allow_yield = prev_yield;
         let func = Function {
             id: None,
@@ -2077,11 +2085,10 @@ where
 
     fn parse_generator_method(&mut self) -> Res<PropertyValue> {
         debug!("pares_generator_method");
-        let prev_yield = self.context.allow_yield;
-        self.context.allow_yield = true;
+        let (prev_await, prev_yield) = self.enter_method(true);
         let params = self.parse_formal_params()?;
-        self.context.allow_yield = false;
         let body = self.parse_method_body(params.simple, params.found_restricted)?;
+        self.context.r#await = prev_await;
         self.context.allow_yield = prev_yield;
         let func = Function {
             id: None,
@@ -2096,13 +2103,14 @@ where
     fn parse_getter_method(&mut self) -> Res<PropertyValue> {
         debug!("parse_getter_method");
         let is_gen = false;
-        let prev_yield = self.context.allow_yield;
+        let (prev_await, prev_yield) = self.enter_method(false);
         let start_position = self.look_ahead_position;
         let formal_params = self.parse_formal_params()?;
         if formal_params.params.len() > 0 {
             self.tolerate_error(Error::InvalidGetterParams(start_position))?;
         }
         let body = self.parse_method_body(formal_params.simple, formal_params.found_restricted)?;
+        self.context.r#await = prev_await;
         self.context.allow_yield = prev_yield;
         Ok(PropertyValue::Expr(Expr::Function(Function {
             id: None,
@@ -2134,11 +2142,9 @@ where
 
     fn parse_setter_method(&mut self) -> Res<PropertyValue> {
         debug!("parse_setter_method");
-        let prev_allow = self.context.allow_yield;
-        self.context.allow_yield = true;
+        let (prev_await, prev_yield) = self.enter_method(false);
         let start_position = self.look_ahead_position;
         let params = self.parse_formal_params()?;
-        self.context.allow_yield = prev_allow;
         if params.params.len() != 1 {
             self.tolerate_error(Error::InvalidSetterParams(start_position))?;
         } else if let Some(ref param) = params.params.get(0) {
@@ -2147,6 +2153,8 @@ where
             }
         }
         let body = self.parse_property_method_body(params.simple, params.found_restricted)?;
+        self.context.r#await = prev_await;
+        self.context.allow_yield = prev_yield;
         let func = Function {
             id: None,
             params: params.params,
-- 
2.43.0


From 5bc2db27c9d4ec41bfad9c0e50bb270d42ae4742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 24/71] fix: accept an assignment as a property value whatever
 stands before it

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d31d606..a96402b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2625,7 +2625,7 @@ where
                         has_proto = true;
                     }
                     let _ = self.next_item()?;
-                    let (prev_bind, prev_assign, prev_first) = self.get_cover_grammar_state();
+                    let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
                     let value = self.parse_assignment_expr()?;
                     self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
                     ObjectProperty::Property(Property {
@@ -3034,7 +3034,9 @@ where
             let value = if self.at_punct(Punct::Assign) {
                 self.expect_punct(Punct::Assign)?;
                 short_hand = true;
+                let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
                 let e = self.parse_assignment_expr()?;
+                self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
                 PropertyValue::Expr(e)
             } else if !self.at_punct(Punct::Colon) {
                 short_hand = true;
-- 
2.43.0


From 3ca5c577feb5e94fecd2c8b350965df5750f32e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 25/71] fix: tell the modifier async from a property named
 async in an object literal

---
 src/lib.rs | 45 +++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a96402b..b75baa3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1926,7 +1926,7 @@ where
             kind = Some(PropertyKind::Init);
             method = true;
             value = Some(if is_async {
-                self.parse_async_property_method()?
+                self.parse_async_property_method(false)?
             } else {
                 self.parse_property_method()?
             });
@@ -2046,11 +2046,11 @@ where
         )
     }
 
-    fn parse_async_property_method(&mut self) -> Res<PropertyValue> {
+    fn parse_async_property_method(&mut self, is_gen: bool) -> Res<PropertyValue> {
         debug!("parse_property_method_async_fn");
         let prev_yield = self.context.allow_yield;
         let prev_await = self.context.r#await;
-        self.context.allow_yield = false;
+        self.context.allow_yield = !is_gen;
         self.context.r#await = true;
         let params = self.parse_formal_params()?;
         let body = self.parse_property_method_body(params.simple, params.found_restricted)?;
@@ -2060,7 +2060,7 @@ where
             id: None,
             params: params.params,
             is_async: true,
-            generator: false,
+            generator: is_gen,
             body,
         };
         Ok(PropertyValue::Expr(Expr::Function(func)))
@@ -2554,28 +2554,33 @@ where
         let start = self.look_ahead.clone();
         let start_pos = self.look_ahead_position;
         let mut has_proto = has_proto;
-        let (key, is_async, computed) = if let Token::Ident = start.token {
+        let (key, is_async, is_gen, computed) = if let Token::Ident = start.token {
             let id = self.scanner.string_for(&start.span).unwrap_or(String::new());
             let _ = self.next_item()?;
-            let computed = self.at_punct(Punct::OpenBracket);
-            let is_async = /*self.context.has_line_term
-                && */id == "async"/*
-                && !self.at_punct(Punct::Colon)
-                && !self.at_punct(Punct::Asterisk)
-                && !self.at_punct(Punct::Comma)*/;
-            let key = if is_async {
-                self.parse_object_property_key()?
+            let is_async = id == "async"
+                && !self.context.has_line_term
+                && (self.at_qualified_prop_key() || self.at_punct(Punct::Asterisk));
+            if is_async {
+                let is_gen = self.at_punct(Punct::Asterisk);
+                if is_gen {
+                    let _ = self.next_item()?;
+                }
+                let computed = self.at_punct(Punct::OpenBracket);
+                let key = self.parse_object_property_key()?;
+                if !self.at_punct(Punct::OpenParen) {
+                    return self.expected_token_error(&self.look_ahead, &["("]);
+                }
+                (Some(key), is_async, is_gen, computed)
             } else {
-                PropertyKey::Expr(Expr::Ident(id))
-            };
-            (Some(key), is_async, computed)
+                (Some(PropertyKey::Expr(Expr::Ident(id))), is_async, false, false)
+            }
         } else if self.at_punct(Punct::Asterisk) {
             self.next_item()?;
-            (None, false, false)
+            (None, false, true, false)
         } else {
             let computed = self.at_punct(Punct::OpenBracket);
             let key = self.parse_object_property_key()?;
-            (Some(key), false, computed)
+            (Some(key), false, false, computed)
         };
         let at_qualified = self.at_qualified_prop_key();
         let prop = if &self.scanner.stream[start.span.start..start.span.end] == "get"
@@ -2641,7 +2646,7 @@ where
                         computed,
                         key,
                         value: if is_async {
-                            self.parse_async_property_method()?
+                            self.parse_async_property_method(is_gen)?
                         } else {
                             self.parse_property_method()?
                         },
@@ -2649,7 +2654,7 @@ where
                         method: true,
                         short_hand: false,
                     })
-                } else if start.token.is_ident() {
+                } else if self.is_var_ident(&start.token) {
                     if self.at_punct(Punct::Assign) {
                         self.context.first_covert_initialized_name_error =
                             Some(self.look_ahead.clone());
-- 
2.43.0


From 4b5080d110958cbc8cc9d0d60551feec04245bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 26/71] fix: parse the declaration of an async generator

---
 src/lib.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b75baa3..9160ed2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1695,15 +1695,10 @@ where
             false
         };
         self.expect_keyword(Keyword::Function)?;
-        let is_gen = if is_async {
-            false
-        } else {
-            let is_gen = self.at_punct(Punct::Asterisk);
-            if is_gen {
-                let _ = self.next_item()?;
-            }
-            is_gen
-        };
+        let is_gen = self.at_punct(Punct::Asterisk);
+        if is_gen {
+            let _ = self.next_item()?;
+        }
         let (id, first_restricted) = if !opt_ident || !self.at_punct(Punct::OpenParen) {
             let start = self.look_ahead.clone();
             let id = self.parse_var_ident()?;
-- 
2.43.0


From f79d7ea1c3118d3ca487813e7c8ee6f612154ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 27/71] fix: keep the superclass of an anonymous class and the
 names of exported declarations

---
 src/lib.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9160ed2..a0f7262 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -788,12 +788,12 @@ where
                 self.consume_semicolon()?;
                 Ok(ModExport::Named(decl))
             } else if self.look_ahead.token.matches_keyword(&Keyword::Class) {
-                let class = self.parse_class_decl(true)?;
+                let class = self.parse_class_decl(false)?;
                 let decl = Decl::Class(class);
                 let decl = NamedExportDecl::Decl(decl);
                 Ok(ModExport::Named(decl))
             } else if self.look_ahead.token.matches_keyword(&Keyword::Function) {
-                let func = self.parse_function_decl(true)?;
+                let func = self.parse_function_decl(false)?;
                 let decl = Decl::Function(func);
                 let decl = NamedExportDecl::Decl(decl);
                 Ok(ModExport::Named(decl))
@@ -1784,21 +1784,14 @@ where
         let prev_strict = self.context.strict;
         self.context.strict = true;
         self.expect_keyword(Keyword::Class)?;
-        let mut super_class = if self.at_contextual_keyword("extends") {
-            let _ = self.next_item()?;
-            let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-            let super_class = self.parse_left_hand_side_expr()?;
-            self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
-            Some(Box::new(super_class))
-        } else {
-            None
-        };
-        let id = if opt_ident && !self.look_ahead.token.is_ident() {
+        let id = if opt_ident
+            && (self.at_contextual_keyword("extends") || self.at_punct(Punct::OpenBrace))
+        {
             None
         } else {
             Some(self.parse_var_ident()?)
         };
-        super_class = if super_class.is_none() && self.at_contextual_keyword("extends") {
+        let super_class = if self.at_contextual_keyword("extends") {
             let _ = self.next_item()?;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
             let super_class = self.parse_left_hand_side_expr()?;
-- 
2.43.0


From 46525c5abffbaae9be9b96b61e7ed57e55d08cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 28/71] fix: reject an assignment to a function, class,
 template, await or new.target

---
 src/lib.rs | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a0f7262..54653b8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2275,7 +2275,10 @@ where
                 }
             }
             if self.at_async_function() {
-                self.parse_function_expr()
+                let func = self.parse_function_expr()?;
+                self.context.is_assignment_target = false;
+                self.context.is_binding_element = false;
+                Ok(func)
             } else {
                 let ident = self.next_item()?;
                 Ok(Expr::Ident(self.get_string(&ident.span)?))
@@ -2313,6 +2316,8 @@ where
             Ok(Expr::Literal(Literal::Null))
         } else if self.look_ahead.is_template() {
             let lit = self.parse_template_literal()?;
+            self.context.is_assignment_target = false;
+            self.context.is_binding_element = false;
             Ok(Expr::Literal(Literal::Template(lit)))
         } else if self.look_ahead.token.is_punct() {
             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
@@ -2349,26 +2354,27 @@ where
                 let ident = self.parse_ident_name()?;
                 Ok(Expr::Ident(ident))
             } else {
-                self.context.is_assignment_target = false;
-                self.context.is_binding_element = false;
-                if self.at_keyword(Keyword::Function) {
-                    self.parse_function_expr()
+                let expr = if self.at_keyword(Keyword::Function) {
+                    self.parse_function_expr()?
                 } else if self.at_keyword(Keyword::This) {
                     let _ = self.next_item()?;
-                    Ok(Expr::This)
+                    Expr::This
                 } else if self.at_keyword(Keyword::Class) {
                     let cls = self.parse_class_decl(true)?;
-                    Ok(Expr::Class(cls))
+                    Expr::Class(cls)
                 } else if self.at_import_call() {
                     // TODO: Double check this
                     let ident = self.parse_ident_name()?;
-                    Ok(Expr::Ident(ident))
+                    Expr::Ident(ident)
                 } else {
-                    self.expected_token_error(
+                    return self.expected_token_error(
                         &self.look_ahead,
                         &["function", "this", "class", "import"],
-                    )
-                }
+                    );
+                };
+                self.context.is_assignment_target = false;
+                self.context.is_binding_element = false;
+                Ok(expr)
             }
         } else {
             self.expected_token_error(
@@ -3686,6 +3692,8 @@ where
         debug!("parse_await_expr");
         let _await = self.next_item()?;
         let arg = self.parse_unary_expression()?;
+        self.context.is_assignment_target = false;
+        self.context.is_binding_element = false;
         Ok(Expr::Await(Box::new(arg)))
     }
 
@@ -3934,6 +3942,8 @@ where
                 expr = Expr::Member(member);
             } else if self.look_ahead.token.is_template_head() {
                 let quasi = self.parse_template_literal()?;
+                self.context.is_assignment_target = false;
+                self.context.is_binding_element = false;
                 let temp = TaggedTemplateExpr {
                     tag: Box::new(expr),
                     quasi,
@@ -4063,6 +4073,8 @@ where
             let _ = self.next_item()?;
             if self.at_contextual_keyword("target") && self.context.in_function_body {
                 let property = self.parse_ident_name()?;
+                self.context.is_assignment_target = false;
+                self.context.is_binding_element = false;
                 Ok(Expr::MetaProperty(MetaProperty {
                     meta: String::from("new"),
                     property,
-- 
2.43.0


From bbb13b5c7ce806f48ad533501319593cc3be7dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 29/71] fix: reject a unary operator on the left of the
 exponent operator

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 54653b8..7b606c1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3566,10 +3566,18 @@ where
 
     fn parse_exponentiation_expression(&mut self) -> Res<Expr> {
         debug!("parse_exponentiation_expression");
+        let start = self.look_ahead.clone();
         let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
         let expr = self.parse_unary_expression()?;
         self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
         if self.at_punct(Punct::Exponent) {
+            match expr {
+                Expr::Unary(_) | Expr::Await(_) if !start.token.matches_punct(&Punct::OpenParen) => {
+                    return self
+                        .unexpected_token_error(&self.look_ahead, "unary operator before `**`");
+                }
+                _ => (),
+            }
             let _stars = self.next_item()?;
             self.context.is_assignment_target = false;
             self.context.is_binding_element = false;
-- 
2.43.0


From 0a73990e98c9d1f6adcbcdae1cb1708ea4d39f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 30/71] fix: allow imports and exports only at the top level of
 a module

---
 src/lib.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7b606c1..7627ec3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -545,6 +545,10 @@ where
     /// statement or declaration (import/export/function/const/let/class)
     /// otherwise we move on to `Parser::parse_statement`
     fn parse_statement_list_item(&mut self) -> Res<ProgramPart> {
+        self.parse_list_item(false)
+    }
+
+    fn parse_list_item(&mut self, top_level: bool) -> Res<ProgramPart> {
         debug!("parse_statement_list_item_script");
         self.context.is_assignment_target = true;
         self.context.is_binding_element = true;
@@ -556,15 +560,14 @@ where
                         let stmt = self.parse_statement()?;
                         Ok(ProgramPart::Stmt(stmt))
                     } else {
-                        if !self.context.is_module {
-                            //Error
-                        }
+                        self.check_module_item(top_level)?;
                         let import = self.parse_import_decl()?;
                         let decl = Decl::Import(Box::new(import));
                         Ok(ProgramPart::Decl(decl))
                     }
                 }
                 &Keyword::Export => {
+                    self.check_module_item(top_level)?;
                     let export = self.parse_export_decl()?;
                     let decl = Decl::Export(Box::new(export));
                     Ok(ProgramPart::Decl(decl))
@@ -602,6 +605,16 @@ where
         };
         ret
     }
+    /// Imports and exports are only allowed at the top level of a module
+    fn check_module_item(&self, top_level: bool) -> Res<()> {
+        if (!top_level || !self.context.is_module) && !self.config.tolerant {
+            return self.unexpected_token_error(
+                &self.look_ahead,
+                "imports and exports are only allowed at the top level of a module",
+            );
+        }
+        Ok(())
+    }
     /// This will cover all possible import statements supported
     /// ```js
     /// import * as Stuff from 'place'; //namespace
@@ -612,9 +625,6 @@ where
     /// import 'place';
     /// ```
     fn parse_import_decl(&mut self) -> Res<ModImport> {
-        if self.context.in_function_body {
-            //error
-        }
         self.expect_keyword(Keyword::Import)?;
         // if the next toke is a string we are at an import
         // with not specifiers
@@ -727,9 +737,6 @@ where
     }
 
     fn parse_export_decl(&mut self) -> Res<ModExport> {
-        if self.context.in_function_body {
-            //error
-        }
         self.expect_keyword(Keyword::Export)?;
         if self.at_keyword(Keyword::Default) {
             let _ = self.next_item()?;
@@ -4621,7 +4628,7 @@ where
                 self.context.past_prolog = true;
             }
         }
-        let ret = self.parse_statement_list_item()?;
+        let ret = self.parse_list_item(true)?;
         trace!(target: "resp:trace", "{:?}", ret);
         Ok(ret)
     }
-- 
2.43.0


From 076541a6a756986f009544c2f05ecf2779e4bae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 31/71] fix: bind only variable identifiers in an import

---
 src/lib.rs | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7627ec3..0f6e0d8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -699,24 +699,16 @@ where
     }
 
     fn parse_import_specifier(&mut self) -> Res<ImportSpecifier> {
-        let (imported, local) = if self.look_ahead.token.is_ident() {
-            let imported = self.parse_var_ident()?;
-            let local = if self.at_contextual_keyword("as") {
-                let _ = self.next_item();
-                Some(self.parse_var_ident()?)
-            } else {
-                None
-            };
-            (imported, local)
+        let start = self.look_ahead.clone();
+        let imported = self.parse_ident_name()?;
+        let local = if self.at_contextual_keyword("as") {
+            let _ = self.next_item()?;
+            Some(self.parse_var_ident()?)
+        } else if !self.is_var_ident(&start.token) {
+            // without a local name the imported name is the binding
+            return self.expected_token_error(&start, &["variable identifier"]);
         } else {
-            let imported = self.parse_ident_name()?;
-            let local = if self.at_contextual_keyword("as") {
-                let _ = self.next_item()?;
-                Some(self.parse_var_ident()?)
-            } else {
-                None
-            };
-            (imported, local)
+            None
         };
         Ok(ImportSpecifier::Normal(imported, local))
     }
@@ -727,12 +719,12 @@ where
             return self.expected_token_error(&self.look_ahead, &["as"]);
         }
         let _ = self.next_item()?;
-        let ident = self.parse_ident_name()?;
+        let ident = self.parse_var_ident()?;
         Ok(ImportSpecifier::Namespace(ident))
     }
 
     fn parse_import_default_specifier(&mut self) -> Res<ImportSpecifier> {
-        let ident = self.parse_ident_name()?;
+        let ident = self.parse_var_ident()?;
         Ok(ImportSpecifier::Default(ident))
     }
 
-- 
2.43.0


From 3df71d3f5f51c2fd02faf092fcb2bc3714d01dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 32/71] fix: parse the whole expression of a default export and
 its semicolon

---
 src/lib.rs | 31 +++++++++----------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0f6e0d8..f579dad 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -738,29 +738,16 @@ where
             } else if self.at_keyword(Keyword::Class) {
                 let class = Decl::Class(self.parse_class_decl(true)?);
                 DefaultExportDecl::Decl(class)
-            } else if self.at_contextual_keyword("async") {
-                if self.at_async_function() {
-                    let func = self.parse_function_decl(true)?;
-                    let decl = Decl::Function(func);
-                    DefaultExportDecl::Decl(decl)
-                } else {
-                    let expr = self.parse_assignment_expr()?;
-                    DefaultExportDecl::Expr(expr)
-                }
+            } else if self.at_async_function() {
+                let func = self.parse_function_decl(true)?;
+                let decl = Decl::Function(func);
+                DefaultExportDecl::Decl(decl)
             } else {
-                if self.at_contextual_keyword("from") {
-                    //error
-                }
-                if self.at_punct(Punct::OpenBrace) {
-                    let expr = self.parse_obj_init()?;
-                    DefaultExportDecl::Expr(expr)
-                } else if self.at_punct(Punct::OpenBracket) {
-                    let expr = self.parse_array_init()?;
-                    DefaultExportDecl::Expr(expr)
-                } else {
-                    let expr = self.parse_assignment_expr()?;
-                    DefaultExportDecl::Expr(expr)
-                }
+                let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
+                let expr = self.parse_assignment_expr()?;
+                self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
+                self.consume_semicolon()?;
+                DefaultExportDecl::Expr(expr)
             };
             Ok(ModExport::Default(decl))
         } else if self.at_punct(Punct::Asterisk) {
-- 
2.43.0


From 18821fb5d78eeec0175e76cd25d65914730a1d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 33/71] fix: check from and the names in an export declaration

---
 src/lib.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f579dad..390abfd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -753,7 +753,7 @@ where
         } else if self.at_punct(Punct::Asterisk) {
             let _ = self.next_item()?;
             if !self.at_contextual_keyword("from") {
-                //error
+                return self.expected_token_error(&self.look_ahead, &["from"]);
             }
             let _ = self.next_item()?;
             let source = self.parse_module_specifier()?;
@@ -765,7 +765,6 @@ where
             {
                 let lex = self.parse_lexical_decl(false)?;
                 let decl = NamedExportDecl::Decl(lex);
-                self.consume_semicolon()?;
                 Ok(ModExport::Named(decl))
             } else if self.look_ahead.token.matches_keyword(&Keyword::Var) {
                 let _ = self.next_item()?;
@@ -797,10 +796,10 @@ where
         } else {
             self.expect_punct(Punct::OpenBrace)?;
             let mut specifiers = vec![];
-            let mut found_default = false;
+            let mut found_reserved = false;
             while !self.at_punct(Punct::CloseBrace) {
-                if self.at_keyword(Keyword::Default) {
-                    found_default = true;
+                if !self.is_var_ident(&self.look_ahead.token) {
+                    found_reserved = true;
                 }
                 specifiers.push(self.parse_export_specifier()?);
                 if !self.at_punct(Punct::CloseBrace) {
@@ -814,7 +813,7 @@ where
                 self.consume_semicolon()?;
                 let decl = NamedExportDecl::Specifier(specifiers, Some(source));
                 Ok(ModExport::Named(decl))
-            } else if found_default {
+            } else if found_reserved {
                 self.expected_token_error(&self.look_ahead, &[""])
             } else {
                 self.consume_semicolon()?;
-- 
2.43.0


From bacdd15de79a4d81a19d13d181c4d731aeefec78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 34/71] fix: treat extends as a reserved word

---
 src/lib.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 390abfd..0d9063c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -704,7 +704,7 @@ where
         let local = if self.at_contextual_keyword("as") {
             let _ = self.next_item()?;
             Some(self.parse_var_ident()?)
-        } else if !self.is_var_ident(&start.token) {
+        } else if !self.is_var_ident(&start) {
             // without a local name the imported name is the binding
             return self.expected_token_error(&start, &["variable identifier"]);
         } else {
@@ -798,7 +798,7 @@ where
             let mut specifiers = vec![];
             let mut found_reserved = false;
             while !self.at_punct(Punct::CloseBrace) {
-                if !self.is_var_ident(&self.look_ahead.token) {
+                if !self.is_var_ident(&self.look_ahead) {
                     found_reserved = true;
                 }
                 specifiers.push(self.parse_export_specifier()?);
@@ -896,7 +896,7 @@ where
                 Keyword::Var => self.parse_var_stmt()?,
                 Keyword::While => Stmt::While(self.parse_while_stmt()?),
                 Keyword::With => Stmt::With(self.parse_with_stmt()?),
-                _ if self.is_var_ident(&lh) => self.parse_labelled_statement()?,
+                _ if self.is_var_ident(&self.look_ahead) => self.parse_labelled_statement()?,
                 _ => Stmt::Expr(self.parse_expression_statement()?),
             },
             _ => return self.expected_token_error(&self.look_ahead, &[]),
@@ -1440,7 +1440,7 @@ where
         debug!("parse_optionally_labeled_statement");
         let start = self.look_ahead.clone();
         self.expect_keyword(k.clone())?;
-        let ret = if self.is_var_ident(&self.look_ahead.token) && !self.context.has_line_term {
+        let ret = if self.is_var_ident(&self.look_ahead) && !self.context.has_line_term {
             let label = self.look_ahead.clone();
             let id = self.parse_var_ident()?;
             if !self.context.label_set.contains(&format!("${}", &id)) && !self.config.tolerant {
@@ -2265,8 +2265,7 @@ where
                 self.context.is_binding_element = false;
                 Ok(func)
             } else {
-                let ident = self.next_item()?;
-                Ok(Expr::Ident(self.get_string(&ident.span)?))
+                Ok(Expr::Ident(self.parse_var_ident()?))
             }
         } else if self.look_ahead.token.is_number() || self.look_ahead.token.is_string() {
             // if self.context.strict && self.look_ahead.token.is_oct_literal() {
@@ -2335,7 +2334,7 @@ where
             };
             Ok(Expr::Literal(Literal::RegEx(lit)))
         } else if self.look_ahead.token.is_keyword() {
-            if self.is_var_ident(&self.look_ahead.token) {
+            if self.is_var_ident(&self.look_ahead) {
                 let ident = self.parse_ident_name()?;
                 Ok(Expr::Ident(ident))
             } else {
@@ -2633,7 +2632,7 @@ where
                         method: true,
                         short_hand: false,
                     })
-                } else if self.is_var_ident(&start.token) {
+                } else if self.is_var_ident(&start) {
                     if self.at_punct(Punct::Assign) {
                         self.context.first_covert_initialized_name_error =
                             Some(self.look_ahead.clone());
@@ -2809,7 +2808,7 @@ where
     fn parse_var_ident(&mut self) -> Res<Identifier> {
         debug!("parse_var_ident");
         let ident = self.next_item()?;
-        if !self.is_var_ident(&ident.token) {
+        if !self.is_var_ident(&ident) {
             return self.expected_token_error(&ident, &["variable identifier"]);
         }
         self.get_string(&ident.span)
@@ -2817,9 +2816,10 @@ where
 
     /// Can this token be the name of a variable, function, class or label
     /// (or a reference to one) in the current context
-    fn is_var_ident(&self, token: &Token) -> bool {
-        match token {
-            Token::Ident => true,
+    fn is_var_ident(&self, item: &Item) -> bool {
+        match &item.token {
+            // the scanner has no keyword for `extends`
+            Token::Ident => &self.scanner.stream[item.span.start..item.span.end] != "extends",
             Token::Keyword(Keyword::Yield) => !self.context.strict && self.context.allow_yield,
             Token::Keyword(Keyword::Await) => !self.context.is_module && !self.context.r#await,
             token => !self.context.strict && token.is_strict_reserved(),
@@ -3013,7 +3013,7 @@ where
         let mut computed = false;
         let mut short_hand = false;
         let method = false;
-        let (key, value) = if self.is_var_ident(&self.look_ahead.token) {
+        let (key, value) = if self.is_var_ident(&self.look_ahead) {
             let key = PropertyKey::Expr(Expr::Ident(self.parse_var_ident()?));
             let value = if self.at_punct(Punct::Assign) {
                 self.expect_punct(Punct::Assign)?;
@@ -3059,7 +3059,7 @@ where
             if &self.scanner.stream[start..end] == "async"
                 && Self::is_ident(&current)
                 && !self.context.has_line_term
-                && self.is_var_ident(&self.look_ahead.token)
+                && self.is_var_ident(&self.look_ahead)
             {
                 let arg = self.parse_primary_expression()?;
                 let arg = self.reinterpret_expr_as_pat(arg)?;
@@ -4498,7 +4498,7 @@ where
                 || token.matches_keyword(&Keyword::Yield)
                 || token.matches_keyword(&Keyword::Await)
                 || token.matches_keyword(&Keyword::Import)
-                || self.is_var_ident(token)
+                || self.is_var_ident(&self.look_ahead)
         }
         if self.look_ahead.is_template() {
             ret = token.is_template_head();
-- 
2.43.0


From d87e73ae8079fcd645265866dad15e61f569e96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:07 +0000
Subject: [PATCH 35/71] fix: end a directive prologue at the first statement
 and parse it inside the function

---
 src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0d9063c..6f82b34 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -512,7 +512,15 @@ where
             if !self.look_ahead.token.is_string() {
                 break;
             }
-            ret.push(self.parse_directive()?);
+            let part = self.parse_directive()?;
+            let is_dir = match &part {
+                ProgramPart::Dir(_) => true,
+                _ => false,
+            };
+            ret.push(part);
+            if !is_dir {
+                break;
+            }
         }
         Ok(ret)
     }
@@ -1741,7 +1749,6 @@ where
     fn parse_function_source_el(&mut self) -> Res<FunctionBody> {
         debug!("parse_function_source_el");
         self.expect_punct(Punct::OpenBrace)?;
-        let mut body = self.parse_directive_prologues()?;
         let prev_label = self.context.label_set.clone();
         let prev_iter = self.context.in_iteration;
         let prev_switch = self.context.in_switch;
@@ -1750,6 +1757,7 @@ where
         self.context.in_iteration = false;
         self.context.in_switch = false;
         self.context.in_function_body = true;
+        let mut body = self.parse_directive_prologues()?;
         while !self.look_ahead.token.is_eof() {
             if self.at_punct(Punct::CloseBrace) {
                 break;
-- 
2.43.0


From e4983c731f7bf86d976ae1ec4029f50709c2e928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 36/71] fix: apply the use strict directive

---
 src/lib.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6f82b34..644bcec 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -531,12 +531,17 @@ where
         let expr = self.parse_expression()?;
         if let Expr::Literal(lit) = expr {
             if let Literal::String(s) = lit {
-                if !self.context.allow_strict_directive && s == "use strict" {
-                    return self.unexpected_token_error(&orig, "use strict in an invalid location");
+                let dir = s[1..s.len() - 1].to_string();
+                if dir == "use strict" {
+                    if !self.context.allow_strict_directive {
+                        return self
+                            .unexpected_token_error(&orig, "use strict in an invalid location");
+                    }
+                    self.context.strict = true;
                 }
                 self.consume_semicolon()?;
                 return Ok(ProgramPart::Dir(Dir {
-                    dir: s.trim_matches(|c| c == '\'' || c == '"').to_string(),
+                    dir,
                     expr: Literal::String(s),
                 }));
             } else {
@@ -2772,7 +2777,8 @@ where
         let formal_params = self.parse_formal_params()?;
         found_restricted = found_restricted || formal_params.found_restricted;
         let prev_strict = self.context.strict;
-        let prev_strict_dir = formal_params.simple;
+        let prev_strict_dir = self.context.allow_strict_directive;
+        self.context.allow_strict_directive = formal_params.simple;
         let start = self.look_ahead.clone();
         let body = self.parse_function_source_el()?;
         if self.context.strict && found_restricted {
-- 
2.43.0


From 5656ceebe4369563913c7478682e179c51fdffe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 37/71] fix: reject names restricted in strict mode wherever
 they are bound

---
 src/lib.rs | 169 ++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 122 insertions(+), 47 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 644bcec..c4a65e2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -716,8 +716,10 @@ where
         let imported = self.parse_ident_name()?;
         let local = if self.at_contextual_keyword("as") {
             let _ = self.next_item()?;
-            Some(self.parse_var_ident()?)
-        } else if !self.is_var_ident(&start) {
+            Some(self.parse_binding_ident()?)
+        } else if !self.is_var_ident(&start)
+            || (self.context.strict && Self::is_restricted_word(&imported))
+        {
             // without a local name the imported name is the binding
             return self.expected_token_error(&start, &["variable identifier"]);
         } else {
@@ -732,12 +734,12 @@ where
             return self.expected_token_error(&self.look_ahead, &["as"]);
         }
         let _ = self.next_item()?;
-        let ident = self.parse_var_ident()?;
+        let ident = self.parse_binding_ident()?;
         Ok(ImportSpecifier::Namespace(ident))
     }
 
     fn parse_import_default_specifier(&mut self) -> Res<ImportSpecifier> {
-        let ident = self.parse_var_ident()?;
+        let ident = self.parse_binding_ident()?;
         Ok(ImportSpecifier::Default(ident))
     }
 
@@ -1700,17 +1702,11 @@ where
         let (id, first_restricted) = if !opt_ident || !self.at_punct(Punct::OpenParen) {
             let start = self.look_ahead.clone();
             let id = self.parse_var_ident()?;
-            if self.context.strict && start.token.is_restricted() {
-                return self.expected_token_error(&start, &[]);
-            }
-            let first_restricted = if !self.context.strict {
-                if start.token.is_restricted() {
-                    Some(start)
-                } else if start.token.is_strict_reserved() {
-                    Some(start)
-                } else {
-                    None
+            let first_restricted = if Self::is_restricted_binding(&id) {
+                if self.context.strict && !self.config.tolerant {
+                    return self.unexpected_token_error(&start, "restricted ident in strict context");
                 }
+                Some(start)
             } else {
                 None
             };
@@ -1724,19 +1720,20 @@ where
         self.context.allow_yield = !is_gen;
 
         let formal_params = self.parse_formal_params()?;
-        let strict = formal_params.strict;
+        let found_restricted = formal_params.found_restricted;
         let params = formal_params.params;
         let prev_strict = self.context.strict;
         let prev_allow_strict = self.context.allow_strict_directive;
         self.context.allow_strict_directive = formal_params.simple;
+        let start = self.look_ahead.clone();
         let body = self.parse_function_source_el()?;
-        if self.context.strict {
+        if self.context.strict && !self.config.tolerant {
             if let Some(ref item) = first_restricted {
-                return self.expected_token_error(item, &[]);
+                return self.unexpected_token_error(item, "restricted ident in strict context");
+            }
+            if found_restricted {
+                return self.unexpected_token_error(&start, "restricted ident in strict context");
             }
-        }
-        if self.context.strict && strict {
-            return self.expected_token_error(&self.look_ahead, &[]);
         }
         self.context.strict = prev_strict;
         self.context.allow_strict_directive = prev_allow_strict;
@@ -1787,7 +1784,7 @@ where
         {
             None
         } else {
-            Some(self.parse_var_ident()?)
+            Some(self.parse_binding_ident()?)
         };
         let super_class = if self.at_contextual_keyword("extends") {
             let _ = self.next_item()?;
@@ -2756,18 +2753,11 @@ where
         let mut found_restricted = false;
         let id = if !self.at_punct(Punct::OpenParen) {
             let item = self.look_ahead.clone();
-            let id = self.parse_fn_name(is_gen)?;
-            if item.token.is_restricted() {
-                if self.context.strict {
-                    if !self.config.tolerant {
-                        return self
-                            .unexpected_token_error(&item, "restricted ident in strict context");
-                    }
-                } else {
-                    found_restricted = true;
+            let id = self.parse_var_ident()?;
+            if Self::is_restricted_binding(&id) {
+                if self.context.strict && !self.config.tolerant {
+                    return self.unexpected_token_error(&item, "restricted ident in strict context");
                 }
-            }
-            if item.token.is_strict_reserved() {
                 found_restricted = true;
             }
             Some(id)
@@ -2801,15 +2791,6 @@ where
         Ok(Expr::Function(func))
     }
 
-    fn parse_fn_name(&mut self, is_gen: bool) -> Res<Identifier> {
-        debug!("parse_fn_name");
-        if self.context.strict && !is_gen && self.at_keyword(Keyword::Yield) {
-            self.parse_ident_name()
-        } else {
-            self.parse_var_ident()
-        }
-    }
-
     fn parse_ident_name(&mut self) -> Res<Identifier> {
         debug!("parse_ident_name");
         if !self.at_possible_ident() {
@@ -2828,6 +2809,17 @@ where
         self.get_string(&ident.span)
     }
 
+    /// A variable identifier that is bound here,
+    /// in strict mode it must not be `eval` or `arguments`
+    fn parse_binding_ident(&mut self) -> Res<Identifier> {
+        let start = self.look_ahead.clone();
+        let ident = self.parse_var_ident()?;
+        if self.context.strict && Self::is_restricted_word(&ident) && !self.config.tolerant {
+            return self.unexpected_token_error(&start, "restricted ident in strict context");
+        }
+        Ok(ident)
+    }
+
     /// Can this token be the name of a variable, function, class or label
     /// (or a reference to one) in the current context
     fn is_var_ident(&self, item: &Item) -> bool {
@@ -2845,12 +2837,10 @@ where
         self.expect_punct(Punct::OpenParen)?;
         let mut args = vec![];
         let mut simple: bool = true;
-        let mut found_restricted = false;
         if !self.at_punct(Punct::CloseParen) {
             while !self.look_ahead.token.is_eof() {
-                let (s, r, arg) = self.parse_formal_param(simple)?;
+                let (s, _, arg) = self.parse_formal_param(simple)?;
                 simple = simple && s;
-                found_restricted = found_restricted || r;
                 args.push(arg);
                 if self.at_punct(Punct::CloseParen) {
                     break;
@@ -2863,6 +2853,7 @@ where
         }
         self.expect_punct(Punct::CloseParen)?;
 
+        let found_restricted = args.iter().any(Self::binds_restricted);
         Ok(FormalParams {
             params: args,
             strict: false,
@@ -2951,8 +2942,8 @@ where
             if lexical && self.at_keyword(Keyword::Let) {
                 return self.expected_token_error(&self.look_ahead, &["identifier"]);
             }
-            let ident = self.parse_var_ident()?;
-            let restricted = &ident == "eval" || &ident == "arguments";
+            let ident = self.parse_binding_ident()?;
+            let restricted = Self::is_restricted_word(&ident);
             params.push(self.look_ahead.clone());
             Ok((restricted, Pat::Identifier(ident)))
         }
@@ -3028,7 +3019,16 @@ where
         let mut short_hand = false;
         let method = false;
         let (key, value) = if self.is_var_ident(&self.look_ahead) {
-            let key = PropertyKey::Expr(Expr::Ident(self.parse_var_ident()?));
+            let start = self.look_ahead.clone();
+            let ident = self.parse_var_ident()?;
+            if self.context.strict
+                && Self::is_restricted_word(&ident)
+                && !self.at_punct(Punct::Colon)
+                && !self.config.tolerant
+            {
+                return self.unexpected_token_error(&start, "restricted ident in strict context");
+            }
+            let key = PropertyKey::Expr(Expr::Ident(ident));
             let value = if self.at_punct(Punct::Assign) {
                 self.expect_punct(Punct::Assign)?;
                 short_hand = true;
@@ -3100,11 +3100,23 @@ where
                     self.context.r#await = is_async;
                     self.context.allow_yield = true;
                     self.context.allow_strict_directive = params.iter().all(Self::is_simple);
+                    let start = self.look_ahead.clone();
+                    let found_restricted = params.iter().any(Self::binds_restricted);
+                    if self.context.strict && found_restricted && !self.config.tolerant {
+                        return self
+                            .unexpected_token_error(&start, "restricted ident in strict context");
+                    }
                     if self.at_punct(Punct::OpenBrace) {
                         let prev_in = self.context.allow_in;
                         self.context.allow_in = true;
                         let body = self.parse_function_source_el()?;
                         self.context.allow_in = prev_in;
+                        if self.context.strict && found_restricted && !self.config.tolerant {
+                            return self.unexpected_token_error(
+                                &start,
+                                "restricted ident in strict context",
+                            );
+                        }
                         current = Expr::ArrowFunction(ArrowFunctionExpr {
                             id: None,
                             expression: false,
@@ -4469,6 +4481,69 @@ where
     fn is_restricted_word(word: &str) -> bool {
         word == "eval" || word == "arguments"
     }
+    /// Check if this &str cannot be bound in the context of 'use strict'
+    fn is_restricted_binding(word: &str) -> bool {
+        Self::is_restricted_word(word) || Self::is_strict_reserved(word)
+    }
+    /// Check if any name this parameter binds cannot be bound in the context of 'use strict'
+    fn binds_restricted(arg: &FunctionArg) -> bool {
+        match arg {
+            FunctionArg::Pat(ref p) => Self::pat_binds_restricted(p),
+            FunctionArg::Expr(ref e) => Self::expr_binds_restricted(e),
+        }
+    }
+
+    fn pat_binds_restricted(pat: &Pat) -> bool {
+        match pat {
+            Pat::Identifier(ref i) => Self::is_restricted_binding(i),
+            Pat::Array(ref parts) => parts.iter().any(|part| match part {
+                Some(ArrayPatPart::Pat(ref p)) => Self::pat_binds_restricted(p),
+                Some(ArrayPatPart::Expr(ref e)) => Self::expr_binds_restricted(e),
+                None => false,
+            }),
+            Pat::Object(ref parts) => parts.iter().any(|part| match part {
+                ObjectPatPart::Assignment(ref p) => Self::prop_binds_restricted(p),
+                ObjectPatPart::Rest(ref p) => Self::pat_binds_restricted(p),
+            }),
+            Pat::RestElement(ref p) => Self::pat_binds_restricted(p),
+            Pat::Assignment(ref a) => Self::pat_binds_restricted(&a.left),
+        }
+    }
+    /// The same for an expression that stands for a pattern
+    fn expr_binds_restricted(expr: &Expr) -> bool {
+        match expr {
+            Expr::Ident(ref i) => Self::is_restricted_binding(i),
+            Expr::Array(ref parts) => parts.iter().any(|part| match part {
+                Some(ref e) => Self::expr_binds_restricted(e),
+                None => false,
+            }),
+            Expr::Object(ref props) => props.iter().any(|prop| match prop {
+                ObjectProperty::Property(ref p) => Self::prop_binds_restricted(p),
+                ObjectProperty::Spread(ref e) => Self::expr_binds_restricted(e),
+            }),
+            Expr::Spread(ref e) => Self::expr_binds_restricted(e),
+            Expr::Assignment(ref a) => match &a.left {
+                AssignmentLeft::Expr(ref e) => Self::expr_binds_restricted(e),
+                AssignmentLeft::Pat(ref p) => Self::pat_binds_restricted(p),
+            },
+            _ => false,
+        }
+    }
+
+    fn prop_binds_restricted(prop: &Property) -> bool {
+        if prop.short_hand {
+            return match &prop.key {
+                PropertyKey::Expr(ref e) => Self::expr_binds_restricted(e),
+                PropertyKey::Pat(ref p) => Self::pat_binds_restricted(p),
+                PropertyKey::Literal(_) => false,
+            };
+        }
+        match &prop.value {
+            PropertyValue::Expr(ref e) => Self::expr_binds_restricted(e),
+            PropertyValue::Pat(ref p) => Self::pat_binds_restricted(p),
+            PropertyValue::None => false,
+        }
+    }
     /// Check if this &str is in the list of reserved
     /// words in the context of 'use strict'
     fn is_strict_reserved(word: &str) -> bool {
-- 
2.43.0


From 541bd206a087d0ec2fd8ce08d65ee81bad639c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:45 +0000
Subject: [PATCH 38/71] fix: parse modules in strict mode

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index c4a65e2..a41e576 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -425,6 +425,8 @@ where
         };
         let context = Context {
             is_module,
+            // module code is always strict
+            strict: is_module,
             ..Default::default()
         };
         Self::_new(scanner, lines, config, context, comment_handler)
-- 
2.43.0


From d49c2b7eb52533b8c89ea3e76b3b7548b5c29002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 39/71] fix: reject legacy octal literals in strict mode

---
 src/lib.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a41e576..fed8f22 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2201,9 +2201,7 @@ where
         debug!("parse_object_property_key");
         let item = self.next_item()?;
         if item.token.is_string() || item.token.is_number() {
-            // if item.token.is_oct_literal() {
-            //     //FIXME: possible tolerable error
-            // }
+            self.check_legacy_number(&item)?;
             let id = match &item.token {
                 Token::String(_) => Literal::String(self.get_string(&item.span)?),
                 Token::Numeric(_) => Literal::Number(self.get_string(&item.span)?),
@@ -2280,12 +2278,10 @@ where
                 Ok(Expr::Ident(self.parse_var_ident()?))
             }
         } else if self.look_ahead.token.is_number() || self.look_ahead.token.is_string() {
-            // if self.context.strict && self.look_ahead.token.is_oct_literal() {
-            //     //FIXME: possible tolerable error
-            // }
             self.context.is_assignment_target = false;
             self.context.is_binding_element = false;
             let item = self.next_item()?;
+            self.check_legacy_number(&item)?;
             let lit = match item.token {
                 Token::Numeric(_) => {
                     Literal::Number(self.scanner.string_for(&item.span).unwrap_or(String::new()))
@@ -2811,6 +2807,18 @@ where
         self.get_string(&ident.span)
     }
 
+    /// Numbers that start with a zero and another digit
+    /// are not allowed in strict mode
+    fn check_legacy_number(&self, item: &Item) -> Res<()> {
+        if self.context.strict && item.token.is_number() && !self.config.tolerant {
+            let text = self.get_string(&item.span)?;
+            if text.len() > 1 && text.starts_with('0') && text.as_bytes()[1].is_ascii_digit() {
+                return self.unexpected_token_error(item, "legacy octal literal in strict context");
+            }
+        }
+        Ok(())
+    }
+
     /// A variable identifier that is bound here,
     /// in strict mode it must not be `eval` or `arguments`
     fn parse_binding_ident(&mut self) -> Res<Identifier> {
-- 
2.43.0


From dfd3dd0e5b13858bcdca9199c0161fad208d7189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:04 +0000
Subject: [PATCH 40/71] fix: reject a labelled function in strict mode

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index fed8f22..4228ac6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1513,6 +1513,12 @@ where
                 let expr = Expr::Class(cls);
                 Stmt::Expr(expr)
             } else if self.at_keyword(Keyword::Function) {
+                if self.context.strict && !self.config.tolerant {
+                    return self.unexpected_token_error(
+                        &self.look_ahead,
+                        "labelled function in strict context",
+                    );
+                }
                 let f = self.parse_function_decl(true)?;
                 let expr = Expr::Function(f);
                 Stmt::Expr(expr)
-- 
2.43.0


From 167c23ddca57828796e5173a4b5cfa04d0eda046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:12 +0000
Subject: [PATCH 41/71] fix: reject restricted names in every kind of
 assignment target in strict mode

---
 src/lib.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4228ac6..2e03cbe 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1310,6 +1310,16 @@ where
             if !is_target && (self.at_keyword(Keyword::In) || self.at_contextual_keyword("of")) {
                 return self.unexpected_token_error(&self.look_ahead, "Not at assignment target");
             }
+            if (self.at_keyword(Keyword::In) || self.at_contextual_keyword("of"))
+                && self.context.strict
+                && Self::expr_binds_restricted(&init)
+                && !self.config.tolerant
+            {
+                return self.unexpected_token_error(
+                    &self.look_ahead,
+                    "restricted ident in strict context",
+                );
+            }
             if self.at_keyword(Keyword::In) {
                 let _ = self.next_item()?;
                 let left = LoopLeft::Expr(init);
@@ -3169,21 +3179,11 @@ where
                             );
                         }
                     }
-                    if self.context.strict && Self::is_ident(&current) {
-                        if let Expr::Ident(ref i) = current {
-                            if Self::is_restricted_word(i) {
-                                return self.expected_token_error(
-                                    &self.look_ahead,
-                                    &[&format!("not {}", i)],
-                                );
-                            }
-                            if Self::is_strict_reserved(i) {
-                                return self.expected_token_error(
-                                    &self.look_ahead,
-                                    &[&format!("not {}", i)],
-                                );
-                            }
-                        }
+                    if self.context.strict && Self::expr_binds_restricted(&current) {
+                        return self.unexpected_token_error(
+                            &self.look_ahead,
+                            "restricted ident in strict context",
+                        );
                     }
                     let left = if !self.at_punct(Punct::Assign) {
                         self.context.is_assignment_target = false;
-- 
2.43.0


From c7f183de70d14ae6ada333cebbfd671c858edaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:15 +0000
Subject: [PATCH 42/71] fix: parse every combination of modifiers of a class
 element

---
 src/lib.rs | 209 +++++++++++++++--------------------------------------
 1 file changed, 57 insertions(+), 152 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2e03cbe..ee63466 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1843,143 +1843,70 @@ where
 
     fn parse_class_el(&mut self, has_ctor: bool) -> Res<(bool, Property)> {
         debug!("parse_class_el");
-        let mut token = self.look_ahead.token.clone();
+        let start = self.look_ahead.clone();
         let mut has_ctor = has_ctor;
-        let mut key: Option<PropertyKey> = None;
-        let mut value: Option<PropertyValue> = None;
-        let mut computed = false;
-        let mut is_static = false;
+        let mut kind = PropertyKind::Method;
         let mut is_async = false;
-        if self.at_contextual_keyword("async") {
-            let _async = self.next_item()?;
-            is_async = true;
+        let mut is_gen = false;
+        // each of the words that can come before the name of an
+        // element is the name itself when a parameter list follows
+        let (mut key, is_static) = self.parse_class_el_modifier("static")?;
+        if key.is_none() {
+            let (k, found) = self.parse_class_el_modifier("async")?;
+            if found && self.context.has_line_term {
+                return self.unexpected_token_error(&self.look_ahead, "new line after async");
+            }
+            key = k;
+            is_async = found;
         }
-        if self.at_punct(Punct::Asterisk) {
-            debug!("found leading asterisk");
+        if key.is_none() && self.at_punct(Punct::Asterisk) {
             let _ = self.next_item()?;
-        } else {
-            computed = self.at_punct(Punct::OpenBracket);
-
-            let new_key = self.parse_object_property_key()?;
-
-            if Self::is_static(&new_key)
-                && (Self::qualified_prop_name(&self.look_ahead.token)
-                    || self.at_punct(Punct::Asterisk))
-            {
-                token = self.look_ahead.token.clone();
-                computed = self.at_punct(Punct::OpenBracket);
-                is_static = true;
-                if self.at_punct(Punct::Asterisk) {
-                    let _ = self.next_item()?;
-                } else {
-                    key = Some(self.parse_object_property_key()?);
-                }
-            } else {
-                key = Some(new_key);
-            }
-            if token.is_ident()
-                && !self.context.has_line_term
-                && self.at_contextual_keyword("async")
-            {
-                if !self.look_ahead.token.matches_punct(&Punct::Colon)
-                    && !self.look_ahead.token.matches_punct(&Punct::OpenParen)
-                    && !self.look_ahead.token.matches_punct(&Punct::Asterisk)
-                {
-                    return self.expected_token_error(&self.look_ahead, &[":", "(", "*"]);
-                }
-            }
+            is_gen = true;
         }
-
-        let mut kind: Option<PropertyKind> = None;
-        let mut method = false;
-
-        let look_ahead_prop_key = Self::qualified_prop_name(&self.look_ahead.token);
-        if token.is_ident() {
-            let (at_get, at_set) = if let Some(ref k) = key {
-                (
-                    Self::is_key(&k, "get") && look_ahead_prop_key,
-                    Self::is_key(&k, "set") && look_ahead_prop_key,
-                )
-            } else {
-                (false, false)
-            };
-
-            if at_get {
-                kind = Some(PropertyKind::Get);
-                computed = self.at_punct(Punct::OpenBracket);
-                key = Some(self.parse_object_property_key()?);
-                value = Some(self.parse_getter_method()?);
-            } else if at_set {
-                kind = Some(PropertyKind::Set);
-                computed = self.at_punct(Punct::OpenBracket);
-                key = Some(self.parse_object_property_key()?);
-                value = Some(self.parse_setter_method()?);
+        if key.is_none() && !is_async && !is_gen {
+            let (k, found) = self.parse_class_el_modifier("get")?;
+            key = k;
+            if found {
+                kind = PropertyKind::Get;
             }
-        } else if token.matches_punct(&Punct::Asterisk) && look_ahead_prop_key {
-            kind = Some(PropertyKind::Init);
-            computed = self.at_punct(Punct::OpenBracket);
-            key = Some(self.parse_object_property_key()?);
-            value = Some(self.parse_generator_method()?);
-            method = true;
         }
-
-        if kind.is_none() && key.is_some() && self.at_punct(Punct::OpenParen) {
-            kind = Some(PropertyKind::Init);
-            method = true;
-            value = Some(if is_async {
-                self.parse_async_property_method(false)?
-            } else {
-                self.parse_property_method()?
-            });
-        }
-
-        let mut kind = if let Some(k) = kind {
-            k
-        } else {
-            return self.expected_token_error(&self.look_ahead, &["method identifier"]);
-        };
-
-        if kind == PropertyKind::Init {
-            kind = PropertyKind::Method;
+        if key.is_none() && !is_async && !is_gen && kind == PropertyKind::Method {
+            let (k, found) = self.parse_class_el_modifier("set")?;
+            key = k;
+            if found {
+                kind = PropertyKind::Set;
+            }
         }
-
+        let mut computed = false;
         let key = if let Some(k) = key {
             k
         } else {
-            return self.expected_token_error(&self.look_ahead, &[]);
+            computed = self.at_punct(Punct::OpenBracket);
+            self.parse_object_property_key()?
+        };
+        let value = match kind {
+            PropertyKind::Get => self.parse_getter_method()?,
+            PropertyKind::Set => self.parse_setter_method()?,
+            _ if is_async => self.parse_async_property_method(is_gen)?,
+            _ if is_gen => self.parse_generator_method()?,
+            _ => self.parse_property_method()?,
         };
+        let method = kind == PropertyKind::Method;
         if !computed {
             if is_static && Self::is_key(&key, "prototype") {
-                return self.expected_token_error(&self.look_ahead, &[]);
+                return self.unexpected_token_error(&start, "static prototype");
             }
             if !is_static && Self::is_key(&key, "constructor") {
-                if kind != PropertyKind::Method || !method {
-                    return self
-                        .expected_token_error(&self.look_ahead, &["[constructor declaration]"]);
-                }
-                if let Some(ref v) = value {
-                    if Self::is_generator(&v) {
-                        return self.expected_token_error(
-                            &self.look_ahead,
-                            &["[non-generator function declaration]"],
-                        );
-                    }
+                if !method || is_async || is_gen {
+                    return self.unexpected_token_error(&start, "special method as constructor");
                 }
                 if has_ctor {
-                    return self.expected_token_error(&self.look_ahead, &[]);
-                } else {
-                    has_ctor = true;
+                    return self.unexpected_token_error(&start, "second constructor");
                 }
+                has_ctor = true;
                 kind = PropertyKind::Ctor;
             }
         }
-
-        let value = if let Some(v) = value {
-            v
-        } else {
-            return self.expected_token_error(&self.look_ahead, &[]);
-        };
-
         Ok((
             has_ctor,
             Property {
@@ -1992,47 +1919,33 @@ where
             },
         ))
     }
-
-    fn is_key(key: &PropertyKey, other: &str) -> bool {
-        match key {
-            PropertyKey::Literal(ref l) => match l {
-                Literal::String(ref s) => s == other,
-                _ => false,
-            },
-            PropertyKey::Expr(ref e) => match e {
-                Expr::Ident(ref s) => s == other,
-                _ => false,
-            },
-            PropertyKey::Pat(ref p) => match p {
-                Pat::Identifier(ref s) => s == other,
-                _ => false,
-            },
+    /// Parse a word that could be a modifier of a class element,
+    /// returning the key if it turns out to be the name of
+    /// the element, the flag tells if the modifier was found
+    fn parse_class_el_modifier(&mut self, word: &str) -> Res<(Option<PropertyKey>, bool)> {
+        if !self.at_contextual_keyword(word) {
+            return Ok((None, false));
         }
-    }
-
-    fn is_generator(val: &PropertyValue) -> bool {
-        match val {
-            PropertyValue::Expr(ref e) => match e {
-                Expr::Function(ref f) => f.generator,
-                Expr::ArrowFunction(ref f) => f.generator,
-                _ => false,
-            },
-            _ => false,
+        let _ = self.next_item()?;
+        if self.at_punct(Punct::OpenParen) {
+            Ok((Some(PropertyKey::Expr(Expr::Ident(word.to_string()))), false))
+        } else {
+            Ok((None, true))
         }
     }
 
-    fn is_static(key: &PropertyKey) -> bool {
+    fn is_key(key: &PropertyKey, other: &str) -> bool {
         match key {
             PropertyKey::Literal(ref l) => match l {
-                Literal::String(ref s) => s == "static",
+                Literal::String(ref s) => &s[1..s.len() - 1] == other,
                 _ => false,
             },
             PropertyKey::Expr(ref e) => match e {
-                Expr::Ident(ref s) => s == "static",
+                Expr::Ident(ref s) => s == other,
                 _ => false,
             },
             PropertyKey::Pat(ref p) => match p {
-                Pat::Identifier(ref s) => s == "static",
+                Pat::Identifier(ref s) => s == other,
                 _ => false,
             },
         }
@@ -2205,14 +2118,6 @@ where
         Ok(ret)
     }
 
-    fn qualified_prop_name(tok: &Token) -> bool {
-        debug!("qualified_prop_name",);
-        tok.is_ident()
-            || tok.is_keyword()
-            || tok.is_literal()
-            || tok.matches_punct(&Punct::OpenBracket)
-    }
-
     fn parse_object_property_key(&mut self) -> Res<PropertyKey> {
         debug!("parse_object_property_key");
         let item = self.next_item()?;
-- 
2.43.0


From a48172c86a9d0caa46448db31f914761530f7aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:49 +0000
Subject: [PATCH 43/71] fix: allow a call as the superclass

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ee63466..dce041d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1807,7 +1807,7 @@ where
         let super_class = if self.at_contextual_keyword("extends") {
             let _ = self.next_item()?;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-            let super_class = self.parse_left_hand_side_expr()?;
+            let super_class = self.parse_left_hand_side_expr_allow_call()?;
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
             Some(Box::new(super_class))
         } else {
-- 
2.43.0


From be9810a38abcee987ab7f165f1b09d99e06b1a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 44/71] fix: allow super and new.target where a method or
 function gives them a meaning

---
 src/lib.rs | 66 ++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 54 insertions(+), 12 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index dce041d..478cd9d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -106,6 +106,12 @@ struct Context {
     is_binding_element: bool,
     /// If we have entered a function body
     in_function_body: bool,
+    /// If `super.property` is allowed
+    super_property: bool,
+    /// If `super()` is allowed
+    super_call: bool,
+    /// If `new.target` is allowed
+    new_target: bool,
     /// If we have entered a loop block
     in_iteration: bool,
     /// If we have entered a switch block
@@ -146,6 +152,9 @@ impl Default for Context {
             is_assignment_target: false,
             is_binding_element: false,
             in_function_body: false,
+            super_property: false,
+            super_call: false,
+            new_target: false,
             in_iteration: false,
             in_switch: false,
             label_set: HashSet::new(),
@@ -1514,7 +1523,7 @@ where
                 if !self.config.tolerant {
                     return self.unexpected_token_error(&class, "");
                 }
-                let body = self.parse_class_body()?;
+                let body = self.parse_class_body(false)?;
                 let cls = Class {
                     id: None,
                     super_class: None,
@@ -1736,6 +1745,7 @@ where
         let prev_yield = self.context.allow_yield;
         self.context.r#await = is_async;
         self.context.allow_yield = !is_gen;
+        let prev_fn = self.enter_function(false, false);
 
         let formal_params = self.parse_formal_params()?;
         let found_restricted = formal_params.found_restricted;
@@ -1757,6 +1767,7 @@ where
         self.context.allow_strict_directive = prev_allow_strict;
         self.context.r#await = prev_await;
         self.context.allow_yield = prev_yield;
+        self.leave_function(prev_fn);
         Ok(Function {
             id,
             params,
@@ -1813,7 +1824,7 @@ where
         } else {
             None
         };
-        let body = self.parse_class_body()?;
+        let body = self.parse_class_body(super_class.is_some())?;
 
         self.context.strict = prev_strict;
         Ok(Class {
@@ -1823,7 +1834,7 @@ where
         })
     }
 
-    fn parse_class_body(&mut self) -> Res<Vec<Property>> {
+    fn parse_class_body(&mut self, is_derived: bool) -> Res<Vec<Property>> {
         debug!("parse_class_body");
         let mut ret = vec![];
         let mut has_ctor = false;
@@ -1832,7 +1843,7 @@ where
             if self.at_punct(Punct::SemiColon) {
                 let _ = self.next_item()?;
             } else {
-                let (ctor, el) = self.parse_class_el(has_ctor)?;
+                let (ctor, el) = self.parse_class_el(has_ctor, is_derived)?;
                 has_ctor = ctor;
                 ret.push(el)
             }
@@ -1841,7 +1852,7 @@ where
         Ok(ret)
     }
 
-    fn parse_class_el(&mut self, has_ctor: bool) -> Res<(bool, Property)> {
+    fn parse_class_el(&mut self, has_ctor: bool, is_derived: bool) -> Res<(bool, Property)> {
         debug!("parse_class_el");
         let start = self.look_ahead.clone();
         let mut has_ctor = has_ctor;
@@ -1889,7 +1900,10 @@ where
             PropertyKind::Set => self.parse_setter_method()?,
             _ if is_async => self.parse_async_property_method(is_gen)?,
             _ if is_gen => self.parse_generator_method()?,
-            _ => self.parse_property_method()?,
+            _ => {
+                let is_ctor = !computed && !is_static && Self::is_key(&key, "constructor");
+                self.parse_property_method(is_ctor && is_derived)?
+            }
         };
         let method = kind == PropertyKind::Method;
         if !computed {
@@ -1960,16 +1974,34 @@ where
         )
     }
 
+    /// Set what `super` and `new.target` mean in a function other than an arrow
+    /// function, returning the values to restore after its body
+    fn enter_function(&mut self, is_method: bool, is_derived_ctor: bool) -> (bool, bool, bool) {
+        (
+            replace(&mut self.context.super_property, is_method),
+            replace(&mut self.context.super_call, is_derived_ctor),
+            replace(&mut self.context.new_target, true),
+        )
+    }
+
+    fn leave_function(&mut self, prev: (bool, bool, bool)) {
+        self.context.super_property = prev.0;
+        self.context.super_call = prev.1;
+        self.context.new_target = prev.2;
+    }
+
     fn parse_async_property_method(&mut self, is_gen: bool) -> Res<PropertyValue> {
         debug!("parse_property_method_async_fn");
         let prev_yield = self.context.allow_yield;
         let prev_await = self.context.r#await;
         self.context.allow_yield = !is_gen;
         self.context.r#await = true;
+        let prev_fn = self.enter_function(true, false);
         let params = self.parse_formal_params()?;
         let body = self.parse_property_method_body(params.simple, params.found_restricted)?;
         self.context.allow_yield = prev_yield;
         self.context.r#await = prev_await;
+        self.leave_function(prev_fn);
         let func = Function {
             id: None,
             params: params.params,
@@ -1980,13 +2012,15 @@ where
         Ok(PropertyValue::Expr(Expr::Function(func)))
     }
 
-    fn parse_property_method(&mut self) -> Res<PropertyValue> {
+    fn parse_property_method(&mut self, is_derived_ctor: bool) -> Res<PropertyValue> {
         debug!("parse_property_method");
         let (prev_await, prev_yield) = self.enter_method(false);
+        let prev_fn = self.enter_function(true, is_derived_ctor);
         let params = self.parse_formal_params()?;
         let body = self.parse_property_method_body(params.simple, params.found_restricted)?;
         self.context.r#await = prev_await;
         self.context.allow_yield = prev_yield;
+        self.leave_function(prev_fn);
         let func = Function {
             id: None,
             params: params.params,
@@ -2000,10 +2034,12 @@ where
     fn parse_generator_method(&mut self) -> Res<PropertyValue> {
         debug!("pares_generator_method");
         let (prev_await, prev_yield) = self.enter_method(true);
+        let prev_fn = self.enter_function(true, false);
         let params = self.parse_formal_params()?;
         let body = self.parse_method_body(params.simple, params.found_restricted)?;
         self.context.r#await = prev_await;
         self.context.allow_yield = prev_yield;
+        self.leave_function(prev_fn);
         let func = Function {
             id: None,
             params: params.params,
@@ -2018,6 +2054,7 @@ where
         debug!("parse_getter_method");
         let is_gen = false;
         let (prev_await, prev_yield) = self.enter_method(false);
+        let prev_fn = self.enter_function(true, false);
         let start_position = self.look_ahead_position;
         let formal_params = self.parse_formal_params()?;
         if formal_params.params.len() > 0 {
@@ -2026,6 +2063,7 @@ where
         let body = self.parse_method_body(formal_params.simple, formal_params.found_restricted)?;
         self.context.r#await = prev_await;
         self.context.allow_yield = prev_yield;
+        self.leave_function(prev_fn);
         Ok(PropertyValue::Expr(Expr::Function(Function {
             id: None,
             params: formal_params.params,
@@ -2057,6 +2095,7 @@ where
     fn parse_setter_method(&mut self) -> Res<PropertyValue> {
         debug!("parse_setter_method");
         let (prev_await, prev_yield) = self.enter_method(false);
+        let prev_fn = self.enter_function(true, false);
         let start_position = self.look_ahead_position;
         let params = self.parse_formal_params()?;
         if params.params.len() != 1 {
@@ -2069,6 +2108,7 @@ where
         let body = self.parse_property_method_body(params.simple, params.found_restricted)?;
         self.context.r#await = prev_await;
         self.context.allow_yield = prev_yield;
+        self.leave_function(prev_fn);
         let func = Function {
             id: None,
             params: params.params,
@@ -2555,7 +2595,7 @@ where
                         value: if is_async {
                             self.parse_async_property_method(is_gen)?
                         } else {
-                            self.parse_property_method()?
+                            self.parse_property_method(false)?
                         },
                         kind,
                         method: true,
@@ -2683,6 +2723,7 @@ where
         } else {
             None
         };
+        let prev_fn = self.enter_function(false, false);
         let formal_params = self.parse_formal_params()?;
         found_restricted = found_restricted || formal_params.found_restricted;
         let prev_strict = self.context.strict;
@@ -2700,6 +2741,7 @@ where
         self.context.allow_strict_directive = prev_strict_dir;
         self.context.allow_yield = prev_yield;
         self.context.r#await = prev_await;
+        self.leave_function(prev_fn);
         let func = Function {
             id,
             params: formal_params.params,
@@ -3742,7 +3784,7 @@ where
         if !self.context.allow_in {
             // error
         }
-        let mut expr = if self.at_keyword(Keyword::Super) && self.context.in_function_body {
+        let mut expr = if self.at_keyword(Keyword::Super) && self.context.super_property {
             self.parse_super()?
         } else {
             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
@@ -3809,9 +3851,9 @@ where
         let prev_in = self.context.allow_in;
         self.context.allow_in = true;
 
-        let mut expr = if self.at_keyword(Keyword::Super) && self.context.in_function_body {
+        let mut expr = if self.at_keyword(Keyword::Super) && self.context.super_property {
             let _ = self.next_item()?;
-            if !self.at_punct(Punct::OpenParen)
+            if !(self.at_punct(Punct::OpenParen) && self.context.super_call)
                 && !self.at_punct(Punct::Period)
                 && !self.at_punct(Punct::OpenBracket)
             {
@@ -4011,7 +4053,7 @@ where
         self.expect_keyword(Keyword::New)?;
         if self.at_punct(Punct::Period) {
             let _ = self.next_item()?;
-            if self.at_contextual_keyword("target") && self.context.in_function_body {
+            if self.at_contextual_keyword("target") && self.context.new_target {
                 let property = self.parse_ident_name()?;
                 self.context.is_assignment_target = false;
                 self.context.is_binding_element = false;
-- 
2.43.0


From 2104f4a3c024fd2c839a1771bc57330982635585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 45/71] fix: end the iteration after an error

---
 src/lib.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 478cd9d..80f6a93 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -313,6 +313,8 @@ where
     /// to make sure we don't miss the eof
     /// by using this flag
     found_eof: bool,
+    /// If the iterator has returned an error
+    failed: bool,
     /// a possible container for tokens, currently
     /// it is unused
     _tokens: Vec<Item>,
@@ -458,6 +460,7 @@ where
             look_ahead,
             lines,
             found_eof: false,
+            failed: false,
             config,
             context,
             _tokens: vec![],
@@ -503,11 +506,8 @@ where
     pub fn parse(&mut self) -> Res<Program> {
         debug!("parse_script");
         let mut body = vec![];
-        while let Some(part) = self.next() {
-            match part {
-                Ok(part) => body.push(part),
-                Err(e) => return Err(e),
-            }
+        while !self.look_ahead.token.is_eof() {
+            body.push(self.next_part()?);
         }
         Ok(if self.context.is_module {
             Program::Mod(body)
@@ -4670,10 +4670,13 @@ where
 {
     type Item = Res<ProgramPart>;
     fn next(&mut self) -> Option<Self::Item> {
-        if self.look_ahead.token.is_eof() {
+        if self.failed || self.look_ahead.token.is_eof() {
             None
         } else {
-            Some(self.next_part())
+            let part = self.next_part();
+            // there is no way to resume after an error
+            self.failed = part.is_err();
+            Some(part)
         }
     }
 }
-- 
2.43.0


From 2c042afa711f57b5b017409f1ffec76ce13e2624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:15 +0000
Subject: [PATCH 46/71] fix: reject an initialized name outside of a pattern

---
 src/lib.rs | 60 +++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 12 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 80f6a93..4d1f880 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1316,6 +1316,9 @@ where
             let is_target = self.context.is_assignment_target && !Self::is_assignment_expr(&init);
             self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
             self.context.allow_in = prev_in;
+            if is_target && (self.at_keyword(Keyword::In) || self.at_contextual_keyword("of")) {
+                self.context.first_covert_initialized_name_error = None;
+            }
             if !is_target && (self.at_keyword(Keyword::In) || self.at_contextual_keyword("of")) {
                 return self.unexpected_token_error(&self.look_ahead, "Not at assignment target");
             }
@@ -1341,7 +1344,9 @@ where
             } else if self.at_contextual_keyword("of") {
                 let _ = self.next_item()?;
                 let left = LoopLeft::Expr(init);
+                let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
                 let right = self.parse_assignment_expr()?;
+                self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
                 let body = self.parse_loop_body()?;
                 return Ok(Stmt::ForOf(ForOfStmt {
                     left,
@@ -1364,6 +1369,7 @@ where
                 } else {
                     LoopInit::Expr(init)
                 };
+                self.check_cover_initialized_name()?;
                 return Ok(Stmt::For(self.parse_for_loop_cont(Some(init))?));
             }
         }
@@ -1420,7 +1426,9 @@ where
     fn parse_for_of_loop(&mut self, left: LoopLeft, is_await: bool) -> Res<ForOfStmt> {
         debug!("parse_for_of_loop");
         let _ = self.next_item()?;
+        let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
         let right = self.parse_assignment_expr()?;
+        self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
         let body = self.parse_loop_body()?;
         Ok(ForOfStmt {
             left,
@@ -2440,6 +2448,7 @@ where
                         ));
                     }
                 }
+                self.check_cover_initialized_name()?;
                 Ok(ex)
             }
         }
@@ -3066,6 +3075,7 @@ where
                         return self.unexpected_token_error(&self.look_ahead, "new line before =>");
                     }
                     self.expect_punct(Punct::FatArrow)?;
+                    self.context.first_covert_initialized_name_error = None;
                     let prev_await = self.context.r#await;
                     let prev_yield = self.context.allow_yield;
                     let prev_strict = self.context.strict;
@@ -3167,7 +3177,9 @@ where
                     let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
                     let right = self.parse_assignment_expr()?;
                     self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
-                    self.context.first_covert_initialized_name_error = None;
+                    if op == AssignmentOperator::Equal {
+                        self.context.first_covert_initialized_name_error = None;
+                    }
                     return Ok(Expr::Assignment(AssignmentExpr {
                         operator: op,
                         left,
@@ -3797,6 +3809,9 @@ where
             ret
         };
         loop {
+            if self.at_member_or_call() {
+                self.check_cover_initialized_name()?;
+            }
             if self.at_punct(Punct::OpenBracket) {
                 self.context.is_binding_element = false;
                 self.context.is_assignment_target = true;
@@ -3836,6 +3851,13 @@ where
         Ok(expr)
     }
 
+    fn at_member_or_call(&self) -> bool {
+        self.at_punct(Punct::Period)
+            || self.at_punct(Punct::OpenBracket)
+            || self.at_punct(Punct::OpenParen)
+            || self.look_ahead.is_template()
+    }
+
     fn parse_super(&mut self) -> Res<Expr> {
         self.expect_keyword(Keyword::Super)?;
         if !self.at_punct(Punct::OpenBracket) && !self.at_punct(Punct::Period) {
@@ -3871,6 +3893,9 @@ where
             ret
         };
         loop {
+            if self.at_member_or_call() {
+                self.check_cover_initialized_name()?;
+            }
             if self.at_punct(Punct::Period) {
                 self.context.is_binding_element = false;
                 self.context.is_assignment_target = true;
@@ -3946,6 +3971,7 @@ where
         self.expect_punct(Punct::OpenParen)?;
         let mut ret = vec![];
         let mut are_params = true;
+        let mut initialized_name = None;
         if !self.at_punct(Punct::CloseParen) {
             loop {
                 let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
@@ -3958,6 +3984,8 @@ where
                     self.parse_async_arg()?
                 };
                 are_params = are_params && self.context.is_binding_element;
+                let pending = self.context.first_covert_initialized_name_error.take();
+                initialized_name = initialized_name.or(pending);
                 self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
                 ret.push(arg);
                 if self.at_punct(Punct::CloseParen) {
@@ -3970,6 +3998,10 @@ where
             }
         }
         self.expect_punct(Punct::CloseParen)?;
+        if !self.at_punct(Punct::FatArrow) && initialized_name.is_some() {
+            self.context.first_covert_initialized_name_error = initialized_name;
+            self.check_cover_initialized_name()?;
+        }
         Ok((ret, are_params))
     }
     /// Is this an element of the form `...target = value`
@@ -3983,9 +4015,7 @@ where
     /// note: not sure this is needed
     fn parse_async_arg(&mut self) -> Res<Expr> {
         debug!("parse_async_arg");
-        let expr = self.parse_assignment_expr()?;
-        self.context.first_covert_initialized_name_error = None;
-        Ok(expr)
+        self.parse_assignment_expr()
     }
     /// Expect a comma separator,
     /// if parsing with tolerance we can tolerate
@@ -4024,14 +4054,13 @@ where
         let mut args = vec![];
         if !self.at_punct(Punct::CloseParen) {
             loop {
+                let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
                 let expr = if self.at_punct(Punct::Spread) {
                     self.parse_spread_element()?
                 } else {
-                    let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-                    let expr = self.parse_assignment_expr()?;
-                    self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
-                    expr
+                    self.parse_assignment_expr()?
                 };
+                self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
                 args.push(expr);
                 if self.at_punct(Punct::CloseParen) {
                     break;
@@ -4134,15 +4163,22 @@ where
         prev_assign: bool,
         prev_first: Option<Item>,
     ) -> Res<()> {
-        if let Some(ref _e) = prev_first {
-            //FIXME this needs to do something
-            //like an error?
-        }
+        self.check_cover_initialized_name()?;
         self.context.is_binding_element = prev_bind;
         self.context.is_assignment_target = prev_assign;
         self.context.first_covert_initialized_name_error = prev_first;
         Ok(())
     }
+    /// An initialized name like `{a = 0}` is only allowed in an
+    /// object that turned out to be a pattern
+    fn check_cover_initialized_name(&self) -> Res<()> {
+        match self.context.first_covert_initialized_name_error {
+            Some(ref item) if !self.config.tolerant => {
+                self.unexpected_token_error(item, "initialized name outside of a pattern")
+            }
+            _ => Ok(()),
+        }
+    }
     /// Get the context state in order to isolate this state from the
     /// following operation
     fn isolate_cover_grammar(&mut self) -> (bool, bool, Option<Item>) {
-- 
2.43.0


From 2701c9b5ac86741df2d5264f20dfa5ae7a865b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 47/71] fix: reject a pattern in parentheses as an assignment
 target

---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 4d1f880..0b47bf3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2449,6 +2449,11 @@ where
                     }
                 }
                 self.check_cover_initialized_name()?;
+                if let Expr::Array(_) | Expr::Object(_) = ex {
+                    // patterns are never wrapped in parentheses
+                    self.context.is_assignment_target = false;
+                    self.context.is_binding_element = false;
+                }
                 Ok(ex)
             }
         }
-- 
2.43.0


From 931024b62ec5cc0add1be433f6dee418d7e6e06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 48/71] fix: tell what can be an arrow parameter or a pattern
 from other expressions in parentheses

---
 src/lib.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0b47bf3..30a26a0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2428,6 +2428,9 @@ where
                 }
                 self.expect_punct(Punct::CloseParen)?;
                 if self.at_punct(Punct::FatArrow) {
+                    if !self.context.is_binding_element {
+                        return self.expected_token_error(&self.look_ahead, &["binding element"]);
+                    }
                     if Self::is_ident(&ex) {
                         self.context.is_binding_element = false;
                         return Ok(Expr::ArrowParamPlaceHolder(
@@ -2435,9 +2438,6 @@ where
                             false,
                         ));
                     }
-                    if !self.context.is_binding_element {
-                        return self.expected_token_error(&self.look_ahead, &["binding element"]);
-                    }
                     if let Expr::Sequence(seq) = ex {
                         let args = seq.into_iter().map(|e| FunctionArg::Expr(e)).collect();
                         return Ok(Expr::ArrowParamPlaceHolder(args, false));
@@ -2449,16 +2449,24 @@ where
                     }
                 }
                 self.check_cover_initialized_name()?;
-                if let Expr::Array(_) | Expr::Object(_) = ex {
-                    // patterns are never wrapped in parentheses
+                // patterns are never wrapped in parentheses
+                // and neither are the names they bind
+                if Self::is_array_or_object(&ex) {
                     self.context.is_assignment_target = false;
-                    self.context.is_binding_element = false;
                 }
+                self.context.is_binding_element = false;
                 Ok(ex)
             }
         }
     }
 
+    fn is_array_or_object(expr: &Expr) -> bool {
+        match expr {
+            Expr::Array(_) | Expr::Object(_) => true,
+            _ => false,
+        }
+    }
+
     fn parse_array_init(&mut self) -> Res<Expr> {
         debug!("parse_array_init");
         self.expect_punct(Punct::OpenBracket)?;
@@ -2495,6 +2503,15 @@ where
         while !self.at_punct(Punct::CloseBrace) {
             let prop = if self.at_punct(Punct::Spread) {
                 let spread = self.parse_spread_element()?;
+                let is_rest = match spread {
+                    Expr::Spread(ref arg) => !Self::is_array_or_object(arg),
+                    _ => false,
+                };
+                if !is_rest || !self.at_punct(Punct::CloseBrace) {
+                    // a rest property is a single name at the end
+                    self.context.is_assignment_target = false;
+                    self.context.is_binding_element = false;
+                }
                 ObjectProperty::Spread(Box::new(spread))
             } else {
                 let (found_proto, prop) = self.parse_obj_prop(has_proto)?;
@@ -4050,6 +4067,11 @@ where
         let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
         let arg = self.parse_assignment_expr()?;
         self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
+        if Self::is_assignment_expr(&arg) {
+            // a rest element has no initializer
+            self.context.is_assignment_target = false;
+            self.context.is_binding_element = false;
+        }
         Ok(Expr::Spread(Box::new(arg)))
     }
     /// Parse function arguments, expecting to open with `(` and close with `)`
-- 
2.43.0


From 8c367bc4c8237b20e195366e45805618ccdef91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:05 +0000
Subject: [PATCH 49/71] fix: end a new expression inside a template at the end
 of the substitution

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 30a26a0..f2d287b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3860,7 +3860,7 @@ where
                     computed: false,
                 };
                 expr = Expr::Member(member);
-            } else if self.look_ahead.is_template() {
+            } else if self.look_ahead.token.is_template_head() {
                 let quasi = self.parse_template_literal()?;
                 expr = Expr::TaggedTemplate(TaggedTemplateExpr {
                     tag: Box::new(expr),
@@ -3877,7 +3877,7 @@ where
         self.at_punct(Punct::Period)
             || self.at_punct(Punct::OpenBracket)
             || self.at_punct(Punct::OpenParen)
-            || self.look_ahead.is_template()
+            || self.look_ahead.token.is_template_head()
     }
 
     fn parse_super(&mut self) -> Res<Expr> {
-- 
2.43.0


From eaf3a48f80a78b6d9b005b3bd448751730b95899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 50/71] fix: reject a yield expression as the default of an
 arrow parameter

---
 src/lib.rs | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f2d287b..03e6bc5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3266,28 +3266,14 @@ where
                     match &p {
                         FunctionArg::Pat(ref p) => match p {
                             Pat::Assignment(ref a) => match &*a.right {
-                                Expr::Yield(ref y) => {
-                                    if y.argument.is_some() {
-                                        invalid_param = true;
-                                    } else {
-                                        return FunctionArg::Pat(Pat::Identifier(
-                                            "yield".to_owned(),
-                                        ));
-                                    }
-                                }
+                                Expr::Yield(_) => invalid_param = true,
                                 _ => (),
                             },
                             _ => (),
                         },
                         FunctionArg::Expr(ref e) => match e {
                             Expr::Assignment(ref a) => match &*a.right {
-                                Expr::Yield(ref y) => {
-                                    if y.argument.is_some() {
-                                        invalid_param = true;
-                                    } else {
-                                        return FunctionArg::Expr(Expr::Ident("yield".to_owned()));
-                                    }
-                                }
+                                Expr::Yield(_) => invalid_param = true,
                                 _ => (),
                             },
                             _ => (),
-- 
2.43.0


From 715d7de35aa609115d915ffe876fe3ce8e8b741f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 51/71] fix: reject let followed by a bracket where only a
 statement is allowed

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 03e6bc5..5667032 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1515,6 +1515,14 @@ where
 
     fn parse_labelled_statement(&mut self) -> Res<Stmt> {
         debug!("parse_labelled_statement, {:?}", self.look_ahead.token);
+        if self.at_keyword(Keyword::Let) {
+            if let Some(next) = self.peek_past_look_ahead() {
+                if next.token.matches_punct(&Punct::OpenBracket) {
+                    return self
+                        .unexpected_token_error(&next, "lexical declaration as a statement");
+                }
+            }
+        }
         let ret = self.parse_expression()?;
         if Self::is_ident(&ret) && self.at_punct(Punct::Colon) {
             let _colon = self.next_item()?;
-- 
2.43.0


From 744304600ca47f57dd5a806f42fe0685947cb1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:11 +0000
Subject: [PATCH 52/71] fix: reject an arrow function with a block body as an
 arrow parameter

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 5667032..95aef84 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3155,6 +3155,8 @@ where
                     self.context.allow_yield = prev_yield;
                     self.context.strict = prev_strict;
                     self.context.allow_strict_directive = prev_allow_strict;
+                    self.context.is_assignment_target = false;
+                    self.context.is_binding_element = false;
                 }
             } else {
                 if self.at_assign() {
-- 
2.43.0


From e72b66bd6a7fdadaa6a0a247e86cffe96dd60a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:23 +0000
Subject: [PATCH 53/71] fix: reject a class declaration where only a statement
 is allowed

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 95aef84..3d2a259 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -923,6 +923,10 @@ where
                 Keyword::While => Stmt::While(self.parse_while_stmt()?),
                 Keyword::With => Stmt::With(self.parse_with_stmt()?),
                 _ if self.is_var_ident(&self.look_ahead) => self.parse_labelled_statement()?,
+                Keyword::Class if !self.config.tolerant => {
+                    return self
+                        .unexpected_token_error(&self.look_ahead, "class declaration as a statement");
+                }
                 _ => Stmt::Expr(self.parse_expression_statement()?),
             },
             _ => return self.expected_token_error(&self.look_ahead, &[]),
-- 
2.43.0


From 7f6f9d71b4ccb7262b205d9834f14ec16ce6ede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:33 +0000
Subject: [PATCH 54/71] fix: reject a yield expression as an arrow parameter or
 assignment target

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3d2a259..c93d2f7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3435,6 +3435,8 @@ where
             argument: arg,
             delegate,
         };
+        self.context.is_assignment_target = false;
+        self.context.is_binding_element = false;
         Ok(Expr::Yield(y))
     }
 
-- 
2.43.0


From 55b915ea6fddd2fa302607f47748a2014668a432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:07 +0000
Subject: [PATCH 55/71] fix: reject an expression starting with let on the left
 of of

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index c93d2f7..60d4409 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1316,7 +1316,11 @@ where
             let prev_in = self.context.allow_in;
             self.context.allow_in = false;
             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
+            let starts_with_let = self.at_keyword(Keyword::Let);
             let init = self.parse_assignment_expr()?;
+            if starts_with_let && self.at_contextual_keyword("of") {
+                return self.unexpected_token_error(&self.look_ahead, "let at the start of for of");
+            }
             let is_target = self.context.is_assignment_target && !Self::is_assignment_expr(&init);
             self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
             self.context.allow_in = prev_in;
-- 
2.43.0


From e34639e1ec92d92a1e4ae6b881ca7322be2f78ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:26 +0000
Subject: [PATCH 56/71] fix: continue a template only with its own parts

---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 60d4409..0c8c0ef 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2714,6 +2714,11 @@ where
         quasis.push(quasi);
         while !breaking {
             expressions.push(self.parse_expression()?);
+            if self.look_ahead.token.is_template_head() {
+                // another template can't continue this one
+                return self
+                    .expected_token_error(&self.look_ahead, &["template body", "template tail"]);
+            }
             let quasi = self.parse_template_element()?;
             breaking = quasi.tail;
             quasis.push(quasi);
-- 
2.43.0


From 9a5e2490177aa991f0ca48f7567f467fc0a5c855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:34 +0000
Subject: [PATCH 57/71] fix: reject a compound assignment to a pattern and any
 assignment to a sequence

---
 src/lib.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0c8c0ef..ec2fb8a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2441,6 +2441,7 @@ where
                         }
                     }
                     ex = Expr::Sequence(exprs);
+                    self.context.is_assignment_target = false;
                 }
                 self.expect_punct(Punct::CloseParen)?;
                 if self.at_punct(Punct::FatArrow) {
@@ -3173,7 +3174,10 @@ where
                 }
             } else {
                 if self.at_assign() {
-                    if !self.context.is_assignment_target {
+                    // only a plain assignment can have a pattern on its left
+                    let is_target = self.context.is_assignment_target
+                        && (self.at_punct(Punct::Assign) || !Self::is_array_or_object(&current));
+                    if !is_target {
                         if !self.config.tolerant {
                             return self.unexpected_token_error(
                                 &self.look_ahead,
@@ -3754,7 +3758,8 @@ where
                     _ => (),
                 }
             }
-            if !self.context.is_assignment_target && !self.config.tolerant {
+            let is_target = self.context.is_assignment_target && !Self::is_array_or_object(&ex);
+            if !is_target && !self.config.tolerant {
                 return self
                     .unexpected_token_error(&op, "Cannot increment when not at assignment target");
             }
@@ -3784,7 +3789,9 @@ where
                         }
                     }
                     let op = self.next_item()?;
-                    if !self.context.is_assignment_target && !self.config.tolerant {
+                    let is_target =
+                        self.context.is_assignment_target && !Self::is_array_or_object(&expr);
+                    if !is_target && !self.config.tolerant {
                         return self.unexpected_token_error(
                             &op,
                             "Cannot increment when not at assignment target",
-- 
2.43.0


From 97402e36978acfc290fb249aab5f50171b909378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 58/71] fix: reject function declarations where only a
 statement is allowed

---
 src/lib.rs | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ec2fb8a..222d42d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -622,6 +622,10 @@ where
                     Ok(ProgramPart::Stmt(stmt))
                 }
             },
+            Token::Ident if self.at_async_function() => {
+                let f = self.parse_function_decl(true)?;
+                Ok(ProgramPart::Stmt(Stmt::Expr(Expr::Function(f))))
+            }
             _ => {
                 let stmt = self.parse_statement()?;
                 Ok(ProgramPart::Stmt(stmt))
@@ -901,6 +905,7 @@ where
             },
             Token::Ident => {
                 if self.at_async_function() {
+                    self.check_declaration_position()?;
                     let f = self.parse_function_decl(true)?;
                     Stmt::Expr(Expr::Function(f))
                 } else {
@@ -913,7 +918,10 @@ where
                 Keyword::Debugger => self.parse_debugger_stmt()?,
                 Keyword::Do => Stmt::DoWhile(self.parse_do_while_stmt()?),
                 Keyword::For => self.parse_for_stmt()?,
-                Keyword::Function => Stmt::Expr(self.parse_fn_stmt()?),
+                Keyword::Function => {
+                    self.check_declaration_position()?;
+                    Stmt::Expr(self.parse_fn_stmt()?)
+                }
                 Keyword::If => Stmt::If(self.parse_if_stmt()?),
                 Keyword::Return => Stmt::Return(self.parse_return_stmt()?),
                 Keyword::Switch => Stmt::Switch(self.parse_switch_stmt()?),
@@ -923,9 +931,9 @@ where
                 Keyword::While => Stmt::While(self.parse_while_stmt()?),
                 Keyword::With => Stmt::With(self.parse_with_stmt()?),
                 _ if self.is_var_ident(&self.look_ahead) => self.parse_labelled_statement()?,
-                Keyword::Class if !self.config.tolerant => {
-                    return self
-                        .unexpected_token_error(&self.look_ahead, "class declaration as a statement");
+                Keyword::Class => {
+                    self.check_declaration_position()?;
+                    Stmt::Expr(self.parse_expression_statement()?)
                 }
                 _ => Stmt::Expr(self.parse_expression_statement()?),
             },
@@ -1195,12 +1203,26 @@ where
                 return self.unexpected_token_error(&self.look_ahead, "");
             }
         }
+        if self.at_keyword(Keyword::Function) {
+            return Ok(Stmt::Expr(self.parse_fn_stmt()?));
+        }
         self.parse_statement()
     }
+    /// A declaration can't stand where only a statement is allowed
+    fn check_declaration_position(&self) -> Res<()> {
+        if self.config.tolerant {
+            return Ok(());
+        }
+        self.unexpected_token_error(&self.look_ahead, "declaration as a statement")
+    }
 
     fn parse_fn_stmt(&mut self) -> Res<Expr> {
         debug!("parse_fn_stmt");
+        let start = self.look_ahead.clone();
         let decl = self.parse_function_decl(true)?;
+        if decl.generator && !self.config.tolerant {
+            return self.unexpected_token_error(&start, "generator declaration as a statement");
+        }
         Ok(Expr::Function(decl))
     }
 
@@ -1562,9 +1584,7 @@ where
                         "labelled function in strict context",
                     );
                 }
-                let f = self.parse_function_decl(true)?;
-                let expr = Expr::Function(f);
-                Stmt::Expr(expr)
+                Stmt::Expr(self.parse_fn_stmt()?)
             } else {
                 self.parse_statement()?
             };
-- 
2.43.0


From 9f93e83eacb6e96d4e1ffe8a87f32f7b9737c2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 59/71] fix: require an initializer for a pattern in the head
 of a plain for loop

---
 src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 222d42d..672037c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1699,7 +1699,7 @@ where
             let init = self.parse_assignment_expr()?;
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
             Some(init)
-        } else if !Self::is_pat_ident(&id) && !in_for {
+        } else if !Self::is_pat_ident(&id) && !(in_for && self.at_in_or_of()) {
             self.expect_punct(Punct::Assign)?;
             None
         } else {
@@ -1708,6 +1708,10 @@ where
         Ok(VariableDecl { id, init })
     }
 
+    fn at_in_or_of(&self) -> bool {
+        self.at_keyword(Keyword::In) || self.at_contextual_keyword("of")
+    }
+
     fn is_pat_ident(pat: &Pat) -> bool {
         match pat {
             Pat::Identifier(_) => true,
@@ -1725,7 +1729,7 @@ where
             }
         }
         let init = if kind == VariableKind::Const {
-            if !in_for || !self.at_keyword(Keyword::In) && !self.at_contextual_keyword("of") {
+            if !(in_for && self.at_in_or_of()) {
                 if self.at_punct(Punct::Assign) {
                     let _ = self.next_item()?;
                     let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
@@ -1738,7 +1742,9 @@ where
             } else {
                 None
             }
-        } else if !in_for && !Self::is_pat_ident(&id) || self.at_punct(Punct::Assign) {
+        } else if !Self::is_pat_ident(&id) && !(in_for && self.at_in_or_of())
+            || self.at_punct(Punct::Assign)
+        {
             self.expect_punct(Punct::Assign)?;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
             let init = self.parse_assignment_expr()?;
-- 
2.43.0


From 131624f315f26ecab4b1b569c36ea27192b81af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:41 +0000
Subject: [PATCH 60/71] fix: reject an assignment in parentheses as an
 assignment target

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 672037c..b74df41 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2494,7 +2494,7 @@ where
                 self.check_cover_initialized_name()?;
                 // patterns are never wrapped in parentheses
                 // and neither are the names they bind
-                if Self::is_array_or_object(&ex) {
+                if Self::is_array_or_object(&ex) || Self::is_assignment_expr(&ex) {
                     self.context.is_assignment_target = false;
                 }
                 self.context.is_binding_element = false;
-- 
2.43.0


From 56ab3c225095ce735d20476597eeb802e5ad73d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:08 +0000
Subject: [PATCH 61/71] fix: report a missing property value where it is
 missing

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b74df41..f346a2f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2702,7 +2702,7 @@ where
                         })
                     }
                 } else {
-                    return self.expected_token_error(&start, &["object property value"]);
+                    return self.expected_token_error(&self.look_ahead, &["object property value"]);
                 }
             } else {
                 return self.expected_token_error(&start, &["object property key"]);
-- 
2.43.0


From 517d0c2a4c8ca6562d314e0b0b75943c8d414f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:59 +0000
Subject: [PATCH 62/71] fix: reject yield and await in parameter lists

---
 src/lib.rs | 106 ++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 93 insertions(+), 13 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f346a2f..f4e4b94 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -100,6 +100,14 @@ struct Context {
     /// If we have found any possible naming errors
     /// which are not yet resolved
     first_covert_initialized_name_error: Option<Item>,
+    /// The first `yield` or `await` expression of the current
+    /// function or of the parentheses being parsed, these
+    /// cannot be part of a parameter list
+    yield_or_await: Option<Item>,
+    /// The first identifier `await` of the current function or of
+    /// the parentheses being parsed, it cannot be part of the
+    /// parameter list of an async arrow function
+    await_ident: Option<Item>,
     /// If the current expressions is an assignment target
     is_assignment_target: bool,
     /// If the current expression is a binding element
@@ -149,6 +157,8 @@ impl Default for Context {
             allow_strict_directive: true,
             allow_yield: true,
             first_covert_initialized_name_error: None,
+            yield_or_await: None,
+            await_ident: None,
             is_assignment_target: false,
             is_binding_element: false,
             in_function_body: false,
@@ -2026,18 +2036,40 @@ where
 
     /// Set what `super` and `new.target` mean in a function other than an arrow
     /// function, returning the values to restore after its body
-    fn enter_function(&mut self, is_method: bool, is_derived_ctor: bool) -> (bool, bool, bool) {
-        (
-            replace(&mut self.context.super_property, is_method),
-            replace(&mut self.context.super_call, is_derived_ctor),
-            replace(&mut self.context.new_target, true),
-        )
+    fn enter_function(&mut self, is_method: bool, is_derived_ctor: bool) -> FunctionState {
+        FunctionState {
+            super_property: replace(&mut self.context.super_property, is_method),
+            super_call: replace(&mut self.context.super_call, is_derived_ctor),
+            new_target: replace(&mut self.context.new_target, true),
+            yield_or_await: self.context.yield_or_await.take(),
+            await_ident: self.context.await_ident.take(),
+        }
+    }
+
+    fn leave_function(&mut self, prev: FunctionState) {
+        self.context.super_property = prev.super_property;
+        self.context.super_call = prev.super_call;
+        self.context.new_target = prev.new_target;
+        self.context.yield_or_await = prev.yield_or_await;
+        self.context.await_ident = prev.await_ident;
+    }
+
+    /// Remember an identifier `await`, it might turn out to
+    /// be inside of the parameters of an async arrow function
+    fn note_await_ident(&mut self, item: &Item) {
+        if item.token.matches_keyword(&Keyword::Await) && self.context.await_ident.is_none() {
+            self.context.await_ident = Some(item.clone());
+        }
     }
 
-    fn leave_function(&mut self, prev: (bool, bool, bool)) {
-        self.context.super_property = prev.0;
-        self.context.super_call = prev.1;
-        self.context.new_target = prev.2;
+    /// A parameter list cannot hold a `yield` or `await` expression
+    fn check_params(&self) -> Res<()> {
+        match &self.context.yield_or_await {
+            Some(item) if !self.config.tolerant => {
+                self.unexpected_token_error(item, "yield or await in parameters")
+            }
+            _ => Ok(()),
+        }
     }
 
     fn parse_async_property_method(&mut self, is_gen: bool) -> Res<PropertyValue> {
@@ -2354,6 +2386,8 @@ where
             Ok(Expr::Literal(Literal::RegEx(lit)))
         } else if self.look_ahead.token.is_keyword() {
             if self.is_var_ident(&self.look_ahead) {
+                let start = self.look_ahead.clone();
+                self.note_await_ident(&start);
                 let ident = self.parse_ident_name()?;
                 Ok(Expr::Ident(ident))
             } else {
@@ -2399,8 +2433,20 @@ where
         }
     }
 
+    /// Parse an expression in parentheses or the
+    /// parameters of an arrow function
     fn parse_group_expr(&mut self) -> Res<Expr> {
-        debug!("parse_group_expr");
+        let prev_yield_or_await = self.context.yield_or_await.take();
+        let ret = self.parse_group()?;
+        if self.at_punct(Punct::FatArrow) {
+            self.check_params()?;
+        }
+        self.context.yield_or_await = prev_yield_or_await.or(self.context.yield_or_await.take());
+        Ok(ret)
+    }
+
+    fn parse_group(&mut self) -> Res<Expr> {
+        debug!("parse_group");
         self.expect_punct(Punct::OpenParen)?;
         if self.at_punct(Punct::CloseParen) {
             let _ = self.next_item()?;
@@ -2676,6 +2722,7 @@ where
                         short_hand: false,
                     })
                 } else if self.is_var_ident(&start) {
+                    self.note_await_ident(&start);
                     if self.at_punct(Punct::Assign) {
                         self.context.first_covert_initialized_name_error =
                             Some(self.look_ahead.clone());
@@ -2866,6 +2913,7 @@ where
     fn parse_binding_ident(&mut self) -> Res<Identifier> {
         let start = self.look_ahead.clone();
         let ident = self.parse_var_ident()?;
+        self.note_await_ident(&start);
         if self.context.strict && Self::is_restricted_word(&ident) && !self.config.tolerant {
             return self.unexpected_token_error(&start, "restricted ident in strict context");
         }
@@ -2904,6 +2952,7 @@ where
             }
         }
         self.expect_punct(Punct::CloseParen)?;
+        self.check_params()?;
 
         let found_restricted = args.iter().any(Self::binds_restricted);
         Ok(FormalParams {
@@ -3084,12 +3133,14 @@ where
             let value = if self.at_punct(Punct::Assign) {
                 self.expect_punct(Punct::Assign)?;
                 short_hand = true;
+                self.note_await_ident(&start);
                 let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
                 let e = self.parse_assignment_expr()?;
                 self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
                 PropertyValue::Expr(e)
             } else if !self.at_punct(Punct::Colon) {
                 short_hand = true;
+                self.note_await_ident(&start);
                 PropertyValue::None
             } else {
                 self.expect_punct(Punct::Colon)?;
@@ -3150,6 +3201,8 @@ where
                     let prev_yield = self.context.allow_yield;
                     let prev_strict = self.context.strict;
                     let prev_allow_strict = self.context.allow_strict_directive;
+                    let prev_yield_or_await = self.context.yield_or_await.take();
+                    let prev_await_ident = self.context.await_ident.take();
                     self.context.r#await = is_async;
                     self.context.allow_yield = true;
                     self.context.allow_strict_directive = params.iter().all(Self::is_simple);
@@ -3195,6 +3248,8 @@ where
                     self.context.allow_yield = prev_yield;
                     self.context.strict = prev_strict;
                     self.context.allow_strict_directive = prev_allow_strict;
+                    self.context.yield_or_await = prev_yield_or_await;
+                    self.context.await_ident = prev_await_ident;
                     self.context.is_assignment_target = false;
                     self.context.is_binding_element = false;
                 }
@@ -3455,6 +3510,9 @@ where
 
     fn parse_yield_expr(&mut self) -> Res<Expr> {
         debug!("parse_yield_expr");
+        if self.context.yield_or_await.is_none() {
+            self.context.yield_or_await = Some(self.look_ahead.clone());
+        }
         self.expect_keyword(Keyword::Yield)?;
         let mut arg: Option<Box<Expr>> = None;
         let mut delegate = false;
@@ -3747,7 +3805,10 @@ where
 
     fn parse_await_expr(&mut self) -> Res<Expr> {
         debug!("parse_await_expr");
-        let _await = self.next_item()?;
+        let start = self.next_item()?;
+        if self.context.yield_or_await.is_none() {
+            self.context.yield_or_await = Some(start);
+        }
         let arg = self.parse_unary_expression()?;
         self.context.is_assignment_target = false;
         self.context.is_binding_element = false;
@@ -4038,6 +4099,8 @@ where
         let mut ret = vec![];
         let mut are_params = true;
         let mut initialized_name = None;
+        let prev_yield_or_await = self.context.yield_or_await.take();
+        let prev_await_ident = self.context.await_ident.take();
         if !self.at_punct(Punct::CloseParen) {
             loop {
                 let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
@@ -4064,10 +4127,17 @@ where
             }
         }
         self.expect_punct(Punct::CloseParen)?;
-        if !self.at_punct(Punct::FatArrow) && initialized_name.is_some() {
+        if self.at_punct(Punct::FatArrow) {
+            self.check_params()?;
+            if let Some(ref item) = self.context.await_ident {
+                return self.unexpected_token_error(item, "await in async parameters");
+            }
+        } else if initialized_name.is_some() {
             self.context.first_covert_initialized_name_error = initialized_name;
             self.check_cover_initialized_name()?;
         }
+        self.context.yield_or_await = prev_yield_or_await.or(self.context.yield_or_await.take());
+        self.context.await_ident = prev_await_ident.or(self.context.await_ident.take());
         Ok((ret, are_params))
     }
     /// Is this an element of the form `...target = value`
@@ -4788,6 +4858,16 @@ where
     }
 }
 
+/// What a function replaces in the context, to be
+/// restored after its body
+struct FunctionState {
+    super_property: bool,
+    super_call: bool,
+    new_target: bool,
+    yield_or_await: Option<Item>,
+    await_ident: Option<Item>,
+}
+
 #[allow(unused)]
 struct FormalParams {
     simple: bool,
-- 
2.43.0


From f801ed40cbd0eedc1c3c112047c010cae2ed70f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:01 +0000
Subject: [PATCH 63/71] fix: bind the rest of an object only to a name

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f4e4b94..c2a7e74 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3102,6 +3102,10 @@ where
     fn parse_rest_prop(&mut self) -> Res<ObjectPatPart> {
         debug!("parse_rest_prop");
         self.expect_punct(Punct::Spread)?;
+        if self.at_punct(Punct::OpenBracket) || self.at_punct(Punct::OpenBrace) {
+            // the rest of an object can only be bound to a name
+            return self.expected_token_error(&self.look_ahead, &["variable identifier"]);
+        }
         let (_, arg) = self.parse_pattern(None, &mut vec![])?;
         if self.at_punct(Punct::Assign) {
             return self.expected_token_error(&self.look_ahead, &["not assignment"]);
-- 
2.43.0


From e03f25a298598830af6a1969d7e39a747910c860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:44 +0000
Subject: [PATCH 64/71] fix: report a missing template part where it is missing

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c2a7e74..527365d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2806,7 +2806,7 @@ where
     fn parse_template_element(&mut self) -> Res<TemplateElement> {
         debug!("parse_template_element");
         let item = self.next_item()?;
-        if let Token::Template(t) = item.token {
+        if let Token::Template(ref t) = item.token {
             let raw = self.get_string(&item.span)?;
             let (cooked, tail) = match t {
                 ress::refs::tokens::Template::Head => (raw[1..raw.len() - 2].to_string(), false),
@@ -2816,7 +2816,7 @@ where
             };
             Ok(TemplateElement { raw, cooked, tail })
         } else {
-            self.expected_token_error(&self.look_ahead, &["Template part"])
+            self.expected_token_error(&item, &["Template part"])
         }
     }
 
-- 
2.43.0


From 9e29c355e2e9a0e041216688890c19cec2657949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:58 +0000
Subject: [PATCH 65/71] fix: report a missing generator method name where it is
 missing

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 527365d..43468c7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2752,7 +2752,7 @@ where
                     return self.expected_token_error(&self.look_ahead, &["object property value"]);
                 }
             } else {
-                return self.expected_token_error(&start, &["object property key"]);
+                return self.expected_token_error(&self.look_ahead, &["object property key"]);
             }
         };
         Ok((has_proto, prop))
-- 
2.43.0


From 493b78a9ee526c380ec96ee0e252d703a951d446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:13 +0000
Subject: [PATCH 66/71] fix: read the parameter of an async arrow function as a
 name

---
 src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 43468c7..2e3f2d7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3182,9 +3182,12 @@ where
                 && !self.context.has_line_term
                 && self.is_var_ident(&self.look_ahead)
             {
-                let arg = self.parse_primary_expression()?;
-                let arg = self.reinterpret_expr_as_pat(arg)?;
-                let arg = FunctionArg::Pat(arg);
+                let start = self.look_ahead.clone();
+                let arg = self.parse_var_ident()?;
+                if start.token.matches_keyword(&Keyword::Await) {
+                    return self.unexpected_token_error(&start, "await in async parameters");
+                }
+                let arg = FunctionArg::Pat(Pat::Identifier(arg));
                 current = Expr::ArrowParamPlaceHolder(vec![arg], true);
             }
             debug!(
-- 
2.43.0


From 8c68ded42e184b1226b7474e841d123b787ba35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:38 +0000
Subject: [PATCH 67/71] fix: report a with statement in strict mode at the with
 keyword

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2e3f2d7..affcfdd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -956,7 +956,7 @@ where
         debug!("parse_with_stmt");
         if self.context.strict {
             self.tolerate_error(Error::NonStrictFeatureInStrictContext(
-                self.current_position,
+                self.look_ahead_position,
                 "with statements".to_string(),
             ))?;
         }
-- 
2.43.0


From ab132f19cedb13ef84d68e9ad8288cd7cbf9cec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:13 +0000
Subject: [PATCH 68/71] fix: report a second default clause at its keyword

---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index affcfdd..9fe9ebc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1117,11 +1117,11 @@ where
             if self.at_punct(Punct::CloseBrace) {
                 break;
             }
+            if found_default && self.at_keyword(Keyword::Default) {
+                return self.expected_token_error(&self.look_ahead, &["case", "}"]);
+            }
             let case = self.parse_switch_case()?;
             if case.test.is_none() {
-                if found_default {
-                    return self.expected_token_error(&self.look_ahead, &[]);
-                }
                 found_default = true;
             }
             cases.push(case);
-- 
2.43.0


From b2f7ea2f5c687e414b0b0f5063572c15af881893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:17 +0000
Subject: [PATCH 69/71] fix: give no program after an error

---
 src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9fe9ebc..5e39513 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -516,8 +516,11 @@ where
     pub fn parse(&mut self) -> Res<Program> {
         debug!("parse_script");
         let mut body = vec![];
-        while !self.look_ahead.token.is_eof() {
-            body.push(self.next_part()?);
+        if self.failed {
+            return Err(self.op_error("the parser has already failed"));
+        }
+        while let Some(part) = self.next() {
+            body.push(part?);
         }
         Ok(if self.context.is_module {
             Program::Mod(body)
-- 
2.43.0


From b6e735095e24ffa2ee6cee228cd4b917fc68740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:36 +0000
Subject: [PATCH 70/71] fix: reject async on a line of its own to the left of
 of

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 5e39513..d154fab 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1352,10 +1352,17 @@ where
             self.context.allow_in = false;
             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
             let starts_with_let = self.at_keyword(Keyword::Let);
+            let starts_with_async = !is_await && self.at_contextual_keyword("async");
             let init = self.parse_assignment_expr()?;
             if starts_with_let && self.at_contextual_keyword("of") {
                 return self.unexpected_token_error(&self.look_ahead, "let at the start of for of");
             }
+            if starts_with_async
+                && Self::is_ident(&init)
+                && self.at_contextual_keyword("of")
+            {
+                return self.unexpected_token_error(&self.look_ahead, "async at the start of for of");
+            }
             let is_target = self.context.is_assignment_target && !Self::is_assignment_expr(&init);
             self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
             self.context.allow_in = prev_in;
-- 
2.43.0


From cf0d7830d3064f1438c0d5189fb4098062cf3fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:06 +0000
Subject: [PATCH 71/71] fix: report a for await without of clause at the token
 in place of of

---
 src/lib.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d154fab..b67d4c6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1253,14 +1253,16 @@ where
             false
         };
         self.expect_punct(Punct::OpenParen)?;
-        let stmt = self.parse_for_head(is_await)?;
-        match stmt {
-            Stmt::ForOf(_) => Ok(stmt),
-            _ if is_await => {
-                self.unexpected_token_error(&self.look_ahead, "for await requires an of clause")
-            }
-            _ => Ok(stmt),
+        self.parse_for_head(is_await)
+    }
+
+    /// `for await` is only allowed when an `of` clause follows
+    fn check_not_for_await(&self, is_await: bool) -> Res<()> {
+        if is_await {
+            return self
+                .unexpected_token_error(&self.look_ahead, "for await requires an of clause");
         }
+        Ok(())
     }
 
     fn parse_for_head(&mut self, is_await: bool) -> Res<Stmt> {
@@ -1268,6 +1270,7 @@ where
         if self.at_punct(Punct::SemiColon) {
             // any semi-colon would mean standard C style for loop
             // for (;;) {}
+            self.check_not_for_await(is_await)?;
             let stmt = self.parse_for_loop(VariableKind::Var)?;
             return Ok(Stmt::For(stmt));
         }
@@ -1287,6 +1290,7 @@ where
                 };
                 if self.at_keyword(Keyword::In) {
                     let left = LoopLeft::Variable(kind, decl);
+                    self.check_not_for_await(is_await)?;
                     let stmt = self.parse_for_in_loop(left)?;
                     return Ok(Stmt::ForIn(stmt));
                 } else if decl.init.is_none() && self.at_contextual_keyword("of") {
@@ -1294,11 +1298,13 @@ where
                     let stmt = self.parse_for_of_loop(left, is_await)?;
                     return Ok(Stmt::ForOf(stmt));
                 } else {
+                    self.check_not_for_await(is_await)?;
                     let init = LoopInit::Variable(kind, vec![decl]);
                     let stmt = self.parse_for_loop_cont(Some(init))?;
                     return Ok(Stmt::For(stmt));
                 }
             } else {
+                self.check_not_for_await(is_await)?;
                 let init = LoopInit::Variable(kind, bindings);
                 let stmt = self.parse_for_loop_cont(Some(init))?;
                 return Ok(Stmt::For(stmt));
@@ -1327,6 +1333,7 @@ where
                 };
                 if decl.init.is_none() && self.at_keyword(Keyword::In) {
                     let left = LoopLeft::Variable(kind, decl);
+                    self.check_not_for_await(is_await)?;
                     let _in = self.next_item()?;
                     let right = self.parse_expression()?;
                     return Ok(Stmt::ForIn(ForInStmt {
@@ -1338,11 +1345,13 @@ where
                     let left = LoopLeft::Variable(kind, decl);
                     return Ok(Stmt::ForOf(self.parse_for_of_loop(left, is_await)?));
                 } else {
+                    self.check_not_for_await(is_await)?;
                     let init = LoopInit::Variable(kind, vec![decl]);
                     let stmt = self.parse_for_loop_cont(Some(init))?;
                     return Ok(Stmt::For(stmt));
                 }
             } else {
+                self.check_not_for_await(is_await)?;
                 let init = LoopInit::Variable(kind, decls);
                 let stmt = self.parse_for_loop_cont(Some(init))?;
                 return Ok(Stmt::For(stmt));
@@ -1383,6 +1392,7 @@ where
                 );
             }
             if self.at_keyword(Keyword::In) {
+                self.check_not_for_await(is_await)?;
                 let _ = self.next_item()?;
                 let left = LoopLeft::Expr(init);
                 let right = self.parse_expression()?;
@@ -1420,6 +1430,7 @@ where
                     LoopInit::Expr(init)
                 };
                 self.check_cover_initialized_name()?;
+                self.check_not_for_await(is_await)?;
                 return Ok(Stmt::For(self.parse_for_loop_cont(Some(init))?));
             }
         }
-- 
2.43.0

