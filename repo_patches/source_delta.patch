From 3b8fe8ffbc998f62fb636c4de4b2158aad61058b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 01/36] fix: hand parser: a null character does not end the
 query

Everything after a null character outside a string was ignored, so "$\0junk"
was accepted as "$".
---
 crates/jsonpath_rfc9535/src/lexer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/lexer.rs b/crates/jsonpath_rfc9535/src/lexer.rs
index f0e7828..6470760 100644
--- a/crates/jsonpath_rfc9535/src/lexer.rs
+++ b/crates/jsonpath_rfc9535/src/lexer.rs
@@ -204,6 +204,11 @@ impl<'q> Lexer<'q> {
         }
     }
 
+    /// Is there nothing left of the query? A null character in the query is not its end.
+    fn at_end(&self) -> bool {
+        self.pos == self.query.len()
+    }
+
     fn accept(&mut self, ch: char) -> bool {
         if self.peek() == ch {
             self.next();
@@ -304,8 +309,7 @@ fn lex_segment(l: &mut Lexer) -> State {
         State::LexInsideBracketedSegment
     } else if l.filter_depth > 0 {
         State::LexInsideFilter
-    } else if l.peek() == EOQ {
-        l.next();
+    } else if l.at_end() {
         l.emit(TokenType::Eoq);
         State::EndOfQuery
     } else {
-- 
2.43.0


From 5139174b3e34042a8098d0fc76c5f3402bcb2da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 02/36] fix: hand parser: report missing commas between
 selectors instead of panicking

A debug assertion tested the user's query, so "$[1 2]" panicked in debug builds
instead of returning the syntax error that the code below it builds.
---
 crates/jsonpath_rfc9535/src/parser.rs | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index 5df9a7d..3a4ecd0 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -315,18 +315,6 @@ impl Parser {
                 }
             }
 
-            #[cfg(debug_assertions)]
-            debug_assert!(
-                matches!(
-                    it.peek(),
-                    Token {
-                        kind: Comma | TokenType::RBracket,
-                        ..
-                    }
-                ),
-                "expected a comma or the end of a bracketed selection"
-            );
-
             // expect a comma or closing bracket
             match it.peek() {
                 Token { kind: RBracket, .. } => continue,
-- 
2.43.0


From 41da5ed1b4afbd2608c9fc1c134a19bf720621bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 03/36] fix: hand parser: reject a trailing comma in a
 bracketed selection

---
 crates/jsonpath_rfc9535/src/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index 3a4ecd0..9f13b5f 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -320,7 +320,13 @@ impl Parser {
                 Token { kind: RBracket, .. } => continue,
                 Token { kind: Comma, .. } => {
                     // eat comma
-                    it.next();
+                    let comma = it.next();
+                    if it.peek().kind == RBracket {
+                        return Err(JSONPathError::syntax(
+                            String::from("unexpected trailing comma"),
+                            comma.span,
+                        ));
+                    }
                 }
                 token => {
                     return Err(JSONPathError::new(
-- 
2.43.0


From 58b2f58a5688ef88eb487030bd452cce64e61de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 04/36] fix: hand parser: a slice step must follow a second
 colon

"$[1:2 3]" and "$[:1 2]" were accepted as slices.
---
 crates/jsonpath_rfc9535/src/parser.rs | 28 ++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index 9f13b5f..88c86f6 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -380,28 +380,30 @@ impl Parser {
                 it.next(); // eat colon
             }
 
-            // 1 or 1: or : or ?
-            if matches!(it.peek().kind, Index { .. } | Colon) {
+            // 1 or ?
+            if matches!(it.peek().kind, Index { .. }) {
                 if let Token {
                     kind: Index { ref value },
                     span,
                 } = it.next()
                 {
                     stop = Some(self.parse_i_json_int(value, span)?);
-                    if it.peek().kind == Colon {
-                        it.next(); // eat colon
-                    }
                 }
             }
 
-            // 1 or ?
-            if matches!(it.peek().kind, Index { .. }) {
-                if let Token {
-                    kind: Index { ref value },
-                    span,
-                } = it.next()
-                {
-                    step = Some(self.parse_i_json_int(value, span)?);
+            // : or ?
+            if it.peek().kind == Colon {
+                it.next(); // eat colon
+
+                // 1 or ?
+                if matches!(it.peek().kind, Index { .. }) {
+                    if let Token {
+                        kind: Index { ref value },
+                        span,
+                    } = it.next()
+                    {
+                        step = Some(self.parse_i_json_int(value, span)?);
+                    }
                 }
             }
 
-- 
2.43.0


From 233bb03c5f7e500ce168a560227b66e1d19efb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 05/36] fix: hand parser: lex bracketed segments and filters
 nested inside a filter

Consecutive bracketed segments ("$[?@['a']['b']]"), filters inside function
arguments ("$[?count(@[?@.a]) > 1]") and selector lists in them were rejected.
---
 crates/jsonpath_rfc9535/src/lexer.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/lexer.rs b/crates/jsonpath_rfc9535/src/lexer.rs
index 6470760..90e4689 100644
--- a/crates/jsonpath_rfc9535/src/lexer.rs
+++ b/crates/jsonpath_rfc9535/src/lexer.rs
@@ -119,6 +119,8 @@ struct Lexer<'q> {
 
     filter_depth: u32,
     paren_stack: Vec<u32>,
+    // Paren stacks of the filters enclosing the current one.
+    outer_paren_stacks: Vec<Vec<u32>>,
 }
 
 impl<'q> Lexer<'q> {
@@ -131,6 +133,7 @@ impl<'q> Lexer<'q> {
             chars: query.char_indices(),
             filter_depth: 0,
             paren_stack: Vec::new(),
+            outer_paren_stacks: Vec::new(),
         }
     }
 
@@ -251,6 +254,17 @@ impl<'q> Lexer<'q> {
         }
     }
 
+    fn enter_filter(&mut self) {
+        self.filter_depth += 1;
+        self.outer_paren_stacks
+            .push(std::mem::take(&mut self.paren_stack));
+    }
+
+    fn leave_filter(&mut self) {
+        self.filter_depth -= 1;
+        self.paren_stack = self.outer_paren_stacks.pop().unwrap_or_default();
+    }
+
     fn error(&mut self, msg: String) -> State {
         self.tokens.push(Token::new(
             TokenType::Error {
@@ -375,11 +389,7 @@ fn lex_inside_bracketed_segment(l: &mut Lexer) -> State {
         ']' => {
             l.next();
             l.emit(TokenType::RBracket);
-            if l.filter_depth > 0 {
-                State::LexInsideFilter
-            } else {
-                State::LexSegment
-            }
+            State::LexSegment
         }
         '*' => {
             l.next();
@@ -389,7 +399,7 @@ fn lex_inside_bracketed_segment(l: &mut Lexer) -> State {
         '?' => {
             l.next();
             l.emit(TokenType::Filter);
-            l.filter_depth += 1;
+            l.enter_filter();
             State::LexInsideFilter
         }
         ',' => {
@@ -450,10 +460,10 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
     match l.peek() {
         EOQ => l.error(String::from("unclosed bracketed selection")),
         ']' => {
-            l.filter_depth -= 1;
-            if l.paren_stack.len() == 1 {
+            if !l.paren_stack.is_empty() {
                 l.error(String::from("unbalanced parentheses"))
             } else {
+                l.leave_filter();
                 State::LexInsideBracketedSegment
             }
         }
@@ -465,7 +475,7 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
             if !l.paren_stack.is_empty() {
                 State::LexInsideFilter
             } else {
-                l.filter_depth -= 1;
+                l.leave_filter();
                 State::LexInsideBracketedSegment
             }
         }
-- 
2.43.0


From 4ca45c21b3edff27ffd725904befc1cb6a8121c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 06/36] fix: hand parser: number literals follow the grammar

A leading zero ("01") was accepted and an upper case exponent ("1E2") rejected.
---
 crates/jsonpath_rfc9535/src/lexer.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/lexer.rs b/crates/jsonpath_rfc9535/src/lexer.rs
index 90e4689..f9935ed 100644
--- a/crates/jsonpath_rfc9535/src/lexer.rs
+++ b/crates/jsonpath_rfc9535/src/lexer.rs
@@ -663,6 +663,12 @@ fn lex_number(l: &mut Lexer) -> State {
         return l.error(msg);
     }
 
+    let digits = l.value().trim_start_matches('-');
+    if digits.len() > 1 && digits.starts_with('0') {
+        let msg = format!("unexpected leading zero in number `{}`", l.value());
+        return l.error(msg);
+    }
+
     if l.accept('.') {
         // a float
         if !l.accept_run(is_digit) {
@@ -672,7 +678,7 @@ fn lex_number(l: &mut Lexer) -> State {
         }
 
         // exponent
-        if l.accept('e') {
+        if l.accept_if(is_exponent_char) {
             l.accept_if(|ch| ch == '+' || ch == '-');
             if !l.accept_run(is_digit) {
                 return l.error(String::from("at least one exponent digit is required"));
@@ -684,7 +690,7 @@ fn lex_number(l: &mut Lexer) -> State {
         });
     } else {
         // exponent
-        if l.accept('e') {
+        if l.accept_if(is_exponent_char) {
             if l.accept('-') {
                 // emit a float if exponent is negative
                 if !l.accept_run(is_digit) {
@@ -737,6 +743,10 @@ fn is_digit(ch: char) -> bool {
     (0x30..=0x39).contains(&code_point)
 }
 
+fn is_exponent_char(ch: char) -> bool {
+    matches!(ch, 'e' | 'E')
+}
+
 fn is_function_name_first(ch: char) -> bool {
     // a-z
     let code_point = ch as u32;
-- 
2.43.0


From d121387c2b3167aa704bdb633640dafe7bbe831a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 07/36] fix: hand parser: integer literals beyond 64 bits
 become floats

They were silently replaced by i64::MAX or i64::MIN.
---
 crates/jsonpath_rfc9535/src/parser.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index 88c86f6..cf0520b 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -679,15 +679,23 @@ impl Parser {
                 kind: Int { value },
                 span,
             } => {
-                let i = value.parse::<f64>().map_err(|_| {
+                let f = value.parse::<f64>().map_err(|_| {
                     JSONPathError::syntax(String::from("invalid integer literal"), *span)
-                })? as i64;
+                })?;
 
                 let token = it.next();
-                Ok(FilterExpression::Int {
-                    span: token.span,
-                    value: i,
-                })
+                if f.abs() < i64::MAX as f64 {
+                    Ok(FilterExpression::Int {
+                        span: token.span,
+                        value: f as i64,
+                    })
+                } else {
+                    // too big for an integer
+                    Ok(FilterExpression::Float {
+                        span: token.span,
+                        value: f,
+                    })
+                }
             }
             Token { kind: Null, .. } => {
                 let token = it.next();
-- 
2.43.0


From eaa8d14810f454d72dd55685570e72820c39af18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 08/36] fix: hand parser: function arguments are separated by
 single commas

---
 crates/jsonpath_rfc9535/src/parser.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index cf0520b..42f6d84 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -759,9 +759,20 @@ impl Parser {
                     break;
                 }
                 Token { kind: Comma, .. } => {
-                    it.next(); // eat comma
+                    let comma = it.next();
+                    if it.peek().kind == RParen {
+                        return Err(JSONPathError::syntax(
+                            String::from("unexpected trailing comma"),
+                            comma.span,
+                        ));
+                    }
+                }
+                Token { kind, span } => {
+                    return Err(JSONPathError::syntax(
+                        format!("expected a comma or closing parenthesis, found {}", kind),
+                        *span,
+                    ));
                 }
-                _ => (),
             }
         }
 
-- 
2.43.0


From 9131ac7ef070336dd9aa109b982417bebfc01cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 09/36] fix: hand parser: only literals, queries and function
 calls can be compared

---
 crates/jsonpath_rfc9535/src/parser.rs | 30 +++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index 42f6d84..5d5b286 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -482,6 +482,14 @@ impl Parser {
         it: &mut TokenStream,
     ) -> Result<FilterExpression, JSONPathError> {
         let token = it.next();
+
+        if it.peek().kind == Not {
+            return Err(JSONPathError::syntax(
+                format!("expected a test expression, found {}", it.peek().kind),
+                it.peek().span,
+            ));
+        }
+
         let expr = self.parse_filter_expression(it, PRECEDENCE_LOGICAL_NOT)?;
         Ok(FilterExpression::Not {
             span: token.span,
@@ -496,6 +504,14 @@ impl Parser {
     ) -> Result<FilterExpression, JSONPathError> {
         let op_token = it.next();
         let precedence = self.precedence(&op_token.kind);
+
+        if precedence == PRECEDENCE_RELATIONAL && matches!(it.peek().kind, LParen | Not) {
+            return Err(JSONPathError::syntax(
+                format!("expected a comparable expression, found {}", it.peek().kind),
+                it.peek().span,
+            ));
+        }
+
         let right = self.parse_filter_expression(it, precedence)?;
 
         match op_token.kind {
@@ -635,6 +651,14 @@ impl Parser {
         );
 
         it.next(); // eat closing paren
+
+        if self.precedence(&it.peek().kind) == PRECEDENCE_RELATIONAL {
+            return Err(JSONPathError::syntax(
+                String::from("parenthesized expressions are not comparable"),
+                it.peek().span,
+            ));
+        }
+
         Ok(expr)
     }
 
@@ -863,6 +887,12 @@ impl Parser {
                     ))
                 }
             }
+            FilterExpression::Not { .. }
+            | FilterExpression::Logical { .. }
+            | FilterExpression::Comparison { .. } => Err(JSONPathError::syntax(
+                String::from("logical expressions are not comparable"),
+                span,
+            )),
             _ => Ok(()),
         }
     }
-- 
2.43.0


From 8d2d65f7dd79db847cd6fc4b6f8174917b42508d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 10/36] fix: hand parser: every operand of a logical expression
 must be a test expression

---
 crates/jsonpath_rfc9535/src/parser.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index 5d5b286..bc3dddd 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -443,9 +443,18 @@ impl Parser {
 
         let token = it.next();
         let expr = self.parse_filter_expression(it, PRECEDENCE_LOWEST)?;
+        self.assert_test_expression(&expr)?;
 
+        Ok(Selector::Filter {
+            span: token.span,
+            expression: Box::new(expr),
+        })
+    }
+
+    /// Check that _expr_ can stand on its own as a test, without being compared.
+    fn assert_test_expression(&self, expr: &FilterExpression) -> Result<(), JSONPathError> {
         match expr {
-            FilterExpression::Function { ref name, span, .. } => {
+            FilterExpression::Function { name, span, .. } => {
                 if let Some(FunctionSignature {
                     return_type: ExpressionType::Value,
                     ..
@@ -453,7 +462,7 @@ impl Parser {
                 {
                     return Err(JSONPathError::typ(
                         format!("result of {}() must be compared", name),
-                        span,
+                        *span,
                     ));
                 }
             }
@@ -465,16 +474,13 @@ impl Parser {
             | FilterExpression::Float { span, .. } => {
                 return Err(JSONPathError::typ(
                     String::from("filter expression literals must be compared"),
-                    span,
+                    *span,
                 ));
             }
             _ => (),
         }
 
-        Ok(Selector::Filter {
-            span: token.span,
-            expression: Box::new(expr),
-        })
+        Ok(())
     }
 
     fn parse_not_expression(
@@ -491,6 +497,7 @@ impl Parser {
         }
 
         let expr = self.parse_filter_expression(it, PRECEDENCE_LOGICAL_NOT)?;
+        self.assert_test_expression(&expr)?;
         Ok(FilterExpression::Not {
             span: token.span,
             expression: Box::new(expr),
@@ -522,6 +529,8 @@ impl Parser {
                         left.span(),
                     ))
                 } else {
+                    self.assert_test_expression(&left)?;
+                    self.assert_test_expression(&right)?;
                     Ok(FilterExpression::Logical {
                         span: left.span(),
                         left: Box::new(left),
@@ -537,6 +546,8 @@ impl Parser {
                         left.span(),
                     ))
                 } else {
+                    self.assert_test_expression(&left)?;
+                    self.assert_test_expression(&right)?;
                     Ok(FilterExpression::Logical {
                         span: left.span(),
                         left: Box::new(left),
@@ -651,6 +662,7 @@ impl Parser {
         );
 
         it.next(); // eat closing paren
+        self.assert_test_expression(&expr)?;
 
         if self.precedence(&it.peek().kind) == PRECEDENCE_RELATIONAL {
             return Err(JSONPathError::syntax(
-- 
2.43.0


From 108c855ae8e78dade557d815c4d31dbd4a966b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 11/36] fix: hand parser: function arguments are checked
 against the declared parameter types

---
 crates/jsonpath_rfc9535/src/parser.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index bc3dddd..f95d6bb 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -780,8 +780,10 @@ impl Parser {
     fn parse_function_call(&self, it: &mut TokenStream) -> Result<FilterExpression, JSONPathError> {
         let token = it.next();
         let mut arguments: Vec<FilterExpression> = Vec::new();
+        let mut parenthesized: Vec<bool> = Vec::new();
 
         while it.peek().kind != RParen {
+            parenthesized.push(it.peek().kind == LParen);
             let mut expr = self.parse_basic_expression(it)?;
 
             while matches!(it.peek().kind, Eq | Ge | Gt | Le | Lt | Ne | And | Or) {
@@ -822,7 +824,7 @@ impl Parser {
 
         if let Function { ref name } = &token.kind {
             let function_name = name.to_string();
-            self.assert_well_typed(&function_name, &arguments, &token)?;
+            self.assert_well_typed(&function_name, &arguments, &parenthesized, &token)?;
             Ok(FilterExpression::Function {
                 span: token.span,
                 name: function_name,
@@ -913,6 +915,7 @@ impl Parser {
         &self,
         func_name: &str,
         args: &[FilterExpression],
+        parenthesized: &[bool], // parenthesized arguments are always logical expressions
         token: &Token,
     ) -> Result<(), JSONPathError> {
         let signature = self.functions.get(func_name).ok_or_else(|| {
@@ -942,7 +945,7 @@ impl Parser {
             let arg = &args[idx];
             match typ {
                 ExpressionType::Value => {
-                    if !self.is_value_type(arg) {
+                    if parenthesized[idx] || !self.is_value_type(arg) {
                         return Err(JSONPathError::typ(
                             format!(
                                 "argument {} of {}() must be of a 'Value' type",
@@ -954,13 +957,7 @@ impl Parser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if self.assert_test_expression(arg).is_err() {
                         return Err(JSONPathError::typ(
                             format!(
                                 "argument {} of {}() must be of a 'Logical' type",
@@ -972,7 +969,7 @@ impl Parser {
                     }
                 }
                 ExpressionType::Nodes => {
-                    if !self.is_nodes_type(arg) {
+                    if parenthesized[idx] || !self.is_nodes_type(arg) {
                         return Err(JSONPathError::typ(
                             format!(
                                 "argument {} of {}() must be of a 'Nodes' type",
-- 
2.43.0


From af5bdaec1d763f5aa4023117522555361d3049bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 12/36] fix: hand parser: only surrogate pairs are combined
 when decoding strings

---
 crates/jsonpath_rfc9535/src/parser.rs | 45 ++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index f95d6bb..ebeda8a 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -1101,14 +1101,12 @@ fn unescape_string(value: &str, token_span: &(usize, usize)) -> Result<String, J
                             .iter()
                             .collect::<String>();
 
-                        let mut codepoint = u32::from_str_radix(&digits, 16).map_err(|_| {
-                            JSONPathError::syntax(
-                                String::from("invalid \\uXXXX escape"),
-                                (start_index, index + 4),
-                            )
-                        })?;
+                        let mut codepoint = parse_hex_digits(&digits, token_span)?;
 
-                        if index + 5 < length && chars[index + 4] == '\\' && chars[index + 5] == 'u'
+                        if is_high_surrogate(codepoint)
+                            && index + 5 < length
+                            && chars[index + 4] == '\\'
+                            && chars[index + 5] == 'u'
                         {
                             // expect a surrogate pair
                             if index + 9 >= length {
@@ -1124,12 +1122,14 @@ fn unescape_string(value: &str, token_span: &(usize, usize)) -> Result<String, J
                                 .iter()
                                 .collect::<String>();
 
-                            let low_surrogate = u32::from_str_radix(digits, 16).map_err(|_| {
-                                JSONPathError::syntax(
+                            let low_surrogate = parse_hex_digits(digits, token_span)?;
+
+                            if !is_low_surrogate(low_surrogate) {
+                                return Err(JSONPathError::syntax(
                                     String::from("invalid \\uXXXX escape"),
-                                    (start_index, index + 10),
-                                )
-                            })?;
+                                    *token_span,
+                                ));
+                            }
 
                             codepoint =
                                 0x10000 + (((codepoint & 0x03FF) << 10) | (low_surrogate & 0x03FF));
@@ -1178,3 +1178,24 @@ fn unescape_string(value: &str, token_span: &(usize, usize)) -> Result<String, J
 
     Ok(rv)
 }
+
+fn parse_hex_digits(digits: &str, token_span: &(usize, usize)) -> Result<u32, JSONPathError> {
+    if digits.chars().all(|ch| ch.is_ascii_hexdigit()) {
+        if let Ok(codepoint) = u32::from_str_radix(digits, 16) {
+            return Ok(codepoint);
+        }
+    }
+
+    Err(JSONPathError::syntax(
+        String::from("invalid \\uXXXX escape"),
+        *token_span,
+    ))
+}
+
+fn is_high_surrogate(codepoint: u32) -> bool {
+    (0xD800..=0xDBFF).contains(&codepoint)
+}
+
+fn is_low_surrogate(codepoint: u32) -> bool {
+    (0xDC00..=0xDFFF).contains(&codepoint)
+}
-- 
2.43.0


From 53fd573a7325fdc3019b7ec5d4293278b4b6514f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 13/36] fix: hand parser: string decoding errors report the
 span of the string

---
 crates/jsonpath_rfc9535/src/parser.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index ebeda8a..ebd52d7 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -1062,14 +1062,12 @@ fn unescape_string(value: &str, token_span: &(usize, usize)) -> Result<String, J
     let mut index: usize = 0;
 
     while index < length {
-        let start_index = token_span.0 + index; // for error reporting
-
         match chars[index] {
             '\\' => {
                 if index + 1 >= length {
                     return Err(JSONPathError::syntax(
                         String::from("invalid escape"),
-                        (start_index, index + 1),
+                        *token_span,
                     ));
                 }
 
@@ -1089,7 +1087,7 @@ fn unescape_string(value: &str, token_span: &(usize, usize)) -> Result<String, J
                         if index + 4 >= length {
                             return Err(JSONPathError::syntax(
                                 String::from("invalid \\uXXXX escape"),
-                                (start_index, length),
+                                *token_span,
                             ));
                         }
 
@@ -1112,7 +1110,7 @@ fn unescape_string(value: &str, token_span: &(usize, usize)) -> Result<String, J
                             if index + 9 >= length {
                                 return Err(JSONPathError::syntax(
                                     String::from("invalid \\uXXXX escape"),
-                                    (start_index, length),
+                                    *token_span,
                                 ));
                             }
 
@@ -1140,14 +1138,14 @@ fn unescape_string(value: &str, token_span: &(usize, usize)) -> Result<String, J
                         let unescaped = char::from_u32(codepoint).ok_or_else(|| {
                             JSONPathError::syntax(
                                 String::from("invalid \\uXXXX escape"),
-                                (start_index, index + 3),
+                                *token_span,
                             )
                         })?;
 
                         if unescaped as u32 <= 0x1F {
                             return Err(JSONPathError::syntax(
                                 String::from("invalid character"),
-                                (start_index, start_index + 1),
+                                *token_span,
                             ));
                         }
 
@@ -1157,7 +1155,7 @@ fn unescape_string(value: &str, token_span: &(usize, usize)) -> Result<String, J
                     _ => {
                         return Err(JSONPathError::syntax(
                             String::from("invalid escape"),
-                            (start_index, index + 1),
+                            *token_span,
                         ));
                     }
                 }
@@ -1166,7 +1164,7 @@ fn unescape_string(value: &str, token_span: &(usize, usize)) -> Result<String, J
                 if c as u32 <= 0x1F {
                     return Err(JSONPathError::syntax(
                         String::from("invalid character"),
-                        (start_index, index + 1),
+                        *token_span,
                     ));
                 }
                 rv.push(c);
-- 
2.43.0


From bf3425e7e9576e0c58129e5c35bd4541692ebb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 14/36] fix: pest parsers: escape names and strings when
 displaying queries and paths

---
 crates/jsonpath_rfc9535_iter/src/filter.rs    |  8 ++++--
 crates/jsonpath_rfc9535_iter/src/node.rs      | 22 +++++++++++++++-
 crates/jsonpath_rfc9535_iter/src/selector.rs  |  4 +--
 .../jsonpath_rfc9535_locations/src/filter.rs  |  9 +++++--
 crates/jsonpath_rfc9535_locations/src/node.rs | 22 +++++++++++++++-
 .../src/selector.rs                           |  4 +--
 crates/jsonpath_rfc9535_pest/src/ast.rs       | 26 +++++++++++++++++--
 .../src/ast.rs                                | 26 +++++++++++++++++--
 crates/jsonpath_rfc9535_serde/src/ast.rs      | 26 ++++++++++++++++---
 .../src/filter.rs                             |  9 +++++--
 .../src/node.rs                               | 22 +++++++++++++++-
 .../src/selector.rs                           |  4 +--
 12 files changed, 160 insertions(+), 22 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index c46c11c..196dc7b 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -3,7 +3,11 @@ use std::fmt;
 use serde_json::Value;
 
 use crate::{
-    env::Environment, function::ExpressionType, iter::QueryIter, node::NodeList, query::Query,
+    env::Environment,
+    function::ExpressionType,
+    iter::QueryIter,
+    node::{quote, NodeList},
+    query::Query,
 };
 
 #[derive(Debug, Clone)]
@@ -141,7 +145,7 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::String { value, .. } => f.write_str(&quote(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
             FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
diff --git a/crates/jsonpath_rfc9535_iter/src/node.rs b/crates/jsonpath_rfc9535_iter/src/node.rs
index 9c523f2..b0daf85 100644
--- a/crates/jsonpath_rfc9535_iter/src/node.rs
+++ b/crates/jsonpath_rfc9535_iter/src/node.rs
@@ -12,7 +12,7 @@ impl<'a> Node<'a> {
     pub fn new_child_member(&self, value: &'a Value, loc: &str) -> Rc<Self> {
         Rc::new(Node {
             value,
-            location: format!("{}['{}']", self.location, loc),
+            location: format!("{}[{}]", self.location, quote(loc)),
         })
     }
 
@@ -24,5 +24,25 @@ impl<'a> Node<'a> {
     }
 }
 
+/// Quote and escape a string, as for a name in a normalized path.
+pub(crate) fn quote(value: &str) -> String {
+    let mut rv = String::from("'");
+    for ch in value.chars() {
+        match ch {
+            '\'' => rv.push_str("\\'"),
+            '\\' => rv.push_str("\\\\"),
+            '\x08' => rv.push_str("\\b"),
+            '\x0C' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            '\0'..='\x1F' => rv.push_str(&format!("\\u{:04x}", ch as u32)),
+            _ => rv.push(ch),
+        }
+    }
+    rv.push('\'');
+    rv
+}
+
 pub type NodeList<'v> = Vec<Rc<Node<'v>>>;
 pub type NodeIter<'v> = Box<dyn Iterator<Item = Rc<Node<'v>>> + 'v>;
diff --git a/crates/jsonpath_rfc9535_iter/src/selector.rs b/crates/jsonpath_rfc9535_iter/src/selector.rs
index 594295c..b6fa168 100644
--- a/crates/jsonpath_rfc9535_iter/src/selector.rs
+++ b/crates/jsonpath_rfc9535_iter/src/selector.rs
@@ -5,7 +5,7 @@ use std::{
 
 use serde_json::Value;
 
-use crate::filter::FilterExpression;
+use crate::{filter::FilterExpression, node::quote};
 
 #[derive(Debug, Clone)]
 pub enum Selector {
@@ -29,7 +29,7 @@ pub enum Selector {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => f.write_str(&quote(name)),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 28b75f3..527fc1d 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -2,7 +2,12 @@ use std::fmt;
 
 use serde_json::Value;
 
-use crate::{env::Environment, function::ExpressionType, node::NodeList, Query};
+use crate::{
+    env::Environment,
+    function::ExpressionType,
+    node::{quote, NodeList},
+    Query,
+};
 
 #[derive(Debug)]
 pub enum FilterExpression {
@@ -139,7 +144,7 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::String { value, .. } => f.write_str(&quote(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
             FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
diff --git a/crates/jsonpath_rfc9535_locations/src/node.rs b/crates/jsonpath_rfc9535_locations/src/node.rs
index 4830840..a251759 100644
--- a/crates/jsonpath_rfc9535_locations/src/node.rs
+++ b/crates/jsonpath_rfc9535_locations/src/node.rs
@@ -40,7 +40,7 @@ impl<'v> Node<'v> {
             .chain(
                 VecDeque::from_iter(self.location.iter().map(|e| match e {
                     PathElement::Index(i) => format!("[{}]", i),
-                    PathElement::Name(s) => format!("['{}']", s),
+                    PathElement::Name(s) => format!("[{}]", quote(s)),
                 }))
                 .into_iter()
                 .rev(),
@@ -50,6 +50,26 @@ impl<'v> Node<'v> {
     }
 }
 
+/// Quote and escape a string, as for a name in a normalized path.
+pub(crate) fn quote(value: &str) -> String {
+    let mut rv = String::from("'");
+    for ch in value.chars() {
+        match ch {
+            '\'' => rv.push_str("\\'"),
+            '\\' => rv.push_str("\\\\"),
+            '\x08' => rv.push_str("\\b"),
+            '\x0C' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            '\0'..='\x1F' => rv.push_str(&format!("\\u{:04x}", ch as u32)),
+            _ => rv.push(ch),
+        }
+    }
+    rv.push('\'');
+    rv
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/jsonpath_rfc9535_locations/src/selector.rs b/crates/jsonpath_rfc9535_locations/src/selector.rs
index 9e3c6bf..131e644 100644
--- a/crates/jsonpath_rfc9535_locations/src/selector.rs
+++ b/crates/jsonpath_rfc9535_locations/src/selector.rs
@@ -8,7 +8,7 @@ use serde_json::Value;
 use crate::{
     env::Environment,
     filter::{is_truthy_ref, FilterExpression},
-    node::{Location, Node, NodeList},
+    node::{quote, Location, Node, NodeList},
 };
 
 #[derive(Debug)]
@@ -91,7 +91,7 @@ impl Selector {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => f.write_str(&quote(name)),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
diff --git a/crates/jsonpath_rfc9535_pest/src/ast.rs b/crates/jsonpath_rfc9535_pest/src/ast.rs
index dc3779a..c22bc68 100644
--- a/crates/jsonpath_rfc9535_pest/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest/src/ast.rs
@@ -119,7 +119,7 @@ pub enum Selector {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => write!(f, "'{}'", escape(name, Some('\''))),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
@@ -144,6 +144,28 @@ impl fmt::Display for Selector {
     }
 }
 
+/// Escape a string, and each _quote_ in it.
+fn escape(value: &str, quote: Option<char>) -> String {
+    let mut rv = String::new();
+    for ch in value.chars() {
+        match ch {
+            _ if quote == Some(ch) => {
+                rv.push('\\');
+                rv.push(ch);
+            }
+            '\\' => rv.push_str("\\\\"),
+            '\x08' => rv.push_str("\\b"),
+            '\x0C' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            '\0'..='\x1F' => rv.push_str(&format!("\\u{:04x}", ch as u32)),
+            _ => rv.push(ch),
+        }
+    }
+    rv
+}
+
 #[derive(Debug)]
 pub enum LogicalOperator {
     And,
@@ -241,7 +263,7 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::String { value, .. } => write!(f, "'{}'", escape(value, None)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
             FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
index 5242985..a75abbb 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
@@ -178,7 +178,7 @@ impl fmt::Display for Segment {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => write!(f, "'{}'", escape(name, Some('\''))),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
@@ -209,7 +209,7 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True_ { .. } => f.write_str("true"),
             FilterExpression::False_ { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::StringLiteral { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::StringLiteral { value, .. } => write!(f, "'{}'", escape(value, None)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
             FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
@@ -246,6 +246,28 @@ impl fmt::Display for FilterExpression {
     }
 }
 
+/// Escape a string, and each _quote_ in it.
+fn escape(value: &str, quote: Option<char>) -> String {
+    let mut rv = String::new();
+    for ch in value.chars() {
+        match ch {
+            _ if quote == Some(ch) => {
+                rv.push('\\');
+                rv.push(ch);
+            }
+            '\\' => rv.push_str("\\\\"),
+            '\x08' => rv.push_str("\\b"),
+            '\x0C' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            '\0'..='\x1F' => rv.push_str(&format!("\\u{:04x}", ch as u32)),
+            _ => rv.push(ch),
+        }
+    }
+    rv
+}
+
 impl fmt::Display for LogicalOperator {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index f2df9f5..7b2f80e 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -34,7 +34,7 @@ impl<'a> Node<'a> {
     fn new_child_member(&self, value: &'a Value, loc: &str) -> Self {
         Node {
             value,
-            location: format!("{}['{}']", self.location, loc),
+            location: format!("{}[{}]", self.location, quote(loc)),
         }
     }
 
@@ -412,7 +412,7 @@ impl Selector {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => f.write_str(&quote(name)),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
@@ -437,6 +437,26 @@ impl fmt::Display for Selector {
     }
 }
 
+/// Quote and escape a string, as for a name in a normalized path.
+pub(crate) fn quote(value: &str) -> String {
+    let mut rv = String::from("'");
+    for ch in value.chars() {
+        match ch {
+            '\'' => rv.push_str("\\'"),
+            '\\' => rv.push_str("\\\\"),
+            '\x08' => rv.push_str("\\b"),
+            '\x0C' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            '\0'..='\x1F' => rv.push_str(&format!("\\u{:04x}", ch as u32)),
+            _ => rv.push(ch),
+        }
+    }
+    rv.push('\'');
+    rv
+}
+
 #[derive(Debug)]
 pub enum LogicalOperator {
     And,
@@ -612,7 +632,7 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::String { value, .. } => f.write_str(&quote(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
             FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 28b75f3..527fc1d 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -2,7 +2,12 @@ use std::fmt;
 
 use serde_json::Value;
 
-use crate::{env::Environment, function::ExpressionType, node::NodeList, Query};
+use crate::{
+    env::Environment,
+    function::ExpressionType,
+    node::{quote, NodeList},
+    Query,
+};
 
 #[derive(Debug)]
 pub enum FilterExpression {
@@ -139,7 +144,7 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::String { value, .. } => f.write_str(&quote(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
             FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/node.rs b/crates/jsonpath_rfc9535_singular_selector/src/node.rs
index 4830840..a251759 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/node.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/node.rs
@@ -40,7 +40,7 @@ impl<'v> Node<'v> {
             .chain(
                 VecDeque::from_iter(self.location.iter().map(|e| match e {
                     PathElement::Index(i) => format!("[{}]", i),
-                    PathElement::Name(s) => format!("['{}']", s),
+                    PathElement::Name(s) => format!("[{}]", quote(s)),
                 }))
                 .into_iter()
                 .rev(),
@@ -50,6 +50,26 @@ impl<'v> Node<'v> {
     }
 }
 
+/// Quote and escape a string, as for a name in a normalized path.
+pub(crate) fn quote(value: &str) -> String {
+    let mut rv = String::from("'");
+    for ch in value.chars() {
+        match ch {
+            '\'' => rv.push_str("\\'"),
+            '\\' => rv.push_str("\\\\"),
+            '\x08' => rv.push_str("\\b"),
+            '\x0C' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            '\0'..='\x1F' => rv.push_str(&format!("\\u{:04x}", ch as u32)),
+            _ => rv.push(ch),
+        }
+    }
+    rv.push('\'');
+    rv
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/selector.rs b/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
index 4567474..cc861ac 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
@@ -8,7 +8,7 @@ use serde_json::Value;
 use crate::{
     env::Environment,
     filter::{is_truthy_ref, FilterExpression},
-    node::{Location, Node, NodeList},
+    node::{quote, Location, Node, NodeList},
     Query,
 };
 
@@ -127,7 +127,7 @@ impl Selector {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => f.write_str(&quote(name)),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
-- 
2.43.0


From 3b57f415db7c3cbfc0ec999243e074060052e7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 15/36] fix: hand parser: escape names and strings when
 displaying queries

---
 crates/jsonpath_rfc9535/src/query.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/query.rs b/crates/jsonpath_rfc9535/src/query.rs
index 1d7dd05..eaef096 100644
--- a/crates/jsonpath_rfc9535/src/query.rs
+++ b/crates/jsonpath_rfc9535/src/query.rs
@@ -132,7 +132,7 @@ pub enum Selector {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => write!(f, "'{}'", escape(name, Some('\''))),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
@@ -157,6 +157,28 @@ impl fmt::Display for Selector {
     }
 }
 
+/// Escape a string, and each _quote_ in it.
+fn escape(value: &str, quote: Option<char>) -> String {
+    let mut rv = String::new();
+    for ch in value.chars() {
+        match ch {
+            _ if quote == Some(ch) => {
+                rv.push('\\');
+                rv.push(ch);
+            }
+            '\\' => rv.push_str("\\\\"),
+            '\x08' => rv.push_str("\\b"),
+            '\x0C' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            '\0'..='\x1F' => rv.push_str(&format!("\\u{:04x}", ch as u32)),
+            _ => rv.push(ch),
+        }
+    }
+    rv
+}
+
 #[derive(Debug)]
 pub enum LogicalOperator {
     And,
@@ -286,7 +308,7 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "\"{value}\""),
+            FilterExpression::String { value, .. } => write!(f, "\"{}\"", escape(value, None)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
             FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
-- 
2.43.0


From c4f9cd5b762c6e8163859fff44e099c1813eaea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 16/36] fix: parenthesize negated comparisons when displaying
 queries

---
 crates/jsonpath_rfc9535/src/query.rs                    | 7 ++++++-
 crates/jsonpath_rfc9535_iter/src/filter.rs              | 7 ++++++-
 crates/jsonpath_rfc9535_locations/src/filter.rs         | 7 ++++++-
 crates/jsonpath_rfc9535_pest/src/ast.rs                 | 7 ++++++-
 crates/jsonpath_rfc9535_pest_recursive/src/ast.rs       | 7 ++++++-
 crates/jsonpath_rfc9535_serde/src/ast.rs                | 7 ++++++-
 crates/jsonpath_rfc9535_singular_selector/src/filter.rs | 7 ++++++-
 7 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/query.rs b/crates/jsonpath_rfc9535/src/query.rs
index eaef096..7ef2a50 100644
--- a/crates/jsonpath_rfc9535/src/query.rs
+++ b/crates/jsonpath_rfc9535/src/query.rs
@@ -311,7 +311,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::String { value, .. } => write!(f, "\"{}\"", escape(value, None)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index 196dc7b..10d7421 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -148,7 +148,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::String { value, .. } => f.write_str(&quote(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 527fc1d..95c7630 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -147,7 +147,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::String { value, .. } => f.write_str(&quote(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_pest/src/ast.rs b/crates/jsonpath_rfc9535_pest/src/ast.rs
index c22bc68..b4b1b89 100644
--- a/crates/jsonpath_rfc9535_pest/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest/src/ast.rs
@@ -266,7 +266,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::String { value, .. } => write!(f, "'{}'", escape(value, None)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
index a75abbb..bd107ea 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
@@ -212,7 +212,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::StringLiteral { value, .. } => write!(f, "'{}'", escape(value, None)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 7b2f80e..5094c2b 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -635,7 +635,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::String { value, .. } => f.write_str(&quote(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 527fc1d..95c7630 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -147,7 +147,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::String { value, .. } => f.write_str(&quote(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
-- 
2.43.0


From e4426bed1a564174b3e89738d4232aeee2412d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 17/36] fix: pest parsers: only surrogate pairs are combined
 when decoding strings

---
 crates/jsonpath_rfc9535_pest/src/parser.rs           | 4 ++--
 crates/jsonpath_rfc9535_pest_recursive/src/parser.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/jsonpath_rfc9535_pest/src/parser.rs b/crates/jsonpath_rfc9535_pest/src/parser.rs
index 1497595..1c61ea7 100644
--- a/crates/jsonpath_rfc9535_pest/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest/src/parser.rs
@@ -693,8 +693,8 @@ fn unescape_string(value: &str) -> String {
 
                         let mut codepoint = u32::from_str_radix(&digits, 16).unwrap();
 
-                        if index + 5 < length && chars[index + 4] == '\\' && chars[index + 5] == 'u'
-                        {
+                        // The grammar only matches high surrogates that are half of a pair.
+                        if (0xD800..=0xDBFF).contains(&codepoint) {
                             let digits = &chars
                                 .get(index + 6..index + 10)
                                 .unwrap()
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
index 4cd4dc1..1caa77e 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
@@ -709,8 +709,8 @@ fn unescape_string(value: &str) -> String {
 
                         let mut codepoint = u32::from_str_radix(&digits, 16).unwrap();
 
-                        if index + 5 < length && chars[index + 4] == '\\' && chars[index + 5] == 'u'
-                        {
+                        // The grammar only matches high surrogates that are half of a pair.
+                        if (0xD800..=0xDBFF).contains(&codepoint) {
                             let digits = &chars
                                 .get(index + 6..index + 10)
                                 .unwrap()
-- 
2.43.0


From 8c580a0513a48dd1df9244d68bae3fd8e29eee1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 18/36] fix: pest parsers: accept escaped control characters in
 strings

---
 crates/jsonpath_rfc9535_iter/src/unescape.rs         | 12 ++++--------
 crates/jsonpath_rfc9535_locations/src/unescape.rs    | 12 ++++--------
 crates/jsonpath_rfc9535_serde/src/unescape.rs        | 12 ++++--------
 .../src/unescape.rs                                  | 12 ++++--------
 4 files changed, 16 insertions(+), 32 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/unescape.rs b/crates/jsonpath_rfc9535_iter/src/unescape.rs
index d38c16d..654162b 100644
--- a/crates/jsonpath_rfc9535_iter/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_iter/src/unescape.rs
@@ -84,14 +84,10 @@ fn parse_hex_digits(digits: &[u8]) -> Result<u32, JSONPathError> {
 }
 
 fn encode_code_point(code_point: u32) -> Result<Vec<u8>, JSONPathError> {
-    if code_point < 0x1F {
-        Err(JSONPathError::syntax("invalid character".to_owned()))
-    } else {
-        // TODO: better
-        let mut buf = [0; 4];
-        let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
-        Ok(rv.as_bytes().to_owned())
-    }
+    // TODO: better
+    let mut buf = [0; 4];
+    let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
+    Ok(rv.as_bytes().to_owned())
 }
 
 fn is_high_surrogate(code_point: u32) -> bool {
diff --git a/crates/jsonpath_rfc9535_locations/src/unescape.rs b/crates/jsonpath_rfc9535_locations/src/unescape.rs
index d38c16d..654162b 100644
--- a/crates/jsonpath_rfc9535_locations/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_locations/src/unescape.rs
@@ -84,14 +84,10 @@ fn parse_hex_digits(digits: &[u8]) -> Result<u32, JSONPathError> {
 }
 
 fn encode_code_point(code_point: u32) -> Result<Vec<u8>, JSONPathError> {
-    if code_point < 0x1F {
-        Err(JSONPathError::syntax("invalid character".to_owned()))
-    } else {
-        // TODO: better
-        let mut buf = [0; 4];
-        let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
-        Ok(rv.as_bytes().to_owned())
-    }
+    // TODO: better
+    let mut buf = [0; 4];
+    let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
+    Ok(rv.as_bytes().to_owned())
 }
 
 fn is_high_surrogate(code_point: u32) -> bool {
diff --git a/crates/jsonpath_rfc9535_serde/src/unescape.rs b/crates/jsonpath_rfc9535_serde/src/unescape.rs
index d38c16d..654162b 100644
--- a/crates/jsonpath_rfc9535_serde/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_serde/src/unescape.rs
@@ -84,14 +84,10 @@ fn parse_hex_digits(digits: &[u8]) -> Result<u32, JSONPathError> {
 }
 
 fn encode_code_point(code_point: u32) -> Result<Vec<u8>, JSONPathError> {
-    if code_point < 0x1F {
-        Err(JSONPathError::syntax("invalid character".to_owned()))
-    } else {
-        // TODO: better
-        let mut buf = [0; 4];
-        let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
-        Ok(rv.as_bytes().to_owned())
-    }
+    // TODO: better
+    let mut buf = [0; 4];
+    let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
+    Ok(rv.as_bytes().to_owned())
 }
 
 fn is_high_surrogate(code_point: u32) -> bool {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs b/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
index d38c16d..654162b 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
@@ -84,14 +84,10 @@ fn parse_hex_digits(digits: &[u8]) -> Result<u32, JSONPathError> {
 }
 
 fn encode_code_point(code_point: u32) -> Result<Vec<u8>, JSONPathError> {
-    if code_point < 0x1F {
-        Err(JSONPathError::syntax("invalid character".to_owned()))
-    } else {
-        // TODO: better
-        let mut buf = [0; 4];
-        let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
-        Ok(rv.as_bytes().to_owned())
-    }
+    // TODO: better
+    let mut buf = [0; 4];
+    let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
+    Ok(rv.as_bytes().to_owned())
 }
 
 fn is_high_surrogate(code_point: u32) -> bool {
-- 
2.43.0


From 1307e6e2fbabd49af1899c12132508bccd5bd87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 19/36] fix: pest parsers: parse the fraction and exponent of a
 number starting with -0

---
 crates/jsonpath_rfc9535_iter/src/jsonpath.pest              | 3 ++-
 crates/jsonpath_rfc9535_locations/src/jsonpath.pest         | 3 ++-
 crates/jsonpath_rfc9535_pest/src/jsonpath.pest              | 3 ++-
 crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest    | 3 ++-
 crates/jsonpath_rfc9535_serde/src/jsonpath.pest             | 3 ++-
 crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest | 3 ++-
 6 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/jsonpath.pest b/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
index e1f7edb..3d27d5f 100644
--- a/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
@@ -134,7 +134,8 @@ name_segment = {
 }
 
 index_segment       =  { "[" ~ index_selector ~ "]" }
-number              =  { (int | "-0") ~ frac? ~ exp? }
+number              =  { (int | negative_zero) ~ frac? ~ exp? }
+negative_zero       =  { "-0" }
 frac                =  { "." ~ ASCII_DIGIT+ }
 exp                 =  { ^"e" ~ ("-" | "+")? ~ ASCII_DIGIT+ }
 true_literal        =  { "true" }
diff --git a/crates/jsonpath_rfc9535_locations/src/jsonpath.pest b/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
index e1f7edb..3d27d5f 100644
--- a/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
@@ -134,7 +134,8 @@ name_segment = {
 }
 
 index_segment       =  { "[" ~ index_selector ~ "]" }
-number              =  { (int | "-0") ~ frac? ~ exp? }
+number              =  { (int | negative_zero) ~ frac? ~ exp? }
+negative_zero       =  { "-0" }
 frac                =  { "." ~ ASCII_DIGIT+ }
 exp                 =  { ^"e" ~ ("-" | "+")? ~ ASCII_DIGIT+ }
 true_literal        =  { "true" }
diff --git a/crates/jsonpath_rfc9535_pest/src/jsonpath.pest b/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
index e1f7edb..3d27d5f 100644
--- a/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
@@ -134,7 +134,8 @@ name_segment = {
 }
 
 index_segment       =  { "[" ~ index_selector ~ "]" }
-number              =  { (int | "-0") ~ frac? ~ exp? }
+number              =  { (int | negative_zero) ~ frac? ~ exp? }
+negative_zero       =  { "-0" }
 frac                =  { "." ~ ASCII_DIGIT+ }
 exp                 =  { ^"e" ~ ("-" | "+")? ~ ASCII_DIGIT+ }
 true_literal        =  { "true" }
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest b/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
index e1f7edb..3d27d5f 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
@@ -134,7 +134,8 @@ name_segment = {
 }
 
 index_segment       =  { "[" ~ index_selector ~ "]" }
-number              =  { (int | "-0") ~ frac? ~ exp? }
+number              =  { (int | negative_zero) ~ frac? ~ exp? }
+negative_zero       =  { "-0" }
 frac                =  { "." ~ ASCII_DIGIT+ }
 exp                 =  { ^"e" ~ ("-" | "+")? ~ ASCII_DIGIT+ }
 true_literal        =  { "true" }
diff --git a/crates/jsonpath_rfc9535_serde/src/jsonpath.pest b/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
index e1f7edb..3d27d5f 100644
--- a/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
@@ -134,7 +134,8 @@ name_segment = {
 }
 
 index_segment       =  { "[" ~ index_selector ~ "]" }
-number              =  { (int | "-0") ~ frac? ~ exp? }
+number              =  { (int | negative_zero) ~ frac? ~ exp? }
+negative_zero       =  { "-0" }
 frac                =  { "." ~ ASCII_DIGIT+ }
 exp                 =  { ^"e" ~ ("-" | "+")? ~ ASCII_DIGIT+ }
 true_literal        =  { "true" }
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest b/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
index 26df850..464c8ae 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
@@ -146,7 +146,8 @@ implicit_root_name_segment = {
 }
 
 index_segment       =  { "[" ~ index_selector ~ "]" }
-number              =  { (int | "-0") ~ frac? ~ exp? }
+number              =  { (int | negative_zero) ~ frac? ~ exp? }
+negative_zero       =  { "-0" }
 frac                =  { "." ~ ASCII_DIGIT+ }
 exp                 =  { ^"e" ~ ("-" | "+")? ~ ASCII_DIGIT+ }
 true_literal        =  { "true" }
-- 
2.43.0


From 591f743c4cdf6b12860a9c699c257ca6d947866a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 20/36] fix: pest parser: a number with a negative exponent is
 a float

---
 crates/jsonpath_rfc9535_pest/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/jsonpath_rfc9535_pest/src/parser.rs b/crates/jsonpath_rfc9535_pest/src/parser.rs
index 1c61ea7..3f5e5a4 100644
--- a/crates/jsonpath_rfc9535_pest/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest/src/parser.rs
@@ -351,7 +351,7 @@ impl JSONPathParser {
                 }
                 Rule::exp => {
                     let exp_str = pair.as_str();
-                    if exp_str.starts_with('-') {
+                    if exp_str.contains('-') {
                         is_float = true;
                     }
                     n.push_str(exp_str);
@@ -362,7 +362,7 @@ impl JSONPathParser {
 
         if let Some(pair) = it.next() {
             let exp_str = pair.as_str();
-            if exp_str.starts_with('-') {
+            if exp_str.contains('-') {
                 is_float = true;
             }
             n.push_str(exp_str);
-- 
2.43.0


From 021b49421591023f65010d27537a3b4d37af68ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:25 +0000
Subject: [PATCH 21/36] fix: pest parsers: integer literals beyond 64 bits
 become floats

---
 crates/jsonpath_rfc9535_iter/src/parser.rs       | 16 ++++++++++------
 crates/jsonpath_rfc9535_locations/src/parser.rs  | 16 ++++++++++------
 crates/jsonpath_rfc9535_pest/src/parser.rs       | 16 ++++++++++------
 .../src/parser.rs                                | 16 ++++++++++------
 crates/jsonpath_rfc9535_serde/src/parser.rs      | 16 ++++++++++------
 .../src/parser.rs                                | 16 ++++++++++------
 6 files changed, 60 insertions(+), 36 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/parser.rs b/crates/jsonpath_rfc9535_iter/src/parser.rs
index 9b77877..f0f229f 100644
--- a/crates/jsonpath_rfc9535_iter/src/parser.rs
+++ b/crates/jsonpath_rfc9535_iter/src/parser.rs
@@ -323,12 +323,16 @@ impl JSONPathParser {
                     .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
             })
         } else {
-            Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
-            })
+            let f = n
+                .parse::<f64>()
+                .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?;
+
+            if f.abs() < i64::MAX as f64 {
+                Ok(FilterExpression::Int { value: f as i64 })
+            } else {
+                // too big for an integer
+                Ok(FilterExpression::Float { value: f })
+            }
         }
     }
 
diff --git a/crates/jsonpath_rfc9535_locations/src/parser.rs b/crates/jsonpath_rfc9535_locations/src/parser.rs
index 9b77877..f0f229f 100644
--- a/crates/jsonpath_rfc9535_locations/src/parser.rs
+++ b/crates/jsonpath_rfc9535_locations/src/parser.rs
@@ -323,12 +323,16 @@ impl JSONPathParser {
                     .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
             })
         } else {
-            Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
-            })
+            let f = n
+                .parse::<f64>()
+                .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?;
+
+            if f.abs() < i64::MAX as f64 {
+                Ok(FilterExpression::Int { value: f as i64 })
+            } else {
+                // too big for an integer
+                Ok(FilterExpression::Float { value: f })
+            }
         }
     }
 
diff --git a/crates/jsonpath_rfc9535_pest/src/parser.rs b/crates/jsonpath_rfc9535_pest/src/parser.rs
index 3f5e5a4..77aa5d4 100644
--- a/crates/jsonpath_rfc9535_pest/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest/src/parser.rs
@@ -375,12 +375,16 @@ impl JSONPathParser {
                     .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
             })
         } else {
-            Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
-            })
+            let f = n
+                .parse::<f64>()
+                .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?;
+
+            if f.abs() < i64::MAX as f64 {
+                Ok(FilterExpression::Int { value: f as i64 })
+            } else {
+                // too big for an integer
+                Ok(FilterExpression::Float { value: f })
+            }
         }
     }
 
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
index 1caa77e..692171b 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
@@ -394,12 +394,16 @@ impl JSONPathParser {
                     .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
             })
         } else {
-            Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
-            })
+            let f = n
+                .parse::<f64>()
+                .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?;
+
+            if f.abs() < i64::MAX as f64 {
+                Ok(FilterExpression::Int { value: f as i64 })
+            } else {
+                // too big for an integer
+                Ok(FilterExpression::Float { value: f })
+            }
         }
     }
 
diff --git a/crates/jsonpath_rfc9535_serde/src/parser.rs b/crates/jsonpath_rfc9535_serde/src/parser.rs
index 58a0513..7504581 100644
--- a/crates/jsonpath_rfc9535_serde/src/parser.rs
+++ b/crates/jsonpath_rfc9535_serde/src/parser.rs
@@ -320,12 +320,16 @@ impl JSONPathParser {
                     .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
             })
         } else {
-            Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
-            })
+            let f = n
+                .parse::<f64>()
+                .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?;
+
+            if f.abs() < i64::MAX as f64 {
+                Ok(FilterExpression::Int { value: f as i64 })
+            } else {
+                // too big for an integer
+                Ok(FilterExpression::Float { value: f })
+            }
         }
     }
 
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
index b12afa0..e4e5308 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
@@ -342,12 +342,16 @@ impl JSONPathParser {
                     .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
             })
         } else {
-            Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
-            })
+            let f = n
+                .parse::<f64>()
+                .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?;
+
+            if f.abs() < i64::MAX as f64 {
+                Ok(FilterExpression::Int { value: f as i64 })
+            } else {
+                // too big for an integer
+                Ok(FilterExpression::Float { value: f })
+            }
         }
     }
 
-- 
2.43.0


From aace96a7707249de897d66e5b234459b59e01696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 22/36] fix: pest parsers: the operand of a negation must be a
 test expression

---
 crates/jsonpath_rfc9535_iter/src/parser.rs             | 10 +++++++---
 crates/jsonpath_rfc9535_locations/src/parser.rs        | 10 +++++++---
 crates/jsonpath_rfc9535_pest/src/parser.rs             | 10 +++++++---
 crates/jsonpath_rfc9535_pest_recursive/src/parser.rs   | 10 +++++++---
 crates/jsonpath_rfc9535_serde/src/parser.rs            | 10 +++++++---
 .../jsonpath_rfc9535_singular_selector/src/parser.rs   | 10 +++++++---
 6 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/parser.rs b/crates/jsonpath_rfc9535_iter/src/parser.rs
index f0f229f..8cfd7ce 100644
--- a/crates/jsonpath_rfc9535_iter/src/parser.rs
+++ b/crates/jsonpath_rfc9535_iter/src/parser.rs
@@ -340,9 +340,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
diff --git a/crates/jsonpath_rfc9535_locations/src/parser.rs b/crates/jsonpath_rfc9535_locations/src/parser.rs
index f0f229f..8cfd7ce 100644
--- a/crates/jsonpath_rfc9535_locations/src/parser.rs
+++ b/crates/jsonpath_rfc9535_locations/src/parser.rs
@@ -340,9 +340,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
diff --git a/crates/jsonpath_rfc9535_pest/src/parser.rs b/crates/jsonpath_rfc9535_pest/src/parser.rs
index 77aa5d4..640c3d5 100644
--- a/crates/jsonpath_rfc9535_pest/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest/src/parser.rs
@@ -392,9 +392,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
index 692171b..85fcee9 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
@@ -411,9 +411,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
diff --git a/crates/jsonpath_rfc9535_serde/src/parser.rs b/crates/jsonpath_rfc9535_serde/src/parser.rs
index 7504581..fc0f827 100644
--- a/crates/jsonpath_rfc9535_serde/src/parser.rs
+++ b/crates/jsonpath_rfc9535_serde/src/parser.rs
@@ -337,9 +337,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
index e4e5308..0cd1534 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
@@ -359,9 +359,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
-- 
2.43.0


From 82ebf32d5ad20b190319eb0e049b16d964dc6b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 23/36] fix: pest parsers: a function name can start with true,
 false or null

---
 crates/jsonpath_rfc9535_iter/src/jsonpath.pest              | 6 +++---
 crates/jsonpath_rfc9535_locations/src/jsonpath.pest         | 6 +++---
 crates/jsonpath_rfc9535_pest/src/jsonpath.pest              | 6 +++---
 crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest    | 6 +++---
 crates/jsonpath_rfc9535_serde/src/jsonpath.pest             | 6 +++---
 crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest | 6 +++---
 6 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/jsonpath.pest b/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
index 3d27d5f..9bb7e50 100644
--- a/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
@@ -138,9 +138,9 @@ number              =  { (int | negative_zero) ~ frac? ~ exp? }
 negative_zero       =  { "-0" }
 frac                =  { "." ~ ASCII_DIGIT+ }
 exp                 =  { ^"e" ~ ("-" | "+")? ~ ASCII_DIGIT+ }
-true_literal        =  { "true" }
-false_literal       =  { "false" }
-null                =  { "null" }
+true_literal        =  { "true" ~ !function_name_char }
+false_literal       =  { "false" ~ !function_name_char }
+null                =  { "null" ~ !function_name_char }
 function_name       =  { function_name_first ~ function_name_char* }
 function_name_first = _{ ASCII_ALPHA_LOWER }
 function_name_char  = _{ function_name_first | "_" | ASCII_DIGIT }
diff --git a/crates/jsonpath_rfc9535_locations/src/jsonpath.pest b/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
index 3d27d5f..9bb7e50 100644
--- a/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
@@ -138,9 +138,9 @@ number              =  { (int | negative_zero) ~ frac? ~ exp? }
 negative_zero       =  { "-0" }
 frac                =  { "." ~ ASCII_DIGIT+ }
 exp                 =  { ^"e" ~ ("-" | "+")? ~ ASCII_DIGIT+ }
-true_literal        =  { "true" }
-false_literal       =  { "false" }
-null                =  { "null" }
+true_literal        =  { "true" ~ !function_name_char }
+false_literal       =  { "false" ~ !function_name_char }
+null                =  { "null" ~ !function_name_char }
 function_name       =  { function_name_first ~ function_name_char* }
 function_name_first = _{ ASCII_ALPHA_LOWER }
 function_name_char  = _{ function_name_first | "_" | ASCII_DIGIT }
diff --git a/crates/jsonpath_rfc9535_pest/src/jsonpath.pest b/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
index 3d27d5f..9bb7e50 100644
--- a/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
@@ -138,9 +138,9 @@ number              =  { (int | negative_zero) ~ frac? ~ exp? }
 negative_zero       =  { "-0" }
 frac                =  { "." ~ ASCII_DIGIT+ }
 exp                 =  { ^"e" ~ ("-" | "+")? ~ ASCII_DIGIT+ }
-true_literal        =  { "true" }
-false_literal       =  { "false" }
-null                =  { "null" }
+true_literal        =  { "true" ~ !function_name_char }
+false_literal       =  { "false" ~ !function_name_char }
+null                =  { "null" ~ !function_name_char }
 function_name       =  { function_name_first ~ function_name_char* }
 function_name_first = _{ ASCII_ALPHA_LOWER }
 function_name_char  = _{ function_name_first | "_" | ASCII_DIGIT }
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest b/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
index 3d27d5f..9bb7e50 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
@@ -138,9 +138,9 @@ number              =  { (int | negative_zero) ~ frac? ~ exp? }
 negative_zero       =  { "-0" }
 frac                =  { "." ~ ASCII_DIGIT+ }
 exp                 =  { ^"e" ~ ("-" | "+")? ~ ASCII_DIGIT+ }
-true_literal        =  { "true" }
-false_literal       =  { "false" }
-null                =  { "null" }
+true_literal        =  { "true" ~ !function_name_char }
+false_literal       =  { "false" ~ !function_name_char }
+null                =  { "null" ~ !function_name_char }
 function_name       =  { function_name_first ~ function_name_char* }
 function_name_first = _{ ASCII_ALPHA_LOWER }
 function_name_char  = _{ function_name_first | "_" | ASCII_DIGIT }
diff --git a/crates/jsonpath_rfc9535_serde/src/jsonpath.pest b/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
index 3d27d5f..9bb7e50 100644
--- a/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
@@ -138,9 +138,9 @@ number              =  { (int | negative_zero) ~ frac? ~ exp? }
 negative_zero       =  { "-0" }
 frac                =  { "." ~ ASCII_DIGIT+ }
 exp                 =  { ^"e" ~ ("-" | "+")? ~ ASCII_DIGIT+ }
-true_literal        =  { "true" }
-false_literal       =  { "false" }
-null                =  { "null" }
+true_literal        =  { "true" ~ !function_name_char }
+false_literal       =  { "false" ~ !function_name_char }
+null                =  { "null" ~ !function_name_char }
 function_name       =  { function_name_first ~ function_name_char* }
 function_name_first = _{ ASCII_ALPHA_LOWER }
 function_name_char  = _{ function_name_first | "_" | ASCII_DIGIT }
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest b/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
index 464c8ae..3c78c65 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
@@ -150,9 +150,9 @@ number              =  { (int | negative_zero) ~ frac? ~ exp? }
 negative_zero       =  { "-0" }
 frac                =  { "." ~ ASCII_DIGIT+ }
 exp                 =  { ^"e" ~ ("-" | "+")? ~ ASCII_DIGIT+ }
-true_literal        =  { "true" }
-false_literal       =  { "false" }
-null                =  { "null" }
+true_literal        =  { "true" ~ !function_name_char }
+false_literal       =  { "false" ~ !function_name_char }
+null                =  { "null" ~ !function_name_char }
 function_name       =  { function_name_first ~ function_name_char* }
 function_name_first = _{ ASCII_ALPHA_LOWER }
 function_name_char  = _{ function_name_first | "_" | ASCII_DIGIT }
-- 
2.43.0


From 82df5efc5e19a339c95b24d3cc023f8fa693be8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 24/36] fix: pest parsers: the end of input does not count in
 is_singular and is_empty

---
 crates/jsonpath_rfc9535_iter/src/query.rs              | 6 ++++--
 crates/jsonpath_rfc9535_locations/src/query.rs         | 6 ++++--
 crates/jsonpath_rfc9535_pest/src/ast.rs                | 6 ++++--
 crates/jsonpath_rfc9535_serde/src/ast.rs               | 6 ++++--
 crates/jsonpath_rfc9535_singular_selector/src/query.rs | 6 ++++--
 5 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/query.rs b/crates/jsonpath_rfc9535_iter/src/query.rs
index ef17568..2a1786a 100644
--- a/crates/jsonpath_rfc9535_iter/src/query.rs
+++ b/crates/jsonpath_rfc9535_iter/src/query.rs
@@ -23,7 +23,9 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
@@ -34,7 +36,7 @@ impl Query {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
                     });
             }
-            false
+            matches!(segment, Segment::Eoi)
         })
     }
 }
diff --git a/crates/jsonpath_rfc9535_locations/src/query.rs b/crates/jsonpath_rfc9535_locations/src/query.rs
index 0f2c651..6731b81 100644
--- a/crates/jsonpath_rfc9535_locations/src/query.rs
+++ b/crates/jsonpath_rfc9535_locations/src/query.rs
@@ -45,7 +45,9 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
@@ -56,7 +58,7 @@ impl Query {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
                     });
             }
-            false
+            matches!(segment, Segment::Eoi)
         })
     }
 }
diff --git a/crates/jsonpath_rfc9535_pest/src/ast.rs b/crates/jsonpath_rfc9535_pest/src/ast.rs
index b4b1b89..286a6ae 100644
--- a/crates/jsonpath_rfc9535_pest/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest/src/ast.rs
@@ -30,7 +30,9 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
@@ -41,7 +43,7 @@ impl Query {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
                     });
             }
-            false
+            matches!(segment, Segment::Eoi)
         })
     }
 }
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 5094c2b..b01abb6 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -142,7 +142,9 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
@@ -153,7 +155,7 @@ impl Query {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
                     });
             }
-            false
+            matches!(segment, Segment::Eoi)
         })
     }
 }
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/query.rs b/crates/jsonpath_rfc9535_singular_selector/src/query.rs
index 0f2c651..6731b81 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/query.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/query.rs
@@ -45,7 +45,9 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
@@ -56,7 +58,7 @@ impl Query {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
                     });
             }
-            false
+            matches!(segment, Segment::Eoi)
         })
     }
 }
-- 
2.43.0


From ab5f99564943bce15dfe9254fd71c497d253de54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 25/36] fix: pest parsers: function arguments are checked
 against the declared parameter types

---
 .../jsonpath_rfc9535_iter/src/jsonpath.pest   | 10 +--
 crates/jsonpath_rfc9535_iter/src/parser.rs    | 75 ++++++++++---------
 .../src/jsonpath.pest                         | 10 +--
 .../jsonpath_rfc9535_locations/src/parser.rs  | 75 ++++++++++---------
 .../jsonpath_rfc9535_pest/src/jsonpath.pest   | 10 +--
 crates/jsonpath_rfc9535_pest/src/parser.rs    | 75 ++++++++++---------
 .../src/jsonpath.pest                         | 10 +--
 .../src/parser.rs                             | 73 ++++++++++--------
 .../jsonpath_rfc9535_serde/src/jsonpath.pest  | 10 +--
 crates/jsonpath_rfc9535_serde/src/parser.rs   | 75 ++++++++++---------
 .../src/jsonpath.pest                         | 10 +--
 .../src/parser.rs                             | 75 ++++++++++---------
 12 files changed, 270 insertions(+), 238 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/jsonpath.pest b/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
index 9bb7e50..667c6ff 100644
--- a/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
@@ -87,18 +87,20 @@ logical_and_expr  =  { basic_expr ~ (S ~ "&&" ~ S ~ basic_expr)* }
 
 basic_expr = _{
     paren_expr
+  | function_test_expr
   | comparison_expr
   | test_expr
 }
 
 paren_expr              =  { (logical_not_op ~ S)? ~ "(" ~ S ~ logical_expr ~ S ~ ")" }
 logical_not_op          =  { "!" }
-test_expr               =  { (logical_not_op ~ S)? ~ (filter_query | function_expr) }
+function_test_expr      =  { function_expr ~ (S ~ comparison_op ~ S ~ comparable)? }
+test_expr               =  { filter_query | (logical_not_op ~ S ~ (filter_query | function_expr)) }
 filter_query            = _{ rel_query | root_query }
 root_query              =  { jsonpath_query }
 rel_query               =  { current_node_identifier ~ segments }
 current_node_identifier = _{ "@" }
-comparison_expr         =  { comparable ~ S ~ comparison_op ~ S ~ comparable }
+comparison_expr         =  { (literal | singular_query) ~ S ~ comparison_op ~ S ~ comparable }
 
 literal = _{
     number
@@ -150,10 +152,8 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
+    (literal ~ &(S ~ ("," | ")")))
   | logical_expr
-  | function_expr
-  | literal
 }
 
 segment = _{
diff --git a/crates/jsonpath_rfc9535_iter/src/parser.rs b/crates/jsonpath_rfc9535_iter/src/parser.rs
index 8cfd7ce..3f34a11 100644
--- a/crates/jsonpath_rfc9535_iter/src/parser.rs
+++ b/crates/jsonpath_rfc9535_iter/src/parser.rs
@@ -195,6 +195,13 @@ impl JSONPathParser {
         match expr.as_rule() {
             Rule::paren_expr => self.parse_paren_expression(expr),
             Rule::comparison_expr => self.parse_comparison_expression(expr),
+            Rule::function_test_expr => {
+                if expr.clone().into_inner().count() == 1 {
+                    self.parse_test_expression(expr)
+                } else {
+                    self.parse_comparison_expression(expr)
+                }
+            }
             Rule::test_expr => self.parse_test_expression(expr),
             _ => unreachable!(),
         }
@@ -391,11 +398,12 @@ impl JSONPathParser {
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let name = it.next().unwrap().as_str();
+        let logical: Vec<bool> = it.clone().map(|ex| is_logical_argument(&ex)).collect();
         let args: Result<Vec<_>, _> = it.map(|ex| self.parse_function_argument(ex)).collect();
 
         Ok(FilterExpression::Function {
             name: name.to_string(),
-            args: self.assert_well_typed(name, args?)?,
+            args: self.assert_well_typed(name, args?, &logical)?,
         })
     }
 
@@ -411,32 +419,10 @@ impl JSONPathParser {
             Rule::true_literal => FilterExpression::True,
             Rule::false_literal => FilterExpression::False,
             Rule::null => FilterExpression::Null,
-            Rule::rel_query => {
-                let segments: Result<Vec<_>, _> = expr
-                    .into_inner()
-                    .map(|segment| self.parse_segment(segment))
-                    .collect();
-
-                FilterExpression::RelativeQuery {
-                    query: Box::new(Query {
-                        segments: segments?,
-                    }),
-                }
+            Rule::logical_or_expr => {
+                let assert_compared = is_logical_argument(&expr);
+                self.parse_logical_or_expression(expr, assert_compared)?
             }
-            Rule::root_query => {
-                let segments: Result<Vec<_>, _> = expr
-                    .into_inner()
-                    .map(|segment| self.parse_segment(segment))
-                    .collect();
-
-                FilterExpression::RootQuery {
-                    query: Box::new(Query {
-                        segments: segments?,
-                    }),
-                }
-            }
-            Rule::logical_or_expr => self.parse_logical_or_expression(expr, false)?,
-            Rule::function_expr => self.parse_function_expression(expr)?,
             _ => unreachable!(),
         })
     }
@@ -510,6 +496,7 @@ impl JSONPathParser {
         &self,
         func_name: &str,
         args: Vec<FilterExpression>,
+        logical: &[bool], // is each argument written as a logical expression?
     ) -> Result<Vec<FilterExpression>, JSONPathError> {
         // TODO: accept span/position for better errors
         let signature = self
@@ -537,7 +524,7 @@ impl JSONPathParser {
             let arg = &args[idx];
             match typ {
                 ExpressionType::Value => {
-                    if !self.is_value_type(arg) {
+                    if logical[idx] || !self.is_value_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Value' type",
                             idx + 1,
@@ -546,13 +533,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if arg.is_literal() || self.assert_compared(arg).is_err() {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -561,7 +542,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Nodes => {
-                    if !self.is_nodes_type(arg) {
+                    if logical[idx] || !self.is_nodes_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Nodes' type",
                             idx + 1,
@@ -618,6 +599,30 @@ impl JSONPathParser {
     }
 }
 
+/// Is this function argument more than a literal, a filter query or a function call?
+fn is_logical_argument(expr: &Pair<Rule>) -> bool {
+    if expr.as_rule() != Rule::logical_or_expr {
+        return false;
+    }
+
+    let operands: Vec<_> = expr
+        .clone()
+        .into_inner()
+        .flat_map(|and_expr| and_expr.into_inner())
+        .collect();
+
+    match operands.as_slice() {
+        [operand] => match operand.as_rule() {
+            Rule::function_test_expr => operand.clone().into_inner().count() > 1,
+            Rule::test_expr => {
+                operand.clone().into_inner().next().unwrap().as_rule() == Rule::logical_not_op
+            }
+            _ => true,
+        },
+        _ => true,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/jsonpath_rfc9535_locations/src/jsonpath.pest b/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
index 9bb7e50..667c6ff 100644
--- a/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
@@ -87,18 +87,20 @@ logical_and_expr  =  { basic_expr ~ (S ~ "&&" ~ S ~ basic_expr)* }
 
 basic_expr = _{
     paren_expr
+  | function_test_expr
   | comparison_expr
   | test_expr
 }
 
 paren_expr              =  { (logical_not_op ~ S)? ~ "(" ~ S ~ logical_expr ~ S ~ ")" }
 logical_not_op          =  { "!" }
-test_expr               =  { (logical_not_op ~ S)? ~ (filter_query | function_expr) }
+function_test_expr      =  { function_expr ~ (S ~ comparison_op ~ S ~ comparable)? }
+test_expr               =  { filter_query | (logical_not_op ~ S ~ (filter_query | function_expr)) }
 filter_query            = _{ rel_query | root_query }
 root_query              =  { jsonpath_query }
 rel_query               =  { current_node_identifier ~ segments }
 current_node_identifier = _{ "@" }
-comparison_expr         =  { comparable ~ S ~ comparison_op ~ S ~ comparable }
+comparison_expr         =  { (literal | singular_query) ~ S ~ comparison_op ~ S ~ comparable }
 
 literal = _{
     number
@@ -150,10 +152,8 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
+    (literal ~ &(S ~ ("," | ")")))
   | logical_expr
-  | function_expr
-  | literal
 }
 
 segment = _{
diff --git a/crates/jsonpath_rfc9535_locations/src/parser.rs b/crates/jsonpath_rfc9535_locations/src/parser.rs
index 8cfd7ce..3f34a11 100644
--- a/crates/jsonpath_rfc9535_locations/src/parser.rs
+++ b/crates/jsonpath_rfc9535_locations/src/parser.rs
@@ -195,6 +195,13 @@ impl JSONPathParser {
         match expr.as_rule() {
             Rule::paren_expr => self.parse_paren_expression(expr),
             Rule::comparison_expr => self.parse_comparison_expression(expr),
+            Rule::function_test_expr => {
+                if expr.clone().into_inner().count() == 1 {
+                    self.parse_test_expression(expr)
+                } else {
+                    self.parse_comparison_expression(expr)
+                }
+            }
             Rule::test_expr => self.parse_test_expression(expr),
             _ => unreachable!(),
         }
@@ -391,11 +398,12 @@ impl JSONPathParser {
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let name = it.next().unwrap().as_str();
+        let logical: Vec<bool> = it.clone().map(|ex| is_logical_argument(&ex)).collect();
         let args: Result<Vec<_>, _> = it.map(|ex| self.parse_function_argument(ex)).collect();
 
         Ok(FilterExpression::Function {
             name: name.to_string(),
-            args: self.assert_well_typed(name, args?)?,
+            args: self.assert_well_typed(name, args?, &logical)?,
         })
     }
 
@@ -411,32 +419,10 @@ impl JSONPathParser {
             Rule::true_literal => FilterExpression::True,
             Rule::false_literal => FilterExpression::False,
             Rule::null => FilterExpression::Null,
-            Rule::rel_query => {
-                let segments: Result<Vec<_>, _> = expr
-                    .into_inner()
-                    .map(|segment| self.parse_segment(segment))
-                    .collect();
-
-                FilterExpression::RelativeQuery {
-                    query: Box::new(Query {
-                        segments: segments?,
-                    }),
-                }
+            Rule::logical_or_expr => {
+                let assert_compared = is_logical_argument(&expr);
+                self.parse_logical_or_expression(expr, assert_compared)?
             }
-            Rule::root_query => {
-                let segments: Result<Vec<_>, _> = expr
-                    .into_inner()
-                    .map(|segment| self.parse_segment(segment))
-                    .collect();
-
-                FilterExpression::RootQuery {
-                    query: Box::new(Query {
-                        segments: segments?,
-                    }),
-                }
-            }
-            Rule::logical_or_expr => self.parse_logical_or_expression(expr, false)?,
-            Rule::function_expr => self.parse_function_expression(expr)?,
             _ => unreachable!(),
         })
     }
@@ -510,6 +496,7 @@ impl JSONPathParser {
         &self,
         func_name: &str,
         args: Vec<FilterExpression>,
+        logical: &[bool], // is each argument written as a logical expression?
     ) -> Result<Vec<FilterExpression>, JSONPathError> {
         // TODO: accept span/position for better errors
         let signature = self
@@ -537,7 +524,7 @@ impl JSONPathParser {
             let arg = &args[idx];
             match typ {
                 ExpressionType::Value => {
-                    if !self.is_value_type(arg) {
+                    if logical[idx] || !self.is_value_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Value' type",
                             idx + 1,
@@ -546,13 +533,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if arg.is_literal() || self.assert_compared(arg).is_err() {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -561,7 +542,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Nodes => {
-                    if !self.is_nodes_type(arg) {
+                    if logical[idx] || !self.is_nodes_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Nodes' type",
                             idx + 1,
@@ -618,6 +599,30 @@ impl JSONPathParser {
     }
 }
 
+/// Is this function argument more than a literal, a filter query or a function call?
+fn is_logical_argument(expr: &Pair<Rule>) -> bool {
+    if expr.as_rule() != Rule::logical_or_expr {
+        return false;
+    }
+
+    let operands: Vec<_> = expr
+        .clone()
+        .into_inner()
+        .flat_map(|and_expr| and_expr.into_inner())
+        .collect();
+
+    match operands.as_slice() {
+        [operand] => match operand.as_rule() {
+            Rule::function_test_expr => operand.clone().into_inner().count() > 1,
+            Rule::test_expr => {
+                operand.clone().into_inner().next().unwrap().as_rule() == Rule::logical_not_op
+            }
+            _ => true,
+        },
+        _ => true,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/jsonpath_rfc9535_pest/src/jsonpath.pest b/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
index 9bb7e50..667c6ff 100644
--- a/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
@@ -87,18 +87,20 @@ logical_and_expr  =  { basic_expr ~ (S ~ "&&" ~ S ~ basic_expr)* }
 
 basic_expr = _{
     paren_expr
+  | function_test_expr
   | comparison_expr
   | test_expr
 }
 
 paren_expr              =  { (logical_not_op ~ S)? ~ "(" ~ S ~ logical_expr ~ S ~ ")" }
 logical_not_op          =  { "!" }
-test_expr               =  { (logical_not_op ~ S)? ~ (filter_query | function_expr) }
+function_test_expr      =  { function_expr ~ (S ~ comparison_op ~ S ~ comparable)? }
+test_expr               =  { filter_query | (logical_not_op ~ S ~ (filter_query | function_expr)) }
 filter_query            = _{ rel_query | root_query }
 root_query              =  { jsonpath_query }
 rel_query               =  { current_node_identifier ~ segments }
 current_node_identifier = _{ "@" }
-comparison_expr         =  { comparable ~ S ~ comparison_op ~ S ~ comparable }
+comparison_expr         =  { (literal | singular_query) ~ S ~ comparison_op ~ S ~ comparable }
 
 literal = _{
     number
@@ -150,10 +152,8 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
+    (literal ~ &(S ~ ("," | ")")))
   | logical_expr
-  | function_expr
-  | literal
 }
 
 segment = _{
diff --git a/crates/jsonpath_rfc9535_pest/src/parser.rs b/crates/jsonpath_rfc9535_pest/src/parser.rs
index 640c3d5..4a66bff 100644
--- a/crates/jsonpath_rfc9535_pest/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest/src/parser.rs
@@ -247,6 +247,13 @@ impl JSONPathParser {
         match expr.as_rule() {
             Rule::paren_expr => self.parse_paren_expression(expr),
             Rule::comparison_expr => self.parse_comparison_expression(expr),
+            Rule::function_test_expr => {
+                if expr.clone().into_inner().count() == 1 {
+                    self.parse_test_expression(expr)
+                } else {
+                    self.parse_comparison_expression(expr)
+                }
+            }
             Rule::test_expr => self.parse_test_expression(expr),
             _ => unreachable!(),
         }
@@ -443,11 +450,12 @@ impl JSONPathParser {
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let name = it.next().unwrap().as_str();
+        let logical: Vec<bool> = it.clone().map(|ex| is_logical_argument(&ex)).collect();
         let args: Result<Vec<_>, _> = it.map(|ex| self.parse_function_argument(ex)).collect();
 
         Ok(FilterExpression::Function {
             name: name.to_string(),
-            args: self.assert_well_typed(name, args?)?,
+            args: self.assert_well_typed(name, args?, &logical)?,
         })
     }
 
@@ -463,32 +471,10 @@ impl JSONPathParser {
             Rule::true_literal => FilterExpression::True,
             Rule::false_literal => FilterExpression::False,
             Rule::null => FilterExpression::Null,
-            Rule::rel_query => {
-                let segments: Result<Vec<_>, _> = expr
-                    .into_inner()
-                    .map(|segment| self.parse_segment(segment))
-                    .collect();
-
-                FilterExpression::RelativeQuery {
-                    query: Box::new(Query {
-                        segments: segments?,
-                    }),
-                }
-            }
-            Rule::root_query => {
-                let segments: Result<Vec<_>, _> = expr
-                    .into_inner()
-                    .map(|segment| self.parse_segment(segment))
-                    .collect();
-
-                FilterExpression::RootQuery {
-                    query: Box::new(Query {
-                        segments: segments?,
-                    }),
-                }
+            Rule::logical_or_expr => {
+                let assert_compared = is_logical_argument(&expr);
+                self.parse_logical_or_expression(expr, assert_compared)?
             }
-            Rule::logical_or_expr => self.parse_logical_or_expression(expr, false)?,
-            Rule::function_expr => self.parse_function_expression(expr)?,
             _ => unreachable!(),
         })
     }
@@ -562,6 +548,7 @@ impl JSONPathParser {
         &self,
         func_name: &str,
         args: Vec<FilterExpression>,
+        logical: &[bool], // is each argument written as a logical expression?
     ) -> Result<Vec<FilterExpression>, JSONPathError> {
         // TODO: accept span/position for better errors
         let signature = self
@@ -589,7 +576,7 @@ impl JSONPathParser {
             let arg = &args[idx];
             match typ {
                 ExpressionType::Value => {
-                    if !self.is_value_type(arg) {
+                    if logical[idx] || !self.is_value_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Value' type",
                             idx + 1,
@@ -598,13 +585,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if arg.is_literal() || self.assert_compared(arg).is_err() {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -613,7 +594,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Nodes => {
-                    if !self.is_nodes_type(arg) {
+                    if logical[idx] || !self.is_nodes_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Nodes' type",
                             idx + 1,
@@ -670,6 +651,30 @@ impl JSONPathParser {
     }
 }
 
+/// Is this function argument more than a literal, a filter query or a function call?
+fn is_logical_argument(expr: &Pair<Rule>) -> bool {
+    if expr.as_rule() != Rule::logical_or_expr {
+        return false;
+    }
+
+    let operands: Vec<_> = expr
+        .clone()
+        .into_inner()
+        .flat_map(|and_expr| and_expr.into_inner())
+        .collect();
+
+    match operands.as_slice() {
+        [operand] => match operand.as_rule() {
+            Rule::function_test_expr => operand.clone().into_inner().count() > 1,
+            Rule::test_expr => {
+                operand.clone().into_inner().next().unwrap().as_rule() == Rule::logical_not_op
+            }
+            _ => true,
+        },
+        _ => true,
+    }
+}
+
 fn unescape_string(value: &str) -> String {
     let chars = value.chars().collect::<Vec<char>>();
     let length = chars.len();
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest b/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
index 9bb7e50..667c6ff 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
@@ -87,18 +87,20 @@ logical_and_expr  =  { basic_expr ~ (S ~ "&&" ~ S ~ basic_expr)* }
 
 basic_expr = _{
     paren_expr
+  | function_test_expr
   | comparison_expr
   | test_expr
 }
 
 paren_expr              =  { (logical_not_op ~ S)? ~ "(" ~ S ~ logical_expr ~ S ~ ")" }
 logical_not_op          =  { "!" }
-test_expr               =  { (logical_not_op ~ S)? ~ (filter_query | function_expr) }
+function_test_expr      =  { function_expr ~ (S ~ comparison_op ~ S ~ comparable)? }
+test_expr               =  { filter_query | (logical_not_op ~ S ~ (filter_query | function_expr)) }
 filter_query            = _{ rel_query | root_query }
 root_query              =  { jsonpath_query }
 rel_query               =  { current_node_identifier ~ segments }
 current_node_identifier = _{ "@" }
-comparison_expr         =  { comparable ~ S ~ comparison_op ~ S ~ comparable }
+comparison_expr         =  { (literal | singular_query) ~ S ~ comparison_op ~ S ~ comparable }
 
 literal = _{
     number
@@ -150,10 +152,8 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
+    (literal ~ &(S ~ ("," | ")")))
   | logical_expr
-  | function_expr
-  | literal
 }
 
 segment = _{
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
index 85fcee9..e8bc896 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
@@ -268,6 +268,13 @@ impl JSONPathParser {
         match expr.as_rule() {
             Rule::paren_expr => self.parse_paren_expression(expr),
             Rule::comparison_expr => self.parse_comparison_expression(expr),
+            Rule::function_test_expr => {
+                if expr.clone().into_inner().count() == 1 {
+                    self.parse_test_expression(expr)
+                } else {
+                    self.parse_comparison_expression(expr)
+                }
+            }
             Rule::test_expr => self.parse_test_expression(expr),
             _ => unreachable!(),
         }
@@ -460,11 +467,12 @@ impl JSONPathParser {
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let name = it.next().unwrap().as_str();
+        let logical: Vec<bool> = it.clone().map(|ex| is_logical_argument(&ex)).collect();
         let args: Result<Vec<_>, _> = it.map(|ex| self.parse_function_argument(ex)).collect();
 
         Ok(FilterExpression::Function {
             name: name.to_string(),
-            args: self.assert_well_typed(name, args?)?,
+            args: self.assert_well_typed(name, args?, &logical)?,
         })
     }
 
@@ -480,30 +488,10 @@ impl JSONPathParser {
             Rule::true_literal => FilterExpression::True_ {},
             Rule::false_literal => FilterExpression::False_ {},
             Rule::null => FilterExpression::Null {},
-            Rule::rel_query => {
-                let segments = expr
-                    .into_inner()
-                    .try_fold(Segment::Root {}, |acc, segment| {
-                        self.parse_segment(acc, segment)
-                    });
-
-                FilterExpression::RelativeQuery {
-                    query: Box::new(Query { ast: segments? }),
-                }
-            }
-            Rule::root_query => {
-                let segments = expr
-                    .into_inner()
-                    .try_fold(Segment::Root {}, |acc, segment| {
-                        self.parse_segment(acc, segment)
-                    });
-
-                FilterExpression::RootQuery {
-                    query: Box::new(Query { ast: segments? }),
-                }
+            Rule::logical_or_expr => {
+                let assert_compared = is_logical_argument(&expr);
+                self.parse_logical_or_expression(expr, assert_compared)?
             }
-            Rule::logical_or_expr => self.parse_logical_or_expression(expr, false)?,
-            Rule::function_expr => self.parse_function_expression(expr)?,
             _ => unreachable!(),
         })
     }
@@ -578,6 +566,7 @@ impl JSONPathParser {
         &self,
         func_name: &str,
         args: Vec<FilterExpression>,
+        logical: &[bool], // is each argument written as a logical expression?
     ) -> Result<Vec<FilterExpression>, JSONPathError> {
         // TODO: accept span/position for better errors
         let signature = self
@@ -605,7 +594,7 @@ impl JSONPathParser {
             let arg = &args[idx];
             match typ {
                 ExpressionType::Value => {
-                    if !self.is_value_type(arg) {
+                    if logical[idx] || !self.is_value_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Value' type",
                             idx + 1,
@@ -614,13 +603,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if arg.is_literal() || self.assert_compared(arg).is_err() {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -629,7 +612,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Nodes => {
-                    if !self.is_nodes_type(arg) {
+                    if logical[idx] || !self.is_nodes_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Nodes' type",
                             idx + 1,
@@ -686,6 +669,30 @@ impl JSONPathParser {
     }
 }
 
+/// Is this function argument more than a literal, a filter query or a function call?
+fn is_logical_argument(expr: &Pair<Rule>) -> bool {
+    if expr.as_rule() != Rule::logical_or_expr {
+        return false;
+    }
+
+    let operands: Vec<_> = expr
+        .clone()
+        .into_inner()
+        .flat_map(|and_expr| and_expr.into_inner())
+        .collect();
+
+    match operands.as_slice() {
+        [operand] => match operand.as_rule() {
+            Rule::function_test_expr => operand.clone().into_inner().count() > 1,
+            Rule::test_expr => {
+                operand.clone().into_inner().next().unwrap().as_rule() == Rule::logical_not_op
+            }
+            _ => true,
+        },
+        _ => true,
+    }
+}
+
 fn unescape_string(value: &str) -> String {
     let chars = value.chars().collect::<Vec<char>>();
     let length = chars.len();
diff --git a/crates/jsonpath_rfc9535_serde/src/jsonpath.pest b/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
index 9bb7e50..667c6ff 100644
--- a/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
@@ -87,18 +87,20 @@ logical_and_expr  =  { basic_expr ~ (S ~ "&&" ~ S ~ basic_expr)* }
 
 basic_expr = _{
     paren_expr
+  | function_test_expr
   | comparison_expr
   | test_expr
 }
 
 paren_expr              =  { (logical_not_op ~ S)? ~ "(" ~ S ~ logical_expr ~ S ~ ")" }
 logical_not_op          =  { "!" }
-test_expr               =  { (logical_not_op ~ S)? ~ (filter_query | function_expr) }
+function_test_expr      =  { function_expr ~ (S ~ comparison_op ~ S ~ comparable)? }
+test_expr               =  { filter_query | (logical_not_op ~ S ~ (filter_query | function_expr)) }
 filter_query            = _{ rel_query | root_query }
 root_query              =  { jsonpath_query }
 rel_query               =  { current_node_identifier ~ segments }
 current_node_identifier = _{ "@" }
-comparison_expr         =  { comparable ~ S ~ comparison_op ~ S ~ comparable }
+comparison_expr         =  { (literal | singular_query) ~ S ~ comparison_op ~ S ~ comparable }
 
 literal = _{
     number
@@ -150,10 +152,8 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
+    (literal ~ &(S ~ ("," | ")")))
   | logical_expr
-  | function_expr
-  | literal
 }
 
 segment = _{
diff --git a/crates/jsonpath_rfc9535_serde/src/parser.rs b/crates/jsonpath_rfc9535_serde/src/parser.rs
index fc0f827..e834425 100644
--- a/crates/jsonpath_rfc9535_serde/src/parser.rs
+++ b/crates/jsonpath_rfc9535_serde/src/parser.rs
@@ -192,6 +192,13 @@ impl JSONPathParser {
         match expr.as_rule() {
             Rule::paren_expr => self.parse_paren_expression(expr),
             Rule::comparison_expr => self.parse_comparison_expression(expr),
+            Rule::function_test_expr => {
+                if expr.clone().into_inner().count() == 1 {
+                    self.parse_test_expression(expr)
+                } else {
+                    self.parse_comparison_expression(expr)
+                }
+            }
             Rule::test_expr => self.parse_test_expression(expr),
             _ => unreachable!(),
         }
@@ -388,11 +395,12 @@ impl JSONPathParser {
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let name = it.next().unwrap().as_str();
+        let logical: Vec<bool> = it.clone().map(|ex| is_logical_argument(&ex)).collect();
         let args: Result<Vec<_>, _> = it.map(|ex| self.parse_function_argument(ex)).collect();
 
         Ok(FilterExpression::Function {
             name: name.to_string(),
-            args: self.assert_well_typed(name, args?)?,
+            args: self.assert_well_typed(name, args?, &logical)?,
         })
     }
 
@@ -408,32 +416,10 @@ impl JSONPathParser {
             Rule::true_literal => FilterExpression::True,
             Rule::false_literal => FilterExpression::False,
             Rule::null => FilterExpression::Null,
-            Rule::rel_query => {
-                let segments: Result<Vec<_>, _> = expr
-                    .into_inner()
-                    .map(|segment| self.parse_segment(segment))
-                    .collect();
-
-                FilterExpression::RelativeQuery {
-                    query: Box::new(Query {
-                        segments: segments?,
-                    }),
-                }
+            Rule::logical_or_expr => {
+                let assert_compared = is_logical_argument(&expr);
+                self.parse_logical_or_expression(expr, assert_compared)?
             }
-            Rule::root_query => {
-                let segments: Result<Vec<_>, _> = expr
-                    .into_inner()
-                    .map(|segment| self.parse_segment(segment))
-                    .collect();
-
-                FilterExpression::RootQuery {
-                    query: Box::new(Query {
-                        segments: segments?,
-                    }),
-                }
-            }
-            Rule::logical_or_expr => self.parse_logical_or_expression(expr, false)?,
-            Rule::function_expr => self.parse_function_expression(expr)?,
             _ => unreachable!(),
         })
     }
@@ -507,6 +493,7 @@ impl JSONPathParser {
         &self,
         func_name: &str,
         args: Vec<FilterExpression>,
+        logical: &[bool], // is each argument written as a logical expression?
     ) -> Result<Vec<FilterExpression>, JSONPathError> {
         // TODO: accept span/position for better errors
         let signature = self
@@ -534,7 +521,7 @@ impl JSONPathParser {
             let arg = &args[idx];
             match typ {
                 ExpressionType::Value => {
-                    if !self.is_value_type(arg) {
+                    if logical[idx] || !self.is_value_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Value' type",
                             idx + 1,
@@ -543,13 +530,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if arg.is_literal() || self.assert_compared(arg).is_err() {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -558,7 +539,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Nodes => {
-                    if !self.is_nodes_type(arg) {
+                    if logical[idx] || !self.is_nodes_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Nodes' type",
                             idx + 1,
@@ -615,6 +596,30 @@ impl JSONPathParser {
     }
 }
 
+/// Is this function argument more than a literal, a filter query or a function call?
+fn is_logical_argument(expr: &Pair<Rule>) -> bool {
+    if expr.as_rule() != Rule::logical_or_expr {
+        return false;
+    }
+
+    let operands: Vec<_> = expr
+        .clone()
+        .into_inner()
+        .flat_map(|and_expr| and_expr.into_inner())
+        .collect();
+
+    match operands.as_slice() {
+        [operand] => match operand.as_rule() {
+            Rule::function_test_expr => operand.clone().into_inner().count() > 1,
+            Rule::test_expr => {
+                operand.clone().into_inner().next().unwrap().as_rule() == Rule::logical_not_op
+            }
+            _ => true,
+        },
+        _ => true,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest b/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
index 3c78c65..ac59783 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
@@ -90,18 +90,20 @@ singular_query_selector =  { (root_identifier ~ singular_query_segments) | impli
 
 basic_expr = _{
     paren_expr
+  | function_test_expr
   | comparison_expr
   | test_expr
 }
 
 paren_expr              =  { (logical_not_op ~ S)? ~ "(" ~ S ~ logical_expr ~ S ~ ")" }
 logical_not_op          =  { "!" }
-test_expr               =  { (logical_not_op ~ S)? ~ (filter_query | function_expr) }
+function_test_expr      =  { function_expr ~ (S ~ comparison_op ~ S ~ comparable)? }
+test_expr               =  { filter_query | (logical_not_op ~ S ~ (filter_query | function_expr)) }
 filter_query            = _{ rel_query | root_query }
 root_query              =  { jsonpath_query }
 rel_query               =  { current_node_identifier ~ segments }
 current_node_identifier = _{ "@" }
-comparison_expr         =  { comparable ~ S ~ comparison_op ~ S ~ comparable }
+comparison_expr         =  { (literal | singular_query) ~ S ~ comparison_op ~ S ~ comparable }
 
 literal = _{
     number
@@ -162,10 +164,8 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
+    (literal ~ &(S ~ ("," | ")")))
   | logical_expr
-  | function_expr
-  | literal
 }
 
 segment = _{
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
index 0cd1534..2292913 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
@@ -214,6 +214,13 @@ impl JSONPathParser {
         match expr.as_rule() {
             Rule::paren_expr => self.parse_paren_expression(expr),
             Rule::comparison_expr => self.parse_comparison_expression(expr),
+            Rule::function_test_expr => {
+                if expr.clone().into_inner().count() == 1 {
+                    self.parse_test_expression(expr)
+                } else {
+                    self.parse_comparison_expression(expr)
+                }
+            }
             Rule::test_expr => self.parse_test_expression(expr),
             _ => unreachable!(),
         }
@@ -410,11 +417,12 @@ impl JSONPathParser {
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let name = it.next().unwrap().as_str();
+        let logical: Vec<bool> = it.clone().map(|ex| is_logical_argument(&ex)).collect();
         let args: Result<Vec<_>, _> = it.map(|ex| self.parse_function_argument(ex)).collect();
 
         Ok(FilterExpression::Function {
             name: name.to_string(),
-            args: self.assert_well_typed(name, args?)?,
+            args: self.assert_well_typed(name, args?, &logical)?,
         })
     }
 
@@ -430,32 +438,10 @@ impl JSONPathParser {
             Rule::true_literal => FilterExpression::True,
             Rule::false_literal => FilterExpression::False,
             Rule::null => FilterExpression::Null,
-            Rule::rel_query => {
-                let segments: Result<Vec<_>, _> = expr
-                    .into_inner()
-                    .map(|segment| self.parse_segment(segment))
-                    .collect();
-
-                FilterExpression::RelativeQuery {
-                    query: Box::new(Query {
-                        segments: segments?,
-                    }),
-                }
+            Rule::logical_or_expr => {
+                let assert_compared = is_logical_argument(&expr);
+                self.parse_logical_or_expression(expr, assert_compared)?
             }
-            Rule::root_query => {
-                let segments: Result<Vec<_>, _> = expr
-                    .into_inner()
-                    .map(|segment| self.parse_segment(segment))
-                    .collect();
-
-                FilterExpression::RootQuery {
-                    query: Box::new(Query {
-                        segments: segments?,
-                    }),
-                }
-            }
-            Rule::logical_or_expr => self.parse_logical_or_expression(expr, false)?,
-            Rule::function_expr => self.parse_function_expression(expr)?,
             _ => unreachable!(),
         })
     }
@@ -529,6 +515,7 @@ impl JSONPathParser {
         &self,
         func_name: &str,
         args: Vec<FilterExpression>,
+        logical: &[bool], // is each argument written as a logical expression?
     ) -> Result<Vec<FilterExpression>, JSONPathError> {
         // TODO: accept span/position for better errors
         let signature = self
@@ -556,7 +543,7 @@ impl JSONPathParser {
             let arg = &args[idx];
             match typ {
                 ExpressionType::Value => {
-                    if !self.is_value_type(arg) {
+                    if logical[idx] || !self.is_value_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Value' type",
                             idx + 1,
@@ -565,13 +552,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if arg.is_literal() || self.assert_compared(arg).is_err() {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -580,7 +561,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Nodes => {
-                    if !self.is_nodes_type(arg) {
+                    if logical[idx] || !self.is_nodes_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Nodes' type",
                             idx + 1,
@@ -637,6 +618,30 @@ impl JSONPathParser {
     }
 }
 
+/// Is this function argument more than a literal, a filter query or a function call?
+fn is_logical_argument(expr: &Pair<Rule>) -> bool {
+    if expr.as_rule() != Rule::logical_or_expr {
+        return false;
+    }
+
+    let operands: Vec<_> = expr
+        .clone()
+        .into_inner()
+        .flat_map(|and_expr| and_expr.into_inner())
+        .collect();
+
+    match operands.as_slice() {
+        [operand] => match operand.as_rule() {
+            Rule::function_test_expr => operand.clone().into_inner().count() > 1,
+            Rule::test_expr => {
+                operand.clone().into_inner().next().unwrap().as_rule() == Rule::logical_not_op
+            }
+            _ => true,
+        },
+        _ => true,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 24acd6631d7080eccf4da31fec16d98bd02bf525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 26/36] fix: do not display a negative zero, which is parsed as
 an integer

---
 crates/jsonpath_rfc9535/src/query.rs                    | 2 +-
 crates/jsonpath_rfc9535_iter/src/filter.rs              | 2 +-
 crates/jsonpath_rfc9535_locations/src/filter.rs         | 2 +-
 crates/jsonpath_rfc9535_pest/src/ast.rs                 | 2 +-
 crates/jsonpath_rfc9535_pest_recursive/src/ast.rs       | 2 +-
 crates/jsonpath_rfc9535_serde/src/ast.rs                | 2 +-
 crates/jsonpath_rfc9535_singular_selector/src/filter.rs | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/query.rs b/crates/jsonpath_rfc9535/src/query.rs
index 7ef2a50..b1b3f0d 100644
--- a/crates/jsonpath_rfc9535/src/query.rs
+++ b/crates/jsonpath_rfc9535/src/query.rs
@@ -310,7 +310,7 @@ impl fmt::Display for FilterExpression {
             FilterExpression::Null { .. } => f.write_str("null"),
             FilterExpression::String { value, .. } => write!(f, "\"{}\"", escape(value, None)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
-            FilterExpression::Float { value, .. } => write!(f, "{value}"),
+            FilterExpression::Float { value, .. } => write!(f, "{}", value + 0.0), // not -0
             FilterExpression::Not { expression, .. } => match **expression {
                 FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
                     write!(f, "!({expression})")
diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index 10d7421..b7a4e8d 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -147,7 +147,7 @@ impl fmt::Display for FilterExpression {
             FilterExpression::Null { .. } => f.write_str("null"),
             FilterExpression::String { value, .. } => f.write_str(&quote(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
-            FilterExpression::Float { value, .. } => write!(f, "{value}"),
+            FilterExpression::Float { value, .. } => write!(f, "{}", value + 0.0), // not -0
             FilterExpression::Not { expression, .. } => match **expression {
                 FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
                     write!(f, "!({expression})")
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 95c7630..7b9a62c 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -146,7 +146,7 @@ impl fmt::Display for FilterExpression {
             FilterExpression::Null { .. } => f.write_str("null"),
             FilterExpression::String { value, .. } => f.write_str(&quote(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
-            FilterExpression::Float { value, .. } => write!(f, "{value}"),
+            FilterExpression::Float { value, .. } => write!(f, "{}", value + 0.0), // not -0
             FilterExpression::Not { expression, .. } => match **expression {
                 FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
                     write!(f, "!({expression})")
diff --git a/crates/jsonpath_rfc9535_pest/src/ast.rs b/crates/jsonpath_rfc9535_pest/src/ast.rs
index 286a6ae..c97381a 100644
--- a/crates/jsonpath_rfc9535_pest/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest/src/ast.rs
@@ -267,7 +267,7 @@ impl fmt::Display for FilterExpression {
             FilterExpression::Null { .. } => f.write_str("null"),
             FilterExpression::String { value, .. } => write!(f, "'{}'", escape(value, None)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
-            FilterExpression::Float { value, .. } => write!(f, "{value}"),
+            FilterExpression::Float { value, .. } => write!(f, "{}", value + 0.0), // not -0
             FilterExpression::Not { expression, .. } => match **expression {
                 FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
                     write!(f, "!({expression})")
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
index bd107ea..aa43da9 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
@@ -211,7 +211,7 @@ impl fmt::Display for FilterExpression {
             FilterExpression::Null { .. } => f.write_str("null"),
             FilterExpression::StringLiteral { value, .. } => write!(f, "'{}'", escape(value, None)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
-            FilterExpression::Float { value, .. } => write!(f, "{value}"),
+            FilterExpression::Float { value, .. } => write!(f, "{}", value + 0.0), // not -0
             FilterExpression::Not { expression, .. } => match **expression {
                 FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
                     write!(f, "!({expression})")
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index b01abb6..f415043 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -636,7 +636,7 @@ impl fmt::Display for FilterExpression {
             FilterExpression::Null { .. } => f.write_str("null"),
             FilterExpression::String { value, .. } => f.write_str(&quote(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
-            FilterExpression::Float { value, .. } => write!(f, "{value}"),
+            FilterExpression::Float { value, .. } => write!(f, "{}", value + 0.0), // not -0
             FilterExpression::Not { expression, .. } => match **expression {
                 FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
                     write!(f, "!({expression})")
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 95c7630..7b9a62c 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -146,7 +146,7 @@ impl fmt::Display for FilterExpression {
             FilterExpression::Null { .. } => f.write_str("null"),
             FilterExpression::String { value, .. } => f.write_str(&quote(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
-            FilterExpression::Float { value, .. } => write!(f, "{value}"),
+            FilterExpression::Float { value, .. } => write!(f, "{}", value + 0.0), // not -0
             FilterExpression::Not { expression, .. } => match **expression {
                 FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
                     write!(f, "!({expression})")
-- 
2.43.0


From c85f24312ff8d31c662e483446a4cb85d2946f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 27/36] fix: clamp a slice start outside the array according to
 the step's sign

---
 crates/jsonpath_rfc9535_iter/src/selector.rs              | 4 ++--
 crates/jsonpath_rfc9535_locations/src/selector.rs         | 4 ++--
 crates/jsonpath_rfc9535_serde/src/ast.rs                  | 4 ++--
 crates/jsonpath_rfc9535_singular_selector/src/selector.rs | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/selector.rs b/crates/jsonpath_rfc9535_iter/src/selector.rs
index b6fa168..8975fc9 100644
--- a/crates/jsonpath_rfc9535_iter/src/selector.rs
+++ b/crates/jsonpath_rfc9535_iter/src/selector.rs
@@ -74,9 +74,9 @@ pub fn slice<'a>(
     let n_start = match start {
         Some(i) => {
             if i < 0 {
-                cmp::max(array_length + i, 0)
+                cmp::max(array_length + i, if n_step < 0 { -1 } else { 0 })
             } else {
-                cmp::min(i, array_length - 1)
+                cmp::min(i, array_length - if n_step < 0 { 1 } else { 0 })
             }
         }
         None => {
diff --git a/crates/jsonpath_rfc9535_locations/src/selector.rs b/crates/jsonpath_rfc9535_locations/src/selector.rs
index 131e644..3cba3d8 100644
--- a/crates/jsonpath_rfc9535_locations/src/selector.rs
+++ b/crates/jsonpath_rfc9535_locations/src/selector.rs
@@ -149,9 +149,9 @@ fn slice<'v>(
     let n_start = match start {
         Some(i) => {
             if i < 0 {
-                cmp::max(len + i as i128, 0)
+                cmp::max(len + i as i128, if step < 0 { -1 } else { 0 })
             } else {
-                cmp::min(i as i128, len - 1)
+                cmp::min(i as i128, len - if step < 0 { 1 } else { 0 })
             }
         }
         None => {
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index f415043..7bf2931 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -732,9 +732,9 @@ fn slice<'a>(
     let n_start = match start {
         Some(i) => {
             if i < 0 {
-                cmp::max(array_length + i, 0)
+                cmp::max(array_length + i, if n_step < 0 { -1 } else { 0 })
             } else {
-                cmp::min(i, array_length - 1)
+                cmp::min(i, array_length - if n_step < 0 { 1 } else { 0 })
             }
         }
         None => {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/selector.rs b/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
index cc861ac..26e9f9d 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
@@ -186,9 +186,9 @@ fn slice<'v>(
     let n_start = match start {
         Some(i) => {
             if i < 0 {
-                cmp::max(len + i as i128, 0)
+                cmp::max(len + i as i128, if step < 0 { -1 } else { 0 })
             } else {
-                cmp::min(i as i128, len - 1)
+                cmp::min(i as i128, len - if step < 0 { 1 } else { 0 })
             }
         }
         None => {
-- 
2.43.0


From 8e0bcd8db4fd8d941279577ebb082a634b0524df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 28/36] fix: an integer too big for 64 bits signed is a float
 instead of a panic

---
 crates/jsonpath_rfc9535_iter/src/filter.rs              | 2 +-
 crates/jsonpath_rfc9535_locations/src/filter.rs         | 4 +++-
 crates/jsonpath_rfc9535_serde/src/ast.rs                | 2 +-
 crates/jsonpath_rfc9535_singular_selector/src/filter.rs | 4 +++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index b7a4e8d..1d88add 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -268,7 +268,7 @@ impl<'v> FilterExpressionResult<'v> {
                 } else if n.is_i64() {
                     FilterExpressionResult::Int(n.as_i64().unwrap())
                 } else {
-                    FilterExpressionResult::Int(n.as_i64().unwrap()) // XXX:
+                    FilterExpressionResult::Float(n.as_f64().unwrap()) // too big for an i64
                 }
             }
             Value::String(s) => FilterExpressionResult::String(s.to_owned()),
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 7b9a62c..e60844f 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -263,8 +263,10 @@ impl<'a> FilterExpressionResult<'a> {
             Value::Number(n) => {
                 if n.is_f64() {
                     FilterExpressionResult::Float(n.as_f64().unwrap())
-                } else {
+                } else if n.is_i64() {
                     FilterExpressionResult::Int(n.as_i64().unwrap())
+                } else {
+                    FilterExpressionResult::Float(n.as_f64().unwrap()) // too big for an i64
                 }
             }
             Value::String(s) => FilterExpressionResult::String(s.to_owned()),
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 7bf2931..2067518 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -78,7 +78,7 @@ impl<'a> FilterExpressionResult<'a> {
                 } else if n.is_i64() {
                     FilterExpressionResult::Int(n.as_i64().unwrap())
                 } else {
-                    FilterExpressionResult::Int(n.as_i64().unwrap()) // XXX:
+                    FilterExpressionResult::Float(n.as_f64().unwrap()) // too big for an i64
                 }
             }
             Value::String(s) => FilterExpressionResult::String(s.to_owned()),
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 7b9a62c..e60844f 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -263,8 +263,10 @@ impl<'a> FilterExpressionResult<'a> {
             Value::Number(n) => {
                 if n.is_f64() {
                     FilterExpressionResult::Float(n.as_f64().unwrap())
-                } else {
+                } else if n.is_i64() {
                     FilterExpressionResult::Int(n.as_i64().unwrap())
+                } else {
+                    FilterExpressionResult::Float(n.as_f64().unwrap()) // too big for an i64
                 }
             }
             Value::String(s) => FilterExpressionResult::String(s.to_owned()),
-- 
2.43.0


From 5ef3bda22fdbaa3539da7ffa9d7552a259cf804e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 29/36] fix: numbers inside arrays and objects are compared by
 value

---
 crates/jsonpath_rfc9535_iter/src/filter.rs    | 23 +++++++++++++++++--
 .../jsonpath_rfc9535_locations/src/filter.rs  | 23 +++++++++++++++++--
 crates/jsonpath_rfc9535_serde/src/ast.rs      | 23 +++++++++++++++++--
 .../src/filter.rs                             | 23 +++++++++++++++++--
 4 files changed, 84 insertions(+), 8 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index 1d88add..858778a 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -359,12 +359,31 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
-        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
-        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
+        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => eq_values(l, r),
+        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => eq_values(l, r),
         _ => false,
     }
 }
 
+/// Compare JSON values. Numbers are equal if they are mathematically equal.
+fn eq_values(left: &Value, right: &Value) -> bool {
+    match (left, right) {
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r).all(|(l, r)| eq_values(l, r))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, l)| r.get(k).is_some_and(|r| eq_values(l, r)))
+        }
+        (Value::Number(_), Value::Number(_)) => eq(
+            &FilterExpressionResult::from_json_value(left),
+            &FilterExpressionResult::from_json_value(right),
+        ),
+        _ => left == right,
+    }
+}
+
 fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index e60844f..35c5e14 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -357,12 +357,31 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
-        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
-        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
+        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => eq_values(l, r),
+        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => eq_values(l, r),
         _ => false,
     }
 }
 
+/// Compare JSON values. Numbers are equal if they are mathematically equal.
+fn eq_values(left: &Value, right: &Value) -> bool {
+    match (left, right) {
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r).all(|(l, r)| eq_values(l, r))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, l)| r.get(k).is_some_and(|r| eq_values(l, r)))
+        }
+        (Value::Number(_), Value::Number(_)) => eq(
+            &FilterExpressionResult::from_json_value(left),
+            &FilterExpressionResult::from_json_value(right),
+        ),
+        _ => left == right,
+    }
+}
+
 fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 2067518..35192e4 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -862,12 +862,31 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
-        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
-        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
+        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => eq_values(l, r),
+        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => eq_values(l, r),
         _ => false,
     }
 }
 
+/// Compare JSON values. Numbers are equal if they are mathematically equal.
+fn eq_values(left: &Value, right: &Value) -> bool {
+    match (left, right) {
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r).all(|(l, r)| eq_values(l, r))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, l)| r.get(k).is_some_and(|r| eq_values(l, r)))
+        }
+        (Value::Number(_), Value::Number(_)) => eq(
+            &FilterExpressionResult::from_json_value(left),
+            &FilterExpressionResult::from_json_value(right),
+        ),
+        _ => left == right,
+    }
+}
+
 fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index e60844f..35c5e14 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -357,12 +357,31 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
-        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
-        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
+        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => eq_values(l, r),
+        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => eq_values(l, r),
         _ => false,
     }
 }
 
+/// Compare JSON values. Numbers are equal if they are mathematically equal.
+fn eq_values(left: &Value, right: &Value) -> bool {
+    match (left, right) {
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r).all(|(l, r)| eq_values(l, r))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, l)| r.get(k).is_some_and(|r| eq_values(l, r)))
+        }
+        (Value::Number(_), Value::Number(_)) => eq(
+            &FilterExpressionResult::from_json_value(left),
+            &FilterExpressionResult::from_json_value(right),
+        ),
+        _ => left == right,
+    }
+}
+
 fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
-- 
2.43.0


From 22bca5ccda02dedd86b65094b3c674bfd5a8aa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 30/36] fix: match() considers the whole string when the
 pattern has an anchor

---
 crates/jsonpath_rfc9535_iter/src/standard_functions.rs      | 6 +-----
 crates/jsonpath_rfc9535_locations/src/standard_functions.rs | 6 +-----
 crates/jsonpath_rfc9535_serde/src/standard_functions.rs     | 6 +-----
 .../src/standard_functions.rs                               | 6 +-----
 4 files changed, 4 insertions(+), 20 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/standard_functions.rs b/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
index 754ca17..99b6807 100644
--- a/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
@@ -263,9 +263,5 @@ fn map_regex(pattern: &str) -> String {
 }
 
 fn full_match(pattern: &str) -> String {
-    if !pattern.starts_with('^') && !pattern.ends_with('$') {
-        map_regex(&format!("^(?:{})$", pattern))
-    } else {
-        map_regex(pattern)
-    }
+    map_regex(&format!("^(?:{})$", pattern))
 }
diff --git a/crates/jsonpath_rfc9535_locations/src/standard_functions.rs b/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
index b756c33..6b5ef64 100644
--- a/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
@@ -263,9 +263,5 @@ fn map_regex(pattern: &str) -> String {
 }
 
 fn full_match(pattern: &str) -> String {
-    if !pattern.starts_with('^') && !pattern.ends_with('$') {
-        map_regex(&format!("^(?:{})$", pattern))
-    } else {
-        map_regex(pattern)
-    }
+    map_regex(&format!("^(?:{})$", pattern))
 }
diff --git a/crates/jsonpath_rfc9535_serde/src/standard_functions.rs b/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
index db7f233..eca18e4 100644
--- a/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
@@ -263,9 +263,5 @@ fn map_regex(pattern: &str) -> String {
 }
 
 fn full_match(pattern: &str) -> String {
-    if !pattern.starts_with('^') && !pattern.ends_with('$') {
-        map_regex(&format!("^(?:{})$", pattern))
-    } else {
-        map_regex(pattern)
-    }
+    map_regex(&format!("^(?:{})$", pattern))
 }
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs b/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
index b756c33..6b5ef64 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
@@ -263,9 +263,5 @@ fn map_regex(pattern: &str) -> String {
 }
 
 fn full_match(pattern: &str) -> String {
-    if !pattern.starts_with('^') && !pattern.ends_with('$') {
-        map_regex(&format!("^(?:{})$", pattern))
-    } else {
-        map_regex(pattern)
-    }
+    map_regex(&format!("^(?:{})$", pattern))
 }
-- 
2.43.0


From d94e0ee54abc5dc5f99eadef7c2e45e297b8c61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 31/36] fix: map I-Regexp dots and character classes to
 equivalent patterns

---
 .../src/standard_functions.rs                 | 66 ++++++++-----------
 .../src/standard_functions.rs                 | 66 ++++++++-----------
 .../src/standard_functions.rs                 | 66 ++++++++-----------
 .../src/standard_functions.rs                 | 66 ++++++++-----------
 4 files changed, 112 insertions(+), 152 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/standard_functions.rs b/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
index 99b6807..45b7d79 100644
--- a/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
@@ -221,45 +221,35 @@ impl FunctionExtension for Value {
     }
 }
 
-/// Map re pattern to i-regexp pattern.
+/// Map an I-Regexp pattern to an equivalent pattern for the regex crate.
 fn map_regex(pattern: &str) -> String {
-    // let mut escaped = false;
-    // let mut char_class = false;
-    // let mut parts: Vec<String> = Vec::new();
-
-    // for c in pattern.chars() {
-    //     if escaped {
-    //         parts.push(String::from(c));
-    //         escaped = false;
-    //         continue;
-    //     }
-
-    //     match c {
-    //         '.' => {
-    //             if !char_class {
-    //                 parts.push(String::from("(?:(?![\r\n])\\P{Cs}|\\p{Cs}\\p{Cs})"));
-    //             } else {
-    //                 parts.push(String::from(c));
-    //             }
-    //         }
-    //         '\\' => {
-    //             escaped = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         '[' => {
-    //             char_class = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         ']' => {
-    //             char_class = false;
-    //             parts.push(String::from(c));
-    //         }
-    //         _ => parts.push(String::from(c)),
-    //     }
-    // }
-
-    // parts.join("");
-    pattern.to_owned()
+    let mut escaped = false;
+    let mut char_class = false;
+    let mut mapped = String::new();
+
+    for c in pattern.chars() {
+        if escaped {
+            escaped = false;
+            mapped.push(c);
+            continue;
+        }
+
+        match c {
+            '.' if !char_class => {
+                mapped.push_str("[^\\n\\r]");
+                continue;
+            }
+            // "&&" and "~~" would be set operators
+            '&' | '~' if char_class => mapped.push('\\'),
+            '\\' => escaped = true,
+            '[' => char_class = true,
+            ']' => char_class = false,
+            _ => (),
+        }
+        mapped.push(c);
+    }
+
+    mapped
 }
 
 fn full_match(pattern: &str) -> String {
diff --git a/crates/jsonpath_rfc9535_locations/src/standard_functions.rs b/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
index 6b5ef64..de49d6c 100644
--- a/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
@@ -221,45 +221,35 @@ impl FunctionExtension for Value {
     }
 }
 
-/// Map re pattern to i-regexp pattern.
+/// Map an I-Regexp pattern to an equivalent pattern for the regex crate.
 fn map_regex(pattern: &str) -> String {
-    // let mut escaped = false;
-    // let mut char_class = false;
-    // let mut parts: Vec<String> = Vec::new();
-
-    // for c in pattern.chars() {
-    //     if escaped {
-    //         parts.push(String::from(c));
-    //         escaped = false;
-    //         continue;
-    //     }
-
-    //     match c {
-    //         '.' => {
-    //             if !char_class {
-    //                 parts.push(String::from("(?:(?![\r\n])\\P{Cs}|\\p{Cs}\\p{Cs})"));
-    //             } else {
-    //                 parts.push(String::from(c));
-    //             }
-    //         }
-    //         '\\' => {
-    //             escaped = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         '[' => {
-    //             char_class = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         ']' => {
-    //             char_class = false;
-    //             parts.push(String::from(c));
-    //         }
-    //         _ => parts.push(String::from(c)),
-    //     }
-    // }
-
-    // parts.join("");
-    pattern.to_owned()
+    let mut escaped = false;
+    let mut char_class = false;
+    let mut mapped = String::new();
+
+    for c in pattern.chars() {
+        if escaped {
+            escaped = false;
+            mapped.push(c);
+            continue;
+        }
+
+        match c {
+            '.' if !char_class => {
+                mapped.push_str("[^\\n\\r]");
+                continue;
+            }
+            // "&&" and "~~" would be set operators
+            '&' | '~' if char_class => mapped.push('\\'),
+            '\\' => escaped = true,
+            '[' => char_class = true,
+            ']' => char_class = false,
+            _ => (),
+        }
+        mapped.push(c);
+    }
+
+    mapped
 }
 
 fn full_match(pattern: &str) -> String {
diff --git a/crates/jsonpath_rfc9535_serde/src/standard_functions.rs b/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
index eca18e4..6d671bc 100644
--- a/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
@@ -221,45 +221,35 @@ impl FunctionExtension for Value {
     }
 }
 
-/// Map re pattern to i-regexp pattern.
+/// Map an I-Regexp pattern to an equivalent pattern for the regex crate.
 fn map_regex(pattern: &str) -> String {
-    // let mut escaped = false;
-    // let mut char_class = false;
-    // let mut parts: Vec<String> = Vec::new();
-
-    // for c in pattern.chars() {
-    //     if escaped {
-    //         parts.push(String::from(c));
-    //         escaped = false;
-    //         continue;
-    //     }
-
-    //     match c {
-    //         '.' => {
-    //             if !char_class {
-    //                 parts.push(String::from("(?:(?![\r\n])\\P{Cs}|\\p{Cs}\\p{Cs})"));
-    //             } else {
-    //                 parts.push(String::from(c));
-    //             }
-    //         }
-    //         '\\' => {
-    //             escaped = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         '[' => {
-    //             char_class = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         ']' => {
-    //             char_class = false;
-    //             parts.push(String::from(c));
-    //         }
-    //         _ => parts.push(String::from(c)),
-    //     }
-    // }
-
-    // parts.join("");
-    pattern.to_owned()
+    let mut escaped = false;
+    let mut char_class = false;
+    let mut mapped = String::new();
+
+    for c in pattern.chars() {
+        if escaped {
+            escaped = false;
+            mapped.push(c);
+            continue;
+        }
+
+        match c {
+            '.' if !char_class => {
+                mapped.push_str("[^\\n\\r]");
+                continue;
+            }
+            // "&&" and "~~" would be set operators
+            '&' | '~' if char_class => mapped.push('\\'),
+            '\\' => escaped = true,
+            '[' => char_class = true,
+            ']' => char_class = false,
+            _ => (),
+        }
+        mapped.push(c);
+    }
+
+    mapped
 }
 
 fn full_match(pattern: &str) -> String {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs b/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
index 6b5ef64..de49d6c 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
@@ -221,45 +221,35 @@ impl FunctionExtension for Value {
     }
 }
 
-/// Map re pattern to i-regexp pattern.
+/// Map an I-Regexp pattern to an equivalent pattern for the regex crate.
 fn map_regex(pattern: &str) -> String {
-    // let mut escaped = false;
-    // let mut char_class = false;
-    // let mut parts: Vec<String> = Vec::new();
-
-    // for c in pattern.chars() {
-    //     if escaped {
-    //         parts.push(String::from(c));
-    //         escaped = false;
-    //         continue;
-    //     }
-
-    //     match c {
-    //         '.' => {
-    //             if !char_class {
-    //                 parts.push(String::from("(?:(?![\r\n])\\P{Cs}|\\p{Cs}\\p{Cs})"));
-    //             } else {
-    //                 parts.push(String::from(c));
-    //             }
-    //         }
-    //         '\\' => {
-    //             escaped = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         '[' => {
-    //             char_class = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         ']' => {
-    //             char_class = false;
-    //             parts.push(String::from(c));
-    //         }
-    //         _ => parts.push(String::from(c)),
-    //     }
-    // }
-
-    // parts.join("");
-    pattern.to_owned()
+    let mut escaped = false;
+    let mut char_class = false;
+    let mut mapped = String::new();
+
+    for c in pattern.chars() {
+        if escaped {
+            escaped = false;
+            mapped.push(c);
+            continue;
+        }
+
+        match c {
+            '.' if !char_class => {
+                mapped.push_str("[^\\n\\r]");
+                continue;
+            }
+            // "&&" and "~~" would be set operators
+            '&' | '~' if char_class => mapped.push('\\'),
+            '\\' => escaped = true,
+            '[' => char_class = true,
+            ']' => char_class = false,
+            _ => (),
+        }
+        mapped.push(c);
+    }
+
+    mapped
 }
 
 fn full_match(pattern: &str) -> String {
-- 
2.43.0


From 9617ae83b4491088a4843e0ac350c5f4d0446f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 32/36] fix: iter: no recursion over unselected values

---
 crates/jsonpath_rfc9535_iter/src/iter.rs | 38 ++++++++----------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/iter.rs b/crates/jsonpath_rfc9535_iter/src/iter.rs
index 795bbe6..f4b4468 100644
--- a/crates/jsonpath_rfc9535_iter/src/iter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/iter.rs
@@ -57,15 +57,11 @@ pub struct SegmentIter<'v> {
 impl<'v> Iterator for SegmentIter<'v> {
     type Item = Rc<Node<'v>>;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.it.next() {
-            Some(v) => Some(v),
-            None => match self.selectors.next() {
-                Some(it) => {
-                    self.it = Box::new(it);
-                    self.next()
-                }
-                None => None,
-            },
+        loop {
+            match self.it.next() {
+                Some(v) => return Some(v),
+                None => self.it = Box::new(self.selectors.next()?),
+            }
         }
     }
 }
@@ -200,15 +196,11 @@ pub struct ArrayFilterIter<'v> {
 impl<'v> Iterator for ArrayFilterIter<'v> {
     type Item = Rc<Node<'v>>;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.it.next() {
-            Some((index, value)) => {
-                if is_truthy(self.expr.evaluate(self.env, self.root, value)) {
-                    Some(self.parent.new_child_element(value, index))
-                } else {
-                    self.next()
-                }
+        loop {
+            let (index, value) = self.it.next()?;
+            if is_truthy(self.expr.evaluate(self.env, self.root, value)) {
+                return Some(self.parent.new_child_element(value, index));
             }
-            None => None,
         }
     }
 }
@@ -242,15 +234,11 @@ pub struct ObjectFilterIter<'v> {
 impl<'v> Iterator for ObjectFilterIter<'v> {
     type Item = Rc<Node<'v>>;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.it.next() {
-            Some((k, v)) => {
-                if is_truthy(self.expr.evaluate(self.env, self.root, v)) {
-                    Some(self.parent.new_child_member(v, k))
-                } else {
-                    self.next()
-                }
+        loop {
+            let (k, v) = self.it.next()?;
+            if is_truthy(self.expr.evaluate(self.env, self.root, v)) {
+                return Some(self.parent.new_child_member(v, k));
             }
-            None => None,
         }
     }
 }
-- 
2.43.0


From 0393aec3c40f21628df7d880fcbe726e88b91bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 33/36] fix: an argument for a logical parameter is converted
 to a truth value

---
 crates/jsonpath_rfc9535_iter/src/filter.rs              | 4 ++++
 crates/jsonpath_rfc9535_locations/src/filter.rs         | 4 ++++
 crates/jsonpath_rfc9535_serde/src/ast.rs                | 4 ++++
 crates/jsonpath_rfc9535_singular_selector/src/filter.rs | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index 858778a..c0043ab 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -405,6 +405,10 @@ fn unpack_result<'v>(
         return rv;
     }
 
+    if matches!(param_types.get(index).unwrap(), ExpressionType::Logical) {
+        return FilterExpressionResult::Bool(is_truthy(rv));
+    }
+
     match &rv {
         FilterExpressionResult::Nodes(values) => match values.len() {
             0 => FilterExpressionResult::Nothing,
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 35c5e14..1b48b8f 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -403,6 +403,10 @@ pub fn unpack_result<'a>(
         return rv;
     }
 
+    if matches!(param_types.get(index).unwrap(), ExpressionType::Logical) {
+        return FilterExpressionResult::Bool(is_truthy(rv));
+    }
+
     match &rv {
         FilterExpressionResult::Nodes(nodes) => match nodes.len() {
             0 => FilterExpressionResult::Nothing,
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 35192e4..1fe7311 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -908,6 +908,10 @@ fn unpack_result<'a>(
         return Ok(rv);
     }
 
+    if matches!(param_types.get(index).unwrap(), ExpressionType::Logical) {
+        return Ok(FilterExpressionResult::Bool(is_truthy(rv)));
+    }
+
     match &rv {
         FilterExpressionResult::Nodes(nodes) => match nodes.len() {
             0 => Ok(FilterExpressionResult::Nothing),
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 35c5e14..1b48b8f 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -403,6 +403,10 @@ pub fn unpack_result<'a>(
         return rv;
     }
 
+    if matches!(param_types.get(index).unwrap(), ExpressionType::Logical) {
+        return FilterExpressionResult::Bool(is_truthy(rv));
+    }
+
     match &rv {
         FilterExpressionResult::Nodes(nodes) => match nodes.len() {
             0 => FilterExpressionResult::Nothing,
-- 
2.43.0


From 3ca383cbaeea455462a51a145a678fc899e1af31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:46 +0000
Subject: [PATCH 34/36] fix: $ in a nested filter is the root of the query
 argument

---
 crates/jsonpath_rfc9535_iter/src/filter.rs          |  2 +-
 crates/jsonpath_rfc9535_iter/src/iter.rs            | 12 +++++++++++-
 crates/jsonpath_rfc9535_locations/src/filter.rs     |  2 +-
 crates/jsonpath_rfc9535_locations/src/query.rs      | 12 +++++++++++-
 crates/jsonpath_rfc9535_serde/src/ast.rs            | 13 ++++++++++---
 .../src/filter.rs                                   |  2 +-
 .../jsonpath_rfc9535_singular_selector/src/query.rs | 12 +++++++++++-
 7 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index c0043ab..cbce409 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -115,7 +115,7 @@ impl FilterExpression {
                 }
             }
             FilterExpression::RelativeQuery { query } => FilterExpressionResult::Nodes(
-                QueryIter::new(env, current, *query.clone()).collect(),
+                QueryIter::new_from(env, root, current, *query.clone()).collect(),
             ),
             FilterExpression::RootQuery { query } => {
                 FilterExpressionResult::Nodes(QueryIter::new(env, root, *query.clone()).collect())
diff --git a/crates/jsonpath_rfc9535_iter/src/iter.rs b/crates/jsonpath_rfc9535_iter/src/iter.rs
index f4b4468..a9dd84b 100644
--- a/crates/jsonpath_rfc9535_iter/src/iter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/iter.rs
@@ -29,10 +29,20 @@ impl<'v> Iterator for QueryIter<'v> {
 
 impl<'v> QueryIter<'v> {
     pub fn new(env: &'static Environment, root: &'v Value, query: Query) -> Self {
+        Self::new_from(env, root, root, query)
+    }
+
+    /// As `new`, for a query that starts at a node of the query argument `root`.
+    pub(crate) fn new_from(
+        env: &'static Environment,
+        root: &'v Value,
+        current: &'v Value,
+        query: Query,
+    ) -> Self {
         let init = SegmentIter {
             selectors: vec![].into_iter(),
             it: Box::new(iter::once(Rc::new(Node {
-                value: root,
+                value: current,
                 location: String::from("$"),
             }))),
         };
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 1b48b8f..89db163 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -114,7 +114,7 @@ impl FilterExpression {
                 }
             }
             FilterExpression::RelativeQuery { query } => {
-                FilterExpressionResult::Nodes(query.find(current, env))
+                FilterExpressionResult::Nodes(query.find_from(current, root, env))
             }
             FilterExpression::RootQuery { query } => {
                 FilterExpressionResult::Nodes(query.find(root, env))
diff --git a/crates/jsonpath_rfc9535_locations/src/query.rs b/crates/jsonpath_rfc9535_locations/src/query.rs
index 6731b81..b884751 100644
--- a/crates/jsonpath_rfc9535_locations/src/query.rs
+++ b/crates/jsonpath_rfc9535_locations/src/query.rs
@@ -32,6 +32,16 @@ impl Query {
     }
 
     pub fn find<'v>(&self, value: &'v Value, env: &'static Environment) -> NodeList<'v> {
+        self.find_from(value, value, env)
+    }
+
+    /// As `find`, for a query that starts at a node of the query argument `root`.
+    pub(crate) fn find_from<'v>(
+        &self,
+        value: &'v Value,
+        root: &'v Value,
+        env: &'static Environment,
+    ) -> NodeList<'v> {
         let root_node = Node {
             value,
             location: ConsList::new(),
@@ -40,7 +50,7 @@ impl Query {
         self.segments
             .iter()
             .fold(vec![root_node], |nodes, segment| {
-                segment.resolve(nodes, env, value)
+                segment.resolve(nodes, env, root)
             })
     }
 
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 1fe7311..94494a0 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -107,8 +107,15 @@ impl Query {
         value: &'a Value,
         env: &'b Environment,
     ) -> Result<NodeList<'a>, JSONPathError> {
-        let context = QueryContext { root: value, env };
+        self.find_from(value, &QueryContext { root: value, env })
+    }
 
+    // As `find`, for a query that starts at a node of the query argument.
+    fn find_from<'a>(
+        &self,
+        value: &'a Value,
+        context: &QueryContext<'a, '_>,
+    ) -> Result<NodeList<'a>, JSONPathError> {
         let root_node = Node {
             value,
             location: String::from("$"),
@@ -117,7 +124,7 @@ impl Query {
         self.segments
             .iter()
             .try_fold(vec![root_node], |nodes, segment| {
-                segment.resolve(nodes, &context)
+                segment.resolve(nodes, context)
             })
     }
 
@@ -605,7 +612,7 @@ impl FilterExpression {
                 }
             }
             FilterExpression::RelativeQuery { query } => Ok(FilterExpressionResult::Nodes(
-                query.find(current, context.env)?,
+                query.find_from(current, context)?,
             )),
             FilterExpression::RootQuery { query } => Ok(FilterExpressionResult::Nodes(
                 query.find(context.root, context.env)?,
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 1b48b8f..89db163 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -114,7 +114,7 @@ impl FilterExpression {
                 }
             }
             FilterExpression::RelativeQuery { query } => {
-                FilterExpressionResult::Nodes(query.find(current, env))
+                FilterExpressionResult::Nodes(query.find_from(current, root, env))
             }
             FilterExpression::RootQuery { query } => {
                 FilterExpressionResult::Nodes(query.find(root, env))
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/query.rs b/crates/jsonpath_rfc9535_singular_selector/src/query.rs
index 6731b81..b884751 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/query.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/query.rs
@@ -32,6 +32,16 @@ impl Query {
     }
 
     pub fn find<'v>(&self, value: &'v Value, env: &'static Environment) -> NodeList<'v> {
+        self.find_from(value, value, env)
+    }
+
+    /// As `find`, for a query that starts at a node of the query argument `root`.
+    pub(crate) fn find_from<'v>(
+        &self,
+        value: &'v Value,
+        root: &'v Value,
+        env: &'static Environment,
+    ) -> NodeList<'v> {
         let root_node = Node {
             value,
             location: ConsList::new(),
@@ -40,7 +50,7 @@ impl Query {
         self.segments
             .iter()
             .fold(vec![root_node], |nodes, segment| {
-                segment.resolve(nodes, env, value)
+                segment.resolve(nodes, env, root)
             })
     }
 
-- 
2.43.0


From 5fe25df8dad33feeb0c7e3f7c7373c0707577ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:58 +0000
Subject: [PATCH 35/36] verif: export the list type when built with --cfg
 verif_hooks

---
 crates/jsonpath_rfc9535_locations/src/lib.rs         | 6 ++++++
 crates/jsonpath_rfc9535_singular_selector/src/lib.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/crates/jsonpath_rfc9535_locations/src/lib.rs b/crates/jsonpath_rfc9535_locations/src/lib.rs
index 42c2148..e88e28d 100644
--- a/crates/jsonpath_rfc9535_locations/src/lib.rs
+++ b/crates/jsonpath_rfc9535_locations/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 mod conslist;
 pub mod env;
 pub mod errors;
@@ -16,3 +18,7 @@ pub use jsonpath::find;
 pub use jsonpath::ENV;
 pub use parser::JSONPathParser;
 pub use query::Query;
+
+// For verification only: the list behind `node::Location`, with any element type.
+#[cfg(verif_hooks)]
+pub use conslist::ConsList;
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/lib.rs b/crates/jsonpath_rfc9535_singular_selector/src/lib.rs
index 42c2148..e88e28d 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/lib.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 mod conslist;
 pub mod env;
 pub mod errors;
@@ -16,3 +18,7 @@ pub use jsonpath::find;
 pub use jsonpath::ENV;
 pub use parser::JSONPathParser;
 pub use query::Query;
+
+// For verification only: the list behind `node::Location`, with any element type.
+#[cfg(verif_hooks)]
+pub use conslist::ConsList;
-- 
2.43.0


From 676fcbf8e464bec5f1e960393b01ef9093bb9c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:46 +0000
Subject: [PATCH 36/36] fix: serde, iter: the least 64-bit integer is an index
 like any other

With a range configured that includes it, taking its absolute value overflowed.
---
 crates/jsonpath_rfc9535_iter/src/selector.rs | 2 +-
 crates/jsonpath_rfc9535_serde/src/ast.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/selector.rs b/crates/jsonpath_rfc9535_iter/src/selector.rs
index 8975fc9..df01156 100644
--- a/crates/jsonpath_rfc9535_iter/src/selector.rs
+++ b/crates/jsonpath_rfc9535_iter/src/selector.rs
@@ -124,7 +124,7 @@ pub fn slice<'a>(
 }
 
 pub fn norm_index(index: i64, length: usize) -> usize {
-    if index < 0 && length >= index.abs() as usize {
+    if index < 0 && length as u64 >= index.unsigned_abs() {
         (length as i64 + index) as usize
     } else {
         index as usize
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 94494a0..e72f5e4 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -932,7 +932,7 @@ fn unpack_result<'a>(
 }
 
 fn norm_index(index: i64, length: usize) -> usize {
-    if index < 0 && length >= index.abs() as usize {
+    if index < 0 && length as u64 >= index.unsigned_abs() {
         (length as i64 + index) as usize
     } else {
         index as usize
-- 
2.43.0

