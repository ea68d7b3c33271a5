From 65c7497bb00d268a1be42bc092b7f942e5881962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 01/98] fix: rotating southwest clockwise by 90 degrees gives
 northwest

---
 crates/dreammaker/src/dmi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/dmi.rs b/crates/dreammaker/src/dmi.rs
index e4b9d6e..dfd3f2b 100644
--- a/crates/dreammaker/src/dmi.rs
+++ b/crates/dreammaker/src/dmi.rs
@@ -172,7 +172,7 @@ impl Dir {
             Dir::Northeast => Dir::Southeast,
             Dir::Northwest => Dir::Northeast,
             Dir::Southeast => Dir::Southwest,
-            Dir::Southwest => Dir::Northeast,
+            Dir::Southwest => Dir::Northwest,
         }
     }
 
-- 
2.43.0


From bc8b49967cf746067ebabb21268251ce2782d2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 02/98] fix: format every finite float correctly rounded to six
 significant digits

---
 crates/dreammaker/src/lexer.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index b077da5..69359a9 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -393,20 +393,20 @@ impl fmt::Display for FormatFloat {
         } else if n == 0.0 {
             f.write_str("0")
         } else {
-            let exp = n.abs().log10().floor();
-            let factor = 10.0f32.powf(5.0 - exp);
-            if exp >= 6.0 || exp <= -5.0 {
-                let n2 = (n * factor).round() * 1.0e-5;
-                let mut precision = 0;
-                while precision < 5
-                    && (n2 * 10.0f32.powi(precision)) != (n2 * 10.0f32.powi(precision)).round()
-                {
-                    precision += 1;
-                }
-                write!(f, "{:.*}e{:+04}", precision as usize, n2, exp)
+            // Six significant digits, correctly rounded; rounding may carry into the exponent.
+            let scientific = format!("{n:.5e}");
+            let (mantissa, exp) = scientific.split_once('e').unwrap_or((&scientific, "0"));
+            let exp: i32 = exp.parse().unwrap_or(0);
+            if !(-4..6).contains(&exp) {
+                let mantissa = mantissa.trim_end_matches('0').trim_end_matches('.');
+                write!(f, "{mantissa}e{exp:+04}")
             } else {
-                let n2 = (n * factor).round() / factor;
-                write!(f, "{n2}")
+                let plain = format!("{n:.*}", (5 - exp) as usize);
+                if plain.contains('.') {
+                    f.write_str(plain.trim_end_matches('0').trim_end_matches('.'))
+                } else {
+                    f.write_str(&plain)
+                }
             }
         }
     }
-- 
2.43.0


From fd90304945cf7cf73e1f791cee4ced906a924c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 03/98] fix: quote strings that contain both "} and @ with a
 terminator they do not contain

---
 crates/dreammaker/src/lexer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index 69359a9..0b449bc 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -362,7 +362,13 @@ pub struct Quote<'a>(pub &'a str);
 impl<'a> fmt::Display for Quote<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         let s = self.0;
-        if s.contains("\"}") {
+        if s.contains("\"}") && s.contains('@') {
+            let mut terminator = "END".to_owned();
+            while s.contains(&terminator) {
+                terminator.push('_');
+            }
+            write!(f, "@({terminator}){s}{terminator}")
+        } else if s.contains("\"}") {
             write!(f, "@@{s}@")
         } else if s.contains('"') || s.contains('\n') {
             write!(f, "{{\"{s}\"}}")
-- 
2.43.0


From 8c01dc91b2f5fbfc6a1c7ad975bfe04dcb931db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 04/98] fix: escape quotes and backslashes when printing
 resource literals

---
 crates/dreammaker/src/constants.rs |  2 +-
 crates/dreammaker/src/lexer.rs     | 18 +++++++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index ad7a611..5aa2a7c 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -421,7 +421,7 @@ impl fmt::Display for Constant {
             },
             Constant::Prefab(ref val) => write!(f, "{val}"),
             Constant::String(ref val) => crate::lexer::Quote(val).fmt(f),
-            Constant::Resource(ref val) => write!(f, "'{val}'"),
+            Constant::Resource(ref val) => crate::lexer::QuoteResource(val).fmt(f),
             Constant::Float(val) => crate::lexer::FormatFloat(val).fmt(f),
         }
     }
diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index 0b449bc..0f7b97c 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -346,7 +346,7 @@ impl fmt::Display for Token {
             InterpStringBegin(ref i) => write!(f, "\"{i}["),
             InterpStringPart(ref i) => write!(f, "]{i}["),
             InterpStringEnd(ref i) => write!(f, "]{i}\""),
-            Resource(ref i) => write!(f, "'{i}'"),
+            Resource(ref i) => QuoteResource(i).fmt(f),
             Int(i) => FormatFloat(i as f32).fmt(f),
             Float(i) => FormatFloat(i).fmt(f),
             DocComment(ref c) => c.fmt(f),
@@ -378,6 +378,22 @@ impl<'a> fmt::Display for Quote<'a> {
     }
 }
 
+/// Formatting helper to quote a resource path, whose escapes HAVE been parsed.
+pub struct QuoteResource<'a>(pub &'a str);
+
+impl<'a> fmt::Display for QuoteResource<'a> {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        f.write_str("'")?;
+        for piece in self.0.split_inclusive(['\'', '\\']) {
+            match piece.strip_suffix(['\'', '\\']) {
+                Some(head) => write!(f, "{head}\\{}", &piece[head.len()..])?,
+                None => f.write_str(piece)?,
+            }
+        }
+        f.write_str("'")
+    }
+}
+
 /// Formatting helper to format a float according to DM's rules.
 pub struct FormatFloat(pub f32);
 
-- 
2.43.0


From 95c13c8fc9e6ccf9a946f465559df2dc8f14c4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 05/98] fix: keep the "as" clause of for-in loops

for(x as mob in L) consumed the input type before choosing the loop form and
then dropped it, so ForListStatement::input_type was always None.
---
 crates/dreammaker/src/parser.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index 77ec4b6..36d9500 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -1724,12 +1724,9 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                     _ => return Err(self.error("for-list must start with variable")),
                 };
 
-                let input_type = if let Some(()) = self.exact_ident("as")? {
-                    // for(var/a as obj
-                    Some(require!(self.input_type()))
-                } else {
-                    None
-                };
+                // for(var/a as obj
+                // the "as" clause has already been consumed above
+                let input_type = key_input_type;
 
                 let in_list = if let Some(()) = self.exact(Token::Punct(Punctuation::In))? {
                     let value = require!(self.expression());
-- 
2.43.0


From 8b25972e840cbea9c7d2d8a57bd0a79b8406890c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 06/98] fix: an explicit closing brace also closes indented
 blocks opened inside it

"if(a) {" NL "for()" NL "return" NL "} else" closed only the innermost indented
block at the brace, so the else was attached to nothing.
---
 crates/dreammaker/src/indents.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/dreammaker/src/indents.rs b/crates/dreammaker/src/indents.rs
index 8487b4b..4e35648 100644
--- a/crates/dreammaker/src/indents.rs
+++ b/crates/dreammaker/src/indents.rs
@@ -19,6 +19,8 @@ pub struct IndentProcessor<'ctx, I> {
     current: Option<(usize, usize)>,
     // The number of spaces/tabs accumulated on the current line. None when not at line head.
     current_spaces: Option<usize>,
+    // The number of indents just inside each explicit brace which is still open.
+    explicit_braces: Vec<usize>,
     parentheses: usize,
     eof_yielded: bool,
 }
@@ -39,6 +41,7 @@ where
             output: VecDeque::new(),
             current: None,
             current_spaces: None,
+            explicit_braces: Vec::new(),
             parentheses: 0,
             eof_yielded: false,
         }
@@ -137,6 +140,8 @@ where
                 },
             }
 
+            self.explicit_braces.retain(|&depth| depth <= new_indents);
+
             if indents + 1 == new_indents {
                 // single indent
                 self.push_eol(Token::Punct(Punctuation::LBrace));
@@ -174,8 +179,16 @@ where
                     None => Some((1, 1)),
                     Some((x, y)) => Some((x, y + 1)),
                 };
+                self.explicit_braces.extend(self.current.map(|(_, y)| y));
             },
             Token::Punct(Punctuation::RBrace) => {
+                // close any indented blocks opened inside these braces
+                if let (Some(depth), Some((x, y))) = (self.explicit_braces.pop(), self.current) {
+                    for _ in depth..y {
+                        self.push_eol(Token::Punct(Punctuation::RBrace));
+                    }
+                    self.current = Some((x, y.min(depth)));
+                }
                 self.current = match self.current {
                     None => {
                         DMError::new(self.last_input_loc, "unmatched right brace")
-- 
2.43.0


From 3a4bd7bfdf8478f2624fb90b75c62aa0da3f6f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 07/98] fix: tolerate stray semicolons after the else arm of a
 switch

They are already tolerated after the other arms; "else;" or "else return;" on the
last line of a file failed to parse.
---
 crates/dreammaker/src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index 36d9500..055cfa0 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -1795,6 +1795,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                     break None;
                 }
             };
+            self.skip_phantom_semicolons()?;
             require!(self.exact(Token::Punct(Punctuation::RBrace)));
             spanned(Statement::Switch {
                 input: Box::new(expr),
-- 
2.43.0


From d7076629daac35e032706e5f7ca35f440434c8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 08/98] fix: report an unmatched right brace after inconsistent
 indentation instead of underflowing

---
 crates/dreammaker/src/indents.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/indents.rs b/crates/dreammaker/src/indents.rs
index 4e35648..d496c64 100644
--- a/crates/dreammaker/src/indents.rs
+++ b/crates/dreammaker/src/indents.rs
@@ -190,7 +190,7 @@ where
                     self.current = Some((x, y.min(depth)));
                 }
                 self.current = match self.current {
-                    None => {
+                    None | Some((_, 0)) => {
                         DMError::new(self.last_input_loc, "unmatched right brace")
                             .register(self.context);
                         None
-- 
2.43.0


From dc1c5bb66eebf66ea05954f90a04f80b84c22373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 09/98] fix: don't evaluate #elif conditions once an earlier
 branch was taken

---
 crates/dreammaker/src/preprocessor.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index daa926b..07a2874 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -618,7 +618,12 @@ impl<'ctx> Preprocessor<'ctx> {
         })
     }
 
-    fn evaluate_inner(&mut self) -> Result<bool, DMError> {
+    fn evaluate_inner(&mut self, reached: bool) -> Result<bool, DMError> {
+        // If we're inside an inactive #if, or an earlier branch of this chain
+        // was taken, don't actually evaluate.
+        // #ifdef FOO -- #if FOO == 5 will error otherwise.
+        let skip = !reached || self.is_disabled();
+
         // pump real_next to fill output until we get a real newline on input
         let start = self.last_input_loc;
         while let Some(tok) = self.inner_next() {
@@ -628,15 +633,15 @@ impl<'ctx> Preprocessor<'ctx> {
                 break;
             }
 
+            if skip {
+                continue;
+            }
             if let Err(e) = self.real_next(tok.token, true) {
                 self.context.register_error(e);
             }
         }
 
-        // If we're inside an inactive #if, don't actually evaluate.
-        // #ifdef FOO -- #if FOO == 5 will error otherwise.
-        if self.is_disabled() {
-            self.output.clear();
+        if skip {
             return Ok(false);
         }
 
@@ -652,9 +657,9 @@ impl<'ctx> Preprocessor<'ctx> {
         )
     }
 
-    fn evaluate(&mut self) -> bool {
+    fn evaluate(&mut self, reached: bool) -> bool {
         // always succeed in order to avoid phantom "unmatched #endif" messages
-        match self.evaluate_inner() {
+        match self.evaluate_inner(reached) {
             Ok(value) => value,
             Err(err) => {
                 self.context.register_error(err);
@@ -792,7 +797,7 @@ impl<'ctx> Preprocessor<'ctx> {
                             .push(Ifdef::new(self.last_input_loc, enabled));
                     },
                     "if" => {
-                        let enabled = self.evaluate();
+                        let enabled = self.evaluate(true);
                         self.ifdef_stack
                             .push(Ifdef::new(self.last_input_loc, enabled));
                     },
@@ -800,7 +805,7 @@ impl<'ctx> Preprocessor<'ctx> {
                         let last = self
                             .pop_ifdef()
                             .ok_or_else(|| DMError::new(self.last_input_loc, "unmatched #elif"))?;
-                        let enabled = self.evaluate();
+                        let enabled = self.evaluate(!last.chain_active);
                         self.ifdef_stack
                             .push(last.else_if(self.last_input_loc, enabled));
                     },
-- 
2.43.0


From 7eb6814198b8471441d75566b5cee6bb076b11f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 10/98] fix: short-circuit && and || in constant expressions

---
 crates/dreammaker/src/constants.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index 5aa2a7c..a94ef1b 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -635,6 +635,12 @@ impl<'a> ConstantFolder<'a> {
             },
             Expression::BinaryOp { op, lhs, rhs } => {
                 let lhs = self.expr(*lhs, None)?;
+                // The right side only matters if the left didn't decide.
+                match op {
+                    BinaryOp::And if !lhs.to_bool() => return Ok(lhs),
+                    BinaryOp::Or if lhs.to_bool() => return Ok(lhs),
+                    _ => {},
+                }
                 let rhs = self.expr(*rhs, None)?;
                 self.binary(lhs, rhs, op)?
             },
-- 
2.43.0


From b1ec7cbfd5ff063b217fc368be36641170bf7fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:42 +0000
Subject: [PATCH 11/98] fix: process the token after an uncalled function macro
 name normally

---
 crates/dreammaker/src/preprocessor.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 07a2874..d6f72a3 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -307,6 +307,8 @@ impl<'ctx> Include<'ctx> {
 #[derive(Debug, Default)]
 struct IncludeStack<'ctx> {
     stack: Vec<Include<'ctx>>,
+    // a token which was read ahead and will be returned next
+    put_back: Option<LocatedToken>,
 }
 
 impl<'ctx> IncludeStack<'ctx> {
@@ -328,6 +330,9 @@ impl<'ctx> Iterator for IncludeStack<'ctx> {
     type Item = LocatedToken;
 
     fn next(&mut self) -> Option<LocatedToken> {
+        if let Some(token) = self.put_back.take() {
+            return Some(token);
+        }
         loop {
             match self.stack.last_mut() {
                 Some(&mut Include::File { ref mut lexer, .. }) => {
@@ -439,6 +444,7 @@ impl<'ctx> Preprocessor<'ctx> {
             env_file,
             include_stack: IncludeStack {
                 stack: vec![include],
+                put_back: None,
             },
             include_locations: Default::default(),
             multiple_locations: Default::default(),
@@ -474,6 +480,7 @@ impl<'ctx> Preprocessor<'ctx> {
             env_file,
             include_stack: IncludeStack {
                 stack: vec![include],
+                put_back: None,
             },
             include_locations: Default::default(),
             multiple_locations: Default::default(),
@@ -1217,13 +1224,9 @@ impl<'ctx> Preprocessor<'ctx> {
                         match next!() {
                             Token::Punct(Punctuation::LParen) => {},
                             other => {
-                                self.push_output(Token::Ident(ident.to_owned(), false));
-                                match other {
-                                    Token::InterpStringBegin(_) => self.in_interp_string += 1,
-                                    Token::InterpStringEnd(_) => self.in_interp_string -= 1,
-                                    _ => {},
-                                }
-                                self.push_output(other);
+                                self.push_output(Token::Ident(ident.to_owned(), whitespace));
+                                self.include_stack.put_back =
+                                    Some(LocatedToken::new(_last_expected_loc, other));
                                 return Ok(());
                             },
                         }
-- 
2.43.0


From ff40d10357f7b29dfe67de9f18710e66c2137c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:01 +0000
Subject: [PATCH 12/98] fix: paste integers onto identifiers in macros

---
 crates/dreammaker/src/preprocessor.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index d6f72a3..80e33d2 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -1325,6 +1325,13 @@ impl<'ctx> Preprocessor<'ctx> {
                                                 ws,
                                             )),
                                         },
+                                        (
+                                            Some(Token::Ident(first, _)),
+                                            Some(Token::Int(second)),
+                                        ) => expansion.push_back(Token::Ident(
+                                            format!("{first}{second}").into(),
+                                            false,
+                                        )),
                                         (non_ident_first, Some(Token::Ident(second, ws))) => {
                                             expansion.extend(non_ident_first);
                                             match params.iter().position(|x| *x == second) {
-- 
2.43.0


From 36a4f08714b964e15014215e620d02619444e1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 13/98] fix: line breaks inside macro call arguments don't end
 the statement

---
 crates/dreammaker/src/preprocessor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 80e33d2..400de65 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -1256,6 +1256,8 @@ impl<'ctx> Preprocessor<'ctx> {
                                     args.push(this_arg);
                                     this_arg = Vec::new();
                                 },
+                                // line breaks between the parens don't matter
+                                ref tok if tok.is_whitespace() => {},
                                 _ => this_arg.push(token),
                             }
                         }
-- 
2.43.0


From d7f8433c346faedfbe02b83f039065f3199b9e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:48 +0000
Subject: [PATCH 14/98] fix: an empty macro argument before ## doesn't paste
 onto the token before it

---
 crates/dreammaker/src/preprocessor.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 400de65..d280aa4 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -1280,7 +1280,12 @@ impl<'ctx> Preprocessor<'ctx> {
                         // paste them into the expansion
                         let mut expansion = VecDeque::new();
                         let mut input = subst.iter().cloned();
+                        // where the most recent operand begins in the expansion
+                        let mut operand = 0;
                         while let Some(token) = input.next() {
+                            if token != Token::Punct(Punctuation::TokenPaste) {
+                                operand = expansion.len();
+                            }
                             match token {
                                 // just an ident = expand it
                                 Token::Ident(ident, ws) => {
@@ -1291,7 +1296,13 @@ impl<'ctx> Preprocessor<'ctx> {
                                 },
                                 // token paste = concat two idents together, if at all possible
                                 Token::Punct(Punctuation::TokenPaste) => {
-                                    match (expansion.pop_back(), input.next()) {
+                                    // an empty argument leaves nothing to paste onto
+                                    let first = if expansion.len() > operand {
+                                        expansion.pop_back()
+                                    } else {
+                                        None
+                                    };
+                                    match (first, input.next()) {
                                         (
                                             Some(Token::Ident(first, ws1)),
                                             Some(Token::Ident(param_name, ws)),
-- 
2.43.0


From cec70ea9d6acd870899f4fe7f91950eb545d35f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:48 +0000
Subject: [PATCH 15/98] fix: stray end of an interpolated string underflowed a
 counter in the preprocessor

---
 crates/dreammaker/src/preprocessor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index d280aa4..6cf32a2 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -1419,7 +1419,9 @@ impl<'ctx> Preprocessor<'ctx> {
                 }
             },
             Token::InterpStringBegin(_) => self.in_interp_string += 1,
-            Token::InterpStringEnd(_) => self.in_interp_string -= 1,
+            Token::InterpStringEnd(_) => {
+                self.in_interp_string = self.in_interp_string.saturating_sub(1);
+            },
             // documentation is accumulated, and flushed if no #define follows
             Token::DocComment(doc) if doc.target == DocTarget::FollowingItem => {
                 self.docs_in.push_back((self.last_input_loc, doc));
-- 
2.43.0


From 99f62475eb9f58a8fa4987284e0fdc67ef12b520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:48 +0000
Subject: [PATCH 16/98] fix: branch_at_end includes macros defined in included
 files

---
 crates/dreammaker/src/preprocessor.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 6cf32a2..25710b3 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -132,6 +132,15 @@ impl DefineHistory {
 
     /// Branch a child preprocessor from this preprocessor's current state.
     pub fn branch_at_end<'ctx2>(&self, context: &'ctx2 Context) -> Preprocessor<'ctx2> {
+        // The last location read belongs to the environment file, which sorts
+        // before the files it includes. Use one which is after all of them but
+        // before the ends assigned by `finalize`.
+        let end = Location {
+            file: FileId::default(),
+            line: !0,
+            column: 0,
+        };
+
         Preprocessor {
             context,
             env_file: self.env_file.clone(),
@@ -139,7 +148,7 @@ impl DefineHistory {
             include_locations: Default::default(),
             multiple_locations: Default::default(),
             history: Default::default(), // TODO: support branching a second time
-            defines: DefineMap::from_history(self, self.last_input_loc),
+            defines: DefineMap::from_history(self, end),
             maps: Default::default(),
             skins: Default::default(),
             scripts: Default::default(),
-- 
2.43.0


From 8e33fdc4d55ba3e7d62c0a7943d7b950bbfa2cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 17/98] fix: recognise already included files by any spelling,
 including the environment file

---
 crates/dreammaker/src/preprocessor.rs | 40 +++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 25710b3..0769fa2 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -2,7 +2,7 @@
 use std::borrow::Cow;
 use std::collections::VecDeque;
 use std::fs::File;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::rc::Rc;
 use std::{fmt, io};
 
@@ -313,6 +313,23 @@ impl<'ctx> Include<'ctx> {
     }
 }
 
+/// Resolve the `.` and `..` components of a path without consulting the filesystem.
+fn normalize_path(path: &Path) -> PathBuf {
+    let mut result = PathBuf::new();
+    for component in path.components() {
+        match component {
+            Component::CurDir => {},
+            Component::ParentDir
+                if matches!(result.components().next_back(), Some(Component::Normal(_))) =>
+            {
+                result.pop();
+            },
+            other => result.push(other),
+        }
+    }
+    result
+}
+
 #[derive(Debug, Default)]
 struct IncludeStack<'ctx> {
     stack: Vec<Include<'ctx>>,
@@ -448,6 +465,13 @@ impl<'ctx> Preprocessor<'ctx> {
         // to load and locking it for the whole time is somewhat inconvenient.
         let include = Include::from_path(context, env_file.clone())?;
 
+        // The environment file counts as already included.
+        let env_start = Location {
+            file: context.register_file(&env_file),
+            line: 1,
+            column: 1,
+        };
+
         Ok(Preprocessor {
             context,
             env_file,
@@ -455,7 +479,7 @@ impl<'ctx> Preprocessor<'ctx> {
                 stack: vec![include],
                 put_back: None,
             },
-            include_locations: Default::default(),
+            include_locations: HashMap::from_iter([(env_start.file, env_start)]),
             multiple_locations: Default::default(),
             history: Default::default(),
             defines: DefineMap::with_builtins(),
@@ -712,9 +736,15 @@ impl<'ctx> Preprocessor<'ctx> {
         })?);
 
         // Get the path relative to the environment root, for easy lookup later.
-        let register = path
-            .strip_prefix(self.env_file.parent().unwrap())
-            .unwrap_or(&path);
+        // Different spellings of a path (`a/../b.dm`) are the same file.
+        let normal = normalize_path(&path);
+        let register = if normal == normalize_path(&self.env_file) {
+            &self.env_file
+        } else {
+            normal
+                .strip_prefix(normalize_path(self.env_file.parent().unwrap()))
+                .unwrap_or(&normal)
+        };
 
         // Make sure the file hasn't already been included.
         // All DM source is effectively `#pragma once`.
-- 
2.43.0


From 3f918853b31040ba9c6a022922c7c7348a212310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 18/98] fix: trigonometric built-ins take and return degrees

---
 crates/dreammaker/src/constants.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index a94ef1b..85eafcd 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -858,10 +858,11 @@ impl<'a> ConstantFolder<'a> {
                 "generator" => Constant::Call(ConstFn::Generator, self.arguments(args)?),
                 "vector" => Constant::Call(ConstFn::Vector, self.arguments(args)?),
                 // constant-evaluatable functions
-                "sin" => self.trig_op(args, f32::sin)?,
-                "cos" => self.trig_op(args, f32::cos)?,
-                "arcsin" => self.trig_op(args, f32::asin)?,
-                "arccos" => self.trig_op(args, f32::acos)?,
+                // (angles are in degrees)
+                "sin" => self.trig_op(args, |x| x.to_radians().sin())?,
+                "cos" => self.trig_op(args, |x| x.to_radians().cos())?,
+                "arcsin" => self.trig_op(args, |x| x.asin().to_degrees())?,
+                "arccos" => self.trig_op(args, |x| x.acos().to_degrees())?,
                 "rgb" => Constant::String(self.rgb(args)?.into()),
                 "defined" if self.defines.is_some() => {
                     let defines = self.defines.unwrap(); // annoying, but keeps the match clean
-- 
2.43.0


From 8727138f8fb20585f48e6b81c22f2ad998fd99c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:13 +0000
Subject: [PATCH 19/98] fix: rgb() takes named components by name, reports
 missing ones

---
 crates/dreammaker/src/constants.rs | 39 +++++++++++++++++-------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index 85eafcd..5cdf314 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -1119,7 +1119,6 @@ impl<'a> ConstantFolder<'a> {
             l: bool,
             c: bool,
             y: bool,
-            a: Option<i32>,
         }
 
         if args.len() != 3 && args.len() != 4 && args.len() != 5 {
@@ -1148,7 +1147,7 @@ impl<'a> ConstantFolder<'a> {
                         "l" | "luminance" => color_args.l = true,
                         "c" | "chroma" => color_args.c = true,
                         "y" => color_args.y = true,
-                        "a" | "alpha" => color_args.a = kwarg_value.to_int(),
+                        "a" | "alpha" => {},
                         "space" => match kwarg_value.to_int() {
                             // Do we have an actual colorspace specified? Set the values.
                             Some(0) => space = Some(ColorSpace::Rgb),
@@ -1202,10 +1201,12 @@ impl<'a> ConstantFolder<'a> {
             ColorSpace::Rgb // Default
         };
 
-        let mut value_vec: Vec<f64> = vec![];
+        // The three components in the order of the color space, then alpha.
+        let mut slots: [Option<i32>; 4] = [None; 4];
 
         for (arg_pos, (value, potential_kwarg_value)) in arguments.iter().enumerate() {
             let mut to_check = value;
+            let mut slot = arg_pos;
 
             // Determines the range based on predetermined colorspace
             let mut range = match arg_pos {
@@ -1249,6 +1250,13 @@ impl<'a> ConstantFolder<'a> {
                                 .error(format!("malformed rgb() call, bad kwarg passed: {kwarg}")));
                         },
                     };
+
+                    slot = match kwarg {
+                        "r" | "red" | "h" | "hue" => 0,
+                        "g" | "green" | "s" | "saturation" | "c" | "chroma" => 1,
+                        "a" | "alpha" => 3,
+                        _ => 2,
+                    };
                 } else {
                     return Err(self.error(format!(
                         "malformed rgb() call, kwarg is not string: {value}"
@@ -1268,30 +1276,27 @@ impl<'a> ConstantFolder<'a> {
                         .set_severity(Severity::Warning)
                         .with_location(self.location));
                 }
-                let clamped = std::cmp::max(::std::cmp::min(i, *range.end()), *range.start());
-                value_vec.push(clamped.into());
+                if let Some(slot) = slots.get_mut(slot) {
+                    *slot = Some(i);
+                }
             } else {
                 return Err(self.error("malformed rgb() call, value wasn't an int"));
             }
         }
 
-        assert!(value_vec.len() >= 3); // Make sure we got 3+ values
+        let [Some(first), Some(second), Some(third), alpha] = slots else {
+            return Err(self.error("malformed rgb() call, missing a color component"));
+        };
+        let [first, second, third] = [first, second, third].map(f64::from);
 
         // Convert our color given a space to a rgb hexcode
         let color: Rgb = match space {
-            ColorSpace::Rgb => Rgb::new(value_vec[0], value_vec[1], value_vec[2]),
-            ColorSpace::Hsv => {
-                Hsv::new(value_vec[0], value_vec[1] * 0.01, value_vec[2] * 0.01).into()
-            },
-            ColorSpace::Hsl => {
-                Hsl::new(value_vec[0], value_vec[1] * 0.01, value_vec[2] * 0.01).into()
-            },
-            ColorSpace::Hcy => Lch::new(value_vec[2], value_vec[1], value_vec[0]).into(),
+            ColorSpace::Rgb => Rgb::new(first, second, third),
+            ColorSpace::Hsv => Hsv::new(first, second * 0.01, third * 0.01).into(),
+            ColorSpace::Hsl => Hsl::new(first, second * 0.01, third * 0.01).into(),
+            ColorSpace::Hcy => Lch::new(third, second, first).into(),
         };
 
-        // Extract the raw 4th alpha positional argument if it wasn't a kwarg
-        let alpha = color_args.a.or_else(|| value_vec.get(3).map(|&x| x as i32));
-
         // APPARENTLY the author thinks fractional rgb is a thing, hence the rounding
         if let Some(alpha) = alpha {
             Ok(format!(
-- 
2.43.0


From 0b52c11f7e28249bf4d364e2a3faeec990ce7c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 20/98] fix: non-const variables are rejected in constants
 whatever the evaluation order

---
 crates/dreammaker/src/constants.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index 5cdf314..336520b 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -547,6 +547,17 @@ fn constant_ident_lookup(
             None => return Ok(ConstLookup::Continue(parent)),
             Some(var) => match var.value.constant.clone() {
                 Some(constant) => {
+                    // Whether it may be used must not depend on whether it
+                    // happened to be evaluated already.
+                    if var.value.expression.is_some()
+                        && !decl.var_type.flags.is_const()
+                        && must_be_const
+                    {
+                        return Err(DMError::new(
+                            var.value.location,
+                            format!("non-const variable: {ident}"),
+                        ));
+                    }
                     return Ok(ConstLookup::Found(
                         /*decl.var_type.type_path,*/ constant,
                     ));
-- 
2.43.0


From 130850871ed0e6c9b3c2d16399625347d1fb9d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 21/98] fix: a variable whose evaluation failed is not mistaken
 for a recursive one

---
 crates/dreammaker/src/constants.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index 336520b..28ea057 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -607,11 +607,12 @@ fn constant_ident_lookup(
         } else {
             Some(&type_hint)
         },
-    )?;
+    );
     // and store it into 'value', then return it
     let var = tree[ty].vars.get_mut(ident).unwrap();
-    var.value.constant = Some(value.clone());
     var.value.being_evaluated = false;
+    let value = value?;
+    var.value.constant = Some(value.clone());
     Ok(ConstLookup::Found(/*type_hint,*/ value))
 }
 
-- 
2.43.0


From 887dcd2ab6ea12dc0d316fd4fc014d4b1fbacbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:29 +0000
Subject: [PATCH 22/98] fix: typed and untyped nulls compare equal in constants

---
 crates/dreammaker/src/constants.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index 28ea057..fe796ed 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -832,6 +832,9 @@ impl<'a> ConstantFolder<'a> {
             (BinaryOp::Add, String(lhs), String(rhs)) => {
                 Ok(String((lhs.into_owned() + &rhs).into()))
             },
+            // A null is a null whatever type its variable was declared with.
+            (BinaryOp::Eq, Constant::Null(_), Constant::Null(_)) => Ok(Constant::from(true)),
+            (BinaryOp::NotEq, Constant::Null(_), Constant::Null(_)) => Ok(Constant::from(false)),
             (BinaryOp::Eq, lhs, rhs) => Ok(Constant::from(lhs == rhs)),
             (BinaryOp::NotEq, lhs, rhs) => Ok(Constant::from(lhs != rhs)),
             (BinaryOp::And, lhs, rhs) => Ok(if lhs.to_bool() { rhs } else { lhs }),
-- 
2.43.0


From 7da19c87743e87e9183ea48f0b0d5eb44b4a2222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:35 +0000
Subject: [PATCH 23/98] fix: an escaped backslash at the end of a string in a
 map doesn't escape the quote

---
 crates/dmm-tools/src/dmm/read.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index a1766d2..62734f8 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -89,14 +89,14 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
         if in_data_block {
             if in_varedit_block {
                 if in_quote_block {
-                    if ch == b'\\' {
+                    if escaping {
                         set_curr_datum_start_location!();
                         curr_datum.push(ch);
-                        escaping = true;
-                    } else if escaping {
+                        escaping = false;
+                    } else if ch == b'\\' {
                         set_curr_datum_start_location!();
                         curr_datum.push(ch);
-                        escaping = false;
+                        escaping = true;
                     } else if ch == b'"' {
                         set_curr_datum_start_location!();
                         curr_datum.push(ch);
-- 
2.43.0


From d1ea48043b2f419c1dd1fb29870e57820ec8ea81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:35 +0000
Subject: [PATCH 24/98] fix: quotes, braces, semicolons and slashes in resource
 names in a map

---
 crates/dmm-tools/src/dmm/read.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index 62734f8..ead39aa 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -26,6 +26,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     let mut curr_key_length = 0;
 
     let mut in_quote_block = false;
+    let mut quote = b'"';
     let mut in_key_block = false;
     let mut in_data_block = false;
     let mut in_varedit_block = false;
@@ -97,7 +98,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                         set_curr_datum_start_location!();
                         curr_datum.push(ch);
                         escaping = true;
-                    } else if ch == b'"' {
+                    } else if ch == quote {
                         set_curr_datum_start_location!();
                         curr_datum.push(ch);
                         in_quote_block = false;
@@ -113,10 +114,11 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                     }
                     skip_whitespace = false;
 
-                    if ch == b'"' {
+                    if ch == b'"' || ch == b'\'' {
                         set_curr_datum_start_location!();
                         curr_datum.push(ch);
                         in_quote_block = true;
+                        quote = ch;
                     } else if ch == b'=' && curr_var.is_empty() {
                         curr_var = take(&mut curr_datum);
                         let mut length = curr_var.len();
-- 
2.43.0


From a73a01f70dcee74f0ff2846fb7c922bc78835a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:35 +0000
Subject: [PATCH 25/98] fix: variable values in a map may hold paths which have
 variables of their own

---
 crates/dmm-tools/src/dmm/read.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index ead39aa..25086f3 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -30,6 +30,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     let mut in_key_block = false;
     let mut in_data_block = false;
     let mut in_varedit_block = false;
+    let mut nested_braces = 0usize;
     let mut after_data_block = false;
     let mut escaping = false;
     let mut skip_whitespace = false;
@@ -127,6 +128,16 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                         }
                         curr_var.truncate(length);
                         skip_whitespace = true;
+                    } else if ch == b'{' {
+                        // variables of a path within the value
+                        set_curr_datum_start_location!();
+                        curr_datum.push(ch);
+                        nested_braces += 1;
+                    } else if nested_braces > 0 && matches!(ch, b';' | b'}') {
+                        curr_datum.push(ch);
+                        if ch == b'}' {
+                            nested_braces -= 1;
+                        }
                     } else if ch == b';' {
                         insert_current_var!();
                         skip_whitespace = true;
-- 
2.43.0


From e2336584ead659bbd8156902cfad2e0fbee3b9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:35 +0000
Subject: [PATCH 26/98] fix: keep tabs in strings in a map

---
 crates/dmm-tools/src/dmm/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index 25086f3..737c393 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -73,7 +73,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
             continue;
         } else if in_comment_line {
             continue;
-        } else if ch == b'\t' {
+        } else if ch == b'\t' && !in_quote_block {
             continue;
         }
 
-- 
2.43.0


From d6a3d7d80a66c040405d80532f520313ba6d4df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:30 +0000
Subject: [PATCH 27/98] fix: strings whose quotes are escaped are printed as
 ordinary strings

---
 crates/dreammaker/src/lexer.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index 0f7b97c..eae33d4 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -362,7 +362,16 @@ pub struct Quote<'a>(pub &'a str);
 impl<'a> fmt::Display for Quote<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         let s = self.0;
-        if s.contains("\"}") && s.contains('@') {
+        let mut escaped = false;
+        let plain = s.bytes().all(|b| {
+            let delimiter = b == b'\n' || b == b'"' && !escaped;
+            escaped = b == b'\\' && !escaped;
+            !delimiter
+        });
+        if plain {
+            // also when it contains quotes, if those are escaped already
+            write!(f, "\"{s}\"")
+        } else if s.contains("\"}") && s.contains('@') {
             let mut terminator = "END".to_owned();
             while s.contains(&terminator) {
                 terminator.push('_');
@@ -370,10 +379,8 @@ impl<'a> fmt::Display for Quote<'a> {
             write!(f, "@({terminator}){s}{terminator}")
         } else if s.contains("\"}") {
             write!(f, "@@{s}@")
-        } else if s.contains('"') || s.contains('\n') {
-            write!(f, "{{\"{s}\"}}")
         } else {
-            write!(f, "\"{s}\"")
+            write!(f, "{{\"{s}\"}}")
         }
     }
 }
-- 
2.43.0


From 6e4177aaf9a89c310971f5446ba3c08189461221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:56 +0000
Subject: [PATCH 28/98] fix: malformed maps are reported instead of panicking
 or exhausting memory

---
 crates/dmm-tools/src/dmm.rs      | 11 ++++---
 crates/dmm-tools/src/dmm/read.rs | 54 ++++++++++++++++++++++++++++----
 2 files changed, 55 insertions(+), 10 deletions(-)

diff --git a/crates/dmm-tools/src/dmm.rs b/crates/dmm-tools/src/dmm.rs
index f1b1647..a4be23b 100644
--- a/crates/dmm-tools/src/dmm.rs
+++ b/crates/dmm-tools/src/dmm.rs
@@ -382,10 +382,13 @@ impl fmt::Display for FormatKey {
             panic!("Attempted to format an out-of-range key");
         }
 
-        let mut current = 52usize.pow(key_length as u32 - 1);
-        for _ in 0..key_length {
-            f.write_char(BASE_52[(key as usize / current) % 52] as char)?;
-            current /= 52;
+        for place in (0..key_length).rev() {
+            // places which can't be reached by the largest key are zero
+            let digit = match 52usize.checked_pow(place as u32) {
+                Some(unit) => (key as usize / unit) % 52,
+                None => 0,
+            };
+            f.write_char(BASE_52[digit] as char)?;
         }
 
         Ok(())
diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index 737c393..d34624b 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -177,14 +177,22 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
         } else if in_key_block {
             if ch == b'"' {
                 in_key_block = false;
-                assert!(map.key_length == 0 || map.key_length == curr_key_length);
+                if map.key_length != 0 && map.key_length != curr_key_length {
+                    return Err(DMError::new(
+                        chars.location(),
+                        format!(
+                            "key has length {curr_key_length}, others have {}",
+                            map.key_length
+                        ),
+                    ));
+                }
                 map.key_length = curr_key_length;
             } else {
                 if curr_key == 0 {
                     curr_key_start_location = chars.location();
                 }
                 curr_key = advance_key(chars.location(), curr_key, ch)?;
-                curr_key_length += 1;
+                curr_key_length = advance_key_length(chars.location(), curr_key_length)?;
             }
         } else if ch == b'"' {
             in_key_block = true;
@@ -194,6 +202,8 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                 curr_key = 0;
                 curr_key_length = 0;
                 break; // go to grid parsing
+            } else if curr_key_length == 0 {
+                return Err(DMError::new(chars.location(), "entry without a key"));
             } else {
                 in_data_block = true;
                 after_data_block = false;
@@ -239,14 +249,28 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                     ));
                 }
             } else if ch == b')' {
-                assert_eq!(reading_coord, Coord::Z);
+                if reading_coord != Coord::Z {
+                    return Err(DMError::new(
+                        chars.location(),
+                        "Incorrect number of coordinates",
+                    ));
+                }
                 curr_z = take(&mut curr_num);
                 max_z = max(max_z, curr_z);
                 in_coord_block = false;
                 reading_coord = Coord::X;
             } else {
                 match (ch as char).to_digit(10) {
-                    Some(x) => curr_num = 10 * curr_num + x as usize,
+                    Some(x) => {
+                        // coordinates are far smaller than this
+                        curr_num = 10 * curr_num + x as usize;
+                        if curr_num > i32::MAX as usize {
+                            return Err(DMError::new(
+                                chars.location(),
+                                "map coordinate is too large",
+                            ));
+                        }
+                    },
                     None => {
                         return Err(DMError::new(
                             chars.location(),
@@ -259,7 +283,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
             if ch == b'"' {
                 in_map_string = false;
                 adjust_y = true;
-                curr_y -= 1;
+                curr_y = curr_y.saturating_sub(1);
             } else if ch == b'\r' {
                 // nothing
             } else if ch == b'\n' {
@@ -271,7 +295,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                 curr_x = base_x;
             } else {
                 curr_key = advance_key(chars.location(), curr_key, ch)?;
-                curr_key_length += 1;
+                curr_key_length = advance_key_length(chars.location(), curr_key_length)?;
                 if curr_key_length == map.key_length {
                     let key = take(&mut curr_key);
                     curr_key_length = 0;
@@ -293,6 +317,18 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     }
     max_y = max(max_y, curr_y);
 
+    // Don't make room for tiles that the file can't have.
+    if max_x
+        .checked_mul(max_y)
+        .and_then(|n| n.checked_mul(max_z))
+        .is_none_or(|n| n > grid.len())
+    {
+        return Err(DMError::new(
+            chars.location(),
+            format!("not every tile up to ({max_x}, {max_y}, {max_z}) has a value"),
+        ));
+    }
+
     let mut result = Ok(());
     map.grid = Array3::from_shape_fn((max_z, max_y, max_x), |(z, y, x)| {
         if let Some(&tile) = grid.get(&(x + 1, y + 1, z + 1)) {
@@ -318,3 +354,9 @@ fn advance_key(loc: Location, curr_key: KeyType, ch: u8) -> Result<KeyType, DMEr
         },
     }
 }
+
+fn advance_key_length(loc: Location, length: u8) -> Result<u8, DMError> {
+    length
+        .checked_add(1)
+        .ok_or_else(|| DMError::new(loc, "key is too long"))
+}
-- 
2.43.0


From ae817addfe31c7b2e2e32efca63e23846affdad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:00 +0000
Subject: [PATCH 29/98] fix: compositing translucent pixels no longer overflows
 color channels

---
 crates/dmm-tools/src/dmi.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/dmm-tools/src/dmi.rs b/crates/dmm-tools/src/dmi.rs
index 8326c69..3d0eaa7 100644
--- a/crates/dmm-tools/src/dmi.rs
+++ b/crates/dmm-tools/src/dmi.rs
@@ -212,19 +212,21 @@ impl Image {
 
                 // out_A = src_A + dst_A (1 - src_A)
                 // out_RGB = (src_RGB src_A + dst_RGB dst_A (1 - src_A)) / out_A
-                let out_a = src_tint.a + mul255(dst.a, 255 - src_tint.a);
+                // With both alphas in 0..=255, out_A is in 0..=255*255 and exact.
+                let out_a =
+                    src_tint.a as u32 * 255 + dst.a as u32 * (255 - src_tint.a as u32);
                 if out_a != 0 {
                     for i in 0..3 {
-                        dst[i] = ((src_tint[i] as u32 * src_tint.a as u32
-                            + dst[i] as u32 * dst.a as u32 * (255 - src_tint.a as u32) / 255)
-                            / out_a as u32) as u8;
+                        dst[i] = ((src_tint[i] as u32 * src_tint.a as u32 * 255
+                            + dst[i] as u32 * dst.a as u32 * (255 - src_tint.a as u32))
+                            / out_a) as u8;
                     }
                 } else {
                     for i in 0..3 {
                         dst[i] = 0;
                     }
                 }
-                dst.a = out_a;
+                dst.a = (out_a / 255) as u8;
             }
         }
     }
-- 
2.43.0


From 986449cbf62fa2a4913b2dd2e9569bea87e3da56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:19 +0000
Subject: [PATCH 30/98] fix: malformed icon metadata is reported instead of
 panicking, quoted state names are read

---
 crates/dreammaker/src/dmi.rs | 71 ++++++++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 20 deletions(-)

diff --git a/crates/dreammaker/src/dmi.rs b/crates/dreammaker/src/dmi.rs
index dfd3f2b..1ad85d4 100644
--- a/crates/dreammaker/src/dmi.rs
+++ b/crates/dreammaker/src/dmi.rs
@@ -435,17 +435,16 @@ fn parse_metadata(data: &str) -> io::Result<Metadata> {
         if line.starts_with("# END DMI") {
             break;
         }
-        let (key, value) = line.trim().split_once(" = ").unwrap();
+        let (key, value) = line.trim().split_once(" = ").ok_or_else(|| invalid(line))?;
         match key {
-            "width" => metadata.width = value.parse().unwrap(),
-            "height" => metadata.height = value.parse().unwrap(),
+            "width" => metadata.width = parse_value(line, value)?,
+            "height" => metadata.height = parse_value(line, value)?,
             "state" => {
                 if let Some(state) = state.take() {
                     frames_so_far += state.frames.count() * state.dirs.count();
                     metadata.states.push(state);
                 }
-                let unquoted = value[1..value.len() - 1].to_owned(); // TODO: unquote
-                assert!(!unquoted.contains('\\') && !unquoted.contains('"'));
+                let unquoted = unquote(value).ok_or_else(|| invalid(line))?;
 
                 let count = duplicate_map.entry(unquoted.clone()).or_insert(0);
 
@@ -473,30 +472,29 @@ fn parse_metadata(data: &str) -> io::Result<Metadata> {
                 *count += 1;
             },
             "dirs" => {
-                let state = state.as_mut().unwrap();
-                let n: u8 = value.parse().unwrap();
+                let state = state.as_mut().ok_or_else(|| invalid(line))?;
+                let n: u8 = parse_value(line, value)?;
                 state.dirs = match n {
                     1 => Dirs::One,
                     4 => Dirs::Four,
                     8 => Dirs::Eight,
-                    _ => panic!(),
+                    _ => return Err(invalid(line)),
                 };
             },
             "frames" => {
-                let state = state.as_mut().unwrap();
+                let state = state.as_mut().ok_or_else(|| invalid(line))?;
                 match state.frames {
                     Frames::One => {},
-                    _ => panic!(),
+                    _ => return Err(invalid(line)),
                 }
-                state.frames = Frames::Count(value.parse().unwrap());
+                state.frames = Frames::Count(parse_value::<u32>(line, value)? as usize);
             },
             "delay" => {
-                let state = state.as_mut().unwrap();
+                let state = state.as_mut().ok_or_else(|| invalid(line))?;
                 let mut vector: Vec<f32> = value
                     .split(',')
-                    .map(str::parse)
-                    .collect::<Result<Vec<_>, _>>()
-                    .unwrap();
+                    .map(|delay| parse_value(line, delay))
+                    .collect::<Result<Vec<_>, _>>()?;
                 match state.frames {
                     Frames::One => {
                         if vector.iter().all(|&n| n == 1.) {
@@ -511,14 +509,23 @@ fn parse_metadata(data: &str) -> io::Result<Metadata> {
                             state.frames = Frames::Delays(vector);
                         }
                     },
-                    Frames::Delays(_) => panic!(),
+                    Frames::Delays(_) => return Err(invalid(line)),
                 }
             },
-            "loop" => state.as_mut().unwrap().loop_ = value.parse().unwrap(),
-            "rewind" => state.as_mut().unwrap().rewind = value.parse::<u8>().unwrap() != 0,
+            "loop" => {
+                let state = state.as_mut().ok_or_else(|| invalid(line))?;
+                state.loop_ = parse_value(line, value)?;
+            },
+            "rewind" => {
+                let state = state.as_mut().ok_or_else(|| invalid(line))?;
+                state.rewind = parse_value::<u8>(line, value)? != 0;
+            },
             "hotspot" => { /* TODO */ },
-            "movement" => state.as_mut().unwrap().movement = value.parse::<u8>().unwrap() != 0,
-            _ => panic!(),
+            "movement" => {
+                let state = state.as_mut().ok_or_else(|| invalid(line))?;
+                state.movement = parse_value::<u8>(line, value)? != 0;
+            },
+            _ => return Err(invalid(line)),
         }
     }
     metadata.states.extend(state);
@@ -526,6 +533,30 @@ fn parse_metadata(data: &str) -> io::Result<Metadata> {
     Ok(metadata)
 }
 
+fn invalid(line: &str) -> io::Error {
+    io::Error::new(
+        io::ErrorKind::InvalidData,
+        format!("Invalid line in dmi metadata: {line:?}"),
+    )
+}
+
+fn parse_value<T: std::str::FromStr>(line: &str, value: &str) -> io::Result<T> {
+    value.parse().map_err(|_| invalid(line))
+}
+
+fn unquote(value: &str) -> Option<String> {
+    let mut chars = value.strip_prefix('"')?.strip_suffix('"')?.chars();
+    let mut out = String::new();
+    while let Some(ch) = chars.next() {
+        match ch {
+            '\\' => out.push(chars.next()?),
+            '"' => return None,
+            ch => out.push(ch),
+        }
+    }
+    Some(out)
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From 7e21ef2fce9479b667d9279cbc48aafa897fac71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:40 +0000
Subject: [PATCH 31/98] fix: unanchored objects were smoothed with their
 neighbours

---
 crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs | 3 ++-
 crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs b/crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs
index aff702f..456d8c5 100644
--- a/crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs
+++ b/crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs
@@ -103,7 +103,8 @@ fn calculate_adjacencies(
 ) -> i32 {
     // Easier to read as a nested conditional
     #[allow(clippy::collapsible_if)]
-    if atom.istype("/atom/movable/") {
+    // The typepaths of movables don't start with the path of their parent.
+    if atom.istype("/atom/movable/") || atom.istype("/obj/") || atom.istype("/mob/") {
         if atom.get_var("can_be_unanchored", objtree).to_bool()
             && !atom.get_var("anchored", objtree).to_bool()
         {
diff --git a/crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs b/crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs
index bcdcaba..ba5003a 100644
--- a/crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs
+++ b/crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs
@@ -92,7 +92,8 @@ fn calculate_adjacencies(
 ) -> i32 {
     // Easier to read as a nested conditional
     #[allow(clippy::collapsible_if)]
-    if atom.istype("/atom/movable/") {
+    // The typepaths of movables don't start with the path of their parent.
+    if atom.istype("/atom/movable/") || atom.istype("/obj/") || atom.istype("/mob/") {
         if atom.get_var("can_be_unanchored", objtree).to_bool()
             && !atom.get_var("anchored", objtree).to_bool()
         {
-- 
2.43.0


From 081d7331eb997e1fe415dc89ce023137f3afbf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:40 +0000
Subject: [PATCH 32/98] fix: a tiny negative layer was sorted as -1

---
 crates/dmm-tools/src/minimap.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/dmm-tools/src/minimap.rs b/crates/dmm-tools/src/minimap.rs
index 947c542..6de3714 100644
--- a/crates/dmm-tools/src/minimap.rs
+++ b/crates/dmm-tools/src/minimap.rs
@@ -461,7 +461,8 @@ impl From<f32> for Layer {
     fn from(f: f32) -> Layer {
         Layer {
             whole: f.floor() as i16,
-            frac: ((f.fract() + 1.).fract() * 65536.) as u16,
+            // saturates where the fraction rounds up to 1
+            frac: ((f - f.floor()) * 65536.) as u16,
         }
     }
 }
-- 
2.43.0


From 0cd200a4d80683ec7ba57e5aac53301015a9a820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:18 +0000
Subject: [PATCH 33/98] fix: a long hexadecimal colour overflowed

---
 crates/dmm-tools/src/minimap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dmm-tools/src/minimap.rs b/crates/dmm-tools/src/minimap.rs
index 6de3714..f4f54ac 100644
--- a/crates/dmm-tools/src/minimap.rs
+++ b/crates/dmm-tools/src/minimap.rs
@@ -566,7 +566,7 @@ pub fn color_of<'s, T: GetVar<'s> + ?Sized>(objtree: &'s ObjectTree, atom: &T) -
         Constant::String(ref color) if color.starts_with('#') => {
             let mut sum = 0;
             for ch in color[1..color.len()].chars() {
-                sum = 16 * sum + ch.to_digit(16).unwrap_or(0);
+                sum = (sum << 4) | ch.to_digit(16).unwrap_or(0);
             }
             if color.len() == 7 {
                 // #rrggbb
-- 
2.43.0


From e94daaa46e0dba42ab7b3835e7adb3c614fce6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:18 +0000
Subject: [PATCH 34/98] fix: huge pixel offsets overflowed

---
 crates/dmm-tools/src/minimap.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/dmm-tools/src/minimap.rs b/crates/dmm-tools/src/minimap.rs
index f4f54ac..7a2edb1 100644
--- a/crates/dmm-tools/src/minimap.rs
+++ b/crates/dmm-tools/src/minimap.rs
@@ -497,12 +497,12 @@ pub struct Sprite<'s> {
 
 impl<'s> Sprite<'s> {
     pub fn from_vars<V: GetVar<'s> + ?Sized>(objtree: &'s ObjectTree, vars: &V) -> Sprite<'s> {
-        let pixel_x = vars.get_var("pixel_x", objtree).to_int().unwrap_or(0);
-        let pixel_y = vars.get_var("pixel_y", objtree).to_int().unwrap_or(0);
-        let pixel_w = vars.get_var("pixel_w", objtree).to_int().unwrap_or(0);
-        let pixel_z = vars.get_var("pixel_z", objtree).to_int().unwrap_or(0);
-        let step_x = vars.get_var("step_x", objtree).to_int().unwrap_or(0);
-        let step_y = vars.get_var("step_y", objtree).to_int().unwrap_or(0);
+        let pixel_x = offset_of(objtree, vars, "pixel_x");
+        let pixel_y = offset_of(objtree, vars, "pixel_y");
+        let pixel_w = offset_of(objtree, vars, "pixel_w");
+        let pixel_z = offset_of(objtree, vars, "pixel_z");
+        let step_x = offset_of(objtree, vars, "step_x");
+        let step_y = offset_of(objtree, vars, "step_y");
 
         Sprite {
             icon: vars.get_var("icon", objtree).as_path_str().unwrap_or(""),
@@ -536,6 +536,13 @@ impl<'s> Default for Sprite<'s> {
     }
 }
 
+/// Offsets are limited so that positions computed from them can't overflow.
+fn offset_of<'s, T: GetVar<'s> + ?Sized>(objtree: &'s ObjectTree, atom: &T, key: &str) -> i32 {
+    const LIMIT: i32 = 1 << 24;
+    let offset = atom.get_var(key, objtree).to_int().unwrap_or(0);
+    offset.clamp(-LIMIT, LIMIT)
+}
+
 fn plane_of<'s, T: GetVar<'s> + ?Sized>(objtree: &'s ObjectTree, atom: &T) -> i32 {
     match atom.get_var("plane", objtree) {
         Constant::Float(i) => *i as i32,
-- 
2.43.0


From 5d8053c00c658a91018ebe85c5aca80c193b404d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 35/98] fix: 2016 icon smoothing never matched the typepaths in
 canSmoothWith

---
 crates/dmm-tools/src/render_passes/icon_smoothing.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/dmm-tools/src/render_passes/icon_smoothing.rs b/crates/dmm-tools/src/render_passes/icon_smoothing.rs
index 3c92ae2..0448b83 100644
--- a/crates/dmm-tools/src/render_passes/icon_smoothing.rs
+++ b/crates/dmm-tools/src/render_passes/icon_smoothing.rs
@@ -2,6 +2,7 @@
 
 use crate::dmi::Dir;
 use crate::minimap::{Atom, GetVar, Neighborhood, Sprite};
+use dm::ast::FormatTreePath;
 use dm::constants::Constant;
 use dm::objtree::ObjectTree;
 
@@ -158,7 +159,11 @@ fn find_type_in_direction(
 
 fn smoothlist_contains(list: &[(Constant, Option<Constant>)], desired: &str) -> bool {
     for (key, _) in list {
-        if key == desired {
+        let found = match key {
+            Constant::Prefab(pop) => FormatTreePath(&pop.path).to_string() == desired,
+            other => other == desired,
+        };
+        if found {
             return true;
         }
     }
-- 
2.43.0


From a5f1cc6b8316e38934369ee5aa35b81978971373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:06 +0000
Subject: [PATCH 36/98] fix: an icon whose bitmap is too small for its states
 was loaded, and panicked when drawn

---
 crates/dreammaker/src/dmi.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/crates/dreammaker/src/dmi.rs b/crates/dreammaker/src/dmi.rs
index 1ad85d4..dbd27d3 100644
--- a/crates/dreammaker/src/dmi.rs
+++ b/crates/dreammaker/src/dmi.rs
@@ -277,9 +277,30 @@ impl Metadata {
         };
 
         let metadata = Metadata::from_decoder(bitmap.width as u32, bitmap.height as u32, &decoder)?;
+        if !metadata.fits(bitmap.width, bitmap.height) {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "the bitmap is too small for the icon states",
+            ));
+        }
         Ok((bitmap, metadata))
     }
 
+    /// Whether a bitmap of this size has room for every icon state.
+    fn fits(&self, bitmap_width: usize, bitmap_height: usize) -> bool {
+        if self.width == 0 || self.height == 0 {
+            return false;
+        }
+        let columns = bitmap_width / self.width as usize;
+        let rows = bitmap_height / self.height as usize;
+        columns > 0
+            && rows > 0
+            && self.states.iter().all(|state| {
+                let sprites = state.num_sprites().max(state.dirs.count());
+                state.offset.saturating_add(sprites) <= columns * rows
+            })
+    }
+
     fn from_decoder(width: u32, height: u32, decoder: &Decoder) -> io::Result<Metadata> {
         for (key, value) in decoder.info_png().text_keys() {
             if key == b"Description" {
-- 
2.43.0


From c29d564123c772d915b032e75cb9dabf4d0821ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:39 +0000
Subject: [PATCH 37/98] fix: look at every way a proc that must not sleep can
 reach a sleeping proc

A proc passed over because it has its own should_not_sleep was marked as
visited and then never checked itself, and a proc already visited through
one receiver type (or an exact call) was not looked at again when a wider
receiver could dispatch to more of its overrides.
---
 crates/dreamchecker/src/lib.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 5af8d51..7bf19a5 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -753,16 +753,15 @@ impl<'o> AnalyzeObjectTree<'o> {
             .iter_types()
             .flat_map(|type_ref: TypeRef| type_ref.iter_self_procs())
             .count();
-        let mut visited = HashSet::<ProcRef<'o>>::with_capacity(total_procs);
+        // What has been looked at: the proc, the type its overrides were looked
+        // for below, and whether it was called without regard to overrides.
+        let mut visited = HashSet::<(ProcRef<'o>, TypeRef<'o>, bool)>::with_capacity(total_procs);
+        let mut reported = HashSet::<ProcRef<'o>>::new();
         let mut to_visit =
             VecDeque::<(ProcRef<'o>, CallStack, bool, ProcRef<'o>, TypeRef<'o>, bool)>::new();
         let mut must_not_sleep: Vec<_> = self.must_not_sleep.directive.iter().collect();
         must_not_sleep.sort_by_key(|(procref, _)| procref.get().location);
         for (procref, &(_, location)) in must_not_sleep {
-            if !visited.insert(*procref) {
-                continue;
-            }
-
             if let Some(sleepvec) = self.sleeping_procs.get_violators(*procref) {
                 error(
                     procref.get().location,
@@ -804,9 +803,6 @@ impl<'o> AnalyzeObjectTree<'o> {
                 if new_context {
                     continue;
                 }
-                if !visited.insert(nextproc) {
-                    continue;
-                }
                 if self.waitfor_procs.contains(&nextproc) {
                     continue;
                 }
@@ -817,8 +813,26 @@ impl<'o> AnalyzeObjectTree<'o> {
                 if self.must_not_sleep.directive.contains_key(&nextproc) {
                     continue;
                 }
+                // A global proc has no overrides, whatever it is called from.
+                let receiver = if nextproc.ty().is_root() {
+                    nextproc.ty()
+                } else {
+                    receiver
+                };
+                // Skip what an earlier visit with the same or a wider receiver covered.
+                if receiver.iter_parent_types().any(|ty| {
+                    visited.contains(&(nextproc, ty, false))
+                        || is_exact && visited.contains(&(nextproc, ty, true))
+                }) {
+                    continue;
+                }
+                visited.insert((nextproc, receiver, is_exact));
 
                 if let Some(sleepvec) = self.sleeping_procs.get_violators(nextproc) {
+                    if !reported.insert(nextproc) {
+                        continue;
+                    }
+
                     let parent_proc_type_index = parent_proc.ty().index();
                     let next_proc_type_index = nextproc.ty().index();
 
-- 
2.43.0


From fe82e461d50acedd1f02bd63286ce75c01e79e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:33 +0000
Subject: [PATCH 38/98] fix: writing through src, a param or a global is not
 pure

Taking a field or a list element of an expression that a pure proc may not
write to forgot that it may not, so 'src.x = 1' passed where 'x = 1' did not.
---
 crates/dreamchecker/src/lib.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 7bf19a5..fb2cd07 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1457,7 +1457,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
         );
         local_vars.insert(
             "usr".into(),
-            Analysis::from_static_type(self.objtree.expect("/mob")).into(),
+            Analysis::from_static_type_impure(self.objtree.expect("/mob")).into(),
         );
         local_vars.insert(
             "callee".into(),
@@ -1468,7 +1468,10 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             Analysis::from_static_type(self.objtree.expect("/callee")).into(),
         );
         if !self.ty.is_root() {
-            local_vars.insert("src".into(), Analysis::from_static_type(self.ty).into());
+            local_vars.insert(
+                "src".into(),
+                Analysis::from_static_type_impure(self.ty).into(),
+            );
         }
         local_vars.insert(
             "global".into(),
@@ -2808,6 +2811,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 match lhs.static_ty {
                     StaticType::List { keys, .. } => {
                         let mut res = Analysis::from(*keys);
+                        res.is_impure = lhs.is_impure;
                         if let Some((loc, _)) = lhs.fix_hint {
                             res.fix_hint =
                                 Some((loc, "add a type annotation after /list here".to_owned()))
@@ -2862,8 +2866,11 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                             .with_note(decl.location, "definition is here")
                             .register(self.context);
                         }
-                        self.static_type(location, &decl.var_type.type_path)
-                            .with_fix_hint(decl.location, "add additional type info here")
+                        let mut ana = self
+                            .static_type(location, &decl.var_type.type_path)
+                            .with_fix_hint(decl.location, "add additional type info here");
+                        ana.is_impure = lhs.is_impure;
+                        ana
                     } else {
                         error(location, format!("undefined field: {name:?} on {ty}"))
                             .register(self.context);
-- 
2.43.0


From f3131e9189d3d987dbb99258e77e8a1a6556f2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:46 +0000
Subject: [PATCH 39/98] fix: range loops which run once, or which step the
 other way, were called unreachable

---
 crates/dreammaker/src/ast.rs | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/crates/dreammaker/src/ast.rs b/crates/dreammaker/src/ast.rs
index 4f3422b..e9d190b 100644
--- a/crates/dreammaker/src/ast.rs
+++ b/crates/dreammaker/src/ast.rs
@@ -1248,26 +1248,21 @@ impl Term {
         }
     }
 
+    /// Whether a `for(x in self to other)` loop runs at least once, if known.
     pub fn valid_for_range(&self, other: &Term, step: Option<&Expression>) -> Option<bool> {
-        if let Term::Int(i) = *self {
-            if let Term::Int(o) = *other {
-                // edge case
-                if i == 0 && o == 0 {
-                    return Some(false);
-                }
-                if let Some(stepexp) = step {
-                    if let Some(stepterm) = stepexp.as_term() {
-                        if let Term::Int(_s) = stepterm {
-                            return Some(true);
-                        }
-                    } else {
-                        return Some(true);
-                    }
-                }
-                return Some(i <= o);
-            }
-        }
-        None
+        let (Term::Int(start), Term::Int(end)) = (self, other) else {
+            return None;
+        };
+        let upwards = match step {
+            None => true,
+            Some(Expression::Base { term, follow }) => match (&term.elem, &follow[..]) {
+                (Term::Int(s), []) if *s != 0 => *s > 0,
+                (Term::Int(s), [neg]) if *s > 0 && neg.elem == Follow::Unary(UnaryOp::Neg) => false,
+                _ => return None,
+            },
+            Some(_) => return None,
+        };
+        Some(if upwards { start <= end } else { start >= end })
     }
 
     pub fn nameof(&self) -> Option<&str> {
-- 
2.43.0


From 2ca3aab5460aa89dc3640749b72f048b78f210e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:46 +0000
Subject: [PATCH 40/98] fix: code reached by break, continue or goto was called
 unreachable

---
 crates/dreamchecker/src/lib.rs | 97 ++++++++++++++++++++++++++--------
 1 file changed, 75 insertions(+), 22 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index fb2cd07..54c8b50 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1321,6 +1321,11 @@ pub struct ControlFlow {
     pub continues: bool,
     pub breaks: bool,
     pub fuzzy: bool,
+    /// Whether a `break` or `continue` of the enclosing loop may happen.
+    pub may_break: bool,
+    pub may_continue: bool,
+    /// Labels which a `break` or `continue` may refer to.
+    pub labels: Vec<Ident>,
 }
 
 impl ControlFlow {
@@ -1329,7 +1334,7 @@ impl ControlFlow {
             returns: true,
             continues: true,
             breaks: true,
-            fuzzy: false,
+            ..ControlFlow::allfalse()
         }
     }
 
@@ -1339,6 +1344,9 @@ impl ControlFlow {
             continues: false,
             breaks: false,
             fuzzy: false,
+            may_break: false,
+            may_continue: false,
+            labels: Vec::new(),
         }
     }
 
@@ -1347,7 +1355,7 @@ impl ControlFlow {
     }
 
     pub fn terminates_loop(&self) -> bool {
-        !self.fuzzy && (self.returns || self.breaks)
+        !self.fuzzy && (self.returns || self.breaks) && !self.may_continue && self.labels.is_empty()
     }
 
     pub fn no_else(&mut self) {
@@ -1372,6 +1380,13 @@ impl ControlFlow {
         if other.fuzzy {
             self.fuzzy = true;
         }
+        self.merge_jumps(other);
+    }
+
+    fn merge_jumps(&mut self, other: ControlFlow) {
+        self.may_break |= other.may_break;
+        self.may_continue |= other.may_continue;
+        self.labels.extend(other.labels);
     }
 
     pub fn merge_false(&mut self, other: ControlFlow) {
@@ -1387,6 +1402,7 @@ impl ControlFlow {
         if other.fuzzy {
             self.fuzzy = true;
         }
+        self.merge_jumps(other);
     }
 
     pub fn finalize(&mut self) {
@@ -1399,7 +1415,28 @@ impl ControlFlow {
         self.returns = false;
         self.continues = false;
         self.breaks = false;
-        self.fuzzy = false;
+        self.may_break = false;
+        self.may_continue = false;
+        self.fuzzy = !self.labels.is_empty();
+    }
+
+    /// End a loop whose body is known to run at least once.
+    pub fn end_entered_loop(&mut self) {
+        let returns = self.returns
+            && !self.fuzzy
+            && !self.may_break
+            && !self.may_continue
+            && self.labels.is_empty();
+        self.end_loop();
+        self.returns = returns;
+    }
+
+    /// End the statement carrying a label.
+    pub fn end_label(&mut self, label: &str) {
+        if !self.labels.is_empty() {
+            self.labels.retain(|l| l != label);
+            self.fuzzy = !self.labels.is_empty();
+        }
     }
 }
 
@@ -1586,7 +1623,13 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
         mut setting_allowed: bool,
     ) -> ControlFlow {
         let mut term = ControlFlow::allfalse();
+        let mut label = None;
         for stmt in block.iter() {
+            if let Statement::Label { name, .. } = &stmt.elem {
+                // `goto` can reach this even if the code above terminates.
+                term.no_else();
+                label = Some(name);
+            }
             if term.terminates() {
                 error(stmt.location, "possible unreachable code here")
                     .with_errortype("unreachable_code")
@@ -1607,7 +1650,14 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     setting_allowed = false;
                 },
             }
-            let state = self.visit_statement(stmt.location, &stmt.elem, local_vars);
+            let mut state = self.visit_statement(stmt.location, &stmt.elem, local_vars);
+            if let Some(name) = label {
+                // The label is on a block of its own or on the next statement.
+                state.end_label(name);
+                if !matches!(&stmt.elem, Statement::Label { block, .. } if block.is_empty()) {
+                    label = None;
+                }
+            }
             term.merge(state);
         }
         term
@@ -1706,17 +1756,13 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 local_vars.get_mut(".").unwrap().analysis = return_type;
                 return ControlFlow {
                     returns: true,
-                    continues: false,
-                    breaks: false,
-                    fuzzy: false,
+                    ..ControlFlow::allfalse()
                 };
             },
             Statement::Return(None) => {
                 return ControlFlow {
                     returns: true,
-                    continues: false,
-                    breaks: false,
-                    fuzzy: false,
+                    ..ControlFlow::allfalse()
                 };
             },
             Statement::Crash(expr) => {
@@ -1725,9 +1771,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 }
                 return ControlFlow {
                     returns: true,
-                    continues: false,
-                    breaks: false,
-                    fuzzy: false,
+                    ..ControlFlow::allfalse()
                 };
             },
             Statement::Throw(expr) => {
@@ -1750,6 +1794,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                         "do while terminates without ever reaching condition",
                     )
                     .register(self.context);
+                    state.end_entered_loop();
                     return state;
                 }
                 self.visit_expression(
@@ -1933,6 +1978,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                                 )
                                 .register(self.context);
                             } else {
+                                state.end_entered_loop();
                                 return state;
                             }
                         }
@@ -2033,7 +2079,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 catch_params,
                 catch_block,
             } => {
-                self.visit_block(try_block, &mut local_vars.clone(), false);
+                let mut state = self.visit_block(try_block, &mut local_vars.clone(), false);
                 if catch_params.len() > 1 {
                     error(
                         location,
@@ -2058,27 +2104,34 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     let var_type: VarType = type_path.iter().map(ToOwned::to_owned).collect();
                     self.visit_var(location, &var_type, var_name, None, &mut catch_locals);
                 }
-                self.visit_block(catch_block, &mut catch_locals, false);
+                state.merge(self.visit_block(catch_block, &mut catch_locals, false));
+                state.no_else();
+                return state;
             },
-            Statement::Continue(_) => {
+            Statement::Continue(label) => {
                 return ControlFlow {
-                    returns: false,
                     continues: true,
-                    breaks: false,
                     fuzzy: true,
+                    may_continue: true,
+                    labels: label.iter().cloned().collect(),
+                    ..ControlFlow::allfalse()
                 };
             },
-            Statement::Break(_) => {
+            Statement::Break(label) => {
                 return ControlFlow {
-                    returns: false,
-                    continues: false,
                     breaks: true,
                     fuzzy: true,
+                    may_break: true,
+                    labels: label.iter().cloned().collect(),
+                    ..ControlFlow::allfalse()
                 };
             },
             Statement::Goto(_) => {},
             Statement::Label { name: _, block } => {
-                self.visit_block(block, &mut local_vars.clone(), false);
+                let mut state = self.visit_block(block, &mut local_vars.clone(), false);
+                // Even if the labeled code terminates, a `goto` may skip it.
+                state.no_else();
+                return state;
             },
             Statement::Del(expr) => {
                 self.visit_expression(location, expr, None, local_vars);
-- 
2.43.0


From f9209f7bdd4575a2783fbaa1fa27823ea921c8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:41 +0000
Subject: [PATCH 41/98] fix: switches over rand() with fractional, unknown or
 huge cases were judged wrongly

---
 crates/dreamchecker/src/switch_rand_range.rs | 53 ++++++++++----------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/crates/dreamchecker/src/switch_rand_range.rs b/crates/dreamchecker/src/switch_rand_range.rs
index 770b3b8..6fc529d 100644
--- a/crates/dreamchecker/src/switch_rand_range.rs
+++ b/crates/dreamchecker/src/switch_rand_range.rs
@@ -21,14 +21,18 @@ pub fn check_switch_rand_range(
     };
 
     let mut case_ranges = Vec::with_capacity(cases.len());
+    let mut all_known = true;
     for case_block in cases.iter() {
         let location = case_block.0.location;
         for case in case_block.0.elem.iter() {
-            if let Some((start, end)) = get_case_range(case, location) {
-                let start = start.ceil() as i32;
-                let end = end.floor() as i32;
-                if start <= rand_end && end >= rand_start {
-                    case_ranges.push((start, end));
+            let Ok(range) = get_case_range(case, location) else {
+                all_known = false;
+                continue;
+            };
+            if let Some((start, end)) = range {
+                let (first, last) = (start.ceil() as i32, end.floor() as i32);
+                if first <= last && first <= rand_end && last >= rand_start {
+                    case_ranges.push((first, last));
                 } else {
                     DMError::new(location, format!("Case range '{start} to {end}' will never trigger as it is outside the rand() range {rand_start} to {rand_end}"))
                         .with_component(dm::Component::DreamChecker)
@@ -39,22 +43,23 @@ pub fn check_switch_rand_range(
         }
     }
 
-    if default.is_some() {
-        // covers the whole range directly so no need to check for gaps
+    if default.is_some() || !all_known {
+        // covers the whole range directly so no need to check for gaps,
+        // or has cases of which we don't know what they cover
         return;
     }
 
     case_ranges.sort_by_key(|a| a.0);
-    let mut first_uncovered = rand_start;
+    let mut first_uncovered = i64::from(rand_start);
     for (start, end) in case_ranges.iter() {
-        if *start > first_uncovered {
+        if i64::from(*start) > first_uncovered {
             break;
         } else {
-            first_uncovered = std::cmp::max(first_uncovered, end + 1);
+            first_uncovered = std::cmp::max(first_uncovered, i64::from(*end) + 1);
         }
     }
 
-    if first_uncovered <= rand_end {
+    if first_uncovered <= i64::from(rand_end) {
         DMError::new(
             location,
             format!(
@@ -67,22 +72,18 @@ pub fn check_switch_rand_range(
     }
 }
 
-fn get_case_range(case: &Case, location: Location) -> Option<(f32, f32)> {
-    match case {
-        Case::Exact(value) => {
-            let value = value
-                .to_owned()
-                .simple_evaluate(location)
-                .ok()?
-                .to_float()?;
-            Some((value, value))
-        },
-        Case::Range(min, max) => {
-            let min = min.to_owned().simple_evaluate(location).ok()?.to_float()?;
-            let max = max.to_owned().simple_evaluate(location).ok()?.to_float()?;
-            Some((min, max))
+/// The numbers a case matches, if any. Fails if they cannot be evaluated here.
+fn get_case_range(case: &Case, location: Location) -> Result<Option<(f32, f32)>, DMError> {
+    let number = |value: &Expression| -> Result<Option<f32>, DMError> {
+        Ok(value.to_owned().simple_evaluate(location)?.to_float())
+    };
+    Ok(match case {
+        Case::Exact(value) => number(value)?.map(|n| (n, n)),
+        Case::Range(min, max) => match (number(min)?, number(max)?) {
+            (Some(min), Some(max)) => Some((min, max)),
+            _ => None,
         },
-    }
+    })
 }
 
 fn get_rand_range(maybe_rand: &Expression) -> Option<(i32, i32)> {
-- 
2.43.0


From 6dd89b3f0fcf4292ecade0b348b78ec98f046559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:03 +0000
Subject: [PATCH 42/98] fix: overrides missing a keyword argument went
 unnoticed if the call was on an inheriting type

---
 crates/dreamchecker/src/lib.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 54c8b50..8e44cd6 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1106,11 +1106,24 @@ impl<'o> AnalyzeObjectTree<'o> {
     pub fn check_kwargs(&mut self, proc: ProcRef) {
         let param_names: HashSet<&Ident> = proc.parameters.iter().map(|p| &p.name).collect();
 
+        if proc.ty().get_proc(proc.name()) != Some(proc) {
+            // Redefined on the same type, so calls don't reach this one.
+            return;
+        }
+
         // Start at the parent - calls which immediately resolve to bad kwargs
-        // error earlier in the process.
-        let mut next = proc.parent_proc();
-        while let Some(current) = next {
-            if let Some(kwargs) = self.used_kwargs.get_mut(&current.to_string()) {
+        // error earlier in the process. Calls are listed by the type they are
+        // made on, which may inherit the proc rather than define it.
+        let mut next = proc.ty().parent_type_without_root();
+        while let Some(ty) = next {
+            match ty.get_proc(proc.name()) {
+                Some(called) if !called.ty().is_root() => {},
+                _ => break,
+            }
+            if let Some(kwargs) = self
+                .used_kwargs
+                .get_mut(&format!("{}/proc/{}", ty, proc.name()))
+            {
                 let mut missing = Vec::new();
 
                 for (keyword, location) in kwargs.called_at.iter() {
@@ -1129,7 +1142,7 @@ impl<'o> AnalyzeObjectTree<'o> {
                     );
                 }
             }
-            next = current.parent_proc();
+            next = ty.parent_type_without_root();
         }
     }
 
-- 
2.43.0


From f0b01fb1060c4ef29b6c0981c1d32ecc3a1e9198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:21 +0000
Subject: [PATCH 43/98] fix: the no_operator_overload diagnostic ignored its
 configuration

---
 crates/dreamchecker/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 8e44cd6..bca7517 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -3148,6 +3148,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             location,
             format!("Attempting {operator} on a {typeerror} which does not overload {operator}"),
         )
+        .with_errortype("no_operator_overload")
         .register(self.context);
         Analysis::empty()
     }
-- 
2.43.0


From e6bb4fa511dd948ffdabf9cd25342ba84d409c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:20 +0000
Subject: [PATCH 44/98] fix: doc comments before an #if were lost

---
 crates/dreammaker/src/preprocessor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 0769fa2..f9cb01e 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -664,6 +664,9 @@ impl<'ctx> Preprocessor<'ctx> {
         // #ifdef FOO -- #if FOO == 5 will error otherwise.
         let skip = !reached || self.is_disabled();
 
+        // Doc comments seen so far are for what follows, not for the condition.
+        let docs_in = std::mem::take(&mut self.docs_in);
+
         // pump real_next to fill output until we get a real newline on input
         let start = self.last_input_loc;
         while let Some(tok) = self.inner_next() {
@@ -681,6 +684,7 @@ impl<'ctx> Preprocessor<'ctx> {
             }
         }
 
+        self.docs_in = docs_in;
         if skip {
             return Ok(false);
         }
-- 
2.43.0


From 5b049d54f1c57e8eefec5dbe61b91350298e9114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:03 +0000
Subject: [PATCH 45/98] fix: of several //! comments at the start of a block
 only the first was kept

---
 crates/dreammaker/src/indents.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/indents.rs b/crates/dreammaker/src/indents.rs
index d496c64..0ef5975 100644
--- a/crates/dreammaker/src/indents.rs
+++ b/crates/dreammaker/src/indents.rs
@@ -1,6 +1,7 @@
 //! The indentation processor.
 use std::collections::VecDeque;
 
+use crate::docs::DocTarget;
 use crate::lexer::{LocatedToken, Punctuation, Token};
 use crate::{Context, DMError, Location};
 
@@ -22,6 +23,8 @@ pub struct IndentProcessor<'ctx, I> {
     // The number of indents just inside each explicit brace which is still open.
     explicit_braces: Vec<usize>,
     parentheses: usize,
+    // Nothing but doc comments has been seen since the last left brace.
+    block_start: bool,
     eof_yielded: bool,
 }
 
@@ -43,6 +46,7 @@ where
             current_spaces: None,
             explicit_braces: Vec::new(),
             parentheses: 0,
+            block_start: false,
             eof_yielded: false,
         }
     }
@@ -142,8 +146,10 @@ where
 
             self.explicit_braces.retain(|&depth| depth <= new_indents);
 
+            self.block_start &= indents == new_indents;
             if indents + 1 == new_indents {
                 // single indent
+                self.block_start = true;
                 self.push_eol(Token::Punct(Punctuation::LBrace));
             } else if indents < new_indents {
                 // multiple indent is an error, register it but let it work
@@ -166,13 +172,19 @@ where
                 for _ in new_indents..indents {
                     self.push_eol(Token::Punct(Punctuation::RBrace));
                 }
-            } else {
+            } else if !(self.block_start && is_enclosing_doc(&read)) {
                 // same indent as before
+                // (except that the `//!` comments which open a block stay together)
                 self.push_semicolon();
             }
         }
 
         // handle non-whitespace
+        match read {
+            Token::DocComment(_) => {},
+            Token::Punct(Punctuation::LBrace) => self.block_start = true,
+            _ => self.block_start = false,
+        }
         match read {
             Token::Punct(Punctuation::LBrace) => {
                 self.current = match self.current {
@@ -213,6 +225,10 @@ where
     }
 }
 
+fn is_enclosing_doc(token: &Token) -> bool {
+    matches!(token, Token::DocComment(doc) if doc.target == DocTarget::EnclosingItem)
+}
+
 impl<'ctx, I> Iterator for IndentProcessor<'ctx, I>
 where
     I: Iterator<Item = LocatedToken>,
-- 
2.43.0


From 099d8ece4cb718786c4126800e9f208da6a273da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:31 +0000
Subject: [PATCH 46/98] fix: slashes and stars belonging to the text were
 stripped from doc comments

---
 crates/dreammaker/src/docs.rs | 40 ++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/crates/dreammaker/src/docs.rs b/crates/dreammaker/src/docs.rs
index 3c4dc14..f1016bd 100644
--- a/crates/dreammaker/src/docs.rs
+++ b/crates/dreammaker/src/docs.rs
@@ -144,15 +144,13 @@ fn simplify(out: &mut String, text: &str, ignore_char: char) -> bool {
     let mut suffix = None;
 
     // determine the common prefix and suffix to strip
-    for line in text.lines() {
+    for (i, line) in text.lines().enumerate() {
         if is_empty(line, ignore_char) {
             continue;
         }
 
-        let this_prefix = &line[..line.len()
-            - line
-                .trim_start_matches(|c: char| c.is_whitespace() || c == ignore_char)
-                .len()];
+        let at_marker = ignore_char == '/' || i == 0;
+        let this_prefix = &line[..line.len() - skip_prefix(line, ignore_char, at_marker).len()];
         match prefix {
             None => prefix = Some(this_prefix),
             Some(ref mut prefix) => {
@@ -173,9 +171,7 @@ fn simplify(out: &mut String, text: &str, ignore_char: char) -> bool {
             },
         }
 
-        let this_suffix = &line[line
-            .trim_end_matches(|c: char| c.is_whitespace() || c == ignore_char)
-            .len()..];
+        let this_suffix = &line[skip_suffix(line, ignore_char).len()..];
         match suffix {
             None => suffix = Some(this_suffix),
             Some(ref mut suffix) => {
@@ -222,6 +218,34 @@ fn simplify(out: &mut String, text: &str, ignore_char: char) -> bool {
     anything
 }
 
+/// Skip the whitespace and decoration a line starts with.
+///
+/// Slashes are decoration only directly after the `///`. A row of stars is not decoration if a
+/// word follows directly, as in `**bold**`, other than after the `/**`.
+fn skip_prefix(line: &str, ignore_char: char, at_marker: bool) -> &str {
+    let start = if at_marker { line } else { line.trim_start() };
+    let rest = start.trim_start_matches(ignore_char);
+    let stars = start.len() - rest.len();
+    if !at_marker && stars > 1 && rest.starts_with(|c: char| !c.is_whitespace()) {
+        return start;
+    }
+    rest.trim_start()
+}
+
+/// Skip the whitespace and decoration a line ends with.
+///
+/// Anything directly after a word, as in `**bold**` or `path/`, is not decoration, except for one
+/// star which might belong to a `**/`.
+fn skip_suffix(line: &str, ignore_char: char) -> &str {
+    let end = line.trim_end();
+    let rest = end.trim_end_matches(ignore_char);
+    let limit = if ignore_char == '*' { 1 } else { 0 };
+    if end.len() - rest.len() > limit && rest.ends_with(|c: char| !c.is_whitespace()) {
+        return end;
+    }
+    rest.trim_end()
+}
+
 fn is_empty(text: &str, ignore_char: char) -> bool {
     text.chars().all(|c| c.is_whitespace() || c == ignore_char)
 }
-- 
2.43.0


From 49470aec0516c282a42d478a8a9e8fa9bd6fe75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:58 +0000
Subject: [PATCH 47/98] fix: an empty doc block joined the words of the line
 comments around it

---
 crates/dreammaker/src/docs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/dreammaker/src/docs.rs b/crates/dreammaker/src/docs.rs
index f1016bd..fdb87e4 100644
--- a/crates/dreammaker/src/docs.rs
+++ b/crates/dreammaker/src/docs.rs
@@ -35,13 +35,13 @@ impl DocCollection {
         for each in self.elems.iter() {
             match each.kind {
                 CommentKind::Block => {
+                    if each.is_empty() {
+                        continue;
+                    }
                     if !line_comments.is_empty() {
                         simplify(&mut output, &line_comments, '/');
                         line_comments.clear();
                     }
-                    if each.is_empty() {
-                        continue;
-                    }
                     // block comments are always paragraphs
                     output.push('\n');
                     if simplify(&mut output, &each.text, '*') {
-- 
2.43.0


From 4b1809540de64e3f97735fe40a1dd5017f55fe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:50 +0000
Subject: [PATCH 48/98] fix: the annotated index of a declaration after its
 overrides was past the end

---
 crates/dreammaker/src/objtree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/objtree.rs b/crates/dreammaker/src/objtree.rs
index 63b0b18..0ccbca8 100644
--- a/crates/dreammaker/src/objtree.rs
+++ b/crates/dreammaker/src/objtree.rs
@@ -1293,7 +1293,7 @@ impl ObjectTreeBuilder {
                 )
                 .register(context);
                 proc.value.insert(0, value);
-                Ok((len, proc.value.first_mut().unwrap()))
+                Ok((0, proc.value.first_mut().unwrap()))
             },
             _ => {
                 proc.value.push(value);
-- 
2.43.0


From 08aa0b2918032acfcb4e6ab41865632c99356524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:48 +0000
Subject: [PATCH 49/98] fix: operator** and operator>= were missing from the
 interned identifiers

---
 crates/dreammaker/src/intern.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/dreammaker/src/intern.rs b/crates/dreammaker/src/intern.rs
index cef3b7f..bcd7172 100644
--- a/crates/dreammaker/src/intern.rs
+++ b/crates/dreammaker/src/intern.rs
@@ -487,6 +487,7 @@ static STATIC_IDENTS: Set<&'static str> = phf_set! {
     "operator[]",
     "operator[]=",
     "operator*",
+    "operator**",
     "operator*=",
     "operator/",
     "operator/=",
@@ -508,6 +509,7 @@ static STATIC_IDENTS: Set<&'static str> = phf_set! {
     "operator<=",
     "operator<=>",
     "operator>",
+    "operator>=",
     "operator>>",
     "operator>>=",
     "operator|",
-- 
2.43.0


From afe076e233392e460c8c121253898ade1c6a5db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:48 +0000
Subject: [PATCH 50/98] fix: the parser panicked when an unmatched brace put
 EOF inside of a type's block

---
 crates/dreammaker/src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index 055cfa0..04c18d0 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -687,6 +687,11 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                 }
             }
 
+            if terminator != Token::Eof && self.peek() == &Token::Eof {
+                // Leave the EOF for the outermost block to find.
+                break;
+            }
+
             take_match!(self {
                 Token::Eof => break,
                 tok if tok == &terminator => break,
-- 
2.43.0


From 6689ec5eb34072aecdc52568366915f72ab31365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 51/98] fix: a line of more than 65535 bytes panicked the lexer

---
 crates/dreammaker/src/error.rs  |  2 +-
 crates/dreammaker/src/lexer.rs  |  8 +++-----
 crates/dreammaker/src/parser.rs | 14 +++++++-------
 3 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/crates/dreammaker/src/error.rs b/crates/dreammaker/src/error.rs
index e17822f..6c43f5a 100644
--- a/crates/dreammaker/src/error.rs
+++ b/crates/dreammaker/src/error.rs
@@ -331,7 +331,7 @@ impl Location {
     }
 
     pub fn add_columns(mut self, num: u16) -> Location {
-        self.column += num;
+        self.column = self.column.saturating_add(num);
         self
     }
 
diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index eae33d4..3ffc69e 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -640,10 +640,8 @@ impl<'a> Iterator for LocationTracker<'a> {
         if ch == b'\n' {
             self.at_line_end = true;
         }
-        match self.location.column.checked_add(1) {
-            Some(new) => self.location.column = new,
-            None => panic!("per-line column limit of {} exceeded", self.location.column),
-        }
+        // Past the limit, further characters are all reported at the last column.
+        self.location.column = self.location.column.saturating_add(1);
         Some(ch)
     }
 }
@@ -1233,7 +1231,7 @@ impl<'ctx> Iterator for Lexer<'ctx> {
                     if !self.final_newline {
                         self.final_newline = true;
                         let mut location = self.location();
-                        location.column += 1;
+                        location.column = location.column.saturating_add(1);
                         return Some(LocatedToken {
                             location,
                             token: Token::Punct(Punctuation::Newline),
diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index 04c18d0..fb672f1 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -721,7 +721,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
             Some(i) => parts.push(i),
             None if !(absolute || spurious_lead) => return Ok(None),
             None => {
-                slash_loc.column += 1;
+                slash_loc.column = slash_loc.column.saturating_add(1);
                 self.annotate_precise(slash_loc..slash_loc, || {
                     Annotation::IncompleteTreePath(absolute, parts.clone())
                 });
@@ -745,7 +745,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                     *last = owned.into();
                 }
 
-                slash_loc.column += 1;
+                slash_loc.column = slash_loc.column.saturating_add(1);
                 self.annotate_precise(slash_loc..slash_loc, || {
                     Annotation::IncompleteTreePath(absolute || always_absolute, parts.clone())
                 });
@@ -2103,7 +2103,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
         if let Some(ident) = self.ident_in_seq(parts.len())? {
             parts.push((sep, ident));
         } else {
-            separator_loc.column += 1;
+            separator_loc.column = separator_loc.column.saturating_add(1);
             self.annotate_precise(separator_loc..separator_loc, || {
                 Annotation::IncompleteTypePath(parts.clone(), sep)
             });
@@ -2115,7 +2115,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
             if let Some(ident) = self.ident_in_seq(parts.len())? {
                 parts.push((sep, ident));
             } else {
-                separator_loc.column += 1;
+                separator_loc.column = separator_loc.column.saturating_add(1);
                 self.annotate_precise(separator_loc..separator_loc, || {
                     Annotation::IncompleteTypePath(parts.clone(), sep)
                 });
@@ -2578,7 +2578,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                     Term::SelfCall(args)
                 } else {
                     // bare dot
-                    dot_loc.column += 1;
+                    dot_loc.column = dot_loc.column.saturating_add(1);
                     self.annotate_precise(dot_loc..dot_loc, || {
                         Annotation::IncompleteTypePath(Vec::new(), PathOp::Dot)
                     });
@@ -2692,7 +2692,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
         let ident = match self.ident()? {
             Some(ident) => ident,
             None => {
-                index_op_loc.column += kind.name().len() as u16;
+                index_op_loc.column = index_op_loc.column.saturating_add(kind.name().len() as u16);
                 self.annotate_precise(index_op_loc..index_op_loc, || {
                     Annotation::ScopedMissingIdent(belongs_to.clone())
                 });
@@ -2750,7 +2750,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
         let ident = match self.ident()? {
             Some(ident) => ident,
             None => {
-                index_op_loc.column += kind.name().len() as u16;
+                index_op_loc.column = index_op_loc.column.saturating_add(kind.name().len() as u16);
                 self.annotate_precise(index_op_loc..index_op_loc, || {
                     Annotation::ScopedMissingIdent(belongs_to.clone())
                 });
-- 
2.43.0


From 112fed470f695a32e09fb09f65c5a05a934f6dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:49 +0000
Subject: [PATCH 52/98] fix: types whose parent_type leads back to them made
 the analysis loop forever

---
 crates/dreammaker/src/objtree.rs | 35 +++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/objtree.rs b/crates/dreammaker/src/objtree.rs
index 0ccbca8..cc85758 100644
--- a/crates/dreammaker/src/objtree.rs
+++ b/crates/dreammaker/src/objtree.rs
@@ -1,6 +1,6 @@
 //! The object tree representation, used as a parsing target.
 
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, HashSet};
 use std::fmt;
 use std::mem::size_of;
 use std::ops::Range;
@@ -1012,6 +1012,39 @@ impl ObjectTreeBuilder {
                 self.inner.redirected_parent_types.push(type_idx);
             }
         }
+        self.break_parent_type_cycles(context);
+    }
+
+    /// Ensure that following `parent_type` from any type leads to the root.
+    fn break_parent_type_cycles(&mut self, context: &Context) {
+        for (path, &type_idx) in self.inner.types.iter() {
+            // Every cycle has a user-specified `parent_type` somewhere in it.
+            let location = match self.inner[type_idx].vars.get("parent_type") {
+                Some(var) if var.value.expression.is_some() => var.value.location,
+                _ => continue,
+            };
+            let mut seen = HashSet::new();
+            let mut current = self.inner[type_idx].parent_type;
+            while current != type_idx && current != NodeIndex::new(0) && seen.insert(current) {
+                current = self.inner[current].parent_type;
+            }
+            if current == type_idx {
+                let parent_type = &self.inner[self.inner[type_idx].parent_type].path;
+                context.register_error(DMError::new(
+                    location,
+                    format!("parent type for {path} is cyclic: {parent_type}"),
+                ));
+                let type_ref = &mut self.inner.graph[type_idx.index()];
+                type_ref.parent_type = NodeIndex::new(0); // on bad parent_type, fall back to the root
+                let redirected = type_ref.parent_path != NodeIndex::new(0);
+                self.inner
+                    .redirected_parent_types
+                    .retain(|&idx| idx != type_idx);
+                if redirected {
+                    self.inner.redirected_parent_types.push(type_idx);
+                }
+            }
+        }
     }
 
     // ------------------------------------------------------------------------
-- 
2.43.0


From cd89b81f85e861ae9efd8c3163ca109d5d39a96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:15 +0000
Subject: [PATCH 53/98] fix: macros referring to themselves more than once took
 exponential time to expand

---
 crates/dreammaker/src/preprocessor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index f9cb01e..6f16554 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -1242,6 +1242,11 @@ impl<'ctx> Preprocessor<'ctx> {
                 if expansion.is_some() && self.include_stack.stack.len() > MAX_RECURSION_DEPTH {
                     self.error(format!("expanding {ident:?} would exceed max recursion depth of {MAX_RECURSION_DEPTH} levels")).register(self.context);
                     expansion = None;
+                    // Abandon the outer macros too. If they refer to themselves more than once,
+                    // what is left of them would take exponential time to expand.
+                    while let Some(Include::Expansion { .. }) = self.include_stack.stack.last() {
+                        self.include_stack.stack.pop();
+                    }
                 }
 
                 match expansion {
-- 
2.43.0


From dc9859a56d35f8f88e0b31d4f578cdd48b917160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:17 +0000
Subject: [PATCH 54/98] fix: a macro passing its argument to itself twice used
 up the memory

---
 crates/dreammaker/src/preprocessor.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 6f16554..ed17f80 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -19,6 +19,9 @@ use super::{Context, DMError, FileId, HasLocation, Location, Severity};
 /// The maximum recursion depth of macro expansion.
 const MAX_RECURSION_DEPTH: usize = 32;
 
+/// The maximum number of tokens one macro call may expand to.
+const MAX_EXPANSION_TOKENS: usize = 1 << 18;
+
 // ----------------------------------------------------------------------------
 // Macro representation and predefined macros
 
@@ -1456,6 +1459,15 @@ impl<'ctx> Preprocessor<'ctx> {
                                 _ => expansion.push_back(token),
                             }
                         }
+                        if expansion.len() > MAX_EXPANSION_TOKENS {
+                            // A macro passing its argument to itself twice would fill the memory.
+                            self.error(format!("expansion of {ident:?} would exceed max length of {MAX_EXPANSION_TOKENS} tokens")).register(self.context);
+                            while let Some(Include::Expansion { .. }) = self.include_stack.stack.last()
+                            {
+                                self.include_stack.stack.pop();
+                            }
+                            return Ok(());
+                        }
                         self.include_stack.stack.push(Include::Expansion {
                             //name: ident.to_owned(),
                             tokens: expansion,
-- 
2.43.0


From aad1f92993b233ae882afa44698b15a224d6d300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:18 +0000
Subject: [PATCH 55/98] fix: reject map files that end early

---
 crates/dmm-tools/src/dmm/read.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index d34624b..c70ca8d 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -211,6 +211,13 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
         }
     }
 
+    if in_key_block || in_data_block || !after_data_block {
+        return Err(DMError::new(
+            chars.location(),
+            "unexpected end of file in the dictionary",
+        ));
+    }
+
     // grid
     #[derive(PartialEq, Debug)]
     enum Coord {
@@ -317,6 +324,13 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     }
     max_y = max(max_y, curr_y);
 
+    if in_coord_block || in_map_string {
+        return Err(DMError::new(
+            chars.location(),
+            "unexpected end of file in the grid",
+        ));
+    }
+
     // Don't make room for tiles that the file can't have.
     if max_x
         .checked_mul(max_y)
-- 
2.43.0


From 3a03d48f9b8da06ef9a7db1b6ac7928c06c21625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:18 +0000
Subject: [PATCH 56/98] fix: don't overwrite pictures of files with the same
 name in render-many

---
 crates/dmm-tools-cli/src/main.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/dmm-tools-cli/src/main.rs b/crates/dmm-tools-cli/src/main.rs
index febfede..298c7f1 100644
--- a/crates/dmm-tools-cli/src/main.rs
+++ b/crates/dmm-tools-cli/src/main.rs
@@ -603,6 +603,19 @@ fn render_many(context: &Context, command: RenderManyCommand) -> RenderManyComma
         panic!();
     }
 
+    // Files of the same name must not overwrite one another's pictures.
+    let stems: Vec<String> = command
+        .files
+        .iter()
+        .map(|file| {
+            file.path
+                .file_stem()
+                .unwrap()
+                .to_string_lossy()
+                .into_owned()
+        })
+        .collect();
+
     // Iterate over the maps
     let result_files: Vec<_> = command
         .files
@@ -610,7 +623,10 @@ fn render_many(context: &Context, command: RenderManyCommand) -> RenderManyComma
         .enumerate()
         .map(|(file_idx, file)| {
             eprintln!("{}: load {}", file_idx, file.path.display());
-            let stem = file.path.file_stem().unwrap().to_string_lossy();
+            let mut stem = stems[file_idx].clone();
+            if stems.iter().filter(|&s| *s == stem).count() > 1 {
+                stem.push_str(&format!("_file{file_idx}"));
+            }
             let map = dmm::Map::from_file(&file.path).unwrap(); // TODO: error handling
             let (dim_x, dim_y, dim_z) = map.dim_xyz();
 
-- 
2.43.0


From 2f9763438df44c19d0f3abffd7df2753305925b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:44 +0000
Subject: [PATCH 57/98] fix: don't escape titles twice in dmdoc

---
 crates/dmdoc/src/markdown.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/dmdoc/src/markdown.rs b/crates/dmdoc/src/markdown.rs
index a0a4420..ed191ea 100644
--- a/crates/dmdoc/src/markdown.rs
+++ b/crates/dmdoc/src/markdown.rs
@@ -38,16 +38,16 @@ impl DocBlock {
         (
             if let Some(&Event::Start(Tag::Heading(HeadingLevel::H1, _, _))) = parser.peek() {
                 parser.next();
-                let mut pieces = Vec::new();
+                // Titles are plain text, escaped by whatever shows them.
+                let mut title = String::new();
                 loop {
                     match parser.next() {
                         None | Some(Event::End(Tag::Heading(HeadingLevel::H1, _, _))) => break,
-                        Some(other) => pieces.push(other),
+                        Some(Event::Text(text) | Event::Code(text)) => title.push_str(&text),
+                        Some(Event::SoftBreak | Event::HardBreak) => title.push(' '),
+                        Some(_) => {},
                     }
                 }
-
-                let mut title = String::new();
-                push_html(&mut title, pieces);
                 Some(title)
             } else {
                 None
-- 
2.43.0


From cf4e7717e8631fc67378678fe9d0e240b8e40e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:44 +0000
Subject: [PATCH 58/98] fix: let dmdoc crosslinks refer to Markdown and text
 files

---
 crates/dmdoc/src/main.rs | 53 +++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/crates/dmdoc/src/main.rs b/crates/dmdoc/src/main.rs
index fd35482..5663961 100644
--- a/crates/dmdoc/src/main.rs
+++ b/crates/dmdoc/src/main.rs
@@ -174,6 +174,25 @@ fn main2() -> Result<(), Box<dyn std::error::Error>> {
     }
     let mut modules_which_exist: BTreeSet<_> = modules1.keys().cloned().collect();
 
+    // search the code tree for Markdown files
+    let mut markdown_files = Vec::new();
+    for modules_path in code_directories {
+        for entry in walkdir::WalkDir::new(modules_path)
+            .into_iter()
+            .filter_entry(is_visible)
+        {
+            let entry = entry?;
+            let path = entry.path();
+
+            if let Some(buf) = read_as_markdown(path)? {
+                if Some(path) != index_path.as_ref().map(Path::new) {
+                    modules_which_exist.insert(module_path(path));
+                    markdown_files.push((path.to_owned(), buf));
+                }
+            }
+        }
+    }
+
     // build a map of macro names to the module.html files in which they appear
     let mut macro_exists = BTreeSet::new();
     let mut macro_to_module_map = BTreeMap::new();
@@ -252,29 +271,17 @@ fn main2() -> Result<(), Box<dyn std::error::Error>> {
         macro_count += 1;
     }
 
-    // search the code tree for Markdown files
-    for modules_path in code_directories {
-        for entry in walkdir::WalkDir::new(modules_path)
-            .into_iter()
-            .filter_entry(is_visible)
-        {
-            let entry = entry?;
-            let path = entry.path();
-
-            if let Some(buf) = read_as_markdown(path)? {
-                if Some(path) != index_path.as_ref().map(Path::new) {
-                    let module = module_entry(&mut modules1, path);
-                    module.items_wip.push((
-                        0,
-                        ModuleItem::DocComment(DocComment {
-                            kind: CommentKind::Block,
-                            target: DocTarget::EnclosingItem,
-                            text: buf,
-                        }),
-                    ));
-                }
-            }
-        }
+    // add the Markdown files found earlier
+    for (path, buf) in markdown_files {
+        let module = module_entry(&mut modules1, &path);
+        module.items_wip.push((
+            0,
+            ModuleItem::DocComment(DocComment {
+                kind: CommentKind::Block,
+                target: DocTarget::EnclosingItem,
+                text: buf,
+            }),
+        ));
     }
 
     // Incorporate the index file if requested.
-- 
2.43.0


From 9609b3725d4766e0243475efb6cf6d30937bd5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:44 +0000
Subject: [PATCH 59/98] fix: don't strip comment decoration from Markdown and
 text files

---
 crates/dmdoc/src/main.rs     | 74 ++++++++++++++++++------------------
 crates/dmdoc/src/template.rs |  2 +-
 2 files changed, 39 insertions(+), 37 deletions(-)

diff --git a/crates/dmdoc/src/main.rs b/crates/dmdoc/src/main.rs
index 5663961..6a6b897 100644
--- a/crates/dmdoc/src/main.rs
+++ b/crates/dmdoc/src/main.rs
@@ -274,14 +274,7 @@ fn main2() -> Result<(), Box<dyn std::error::Error>> {
     // add the Markdown files found earlier
     for (path, buf) in markdown_files {
         let module = module_entry(&mut modules1, &path);
-        module.items_wip.push((
-            0,
-            ModuleItem::DocComment(DocComment {
-                kind: CommentKind::Block,
-                target: DocTarget::EnclosingItem,
-                text: buf,
-            }),
-        ));
+        module.items_wip.push((0, ModuleItem::Markdown(buf)));
     }
 
     // Incorporate the index file if requested.
@@ -582,37 +575,41 @@ fn main2() -> Result<(), Box<dyn std::error::Error>> {
 
             let mut docs = DocCollection::default();
             let mut _first = true;
+            macro_rules! push_text {
+                ($text:expr) => {{
+                    // oof
+                    let text = $text;
+                    let broken_link_callback = &mut |link: BrokenLink| -> Option<(CowStr, CowStr)> {
+                        broken_link_fixer(
+                            link,
+                            &macro_to_module_map,
+                            &macro_exists,
+                            &diagnostic_count,
+                            &error_entity,
+                            &modules_which_exist,
+                            &objtree,
+                            &types_with_docs,
+                        )
+                    };
+                    if _first {
+                        _first = false;
+                        let (title, block) =
+                            DocBlock::parse_with_title(&text, Some(broken_link_callback));
+                        module.name = title;
+                        module.teaser = PreEscaped(block.teaser().0.to_owned());
+                        module.items.push(ModuleItem::Docs(block.html));
+                    } else {
+                        module.items.push(ModuleItem::Docs(markdown::render(
+                            &text,
+                            Some(broken_link_callback),
+                        )));
+                    }
+                }};
+            }
             macro_rules! push_docs {
                 () => {
-                    // oof
                     if !docs.is_empty() {
-                        let doc = std::mem::take(&mut docs);
-                        let broken_link_callback =
-                            &mut |link: BrokenLink| -> Option<(CowStr, CowStr)> {
-                                broken_link_fixer(
-                                    link,
-                                    &macro_to_module_map,
-                                    &macro_exists,
-                                    &diagnostic_count,
-                                    &error_entity,
-                                    &modules_which_exist,
-                                    &objtree,
-                                    &types_with_docs,
-                                )
-                            };
-                        if _first {
-                            _first = false;
-                            let (title, block) =
-                                DocBlock::parse_with_title(&doc.text(), Some(broken_link_callback));
-                            module.name = title;
-                            module.teaser = PreEscaped(block.teaser().0.to_owned());
-                            module.items.push(ModuleItem::Docs(block.html));
-                        } else {
-                            module.items.push(ModuleItem::Docs(markdown::render(
-                                &doc.text(),
-                                Some(broken_link_callback),
-                            )));
-                        }
+                        push_text!(std::mem::take(&mut docs).text());
                     }
                 };
             }
@@ -629,6 +626,10 @@ fn main2() -> Result<(), Box<dyn std::error::Error>> {
                         docs.push(doc);
                         last_line = line;
                     },
+                    ModuleItem::Markdown(text) => {
+                        push_docs!();
+                        push_text!(text);
+                    },
                     other => {
                         push_docs!();
                         module.items.push(other);
@@ -1536,6 +1537,7 @@ struct Define<'a> {
 enum ModuleItem<'a> {
     // preparation
     DocComment(DocComment),
+    Markdown(String),
 
     // rendering
     Docs(PreEscaped<String>),
diff --git a/crates/dmdoc/src/template.rs b/crates/dmdoc/src/template.rs
index 3054c72..9c18f0f 100644
--- a/crates/dmdoc/src/template.rs
+++ b/crates/dmdoc/src/template.rs
@@ -314,7 +314,7 @@ pub(crate) fn dm_module(module: &ModuleArgs) -> Markup {
                                 }
                             }
                         },
-                        ModuleItem::DocComment { .. } => {}
+                        ModuleItem::DocComment { .. } | ModuleItem::Markdown { .. } => {}
                     }
                 }
             }
-- 
2.43.0


From 22e8d1c57d98aee69300057b2b7ae90ded085a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:45 +0000
Subject: [PATCH 60/98] fix: show text files in dmdoc exactly

---
 crates/dmdoc/src/main.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/dmdoc/src/main.rs b/crates/dmdoc/src/main.rs
index 6a6b897..f550c72 100644
--- a/crates/dmdoc/src/main.rs
+++ b/crates/dmdoc/src/main.rs
@@ -1265,12 +1265,17 @@ fn read_as_markdown(path: &Path) -> std::io::Result<Option<String>> {
     let is_txt = ext == Some("txt".as_ref());
     if is_md || is_txt {
         let mut buf = String::new();
-        if is_txt {
-            buf.push_str("```\n");
-        }
         File::open(path)?.read_to_string(&mut buf)?;
         if is_txt {
-            buf.push_str("```");
+            // The text itself must not end the code block.
+            let mut fence = "```".to_owned();
+            while buf.contains(&fence) {
+                fence.push('`');
+            }
+            if !buf.is_empty() && !buf.ends_with('\n') {
+                buf.push('\n');
+            }
+            buf = format!("{fence}\n{buf}{fence}");
         }
         Ok(Some(buf))
     } else {
-- 
2.43.0


From 6312e3bb34b593b9468616ee0542d080a7b122f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:45 +0000
Subject: [PATCH 61/98] fix: don't let a multiple of 256 broken crosslinks pass
 a dry run

---
 crates/dmdoc/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/dmdoc/src/main.rs b/crates/dmdoc/src/main.rs
index f550c72..9486116 100644
--- a/crates/dmdoc/src/main.rs
+++ b/crates/dmdoc/src/main.rs
@@ -668,7 +668,8 @@ fn main2() -> Result<(), Box<dyn std::error::Error>> {
         // Ensure the diagnostic count is not increased after this point.
         let exit_code = diagnostic_count.into_inner();
         if dry_run {
-            std::process::exit(exit_code);
+            // Only the low 8 bits may reach the parent process.
+            std::process::exit(exit_code.min(i32::from(u8::MAX)));
         }
     }
 
-- 
2.43.0


From 50a61219274f4b3c500b45e83809609a18ce3fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:53 +0000
Subject: [PATCH 62/98] fix: show the globals page's heading as "(global)" in
 dmdoc

---
 crates/dmdoc/src/template.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dmdoc/src/template.rs b/crates/dmdoc/src/template.rs
index 9c18f0f..a6d0011 100644
--- a/crates/dmdoc/src/template.rs
+++ b/crates/dmdoc/src/template.rs
@@ -375,7 +375,7 @@ pub(crate) fn dm_type(ty: &Type) -> Markup {
         },
         &html! {
             h1 {
-                @if path == "global" {
+                @if path == "(global)" {
                     "(global)"
                 } @else if !details.name.is_empty() {
                     (details.name)
-- 
2.43.0


From 399ba2bedb7d4ec533f0a47168de48ff25e941c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:28 +0000
Subject: [PATCH 63/98] fix: place the end of the last statement before blank
 lines at the end of the input

---
 crates/dreammaker/src/indents.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/indents.rs b/crates/dreammaker/src/indents.rs
index 0ef5975..1de678b 100644
--- a/crates/dreammaker/src/indents.rs
+++ b/crates/dreammaker/src/indents.rs
@@ -247,10 +247,10 @@ where
             } else if self.eof_yielded {
                 return None;
             } else {
-                self.push(Token::Punct(Punctuation::Semicolon));
+                self.push_semicolon();
                 if let Some((_, indents)) = self.current {
                     for _ in 0..indents {
-                        self.push(Token::Punct(Punctuation::RBrace));
+                        self.push_eol(Token::Punct(Punctuation::RBrace));
                     }
                 }
                 self.current = None;
-- 
2.43.0


From d0f71aeacd5248b4689d1d4e7b70bfc42202b041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 64/98] fix: langserver: clamp positions to the end of their
 line, refuse reversed ranges

---
 crates/dm-langserver/src/document.rs | 30 +++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/crates/dm-langserver/src/document.rs b/crates/dm-langserver/src/document.rs
index b5f96c4..111739b 100644
--- a/crates/dm-langserver/src/document.rs
+++ b/crates/dm-langserver/src/document.rs
@@ -142,9 +142,8 @@ impl Document {
             },
         };
 
-        let start_pos = total_offset(&self.text, range.start.line, range.start.character)?;
-        let end_pos = total_offset(&self.text, range.end.line, range.end.character)?;
-        Rc::make_mut(&mut self.text).replace_range(start_pos..end_pos, &change.text);
+        let offsets = range_offsets(&self.text, range)?;
+        Rc::make_mut(&mut self.text).replace_range(offsets, &change.text);
         Ok(())
     }
 }
@@ -166,8 +165,12 @@ fn line_offset(text: &str, line_number: u32) -> Result<usize, jsonrpc::Error> {
 fn total_offset(text: &str, line: u32, mut character: u32) -> Result<usize, jsonrpc::Error> {
     let start = line_offset(text, line)?;
 
+    // "If the character value is greater than the line length it defaults back
+    // to the line length", which excludes the line ending.
+    let line_text = text[start..].lines().next().unwrap_or("");
+
     // column is measured in UTF-16 code units, which is really inconvenient.
-    let mut chars = text[start..].chars();
+    let mut chars = line_text.chars();
     while character > 0 {
         if let Some(ch) = chars.next() {
             character = character.saturating_sub(ch.len_utf16() as u32);
@@ -175,7 +178,7 @@ fn total_offset(text: &str, line: u32, mut character: u32) -> Result<usize, json
             break;
         }
     }
-    Ok(text.len() - chars.as_str().len())
+    Ok(start + line_text.len() - chars.as_str().len())
 }
 
 // Reverse of the above.
@@ -198,11 +201,20 @@ pub fn offset_to_position(text: &str, offset: usize) -> lsp_types::Position {
     lsp_types::Position { line, character }
 }
 
+fn range_offsets(
+    text: &str,
+    range: lsp_types::Range,
+) -> Result<std::ops::Range<usize>, jsonrpc::Error> {
+    let start = total_offset(text, range.start.line, range.start.character)?;
+    let end = total_offset(text, range.end.line, range.end.character)?;
+    if start > end {
+        return Err(invalid_request("range ends before it starts"));
+    }
+    Ok(start..end)
+}
+
 pub fn get_range(text: &str, range: lsp_types::Range) -> Result<&str, jsonrpc::Error> {
-    Ok(
-        &text[total_offset(text, range.start.line, range.start.character)?
-            ..total_offset(text, range.end.line, range.end.character)?],
-    )
+    Ok(&text[range_offsets(text, range)?])
 }
 
 pub fn find_word(text: &str, offset: usize) -> &str {
-- 
2.43.0


From 43d59e2e8cd2406e857ed1c98b1ff4e101171c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:16 +0000
Subject: [PATCH 65/98] fix: langserver: forget annotations when documents are
 opened, partly changed or reparsed

---
 crates/dm-langserver/src/main.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index ec3beb8..b8ba6af 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -2488,6 +2488,7 @@ impl Engine {
         eprintln!();
         eprintln!("reparsing by request...");
         self.context.errors_mut().clear();
+        self.annotations.clear();
         self.Initialized(_p)
     }
 
@@ -2508,6 +2509,8 @@ impl Engine {
     // ------------------------------------------------------------------------
     // document content management
     fn DidOpenTextDocument(&mut self, params: N<DidOpenTextDocument>) -> NR {
+        // The contents may differ from those on disk.
+        self.annotations.remove(&params.text_document.uri);
         self.docs.open(params.text_document)?;
         Ok(())
     }
@@ -2519,10 +2522,10 @@ impl Engine {
     }
 
     fn DidChangeTextDocument(&mut self, params: N<DidChangeTextDocument>) -> NR {
-        let url = self
-            .docs
+        // Even if one of the changes fails, others may have been applied.
+        self.annotations.remove(&params.text_document.uri);
+        self.docs
             .change(params.text_document, params.content_changes)?;
-        self.annotations.remove(&url);
         Ok(())
     }
 
-- 
2.43.0


From 0a74b859204861b29d0d6d4a383c996a9157b15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:36 +0000
Subject: [PATCH 66/98] fix: langserver: reparsing reads the configuration anew

---
 crates/dm-langserver/src/main.rs | 19 ++++++++++++-------
 crates/dreammaker/src/error.rs   |  5 +++++
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index b8ba6af..e1c46d1 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -516,6 +516,15 @@ impl Engine {
     // ------------------------------------------------------------------------
     // Environment tracking
 
+    fn load_root_config(&mut self) {
+        if let Some(Ok(root_path)) = self.root.as_ref().map(url_to_path) {
+            let config_path = root_path.join("SpacemanDMM.toml");
+            if config_path.exists() {
+                self.context.force_config(&config_path);
+            }
+        }
+    }
+
     fn parse_environment(&mut self, environment: PathBuf) -> Result<(), jsonrpc::Error> {
         // handle the parsing
         let original_start = std::time::Instant::now();
@@ -1388,14 +1397,8 @@ impl Engine {
             }
             eprintln!("workspace root: {url}");
 
-            if let Ok(root_path) = url_to_path(&url) {
-                let config_path = root_path.join("SpacemanDMM.toml");
-                if config_path.exists() {
-                    self.context.force_config(&config_path);
-                }
-            }
-
             self.root = Some(url);
+            self.load_root_config();
         } else {
             eprintln!("single file mode");
         }
@@ -2489,6 +2492,8 @@ impl Engine {
         eprintln!("reparsing by request...");
         self.context.errors_mut().clear();
         self.annotations.clear();
+        self.context.reset_config();
+        self.load_root_config();
         self.Initialized(_p)
     }
 
diff --git a/crates/dreammaker/src/error.rs b/crates/dreammaker/src/error.rs
index 6c43f5a..b2bdebc 100644
--- a/crates/dreammaker/src/error.rs
+++ b/crates/dreammaker/src/error.rs
@@ -140,6 +140,11 @@ impl Context {
         }
     }
 
+    /// Go back to the default configuration.
+    pub fn reset_config(&mut self) {
+        self.config = Default::default();
+    }
+
     pub fn autodetect_config(&mut self, dme: &Path) {
         let toml = dme.parent().unwrap().join("SpacemanDMM.toml");
         if toml.exists() {
-- 
2.43.0


From 98544deeea20575cd099c2d7916dcfa99b0cde63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:50 +0000
Subject: [PATCH 67/98] fix: langserver: a local variable hides those of its
 name declared before it

---
 crates/dm-langserver/src/main.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index e1c46d1..f42886a 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -890,17 +890,18 @@ impl Engine {
     where
         I: Iterator<Item = (Span, &'b Annotation)> + Clone,
     {
-        // local variables
+        // local variables, where the one declared last hides the others
+        let mut local = None;
         for (span, annotation) in iter.clone() {
             if let Annotation::LocalVarScope(var_type, name) = annotation {
-                if name == var_name {
-                    return UnscopedVar::Local {
-                        loc: span.start,
-                        var_type,
-                    };
+                if name == var_name && local.is_none_or(|(loc, _)| span.start >= loc) {
+                    local = Some((span.start, var_type));
                 }
             }
         }
+        if let Some((loc, var_type)) = local {
+            return UnscopedVar::Local { loc, var_type };
+        }
 
         // proc parameters
         let ty = ty.unwrap_or_else(|| self.objtree.root());
-- 
2.43.0


From 7a5e8dd3beb19ed434d66bb64fd6e3f02d947210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:50 +0000
Subject: [PATCH 68/98] fix: annotate the scope of caught exceptions and of the
 value variables of loops

---
 crates/dreammaker/src/parser.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index fb672f1..3ebff16 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -1629,12 +1629,19 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                             };
                             // Value is the lhs of for(k, [v in x])
                             // It should also pass only if it's an ident
+                            let value_loc = match *lhs {
+                                Expression::Base { ref term, .. } => term.location,
+                                _ => start,
+                            };
                             let value = match lhs.into_term() {
                                 Some(Term::Ident(value)) => value,
                                 _ => return Err(self.error(
                                     "value must be a variable in a for (key, value) statement",
                                 )),
                             };
+                            if self.annotations.is_some() && var_type.is_some() {
+                                vars.push((value_loc, VarType::default(), value.clone()));
+                            }
                             // TODO : check if `x` is an ident/a "list()" or "alist()" statement ?
                             require!(self.exact(Token::Punct(Punctuation::RParen)));
                             // Returns a for(k,v)
@@ -1821,7 +1828,18 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
             } else {
                 Vec::new()
             };
+            let catch_start = self.location();
             let catch_block = require!(self.block(loop_ctx));
+            for caught in catch_params.iter() {
+                if let [var, path @ .., name] = &caught[..] {
+                    if var == "var" {
+                        let var_type = path.iter().cloned().collect::<VarType>();
+                        self.annotate(catch_start, || {
+                            Annotation::LocalVarScope(var_type, name.clone())
+                        });
+                    }
+                }
+            }
             spanned(Statement::TryCatch {
                 try_block,
                 catch_params: catch_params.into_boxed_slice(),
-- 
2.43.0


From 1e7554622a908ea51522cf9b57991da298fa14d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:50 +0000
Subject: [PATCH 69/98] fix: langserver: find references in arguments of
 unknown calls, loops and CRASH, and end locals with their block

---
 crates/dm-langserver/src/find_references.rs | 173 +++++++++++++-------
 1 file changed, 112 insertions(+), 61 deletions(-)

diff --git a/crates/dm-langserver/src/find_references.rs b/crates/dm-langserver/src/find_references.rs
index 9f446d2..138b491 100644
--- a/crates/dm-langserver/src/find_references.rs
+++ b/crates/dm-langserver/src/find_references.rs
@@ -149,6 +149,8 @@ struct WalkProc<'o> {
     ty: TypeRef<'o>,
     proc: Option<ProcRef<'o>>,
     local_vars: HashMap<Ident, Local<'o>>,
+    /// What the local variables declared so far have hidden.
+    hidden: Vec<(Ident, Option<Local<'o>>)>,
 }
 
 impl<'o> WalkProc<'o> {
@@ -200,6 +202,7 @@ impl<'o> WalkProc<'o> {
             ty: proc.ty(),
             proc: Some(proc),
             local_vars,
+            hidden: Vec::new(),
         }
     }
 
@@ -219,6 +222,7 @@ impl<'o> WalkProc<'o> {
             ty,
             proc: None,
             local_vars,
+            hidden: Vec::new(),
         }
     }
 
@@ -241,8 +245,22 @@ impl<'o> WalkProc<'o> {
     }
 
     fn visit_block(&mut self, block: &'o [Spanned<Statement>]) {
-        for stmt in block.iter() {
-            self.visit_statement(stmt.location, &stmt.elem);
+        self.scoped(|this| {
+            for stmt in block.iter() {
+                this.visit_statement(stmt.location, &stmt.elem);
+            }
+        });
+    }
+
+    /// The local variables declared by `f` end with it.
+    fn scoped<F: FnOnce(&mut Self)>(&mut self, f: F) {
+        let depth = self.hidden.len();
+        f(self);
+        for (name, before) in self.hidden.drain(depth..).rev() {
+            match before {
+                Some(local) => self.local_vars.insert(name, local),
+                None => self.local_vars.remove(&name),
+            };
         }
     }
 
@@ -287,16 +305,18 @@ impl<'o> WalkProc<'o> {
                 inc,
                 block,
             } => {
-                if let Some(init) = init {
-                    self.visit_statement(location, init);
-                }
-                if let Some(test) = test {
-                    self.visit_expression(location, test, None);
-                }
-                if let Some(inc) = inc {
-                    self.visit_statement(location, inc);
-                }
-                self.visit_block(block);
+                self.scoped(|this| {
+                    if let Some(init) = init {
+                        this.visit_statement(location, init);
+                    }
+                    if let Some(test) = test {
+                        this.visit_expression(location, test, None);
+                    }
+                    if let Some(inc) = inc {
+                        this.visit_statement(location, inc);
+                    }
+                    this.visit_block(block);
+                });
             },
             Statement::ForList(for_list) => {
                 let ForListStatement {
@@ -309,10 +329,15 @@ impl<'o> WalkProc<'o> {
                 if let Some(in_list) = in_list {
                     self.visit_expression(location, in_list, None);
                 }
-                if let Some(var_type) = var_type {
-                    self.visit_var(location, var_type, name, None);
-                }
-                self.visit_block(block);
+                self.scoped(|this| {
+                    match var_type {
+                        Some(var_type) => this.visit_var(location, var_type, name, None),
+                        None => {
+                            this.visit_ident(location, name);
+                        },
+                    }
+                    this.visit_block(block);
+                });
             },
             Statement::ForRange(for_range) => {
                 let ForRangeStatement {
@@ -327,10 +352,16 @@ impl<'o> WalkProc<'o> {
                 if let Some(step) = step {
                     self.visit_expression(location, step, None);
                 }
-                if let Some(var_type) = var_type {
-                    self.visit_var(location, var_type, name, Some(start));
-                }
-                self.visit_block(block);
+                self.scoped(|this| {
+                    match var_type {
+                        Some(var_type) => this.visit_var(location, var_type, name, Some(start)),
+                        None => {
+                            this.visit_ident(location, name);
+                            this.visit_expression(location, start, None);
+                        },
+                    }
+                    this.visit_block(block);
+                });
             },
             Statement::Var(var) => self.visit_var_stmt(location, var),
             Statement::Vars(vars) => {
@@ -375,24 +406,30 @@ impl<'o> WalkProc<'o> {
                 catch_block,
             } => {
                 self.visit_block(try_block);
-                for caught in catch_params.iter() {
-                    let (var_name, mut type_path) = match caught.split_last() {
-                        Some(x) => x,
-                        None => continue,
-                    };
-                    match type_path.split_first() {
-                        Some((first, rest)) if first == "var" => type_path = rest,
-                        _ => {},
+                self.scoped(|this| {
+                    for caught in catch_params.iter() {
+                        let (var_name, mut type_path) = match caught.split_last() {
+                            Some(x) => x,
+                            None => continue,
+                        };
+                        match type_path.split_first() {
+                            Some((first, rest)) if first == "var" => type_path = rest,
+                            _ => {},
+                        }
+                        let var_type: VarType = type_path.iter().map(ToOwned::to_owned).collect();
+                        this.visit_var(location, &var_type, var_name, None);
                     }
-                    let var_type: VarType = type_path.iter().map(ToOwned::to_owned).collect();
-                    self.visit_var(location, &var_type, var_name, None);
-                }
-                self.visit_block(catch_block);
+                    this.visit_block(catch_block);
+                });
             },
             Statement::Continue(_) => {},
             Statement::Break(_) => {},
             Statement::Goto(_) => {},
-            Statement::Crash(_) => {},
+            Statement::Crash(message) => {
+                if let Some(message) = message {
+                    self.visit_expression(location, message, None);
+                }
+            },
             Statement::Label { name: _, block } => self.visit_block(block),
             Statement::Del(expr) => {
                 self.visit_expression(location, expr, None);
@@ -409,18 +446,26 @@ impl<'o> WalkProc<'o> {
                 if let Some(in_list) = in_list {
                     self.visit_expression(location, in_list, None);
                 }
-                if let Some(var_type) = var_type {
-                    self.visit_var(location, var_type, key, None);
-                }
-                // the "v" in a DM for (var/k, v) statement is essentially typeless.
-                // There is currently no way to change that.
-                let var_type_value = VarType {
-                    flags: VarTypeFlags::from_bits_truncate(0),
-                    type_path: Box::new([]),
-                    input_type: InputType::from_bits_truncate(0),
-                };
-                self.visit_var(location, &var_type_value, value, None);
-                self.visit_block(block);
+                self.scoped(|this| {
+                    match var_type {
+                        Some(var_type) => {
+                            this.visit_var(location, var_type, key, None);
+                            // the "v" in a DM for (var/k, v) statement is essentially typeless.
+                            // There is currently no way to change that.
+                            let var_type_value = VarType {
+                                flags: VarTypeFlags::from_bits_truncate(0),
+                                type_path: Box::new([]),
+                                input_type: InputType::from_bits_truncate(0),
+                            };
+                            this.visit_var(location, &var_type_value, value, None);
+                        },
+                        None => {
+                            this.visit_ident(location, key);
+                            this.visit_ident(location, value);
+                        },
+                    }
+                    this.visit_block(block);
+                });
             },
         }
     }
@@ -441,13 +486,12 @@ impl<'o> WalkProc<'o> {
         if let Some(expr) = value {
             self.visit_expression(location, expr, ty.basic_type());
         }
-        self.local_vars.insert(
-            name.clone(),
-            Local {
-                ty,
-                symbol: self.tab.new_symbol(location),
-            },
-        );
+        let local = Local {
+            ty,
+            symbol: self.tab.new_symbol(location),
+        };
+        let before = self.local_vars.insert(name.clone(), local);
+        self.hidden.push((name.clone(), before));
     }
 
     fn use_type(&mut self, location: Location, ty: &StaticType<'o>) {
@@ -555,6 +599,7 @@ impl<'o> WalkProc<'o> {
                 if let Some(proc) = self.ty.get_proc(unscoped_name) {
                     self.visit_call(location, src, proc, args, false)
                 } else {
+                    self.visit_arguments(location, args);
                     StaticType::None
                 }
             },
@@ -564,6 +609,7 @@ impl<'o> WalkProc<'o> {
                     // Self calls are exact, and won't ever call an override.
                     self.visit_call(location, src, proc, args, true)
                 } else {
+                    self.visit_arguments(location, args);
                     StaticType::None
                 }
             },
@@ -574,6 +620,7 @@ impl<'o> WalkProc<'o> {
                     // Parent calls are exact, and won't ever call an override.
                     self.visit_call(location, src, proc, args, true)
                 } else {
+                    self.visit_arguments(location, args);
                     StaticType::None
                 }
             },
@@ -583,11 +630,12 @@ impl<'o> WalkProc<'o> {
                 let typepath = self.visit_prefab(location, prefab);
                 self.visit_new(location, typepath, args)
             },
-            Term::NewMiniExpr { expr, .. } => {
+            Term::NewMiniExpr { expr, args } => {
                 let mut current = self.visit_ident(location, &expr.ident);
                 for field in expr.fields.iter() {
                     current = self.visit_field(location, current, &field.ident);
                 }
+                self.visit_arguments(location, args.as_deref().unwrap_or(&[]));
                 // The whole point is it's dynamic, so don't try anything
                 StaticType::None
             },
@@ -694,24 +742,24 @@ impl<'o> WalkProc<'o> {
         typepath: Option<TypeRef<'o>>,
         args: &'o Option<Box<[Expression]>>,
     ) -> StaticType<'o> {
-        if let Some(typepath) = typepath {
-            if let Some(new_proc) = typepath.get_proc("New") {
+        let args = args.as_deref().unwrap_or(&[]);
+        match typepath.and_then(|typepath| typepath.get_proc("New")) {
+            Some(new_proc) => {
                 self.visit_call(
                     location,
-                    typepath,
+                    new_proc.ty(),
                     new_proc,
-                    args.as_ref().map_or(&[], |v| &v[..]),
+                    args,
                     // New calls are exact: `new /datum()` will always call
                     // `/datum/New()` and never an override.
                     true,
                 );
-            }
+            },
             // If we had a diagnostic context here, we'd error for
             // types other than `/list`, which has no `New()`.
-            StaticType::Type(typepath)
-        } else {
-            StaticType::None
+            None => self.visit_arguments(location, args),
         }
+        typepath.map_or(StaticType::None, StaticType::Type)
     }
 
     fn visit_prefab(&mut self, location: Location, prefab: &'o Prefab) -> Option<TypeRef<'o>> {
@@ -738,6 +786,9 @@ impl<'o> WalkProc<'o> {
             }
             Some(nav.ty())
         } else {
+            for (_, expr) in prefab.vars.iter() {
+                self.visit_expression(location, expr, None);
+            }
             None
         }
     }
-- 
2.43.0


From 61c61fa12a51ece3be808e133a6965e572317454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:50 +0000
Subject: [PATCH 70/98] fix: annotate variable declarations with their 'var',
 so that /var/type/name isn't taken for a member of /type

---
 crates/dreammaker/src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index 3ebff16..2065d56 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -2911,6 +2911,7 @@ fn reconstruct_path(
         result.extend(deets.flags.iter().map(Ident::from_static));
     }
     if let Some(var) = var_type {
+        result.push(Ident::from_static("var"));
         result.extend(var.flags.iter().map(Ident::from_static));
         result.extend(var.type_path.iter().cloned());
     }
-- 
2.43.0


From 3475d169337882e83df0bb51c46f0b574a75a29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:50 +0000
Subject: [PATCH 71/98] fix: langserver: don't describe a global of the same
 name when hovering over a member

---
 crates/dm-langserver/src/main.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index f42886a..7d76273 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -1159,6 +1159,10 @@ impl Engine {
                 if !proc_value.docs.is_empty() {
                     docstring = Some(proc_value.docs.text());
                 }
+                if proc.declaration.is_some() {
+                    // a global proc of the same name is another one
+                    break;
+                }
             }
 
             if scoped {
@@ -1205,6 +1209,10 @@ impl Engine {
                 if !var.value.docs.is_empty() {
                     docstring = Some(var.value.docs.text());
                 }
+                if var.declaration.is_some() {
+                    // a global variable of the same name is another one
+                    break;
+                }
             }
 
             if scoped {
@@ -1612,6 +1620,10 @@ impl Engine {
                             if !var.value.docs.is_empty() {
                                 docstring = Some(var.value.docs.text());
                             }
+                            if var.declaration.is_some() {
+                                // a global variable of the same name is another one
+                                break;
+                            }
                         }
                         next = current.parent_type();
                     }
@@ -1674,6 +1686,10 @@ impl Engine {
                             if !proc_value.docs.is_empty() {
                                 docstring = Some(proc_value.docs.text());
                             }
+                            if proc.declaration.is_some() {
+                                // a global proc of the same name is another one
+                                break;
+                            }
                         }
                         next = current.parent_type();
                     }
-- 
2.43.0


From 47f3c567c42c3c782654eb6154224ce5d11d8ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:50 +0000
Subject: [PATCH 72/98] fix: langserver: signature help is for the innermost
 call

---
 crates/dm-langserver/src/main.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index 7d76273..dbe1458 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -2067,12 +2067,26 @@ impl Engine {
         let iter = annotations.get_location(location);
         let mut result = None;
 
-        if_annotation! { Annotation::ProcArguments(priors, proc_name, idx) in iter; {
+        // take the innermost of the calls we're in
+        let mut innermost = None;
+        for (span, annotation) in iter.clone() {
+            if let Annotation::ProcArguments(priors, proc_name, idx) = annotation {
+                if innermost.is_none_or(|(loc, _, _, _)| span.start >= loc) {
+                    innermost = Some((span.start, priors, proc_name, *idx));
+                }
+            }
+        }
+        if let Some((call_start, priors, proc_name, mut idx)) = innermost {
             // take the specific argument we're working on
-            let mut idx = *idx;
-            if_annotation! { Annotation::ProcArgument(i) in iter; {
-                idx = *i;
-            }}
+            let mut argument_start = call_start;
+            for (span, annotation) in iter.clone() {
+                if let Annotation::ProcArgument(i) = annotation {
+                    if span.start >= argument_start {
+                        argument_start = span.start;
+                        idx = *i;
+                    }
+                }
+            }
 
             let mut next = self.find_scoped_type(&iter, priors);
             while let Some(ty) = next {
@@ -2126,7 +2140,7 @@ impl Engine {
                     }
                 }
             }
-        }}
+        }
 
         Ok(result)
     }
-- 
2.43.0


From 65b59fdcb5881e746decc64e514f24fb3e3e5df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:11 +0000
Subject: [PATCH 73/98] fix: langserver: accept further headers beside
 Content-Length

---
 crates/dm-langserver/src/jrpc_io.rs | 35 ++++++++++++++++-------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/crates/dm-langserver/src/jrpc_io.rs b/crates/dm-langserver/src/jrpc_io.rs
index ff83cae..dce1219 100644
--- a/crates/dm-langserver/src/jrpc_io.rs
+++ b/crates/dm-langserver/src/jrpc_io.rs
@@ -19,29 +19,32 @@ pub fn run_with_read<R: BufRead, F: FnMut(&str)>(input: &mut R, mut f: F) {
 }
 
 fn read<R: BufRead>(input: &mut R) -> Result<Option<String>, Box<dyn std::error::Error>> {
-    // read the content-length
+    // read the headers up to the blank line
+    let mut size = None;
     let mut buffer = String::new();
-    input.read_line(&mut buffer)?;
-    if buffer.is_empty() {
-        return Ok(None);
-    }
-    let size = {
-        let parts: Vec<&str> = buffer.split(' ').collect();
-        if parts.len() != 2 {
-            eprintln!("JSON-RPC read error: parts.len() != 2\n{parts:?}");
+    loop {
+        buffer.clear();
+        input.read_line(&mut buffer)?;
+        if buffer.is_empty() {
             return Ok(None);
         }
-        if !parts[0].eq_ignore_ascii_case("content-length:") {
-            eprintln!("JSON-RPC read error: !parts[0].eq_ignore_ascii_case(\"content-length:\")\n{parts:?}");
+        let header = buffer.trim_end();
+        if header.is_empty() {
+            break;
+        }
+        let Some((name, value)) = header.split_once(':') else {
+            eprintln!("JSON-RPC read error: bad header {header:?}");
             return Ok(None);
+        };
+        if name.eq_ignore_ascii_case("content-length") {
+            size = Some(value.trim().parse::<usize>()?);
         }
-        parts[1].trim().parse::<usize>()?
+    }
+    let Some(size) = size else {
+        eprintln!("JSON-RPC read error: no content-length header");
+        return Ok(None);
     };
 
-    // skip blank line
-    buffer.clear();
-    input.read_line(&mut buffer)?;
-
     // read content
     let mut content = vec![0; size];
     input.read_exact(&mut content)?;
-- 
2.43.0


From 2ce7df8aad9a60c6286466ba8efe2d31cdaaa72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:11 +0000
Subject: [PATCH 74/98] fix: langserver: the error for unknown methods is
 'method not found'

---
 crates/dm-langserver/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index dbe1458..c9ddae0 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -1301,7 +1301,7 @@ impl Engine {
         } else {
             eprintln!("Call NYI: {} -> {:?}", call.method, params_value);
             Err(jsonrpc::Error {
-                code: jsonrpc::ErrorCode::InternalError,
+                code: jsonrpc::ErrorCode::MethodNotFound,
                 message: "not yet implemented".to_owned(),
                 data: None,
             })
-- 
2.43.0


From 5a7f9cd9ca343f8099940c499604a7890af8cd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:11 +0000
Subject: [PATCH 75/98] fix: langserver: answer a batch with an array even if
 of one

---
 crates/dm-langserver/src/main.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index c9ddae0..3e8573d 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -1235,13 +1235,22 @@ impl Engine {
     // Driver
 
     fn handle_input(&mut self, message: &str) {
-        let mut outputs: Vec<Output> = match serde_json::from_str(message) {
-            Ok(jsonrpc::Request::Single(call)) => self.handle_call(call).into_iter().collect(),
-            Ok(jsonrpc::Request::Batch(calls)) => calls
-                .into_iter()
-                .flat_map(|call| self.handle_call(call))
-                .collect(),
-            Err(decode_error) => vec![Output::Failure(jsonrpc::Failure {
+        let response = match serde_json::from_str(message) {
+            Ok(jsonrpc::Request::Single(call)) => match self.handle_call(call) {
+                Some(output) => Response::Single(output),
+                None => return, // wait for another input
+            },
+            Ok(jsonrpc::Request::Batch(calls)) => {
+                let outputs: Vec<Output> = calls
+                    .into_iter()
+                    .flat_map(|call| self.handle_call(call))
+                    .collect();
+                if outputs.is_empty() {
+                    return; // wait for another input
+                }
+                Response::Batch(outputs)
+            },
+            Err(decode_error) => Response::Single(Output::Failure(jsonrpc::Failure {
                 jsonrpc: VERSION,
                 error: jsonrpc::Error {
                     code: jsonrpc::ErrorCode::ParseError,
@@ -1249,13 +1258,7 @@ impl Engine {
                     data: None,
                 },
                 id: jsonrpc::Id::Null,
-            })],
-        };
-
-        let response = match outputs.len() {
-            0 => return, // wait for another input
-            1 => Response::Single(outputs.remove(0)),
-            _ => Response::Batch(outputs),
+            })),
         };
 
         jrpc_io::write(&serde_json::to_string(&response).expect("response bad to_string"));
-- 
2.43.0


From e2b577b02068d2a320badd361d7582646410277b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:11 +0000
Subject: [PATCH 76/98] fix: langserver: don't wrap the positions of requests

---
 crates/dm-langserver/src/main.rs | 46 +++++++++++---------------------
 1 file changed, 16 insertions(+), 30 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index 3e8573d..5ff2e5a 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -988,11 +988,7 @@ impl Engine {
     ) -> Result<Option<dm::objtree::SymbolId>, jsonrpc::Error> {
         let (_, file_id, annotations) =
             self.get_annotations(&text_document_position.text_document.uri)?;
-        let location = dm::Location {
-            file: file_id,
-            line: text_document_position.position.line + 1,
-            column: text_document_position.position.character as u16 + 1,
-        };
+        let location = position_to_location(file_id, text_document_position.position);
 
         let mut symbol_id = None;
 
@@ -1568,11 +1564,7 @@ impl Engine {
     fn HoverRequest(&mut self, params: P<HoverRequest>) -> R<HoverRequest> {
         let tdp = params.text_document_position_params;
         let (_, file_id, annotations) = self.get_annotations(&tdp.text_document.uri)?;
-        let location = dm::Location {
-            file: file_id,
-            line: tdp.position.line + 1,
-            column: tdp.position.character as u16 + 1,
-        };
+        let location = position_to_location(file_id, tdp.position);
         let symbol_id = self.symbol_id_at(tdp)?;
         let mut results = Vec::new();
 
@@ -1751,11 +1743,7 @@ impl Engine {
     fn GotoDefinition(&mut self, params: P<GotoDefinition>) -> R<GotoDefinition> {
         let tdp = params.text_document_position_params;
         let (real_file_id, file_id, annotations) = self.get_annotations(&tdp.text_document.uri)?;
-        let location = dm::Location {
-            file: file_id,
-            line: tdp.position.line + 1,
-            column: tdp.position.character as u16 + 1,
-        };
+        let location = position_to_location(file_id, tdp.position);
         let mut results = Vec::new();
 
         let iter = annotations.get_location(location);
@@ -1882,11 +1870,7 @@ impl Engine {
         // Like GotoDefinition, but only supports vars, then finds their types
         let tdp = params.text_document_position_params;
         let (_, file_id, annotations) = self.get_annotations(&tdp.text_document.uri)?;
-        let location = dm::Location {
-            file: file_id,
-            line: tdp.position.line + 1,
-            column: tdp.position.character as u16 + 1,
-        };
+        let location = position_to_location(file_id, tdp.position);
 
         let mut type_path: &[Ident] = &[];
 
@@ -1980,11 +1964,7 @@ impl Engine {
     fn Completion(&mut self, params: P<Completion>) -> R<Completion> {
         let (_, file_id, annotations) =
             self.get_annotations(&params.text_document_position.text_document.uri)?;
-        let location = dm::Location {
-            file: file_id,
-            line: params.text_document_position.position.line + 1,
-            column: params.text_document_position.position.character as u16 + 1,
-        };
+        let location = position_to_location(file_id, params.text_document_position.position);
         let iter = annotations.get_location(location);
         let mut results = Vec::new();
         let mut any_annotation = false;
@@ -2062,11 +2042,7 @@ impl Engine {
     fn SignatureHelpRequest(&mut self, params: P<SignatureHelpRequest>) -> R<SignatureHelpRequest> {
         let tdp = params.text_document_position_params;
         let (_, file_id, annotations) = self.get_annotations(&tdp.text_document.uri)?;
-        let location = dm::Location {
-            file: file_id,
-            line: tdp.position.line + 1,
-            column: tdp.position.character as u16 + 1,
-        };
+        let location = position_to_location(file_id, tdp.position);
         let iter = annotations.get_location(location);
         let mut result = None;
 
@@ -2676,6 +2652,16 @@ fn is_constructor_name(name: &str) -> bool {
     name == "New" || name == "init" || name == "Initialize"
 }
 
+fn position_to_location(file: FileId, pos: lsp_types::Position) -> dm::Location {
+    dm::Location {
+        file,
+        line: pos.line.saturating_add(1),
+        column: u16::try_from(pos.character)
+            .unwrap_or(u16::MAX)
+            .saturating_add(1),
+    }
+}
+
 fn location_to_position(loc: dm::Location) -> lsp_types::Position {
     lsp_types::Position {
         line: loc.line.saturating_sub(1),
-- 
2.43.0


From eaf95e480699136634a19bd0e1ffbacaf6119de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:11 +0000
Subject: [PATCH 77/98] fix: langserver: answer an empty batch

---
 crates/dm-langserver/src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index 5ff2e5a..ee3a99a 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -1236,6 +1236,9 @@ impl Engine {
                 Some(output) => Response::Single(output),
                 None => return, // wait for another input
             },
+            Ok(jsonrpc::Request::Batch(calls)) if calls.is_empty() => {
+                Response::Single(Output::invalid_request(jsonrpc::Id::Null, VERSION))
+            },
             Ok(jsonrpc::Request::Batch(calls)) => {
                 let outputs: Vec<Output> = calls
                     .into_iter()
-- 
2.43.0


From 8d6cb762226ee94f499db2e53082b0900774b968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:11 +0000
Subject: [PATCH 78/98] fix: find no root in an object tree without one

---
 crates/dreammaker/src/objtree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/objtree.rs b/crates/dreammaker/src/objtree.rs
index cc85758..a9d940d 100644
--- a/crates/dreammaker/src/objtree.rs
+++ b/crates/dreammaker/src/objtree.rs
@@ -744,7 +744,8 @@ impl ObjectTree {
 
     pub fn find(&self, path: &str) -> Option<TypeRef<'_>> {
         if path.is_empty() {
-            return Some(self.root());
+            // the default tree doesn't have even a root
+            return (!self.graph.is_empty()).then(|| self.root());
         }
         self.types.get(path).map(|&ix| TypeRef::new(self, ix))
     }
-- 
2.43.0


From a0a2d9cf7c50f32fce1fa4e47fa2a82721e76b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:22 +0000
Subject: [PATCH 79/98] fix: langserver: the ranges of document symbols, and
 procs without a body at the end of a block

---
 crates/dm-langserver/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index ee3a99a..dfbfc42 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -2163,7 +2163,9 @@ impl Engine {
 
             loop {
                 if let Some((range, _)) = iter.peek() {
-                    if range.start >= section_end {
+                    // bodies of procs can be empty, even at the end of a block
+                    let empty = range.start > range.end;
+                    if range.start > section_end || (range.start == section_end && !empty) {
                         break;
                     }
                 }
@@ -2173,6 +2175,7 @@ impl Engine {
                 };
 
                 let interval_tree::RangeInclusive { start, end } = child_range;
+                let end = end.add_columns(1);
                 let range = span_to_range(start..end);
                 let selection_range = location_to_range(start);
                 match annotation {
-- 
2.43.0


From 424f61da6c12f2bf8b68162a97b2de8727929f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:42 +0000
Subject: [PATCH 80/98] fix: langserver: know macros in single-file mode

---
 crates/dm-langserver/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index dfbfc42..63f8097 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -774,6 +774,7 @@ impl Engine {
                         // selective definition deletion/reintroduction is implemented.
                         self.objtree = Arc::new(parser.parse_object_tree());
                     }
+                    annotations.merge(pp.take_annotations().unwrap());
                     pp.finalize();
                     dreamchecker::run(&self.context, &self.objtree);
 
-- 
2.43.0


From e9e8797888ce1432a0afc716a64113598f7271b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:42 +0000
Subject: [PATCH 81/98] fix: langserver: document links are relative to the
 workspace

---
 crates/dm-langserver/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index 63f8097..66f6dfa 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -2388,7 +2388,11 @@ impl Engine {
                 match annotation {
                     Annotation::Include(path) | Annotation::Resource(path) => {
                         let pathbuf = if path.is_relative() {
-                            std::env::current_dir().map_err(invalid_request)?.join(path)
+                            match self.root.as_ref() {
+                                Some(root) => url_to_path(root)?,
+                                None => std::env::current_dir().map_err(invalid_request)?,
+                            }
+                            .join(path)
                         } else {
                             path.to_owned()
                         };
-- 
2.43.0


From cdc81d892ccae24a7fe54796aff1c241b6d4ef27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:10 +0000
Subject: [PATCH 82/98] fix: dreamchecker: the delay of a spawn is evaluated by
 the spawning proc

---
 crates/dreamchecker/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index bca7517..3590580 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -2024,11 +2024,11 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             },
             Statement::Setting { .. } => {},
             Statement::Spawn { delay, block } => {
-                self.inside_newcontext = self.inside_newcontext.wrapping_add(1);
                 let mut scoped_locals = local_vars.clone();
                 if let Some(delay) = delay {
                     self.visit_expression(location, delay, None, &mut scoped_locals);
                 }
+                self.inside_newcontext = self.inside_newcontext.wrapping_add(1);
                 self.visit_block(block, &mut scoped_locals, false);
                 self.inside_newcontext = self.inside_newcontext.wrapping_sub(1);
             },
-- 
2.43.0


From 5c054201b5006d06afb1c89e4d807ce1b81e2f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:10 +0000
Subject: [PATCH 83/98] fix: dreamchecker: check the arguments of every new

---
 crates/dreamchecker/src/lib.rs | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 3590580..235c332 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -2633,6 +2633,9 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     error(location, "no type hint available on implicit new()")
                         .with_errortype("no_typehint_implicit_new")
                         .register(self.context);
+                    if let Some(args) = args {
+                        self.visit_arguments(location, args, local_vars);
+                    }
                     Analysis::empty()
                 }
             },
@@ -2649,8 +2652,11 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     Analysis::empty()
                 }
             },
-            Term::NewMiniExpr { .. } => {
+            Term::NewMiniExpr { expr: _, args } => {
                 // TODO: evaluate
+                if let Some(args) = args {
+                    self.visit_arguments(location, args, local_vars);
+                }
                 Analysis::empty()
             },
 
@@ -2796,16 +2802,21 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 false,
                 local_vars,
             );
-        } else if typepath.path != "/list"
-            && typepath.path != "/alist"
-            && typepath.path != "/vector"
-            && typepath.path != "/pixloc"
-        {
-            error(
-                location,
-                format!("couldn't find {}/proc/New", typepath.path),
-            )
-            .register(self.context);
+        } else {
+            if typepath.path != "/list"
+                && typepath.path != "/alist"
+                && typepath.path != "/vector"
+                && typepath.path != "/pixloc"
+            {
+                error(
+                    location,
+                    format!("couldn't find {}/proc/New", typepath.path),
+                )
+                .register(self.context);
+            }
+            if let Some(args) = args {
+                self.visit_arguments(location, args, local_vars);
+            }
         }
         assumption_set![Assumption::IsType(true, typepath)].into()
     }
-- 
2.43.0


From a5e65919b447a98f14c5e1580d065b72f2f4cb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:40 +0000
Subject: [PATCH 84/98] fix: dreamchecker: visit the left side of an output
 statement once

---
 crates/dreamchecker/src/lib.rs | 79 +++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 34 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 235c332..928165b 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1743,16 +1743,9 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                         lhs,
                         rhs,
                     } => {
-                        let lhsanalysis = self.visit_expression(location, lhs, None, local_vars);
-                        if let Some(impurity) = lhsanalysis.is_impure {
-                            if impurity {
-                                self.env.impure_procs.insert_violator(
-                                    self.proc_ref,
-                                    "purity breaking << on expression",
-                                    location,
-                                );
-                            }
-                        }
+                        // A statement's `<<` is output, unlike one inside an expression.
+                        self.visit_lshift(location, lhs, rhs, true, local_vars);
+                        return ControlFlow::allfalse();
                     },
                     _ => {},
                 }
@@ -2287,30 +2280,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 lhs,
                 rhs,
             } => {
-                let lty = self.visit_expression(location, lhs, None, local_vars);
-
-                if lty.static_ty == StaticType::Type(self.objtree.expect("/mob")) {
-                    self.env.impure_procs.insert_violator(
-                        self.proc_ref,
-                        "LShift onto mob",
-                        location,
-                    );
-                } else if lty.static_ty == StaticType::Type(self.objtree.expect("/savefile")) {
-                    self.env.impure_procs.insert_violator(
-                        self.proc_ref,
-                        "LShift onto savefile",
-                        location,
-                    );
-                } else if lty.static_ty == StaticType::Type(self.objtree.expect("/list")) {
-                    self.env.impure_procs.insert_violator(
-                        self.proc_ref,
-                        "LShift onto list",
-                        location,
-                    );
-                }
-
-                let rty = self.visit_expression(location, rhs, None, local_vars);
-                self.visit_binary(lty, rty, BinaryOp::LShift)
+                self.visit_lshift(location, lhs, rhs, false, local_vars)
             },
             Expression::BinaryOp {
                 op: BinaryOp::In,
@@ -2450,6 +2420,47 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
         }
     }
 
+    fn visit_lshift(
+        &mut self,
+        location: Location,
+        lhs: &'o Expression,
+        rhs: &'o Expression,
+        is_statement: bool,
+        local_vars: &mut HashMap<Ident, LocalVar<'o>>,
+    ) -> Analysis<'o> {
+        let lty = self.visit_expression(location, lhs, None, local_vars);
+
+        if is_statement && lty.is_impure == Some(true) {
+            self.env.impure_procs.insert_violator(
+                self.proc_ref,
+                "purity breaking << on expression",
+                location,
+            );
+        }
+        if lty.static_ty == StaticType::Type(self.objtree.expect("/mob")) {
+            self.env.impure_procs.insert_violator(
+                self.proc_ref,
+                "LShift onto mob",
+                location,
+            );
+        } else if lty.static_ty == StaticType::Type(self.objtree.expect("/savefile")) {
+            self.env.impure_procs.insert_violator(
+                self.proc_ref,
+                "LShift onto savefile",
+                location,
+            );
+        } else if lty.static_ty == StaticType::Type(self.objtree.expect("/list")) {
+            self.env.impure_procs.insert_violator(
+                self.proc_ref,
+                "LShift onto list",
+                location,
+            );
+        }
+
+        let rty = self.visit_expression(location, rhs, None, local_vars);
+        self.visit_binary(lty, rty, BinaryOp::LShift)
+    }
+
     fn visit_term(
         &mut self,
         location: Location,
-- 
2.43.0


From d001de78fb7fd06afce6651f111681bcd5aa0c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:40 +0000
Subject: [PATCH 85/98] fix: dreamchecker: __IMPLIED_TYPE__ is the type implied

---
 crates/dreamchecker/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 928165b..9bd267d 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -2782,10 +2782,10 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 let Some(implied_type) = type_hint else {
                     return Analysis::empty();
                 };
-                let pop = dm::constants::Pop::from_path_str(&self.ty.path);
+                let pop = dm::constants::Pop::from_path_str(&implied_type.path);
                 Analysis {
                     static_ty: StaticType::None,
-                    aset: assumption_set![Assumption::IsPath(true, self.ty)],
+                    aset: assumption_set![Assumption::IsPath(true, implied_type)],
                     value: Some(Constant::Prefab(Box::new(pop))),
                     fix_hint: None,
                     is_impure: None,
-- 
2.43.0


From 7911ee7993c953c757b9af6ee67614f805f03bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:49 +0000
Subject: [PATCH 86/98] fix: dreamchecker: an element of an object is not of
 the object's type

---
 crates/dreamchecker/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 9bd267d..5314408 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -2912,7 +2912,10 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                                 .with_errortype("improper_index")
                                 .register(self.context);
                         }
-                        lhs.clone()
+                        // The elements are not what the whole is.
+                        let mut res = Analysis::empty();
+                        res.is_impure = lhs.is_impure;
+                        res
                     },
                     _ => lhs.clone(), // carry through fix_hint
                 }
-- 
2.43.0


From 315829e5f07b033be6f666ff6645cab40f01884a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:27 +0000
Subject: [PATCH 87/98] fix: a global proc is not the parent of a type's proc
 of its name

---
 crates/dreammaker/src/objtree.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/objtree.rs b/crates/dreammaker/src/objtree.rs
index a9d940d..97f9f05 100644
--- a/crates/dreammaker/src/objtree.rs
+++ b/crates/dreammaker/src/objtree.rs
@@ -471,6 +471,21 @@ impl<'a> TypeRef<'a> {
         None
     }
 
+    /// Look up a var which can be accessed on an instance of this type, so
+    /// not a global one.
+    pub fn get_member_var_declaration(self, name: &str) -> Option<&'a VarDeclaration> {
+        self.iter_parent_types()
+            .filter(|ty| self.is_root() || !ty.is_root())
+            .find_map(|ty| ty.get().vars.get(name)?.declaration.as_ref())
+    }
+
+    /// Look up a proc which can be called on an instance of this type, so not
+    /// a global one.
+    pub fn get_member_proc(self, name: &str) -> Option<ProcRef<'a>> {
+        self.get_proc(name)
+            .filter(|proc| self.is_root() || !proc.ty().is_root())
+    }
+
     pub fn get_proc_declaration(self, name: &str) -> Option<&'a ProcDeclaration> {
         let mut current: Option<TypeRef<'a>> = Some(self);
         while let Some(ty) = current {
@@ -614,7 +629,10 @@ impl<'a> ProcRef<'a> {
                 idx,
             })
         } else {
-            self.ty.parent_type().and_then(|ty| ty.get_proc(self.name))
+            // A global proc of the same name has nothing to do with this one.
+            self.ty
+                .parent_type_without_root()
+                .and_then(|ty| ty.get_member_proc(self.name))
         }
     }
 
-- 
2.43.0


From 59adea17f4388a5a9f99edfcb44f66291fd7bf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:43 +0000
Subject: [PATCH 88/98] fix: dreamchecker: global procs and vars are not
 members of objects

---
 crates/dreamchecker/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 5314408..87ffe93 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -2935,7 +2935,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                         // Special cased for now because this might be the only place it appears?
                         // Or maybe we should also handle new procpath() returning a procpath.
                         Analysis::from(StaticType::Proc)
-                    } else if let Some(decl) = ty.get_var_declaration(name) {
+                    } else if let Some(decl) = ty.get_member_var_declaration(name) {
                         if ty != self.ty && decl.var_type.flags.is_private() {
                             error(
                                 location,
@@ -3007,7 +3007,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                         found_type
                     },
                 };
-                let Some(decl) = real_type.get_var_declaration(name) else {
+                let Some(decl) = real_type.get_member_var_declaration(name) else {
                     error(
                         location,
                         format!("undefined field: {name:?} on {real_type}"),
@@ -3023,7 +3023,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             Follow::Call(kind, name, arguments) => {
                 if let Some(ty) = lhs.static_ty.basic_type() {
                     self.check_type_sleepers(ty, location, name);
-                    if let Some(proc) = ty.get_proc(name) {
+                    if let Some(proc) = ty.get_member_proc(name) {
                         if let Some((privateproc, true, decllocation)) =
                             self.env.private.get_self_or_parent(proc)
                         {
@@ -3109,7 +3109,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                         found_type
                     },
                 };
-                let Some(decl) = real_type.get_proc(name) else {
+                let Some(decl) = real_type.get_member_proc(name) else {
                     error(location, format!("undefined proc: {name:?} on {real_type}"))
                         .register(self.context);
                     return Analysis::empty();
-- 
2.43.0


From c29a19e4167528473d6c232af40cee664b8a57d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:34 +0000
Subject: [PATCH 89/98] fix: a global var is not declared on types which
 override a var of its name

---
 crates/dreammaker/src/constants.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index fe796ed..0075d6b 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -501,10 +501,25 @@ pub(crate) fn evaluate_all(context: &Context, tree: &mut ObjectTree) {
     for ty in tree.node_indices() {
         let keys: Vec<Ident> = tree[ty].vars.keys().cloned().collect();
         for key in keys {
-            if !tree[ty].get_var_declaration(&key, tree).is_none_or(|x| {
-                x.var_type.is_const_evaluable()
-                    && (x.var_type.flags.is_const() || ty != NodeIndex::new(0))
-            }) {
+            let root = NodeIndex::new(0);
+            let declaration = tree[ty].get_var_declaration(&key, tree).filter(|x| {
+                // A global var of the same name is no declaration of a type's var.
+                let global = tree[root].vars.get(&key);
+                ty == root
+                    || !global
+                        .and_then(|global| global.declaration.as_ref())
+                        .is_some_and(|global| std::ptr::eq(global, *x))
+            });
+            let Some(declaration) = declaration else {
+                context.register_error(DMError::new(
+                    tree[ty].vars[&key].value.location,
+                    format!("undefined var '{}' on type '{}'", key, tree[ty].path,),
+                ));
+                continue;
+            };
+            if !(declaration.var_type.is_const_evaluable()
+                && (declaration.var_type.flags.is_const() || ty != root))
+            {
                 continue; // skip non-constant-evaluable vars
             }
             match constant_ident_lookup(tree, ty, &key, false, Some(context)) {
-- 
2.43.0


From 9f18e48e444a145b500dfdaec2d6282e141697ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:27 +0000
Subject: [PATCH 90/98] fix: columns count UTF-16 code units, not bytes

---
 crates/dreammaker/src/lexer.rs        | 34 +++++++++++++++++++++++++--
 crates/dreammaker/src/parser.rs       |  2 +-
 crates/dreammaker/src/preprocessor.rs |  2 +-
 3 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index 3ffc69e..2d08a76 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -551,7 +551,8 @@ pub fn buffer_file(file: FileId, path: &std::path::Path) -> Result<Vec<u8>, DMEr
 /// A wrapper for an input stream which tracks line and column numbers.
 ///
 /// All characters, including tabs, are considered to occupy one column
-/// regardless of position.
+/// regardless of position, except that those outside of the basic multilingual
+/// plane occupy two, so that columns are those editors have.
 ///
 /// `io::Error`s are converted to `DMError`s which include the location.
 pub struct LocationTracker<'a> {
@@ -560,6 +561,22 @@ pub struct LocationTracker<'a> {
     /// The location of the last character returned by `next()`.
     location: Location,
     at_line_end: bool,
+    /// How many bytes are left of the character last returned by `next()`.
+    continuation: u8,
+}
+
+/// How many more bytes the UTF-8 character at the start of `bytes` has.
+fn continuation_bytes(bytes: &[u8]) -> u8 {
+    let count = match bytes[0] {
+        0xC2..=0xDF => 1,
+        0xE0..=0xEF => 2,
+        0xF0..=0xF4 => 3,
+        _ => return 0,
+    };
+    match bytes.get(..=usize::from(count)) {
+        Some(character) if std::str::from_utf8(character).is_ok() => count,
+        _ => 0,
+    }
 }
 
 impl<'a> LocationTracker<'a> {
@@ -579,6 +596,7 @@ impl<'a> LocationTracker<'a> {
                 column: 0,
             },
             at_line_end: true,
+            continuation: 0,
         };
         // Skip UTF-8 BOM
         if this.inner.starts_with(b"\xEF\xBB\xBF") {
@@ -595,6 +613,7 @@ impl<'a> LocationTracker<'a> {
             offset: 0,
             location,
             at_line_end: location.column == !0,
+            continuation: 0,
         }
     }
 
@@ -641,7 +660,18 @@ impl<'a> Iterator for LocationTracker<'a> {
             self.at_line_end = true;
         }
         // Past the limit, further characters are all reported at the last column.
-        self.location.column = self.location.column.saturating_add(1);
+        let width = match self.continuation {
+            0 => {
+                self.continuation = continuation_bytes(&self.inner[self.offset - 1..]);
+                1
+            },
+            n => {
+                self.continuation -= 1;
+                // Characters of four bytes are surrogate pairs.
+                u16::from(n == 3)
+            },
+        };
+        self.location.column = self.location.column.saturating_add(width);
         Some(ch)
     }
 }
diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index 2065d56..cde464c 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -2620,7 +2620,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
             // term :: str_lit | num_lit
             Token::String(val) => Term::String(val),
             Token::Resource(val) => {
-                self.annotate_precise(start..start.add_columns(2 + val.len() as u16), || Annotation::Resource(val.as_str().into()));
+                self.annotate_precise(start..start.add_columns(2 + val.encode_utf16().count() as u16), || Annotation::Resource(val.as_str().into()));
                 Term::Resource(val)
             },
             Token::Int(val) => Term::Int(val),
diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index ed17f80..8c4855a 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -920,7 +920,7 @@ impl<'ctx> Preprocessor<'ctx> {
 
                             if let Some(annotations) = self.annotations.as_mut() {
                                 annotations.insert(
-                                    include_loc..include_loc.add_columns(2 + path_str.len() as u16),
+                                    include_loc..include_loc.add_columns(2 + path_str.encode_utf16().count() as u16),
                                     Annotation::Include(candidate.clone()),
                                 );
                             }
-- 
2.43.0


From 59164d3ce0d60e93a3bcbdb53a4ee06dff2d4c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:27 +0000
Subject: [PATCH 91/98] fix: langserver: file names with #, ? or % are escaped
 in URLs

---
 crates/dm-langserver/src/main.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index 66f6dfa..e9c1118 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -44,7 +44,7 @@ use jsonrpc::{Call, Output, Response};
 use lsp_types::{notification::*, request::*, *};
 use std::collections::VecDeque;
 use std::collections::hash_map::Entry;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::rc::Rc;
 use std::sync::{Arc, Mutex};
 use url::Url;
@@ -173,12 +173,7 @@ struct DiagnosticsTracker {
 
 impl DiagnosticsTracker {
     fn file_url(root: Option<&Url>, file_list: &dm::FileList, file: dm::FileId) -> Option<Url> {
-        let fname_string = file_list.get_path(file).display().to_string();
-        if let Some(root) = root {
-            root.join(&fname_string).ok()
-        } else {
-            Url::parse(&fname_string).ok()
-        }
+        workspace_url(root, &file_list.get_path(file)).ok()
     }
 
     fn build(
@@ -351,13 +346,8 @@ impl Engine {
     }
 
     fn file_url(&self, file: dm::FileId) -> Result<Url, jsonrpc::Error> {
-        if let Some(ref root) = self.root {
-            root.join(&self.context.file_path(file).display().to_string())
-                .map_err(|e| invalid_request(format!("error in file_url: {e}")))
-        } else {
-            Url::parse(&self.context.file_path(file).display().to_string())
-                .map_err(|e| invalid_request(format!("error in rootless file_url {e}")))
-        }
+        workspace_url(self.root.as_ref(), &self.context.file_path(file))
+            .map_err(|e| invalid_request(format!("error in file_url: {e}")))
     }
 
     fn location_link(&self, loc: dm::Location) -> Result<String, jsonrpc::Error> {
@@ -2613,6 +2603,20 @@ fn path_to_url(path: PathBuf) -> Result<Url, jsonrpc::Error> {
     Url::from_file_path(path).map_err(|_| invalid_request(format!("bad file path: {formatted}",)))
 }
 
+fn workspace_url(root: Option<&Url>, path: &Path) -> Result<Url, url::ParseError> {
+    let path = path.display().to_string();
+    match root {
+        // Characters which would mean something else in a URL are escaped.
+        Some(root) => root.join(
+            &path
+                .replace('%', "%25")
+                .replace('?', "%3F")
+                .replace('#', "%23"),
+        ),
+        None => Url::parse(&path),
+    }
+}
+
 fn is_region_marker(line: &str, marker: &str) -> bool {
     let Some(comment) = line.strip_prefix("//") else {
         return false;
-- 
2.43.0


From 671eea0332c86f11c5a72e0fd663d4cc7d260324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:24 +0000
Subject: [PATCH 92/98] fix: spaces around paths, names and values in a map
 file are not part of them

---
 crates/dmm-tools/src/dmm/read.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index c70ca8d..fa3e33e 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -110,7 +110,6 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                 } else {
                     // in_quote_block
                     if skip_whitespace && ch == b' ' {
-                        skip_whitespace = false;
                         continue;
                     }
                     skip_whitespace = false;
@@ -152,16 +151,17 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                     }
                 }
             } else if ch == b'{' {
-                curr_prefab.path = from_utf8_or_latin1(take(&mut curr_datum));
+                curr_prefab.path = take_path(&mut curr_datum);
                 in_varedit_block = true;
+                skip_whitespace = true;
             } else if ch == b',' {
                 if curr_prefab.path.is_empty() && !curr_datum.is_empty() {
-                    curr_prefab.path = from_utf8_or_latin1(take(&mut curr_datum));
+                    curr_prefab.path = take_path(&mut curr_datum);
                 }
                 curr_data.push(take(&mut curr_prefab));
             } else if ch == b')' {
                 if curr_prefab.path.is_empty() && !curr_datum.is_empty() {
-                    curr_prefab.path = from_utf8_or_latin1(take(&mut curr_datum));
+                    curr_prefab.path = take_path(&mut curr_datum);
                 }
                 curr_data.push(take(&mut curr_prefab));
                 let key = take(&mut curr_key);
@@ -359,6 +359,10 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     result
 }
 
+fn take_path(datum: &mut Vec<u8>) -> String {
+    from_utf8_or_latin1(take(datum)).trim().to_owned()
+}
+
 fn advance_key(loc: Location, curr_key: KeyType, ch: u8) -> Result<KeyType, DMError> {
     match super::base_52_reverse(ch) {
         Err(err) => Err(DMError::new(loc, err)),
-- 
2.43.0


From 72e2d18190abf711b78965bfab1c6ba9ee7ece78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:24 +0000
Subject: [PATCH 93/98] fix: maps with undefined or incomplete keys in the grid
 are rejected

---
 crates/dmm-tools/src/dmm/read.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index fa3e33e..36e03d7 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -287,6 +287,12 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                 }
             }
         } else if in_map_string {
+            if matches!(ch, b'"' | b'\r' | b'\n') && curr_key_length != 0 {
+                return Err(DMError::new(
+                    chars.location(),
+                    format!("incomplete key at the end of a row, keys have length {}", map.key_length),
+                ));
+            }
             if ch == b'"' {
                 in_map_string = false;
                 adjust_y = true;
@@ -306,6 +312,12 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                 if curr_key_length == map.key_length {
                     let key = take(&mut curr_key);
                     curr_key_length = 0;
+                    if !map.dictionary.contains_key(&Key(key)) {
+                        return Err(DMError::new(
+                            chars.location(),
+                            format!("undefined key \"{}\"", map.format_key(Key(key))),
+                        ));
+                    }
                     if grid.insert((curr_x, curr_y, curr_z), Key(key)).is_some() {
                         return Err(DMError::new(
                             chars.location(),
-- 
2.43.0


From 71ece7c35f2ca1565b0ea0be8f38127adede9505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:24 +0000
Subject: [PATCH 94/98] fix: maps with tiles above the last block or at
 coordinate 0 are not cut down

---
 crates/dmm-tools/src/dmm/read.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index 36e03d7..2d17871 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -325,6 +325,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                         ));
                     }
                     max_x = max(max_x, curr_x);
+                    max_y = max(max_y, curr_y);
                     curr_x += 1;
                 }
             }
@@ -347,7 +348,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     if max_x
         .checked_mul(max_y)
         .and_then(|n| n.checked_mul(max_z))
-        .is_none_or(|n| n > grid.len())
+        .is_none_or(|n| n != grid.len())
     {
         return Err(DMError::new(
             chars.location(),
-- 
2.43.0


From 4770d5f29b3a9b93852f62c504d08c0b8701e4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:00 +0000
Subject: [PATCH 95/98] fix: render passes don't panic where a code base lacks
 a type they use

---
 .../src/render_passes/icon_smoothing.rs       | 12 +++------
 .../src/render_passes/icon_smoothing_2020.rs  | 12 +++------
 .../src/render_passes/icon_smoothing_2025.rs  | 12 +++------
 crates/dmm-tools/src/render_passes/mod.rs     | 26 +++++++++++++------
 .../dmm-tools/src/render_passes/structures.rs | 12 +++++----
 5 files changed, 34 insertions(+), 40 deletions(-)

diff --git a/crates/dmm-tools/src/render_passes/icon_smoothing.rs b/crates/dmm-tools/src/render_passes/icon_smoothing.rs
index 0448b83..81c8121 100644
--- a/crates/dmm-tools/src/render_passes/icon_smoothing.rs
+++ b/crates/dmm-tools/src/render_passes/icon_smoothing.rs
@@ -6,7 +6,7 @@ use dm::ast::FormatTreePath;
 use dm::constants::Constant;
 use dm::objtree::ObjectTree;
 
-use super::RenderPass;
+use super::{RenderPass, add_type};
 
 // (1 << N) where N is the usual value
 const N_NORTH: i32 = 2;
@@ -244,10 +244,7 @@ fn diagonal_smooth<'a>(
             .index(&Constant::string("space"))
             .is_some()
         {
-            output.push(Sprite::from_vars(
-                objtree,
-                &objtree.expect("/turf/open/space/basic"),
-            ));
+            add_type(output, objtree, "/turf/open/space/basic");
         } else {
             let dir = reverse_ndir(adjacencies).flip();
             let mut needs_plating = true;
@@ -263,10 +260,7 @@ fn diagonal_smooth<'a>(
                 }
             }
             if needs_plating {
-                output.push(Sprite::from_vars(
-                    objtree,
-                    &objtree.expect("/turf/open/floor/plating"),
-                ));
+                add_type(output, objtree, "/turf/open/floor/plating");
             }
         }
     }
diff --git a/crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs b/crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs
index 456d8c5..90f4795 100644
--- a/crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs
+++ b/crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs
@@ -10,7 +10,7 @@ use dm::constants::Constant;
 use dm::objtree::ObjectTree;
 use foldhash::HashSet;
 
-use super::RenderPass;
+use super::{RenderPass, add_type};
 
 const NORTH_JUNCTION: i32 = 1 << 0;
 const SOUTH_JUNCTION: i32 = 1 << 1;
@@ -308,10 +308,7 @@ fn diagonal_underlay<'a>(
         .index(&Constant::string("space"))
         .is_some()
     {
-        output.push(Sprite::from_vars(
-            objtree,
-            &objtree.expect("/turf/open/space/basic"),
-        ));
+        add_type(output, objtree, "/turf/open/space/basic");
     } else if let Some(dir) = reverse_ndir(adjacencies) {
         let dir = dir.flip();
         let mut needs_plating = true;
@@ -327,10 +324,7 @@ fn diagonal_underlay<'a>(
             }
         }
         if needs_plating {
-            output.push(Sprite::from_vars(
-                objtree,
-                &objtree.expect("/turf/open/floor/plating"),
-            ));
+            add_type(output, objtree, "/turf/open/floor/plating");
         }
     }
 }
diff --git a/crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs b/crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs
index ba5003a..f68248d 100644
--- a/crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs
+++ b/crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs
@@ -9,7 +9,7 @@ use dm::constants::Constant;
 use dm::objtree::ObjectTree;
 use foldhash::HashSet;
 
-use super::RenderPass;
+use super::{RenderPass, add_type};
 
 const NORTH_JUNCTION: i32 = 1 << 0;
 const SOUTH_JUNCTION: i32 = 1 << 1;
@@ -185,10 +185,7 @@ fn diagonal_underlay<'a>(
         .index(&Constant::string("space"))
         .is_some()
     {
-        output.push(Sprite::from_vars(
-            objtree,
-            &objtree.expect("/turf/open/space/basic"),
-        ));
+        add_type(output, objtree, "/turf/open/space/basic");
     } else if let Some(dir) = reverse_ndir(adjacencies) {
         let dir = dir.flip();
         let mut needs_plating = true;
@@ -204,10 +201,7 @@ fn diagonal_underlay<'a>(
             }
         }
         if needs_plating {
-            output.push(Sprite::from_vars(
-                objtree,
-                &objtree.expect("/turf/open/floor/plating"),
-            ));
+            add_type(output, objtree, "/turf/open/floor/plating");
         }
     }
 }
diff --git a/crates/dmm-tools/src/render_passes/mod.rs b/crates/dmm-tools/src/render_passes/mod.rs
index e1f3a49..e7070c9 100644
--- a/crates/dmm-tools/src/render_passes/mod.rs
+++ b/crates/dmm-tools/src/render_passes/mod.rs
@@ -255,6 +255,13 @@ fn add_to<'a>(target: &mut Vec<Sprite<'a>>, atom: &Atom<'a>, icon_state: &'a str
     });
 }
 
+/// Add the appearance of a type, which the codebase might not have.
+fn add_type<'a>(target: &mut Vec<Sprite<'a>>, objtree: &'a ObjectTree, path: &str) {
+    if let Some(ty) = objtree.find(path) {
+        target.push(Sprite::from_vars(objtree, &ty));
+    }
+}
+
 #[derive(Default)]
 pub struct HideSpace;
 impl RenderPass for HideSpace {
@@ -265,7 +272,9 @@ impl RenderPass for HideSpace {
         output: &mut Vec<Atom<'a>>,
     ) -> bool {
         if atom.istype("/turf/template_noop/") {
-            output.push(Atom::from(objtree.expect("/turf/open/space")));
+            if let Some(space) = objtree.find("/turf/open/space") {
+                output.push(Atom::from(space));
+            }
             false
         } else {
             true
@@ -497,13 +506,14 @@ impl RenderPass for Overlays {
             }
 
             // APC terminals
-            let mut terminal =
-                Sprite::from_vars(objtree, &objtree.expect("/obj/machinery/power/terminal"));
-            terminal.dir = atom.sprite.dir;
-            // TODO: un-hack this
-            FancyLayers::default()
-                .apply_fancy_layer("/obj/machinery/power/terminal", &mut terminal);
-            underlays.push(terminal);
+            if let Some(ty) = objtree.find("/obj/machinery/power/terminal") {
+                let mut terminal = Sprite::from_vars(objtree, &ty);
+                terminal.dir = atom.sprite.dir;
+                // TODO: un-hack this
+                FancyLayers::default()
+                    .apply_fancy_layer("/obj/machinery/power/terminal", &mut terminal);
+                underlays.push(terminal);
+            }
         }
     }
 }
diff --git a/crates/dmm-tools/src/render_passes/structures.rs b/crates/dmm-tools/src/render_passes/structures.rs
index 92648a5..db670d6 100644
--- a/crates/dmm-tools/src/render_passes/structures.rs
+++ b/crates/dmm-tools/src/render_passes/structures.rs
@@ -25,7 +25,9 @@ impl RenderPass for Spawners {
                         },
                         _ => continue,
                     };
-                    output.push(Atom::from(objtree.expect(reference)));
+                    if let Some(ty) = objtree.find(reference) {
+                        output.push(Atom::from(ty));
+                    }
                 }
                 false // don't include the original atom
             },
@@ -49,6 +51,9 @@ impl RenderPass for GravityGen {
             return;
         }
 
+        let Some(part) = objtree.find("/obj/machinery/gravity_generator/part") else {
+            return;
+        };
         for &(count, icon_state, x, y) in &[
             (1, "on_1", 1, 2),
             (2, "on_2", 0, 2),
@@ -59,10 +64,7 @@ impl RenderPass for GravityGen {
             (7, "on_7", 1, 0),
             (9, "on_9", -1, 0),
         ] {
-            let mut sprite = Sprite::from_vars(
-                objtree,
-                &objtree.expect("/obj/machinery/gravity_generator/part"),
-            );
+            let mut sprite = Sprite::from_vars(objtree, &part);
             sprite.ofs_x += 32 * x;
             sprite.ofs_y += 32 * y;
             sprite.icon_state = icon_state;
-- 
2.43.0


From f796f1e71765117d16cc8ba83e4ba257ebb32905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:00 +0000
Subject: [PATCH 96/98] fix: random spawners whose weights are all zero don't
 panic

---
 crates/dmm-tools/src/render_passes/random.rs | 40 ++++++++++----------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/crates/dmm-tools/src/render_passes/random.rs b/crates/dmm-tools/src/render_passes/random.rs
index 85afecc..c90b68d 100644
--- a/crates/dmm-tools/src/render_passes/random.rs
+++ b/crates/dmm-tools/src/render_passes/random.rs
@@ -66,7 +66,9 @@ impl RenderPass for Random {
                 let mut loot_spawned = 0;
 
                 while loot_spawned < lootcount && !loot.is_empty() {
-                    let lootspawn = pickweight(&loot);
+                    let Some(lootspawn) = pickweight(&loot) else {
+                        break;
+                    };
                     /*while let Constant::List(ref list) = lootspawn {
                         lootspawn = pickweight(list);
                     }*/
@@ -204,26 +206,26 @@ impl RenderPass for Random {
     }
 }
 
-fn pickweight<'a>(list: &[&'a (Constant, Option<Constant>)]) -> &'a Constant {
-    let mut total: i32 = list
-        .iter()
-        .map(|(_, v)| {
-            v.as_ref()
-                .unwrap_or_else(Constant::null)
-                .to_int()
-                .unwrap_or(1)
-        })
-        .sum();
-    total = rand::rng().random_range(1..=total);
-    for (k, v) in list.iter() {
-        total -= v
-            .as_ref()
+/// Pick an entry by its weight, or none of them if all the weights are zero.
+fn pickweight<'a>(list: &[&'a (Constant, Option<Constant>)]) -> Option<&'a Constant> {
+    let weight = |v: &Option<Constant>| -> i64 {
+        v.as_ref()
             .unwrap_or_else(Constant::null)
             .to_int()
-            .unwrap_or(1);
-        if total <= 0 {
-            return k;
+            .unwrap_or(1)
+            .into()
+    };
+
+    let total: i64 = list.iter().map(|(_, v)| weight(v)).sum();
+    if total < 1 {
+        return None;
+    }
+    let mut roll = rand::rng().random_range(1..=total);
+    for (k, v) in list.iter() {
+        roll -= weight(v);
+        if roll <= 0 {
+            return Some(k);
         }
     }
-    Constant::null()
+    None
 }
-- 
2.43.0


From 34cbece28772b376f3ac18b5ddc99b1d6b46d9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:01 +0000
Subject: [PATCH 97/98] fix: the random pass shows bar signs which aren't
 hidden, not those which are

---
 crates/dmm-tools/src/render_passes/random.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dmm-tools/src/render_passes/random.rs b/crates/dmm-tools/src/render_passes/random.rs
index c90b68d..a3f1c23 100644
--- a/crates/dmm-tools/src/render_passes/random.rs
+++ b/crates/dmm-tools/src/render_passes/random.rs
@@ -157,7 +157,7 @@ impl RenderPass for Random {
                 let mut signs = Vec::new();
                 for child in root.children() {
                     if let Some(v) = child.vars.get("hidden") {
-                        if !v.value.constant.as_ref().is_some_and(|c| c.to_bool()) {
+                        if v.value.constant.as_ref().is_some_and(|c| c.to_bool()) {
                             continue;
                         }
                     }
-- 
2.43.0


From ede2223be221482a20c9b1111e2883f2850b8f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:01 +0000
Subject: [PATCH 98/98] fix: names in nested blocks are looked up from the
 innermost block

---
 crates/dm-langserver/src/completion.rs |  8 ++++++--
 crates/dm-langserver/src/main.rs       | 13 ++++++++-----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/crates/dm-langserver/src/completion.rs b/crates/dm-langserver/src/completion.rs
index 5c3f1b9..a5df38b 100644
--- a/crates/dm-langserver/src/completion.rs
+++ b/crates/dm-langserver/src/completion.rs
@@ -159,13 +159,17 @@ where
 
     let mut prefix_parts = &[][..];
     if !absolute {
-        if_annotation! { Annotation::TreeBlock(parts) in iter; {
+        // of the blocks around us, the last to start is the innermost
+        for (_, annotation) in iter.clone() {
+            let Annotation::TreeBlock(parts) = annotation else {
+                continue;
+            };
             prefix_parts = parts;
             if let Some(i) = prefix_parts.iter().position(|x| x == "var") {
                 // if we're inside a 'var' block, start the lookup there
                 prefix_parts = &prefix_parts[i+1..];
             }
-        }}
+        }
     }
 
     prefix_parts.iter().chain(parts).map(|x| &**x)
diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index e9c1118..e3724de 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -858,15 +858,18 @@ impl Engine {
             found = self.objtree.type_by_path(proc_path);
         }}
         if found.is_none() {
-            if_annotation! { Annotation::TreeBlock(tree_path) in iter; {
+            // of the blocks around us, the last to start is the innermost
+            for (_, annotation) in iter.clone() {
+                let Annotation::TreeBlock(tree_path) = annotation else {
+                    continue;
+                };
                 // cut off if we're in a declaration block
                 let mut tree_path = &tree_path[..];
-                match tree_path.split_last() {
-                    Some((kwd, rest)) if kwd == "proc" || kwd == "verb" || kwd == "var" => tree_path = rest,
-                    _ => {}
+                if let Some(i) = tree_path.iter().position(|x| x == "proc" || x == "verb" || x == "var") {
+                    tree_path = &tree_path[..i];
                 }
                 found = self.objtree.type_by_path(tree_path);
-            }}
+            }
         }
         (found, proc_name)
     }
-- 
2.43.0

