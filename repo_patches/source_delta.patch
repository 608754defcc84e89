From 3a3a5391ee20d1c2504cbf96598933cddf1cbfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:47 +0000
Subject: [PATCH 01/68] fix: drop the lookahead tokens when the parser
 backtracks

{a-1=>2} was parsed as {a=>...}: after restore_state() the token peeked
before backtracking was still taken for the next one.
---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 45dfc29..2b9e319 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -112,6 +112,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     fn restore_state(&mut self, state: (usize, usize)) {
         self.lexer.restore_state(state);
+        // Tokens peeked after `state` was saved are no longer the next tokens.
+        self.lexer.flush();
     }
 
     fn scope_mut(&mut self) -> &mut LvarScope {
-- 
2.43.0


From 340aae6f2637ad210ee1a5cfaed80339c4d90faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:47 +0000
Subject: [PATCH 02/68] fix: reject a non-hex character in "\u{...}" instead of
 looping forever

---
 src/parser/lexer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index f708b18..7791fe6 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -919,6 +919,12 @@ impl<'a> Lexer<'a> {
                 u = u * 16 + h;
                 i += 1;
             }
+            if i == 0 {
+                return Err(Self::error_parse(
+                    "Invalid Unicode escape sequence.",
+                    self.pos,
+                ));
+            }
         };
         if let Some(u) = char::from_u32(u) {
             s.push_char(u);
-- 
2.43.0


From 9a7d5c3278b7526e45cc775cbc3e36f8a388e45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 03/68] fix: report end of input instead of panicking when an
 unexpected char is EOF

":", "0e" and "<<" at the end of the program panicked in
Lexer::error_unexpected().
---
 src/parser/lexer.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 7791fe6..efb89f0 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -82,14 +82,13 @@ impl<'a> Lexer<'a> {
     }
 
     fn error_unexpected(&self, pos: usize) -> LexerErr {
-        let loc = Loc(pos, pos);
-        LexerErr(
-            ParseErrKind::SyntaxError(format!(
-                "Unexpected char. {:?}",
-                self.code[pos..].chars().next().unwrap()
-            )),
-            loc,
-        )
+        match self.code[pos..].chars().next() {
+            Some(ch) => LexerErr(
+                ParseErrKind::SyntaxError(format!("Unexpected char. {:?}", ch)),
+                Loc(pos, pos),
+            ),
+            None => Self::error_eof(pos),
+        }
     }
 
     fn error_eof(pos: usize) -> LexerErr {
-- 
2.43.0


From 72a6f4c6ce23f90ad92b97bbf8788c7badbbd9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:09 +0000
Subject: [PATCH 04/68] fix: do not panic in Parser::loc() when the next token
 is not lexable

?" , ?$ , ?@ and "def f(@" panicked.
---
 src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2b9e319..012fb37 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -276,7 +276,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     fn loc(&mut self) -> Loc {
-        self.peek_no_term().unwrap().loc()
+        match self.peek_no_term() {
+            Ok(tok) => tok.loc(),
+            // The error itself is reported when the token is consumed.
+            Err(err) => err.1,
+        }
     }
 
     fn prev_loc(&self) -> Loc {
-- 
2.43.0


From 170216e69c69aeda23e7fad48e1db1e1d058b46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:10 +0000
Subject: [PATCH 05/68] fix: locate a character literal by its own text

The location of ?x was taken from whatever token the text after the "?"
happened to lex to.
---
 src/parser/lexer.rs    | 5 +++--
 src/parser/literals.rs | 5 ++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index efb89f0..5696a91 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -937,7 +937,8 @@ impl<'a> Lexer<'a> {
     }
 
     /// Read char literal.
-    pub(crate) fn read_char_literal(&mut self, buf: &mut RubyString) -> Result<(), LexerErr> {
+    pub(crate) fn read_char_literal(&mut self, buf: &mut RubyString) -> Result<Loc, LexerErr> {
+        self.token_start_pos = self.pos;
         let c = self.get()?;
         self.flush();
         if c == '\\' {
@@ -945,7 +946,7 @@ impl<'a> Lexer<'a> {
         } else {
             buf.push_char(c);
         };
-        Ok(())
+        Ok(self.cur_loc())
     }
 
     /// Convert postfix of regular expression.
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 25531d0..439fac3 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -4,10 +4,9 @@ use super::*;
 impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     /// Parse char literals.
     pub(super) fn parse_char_literal(&mut self) -> Result<Node, LexerErr> {
-        let loc = self.loc();
         let mut s = RubyString::new();
-        self.lexer.read_char_literal(&mut s)?;
-        Ok(Node::new_string(s, loc.merge(self.prev_loc)))
+        let end_loc = self.lexer.read_char_literal(&mut s)?;
+        Ok(Node::new_string(s, self.prev_loc().merge(end_loc)))
     }
 
     /// Parse string literals.
-- 
2.43.0


From bdb5fbe2e3494380f83838994ea03689e5d323bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 06/68] fix: parse a unary minus below another unary operator
 or "**"

!-a, ~-a and 2**-a panicked with "entered unreachable code".
---
 src/parser/expression.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 496d987..8072d54 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -755,14 +755,27 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 Ok(Node::new_command(content))
             }
             TokenKind::Punct(punct) => match punct {
-                Punct::Minus => match self.get()?.kind {
-                    TokenKind::IntegerLit(num) => match num.checked_neg() {
-                        Some(i) => Ok(Node::new_integer(i, loc)),
-                        None => Ok(Node::new_bignum(-BigInt::from(num), loc)),
-                    },
-                    TokenKind::BignumLit(num) => Ok(Node::new_bignum(-num, loc)),
-                    TokenKind::FloatLit(num) => Ok(Node::new_float(-num, loc)),
-                    _ => unreachable!(),
+                Punct::Minus => match self.peek()?.kind {
+                    TokenKind::IntegerLit(num) => {
+                        self.get()?;
+                        match num.checked_neg() {
+                            Some(i) => Ok(Node::new_integer(i, loc)),
+                            None => Ok(Node::new_bignum(-BigInt::from(num), loc)),
+                        }
+                    }
+                    TokenKind::BignumLit(num) => {
+                        self.get()?;
+                        Ok(Node::new_bignum(-num, loc))
+                    }
+                    TokenKind::FloatLit(num) => {
+                        self.get()?;
+                        Ok(Node::new_float(-num, loc))
+                    }
+                    _ => {
+                        // e.g. `!-a`, `2**-a`
+                        let operand = self.parse_exponent()?;
+                        Ok(Node::new_unop(UnOp::Neg, operand, loc))
+                    }
                 },
                 Punct::LParen => {
                     let old = self.suppress_mul_assign;
-- 
2.43.0


From 5eb4c5c5e20de596352c767575a34b584eed9728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:41 +0000
Subject: [PATCH 07/68] fix: let the location of a negative number cover its
 digits

---
 src/parser/expression.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 8072d54..6c33210 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -757,18 +757,18 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             TokenKind::Punct(punct) => match punct {
                 Punct::Minus => match self.peek()?.kind {
                     TokenKind::IntegerLit(num) => {
-                        self.get()?;
+                        let loc = loc.merge(self.get()?.loc());
                         match num.checked_neg() {
                             Some(i) => Ok(Node::new_integer(i, loc)),
                             None => Ok(Node::new_bignum(-BigInt::from(num), loc)),
                         }
                     }
                     TokenKind::BignumLit(num) => {
-                        self.get()?;
+                        let loc = loc.merge(self.get()?.loc());
                         Ok(Node::new_bignum(-num, loc))
                     }
                     TokenKind::FloatLit(num) => {
-                        self.get()?;
+                        let loc = loc.merge(self.get()?.loc());
                         Ok(Node::new_float(-num, loc))
                     }
                     _ => {
-- 
2.43.0


From fa17150245d25f7cdcd26dd371a508acd39a3bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:42 +0000
Subject: [PATCH 08/68] fix: read -9223372036854775808 as an Integer

It fits in an i64, but was the only such literal represented as a Bignum.
---
 src/parser/expression.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 6c33210..1efd571 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1,4 +1,5 @@
 use super::*;
+use num::ToPrimitive;
 
 impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     pub(super) fn parse_comp_stmt(&mut self) -> Result<Node, LexerErr> {
@@ -765,7 +766,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     }
                     TokenKind::BignumLit(num) => {
                         let loc = loc.merge(self.get()?.loc());
-                        Ok(Node::new_bignum(-num, loc))
+                        let num = -num;
+                        match num.to_i64() {
+                            Some(i) => Ok(Node::new_integer(i, loc)),
+                            None => Ok(Node::new_bignum(num, loc)),
+                        }
                     }
                     TokenKind::FloatLit(num) => {
                         let loc = loc.merge(self.get()?.loc());
-- 
2.43.0


From 7a69fd6615629fdedc8c79ceebe8f8bb2b083d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:43 +0000
Subject: [PATCH 09/68] fix: do not truncate octal and binary literals to 64
 bits

0b followed by 64 ones was read as -1 and 65 or more digits overflowed;
hexadecimal literals already became bignums.
---
 src/parser/lexer.rs | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 5696a91..cb6cc75 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -706,56 +706,53 @@ impl<'a> Lexer<'a> {
 
         while self.consume_hex().is_some() || self.consume('_') {}
 
+        self.new_radix_lit(start_pos, 16)
+    }
+
+    /// Make a number token from the digits between `start_pos` and the current position.
+    fn new_radix_lit(&self, start_pos: usize, radix: u32) -> Result<Token, LexerErr> {
         let s = &self.code[start_pos..self.pos];
-        match BigInt::parse_bytes(s.as_bytes(), 16) {
+        match BigInt::parse_bytes(s.as_bytes(), radix) {
             Some(b) => match b.to_i64() {
                 Some(i) => Ok(self.new_numlit(i)),
                 None => Ok(self.new_bignumlit(b)),
             },
-            None => Err(Self::error_parse("Invalid hex number literal.", self.pos)),
+            None => Err(Self::error_parse("Invalid number literal.", self.pos)),
         }
     }
 
     /// Read octal number.
     fn read_octal_number(&mut self) -> Result<Token, LexerErr> {
-        let mut val = match self.peek() {
-            Some(ch @ '0'..='7') => ch as u64 - '0' as u64,
+        let start_pos = self.pos;
+        match self.peek() {
+            Some('0'..='7') => {}
             Some(_) => {
                 return Err(self.error_unexpected(self.pos));
             }
             None => return Err(Self::error_eof(self.pos)),
         };
         self.get()?;
-        loop {
-            match self.peek() {
-                Some(ch @ '0'..='7') => val = val * 8 + (ch as u64 - '0' as u64),
-                Some('_') => {}
-                _ => break,
-            }
+        while let Some('0'..='7' | '_') = self.peek() {
             self.get()?;
         }
-        Ok(self.new_numlit(val as i64))
+        self.new_radix_lit(start_pos, 8)
     }
 
     /// Read binary number.
     fn read_bin_number(&mut self) -> Result<Token, LexerErr> {
-        let mut val = match self.peek() {
-            Some(ch @ '0'..='1') => ch as u64 - '0' as u64,
+        let start_pos = self.pos;
+        match self.peek() {
+            Some('0'..='1') => {}
             Some(_) => {
                 return Err(self.error_unexpected(self.pos));
             }
             None => return Err(Self::error_eof(self.pos)),
         };
         self.get()?;
-        loop {
-            match self.peek() {
-                Some(ch @ '0'..='1') => val = val * 2 + (ch as u64 - '0' as u64),
-                Some('_') => {}
-                _ => break,
-            }
+        while let Some('0'..='1' | '_') = self.peek() {
             self.get()?;
         }
-        Ok(self.new_numlit(val as i64))
+        self.new_radix_lit(start_pos, 2)
     }
 
     /// Read string literal ("..", %Q{..}, %{..})
-- 
2.43.0


From 931c4af78e4712ee024a67d9f86e89c809c42b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 10/68] fix: accept interpolation in a command here document

<<`A` with #{..} in its body panicked with "entered unreachable code".
---
 src/parser/literals.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 439fac3..8a20bd5 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -164,7 +164,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 let content = Node::new_string(s.into(), loc);
                 Node::new_command(content)
             }
-            TokenKind::OpenString(s, term, level) => {
+            TokenKind::OpenCommand(s, term, level) => {
                 let content = self.parse_interporated_string_literal(s.into(), term, level)?;
                 Node::new_command(content)
             }
-- 
2.43.0


From c4071371ccfd2ff66a793cb10a0d8277d0ff6d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:11 +0000
Subject: [PATCH 11/68] fix: accept class variables and special variables in a
 template

"#@@a", "#$1" and "#$&" panicked with "entered unreachable code".
---
 src/parser/literals.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 8a20bd5..7406dae 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -316,7 +316,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         Ok(Node::new_lambda(params, body, lvar, loc))
     }
 
-    /// Parse template (#{..}, #$s, #@a).
+    /// Parse template (#{..}, #$s, #@a, #@@a).
     fn parse_template(&mut self, nodes: &mut Vec<Node>) -> Result<(), LexerErr> {
         if self.consume_punct(Punct::LBrace)? {
             nodes.push(self.parse_comp_stmt()?);
@@ -330,6 +330,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             let node = match tok.kind {
                 TokenKind::GlobalVar(name) => Node::new_global_var(name, loc),
                 TokenKind::InstanceVar(name) => Node::new_instance_var(name, loc),
+                TokenKind::ClassVar(name) => Node::new_class_var(name, loc),
+                TokenKind::SpecialVar(id) => Node::new_special_var(id, loc),
                 _ => unreachable!("{:?}", tok),
             };
             nodes.push(node);
-- 
2.43.0


From dc60eb0fbac50102dafa234c823acc61faa5c8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:11 +0000
Subject: [PATCH 12/68] fix: reject a numbered reference which does not fit in
 u32

$4294967296 overflowed: a panic in debug builds, another variable in
release builds.
---
 src/parser/lexer.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index cb6cc75..91505a0 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -411,11 +411,16 @@ impl<'a> Lexer<'a> {
             if ch == '0' {
                 return Ok(self.new_global_var("$0"));
             }
-            let mut id = ch as u32 - '0' as u32;
+            let mut id = Some(ch as u32 - '0' as u32);
             while let Some(ch) = self.consume_numeric() {
-                id = id * 10 + ch as u32 - '0' as u32;
+                id = id
+                    .and_then(|id| id.checked_mul(10))
+                    .and_then(|id| id.checked_add(ch as u32 - '0' as u32));
+            }
+            match id.and_then(|id| id.checked_add(100)) {
+                Some(id) => Ok(self.new_special_var(id)),
+                None => Err(Self::error_parse("Too big numbered reference.", self.pos)),
             }
-            Ok(self.new_special_var(id as u32 + 100))
         } else {
             let tok = match self.peek() {
                 Some(ch) if ch.is_ascii_punctuation() => {
-- 
2.43.0


From cbe509fe0269d45fc97fbc5c3c89505ecbe89268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:12 +0000
Subject: [PATCH 13/68] fix: read an octal escape above \177 as a byte, as
 "\x.." is

"\377" was read as the character U+00FF (two bytes) instead of the byte 0xff.
---
 src/parser/lexer.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 91505a0..b0d9328 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -1139,10 +1139,13 @@ impl<'a> Lexer<'a> {
                 return Ok(());
             }
             c if ('0'..='7').contains(&c) => {
-                if let Some(num) = self.consume_tri_octal(c) {
-                    num as char
-                } else {
-                    c
+                match self.consume_tri_octal(c) {
+                    Some(num) if num > 0x7f => {
+                        buf.push_byte(num);
+                        return Ok(());
+                    }
+                    Some(num) => num as char,
+                    None => c,
                 }
             }
             c => c,
-- 
2.43.0


From 193eb162ba814cd0e0c4b368a0e8f36b2cfbf9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:13 +0000
Subject: [PATCH 14/68] fix: keep "&." in a&.b 1 and a&.(1)

Both were parsed as the unconditional call.
---
 src/parser/expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 1efd571..2d80dd6 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -619,7 +619,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         if self.consume_punct_no_term(Punct::LParen)? {
             let arglist = self.parse_arglist_block(Punct::RParen)?;
             //let loc = receiver.loc().merge(self.loc());
-            let node = Node::new_mcall(receiver, "call".to_string(), arglist, false, loc);
+            let node = Node::new_mcall(receiver, "call".to_string(), arglist, safe_nav, loc);
             return Ok(node);
         };
         let (id, loc) = self.read_method_name(false)?;
@@ -631,7 +631,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     receiver,
                     id,
                     self.parse_arglist_block(None)?,
-                    false,
+                    safe_nav,
                     loc,
                 ));
             }
-- 
2.43.0


From 1ecd698164207d0701b7fe4df2cb4a7a8031eed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:14 +0000
Subject: [PATCH 15/68] fix: keep the backreferences \2 to \7 in a regular
 expression

The comparison was the wrong way round: they were replaced by the
character with that octal code, and \0 was not.
---
 src/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index b0d9328..f9c07be 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -1033,7 +1033,7 @@ impl<'a> Lexer<'a> {
                             // TODO: It is necessary to count capture groups
                             // to determine whether backref or octal digit.
                             // Current impl. may cause problems.
-                            if '1' >= ch && ch <= '9' && !self.peek_digit() {
+                            if ('1'..='9').contains(&ch) && !self.peek_digit() {
                                 body.push(ch);
                             } else if ('0'..='7').contains(&ch) {
                                 let hex = format!("x{:02x}", self.consume_tri_octal(ch).unwrap());
-- 
2.43.0


From 8d82b383ac6e248e025c31fad78cea0eb53b8312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:31 +0000
Subject: [PATCH 16/68] fix: do not take "\b" after an unmatched "]" for a
 backspace

/]\b/ was handled as if "\b" was in a character class.
---
 src/parser/lexer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index f9c07be..6b00af6 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -999,7 +999,9 @@ impl<'a> Lexer<'a> {
                     body.push('[');
                 }
                 ']' => {
-                    char_class -= 1;
+                    if char_class > 0 {
+                        char_class -= 1;
+                    }
                     body.push(']');
                 }
                 '\\' => {
-- 
2.43.0


From e51a4b41aabe589afc54c1eba94e7cb762b7c174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:32 +0000
Subject: [PATCH 17/68] fix: unescape the delimiter of a single-quoted string,
 whatever it is

%q(\)) kept the backslash and %q(\') lost it: only "'" was unescaped.
---
 src/parser/lexer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 6b00af6..125785b 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -878,8 +878,8 @@ impl<'a> Lexer<'a> {
                         continue;
                     };
                     let c = self.get()?;
-                    if c == '\'' {
-                        s.push('\'');
+                    if !escape_backslash && (c == term || open == Some(c)) {
+                        s.push(c);
                     } else if c == '\\' {
                         s.push('\\');
                         if escape_backslash {
-- 
2.43.0


From e0a06b859638a864a6d46247c1a94691953c4a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:04 +0000
Subject: [PATCH 18/68] fix: keep track of nested delimiters across an
 interpolation

%Q(a#{1}(b)) ended at the first ")": the opening delimiter was forgotten
after "}", and so was the nesting level after a second interpolation. An
adjacent string literal following an interpolated one was read with the
delimiter of the first.
---
 src/parser/lexer.rs    |  8 ++++----
 src/parser/literals.rs | 13 ++++++++-----
 src/token.rs           | 11 +++++++----
 3 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 125785b..1cd785d 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -770,7 +770,7 @@ impl<'a> Lexer<'a> {
         match self.read_interpolate(open, term, level)? {
             InterpolateState::Finished(s) => Ok(self.new_stringlit(s)),
             InterpolateState::NewInterpolation(s, level) => {
-                Ok(self.new_open_string(s.as_string()?, term, level))
+                Ok(self.new_open_string(s.as_string()?, (open, term), level))
             }
             _ => unreachable!(),
         }
@@ -786,7 +786,7 @@ impl<'a> Lexer<'a> {
         match self.read_interpolate(open, term, level)? {
             InterpolateState::Finished(s) => self.new_commandlit(s),
             InterpolateState::NewInterpolation(s, level) => {
-                Ok(self.new_open_command(s.as_string()?, term, level))
+                Ok(self.new_open_command(s.as_string()?, (open, term), level))
             }
             _ => unreachable!(),
         }
@@ -1495,7 +1495,7 @@ impl<'a> Lexer<'a> {
         Annot::new(TokenKind::Punct(punc), self.cur_loc())
     }
 
-    fn new_open_string(&self, s: String, delimiter: Option<char>, level: usize) -> Token {
+    fn new_open_string(&self, s: String, delimiter: Delimiter, level: usize) -> Token {
         Token::new_open_string(s, delimiter, level, self.cur_loc())
     }
 
@@ -1503,7 +1503,7 @@ impl<'a> Lexer<'a> {
         Token::new_open_reg(s, self.cur_loc())
     }
 
-    fn new_open_command(&self, s: String, delimiter: Option<char>, level: usize) -> Token {
+    fn new_open_command(&self, s: String, delimiter: Delimiter, level: usize) -> Token {
         Token::new_open_command(s, delimiter, level, self.cur_loc())
     }
 
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 7406dae..1e1409c 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -33,8 +33,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     pub(super) fn parse_interporated_string_literal(
         &mut self,
         s: RubyString,
-        delimiter: Option<char>,
-        level: usize,
+        mut delimiter: Delimiter,
+        mut level: usize,
     ) -> Result<Node, LexerErr> {
         let start_loc = self.prev_loc();
         let mut nodes = vec![Node::new_string(s, start_loc)];
@@ -42,7 +42,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             self.parse_template(&mut nodes)?;
             let tok = self
                 .lexer
-                .read_string_literal_double(None, delimiter, level)?;
+                .read_string_literal_double(delimiter.0, delimiter.1, level)?;
             let mut loc = tok.loc();
             match tok.kind {
                 TokenKind::StringLit(mut name) => {
@@ -53,10 +53,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                                 name += &next_s;
                                 loc = loc.merge(t.loc);
                             }
-                            TokenKind::OpenString(next_s, _, _) => {
+                            TokenKind::OpenString(next_s, next_delimiter, next_level) => {
                                 let t = self.get()?;
                                 name += next_s.as_str();
                                 loc = loc.merge(t.loc);
+                                delimiter = next_delimiter;
+                                level = next_level;
                                 break;
                             }
                             _ => {
@@ -70,8 +72,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     }
                     nodes.push(Node::new_string(name, loc));
                 }
-                TokenKind::OpenString(s, _, _) => {
+                TokenKind::OpenString(s, _, next_level) => {
                     nodes.push(Node::new_string(s.into(), loc));
+                    level = next_level;
                 }
                 _ => unreachable!("{:?}", tok),
             }
diff --git a/src/token.rs b/src/token.rs
index afa69c4..9e71726 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -35,6 +35,9 @@ impl Display for Token {
     }
 }
 
+/// Delimiters of a string literal: (opening char which can be nested, terminator).
+pub(crate) type Delimiter = (Option<char>, Option<char>);
+
 #[derive(Debug, Clone, PartialEq)]
 pub(crate) enum TokenKind {
     Eof,
@@ -58,9 +61,9 @@ pub(crate) enum TokenKind {
     CommandLit(String),
     Reserved(Reserved),
     Punct(Punct),
-    OpenString(String, Option<char>, usize), // (content, delimiter, paren_level)
+    OpenString(String, Delimiter, usize), // (content, delimiter, paren_level)
     OpenRegex(String),
-    OpenCommand(String, Option<char>, usize),
+    OpenCommand(String, Delimiter, usize),
     PercentNotation(char, String),
     LineTerm,
 }
@@ -249,7 +252,7 @@ impl Token {
 
     pub(crate) fn new_open_string(
         s: impl Into<String>,
-        delimiter: Option<char>,
+        delimiter: Delimiter,
         level: usize,
         loc: Loc,
     ) -> Self {
@@ -258,7 +261,7 @@ impl Token {
 
     pub(crate) fn new_open_command(
         s: impl Into<String>,
-        delimiter: Option<char>,
+        delimiter: Delimiter,
         level: usize,
         loc: Loc,
     ) -> Self {
-- 
2.43.0


From d4618a05e3a466de312956d4617ed79c1000f509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 19/68] fix: require the closing parenthesis of an argument
 list

"f(1" was accepted as a complete program.
---
 src/parser/expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 2d80dd6..c0d48dc 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -972,7 +972,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         }
                     }
                     if let Some(punct) = punct {
-                        self.consume_punct(punct)?;
+                        self.expect_punct(punct)?;
                     };
                     let node = Node::new_hash(kvp, loc);
                     arglist.args.push(node);
@@ -1003,7 +1003,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
         }
         if let Some(punct) = punct {
-            self.consume_punct(punct)?;
+            self.expect_punct(punct)?;
         };
         Ok(arglist)
     }
-- 
2.43.0


From 1e022d4b00c0ba4f17aaf0732a5bd9b466d4b73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:24 +0000
Subject: [PATCH 20/68] fix: accept a keyword argument named like a variable of
 an outer scope

x=1; f { g(x: 2) } was a syntax error.
---
 src/parser/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index c0d48dc..57a9f32 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -979,7 +979,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     return Ok(arglist);
                 }
                 match &node.kind {
-                    NodeKind::Ident(id, ..) | NodeKind::LocalVar(0, id) => {
+                    NodeKind::Ident(id, ..) | NodeKind::LocalVar(_, id) => {
                         if self.consume_punct_no_term(Punct::Colon)? {
                             // keyword args
                             arglist.kw_args.push((id.to_string(), self.parse_arg()?));
-- 
2.43.0


From 531e93dc4b127b6cfbd544cccb1fcbb8044bf41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:25 +0000
Subject: [PATCH 21/68] fix: give a receiver without arguments its own location

In foo.bar the call of foo was located at bar.
---
 src/parser/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 57a9f32..62538bf 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -642,7 +642,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         };
 
         let node = match receiver.kind {
-            NodeKind::Ident(id) => Node::new_fcall_noarg(id, false, loc),
+            NodeKind::Ident(id) => Node::new_fcall_noarg(id, false, receiver.loc),
             _ => receiver,
         };
         Ok(Node::new_mcall(node, id, arglist, safe_nav, loc))
-- 
2.43.0


From 2b65f96570d1dde4ce3c403d7e61ef36cb8c546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 22/68] fix: let the location of a method name or symbol end at
 its last char

It included the char after it, unlike all other locations.
---
 src/parser/lexer.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 1cd785d..2883f5f 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -583,10 +583,7 @@ impl<'a> Lexer<'a> {
         } else {
             return Err(self.error_unexpected(self.token_start_pos));
         };
-        Ok((
-            self.current_slice().to_string(),
-            Loc(self.token_start_pos, self.pos),
-        ))
+        Ok((self.current_slice().to_string(), self.cur_loc()))
     }
 
     pub(crate) fn read_symbol_literal(&mut self) -> Result<Option<(String, Loc)>, LexerErr> {
@@ -602,10 +599,7 @@ impl<'a> Lexer<'a> {
                     return Err(self.error_unexpected(self.pos - ch.len_utf8()));
                 }
                 self.consume_ident();
-                Ok(Some((
-                    self.current_slice().to_string(),
-                    Loc(self.token_start_pos, self.pos),
-                )))
+                Ok(Some((self.current_slice().to_string(), self.cur_loc())))
             }
             '\"' | '\'' => Ok(None),
             _ => self.read_method_name(true).map(Some),
-- 
2.43.0


From 895de9643f7761882f12944e5b419904e7f870a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:44 +0000
Subject: [PATCH 23/68] fix: locate the operands of "alias" by their own text

Both were located at the alias keyword.
---
 src/parser/define.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/parser/define.rs b/src/parser/define.rs
index 499ed56..2bf9d15 100644
--- a/src/parser/define.rs
+++ b/src/parser/define.rs
@@ -162,10 +162,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 _ => unreachable!(),
             }
         } else {
-            Ok(Node::new_symbol(
-                self.read_method_name(true)?.0,
-                self.prev_loc(),
-            ))
+            let (name, loc) = self.read_method_name(true)?;
+            self.prev_loc = loc;
+            Ok(Node::new_symbol(name, loc))
         }
     }
 
-- 
2.43.0


From 420c72974bf2fe98e677d75a3ebc3caeec1a2a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 24/68] fix: hide the variables of the external context from
 methods and classes

With x in the external context, x in "def f; x; end" was parsed as that
local variable.
---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 012fb37..98dc2f1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -216,7 +216,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             match c.kind {
                 ScopeKind::Block => outer += 1,
                 ScopeKind::For => {}
-                _ => break,
+                // The variables of the external context are out of sight.
+                ScopeKind::Method | ScopeKind::Class => return None,
+                ScopeKind::Eval => break,
             }
         }
         if let Some(a) = &self.extern_context {
-- 
2.43.0


From 68b40438d1b387a7896a7823e402e7cd5fcf069b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:23 +0000
Subject: [PATCH 25/68] fix: count the enclosing blocks for a variable of the
 external context

x and f { x } got the same number of outer scopes when x was found in the
external context, although the block is one scope further away.
---
 src/parser.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 98dc2f1..3e3413b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -209,12 +209,19 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     /// If exiets, return true.
     fn is_local_var(&mut self, id: &str) -> Option<usize> {
         let mut outer = 0;
-        for c in self.scope.iter().rev() {
+        // Number of blocks between here and the scope of the program itself.
+        let mut depth = 0;
+        for (i, c) in self.scope.iter().enumerate().rev() {
             if c.lvar.table.get_lvarid(id).is_some() {
                 return Some(outer);
             }
             match c.kind {
-                ScopeKind::Block => outer += 1,
+                ScopeKind::Block => {
+                    outer += 1;
+                    if i != 0 {
+                        depth += 1;
+                    }
+                }
                 ScopeKind::For => {}
                 // The variables of the external context are out of sight.
                 ScopeKind::Method | ScopeKind::Class => return None,
@@ -222,7 +229,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
         }
         if let Some(a) = &self.extern_context {
-            return a.find_lvar(id);
+            return a.find_lvar(id).map(|outer| outer + depth);
         }
         None
     }
-- 
2.43.0


From fe5b559995a7f0469a8f5d4675e8dd8ca7f68664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:24 +0000
Subject: [PATCH 26/68] fix: keep the local variables assigned in a here
 document

The variable in <<A with #{x=1} was unknown to the rest of the program.
---
 src/parser/literals.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 1e1409c..24cc9e3 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -135,11 +135,13 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             ParseMode::Double => {
                 let mut parser = self.new_with_range(start, end);
                 let res = parser.here_double();
+                self.scope = parser.scope;
                 res?
             }
             ParseMode::Command => {
                 let mut parser = self.new_with_range(start, end);
                 let res = parser.here_command();
+                self.scope = parser.scope;
                 res?
             }
         };
-- 
2.43.0


From c115f76839bd344d1da484cfa76bfee21fefd457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:24 +0000
Subject: [PATCH 27/68] fix: skip a here document body before a method name

With the name on the line after "<<A." the body was taken for it.
---
 src/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 2883f5f..5018719 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -530,7 +530,7 @@ impl<'a> Lexer<'a> {
         allow_assign_like: bool,
     ) -> Result<(String, Loc), LexerErr> {
         self.flush();
-        while self.consume_whitespace() || self.consume_newline() {}
+        while self.consume_newline() || self.consume_whitespace() {}
         self.token_start_pos = self.pos;
         let ch = self.get()?;
         if ch.is_ascii_punctuation() && ch != '_' {
-- 
2.43.0


From 95eda90a7fda366c38f14dfd811ef4c075612371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:25 +0000
Subject: [PATCH 28/68] fix: do not take the "do" of a for loop for a block

"for i in foo do ... end" was a syntax error, as the block was passed to foo.
---
 src/parser/flow_control.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/flow_control.rs b/src/parser/flow_control.rs
index dc5ab3b..597c798 100644
--- a/src/parser/flow_control.rs
+++ b/src/parser/flow_control.rs
@@ -101,7 +101,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
         }
         self.expect_reserved(Reserved::In)?;
+        let old_suppress_do_flag = self.suppress_do_block;
+        self.suppress_do_block = true;
         let iter = self.parse_expr()?;
+        self.suppress_do_block = old_suppress_do_flag;
         self.parse_do()?;
         let loc = self.prev_loc();
 
-- 
2.43.0


From 9f4444ac1d4352c6b1d813dac189659623152ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:32 +0000
Subject: [PATCH 29/68] fix: do not panic in SourceInfo::get_line() at the end
 of the file

The location of an "unexpected end of file" error in a program which ends
with a newline is behind its last line.
---
 src/source_info.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/source_info.rs b/src/source_info.rs
index 307aedf..00fbee4 100644
--- a/src/source_info.rs
+++ b/src/source_info.rs
@@ -155,7 +155,8 @@ impl SourceInfo {
                     None
                 }
             })
-            .unwrap()
+            // `loc` is at the end of the file: the last line.
+            .unwrap_or_else(|| self.code.lines().count().max(1))
     }
 
     fn get_next_char(&self, pos: usize) -> Option<char> {
-- 
2.43.0


From 7d8aebd0ef666ca11193ec1d9205707f6e93e5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:56 +0000
Subject: [PATCH 30/68] fix: do not panic in SourceInfo::get_location()

An error at a multibyte char, a multibyte char at the edge of the terminal
or a location between two lines panicked; an error at the end of a program
which ends with a newline was reported as line 1 with the whole program.
---
 src/source_info.rs | 69 ++++++++++++++++++++++++----------------------
 1 file changed, 36 insertions(+), 33 deletions(-)

diff --git a/src/source_info.rs b/src/source_info.rs
index 00fbee4..546856c 100644
--- a/src/source_info.rs
+++ b/src/source_info.rs
@@ -43,6 +43,23 @@ impl Default for SourceInfo {
     }
 }
 
+/// The last char boundary of `code` which is not behind `pos`.
+fn floor_boundary(code: &str, mut pos: usize) -> usize {
+    pos = std::cmp::min(pos, code.len());
+    while !code.is_char_boundary(pos) {
+        pos -= 1;
+    }
+    pos
+}
+
+/// The first char boundary of `code` which is not before `pos`.
+fn ceil_boundary(code: &str, mut pos: usize) -> usize {
+    while pos < code.len() && !code.is_char_boundary(pos) {
+        pos += 1;
+    }
+    std::cmp::min(pos, code.len())
+}
+
 //
 // public interface
 //
@@ -72,7 +89,7 @@ impl SourceInfo {
         let lines = self.get_lines(loc);
         let mut found = false;
         let term = console::Term::stdout();
-        let term_width = term.size().1 as usize;
+        let term_width = std::cmp::max(term.size().1 as usize, 1);
         for line in &lines {
             if !found {
                 res_string += &format!("{}:{}\n", self.file_name(), line.line_no);
@@ -80,22 +97,23 @@ impl SourceInfo {
             };
 
             let start = line.top;
-            let mut end = line.end;
-            if self.get_next_char(end) == Some('\n') && end > 0 {
-                end -= 1
-            }
+            let end = line.end;
             let mut lead = if loc.0 <= line.top {
                 0
             } else {
-                console::measure_text_width(&code[start..loc.0])
+                console::measure_text_width(&code[start..floor_boundary(&code, loc.0)])
             };
             let offset = lead / term_width * term_width;
             lead -= offset;
             let range_start = std::cmp::max(loc.0, line.top);
             let range_end = std::cmp::min(loc.1, line.end);
             let term_end = start + (range_end - start) / term_width * term_width + term_width - 1;
-            let length = console::measure_text_width(&code[range_start..=range_end]);
-            res_string += &code[(start + offset)..=std::cmp::min(end, term_end)];
+            let length = console::measure_text_width(
+                &code[floor_boundary(&code, range_start)..ceil_boundary(&code, range_end + 1)],
+            );
+            let window_start = floor_boundary(&code, start + offset);
+            let window_end = ceil_boundary(&code, std::cmp::min(end, term_end + 1));
+            res_string += &code[window_start..window_end];
             res_string += "\n";
             res_string += &" ".repeat(lead);
             res_string += &"^".repeat(length);
@@ -103,23 +121,15 @@ impl SourceInfo {
         }
 
         if !found {
-            res_string += "NOT FOUND\n";
-            let line = match lines.last() {
-                Some(line) => (line.line_no + 1, line.end + 1, loc.1),
-                None => (1, 0, loc.1),
-            };
-            let lead = console::measure_text_width(&code[line.1..loc.0]);
-            let length = console::measure_text_width(&code[loc.0..loc.1]);
-            let is_cr = loc.1 >= code.len() || self.get_next_char(loc.1) == Some('\n');
-            res_string += &format!("{}:{}\n", self.file_name(), line.0);
-            res_string += if !is_cr {
-                &code[line.1..=loc.1]
-            } else {
-                &code[line.1..loc.1]
-            };
-            res_string += &" ".repeat(lead);
-            res_string += &"^".repeat(length + 1);
+            // `loc` is at the end of the file: show it behind the last line.
+            let line = self.code.lines().last().unwrap_or("");
+            let lead = console::measure_text_width(line);
+            let offset = lead / term_width * term_width;
+            res_string += &format!("{}:{}\n", self.file_name(), self.get_line(loc));
+            res_string += &line[floor_boundary(line, offset)..];
             res_string += "\n";
+            res_string += &" ".repeat(lead - offset);
+            res_string += "^\n";
         }
         res_string
     }
@@ -159,10 +169,6 @@ impl SourceInfo {
             .unwrap_or_else(|| self.code.lines().count().max(1))
     }
 
-    fn get_next_char(&self, pos: usize) -> Option<char> {
-        self.code[pos..].chars().next()
-    }
-
     fn get_lines(&self, loc: &Loc) -> Vec<Line> {
         let mut line_top = 0;
         //let code = self.code.clone() + " ";
@@ -178,11 +184,8 @@ impl SourceInfo {
                 Line::new(idx + 1, top, pos)
             })
             .filter(|line| {
-                if loc.0 == loc.1 {
-                    line.top <= loc.1 && line.end >= loc.0
-                } else {
-                    line.top < loc.1 && line.end > loc.0
-                }
+                // both ends of `loc` are inclusive.
+                line.top <= loc.1 && line.end >= loc.0
             })
             .collect();
         if line_top < code_len && code_len > loc.0 && line_top < loc.1 {
-- 
2.43.0


From 3de82d5443eb2c33207e6721a00ec0dae3181e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:56 +0000
Subject: [PATCH 31/68] fix: do not panic in SourceInfo::short_file_name() for
 a path without file name

The path of the default SourceInfo is empty.
---
 src/source_info.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/source_info.rs b/src/source_info.rs
index 546856c..537c9b1 100644
--- a/src/source_info.rs
+++ b/src/source_info.rs
@@ -71,7 +71,10 @@ impl SourceInfo {
 
     /// Get short_file name.
     pub fn short_file_name(&self) -> Cow<'_, str> {
-        self.path.file_name().unwrap().to_string_lossy()
+        match self.path.file_name() {
+            Some(name) => name.to_string_lossy(),
+            None => self.file_name(),
+        }
     }
 
     /// Show the location of *loc* in source text.
-- 
2.43.0


From 4d134d9fa215f4f862fc6cc95f3714afaf12da56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:59 +0000
Subject: [PATCH 32/68] fix: minus before a number binds weaker than ** under
 another operator

---
 src/parser/expression.rs | 51 +++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 62538bf..fe82646 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -756,32 +756,39 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 Ok(Node::new_command(content))
             }
             TokenKind::Punct(punct) => match punct {
-                Punct::Minus => match self.peek()?.kind {
-                    TokenKind::IntegerLit(num) => {
-                        let loc = loc.merge(self.get()?.loc());
-                        match num.checked_neg() {
-                            Some(i) => Ok(Node::new_integer(i, loc)),
-                            None => Ok(Node::new_bignum(-BigInt::from(num), loc)),
-                        }
+                Punct::Minus => {
+                    let save = self.save_state();
+                    let num = self.peek()?;
+                    let is_num = matches!(
+                        num.kind,
+                        TokenKind::IntegerLit(_) | TokenKind::BignumLit(_) | TokenKind::FloatLit(_)
+                    );
+                    if is_num {
+                        self.get()?;
                     }
-                    TokenKind::BignumLit(num) => {
-                        let loc = loc.merge(self.get()?.loc());
-                        let num = -num;
-                        match num.to_i64() {
+                    if !is_num || self.peek_punct_no_term(Punct::DMul) {
+                        // e.g. `!-a`, `2**-a`, `2**-1**2`
+                        self.restore_state(save);
+                        let operand = self.parse_exponent()?;
+                        return Ok(Node::new_unop(UnOp::Neg, operand, loc));
+                    }
+                    let loc = loc.merge(num.loc());
+                    match num.kind {
+                        TokenKind::IntegerLit(num) => match num.checked_neg() {
                             Some(i) => Ok(Node::new_integer(i, loc)),
-                            None => Ok(Node::new_bignum(num, loc)),
+                            None => Ok(Node::new_bignum(-BigInt::from(num), loc)),
+                        },
+                        TokenKind::BignumLit(num) => {
+                            let num = -num;
+                            match num.to_i64() {
+                                Some(i) => Ok(Node::new_integer(i, loc)),
+                                None => Ok(Node::new_bignum(num, loc)),
+                            }
                         }
+                        TokenKind::FloatLit(num) => Ok(Node::new_float(-num, loc)),
+                        _ => unreachable!(),
                     }
-                    TokenKind::FloatLit(num) => {
-                        let loc = loc.merge(self.get()?.loc());
-                        Ok(Node::new_float(-num, loc))
-                    }
-                    _ => {
-                        // e.g. `!-a`, `2**-a`
-                        let operand = self.parse_exponent()?;
-                        Ok(Node::new_unop(UnOp::Neg, operand, loc))
-                    }
-                },
+                }
                 Punct::LParen => {
                     let old = self.suppress_mul_assign;
                     self.suppress_mul_assign = false;
-- 
2.43.0


From fbf5c28356125d9b7769dc8eb96cc8f92b2a019c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:05 +0000
Subject: [PATCH 33/68] fix: operator right after a symbol is not part of its
 name

---
 src/parser/lexer.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 5018719..549ccaf 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -574,7 +574,7 @@ impl<'a> Lexer<'a> {
                 Some(ch)
                     if (ch == '!' && self.peek2() != Some('='))
                         || ch == '?'
-                        || (allow_assign_like && ch == '=' && self.peek2() != Some('>')) =>
+                        || (allow_assign_like && self.is_assign_like()) =>
                 {
                     self.get().unwrap();
                 }
@@ -1247,6 +1247,16 @@ impl<'a> Lexer<'a> {
         iter.next()
     }
 
+    /// Examine whether the next char is the '=' of an assign-like method name,
+    /// not the first char of an operator ('==', '===', '=~' or '=>').
+    fn is_assign_like(&self) -> bool {
+        let rest = self.code.get(self.pos..).unwrap_or("");
+        match rest.strip_prefix('=') {
+            Some(s) => s.starts_with("=>") || !s.starts_with(&['=', '~', '>'][..]),
+            None => false,
+        }
+    }
+
     /// Get one char and move to the next.
     /// Returns Ok(char) or ParseErr if the cursor reached EOF.
     fn get(&mut self) -> Result<char, LexerErr> {
-- 
2.43.0


From badfa8682eaf2ab65d8b0dda81eacb4849d779db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:26 +0000
Subject: [PATCH 34/68] fix: comma and do after an assignment or call in
 argument lists, hashes and parameters

---
 src/parser.rs            | 12 +++++++++++-
 src/parser/expression.rs | 39 +++++++++++++++++++++++++++++++++++----
 src/parser/literals.rs   | 10 ++++++++++
 3 files changed, 56 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3e3413b..a29486a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -575,6 +575,17 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     fn parse_formal_params(
         &mut self,
         terminator: impl Into<Option<Punct>>,
+    ) -> Result<Vec<FormalParam>, LexerErr> {
+        // A comma separates parameters, not the values of a multiple assignment.
+        let old = std::mem::replace(&mut self.suppress_mul_assign, true);
+        let params = self.parse_formal_params_sub(terminator.into());
+        self.suppress_mul_assign = old;
+        params
+    }
+
+    fn parse_formal_params_sub(
+        &mut self,
+        terminator: Option<Punct>,
     ) -> Result<Vec<FormalParam>, LexerErr> {
         #[derive(Debug, Clone, PartialEq, PartialOrd)]
         enum Kind {
@@ -586,7 +597,6 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             KWRest,
         }
 
-        let terminator = terminator.into();
         let mut args = vec![];
         let mut state = Kind::Required;
 
diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index fe82646..7ec8a4a 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -3,6 +3,17 @@ use num::ToPrimitive;
 
 impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     pub(super) fn parse_comp_stmt(&mut self) -> Result<Node, LexerErr> {
+        // Multiple assignments and do-blocks are allowed in statements,
+        // even if not around them (e.g. in an argument list or a loop condition).
+        let old_mul = std::mem::replace(&mut self.suppress_mul_assign, false);
+        let old_do = std::mem::replace(&mut self.suppress_do_block, false);
+        let node = self.parse_comp_stmt_sub();
+        self.suppress_mul_assign = old_mul;
+        self.suppress_do_block = old_do;
+        node
+    }
+
+    fn parse_comp_stmt_sub(&mut self) -> Result<Node, LexerErr> {
         // COMP_STMT : (STMT (TERM STMT)*)? (TERM+)?
         self.peek()?;
         let loc = self.loc();
@@ -179,15 +190,23 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         term: impl Into<Option<Punct>>,
     ) -> Result<Vec<Node>, LexerErr> {
         let term = term.into();
-        let old = self.suppress_mul_assign;
         // multiple assignment must be suppressed in parsing arg list.
-        self.suppress_mul_assign = true;
+        let old_mul = std::mem::replace(&mut self.suppress_mul_assign, true);
+        let old_do = self.suppress_do_block;
+        if term.is_some() {
+            self.suppress_do_block = false;
+        }
+        let args = self.parse_mul_assign_rhs_sub(term);
+        self.suppress_mul_assign = old_mul;
+        self.suppress_do_block = old_do;
+        args
+    }
 
+    fn parse_mul_assign_rhs_sub(&mut self, term: Option<Punct>) -> Result<Vec<Node>, LexerErr> {
         let mut args = vec![];
         loop {
             if let Some(term) = term {
                 if self.consume_punct(term)? {
-                    self.suppress_mul_assign = old;
                     return Ok(args);
                 }
             };
@@ -204,7 +223,6 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 break;
             }
         }
-        self.suppress_mul_assign = old;
         if let Some(term) = term {
             self.expect_punct(term)?;
         };
@@ -928,6 +946,19 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     /// punct: punctuator for terminating arg list. Set None for unparenthesized argument list.
     fn parse_arglist(&mut self, punct: impl Into<Option<Punct>>) -> Result<ArgList, LexerErr> {
         let punct = punct.into();
+        // A comma separates arguments, not the values of a multiple assignment.
+        let old_mul = std::mem::replace(&mut self.suppress_mul_assign, true);
+        let old_do = self.suppress_do_block;
+        if punct.is_some() {
+            self.suppress_do_block = false;
+        }
+        let arglist = self.parse_arglist_sub(punct);
+        self.suppress_mul_assign = old_mul;
+        self.suppress_do_block = old_do;
+        arglist
+    }
+
+    fn parse_arglist_sub(&mut self, punct: Option<Punct>) -> Result<ArgList, LexerErr> {
         let mut arglist = ArgList::default();
         if self.peek()?.kind == TokenKind::Punct(Punct::Comma) {
             return Ok(arglist);
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 24cc9e3..0b803bb 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -179,6 +179,16 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     pub(super) fn parse_hash_literal(&mut self) -> Result<Node, LexerErr> {
+        // A comma separates pairs, not the values of a multiple assignment.
+        let old_mul = std::mem::replace(&mut self.suppress_mul_assign, true);
+        let old_do = std::mem::replace(&mut self.suppress_do_block, false);
+        let node = self.parse_hash_literal_sub();
+        self.suppress_mul_assign = old_mul;
+        self.suppress_do_block = old_do;
+        node
+    }
+
+    fn parse_hash_literal_sub(&mut self) -> Result<Node, LexerErr> {
         let mut kvp = vec![];
         let loc = self.prev_loc();
         loop {
-- 
2.43.0


From de4399981ebf029a1e310466b6af8ab919df19a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:00 +0000
Subject: [PATCH 35/68] fix: identifier before else, elsif, when, in, ensure is
 not a command

---
 src/parser/expression.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 7ec8a4a..5ef0d7c 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1187,6 +1187,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         | Reserved::And
                         | Reserved::Or
                         | Reserved::Then
+                        | Reserved::Else
+                        | Reserved::Elsif
+                        | Reserved::When
+                        | Reserved::In
+                        | Reserved::Ensure
                         | Reserved::End
                 ),
                 _ => true,
-- 
2.43.0


From c22dc6a6abffd1260fda2c14336f4dc0cc0fefaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:02 +0000
Subject: [PATCH 36/68] fix: identifier followed by white space at the end of
 the program

---
 src/parser/expression.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 5ef0d7c..6a6b4cd 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1194,6 +1194,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         | Reserved::Ensure
                         | Reserved::End
                 ),
+                TokenKind::Eof => false,
                 _ => true,
             }
         } else {
-- 
2.43.0


From 88d79319c3cd47f6f9dd291be6f2247a4f134db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:04 +0000
Subject: [PATCH 37/68] fix: yield as an operand or a receiver

---
 src/parser/expression.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 6a6b4cd..5c33cac 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -535,13 +535,14 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     fn parse_method_call(&mut self) -> Result<Node, LexerErr> {
-        if self.consume_reserved(Reserved::Yield)? {
-            return self.parse_yield();
-        }
         // 一次式メソッド呼び出し
         // スコープ付き定数参照 :: 一次式 [行終端子禁止][空白類禁止] "::" 定数識別子
         //      ｜"::" 定数識別子
-        let mut node = self.parse_primary(false)?;
+        let mut node = if self.consume_reserved(Reserved::Yield)? {
+            self.parse_yield()?
+        } else {
+            self.parse_primary(false)?
+        };
         loop {
             node = if self.consume_punct(Punct::Dot)? {
                 self.parse_primary_method(node, false)?
@@ -589,19 +590,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     fn parse_yield(&mut self) -> Result<Node, LexerErr> {
         let loc = self.prev_loc();
-        let tok = self.peek_no_term()?;
-        // TODO: This is not correct.
-        if tok.is_term()
-            || tok.kind == TokenKind::Reserved(Reserved::Unless)
-            || tok.kind == TokenKind::Reserved(Reserved::If)
-            || tok.check_stmt_end()
-        {
-            return Ok(Node::new_yield(ArgList::default(), loc));
-        };
-        let args = if self.consume_punct(Punct::LParen)? {
+        let args = if self.consume_punct_no_term(Punct::LParen)? {
             self.parse_arglist(Punct::RParen)?
-        } else {
+        } else if self.is_command() {
             self.parse_arglist(None)?
+        } else {
+            ArgList::default()
         };
         Ok(Node::new_yield(args, loc))
     }
@@ -1163,13 +1157,17 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             match tok.kind {
                 TokenKind::LineTerm => false,
                 TokenKind::Punct(p) => match p {
-                    Punct::LParen | Punct::LBracket | Punct::Scope | Punct::Arrow | Punct::Not => {
-                        true
-                    }
+                    Punct::LParen
+                    | Punct::LBracket
+                    | Punct::Scope
+                    | Punct::Arrow
+                    | Punct::Not
+                    | Punct::BitNot => true,
                     Punct::Colon
                     | Punct::Plus
                     | Punct::Minus
                     | Punct::Mul
+                    | Punct::DMul
                     | Punct::Div
                     | Punct::BitAnd
                     | Punct::Rem
-- 
2.43.0


From 7f1314d6b3335358fb47bc56a01036afc7b1c07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:34 +0000
Subject: [PATCH 38/68] fix: break, next and return before while, until, and,
 or

---
 src/parser/flow_control.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parser/flow_control.rs b/src/parser/flow_control.rs
index 597c798..dabf673 100644
--- a/src/parser/flow_control.rs
+++ b/src/parser/flow_control.rs
@@ -187,8 +187,17 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let tok = self.peek_no_term()?;
         // TODO: This is not correct.
         if tok.is_term()
-            || tok.kind == TokenKind::Reserved(Reserved::Unless)
-            || tok.kind == TokenKind::Reserved(Reserved::If)
+            || matches!(
+                tok.kind,
+                TokenKind::Reserved(
+                    Reserved::If
+                        | Reserved::Unless
+                        | Reserved::While
+                        | Reserved::Until
+                        | Reserved::And
+                        | Reserved::Or
+                )
+            )
             || tok.check_stmt_end()
         {
             let val = Node::new_nil(loc);
-- 
2.43.0


From 4c616852e38af2ac4077d4d5daef3ec2aeb3e58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:09 +0000
Subject: [PATCH 39/68] fix: then right after rescue

---
 src/parser/expression.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 5c33cac..6bddac6 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1054,7 +1054,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             };
             let mut assign = None;
             let mut exception = vec![];
-            if !self.consume_term()? {
+            if self.consume_term()? {
+                self.consume_reserved(Reserved::Then)?;
+            } else if !self.consume_reserved_no_skip_line_term(Reserved::Then)? {
                 if !self.peek_punct_no_term(Punct::FatArrow) {
                     exception = self.parse_mul_assign_rhs(None)?;
                 };
-- 
2.43.0


From 8bd6071dcbb66203a4bb2372e0c3607d2de786a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:03 +0000
Subject: [PATCH 40/68] fix: nested and escaped brackets in character classes
 of extended regular expressions

---
 src/node.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 029cb0c..65ba263 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -885,6 +885,8 @@ enum FreeFormatMode {
 }
 struct FreeFormatContext {
     state: FreeFormatMode,
+    /// nesting level of character classes.
+    class_level: usize,
     body: String,
 }
 
@@ -892,6 +894,7 @@ impl FreeFormatContext {
     fn new() -> Self {
         FreeFormatContext {
             state: FreeFormatMode::Normal,
+            class_level: 0,
             body: String::new(),
         }
     }
@@ -904,6 +907,7 @@ impl FreeFormatContext {
                         self.state = FreeFormatMode::Comment;
                     } else if ch == '[' {
                         self.body.push(ch);
+                        self.class_level = 1;
                         self.state = FreeFormatMode::CharacterClass;
                     } else if ch == '\\' {
                         self.body.push(ch);
@@ -914,12 +918,24 @@ impl FreeFormatContext {
                 }
                 FreeFormatMode::Escape => {
                     self.body.push(ch);
-                    self.state = FreeFormatMode::Normal;
+                    self.state = if self.class_level > 0 {
+                        FreeFormatMode::CharacterClass
+                    } else {
+                        FreeFormatMode::Normal
+                    };
                 }
                 FreeFormatMode::CharacterClass => {
                     self.body.push(ch);
-                    if ch == ']' {
-                        self.state = FreeFormatMode::Normal;
+                    match ch {
+                        '\\' => self.state = FreeFormatMode::Escape,
+                        '[' => self.class_level += 1,
+                        ']' => {
+                            self.class_level -= 1;
+                            if self.class_level == 0 {
+                                self.state = FreeFormatMode::Normal;
+                            }
+                        }
+                        _ => {}
                     }
                 }
                 FreeFormatMode::Comment => {
-- 
2.43.0


From 96dac40adba2b1617c74f09292358d7b14716b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:28 +0000
Subject: [PATCH 41/68] fix: regular expression and % literal starting with '='

---
 src/parser/expression.rs | 9 +++++++++
 src/parser/lexer.rs      | 6 ++++++
 2 files changed, 15 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 6bddac6..bc3d5e6 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -824,6 +824,15 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 }
                 Punct::Div => self.parse_regexp(),
                 Punct::Rem => self.parse_percent_notation(),
+                // `/=../` and `%=..=` where an operand is expected.
+                Punct::AssignOp(BinOp::Div) => {
+                    self.lexer.unread_assign();
+                    self.parse_regexp()
+                }
+                Punct::AssignOp(BinOp::Rem) => {
+                    self.lexer.unread_assign();
+                    self.parse_percent_notation()
+                }
                 Punct::Question => self.parse_char_literal(),
                 Punct::Shl => self.parse_heredocument(),
                 Punct::Mul => {
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 549ccaf..e0152d3 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -200,6 +200,12 @@ impl<'a> Lexer<'a> {
         self.pos = state.1;
     }
 
+    /// Give back the '=' of the last token ("/=" or "%=").
+    pub(crate) fn unread_assign(&mut self) {
+        self.flush();
+        self.pos -= 1;
+    }
+
     pub(crate) fn flush(&mut self) {
         self.buf = None;
         self.buf_skip_lt = None;
-- 
2.43.0


From d4a863588ab108b2c9f052564089710884fd04f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:29 +0000
Subject: [PATCH 42/68] fix: \b in a character class after an interpolation

---
 src/parser/lexer.rs    | 16 ++++++++--------
 src/parser/literals.rs |  5 +++--
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index e0152d3..0cf775e 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -179,8 +179,9 @@ impl<'a> Lexer<'a> {
     }
 
     /// Get token as a regular expression.
-    pub(crate) fn get_regexp(&mut self) -> Result<Token, LexerErr> {
-        match self.read_regexp_sub()? {
+    /// *char_class* is the nesting level of character classes.
+    pub(crate) fn get_regexp(&mut self, char_class: &mut usize) -> Result<Token, LexerErr> {
+        match self.read_regexp_sub(char_class)? {
             InterpolateState::FinishedRegex {
                 body,
                 postfix,
@@ -981,9 +982,8 @@ impl<'a> Lexer<'a> {
     }
 
     /// Scan as regular expression.
-    fn read_regexp_sub(&mut self) -> Result<InterpolateState, LexerErr> {
+    fn read_regexp_sub(&mut self, char_class: &mut usize) -> Result<InterpolateState, LexerErr> {
         let mut body = "".to_string();
-        let mut char_class = 0;
         loop {
             match self.get()? {
                 '/' => {
@@ -995,12 +995,12 @@ impl<'a> Lexer<'a> {
                     });
                 }
                 '[' => {
-                    char_class += 1;
+                    *char_class += 1;
                     body.push('[');
                 }
                 ']' => {
-                    if char_class > 0 {
-                        char_class -= 1;
+                    if *char_class > 0 {
+                        *char_class -= 1;
                     }
                     body.push(']');
                 }
@@ -1009,7 +1009,7 @@ impl<'a> Lexer<'a> {
                     match ch {
                         'a' => body += "\\a",
                         // '\b' is valid only in the inner of character class. Otherwise, shoud be treated as "\x08".
-                        'b' => body += if char_class == 0 { "\\b" } else { "\\x08" },
+                        'b' => body += if *char_class == 0 { "\\b" } else { "\\x08" },
                         'e' => body += "\\x1b",
                         'f' => body += "\\f",
                         'n' => body += "\\n",
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 0b803bb..4378809 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -250,7 +250,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     pub(super) fn parse_regexp(&mut self) -> Result<Node, LexerErr> {
         let start_loc = self.prev_loc();
-        let tok = self.lexer.get_regexp()?;
+        let mut char_class = 0;
+        let tok = self.lexer.get_regexp(&mut char_class)?;
         let mut nodes = match tok.kind {
             TokenKind::Regex {
                 body: s,
@@ -269,7 +270,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         };
         loop {
             self.parse_template(&mut nodes)?;
-            let tok = self.lexer.get_regexp()?;
+            let tok = self.lexer.get_regexp(&mut char_class)?;
             let loc = tok.loc();
             match tok.kind {
                 TokenKind::Regex {
-- 
2.43.0


From e4cc457026e5e5a9630772da2b6967ee14251ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:31 +0000
Subject: [PATCH 43/68] fix: global variables starting with an underscore

---
 src/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 0cf775e..f3aca95 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -430,7 +430,7 @@ impl<'a> Lexer<'a> {
             }
         } else {
             let tok = match self.peek() {
-                Some(ch) if ch.is_ascii_punctuation() => {
+                Some(ch) if ch.is_ascii_punctuation() && ch != '_' => {
                     let ch = self.get()?;
                     match ch {
                         '&' => self.new_special_var(SPECIAL_LASTMATCH),
-- 
2.43.0


From f9a383dc9201fdf237c08fafc770a3a33e8b6b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:22 +0000
Subject: [PATCH 44/68] fix: a do-block after command arguments belongs to the
 command

---
 src/parser/expression.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index bc3d5e6..761ea5c 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -951,10 +951,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let punct = punct.into();
         // A comma separates arguments, not the values of a multiple assignment.
         let old_mul = std::mem::replace(&mut self.suppress_mul_assign, true);
-        let old_do = self.suppress_do_block;
-        if punct.is_some() {
-            self.suppress_do_block = false;
-        }
+        // A do-block after unparenthesized arguments belongs to the command, not to its last argument.
+        let old_do = std::mem::replace(&mut self.suppress_do_block, punct.is_none());
         let arglist = self.parse_arglist_sub(punct);
         self.suppress_mul_assign = old_mul;
         self.suppress_do_block = old_do;
-- 
2.43.0


From 215b93a3cbdcb9d245164b0fe039c0a1ef82e954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:48 +0000
Subject: [PATCH 45/68] fix: the name of a rest parameter is not taken from the
 next line

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index a29486a..08ed102 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -322,10 +322,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         self.lexer.consume(ch)
     }
 
-    /// If the next token is Ident, consume and return Some(it).
+    /// If the next token is Ident on the same line, consume and return Some(it).
     /// If not, return None.
     fn consume_ident(&mut self) -> Result<Option<String>, LexerErr> {
-        match self.peek()?.kind {
+        match self.peek_no_term()?.kind {
             TokenKind::Ident(s) => {
                 self.get()?;
                 Ok(Some(s))
-- 
2.43.0


From 8f97a53636f07a06fd36f18c44a3ac469bfd1b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 46/68] fix: keyword parameters: default value in a block, no
 default value before a semicolon

---
 src/parser.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 08ed102..12f882d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -684,19 +684,21 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     self.new_param(name, loc)?;
                 } else if self.consume_punct_no_term(Punct::Colon)? {
                     // Keyword param
-                    let next = self.peek_no_term()?.kind;
-                    let default =
-                        if next == TokenKind::Punct(Punct::Comma) || next == TokenKind::LineTerm {
+                    let next = self.peek_no_term()?;
+                    let default = if next.kind == TokenKind::Punct(Punct::Comma) || next.is_term() {
+                        None
+                    } else if let Some(term) = terminator {
+                        if next.kind == TokenKind::Punct(term) {
                             None
-                        } else if let Some(term) = terminator {
-                            if next == TokenKind::Punct(term) {
-                                None
-                            } else {
-                                Some(self.parse_arg()?)
-                            }
+                        } else if term == Punct::BitOr {
+                            // `|` terminates the parameters.
+                            Some(self.parse_primary(true)?)
                         } else {
                             Some(self.parse_arg()?)
-                        };
+                        }
+                    } else {
+                        Some(self.parse_arg()?)
+                    };
                     loc = loc.merge(self.prev_loc());
                     if state == Kind::KWRest {
                         return Err(error_unexpected(
-- 
2.43.0


From 474cf2a873bf5eb395ac049359caf6f2c5717d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 47/68] fix: a numbered parameter in a for loop belongs to the
 block around it

---
 src/parser.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 12f882d..1fed8ed 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -236,11 +236,17 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     /// Check whether numbered parameters exist in outer blocks.
     fn check_outer_numbered_param(&mut self, loc: Loc) -> Result<(), LexerErr> {
-        //let mut outer = 0;
-        if let Some(loc) = self.scope.last_mut().unwrap().lvar.prohibit_numbered_param {
+        // A `for` loop is not a block: the parameter belongs to the scope around it.
+        let mut scopes = self
+            .scope
+            .iter_mut()
+            .rev()
+            .filter(|c| c.kind != ScopeKind::For);
+        let current = scopes.next().unwrap();
+        if let Some(loc) = current.lvar.prohibit_numbered_param {
             return Err(error_nested_numbered_param(loc));
         }
-        for c in self.scope.iter_mut().rev().skip(1) {
+        for c in scopes {
             if let Some(loc) = c.lvar.numbered_param {
                 return Err(error_nested_numbered_param(loc));
             }
@@ -249,12 +255,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 *prohibit = Some(loc);
             }
             match c.kind {
-                ScopeKind::Block => {} //outer += 1,
-                ScopeKind::For => {}
+                ScopeKind::Block => {}
                 _ => break,
             }
         }
-        self.scope.last_mut().unwrap().lvar.numbered_param = Some(loc);
+        current.lvar.numbered_param = Some(loc);
         /*if let Some(a) = &self.extern_context {
             return a.find_lvar(id);
         }*/
-- 
2.43.0


From 29e498f3d78d1b5e6528ce9db7bbb709686ad89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 48/68] fix: numbered parameters followed by a comma

---
 src/parser/expression.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 761ea5c..d329a1c 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -709,7 +709,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     }
                 }
             }
-            TokenKind::NumberedParam(i, name) => {
+            TokenKind::NumberedParam(_, name) => {
                 if self.lexer.trailing_lparen() {
                     // _1()
                     let node = Node::new_identifier(name.clone(), loc);
@@ -720,8 +720,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 let node = Node::new_identifier(name.to_string(), loc);
                 if let Ok(tok) = self.peek_no_term() {
                     match tok.kind {
-                        // Multiple assignment
-                        TokenKind::Punct(Punct::Comma) => return Err(error_numbered_param(loc, i)),
+                        // An element of a list (assignment is rejected by check_lhs())
+                        TokenKind::Punct(Punct::Comma) => return Ok(node),
                         // Method call with block and no args
                         // _1 {}
                         TokenKind::Punct(Punct::LBrace) | TokenKind::Reserved(Reserved::Do) => {
-- 
2.43.0


From 74254f7cc430955ac7d1ec788c7f330ba77af7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 49/68] fix: _0 is not a numbered parameter

---
 src/parser/expression.rs | 2 +-
 src/parser/lexer.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index d329a1c..0e724b6 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1130,7 +1130,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 let mut iter = name.chars();
                 iter.next();
                 if let Some(ch1) = iter.next() {
-                    if ch1.is_ascii_digit() && iter.next().is_none() {
+                    if ch1.is_ascii_digit() && ch1 != '0' && iter.next().is_none() {
                         // lhs is numbered parameter literal
                         return Err(error_numbered_param(
                             lhs.loc,
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index f3aca95..264d4b9 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -481,7 +481,7 @@ impl<'a> Lexer<'a> {
             let mut iter = tok.chars();
             iter.next();
             if let Some(ch1) = iter.next() {
-                if ch1.is_ascii_digit() && iter.next().is_none() {
+                if ch1.is_ascii_digit() && ch1 != '0' && iter.next().is_none() {
                     return Ok(self.new_numbered_param(ch1));
                 }
             }
-- 
2.43.0


From 6b925074f7e4ac555cce98e3b8cf00e71afc335d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 50/68] fix: a parenthesis after a space belongs to the first
 argument of a method call

---
 src/parser/expression.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 0e724b6..e611802 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -590,7 +590,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     fn parse_yield(&mut self) -> Result<Node, LexerErr> {
         let loc = self.prev_loc();
-        let args = if self.consume_punct_no_term(Punct::LParen)? {
+        let args = if self.lexer.trailing_lparen() && self.consume_punct_no_term(Punct::LParen)? {
             self.parse_arglist(Punct::RParen)?
         } else if self.is_command() {
             self.parse_arglist(None)?
@@ -602,7 +602,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     fn parse_super(&mut self) -> Result<Node, LexerErr> {
         let loc = self.prev_loc();
-        let arglist = if self.consume_punct_no_term(Punct::LParen)? {
+        let arglist = if self.lexer.trailing_lparen() && self.consume_punct_no_term(Punct::LParen)? {
             self.parse_arglist_block(Punct::RParen)?
         } else if self.is_command() {
             self.parse_arglist_block(None)?
@@ -635,7 +635,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             return Ok(node);
         };
         let (id, loc) = self.read_method_name(false)?;
-        let arglist = if self.consume_punct_no_term(Punct::LParen)? {
+        let arglist = if self.lexer.trailing_lparen()
+            && self.consume_punct_no_term(Punct::LParen)?
+        {
             self.parse_arglist_block(Punct::RParen)?
         } else {
             if self.is_command() {
-- 
2.43.0


From 57352ef944f0c8dcfa2754af6d74cdf8389d8c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:35 +0000
Subject: [PATCH 51/68] fix: &. at the beginning of a line continues the method
 chain

---
 src/parser/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index e611802..6fcc4ea 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -546,7 +546,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         loop {
             node = if self.consume_punct(Punct::Dot)? {
                 self.parse_primary_method(node, false)?
-            } else if self.consume_punct_no_term(Punct::SafeNav)? {
+            } else if self.consume_punct(Punct::SafeNav)? {
                 self.parse_primary_method(node, true)?
             } else if self.consume_punct_no_term(Punct::Scope)? {
                 if let TokenKind::Const(_) = self.peek()?.kind {
-- 
2.43.0


From 1a81bd90236ac58e0e513d491115b3b962ea1c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:28 +0000
Subject: [PATCH 52/68] fix: a comment between a dot and the method name

---
 src/parser/lexer.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 264d4b9..d5d7228 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -537,7 +537,7 @@ impl<'a> Lexer<'a> {
         allow_assign_like: bool,
     ) -> Result<(String, Loc), LexerErr> {
         self.flush();
-        while self.consume_newline() || self.consume_whitespace() {}
+        while self.consume_newline() || self.consume_whitespace() || self.consume_comment() {}
         self.token_start_pos = self.pos;
         let ch = self.get()?;
         if ch.is_ascii_punctuation() && ch != '_' {
@@ -1313,6 +1313,17 @@ impl<'a> Lexer<'a> {
         }
     }
 
+    /// Consume a comment up to the end of the line.
+    /// Return true if consumed.
+    fn consume_comment(&mut self) -> bool {
+        if self.peek() == Some('#') {
+            self.goto_eol();
+            true
+        } else {
+            false
+        }
+    }
+
     /// Consume continue line. ("\\n")
     /// Return true if consumed.
     fn consume_cont_line(&mut self) -> bool {
-- 
2.43.0


From 8f9de1000cabac386826c318446c6ecc5fdf08fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 53/68] fix: a variable is in sight in its own right hand side

---
 src/parser/expression.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 6fcc4ea..fdd9e69 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -163,11 +163,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             return Err(error_unexpected(loc, "Expected '='."));
         }
 
-        let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
         for lhs in &mut mlhs {
             let mut node = self.check_lhs(std::mem::take(lhs))?;
             std::mem::swap(lhs, &mut node);
         }
+        let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
 
         Ok(Node::new_mul_assign(mlhs, mrhs))
     }
@@ -246,8 +246,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             return Ok(lhs);
         }
         if self.consume_punct_no_term(Punct::Assign)? {
-            let mrhs = self.parse_mul_assign_rhs(None)?;
+            // The variable is in sight in its own right hand side.
             let lhs = self.check_lhs(lhs)?;
+            let mrhs = self.parse_mul_assign_rhs(None)?;
             Ok(Node::new_mul_assign(vec![lhs], mrhs))
         } else if let Some(op) = self.consume_assign_op_no_term()? {
             // <lhs> <assign_op> <arg>
@@ -475,8 +476,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     fn parse_accesory_assign(&mut self, lhs: Node) -> Result<Node, LexerErr> {
         if !self.suppress_acc_assign {
             if self.consume_punct_no_term(Punct::Assign)? {
-                let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
                 let lhs = self.check_lhs(lhs)?;
+                let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
                 return Ok(Node::new_mul_assign(vec![lhs], mrhs));
             } else if let Some(op) = self.consume_assign_op_no_term()? {
                 return self.parse_assign_op(lhs, op);
@@ -491,16 +492,16 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         match op {
             BinOp::LOr | BinOp::LAnd => {
                 self.get()?;
-                let rhs = self.parse_arg()?;
                 let lhs = self.check_lhs(lhs)?;
+                let rhs = self.parse_arg()?;
                 let node =
                     Node::new_binop(op, lhs.clone(), Node::new_mul_assign(vec![lhs], vec![rhs]));
                 Ok(node)
             }
             _ => {
                 self.get()?;
-                let rhs = self.parse_arg()?;
                 let lhs = self.check_lhs(lhs)?;
+                let rhs = self.parse_arg()?;
                 Ok(Node::new_assign_op(op, lhs, rhs))
             }
         }
@@ -844,8 +845,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     if self.consume_punct_no_term(Punct::Comma)? {
                         self.parse_mul_assign(first_lhs)
                     } else if self.consume_punct_no_term(Punct::Assign)? {
-                        let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
                         let lhs = self.check_lhs(first_lhs)?;
+                        let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
                         Ok(Node::new_mul_assign(vec![lhs], mrhs))
                     } else {
                         let loc = self.loc();
-- 
2.43.0


From 17be7abbbeed6e1dafc809b9eeb000b28984ded1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 54/68] fix: report an unterminated interpolation as the end of
 input

---
 src/parser/literals.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 4378809..a97f169 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -336,10 +336,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     fn parse_template(&mut self, nodes: &mut Vec<Node>) -> Result<(), LexerErr> {
         if self.consume_punct(Punct::LBrace)? {
             nodes.push(self.parse_comp_stmt()?);
-            if !self.consume_punct(Punct::RBrace)? {
-                let loc = self.prev_loc();
-                return Err(error_unexpected(loc, "Expect '}'"));
-            }
+            self.expect_punct(Punct::RBrace)?;
         } else {
             let tok = self.get()?;
             let loc = tok.loc();
-- 
2.43.0


From 7f455d3f9da10670f016960a618a87ec9cf4db95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 55/68] fix: accept a line break before the colon of a ternary
 operator

---
 src/parser/expression.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index fdd9e69..a43690e 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -263,9 +263,16 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let loc = cond.loc();
         if self.consume_punct_no_term(Punct::Question)? {
             let then_ = self.parse_arg()?;
+            // A line break is allowed before ':'.
+            while self.peek_no_term()?.kind == TokenKind::LineTerm {
+                self.get_no_skip_line_term()?;
+            }
             if !self.consume_punct_no_term(Punct::Colon)? {
-                let loc = self.loc();
-                return Err(error_unexpected(loc, "Expect ':'."));
+                let tok = self.peek_no_term()?;
+                if tok.is_eof() {
+                    return Err(error_eof(tok.loc()));
+                }
+                return Err(error_unexpected(tok.loc(), "Expect ':'."));
             };
             let else_ = self.parse_arg()?;
             let node = Node::new_if(cond, then_, else_, loc);
-- 
2.43.0


From c44c718b3ecfee2e18d24a2abbcf82b42d1a4364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 56/68] fix: <=> binds like == and weaker than <

---
 src/parser/expression.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index a43690e..f056afb 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -327,6 +327,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         } else if self.consume_punct_no_term(Punct::Ne)? {
             let rhs = self.parse_arg_comp()?;
             Ok(Node::new_binop(BinOp::Cmp(CmpKind::Ne), lhs, rhs))
+        } else if self.consume_punct_no_term(Punct::Cmp)? {
+            let rhs = self.parse_arg_comp()?;
+            Ok(Node::new_binop(BinOp::Compare, lhs, rhs))
         } else if self.consume_punct_no_term(Punct::TEq)? {
             let rhs = self.parse_arg_comp()?;
             Ok(Node::new_binop(BinOp::Cmp(CmpKind::TEq), lhs, rhs))
@@ -361,9 +364,6 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             } else if self.consume_punct_no_term(Punct::Lt)? {
                 let rhs = self.parse_arg_bitor()?;
                 lhs = Node::new_binop(BinOp::Cmp(CmpKind::Lt), lhs, rhs);
-            } else if self.consume_punct_no_term(Punct::Cmp)? {
-                let rhs = self.parse_arg_bitor()?;
-                lhs = Node::new_binop(BinOp::Compare, lhs, rhs);
             } else {
                 break;
             }
-- 
2.43.0


From 077931d423b8362fea5c07316485caeb9d14e30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:41 +0000
Subject: [PATCH 57/68] fix: a # before anything but a variable or a brace is
 text, @ needs a name

---
 src/parser/lexer.rs | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index d5d7228..a9ece2f 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -463,7 +463,7 @@ impl<'a> Lexer<'a> {
                 let pos = self.pos;
                 match self.get() {
                     Ok(ch) => {
-                        if ch.is_alphanumeric() || ch == '_' || ch == '&' || ch == '\'' {
+                        if ch.is_alphabetic() || ch == '_' {
                         } else {
                             return Err(self.error_unexpected(pos));
                         }
@@ -832,13 +832,13 @@ impl<'a> Lexer<'a> {
                     };
                     self.read_escaped_char(&mut s)?;
                 }
-                '#' => match self.peek() {
+                '#' => {
                     // string interpolation
-                    Some(ch) if ch == '{' || ch == '$' || ch == '@' => {
-                        return Ok(InterpolateState::NewInterpolation(s, level))
+                    if self.is_template() {
+                        return Ok(InterpolateState::NewInterpolation(s, level));
                     }
-                    _ => s.push_char('#'),
-                },
+                    s.push_char('#');
+                }
                 '\n' => {
                     s.push_char('\n');
                     if self.heredoc_pos > self.pos {
@@ -850,6 +850,25 @@ impl<'a> Lexer<'a> {
         }
     }
 
+    /// Check whether the text after '#' is a template (#{..}, #$s, #@a, #@@a).
+    fn is_template(&self) -> bool {
+        let is_name_start = |ch: Option<char>| matches!(ch, Some(ch) if ch.is_alphabetic() || ch == '_');
+        let mut iter = self.code[self.pos..].chars();
+        match iter.next() {
+            Some('{') => true,
+            Some('$') => match iter.next() {
+                Some(ch) if ch.is_ascii_digit() => true,
+                Some(ch) if ch.is_ascii_punctuation() => "~*$?!@/\\;,.=:<>\"&`'+_".contains(ch),
+                ch => is_name_start(ch),
+            },
+            Some('@') => match iter.next() {
+                Some('@') => is_name_start(iter.next()),
+                ch => is_name_start(ch),
+            },
+            _ => false,
+        }
+    }
+
     /// Read string literal '..' or %q{..}
     fn read_string_literal_single(
         &mut self,
@@ -1046,12 +1065,12 @@ impl<'a> Lexer<'a> {
                         }
                     };
                 }
-                '#' => match self.peek() {
-                    Some(ch) if ch == '{' || ch == '$' || ch == '@' => {
-                        return Ok(InterpolateState::NewInterpolation(body.into(), 0))
+                '#' => {
+                    if self.is_template() {
+                        return Ok(InterpolateState::NewInterpolation(body.into(), 0));
                     }
-                    _ => body.push('#'),
-                },
+                    body.push('#');
+                }
                 c => body.push(c),
             }
         }
-- 
2.43.0


From 26ff0af92d791e7930290a97daa010a1a2bcf3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 58/68] fix: locate ::A at its name, not only at the colons

---
 src/parser/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index f056afb..df41211 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -830,7 +830,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 Punct::Arrow => self.parse_lambda_literal(),
                 Punct::Scope => {
                     let name = self.expect_const()?;
-                    Ok(Node::new_const(name, true, None, vec![], loc))
+                    Ok(Node::new_const(name, true, None, vec![], loc.merge(self.prev_loc())))
                 }
                 Punct::Div => self.parse_regexp(),
                 Punct::Rem => self.parse_percent_notation(),
-- 
2.43.0


From 66a2dd1958396fabb2f8bfaff9c6ef6afbe93d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:56 +0000
Subject: [PATCH 59/68] fix: a continuation line before a method name

---
 src/parser/lexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index a9ece2f..25f7154 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -537,7 +537,11 @@ impl<'a> Lexer<'a> {
         allow_assign_like: bool,
     ) -> Result<(String, Loc), LexerErr> {
         self.flush();
-        while self.consume_newline() || self.consume_whitespace() || self.consume_comment() {}
+        while self.consume_newline()
+            || self.consume_cont_line()
+            || self.consume_whitespace()
+            || self.consume_comment()
+        {}
         self.token_start_pos = self.pos;
         let ch = self.get()?;
         if ch.is_ascii_punctuation() && ch != '_' {
-- 
2.43.0


From ed2d547941ffffb3c9b62ea06da43af52e9102ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 60/68] fix: skip the heredoc body after a continuation line

---
 src/parser/lexer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 25f7154..6f379b0 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -1351,8 +1351,8 @@ impl<'a> Lexer<'a> {
     /// Return true if consumed.
     fn consume_cont_line(&mut self) -> bool {
         if self.peek2() == Some('\n') && self.peek() == Some('\\') {
-            self.pos += 2;
-            true
+            self.pos += 1;
+            self.consume_newline()
         } else {
             false
         }
-- 
2.43.0


From 8b5420c744feeea81fac1b98b56aa42799f36505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 61/68] fix: symbols of instance variables with non-ASCII names

---
 src/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 6f379b0..a07be99 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -606,7 +606,7 @@ impl<'a> Lexer<'a> {
                 self.consume('@');
                 self.consume('@');
                 let ch = self.get()?;
-                if !ch.is_ascii_alphabetic() && ch != '_' {
+                if ch.is_ascii() && !ch.is_ascii_alphabetic() && ch != '_' {
                     return Err(self.error_unexpected(self.pos - ch.len_utf8()));
                 }
                 self.consume_ident();
-- 
2.43.0


From f258a15c6f1f220da25fbce2af67e14235b33ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 62/68] fix: a symbol after a reserved word is not the end of a
 hash key

---
 src/parser/literals.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index a97f169..f8c102d 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -201,7 +201,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 Some(id) => {
                     let save = self.save_state();
                     self.get().unwrap();
-                    if self.consume_punct(Punct::Colon)? {
+                    // A space before the colon makes it the begin of a symbol.
+                    if !self.lexer.trailing_space() && self.consume_punct_no_term(Punct::Colon)? {
                         symbol_flag = true;
                         Node::new_symbol(id.to_owned(), ident_loc)
                     } else {
-- 
2.43.0


From 4c3d87c6fdd4db9e0bfd5e63ede04e89b05591bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:22 +0000
Subject: [PATCH 63/68] fix: keep the position when the next token cannot be
 read

---
 src/parser/lexer.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index a07be99..f08bcbb 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -126,8 +126,10 @@ impl<'a> Lexer<'a> {
             return Ok(tok.clone());
         };
         let save = self.save_state();
-        let tok = self.read_token()?;
+        let res = self.read_token();
+        // The position is kept also when the token is not lexable.
         self.restore_state(save);
+        let tok = res?;
         self.buf = Some(tok.clone());
         Ok(tok)
     }
@@ -137,14 +139,15 @@ impl<'a> Lexer<'a> {
             return Ok(tok.clone());
         };
         let save = self.save_state();
-        let mut tok;
-        loop {
-            tok = self.read_token()?;
-            if tok.is_eof() || !tok.is_line_term() {
-                break;
+        let res = loop {
+            match self.read_token() {
+                Ok(tok) if !tok.is_eof() && tok.is_line_term() => {}
+                res => break res,
             }
-        }
+        };
+        // The position is kept also when the token is not lexable.
         self.restore_state(save);
+        let tok = res?;
         self.buf_skip_lt = Some(tok.clone());
         Ok(tok)
     }
-- 
2.43.0


From 890080f397f8870f070c9fb23f68f22e02aecbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 64/68] fix: a backslash at the end of the program is an
 incomplete line

---
 src/parser/lexer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index f08bcbb..596dcd5 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -317,6 +317,8 @@ impl<'a> Lexer<'a> {
                         }
                     }
                     '?' => return Ok(self.new_punct(Punct::Question)),
+                    // The next line is missing.
+                    '\\' if self.peek().is_none() => return Err(Self::error_eof(self.pos)),
                     '\\' => return Ok(self.new_punct(Punct::Backslash)),
                     '=' => {
                         if self.consume('=') {
-- 
2.43.0


From 983fe3cf3517818718ea23f0122024f7bd9f798d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:28 +0000
Subject: [PATCH 65/68] fix: reject control characters instead of reading them
 as identifiers

---
 src/parser/lexer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 596dcd5..eea2b18 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -412,6 +412,8 @@ impl<'a> Lexer<'a> {
                     '$' => return self.read_global_var(),
                     _ => return Err(self.error_unexpected(pos)),
                 }
+            } else if ch.is_ascii_control() {
+                return Err(self.error_unexpected(pos));
             } else {
                 return self.read_identifier(ch, VarKind::Identifier);
             };
-- 
2.43.0


From cb762866387d270f0f9dd5ef29831686b81a7f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:31 +0000
Subject: [PATCH 66/68] fix: report an unterminated here document as the end of
 input

---
 src/parser/lexer.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index eea2b18..a8402db 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -1249,13 +1249,7 @@ impl<'a> Lexer<'a> {
             }
 
             if next.is_err() {
-                return Err(Self::error_parse(
-                    &format!(
-                        r#"Can not find string "{}" anywhere before EOF."#,
-                        &self.code[delimiter]
-                    ),
-                    self.pos,
-                ));
+                return Err(Self::error_eof(self.pos));
             };
             heredoc_end = end + 1;
             //res += line;
-- 
2.43.0


From 8d7e52a54965bde71b044b5b209c3850b60ed997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 67/68] fix: locate a rest parameter at its star and name

---
 src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.rs b/src/parser.rs
index 1fed8ed..27bea02 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -645,6 +645,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 };
                 match self.consume_ident()? {
                     Some(name) => {
+                        loc = loc.merge(self.prev_loc());
                         args.push(FormalParam::rest(name.clone(), loc));
                         self.new_param(name, self.prev_loc())?;
                     }
-- 
2.43.0


From 2dcf0b70503d33757890e243aded977be9cb2afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 68/68] fix: locate parameters and hash keys behind a line
 break at their names

---
 src/parser.rs          | 11 ++++++++---
 src/parser/literals.rs |  2 +-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 27bea02..5532252 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -297,6 +297,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         }
     }
 
+    /// Get the location of the next token, skipping line terminators.
+    fn loc_skip_term(&mut self) -> Result<Loc, LexerErr> {
+        Ok(self.peek()?.loc())
+    }
+
     fn prev_loc(&self) -> Loc {
         self.prev_loc
     }
@@ -611,7 +616,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     return Ok(args);
                 }
             }
-            let mut loc = self.loc();
+            let mut loc = self.loc_skip_term()?;
             if self.consume_punct(Punct::LParen)? {
                 args.push(self.parse_destruct_param()?);
             } else if self.consume_punct(Punct::Range3)? {
@@ -759,7 +764,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     fn parse_destruct_param(&mut self) -> Result<FormalParam, LexerErr> {
-        let loc = self.loc();
+        let loc = self.loc_skip_term()?;
         let name = self.expect_ident()?;
         self.new_param(name.clone(), loc)?;
         let mut idents = vec![(name, loc)];
@@ -767,7 +772,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             if self.consume_punct(Punct::RParen)? {
                 return Ok(FormalParam::destruct_param(idents));
             }
-            let loc = self.loc();
+            let loc = self.loc_skip_term()?;
             let name = self.expect_ident()?;
             self.new_param(name.clone(), loc)?;
             idents.push((name, loc));
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index f8c102d..0b8428f 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -195,7 +195,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             if self.consume_punct(Punct::RBrace)? {
                 return Ok(Node::new_hash(kvp, loc.merge(self.prev_loc())));
             };
-            let ident_loc = self.loc();
+            let ident_loc = self.loc_skip_term()?;
             let mut symbol_flag = false;
             let key = match self.peek()?.can_be_symbol() {
                 Some(id) => {
-- 
2.43.0

