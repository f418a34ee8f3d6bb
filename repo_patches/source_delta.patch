From df26a0992d6d870062be50e37cd4e8b65170c12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:23 +0000
Subject: [PATCH 01/19] fix: only recognise keywords, booleans and NOOB as
 whole words

"Apple" was tokenized as the keyword A followed by "pple", and "ANY OF"
could never be recognised because AN matched its first two letters.
---
 src/lexer/mod.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index bbf053e..992356f 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -37,11 +37,22 @@ fn parse_number(code: &str) -> Option<(&str, NumberToken)> {
     return Some((number_str, number));
 }
 
+fn is_identifier_char(char: char) -> bool {
+    char == '_' || (char >= 'a' && char <= 'z') || (char >= 'A' && char <= 'Z')
+}
+
+/// Checks if the code starts with the given word(s), and that they're not just the beginning of a
+/// longer word, such as the "A" in "Apple".
+fn starts_with_word(code: &str, word: &str) -> bool {
+    code.strip_prefix(word)
+        .map_or(false, |rest| !rest.starts_with(is_identifier_char))
+}
+
 fn parse_keyword(code: &str) -> Option<(&str, Keywords)> {
     Keywords::iter()
         .find(|keyword| {
             let keyword_str: &str = keyword.to_string_slice();
-            code.starts_with(keyword_str)
+            starts_with_word(code, keyword_str)
         })
         .and_then(|keyword| {
             Some((
@@ -55,9 +66,7 @@ fn parse_identifier(code: &str) -> Option<&str> {
     let non_ident_position = code
         .chars()
         .into_iter()
-        .take_while(|char| {
-            *char == '_' || (*char >= 'a' && *char <= 'z') || (*char >= 'A' && *char <= 'Z')
-        })
+        .take_while(|char| is_identifier_char(*char))
         .count();
 
     if non_ident_position == 0 {
@@ -134,9 +143,9 @@ fn parse_boolean(code: &str) -> Option<(&str, bool)> {
     let true_str = Keywords::WIN.to_string_slice();
     let false_str = Keywords::FAIL.to_string_slice();
 
-    if code.starts_with(true_str) {
+    if starts_with_word(code, true_str) {
         Some((&code[..true_str.len()], true))
-    } else if code.starts_with(false_str) {
+    } else if starts_with_word(code, false_str) {
         Some((&code[..false_str.len()], false))
     } else {
         None
@@ -146,7 +155,7 @@ fn parse_boolean(code: &str) -> Option<(&str, bool)> {
 fn parse_noob(code: &str) -> Option<&str> {
     let noob_str = Keywords::NOOB.to_string_slice();
 
-    if code.starts_with(noob_str) {
+    if starts_with_word(code, noob_str) {
         Some(&code[..noob_str.len()])
     } else {
         None
-- 
2.43.0


From 8bfd011ba43f6da4cf2b2544e8cb08799c72121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:25 +0000
Subject: [PATCH 02/19] fix: tokenize a number literal that ends the source
 code

The last number of a program without a trailing newline was turned into
one symbol per digit.
---
 src/lexer/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 992356f..9b23bca 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -14,7 +14,7 @@ mod tests;
 
 fn parse_number(code: &str) -> Option<(&str, NumberToken)> {
     let mut has_dot_been_used = false;
-    let position = code.chars().enumerate().position(|(index, char)| {
+    let end_of_number = code.chars().enumerate().position(|(index, char)| {
         if index as i32 == 0 && (char == '-' || char == '+') {
             return false;
         };
@@ -26,9 +26,9 @@ fn parse_number(code: &str) -> Option<(&str, NumberToken)> {
             return false;
         };
         true
-    })?;
+    });
 
-    let number_str = &code[0..position];
+    let number_str = &code[0..end_of_number.unwrap_or(code.len())];
     let number = if has_dot_been_used {
         NumberToken::Float(number_str.parse().ok()?)
     } else {
-- 
2.43.0


From a7faee44dde6908093f2bb0e407b5fba141ca444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:26 +0000
Subject: [PATCH 03/19] fix: slice string literals by byte, not by character

A string literal with any non-ASCII character was cut too short, or
panicked when the cut fell inside of a character.
---
 src/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 9b23bca..3e2bf12 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -77,7 +77,7 @@ fn parse_identifier(code: &str) -> Option<&str> {
 }
 
 fn parse_string(code: &str) -> Option<(&str, &str)> {
-    let mut chars = code.chars().enumerate().peekable();
+    let mut chars = code.char_indices().peekable();
     if let Some((_, char)) = chars.next() {
         if char != '"' {
             return None;
-- 
2.43.0


From 778883345086783f7230fcb4eb5b88377dc3b64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:27 +0000
Subject: [PATCH 04/19] fix: an escaped colon does not escape the quote after
 it

"::" is the escape sequence of a colon, so the quote in "a::" closes the
string.
---
 src/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 3e2bf12..9f8ba70 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -86,7 +86,7 @@ fn parse_string(code: &str) -> Option<(&str, &str)> {
 
     while let Some((index, char)) = chars.next() {
         if char == ':' {
-            if let Some((_, '"')) = chars.peek() {
+            if let Some((_, '"' | ':')) = chars.peek() {
                 chars.next();
             }
         }
-- 
2.43.0


From 6ac845eedc61f9d70a5c20d33ab50177993414d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:28 +0000
Subject: [PATCH 05/19] fix: do not panic on the unicode ellipsis

It takes three bytes, but only one was sliced.
---
 src/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 9f8ba70..8e9629d 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -133,7 +133,7 @@ fn parse_ellipsis(code: &str) -> Option<&str> {
     if code.starts_with("...") {
         Some(&code[..3])
     } else if code.starts_with('\u{2026}') {
-        Some(&code[..1])
+        Some(&code[..'\u{2026}'.len_utf8()])
     } else {
         None
     }
-- 
2.43.0


From fa5fb6b184fbdbf216bdca60c8d7bb4b3f9b37fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:30 +0000
Subject: [PATCH 06/19] fix: do not panic on non-ASCII symbols

---
 src/lexer/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 8e9629d..404d001 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -372,7 +372,8 @@ pub fn tokenize(code: String) -> Result<Vec<Token>, TokenError> {
             continue;
         }
 
-        let raw_symbol = &code[..1];
+        let symbol_len = code.chars().next().map_or(0, |char| char.len_utf8());
+        let raw_symbol = &code[..symbol_len];
         tokens.push(make_token(
             &mut code,
             &mut current_position,
-- 
2.43.0


From 48b556fd9e258b51d1fbe4f2e9caf858cb7095b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:31 +0000
Subject: [PATCH 07/19] fix: tokenize "?" as a question mark

The check looked for a comma, so the QuestionMark token type was never
produced. ORly and Wtf now accept it.
---
 src/lexer/mod.rs               | 2 +-
 src/parser/statements/o_rly.rs | 1 +
 src/parser/statements/wtf.rs   | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 404d001..61922a7 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -253,7 +253,7 @@ pub fn tokenize(code: String) -> Result<Vec<Token>, TokenError> {
             continue;
         }
 
-        if code.starts_with(',') {
+        if code.starts_with('?') {
             let raw_question_mark = &code[..1];
             tokens.push(make_token(
                 &mut code,
diff --git a/src/parser/statements/o_rly.rs b/src/parser/statements/o_rly.rs
index 33e37cf..c769000 100644
--- a/src/parser/statements/o_rly.rs
+++ b/src/parser/statements/o_rly.rs
@@ -54,6 +54,7 @@ impl ORly {
         tokens: &mut StatementIterator,
     ) -> Result<ORly, ASTErrorType> {
         match tokens.next().map(|t| t.token_type) {
+            Some(TokenType::QuestionMark) => {}
             Some(TokenType::Symbol(symbol)) if symbol == "?" => {}
             _ => return Err(ORlyError::MissingQuestionMark(first_token).into()),
         };
diff --git a/src/parser/statements/wtf.rs b/src/parser/statements/wtf.rs
index 04e88b6..73d5a2e 100644
--- a/src/parser/statements/wtf.rs
+++ b/src/parser/statements/wtf.rs
@@ -37,6 +37,7 @@ impl Wtf {
         tokens: &mut StatementIterator,
     ) -> Result<Wtf, ASTErrorType> {
         match tokens.next().map(|t| t.token_type) {
+            Some(TokenType::QuestionMark) => {}
             Some(TokenType::Symbol(symbol)) if symbol == "?" => {}
             _ => return Err(ORlyError::MissingQuestionMark(first_token).into()),
         };
-- 
2.43.0


From 17a952fd71d136190d2311a1bf7cb6002a2c2f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:32 +0000
Subject: [PATCH 08/19] fix: account for line breaks inside of multi line
 tokens

Everything after a multi line comment or string was reported in the
wrong line and column.
---
 src/lexer/position.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/lexer/position.rs b/src/lexer/position.rs
index b8d262e..a6bf331 100644
--- a/src/lexer/position.rs
+++ b/src/lexer/position.rs
@@ -41,20 +41,24 @@ impl PartialOrd for Position {
 impl Add<&str> for Position {
     type Output = Position;
     fn add(self, rhs: &str) -> Self::Output {
-        return Position {
-            line: self.line,
-            column: self.column + rhs.len() as i32,
-            chars: self.chars + rhs.chars().count() as i32,
-            bytes: self.bytes + rhs.bytes().len() as i32,
-        };
+        let mut position = self;
+        position += rhs;
+        position
     }
 }
 
 impl AddAssign<&str> for Position {
     fn add_assign(&mut self, rhs: &str) -> () {
-        self.column = self.column + rhs.len() as i32;
-        self.chars = self.chars + rhs.chars().count() as i32;
-        self.bytes = self.bytes + rhs.bytes().len() as i32;
+        for char in rhs.chars() {
+            if char == '\n' {
+                self.line += 1;
+                self.column = 1;
+            } else {
+                self.column += char.len_utf8() as i32;
+            }
+            self.chars += 1;
+            self.bytes += char.len_utf8() as i32;
+        }
     }
 }
 
-- 
2.43.0


From c27236742579402b666408466e5899e1670149c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:34 +0000
Subject: [PATCH 09/19] fix: ignore comments when parsing

Any comment produced an error node.
---
 src/parser/statement_iterator.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index a918a55..28724cf 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -10,7 +10,13 @@ pub struct StatementIterator {
 }
 
 impl StatementIterator {
-    pub fn new(tokens: Vec<Token>) -> StatementIterator {
+    pub fn new(mut tokens: Vec<Token>) -> StatementIterator {
+        tokens.retain(|token| {
+            !matches!(
+                token.token_type,
+                TokenType::CommentSingleLine(_) | TokenType::CommentMultiLine(_)
+            )
+        });
         StatementIterator {
             current_line: tokens.first().map(|t| t.range.start_line()).unwrap_or(0),
             tokens_iter: tokens.into_iter().peekable(),
-- 
2.43.0


From 2ed0cde5f696922c9dcefe43f425f155b442feac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:35 +0000
Subject: [PATCH 10/19] fix: report MissingR for "var 10" instead of panicking

---
 src/parser/statements/mod.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/parser/statements/mod.rs b/src/parser/statements/mod.rs
index b0c50ef..582588c 100644
--- a/src/parser/statements/mod.rs
+++ b/src/parser/statements/mod.rs
@@ -209,15 +209,10 @@ pub(crate) fn parse_statement(
             None => Ok(Node::Expression(ASTExpression::Value(
                 ASTExpressionValue::VariableAccess(variable_access),
             ))),
-            Some(TokenType::Keyword(Keywords::R)) => {
-                VariableAssignment::parse(variable_access, tokens).map(|t| t.into())
-            }
             Some(TokenType::Keyword(Keywords::HAS_A)) => {
                 BukkitSetSlot::parse(variable_access, tokens).map(|t| t.into())
             }
-
-            // TODO - fix this mess
-            Some(_) => unreachable!(),
+            Some(_) => VariableAssignment::parse(variable_access, tokens).map(|t| t.into()),
         };
     }
 
-- 
2.43.0


From 6960902718f765eb1b91d2b4987a2e46762eb1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:36 +0000
Subject: [PATCH 11/19] fix: report MAEK as an unexpected token instead of
 panicking

---
 src/parser/expression/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parser/expression/mod.rs b/src/parser/expression/mod.rs
index 96a9903..4cc55f3 100644
--- a/src/parser/expression/mod.rs
+++ b/src/parser/expression/mod.rs
@@ -350,9 +350,7 @@ impl ASTExpression {
                     }
                     // String concat operation
                     Keywords::SMOOSH => NaryOperation::parse(NaryOpt::Smoosh(first_token), tokens),
-                    // Type Cast operation
-                    Keywords::MAEK => todo!(),
-
+                    // TODO: the type cast operation (MAEK) is not supported yet
                     _ => Err(ASTErrorType::UnexpectedToken(first_token)),
                 }
             }
-- 
2.43.0


From f4226fc3b1907e51959b4982f350aa4213818b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:37 +0000
Subject: [PATCH 12/19] fix: HAI does not swallow the statement after it

It left the iterator at the next statement, which was then reported as
TooManyTokens.
---
 src/parser/statements/hai.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements/hai.rs b/src/parser/statements/hai.rs
index f60c73b..73c743c 100644
--- a/src/parser/statements/hai.rs
+++ b/src/parser/statements/hai.rs
@@ -18,7 +18,7 @@ impl Hai {
     ) -> Result<Hai, ASTErrorType> {
         Ok(Hai {
             hai_token: first_token,
-            version: tokens.next_statement(),
+            version: tokens.collect(),
         })
     }
 }
-- 
2.43.0


From 72275ab3c6ed5c4f38291c47360686f2623c6d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:39 +0000
Subject: [PATCH 13/19] fix: WTF and HOW IZ I do not swallow the statement
 after them

They moved on to the statement after their closing token, which was then
reported as TooManyTokens.
---
 src/parser/statements/how_is_i.rs | 2 --
 src/parser/statements/wtf.rs      | 2 --
 2 files changed, 4 deletions(-)

diff --git a/src/parser/statements/how_is_i.rs b/src/parser/statements/how_is_i.rs
index 83e918d..7337d59 100644
--- a/src/parser/statements/how_is_i.rs
+++ b/src/parser/statements/how_is_i.rs
@@ -69,8 +69,6 @@ impl HowIzI {
             Some(token) => return Err(ASTErrorType::UnexpectedToken(token)),
         }
 
-        tokens.next_statement_should_be_empty()?;
-
         Ok(HowIzI {
             how_iz_i_token: first_token,
             body,
diff --git a/src/parser/statements/wtf.rs b/src/parser/statements/wtf.rs
index 73d5a2e..be660dc 100644
--- a/src/parser/statements/wtf.rs
+++ b/src/parser/statements/wtf.rs
@@ -81,8 +81,6 @@ impl Wtf {
             Some(token) => return Err(ASTErrorType::UnexpectedToken(token)),
         }
 
-        tokens.next_statement_should_be_empty()?;
-
         Ok(Wtf {
             wtf_token: first_token,
             omg,
-- 
2.43.0


From 8d4fab92670d9a781ac052fbd59b28112c56d33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:40 +0000
Subject: [PATCH 14/19] fix: an error in a block header does not swallow the
 next statement

When a header had too many tokens the iterator was left at the next
statement, which parse_block then reported as TooManyTokens as well.
---
 src/parser/blocks.rs             | 9 ++++++---
 src/parser/statement_iterator.rs | 3 ++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index ec76fc2..322776f 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -142,9 +142,12 @@ fn parse_block(
             None => {}
         };
 
-        statement_iterator
-            .next_statement_should_be_empty()
-            .unwrap_or_else(|err| block.0.push_back(err.into()));
+        let remaining_tokens = statement_iterator.next_statement();
+        if !remaining_tokens.is_empty() {
+            block
+                .0
+                .push_back(ASTErrorType::TooManyTokens(remaining_tokens).into());
+        }
 
         match statement_iterator.peek() {
             Some(token) if should_stop_at_token(token) => break,
diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index 28724cf..33beb8d 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -56,10 +56,11 @@ impl StatementIterator {
     }
 
     pub fn next_statement_should_be_empty(&mut self) -> Result<(), ASTErrorType> {
-        let remaining_tokens = self.next_statement();
+        let remaining_tokens: VecDeque<Token> = self.collect();
         if !remaining_tokens.is_empty() {
             Err(ASTErrorType::TooManyTokens(remaining_tokens))
         } else {
+            self.next_statement();
             Ok(())
         }
     }
-- 
2.43.0


From f471c244311288e19ad17f0da58ba831247886c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:41 +0000
Subject: [PATCH 15/19] fix: parse blocks with no statements

The closing token of an empty block was parsed as a statement.
---
 src/parser/blocks.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index 322776f..abfc5f5 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -135,10 +135,11 @@ fn parse_block(
 ) -> ASTBlock {
     let mut block = ASTBlock::default();
     loop {
-        match statement_iterator.next() {
+        match statement_iterator.next_if(|token| !should_stop_at_token(token)) {
             Some(token) => block.0.push_back(
                 parse_statement(token, statement_iterator).unwrap_or_else(|err| err.into()),
             ),
+            None if statement_iterator.peek().is_some() => break,
             None => {}
         };
 
@@ -149,10 +150,8 @@ fn parse_block(
                 .push_back(ASTErrorType::TooManyTokens(remaining_tokens).into());
         }
 
-        match statement_iterator.peek() {
-            Some(token) if should_stop_at_token(token) => break,
-            None => break,
-            Some(_) => {}
+        if statement_iterator.peek().is_none() {
+            break;
         }
     }
     block
-- 
2.43.0


From e67a170d54bcceac0aaad3a5e7a50b069e0b0510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 16/19] fix: an empty statement made of an ellipsis does not
 end the block

The rest of the program was silently dropped after ", ... ,".
---
 src/parser/statement_iterator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index 33beb8d..0573df8 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -71,7 +71,7 @@ impl StatementIterator {
 
         while self
             .tokens_iter
-            .next_if(|t| t.token_type == TokenType::Comma)
+            .next_if(|t| matches!(t.token_type, TokenType::Comma | TokenType::Ellipsis))
             .is_some()
         {}
 
-- 
2.43.0


From 381168afa4bda7c63abd8738718241e6eb9d3663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:44 +0000
Subject: [PATCH 17/19] fix: implement iter_errors

It panicked when the iterator was used.
---
 src/parser/blocks.rs | 63 ++++++++++++++++----------------------------
 1 file changed, 23 insertions(+), 40 deletions(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index abfc5f5..c55347f 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -1,6 +1,6 @@
 use crate::parser::error::ASTErrorType;
 use crate::parser::statements::Node;
-use std::collections::VecDeque;
+use std::collections::vec_deque::{Iter, VecDeque};
 
 use crate::parser::StatementIterator;
 
@@ -28,18 +28,16 @@ impl<const T: usize> From<[Node; T]> for ASTBlock {
     }
 }
 
+/// Depth first iterator over the errors of a block and all of its inner blocks.
 struct ASTBlockErrorIterator<'a> {
-    blocks: Vec<&'a ASTBlock>,
-    current_block_index: usize,
-    current_block_statement: usize,
+    /// The nodes still to be visited. The last item is the innermost block.
+    pending: Vec<Iter<'a, Node>>,
 }
 
 impl<'a> ASTBlockErrorIterator<'a> {
     pub fn new(first_block: &'a ASTBlock) -> ASTBlockErrorIterator<'a> {
         ASTBlockErrorIterator {
-            blocks: vec![first_block],
-            current_block_index: 0,
-            current_block_statement: 0,
+            pending: vec![first_block.0.iter()],
         }
     }
 }
@@ -76,46 +74,31 @@ impl Node {
     }
 }
 
-enum ASTErrorOrBlock<'a> {
-    Error(&'a ASTErrorType),
-    Block(Vec<&'a ASTBlock>),
-}
-
 impl<'a> Iterator for ASTBlockErrorIterator<'a> {
-    type Item = ASTErrorType;
+    type Item = &'a ASTErrorType;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let _block_node = self
-            .blocks
-            .iter()
-            .skip(self.current_block_index)
-            .find_map(|block| {
-                block
-                    .0
-                    .iter()
-                    .skip(self.current_block_statement)
-                    .find_map(|node| {
-                        self.current_block_statement += 1;
-                        node.get_inner_block()
-                            .map(|block| ASTErrorOrBlock::Block(block))
-                            .or_else(|| match node {
-                                Node::ASTError(error) => Some(ASTErrorOrBlock::Error(error)),
-                                _ => None,
-                            })
-                    })
-                    .or_else(|| {
-                        self.current_block_index += 1;
-                        None
-                    })
-            });
-
-        todo!()
+        while let Some(nodes) = self.pending.last_mut() {
+            match nodes.next() {
+                Some(Node::ASTError(error)) => return Some(error),
+                Some(node) => {
+                    let blocks = node.get_inner_block().unwrap_or_default();
+                    self.pending
+                        .extend(blocks.into_iter().rev().map(|block| block.0.iter()));
+                }
+                None => {
+                    self.pending.pop();
+                }
+            }
+        }
+        None
     }
 }
 
 impl ASTBlock {
-    /// Iterates over any errors inside the block
-    pub fn iter_errors(&self) -> impl Iterator + '_ {
+    /// Iterates over any errors inside the block, including the ones inside of inner blocks, in the
+    /// order they appear in the source code
+    pub fn iter_errors(&self) -> impl Iterator<Item = &ASTErrorType> + '_ {
         ASTBlockErrorIterator::new(self)
     }
 }
-- 
2.43.0


From c2ea401ba3c24a8cb191e68e69a0bda1baad43ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:35 +0000
Subject: [PATCH 18/19] verification hook: report the shape of an AST (guarded
 by cfg lolcode_verif)

---
 src/lib.rs                     |   2 +
 src/parser/mod.rs              |   2 +
 src/parser/statements/gtfo.rs  |   7 +
 src/parser/statements/o_rly.rs |   7 +
 src/parser/verif.rs            | 446 +++++++++++++++++++++++++++++++++
 5 files changed, 464 insertions(+)
 create mode 100644 src/parser/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 3a2a0e8..8dcf350 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,6 @@
 #![warn(missing_docs)]
+// The lolcode_verif cfg guards the verification hooks
+#![allow(unexpected_cfgs)]
 
 //! An AST generator for LOLCODE focused on completeness
 //!
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 3746de2..b23e10e 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -13,6 +13,8 @@ pub mod expression;
 mod statement_iterator;
 /// Statement related data structures and logic
 pub mod statements;
+#[cfg(lolcode_verif)]
+pub mod verif;
 
 /// Transforms an array of tokens into an ASTBlock, which is an array of statements.
 pub fn parse(tokens: Vec<Token>) -> ASTBlock {
diff --git a/src/parser/statements/gtfo.rs b/src/parser/statements/gtfo.rs
index 608e4f1..655404d 100644
--- a/src/parser/statements/gtfo.rs
+++ b/src/parser/statements/gtfo.rs
@@ -27,3 +27,10 @@ impl Gtfo {
         Gtfo { gtfo_token: token }
     }
 }
+
+#[cfg(lolcode_verif)]
+impl Gtfo {
+    pub(crate) fn verif_gtfo_token(&self) -> &Token {
+        &self.gtfo_token
+    }
+}
diff --git a/src/parser/statements/o_rly.rs b/src/parser/statements/o_rly.rs
index c769000..4865ed4 100644
--- a/src/parser/statements/o_rly.rs
+++ b/src/parser/statements/o_rly.rs
@@ -119,6 +119,13 @@ impl ORly {
     }
 }
 
+#[cfg(lolcode_verif)]
+impl ORly {
+    pub(crate) fn verif_o_rly_token(&self) -> &Token {
+        &self.o_rly_token
+    }
+}
+
 #[cfg(test)]
 mod tests {
 
diff --git a/src/parser/verif.rs b/src/parser/verif.rs
new file mode 100644
index 0000000..b4102f0
--- /dev/null
+++ b/src/parser/verif.rs
@@ -0,0 +1,446 @@
+//! Verification hook, only compiled with `--cfg lolcode_verif`.
+//!
+//! Walks an AST and reports its shape, so that it can be compared against a reference model.
+//! Changes nothing of what the crate does.
+#![allow(missing_docs, unreachable_patterns)]
+
+use crate::lexer::{Position, Token};
+use crate::parser::ast_node::ASTStatement;
+use crate::parser::error::ASTErrorType;
+use crate::parser::expression::binary_operation::BinaryOpt;
+use crate::parser::expression::identifier::Identifier;
+use crate::parser::expression::nary_operations::NaryOpt;
+use crate::parser::expression::unary_operation::UnaryOpt;
+use crate::parser::expression::{
+    ASTExpression, ASTExpressionValue, ASTType, ExpressionError, VariableAccess,
+};
+use crate::parser::statements::assignment::{VariableAssignment, VariableAssignmentError};
+use crate::parser::statements::how_is_i::HowIsIError;
+use crate::parser::statements::i_has_a::{IHasAError, IHasAInitialValue};
+use crate::parser::statements::i_is::IIzError;
+use crate::parser::statements::im_in_yr::{ImInYrError, LoopCondition, LoopOperation};
+use crate::parser::statements::o_rly::ORlyError;
+use crate::parser::statements::Node;
+use crate::parser::ASTBlock;
+
+/// Receives the shape of an AST: a preorder traversal, with the tokens of each node in the order
+/// they're expected in the source code.
+pub trait Visitor {
+    fn open(&mut self, tag: u32);
+    fn token(&mut self, token: &Token);
+    fn close(&mut self);
+}
+
+pub mod tag {
+    pub const BLOCK: u32 = 1;
+    pub const I_HAS_A: u32 = 2;
+    pub const HAI: u32 = 3;
+    pub const IM_IN_YR: u32 = 4;
+    pub const BUKKIT_SET_SLOT: u32 = 5;
+    pub const ASSIGNMENT: u32 = 6;
+    pub const VISIBLE: u32 = 7;
+    pub const FOUND_YR: u32 = 8;
+    pub const WTF: u32 = 9;
+    pub const O_RLY: u32 = 10;
+    pub const I_IZ: u32 = 11;
+    pub const HOW_IZ_I: u32 = 12;
+    pub const GTFO: u32 = 13;
+    pub const GIMMEH: u32 = 14;
+    pub const EXPRESSION: u32 = 15;
+    pub const KTHXBYE: u32 = 16;
+
+    pub const VARIABLE: u32 = 20;
+    pub const IDENTIFIER: u32 = 21;
+    pub const LITERAL: u32 = 22;
+    pub const SLOT: u32 = 23;
+    pub const OPERAND: u32 = 24;
+    pub const OMG: u32 = 25;
+    pub const OMGWTF: u32 = 26;
+    pub const YA_RLY: u32 = 27;
+    pub const MEBBE: u32 = 28;
+    pub const NO_WAI: u32 = 29;
+    pub const UPPIN: u32 = 30;
+    pub const NERFIN: u32 = 31;
+    pub const TIL: u32 = 32;
+    pub const WILE: u32 = 33;
+
+    pub const TYPE_BUKKIT: u32 = 40;
+    pub const TYPE_NUMBR: u32 = 41;
+    pub const TYPE_NUMBAR: u32 = 42;
+    pub const TYPE_YARN: u32 = 43;
+    pub const TYPE_TROOF: u32 = 44;
+    pub const TYPE_NOOB: u32 = 45;
+
+    pub const NOT: u32 = 50;
+    pub const ALL_OF: u32 = 51;
+    pub const ANY_OF: u32 = 52;
+    pub const SMOOSH: u32 = 53;
+    pub const EITHER_OF: u32 = 54;
+    pub const WON_OF: u32 = 55;
+    pub const SUM_OF: u32 = 56;
+    pub const DIFF_OF: u32 = 57;
+    pub const PRODUKT_OF: u32 = 58;
+    pub const QUOSHUNT_OF: u32 = 59;
+    pub const MOD_OF: u32 = 60;
+    pub const BIGGR_OF: u32 = 61;
+    pub const SMALLR_OF: u32 = 62;
+    pub const BOTH_SAEM: u32 = 63;
+    pub const BOTH_OF: u32 = 64;
+    pub const DIFFRINT: u32 = 65;
+
+    /// All error tags are bigger than this one
+    pub const FIRST_ERROR: u32 = 100;
+    pub const UNEXPECTED_TOKEN: u32 = 101;
+    pub const TOO_MANY_TOKENS: u32 = 102;
+    pub const MISSING_TOKEN: u32 = 103;
+    pub const MISSING_BLOCK_CLOSING_TOKEN: u32 = 104;
+    pub const MISSING_OPERANDS: u32 = 105;
+    pub const I_HAS_A_INVALID_IDENTIFIER: u32 = 106;
+    pub const I_HAS_A_MISSING_IDENTIFIER: u32 = 107;
+    pub const I_HAS_A_EXPECTED_INITIAL_VALUE: u32 = 108;
+    pub const ASSIGNMENT_MISSING_R: u32 = 109;
+    pub const ASSIGNMENT_EXPECTED_VALUE: u32 = 110;
+    pub const O_RLY_MISSING_QUESTION_MARK: u32 = 111;
+    pub const O_RLY_MISSING_MEBBE_EXPRESSION: u32 = 112;
+    pub const HOW_IZ_I_MISSING_NAME: u32 = 113;
+    pub const I_IZ_MISSING_NAME: u32 = 114;
+    pub const I_IZ_MISSING_ARGUMENT: u32 = 115;
+    pub const I_IZ_MISSING_MKAY: u32 = 116;
+    pub const IM_IN_YR_MISSING_YR: u32 = 117;
+    pub const IM_IN_YR_MISSING_START_LABEL: u32 = 118;
+    pub const IM_IN_YR_INVALID_START_LABEL: u32 = 119;
+    pub const IM_IN_YR_MISSING_END_LABEL: u32 = 120;
+    pub const IM_IN_YR_INVALID_END_LABEL: u32 = 121;
+    pub const IM_IN_YR_MISSING_IM_OUTTA_YR: u32 = 122;
+    pub const IM_IN_YR_INVALID_OPERATION: u32 = 123;
+    pub const IM_IN_YR_MISSING_OPERAND: u32 = 124;
+    pub const IM_IN_YR_INVALID_CONDITIONAL: u32 = 125;
+    pub const IM_IN_YR_MISSING_CONDITIONAL_EXPRESSION: u32 = 126;
+
+    pub const UNKNOWN: u32 = 999;
+}
+
+pub fn visit_block<V: Visitor>(block: &ASTBlock, v: &mut V) {
+    v.open(tag::BLOCK);
+    for node in block.0.iter() {
+        visit_node(node, v);
+    }
+    v.close();
+}
+
+fn leaf<V: Visitor>(tag: u32, token: &Token, v: &mut V) {
+    v.open(tag);
+    v.token(token);
+    v.close();
+}
+
+pub fn visit_node<V: Visitor>(node: &Node, v: &mut V) {
+    match node {
+        Node::IHasA(s) => {
+            v.open(tag::I_HAS_A);
+            v.token(&s.i_has_a_token);
+            visit_identifier(&s.identifier, v);
+            match &s.initial_value {
+                None => {}
+                Some(IHasAInitialValue::Expression(expression)) => visit_expression(expression, v),
+                Some(IHasAInitialValue::Type(ast_type)) => visit_type(ast_type, v),
+            }
+        }
+        Node::Hai(s) => {
+            v.open(tag::HAI);
+            v.token(&s.hai_token);
+            s.version.iter().for_each(|t| v.token(t));
+        }
+        Node::ImInYr(s) => {
+            v.open(tag::IM_IN_YR);
+            v.token(&s.im_in_yr_token);
+            v.token(&s.label);
+            if let Some(on_iteration) = &s.on_iteration {
+                let (tag, token) = match &on_iteration.operation {
+                    LoopOperation::UPPIN(token) => (tag::UPPIN, token),
+                    LoopOperation::NERFIN(token) => (tag::NERFIN, token),
+                };
+                v.open(tag);
+                v.token(token);
+                visit_variable_access(&on_iteration.operand, v);
+                v.close();
+            }
+            if let Some(condition) = &s.condition {
+                let (tag, expression) = match condition {
+                    LoopCondition::TIL(expression) => (tag::TIL, expression),
+                    LoopCondition::WILE(expression) => (tag::WILE, expression),
+                };
+                v.open(tag);
+                visit_expression(expression, v);
+                v.close();
+            }
+            visit_block(&s.code_block, v);
+            v.token(&s.end_label);
+        }
+        Node::BukkitSetSlot(s) => {
+            v.open(tag::BUKKIT_SET_SLOT);
+            visit_variable_access(&s.bukkit, v);
+            visit_identifier(&s.slot_name, v);
+            visit_expression(&s.value, v);
+        }
+        Node::VariableAssignment(s) => {
+            v.open(tag::ASSIGNMENT);
+            visit_variable_access(&s.variable_access, v);
+            v.token(&s.r_token);
+            visit_expression(&s.expression, v);
+        }
+        Node::Visible(s) => {
+            v.open(tag::VISIBLE);
+            v.token(&s.visible_token);
+            s.expressions.iter().for_each(|e| visit_expression(e, v));
+            if let Some(token) = &s.exclamation_mark {
+                v.token(token);
+            }
+        }
+        Node::FoundYr(s) => {
+            v.open(tag::FOUND_YR);
+            v.token(&s.found_yr_token);
+            visit_expression(&s.expression, v);
+        }
+        Node::Wtf(s) => {
+            v.open(tag::WTF);
+            v.token(&s.wtf_token);
+            for omg in s.omg.iter() {
+                v.open(tag::OMG);
+                v.token(&omg.omg_token);
+                visit_expression(&omg.expression, v);
+                visit_block(&omg.block, v);
+                v.close();
+            }
+            if let Some(omg_wtf) = &s.omg_wtf {
+                v.open(tag::OMGWTF);
+                v.token(&omg_wtf.omg_wtf_token);
+                visit_block(&omg_wtf.block, v);
+                v.close();
+            }
+        }
+        Node::ORly(s) => {
+            v.open(tag::O_RLY);
+            v.token(s.verif_o_rly_token());
+            if let Some(ya_rly) = &s.if_true {
+                v.open(tag::YA_RLY);
+                v.token(&ya_rly.ya_rly_token);
+                visit_block(&ya_rly.block, v);
+                v.close();
+            }
+            for mebbe in s.mebbes.iter() {
+                v.open(tag::MEBBE);
+                v.token(&mebbe.mebbe_token);
+                visit_expression(&mebbe.condition, v);
+                visit_block(&mebbe.block, v);
+                v.close();
+            }
+            if let Some(no_wai) = &s.if_false {
+                v.open(tag::NO_WAI);
+                v.token(&no_wai.no_wai_token);
+                visit_block(&no_wai.block, v);
+                v.close();
+            }
+        }
+        Node::IIz(s) => {
+            v.open(tag::I_IZ);
+            v.token(&s.i_iz_token);
+            visit_variable_access(&s.name, v);
+            s.arguments.iter().for_each(|e| visit_expression(e, v));
+        }
+        Node::HowIzI(s) => {
+            v.open(tag::HOW_IZ_I);
+            v.token(&s.how_iz_i_token);
+            visit_identifier(&s.name, v);
+            s.arguments.iter().for_each(|i| visit_identifier(i, v));
+            visit_block(&s.body, v);
+        }
+        Node::Gtfo(s) => {
+            v.open(tag::GTFO);
+            v.token(s.verif_gtfo_token());
+        }
+        Node::Gimmeh(s) => {
+            v.open(tag::GIMMEH);
+            v.token(&s.gimmeh_token);
+            visit_variable_access(&s.variable_access, v);
+        }
+        Node::Expression(expression) => {
+            v.open(tag::EXPRESSION);
+            visit_expression(expression, v);
+        }
+        Node::KThxBye(s) => {
+            v.open(tag::KTHXBYE);
+            v.token(&s.k_thx_bye_token);
+        }
+        Node::ASTError(error) => return visit_error(error, v),
+        _ => v.open(tag::UNKNOWN),
+    }
+    v.close();
+}
+
+pub fn visit_expression<V: Visitor>(expression: &ASTExpression, v: &mut V) {
+    match expression {
+        ASTExpression::BinaryOperation(o) => {
+            v.open(match o.operator {
+                BinaryOpt::EitherOf(_) => tag::EITHER_OF,
+                BinaryOpt::WonOf(_) => tag::WON_OF,
+                BinaryOpt::SumOf(_) => tag::SUM_OF,
+                BinaryOpt::DiffOf(_) => tag::DIFF_OF,
+                BinaryOpt::ProduktOf(_) => tag::PRODUKT_OF,
+                BinaryOpt::QuoshuntOf(_) => tag::QUOSHUNT_OF,
+                BinaryOpt::ModOf(_) => tag::MOD_OF,
+                BinaryOpt::BiggrOf(_) => tag::BIGGR_OF,
+                BinaryOpt::SmallrOf(_) => tag::SMALLR_OF,
+                BinaryOpt::BothSaem(_) => tag::BOTH_SAEM,
+                BinaryOpt::BothOf(_) => tag::BOTH_OF,
+                BinaryOpt::Diffrint(_) => tag::DIFFRINT,
+                _ => tag::UNKNOWN,
+            });
+            v.token(o.operator.token());
+            visit_expression(&o.left, v);
+            if let Some(token) = &o.an_token {
+                v.token(token);
+            }
+            visit_expression(&o.right, v);
+        }
+        ASTExpression::UnaryOperation(o) => {
+            v.open(match o.operator {
+                UnaryOpt::Not(_) => tag::NOT,
+                _ => tag::UNKNOWN,
+            });
+            v.token(o.operator.token());
+            visit_expression(&o.expression, v);
+        }
+        ASTExpression::NaryOperation(o) => {
+            v.open(match o.operator {
+                NaryOpt::AllOf(_) => tag::ALL_OF,
+                NaryOpt::AnyOf(_) => tag::ANY_OF,
+                NaryOpt::Smoosh(_) => tag::SMOOSH,
+                _ => tag::UNKNOWN,
+            });
+            v.token(o.operator.token());
+            for operand in o.expressions.iter() {
+                v.open(tag::OPERAND);
+                visit_expression(&operand.operand, v);
+                if let Some(token) = &operand.an_token {
+                    v.token(token);
+                }
+                v.close();
+            }
+            if let Some(token) = &o.mkay_token {
+                v.token(token);
+            }
+        }
+        ASTExpression::Value(ASTExpressionValue::LiteralValue(token)) => {
+            v.open(tag::LITERAL);
+            v.token(token);
+        }
+        ASTExpression::Value(ASTExpressionValue::VariableAccess(variable_access)) => {
+            return visit_variable_access(variable_access, v)
+        }
+        _ => v.open(tag::UNKNOWN),
+    }
+    v.close();
+}
+
+fn visit_variable_access<V: Visitor>(variable_access: &VariableAccess, v: &mut V) {
+    v.open(tag::VARIABLE);
+    visit_identifier(&variable_access.identifier, v);
+    for access in variable_access.accesses.iter() {
+        v.open(tag::SLOT);
+        v.token(&access.slot_access_token);
+        visit_identifier(&access.identifier, v);
+        v.close();
+    }
+    v.close();
+}
+
+fn visit_identifier<V: Visitor>(identifier: &Identifier, v: &mut V) {
+    v.open(tag::IDENTIFIER);
+    if let Some(token) = &identifier.srs {
+        v.token(token);
+    }
+    v.token(&identifier.name);
+    v.close();
+}
+
+fn visit_type<V: Visitor>(ast_type: &ASTType, v: &mut V) {
+    match ast_type {
+        ASTType::Bukkit(token) => leaf(tag::TYPE_BUKKIT, token, v),
+        ASTType::Numbr(token) => leaf(tag::TYPE_NUMBR, token, v),
+        ASTType::Numbar(token) => leaf(tag::TYPE_NUMBAR, token, v),
+        ASTType::Yarn(token) => leaf(tag::TYPE_YARN, token, v),
+        ASTType::Troof(token) => leaf(tag::TYPE_TROOF, token, v),
+        ASTType::Noob(token) => leaf(tag::TYPE_NOOB, token, v),
+        _ => leaf(tag::UNKNOWN, ast_type.token(), v),
+    }
+}
+
+pub fn visit_error<V: Visitor>(error: &ASTErrorType, v: &mut V) {
+    let (tag, token) = match error {
+        ASTErrorType::TooManyTokens(tokens) => {
+            v.open(tag::TOO_MANY_TOKENS);
+            tokens.iter().for_each(|t| v.token(t));
+            return v.close();
+        }
+        ASTErrorType::UnexpectedToken(t) => (tag::UNEXPECTED_TOKEN, t),
+        ASTErrorType::MissingToken(t) => (tag::MISSING_TOKEN, t),
+        ASTErrorType::MissingBlockClosingToken(t) => (tag::MISSING_BLOCK_CLOSING_TOKEN, t),
+        ASTErrorType::Expression(ExpressionError::MissingOperands(t)) => (tag::MISSING_OPERANDS, t),
+        ASTErrorType::IHasA(e) => match e {
+            IHasAError::InvalidIdentifier(t) => (tag::I_HAS_A_INVALID_IDENTIFIER, t),
+            IHasAError::MissingIdentifier(t) => (tag::I_HAS_A_MISSING_IDENTIFIER, t),
+            IHasAError::ExpectedInitialValue(t) => (tag::I_HAS_A_EXPECTED_INITIAL_VALUE, t),
+        },
+        ASTErrorType::VariableAssignment(e) => match e {
+            VariableAssignmentError::MissingR(t) => (tag::ASSIGNMENT_MISSING_R, t),
+            VariableAssignmentError::ExpectedValue(t) => (tag::ASSIGNMENT_EXPECTED_VALUE, t),
+        },
+        ASTErrorType::ORly(e) => match e {
+            ORlyError::MissingQuestionMark(t) => (tag::O_RLY_MISSING_QUESTION_MARK, t),
+            ORlyError::MissingMebbeExpression(t) => (tag::O_RLY_MISSING_MEBBE_EXPRESSION, t),
+        },
+        ASTErrorType::HowIsI(HowIsIError::MissingNameIdentifier(t)) => {
+            (tag::HOW_IZ_I_MISSING_NAME, t)
+        }
+        ASTErrorType::IIz(e) => match e {
+            IIzError::MissingName(t) => (tag::I_IZ_MISSING_NAME, t),
+            IIzError::MissingArgument(t) => (tag::I_IZ_MISSING_ARGUMENT, t),
+            IIzError::MissingMkay(t) => (tag::I_IZ_MISSING_MKAY, t),
+        },
+        ASTErrorType::ImInYr(e) => match e {
+            ImInYrError::MissingYr(t) => (tag::IM_IN_YR_MISSING_YR, t),
+            ImInYrError::MissingStartLabel(t) => (tag::IM_IN_YR_MISSING_START_LABEL, t),
+            ImInYrError::InvalidStartLabel(t) => (tag::IM_IN_YR_INVALID_START_LABEL, t),
+            ImInYrError::MissingEndLabel(t) => (tag::IM_IN_YR_MISSING_END_LABEL, t),
+            ImInYrError::InvalidEndLabel(t) => (tag::IM_IN_YR_INVALID_END_LABEL, t),
+            ImInYrError::MissingImOuttaYr(t) => (tag::IM_IN_YR_MISSING_IM_OUTTA_YR, t),
+            ImInYrError::InvalidOperation(t) => (tag::IM_IN_YR_INVALID_OPERATION, t),
+            ImInYrError::MissingOperand(t) => (tag::IM_IN_YR_MISSING_OPERAND, t),
+            ImInYrError::InvalidConditional(t) => (tag::IM_IN_YR_INVALID_CONDITIONAL, t),
+            ImInYrError::MissingConditionalExpression(t) => {
+                (tag::IM_IN_YR_MISSING_CONDITIONAL_EXPRESSION, t)
+            }
+        },
+        _ => {
+            v.open(tag::UNKNOWN);
+            return v.close();
+        }
+    };
+    leaf(tag, token, v);
+}
+
+/// The tokens of an assignment, as given by its (private) trait implementation
+pub fn assignment_tokens(assignment: &VariableAssignment, f: &mut dyn FnMut(&Token)) {
+    assignment.tokens().for_each(|t| f(t));
+}
+
+/// The range of an assignment, as given by its (private) trait implementation
+pub fn assignment_range(assignment: &VariableAssignment) -> (&Position, &Position) {
+    assignment.range()
+}
+
+/// The variable and the expression of an assignment
+pub fn assignment_parts(assignment: &VariableAssignment) -> (&VariableAccess, &ASTExpression) {
+    (&assignment.variable_access, &assignment.expression)
+}
-- 
2.43.0


From 2ce5274550eb545d120f0ddc81f2b3ff638a9ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:11 +0000
Subject: [PATCH 19/19] verification hook: hand out expressions, variables,
 assignments and errors (guarded by cfg lolcode_verif)

---
 src/parser/verif.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/parser/verif.rs b/src/parser/verif.rs
index b4102f0..2e5e866 100644
--- a/src/parser/verif.rs
+++ b/src/parser/verif.rs
@@ -29,6 +29,15 @@ pub trait Visitor {
     fn open(&mut self, tag: u32);
     fn token(&mut self, token: &Token);
     fn close(&mut self);
+
+    /// Called before the shape of the expression is reported
+    fn expression(&mut self, _expression: &ASTExpression) {}
+    /// Called before the shape of the variable access is reported
+    fn variable_access(&mut self, _variable_access: &VariableAccess) {}
+    /// Called before the shape of the assignment is reported
+    fn assignment(&mut self, _assignment: &VariableAssignment) {}
+    /// Called before the shape of the error is reported
+    fn error(&mut self, _error: &ASTErrorType) {}
 }
 
 pub mod tag {
@@ -184,6 +193,7 @@ pub fn visit_node<V: Visitor>(node: &Node, v: &mut V) {
             visit_expression(&s.value, v);
         }
         Node::VariableAssignment(s) => {
+            v.assignment(s);
             v.open(tag::ASSIGNMENT);
             visit_variable_access(&s.variable_access, v);
             v.token(&s.r_token);
@@ -279,6 +289,7 @@ pub fn visit_node<V: Visitor>(node: &Node, v: &mut V) {
 }
 
 pub fn visit_expression<V: Visitor>(expression: &ASTExpression, v: &mut V) {
+    v.expression(expression);
     match expression {
         ASTExpression::BinaryOperation(o) => {
             v.open(match o.operator {
@@ -344,6 +355,7 @@ pub fn visit_expression<V: Visitor>(expression: &ASTExpression, v: &mut V) {
 }
 
 fn visit_variable_access<V: Visitor>(variable_access: &VariableAccess, v: &mut V) {
+    v.variable_access(variable_access);
     v.open(tag::VARIABLE);
     visit_identifier(&variable_access.identifier, v);
     for access in variable_access.accesses.iter() {
@@ -377,6 +389,7 @@ fn visit_type<V: Visitor>(ast_type: &ASTType, v: &mut V) {
 }
 
 pub fn visit_error<V: Visitor>(error: &ASTErrorType, v: &mut V) {
+    v.error(error);
     let (tag, token) = match error {
         ASTErrorType::TooManyTokens(tokens) => {
             v.open(tag::TOO_MANY_TOKENS);
-- 
2.43.0

