From 6071a9660dbf28f972c323d95ce7604eab71af76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:50 +0000
Subject: [PATCH 1/3] fix: do not take a lifetime's name for the prefix of a
 string literal

The text `'r"x"` (likewise 'b"..", 'br"..", 'c"..", 'cr"..") is the lifetime
'r followed by the string "x" to rustc, but the fallback lexed it as a lone
quote followed by the raw string literal r"x".
---
 src/parse.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 7de0a5c..6421b3e 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -171,6 +171,7 @@ const ERROR: &str = "(/*ERROR*/)";
 pub(crate) fn token_stream(mut input: Cursor) -> Result<TokenStream, LexError> {
     let mut tokens = TokenStreamBuilder::new();
     let mut stack = Vec::new();
+    let mut after_quote = false;
 
     loop {
         input = skip_whitespace(input);
@@ -233,10 +234,18 @@ pub(crate) fn token_stream(mut input: Cursor) -> Result<TokenStream, LexError> {
             tokens = outer;
             tokens.push_token_from_parser(TokenTree::Group(crate::Group::_new_fallback(g)));
         } else {
-            let (rest, mut tt) = match leaf_token(input) {
+            let leaf = if after_quote {
+                // The name of a lifetime is never the prefix of a string
+                // literal, such as in `'r"..."`.
+                ident_any(input).map(|(rest, ident)| (rest, TokenTree::Ident(ident)))
+            } else {
+                leaf_token(input)
+            };
+            let (rest, mut tt) = match leaf {
                 Ok((rest, tt)) => (rest, tt),
                 Err(Reject) => return Err(lex_error(input)),
             };
+            after_quote = matches!(&tt, TokenTree::Punct(punct) if punct.as_char() == '\'');
             tt.set_span(crate::Span::_new_fallback(Span {
                 #[cfg(span_locations)]
                 lo,
-- 
2.43.0


From 0c2afe2f78652e19762512aa5c51561e641baca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:25 +0000
Subject: [PATCH 2/3] fix: do not include the carriage return of a line ending
 in a doc comment's span

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 6421b3e..39991f8 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -992,7 +992,7 @@ fn take_until_newline_or_eof(input: Cursor) -> (Cursor, &str) {
         if ch == '\n' {
             return (input.advance(i), &input.rest[..i]);
         } else if ch == '\r' && input.rest[i + 1..].starts_with('\n') {
-            return (input.advance(i + 1), &input.rest[..i]);
+            return (input.advance(i), &input.rest[..i]);
         }
     }
 
-- 
2.43.0


From b3bdb50d2e8c4cd228c527c5f1f023fe811db2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:48 +0000
Subject: [PATCH 3/3] fix: decode a CRLF inside of a string literal as a
 newline

---
 src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f590f9b..109c885 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1310,7 +1310,8 @@ impl Literal {
     /// Returns the unescaped string value if this is a string literal.
     #[cfg(procmacro2_semver_exempt)]
     pub fn str_value(&self) -> Result<String, ConversionErrorKind> {
-        let repr = self.to_string();
+        // A line ending inside of a literal is always \n in its value.
+        let repr = self.to_string().replace("\r\n", "\n");
 
         if repr.starts_with('"') && repr[1..].ends_with('"') {
             let quoted = &repr[1..repr.len() - 1];
@@ -1343,7 +1344,8 @@ impl Literal {
     /// a c-string literal.
     #[cfg(procmacro2_semver_exempt)]
     pub fn cstr_value(&self) -> Result<Vec<u8>, ConversionErrorKind> {
-        let repr = self.to_string();
+        // A line ending inside of a literal is always \n in its value.
+        let repr = self.to_string().replace("\r\n", "\n");
 
         if repr.starts_with("c\"") && repr[2..].ends_with('"') {
             let quoted = &repr[2..repr.len() - 1];
@@ -1384,7 +1386,8 @@ impl Literal {
     /// Returns the unescaped string value if this is a byte string literal.
     #[cfg(procmacro2_semver_exempt)]
     pub fn byte_str_value(&self) -> Result<Vec<u8>, ConversionErrorKind> {
-        let repr = self.to_string();
+        // A line ending inside of a literal is always \n in its value.
+        let repr = self.to_string().replace("\r\n", "\n");
 
         if repr.starts_with("b\"") && repr[2..].ends_with('"') {
             let quoted = &repr[2..repr.len() - 1];
-- 
2.43.0

