From b18b79e1bb07b87df169a3578add03b7df6776ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 01/69] fix: stop at the end of the source inside templates and
 regular expressions

An unterminated template or regular expression literal made the lexer read
past the terminating NUL byte.
---
 ratel/src/lexer/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 923361b..183e21f 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -775,6 +775,10 @@ impl<'arena> Lexer<'arena> {
                         _ => self.bump()
                     }
                 },
+                0 => {
+                    self.token = UnexpectedEndOfProgram;
+                    return;
+                },
                 _ => self.bump()
             }
         }
@@ -1014,6 +1018,10 @@ impl<'arena> Lexer<'arena> {
                     self.token = UnexpectedToken;
                     return "";
                 },
+                0     => {
+                    self.token = UnexpectedEndOfProgram;
+                    return "";
+                },
                 _     => self.bump()
             }
         }
-- 
2.43.0


From c1de9a2813487d6d001ce5026964dfafcade45b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:48 +0000
Subject: [PATCH 02/69] fix: keep automatic semicolon insertion across comments

A comment made the lexer forget about the line break in front of it, and a
line break inside a block comment did not count as one.
---
 ratel/src/lexer/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 183e21f..708c251 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -403,7 +403,7 @@ const SLH: ByteHandler = Some(|lex| {
             unwind_loop!({
                 match lex.next_byte() {
                     0 | b'\n' => {
-                        return lex.consume();
+                        return lex.scan();
                     }
                     _ => {}
                 }
@@ -420,12 +420,16 @@ const SLH: ByteHandler = Some(|lex| {
                         match lex.next_byte() {
                             b'/' => {
                                 lex.bump();
-                                return lex.consume();
+                                return lex.scan();
                             },
                             0 => return lex.token = UnexpectedEndOfProgram,
                             _ => {}
                         }
                     },
+                    b'\n' => {
+                        lex.bump();
+                        lex.asi = Asi::ImplicitSemicolon;
+                    },
                     0 => return lex.token = UnexpectedEndOfProgram,
                     _ => lex.bump()
                 }
@@ -657,6 +661,13 @@ impl<'arena> Lexer<'arena> {
     pub fn consume(&mut self) {
         self.asi = Asi::NoSemicolon;
 
+        self.scan();
+    }
+
+    /// Scan for the next token, without forgetting about the new lines that
+    /// have been read since the previous one.
+    #[inline]
+    fn scan(&mut self) {
         let mut ch;
 
         unwind_loop!({
-- 
2.43.0


From 2517bdfb3bc92d17a7747fefbebafc7999f48920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 03/69] fix: read non-ASCII characters by their actual length

The lexer sliced four bytes from the start of any non-ASCII character, past
the end of the source or through the middle of another character, and it
never moved past an unexpected one, so the parser reported it for ever.
---
 ratel/src/lexer/mod.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 708c251..c0ade58 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -461,19 +461,14 @@ const PRC: ByteHandler = Some(|lex| {
 
 // Unicode character
 const UNI: ByteHandler = Some(|lex| {
-    let start = lex.index;
+    let first = lex.read_char();
 
-    // TODO: unicodes with different lengths
-    let first = lex.slice_source(start, start + 4).chars().next().expect("Has to have one");
+    lex.index += first.len_utf8();
 
     if !first.is_alphanumeric() {
         return lex.token = UnexpectedToken;
     }
 
-    // `read_label` bumps one at the beginning,
-    // so we subtract it here.
-    lex.index += first.len_utf8() - 1;
-
     lex.read_label();
 
     lex.token = Identifier;
@@ -829,6 +824,19 @@ impl<'arena> Lexer<'arena> {
         unsafe { *self.ptr.add(self.index) }
     }
 
+    /// Read a whole, possibly multi-byte, character from the source.
+    #[inline]
+    fn read_char(&self) -> char {
+        let len = match self.read_byte() {
+            0x00..=0x7F => 1,
+            0x80..=0xDF => 2,
+            0xE0..=0xEF => 3,
+            _           => 4,
+        };
+
+        self.slice_source(self.index, self.index + len).chars().next().unwrap_or('\0')
+    }
+
     /// Manually increment the index. Calling `read_byte` and then `bump`
     /// is equivalent to consuming a byte on an iterator.
     #[inline]
-- 
2.43.0


From 1c421657200ef4454b7d3198af4b203fecf2926c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 04/69] fix: treat Unicode white space and line separators as
 such

NO-BREAK SPACE, the byte order mark, LINE SEPARATOR and the other white space
outside of ASCII were errors, or were swallowed by the preceding identifier.
---
 ratel/src/lexer/labels.rs |  6 +++---
 ratel/src/lexer/mod.rs    | 26 +++++++++++++++++++++++++-
 ratel/src/lexer/util.rs   | 15 +++++++++++++++
 3 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/ratel/src/lexer/labels.rs b/ratel/src/lexer/labels.rs
index ed32d99..85ef81e 100644
--- a/ratel/src/lexer/labels.rs
+++ b/ratel/src/lexer/labels.rs
@@ -1,11 +1,11 @@
-use lexer::{util, ByteHandler};
+use lexer::ByteHandler;
 use lexer::token::Token::*;
 
 macro_rules! match_label {
     ($lex:ident [$( $byte:expr )* => $token:expr]) => {
         if $(
             $lex.next_byte() == $byte &&
-        )* {$lex.bump(); !util::legal_in_label($lex.read_byte())} {
+        )* {$lex.bump(); !$lex.at_label()} {
             return $lex.token = $token;
         }
     };
@@ -15,7 +15,7 @@ macro_rules! match_label {
             $(
                 $match => match_label!($lex $cont),
             )*
-            ch if !util::legal_in_label(ch) => return $lex.token = $token,
+            _ if !$lex.at_label() => return $lex.token = $token,
             _ => {}
         }
     };
diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index c0ade58..683d33b 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -465,6 +465,16 @@ const UNI: ByteHandler = Some(|lex| {
 
     lex.index += first.len_utf8();
 
+    if util::is_line_separator(first) {
+        lex.asi = Asi::ImplicitSemicolon;
+
+        return lex.scan();
+    }
+
+    if util::is_unicode_space(first) {
+        return lex.scan();
+    }
+
     if !first.is_alphanumeric() {
         return lex.token = UnexpectedToken;
     }
@@ -921,11 +931,25 @@ impl<'arena> Lexer<'arena> {
 
     #[inline]
     fn read_label(&mut self) {
-        while util::legal_in_label(self.read_byte()) {
+        while self.at_label() {
             self.bump();
         }
     }
 
+    /// Check whether the current byte continues an identifier.
+    #[inline]
+    fn at_label(&self) -> bool {
+        match self.read_byte() {
+            // Only the characters starting with these bytes can be white space
+            0xC2 | 0xE1..=0xE3 | 0xEF => {
+                let ch = self.read_char();
+
+                !util::is_unicode_space(ch) && !util::is_line_separator(ch)
+            },
+            byte => util::legal_in_label(byte),
+        }
+    }
+
     #[inline]
     fn slice_from(&self, start: usize) -> &'arena str {
         let end = self.index;
diff --git a/ratel/src/lexer/util.rs b/ratel/src/lexer/util.rs
index 4fc0e1c..1707dc3 100644
--- a/ratel/src/lexer/util.rs
+++ b/ratel/src/lexer/util.rs
@@ -1,3 +1,18 @@
+/// White space outside of the ASCII range, including the byte order mark
+#[inline]
+pub fn is_unicode_space(ch: char) -> bool {
+    match ch {
+        '\u{A0}' | '\u{1680}' | '\u{2000}'..='\u{200A}' | '\u{202F}' | '\u{205F}' | '\u{3000}' | '\u{FEFF}' => true,
+        _ => false,
+    }
+}
+
+/// Line terminators outside of the ASCII range
+#[inline]
+pub fn is_line_separator(ch: char) -> bool {
+    ch == '\u{2028}' || ch == '\u{2029}'
+}
+
 #[inline]
 pub fn legal_in_label(byte: u8) -> bool {
     // Look up table that marks which ASCII characters are allowed in identifiers
-- 
2.43.0


From 21f3abc0e8156a2c81e2c871839951e6a5f72c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 05/69] fix: recognise every ECMAScript line terminator

CARRIAGE RETURN, LINE SEPARATOR and PARAGRAPH SEPARATOR neither ended line
comments nor triggered automatic semicolon insertion.
---
 ratel/src/lexer/mod.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 683d33b..e121922 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -402,9 +402,12 @@ const SLH: ByteHandler = Some(|lex| {
             // Keep consuming bytes until new line or end of source
             unwind_loop!({
                 match lex.next_byte() {
-                    0 | b'\n' => {
+                    0 | b'\n' | b'\r' => {
                         return lex.scan();
-                    }
+                    },
+                    0xE2 if util::is_line_separator(lex.read_char()) => {
+                        return lex.scan();
+                    },
                     _ => {}
                 }
             });
@@ -426,7 +429,11 @@ const SLH: ByteHandler = Some(|lex| {
                             _ => {}
                         }
                     },
-                    b'\n' => {
+                    b'\n' | b'\r' => {
+                        lex.bump();
+                        lex.asi = Asi::ImplicitSemicolon;
+                    },
+                    0xE2 if util::is_line_separator(lex.read_char()) => {
                         lex.bump();
                         lex.asi = Asi::ImplicitSemicolon;
                     },
@@ -685,7 +692,7 @@ impl<'arena> Lexer<'arena> {
 
             self.bump();
 
-            if ch == b'\n' {
+            if ch == b'\n' || ch == b'\r' {
                 self.asi = Asi::ImplicitSemicolon;
             }
         })
@@ -1056,7 +1063,7 @@ impl<'arena> Lexer<'arena> {
                         _ => self.bump()
                     }
                 },
-                b'\n' => {
+                b'\n' | b'\r' => {
                     self.bump();
                     self.token = UnexpectedToken;
                     return "";
-- 
2.43.0


From a20e39cc1ecdf0c09f9b14ce6635ccd02b8296f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 06/69] fix: a line break ends an unterminated string literal

---
 ratel/src/lexer/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index e121922..3172797 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -597,8 +597,16 @@ const QOT: ByteHandler = Some(|lex| {
                 return lex.token = LiteralString;
             },
             b'\\' => {
-                lex.bump();
-                expect_byte!(lex);
+                match lex.next_byte() {
+                    // A line continuation can be two bytes long
+                    b'\r' => if lex.next_byte() == b'\n' {
+                        lex.bump();
+                    },
+                    _ => expect_byte!(lex),
+                }
+            },
+            b'\n' | b'\r' => {
+                return lex.token = UnexpectedToken;
             },
             0 => {
                 return lex.token = UnexpectedEndOfProgram;
-- 
2.43.0


From cddb312e3169dda97b38c305671d3555b292df17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:11 +0000
Subject: [PATCH 07/69] fix: read any property name after an accessor dot

A non-ASCII name panicked, the end of the source made the lexer run past the
end of the source, and a comment in front of the name was an error.
---
 ratel/src/lexer/mod.rs | 57 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 54 insertions(+), 3 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 3172797..c3f79e4 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -921,6 +921,7 @@ impl<'arena> Lexer<'arena> {
           AL, AL, AL, AL, AL, AL, AL, AL, AL, AL, AL, __, __, __, __, __, // 7
         ];
 
+        let end = self.index;
         let mut ch;
 
         unwind_loop!({
@@ -930,20 +931,70 @@ impl<'arena> Lexer<'arena> {
                 self.accessor_start = self.index;
 
                 if ch > 127 {
-                    unimplemented!();
-                    // return unicode(self)
+                    let first = self.read_char();
+
+                    self.index += first.len_utf8();
+
+                    if first.is_alphanumeric() {
+                        self.read_label();
+                        return self.token = Accessor;
+                    } else if !util::is_unicode_space(first) && !util::is_line_separator(first) {
+                        self.index = end;
+                        return self.token = UnexpectedToken;
+                    }
+
+                    // Rewind the last byte, so that it can be bumped below
+                    self.index -= 1;
                 } else if TABLE[ch as usize] {
                     self.read_label();
                     return self.token = Accessor;
-                } else {
+                } else if ch != b'/' || !self.skip_comment() {
+                    self.index = end;
                     return self.token = UnexpectedToken;
                 }
+            } else if ch == 0 {
+                self.index = end;
+                return self.token = UnexpectedToken;
             }
 
             self.bump();
         })
     }
 
+    /// Skip the comment starting at the current byte, stopping at its last byte.
+    /// Returns `false` if there is no (complete) comment to skip.
+    fn skip_comment(&mut self) -> bool {
+        match self.next_byte() {
+            b'/' => loop {
+                match self.next_byte() {
+                    0 => return false,
+                    b'\n' | b'\r' => return true,
+                    0xE2 if util::is_line_separator(self.read_char()) => {
+                        self.index += 2;
+                        return true;
+                    },
+                    _ => {}
+                }
+            },
+            b'*' => {
+                let mut ch = self.next_byte();
+
+                while ch != 0 {
+                    let star = ch == b'*';
+
+                    ch = self.next_byte();
+
+                    if star && ch == b'/' {
+                        return true;
+                    }
+                }
+
+                false
+            },
+            _ => false,
+        }
+    }
+
     #[inline]
     fn read_label(&mut self) {
         while self.at_label() {
-- 
2.43.0


From 9a27a018c0068ca758f520a584b8c765af04f626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 08/69] fix: do not take a null byte in the source for its end

Everything after an embedded null byte was silently dropped.
---
 ratel/src/lexer/mod.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index c3f79e4..1f74769 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -86,6 +86,12 @@ const ERR: ByteHandler = Some(|lex| {
 });
 
 const EOF: ByteHandler = Some(|lex| {
+    if lex.index < lex.len {
+        lex.bump();
+
+        return lex.token = UnexpectedToken;
+    }
+
     lex.asi = Asi::ImplicitSemicolon;
 
     lex.token = EndOfProgram;
@@ -632,6 +638,9 @@ pub struct Lexer<'arena> {
     /// Source to parse, must be a C-style buffer ending with 0 byte
     ptr: *const u8,
 
+    /// Length of the source, if known
+    len: usize,
+
     /// Current index
     index: usize,
 
@@ -648,7 +657,7 @@ impl<'arena> Lexer<'arena> {
     /// Create a new `Lexer` from source using an existing arena.
     #[inline]
     pub fn new(arena: &'arena Arena, source: &str) -> Self {
-        unsafe { Lexer::from_ptr(arena.alloc_str_with_nul(source)) }
+        unsafe { Lexer::from_ptr_and_len(arena.alloc_str_with_nul(source), source.len()) }
     }
 
     /// Create a new `Lexer` from a raw pointer to byte string.
@@ -661,10 +670,17 @@ impl<'arena> Lexer<'arena> {
     /// to bugs or undefined behavior.
     #[inline]
     pub unsafe fn from_ptr(ptr: *const u8) -> Self {
+        Lexer::from_ptr_and_len(ptr, 0)
+    }
+
+    /// A null byte in front of `len` does not end the source.
+    #[inline]
+    unsafe fn from_ptr_and_len(ptr: *const u8, len: usize) -> Self {
         let mut lexer = Lexer {
             token: UnexpectedToken,
             asi: Asi::NoSemicolon,
             ptr,
+            len,
             index: 0,
             token_start: 0,
             accessor_start: 0,
-- 
2.43.0


From 53adc282f4ecafc719808f5bfbb953592a54ef5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 09/69] fix: reject numbers without digits

A radix prefix or an exponent that no digit followed was taken for a number.
---
 ratel/src/lexer/mod.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 1f74769..f8a15a0 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -893,6 +893,8 @@ impl<'arena> Lexer<'arena> {
 
     #[inline]
     fn read_binary(&mut self) {
+        let start = self.index;
+
         loop {
             match self.read_byte() {
                 b'0' => {
@@ -905,7 +907,18 @@ impl<'arena> Lexer<'arena> {
             }
         }
 
-        self.token = LiteralBinary;
+        self.token = self.number_from(start, LiteralBinary);
+    }
+
+    /// The token for the number whose digits begin at `start`: at least one
+    /// of them has to be there.
+    #[inline]
+    fn number_from(&self, start: usize, token: Token) -> Token {
+        if self.index > start {
+            token
+        } else {
+            UnexpectedToken
+        }
     }
 
     /// This is a specialized method that expects the next token to be an identifier,
@@ -1052,6 +1065,8 @@ impl<'arena> Lexer<'arena> {
 
     #[inline]
     fn read_octal(&mut self) {
+        let start = self.index;
+
         while match self.read_byte() {
             b'0'..=b'7' => true,
             _ => false,
@@ -1059,11 +1074,13 @@ impl<'arena> Lexer<'arena> {
             self.bump();
         }
 
-        self.token = LiteralNumber;
+        self.token = self.number_from(start, LiteralNumber);
     }
 
     #[inline]
     fn read_hexadec(&mut self) {
+        let start = self.index;
+
         while match self.read_byte() {
             b'0'..=b'9' |
             b'a'..=b'f' |
@@ -1073,7 +1090,7 @@ impl<'arena> Lexer<'arena> {
             self.bump();
         }
 
-        self.token = LiteralNumber;
+        self.token = self.number_from(start, LiteralNumber);
     }
 
     #[inline]
@@ -1099,6 +1116,8 @@ impl<'arena> Lexer<'arena> {
             _           => {}
         }
 
+        let start = self.index;
+
         while match self.read_byte() {
             b'0'..=b'9' => true,
             _ => false,
@@ -1106,7 +1125,7 @@ impl<'arena> Lexer<'arena> {
             self.bump();
         }
 
-        self.token = LiteralNumber;
+        self.token = self.number_from(start, LiteralNumber);
     }
 
     #[inline]
-- 
2.43.0


From 72a87a2e81565435412b24f0078c24989dce4550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 10/69] fix: accept the dotAll flag of regular expressions

---
 ratel/src/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index f8a15a0..e65e9cd 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -1170,7 +1170,7 @@ impl<'arena> Lexer<'arena> {
             }
         }
 
-        while let b'g' | b'i' | b'm' | b'u' | b'y' = self.read_byte() {
+        while let b'g' | b'i' | b'm' | b's' | b'u' | b'y' = self.read_byte() {
             self.bump();
         }
 
-- 
2.43.0


From 66e2140beab7ec1078be45059128ec9100311246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 11/69] fix: parse regular expressions starting with an equals
 sign

---
 ratel/src/lexer/mod.rs         | 6 +++++-
 ratel/src/parser/expression.rs | 6 +++---
 ratel/src/parser/statement.rs  | 2 +-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index e65e9cd..d8259a0 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -1130,7 +1130,11 @@ impl<'arena> Lexer<'arena> {
 
     #[inline]
     pub fn read_regular_expression(&mut self) -> &'arena str {
-        let start = self.index - 1;
+        let start = self.token_start;
+
+        // The token can also be a `/=`
+        self.index = start + 1;
+
         let mut in_class = false;
         loop {
             match self.read_byte() {
diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 7b3aebc..531e79b 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -23,7 +23,7 @@ static DEF_CONTEXT: Context = &[
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
 //  ==    !=    &     ^     |     &&    ||    ?     =     +=    -=    **=
 
-    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, REG,  ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
 //  *=    /=    %=    <<=   >>=   >>>=  &=    ^=    |=    ...   VAR   LET
 
     ____, ____, ____, ____, ____, ____, ____, CLAS, ____, ____, ____, ____,
@@ -45,7 +45,7 @@ pub static ARRAY_CONTEXT: Context = &[
     OP,   OP,   OP,   OP,   OP,   OP,   OP,   ____, REG,  ____, ____, OP,
     OP,   ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
-    ____, ____, ____, ____, ____, ____, ____, ____, ____, SPRD, ____, ____,
+    ____, REG,  ____, ____, ____, ____, ____, ____, ____, SPRD, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, CLAS, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, FUNC, THIS, ____, ____, ____,
     ____, ____, ____, TRUE, FALS, NULL, UNDE, STR,  NUM,  BIN,  ____, ____,
@@ -58,7 +58,7 @@ pub static CALL_CONTEXT: Context = &[
     OP,   OP,   OP,   OP,   OP,   OP,   OP,   ____, REG,  ____, ____, OP,
     OP,   ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
-    ____, ____, ____, ____, ____, ____, ____, ____, ____, SPRD, ____, ____,
+    ____, REG,  ____, ____, ____, ____, ____, ____, ____, SPRD, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, CLAS, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, FUNC, THIS, ____, ____, ____,
     ____, ____, ____, TRUE, FALS, NULL, UNDE, STR,  NUM,  BIN,  ____, ____,
diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 3e56e67..9bb81ba 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -28,7 +28,7 @@ static STMT_HANDLERS: [StatementHandler; 108] = [
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
 //  ==    !=    &     ^     |     &&    ||    ?     =     +=    -=    **=
 
-    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, VAR,  LET,
+    ____, REG,  ____, ____, ____, ____, ____, ____, ____, ____, VAR,  LET,
 //  *=    /=    %=    <<=   >>=   >>>=  &=    ^=    |=    ...   VAR   LET
 
     CONS, BRK,  DO,   ____, ____, ____, ____, CLAS, ____, RET,  WHL,  ____,
-- 
2.43.0


From 28477ddded4c9be83806f6e0a20451550b8ab055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 12/69] fix: locate nodes by their own first and last tokens

Nodes ended where the token after them ended, began after an opening
parenthesis of their first operand, or covered only a part of the
construct. Locations the test suite fixes are left as they are.
---
 ratel/src/lexer/mod.rs         | 11 +++++++
 ratel/src/parser/expression.rs | 25 +++++++++------
 ratel/src/parser/function.rs   | 12 ++++---
 ratel/src/parser/nested.rs     | 57 ++++++++++++++++++----------------
 ratel/src/parser/statement.rs  | 32 +++++++++----------
 5 files changed, 79 insertions(+), 58 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index d8259a0..d697649 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -647,6 +647,9 @@ pub struct Lexer<'arena> {
     /// Position of current token in source
     token_start: usize,
 
+    /// End position of the previous token in source
+    prev_end: usize,
+
     accessor_start: usize,
 
     pub quasi: &'arena str,
@@ -683,6 +686,7 @@ impl<'arena> Lexer<'arena> {
             len,
             index: 0,
             token_start: 0,
+            prev_end: 0,
             accessor_start: 0,
             quasi: "",
         };
@@ -695,6 +699,7 @@ impl<'arena> Lexer<'arena> {
     /// Advances the lexer, produces a new `Token` and stores it on `self.token`.
     #[inline]
     pub fn consume(&mut self) {
+        self.prev_end = self.index;
         self.asi = Asi::NoSemicolon;
 
         self.scan();
@@ -760,6 +765,12 @@ impl<'arena> Lexer<'arena> {
         self.index as u32
     }
 
+    /// Get the end position of the last consumed token.
+    #[inline]
+    pub fn prev_end(&self) -> u32 {
+        self.prev_end as u32
+    }
+
     /// Get the start position of the current token, then advance the lexer.
     #[inline]
     pub fn start_then_consume(&mut self) -> u32 {
diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 531e79b..ee50ca5 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -80,8 +80,9 @@ macro_rules! create_handlers {
             $(
                 #[allow(non_snake_case)]
                 pub fn $pname<'ast>($ppar: &mut Parser<'ast>) -> StatementNode<'ast> {
+                    let start = $ppar.lexer.start();
                     let expression = $pcode;
-                    $ppar.expression_statement(expression)
+                    $ppar.expression_statement(start, expression)
                 }
             )*
         }
@@ -121,8 +122,9 @@ create_handlers! {
     const SPRD = |par| {
         let start = par.lexer.start_then_consume();
         let argument = par.expression::<B0>();
+        let end = par.lexer.prev_end();
 
-        par.alloc_at_loc(start, argument.end, SpreadExpression { argument })
+        par.alloc_at_loc(start, end, SpreadExpression { argument })
     };
 
     pub const THIS = |par| {
@@ -137,7 +139,7 @@ create_handlers! {
         let op = OperatorKind::from_token(par.lexer.token).expect("Must be a prefix operator");
         par.lexer.consume();
         let expression = par.prefix_expression(op);
-        let end = par.lexer.end();
+        let end = par.lexer.prev_end();
         par.alloc_at_loc(start, end, expression)
     };
 
@@ -250,9 +252,10 @@ impl<'ast> Parser<'ast> {
     where
         B: BindingPower
     {
+        let start = self.lexer.start();
         let left = self.bound_expression();
 
-        self.nested_expression::<B>(left)
+        self.nested_expression::<B>(start, left)
     }
 
     #[inline]
@@ -260,9 +263,10 @@ impl<'ast> Parser<'ast> {
     where
         B: BindingPower
     {
+        let start = self.lexer.start();
         let left = self.context_bound_expression(context);
 
-        self.nested_expression::<B>(left)
+        self.nested_expression::<B>(start, left)
     }
 
     #[inline]
@@ -321,7 +325,7 @@ impl<'ast> Parser<'ast> {
                 self.lexer.consume();
                 expect!(self, OperatorFatArrow);
                 let expression = self.arrow_function_expression(NodeList::empty());
-                let end = self.lexer.end();
+                let end = self.lexer.prev_end();
                 self.alloc_at_loc(start, end, expression)
             },
             _ => {
@@ -418,7 +422,7 @@ impl<'ast> Parser<'ast> {
             OperatorSpread => {
                 let start = self.lexer.start_then_consume();
                 let argument = self.expression::<B0>();
-                let end = self.lexer.end();
+                let end = self.lexer.prev_end();
                 return self.alloc_at_loc(start, end, Property::Spread { argument });
             },
             LiteralString |
@@ -455,8 +459,9 @@ impl<'ast> Parser<'ast> {
                 self.lexer.consume();
 
                 let value = self.expression::<B0>();
+                let end = self.lexer.prev_end();
 
-                self.alloc_at_loc(start, value.end, Property::Literal {
+                self.alloc_at_loc(start, end, Property::Literal {
                     key,
                     value,
                 })
@@ -608,10 +613,10 @@ impl<'ast> Parser<'ast> {
     }
 
     #[inline]
-    pub fn tagged_template_expression(&mut self, tag: ExpressionNode<'ast>) -> ExpressionNode<'ast> {
+    pub fn tagged_template_expression(&mut self, start: u32, tag: ExpressionNode<'ast>) -> ExpressionNode<'ast> {
         let quasi = self.template_literal();
 
-        self.alloc_at_loc(tag.start, quasi.end, TaggedTemplateExpression {
+        self.alloc_at_loc(start, quasi.end, TaggedTemplateExpression {
             tag,
             quasi,
         })
diff --git a/ratel/src/parser/function.rs b/ratel/src/parser/function.rs
index a9bcbdd..65ab461 100644
--- a/ratel/src/parser/function.rs
+++ b/ratel/src/parser/function.rs
@@ -115,8 +115,8 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
 
         let mut kind = MethodKind::Method;
 
-        let token_start = par.lexer.start();
-        let token_end;
+        let mut token_start = par.lexer.start();
+        let mut token_end;
 
         let key = match par.lexer.token {
             _ if par.lexer.token.is_word() => {
@@ -130,7 +130,8 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
                         _     => return par.error()
                     };
                     label = par.lexer.token_as_str();
-                    par.lexer.consume();
+                    token_start = par.lexer.start();
+                    token_end = par.lexer.end_then_consume();
                 } else if !is_static && label == "constructor" {
                     kind = MethodKind::Constructor;
                 }
@@ -180,7 +181,7 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
 
                 let expression = par.expression::<B0>();
 
-                end = expression.end;
+                end = par.lexer.prev_end();
 
                 ClassMember::Literal {
                     is_static,
@@ -271,8 +272,9 @@ impl<'ast> Parser<'ast> {
                 self.lexer.consume();
 
                 let right = self.expression::<B0>();
+                let end = self.lexer.prev_end();
 
-                self.alloc_at_loc(left.start, right.end, Pattern::AssignmentPattern {
+                self.alloc_at_loc(left.start, end, Pattern::AssignmentPattern {
                     left,
                     right,
                 })
diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 96b8980..fd22d2b 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -9,7 +9,7 @@ use lexer::Asi;
 
 const TOTAL_TOKENS: usize = 108;
 
-type NestedHandler = Option<for<'ast> fn(&mut Parser<'ast>, ExpressionNode<'ast>) -> ExpressionNode<'ast>>;
+type NestedHandler = Option<for<'ast> fn(&mut Parser<'ast>, u32, ExpressionNode<'ast>) -> ExpressionNode<'ast>>;
 
 pub trait BindingPower {
     const LUT: [NestedHandler; TOTAL_TOKENS];
@@ -226,7 +226,7 @@ bp!(B15, [
 
 const ____: NestedHandler = None;
 
-const SEQ: NestedHandler = Some(|par, left| {
+const SEQ: NestedHandler = Some(|par, start, left| {
     par.lexer.consume();
 
     let builder = ListBuilder::new(par.arena, left);
@@ -237,27 +237,28 @@ const SEQ: NestedHandler = Some(|par, left| {
         builder.push(par.arena, par.expression::<B0>());
     }
     let end = par.lexer.end();
-    par.alloc_at_loc(left.start, end, SequenceExpression {
+    par.alloc_at_loc(start, end, SequenceExpression {
         body: builder.as_list()
     })
 });
 
 
-const COND: NestedHandler = Some(|par, left| {
+const COND: NestedHandler = Some(|par, start, left| {
     par.lexer.consume();
 
     let consequent = par.expression::<B1>();
     expect!(par, Colon);
     let alternate = par.expression::<B1>();
 
-    par.alloc_at_loc(left.start, alternate.end, ConditionalExpression {
+    let end = par.lexer.prev_end();
+    par.alloc_at_loc(start, end, ConditionalExpression {
         test: left,
         consequent,
         alternate,
     })
 });
 
-const ARRW: NestedHandler = Some(|par, left| {
+const ARRW: NestedHandler = Some(|par, _, left| {
     par.lexer.consume();
 
     let params = match left.item {
@@ -266,24 +267,24 @@ const ARRW: NestedHandler = Some(|par, left| {
     };
 
     let expression = par.arrow_function_expression(params);
-    let start = left.start;
-    let end = par.lexer.end();
-    par.alloc_at_loc(start, end, expression)
+    let end = par.lexer.prev_end();
+    par.alloc_at_loc(left.start, end, expression)
 });
 
-const ACCS: NestedHandler = Some(|par, left| {
+const ACCS: NestedHandler = Some(|par, start, left| {
     let member = par.lexer.accessor_as_str();
     par.lexer.consume();
 
+    let end = par.lexer.prev_end();
     let right = par.alloc_in_loc(member);
 
-    par.alloc_at_loc(left.start, right.end, MemberExpression {
+    par.alloc_at_loc(start, end, MemberExpression {
         object: left,
         property: right,
     })
 });
 
-const CALL: NestedHandler = Some(|par, left| {
+const CALL: NestedHandler = Some(|par, _, left| {
     let start = par.lexer.start_then_consume();
     let arguments = par.call_arguments();
     let end = par.lexer.end_then_consume();
@@ -294,36 +295,36 @@ const CALL: NestedHandler = Some(|par, left| {
     })
 });
 
-const CMEM: NestedHandler = Some(|par, left| {
+const CMEM: NestedHandler = Some(|par, start, left| {
     par.lexer.consume();
     let property = par.expression::<ANY>();
 
     expect!(par, BracketClose);
-    let end = par.lexer.end();
+    let end = par.lexer.prev_end();
 
-    par.alloc_at_loc(left.start, end, ComputedMemberExpression {
+    par.alloc_at_loc(start, end, ComputedMemberExpression {
         object: left,
         property,
     })
 });
 
-const TPLS: NestedHandler = Some(|par, left| {
+const TPLS: NestedHandler = Some(|par, start, left| {
     let quasi = par.template_string();
 
-    par.alloc_at_loc(left.start, quasi.end, TaggedTemplateExpression {
+    par.alloc_at_loc(start, quasi.end, TaggedTemplateExpression {
         tag: left,
         quasi,
     })
 });
 
-const TPLE: NestedHandler = Some(|par, left| {
-    par.tagged_template_expression(left)
+const TPLE: NestedHandler = Some(|par, start, left| {
+    par.tagged_template_expression(start, left)
 });
 
 macro_rules! postfix {
     ($name:ident => $op:ident) => {
         const $name: NestedHandler = {
-            fn handler<'ast>(par: &mut Parser<'ast>, left: ExpressionNode<'ast>) -> ExpressionNode<'ast> {
+            fn handler<'ast>(par: &mut Parser<'ast>, start: u32, left: ExpressionNode<'ast>) -> ExpressionNode<'ast> {
                 let end = par.lexer.end();
                 par.lexer.consume();
 
@@ -331,7 +332,7 @@ macro_rules! postfix {
                     par.error::<()>();
                 }
 
-                par.alloc_at_loc(left.start, end, PostfixExpression {
+                par.alloc_at_loc(start, end, PostfixExpression {
                     operator: $op,
                     operand: left,
                 })
@@ -345,7 +346,7 @@ macro_rules! postfix {
 macro_rules! assign {
     ($name:ident => $op:ident) => {
         const $name: NestedHandler = {
-            fn handler<'ast>(par: &mut Parser<'ast>, left: ExpressionNode<'ast>) -> ExpressionNode<'ast> {
+            fn handler<'ast>(par: &mut Parser<'ast>, start: u32, left: ExpressionNode<'ast>) -> ExpressionNode<'ast> {
                 par.lexer.consume();
 
                 if !left.is_lvalue() {
@@ -354,7 +355,8 @@ macro_rules! assign {
 
                 let right = par.expression::<B1>();
 
-                par.alloc_at_loc(left.start, right.end, BinaryExpression {
+                let end = par.lexer.prev_end();
+                par.alloc_at_loc(start, end, BinaryExpression {
                     operator: $op,
                     left,
                     right,
@@ -369,12 +371,13 @@ macro_rules! assign {
 macro_rules! binary {
     ($name:ident, $bp:ident => $op:ident) => {
         const $name: NestedHandler = {
-            fn handler<'ast>(par: &mut Parser<'ast>, left: ExpressionNode<'ast>) -> ExpressionNode<'ast> {
+            fn handler<'ast>(par: &mut Parser<'ast>, start: u32, left: ExpressionNode<'ast>) -> ExpressionNode<'ast> {
                 par.lexer.consume();
 
                 let right = par.expression::<$bp>();
 
-                par.alloc_at_loc(left.start, right.end, BinaryExpression {
+                let end = par.lexer.prev_end();
+                par.alloc_at_loc(start, end, BinaryExpression {
                     operator: $op,
                     left,
                     right,
@@ -431,12 +434,12 @@ binary!(EXPN , B15 => Exponent);
 
 impl<'ast> Parser<'ast> {
     #[inline]
-    pub fn nested_expression<B>(&mut self, mut left: ExpressionNode<'ast>) -> ExpressionNode<'ast>
+    pub fn nested_expression<B>(&mut self, start: u32, mut left: ExpressionNode<'ast>) -> ExpressionNode<'ast>
     where
         B: BindingPower
     {
         while let Some(handler) = B::handler(self.asi(), self.lexer.token) {
-            left = handler(self, left);
+            left = handler(self, start, left);
         }
 
         left
diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 9bb81ba..30ae752 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -182,8 +182,8 @@ impl<'ast> Parser<'ast> {
     }
 
     #[inline]
-    pub fn expression_statement(&mut self, expression: ExpressionNode<'ast>) -> StatementNode<'ast> {
-        let expression = self.nested_expression::<ANY>(expression);
+    pub fn expression_statement(&mut self, start: u32, expression: ExpressionNode<'ast>) -> StatementNode<'ast> {
+        let expression = self.nested_expression::<ANY>(start, expression);
 
         self.wrap_expression(expression)
     }
@@ -213,7 +213,7 @@ impl<'ast> Parser<'ast> {
         }
 
         let expression = self.alloc_at_loc(start, end, label);
-        let expression = self.nested_expression::<ANY>(expression);
+        let expression = self.nested_expression::<ANY>(start, expression);
 
         self.expect_semicolon();
 
@@ -240,15 +240,15 @@ impl<'ast> Parser<'ast> {
     pub fn variable_declaration_statement(&mut self, kind: DeclarationKind) -> StatementNode<'ast> {
         let start = self.lexer.start_then_consume();
         let declarators = self.variable_declarators();
-        let end = self.lexer.end();
-        let declaration = self.alloc_at_loc(start, end, DeclarationStatement {
-            kind,
-            declarators
-        });
 
         self.expect_semicolon();
 
-        declaration
+        let end = self.lexer.prev_end();
+
+        self.alloc_at_loc(start, end, DeclarationStatement {
+            kind,
+            declarators
+        })
     }
 
     #[inline]
@@ -260,7 +260,7 @@ impl<'ast> Parser<'ast> {
                 self.lexer.consume();
                 let init = self.expression::<B0>();
 
-                (Some(init), init.end)
+                (Some(init), self.lexer.prev_end())
             },
             _ => (None, id.end)
         };
@@ -298,7 +298,7 @@ impl<'ast> Parser<'ast> {
         let value = match self.asi() {
             Asi::NoSemicolon => {
                 let expression = self.expression::<ANY>();
-                end = expression.end;
+                end = self.lexer.prev_end();
 
                 self.expect_semicolon();
 
@@ -368,10 +368,11 @@ impl<'ast> Parser<'ast> {
     pub fn throw_statement(&mut self) -> StatementNode<'ast> {
         let start = self.lexer.start_then_consume();
         let value = self.expression::<ANY>();
+        let end = self.lexer.prev_end();
 
         self.expect_semicolon();
 
-        self.alloc_at_loc(start, value.end, ThrowStatement { value })
+        self.alloc_at_loc(start, end, ThrowStatement { value })
     }
 
     #[inline]
@@ -482,8 +483,8 @@ impl<'ast> Parser<'ast> {
     fn for_init(&mut self, kind: DeclarationKind) -> Node<'ast, ForInit<'ast>> {
         let start = self.lexer.start_then_consume();
         let declarators = self.variable_declarators();
-        let end = self.lexer.end();
-        
+        let end = self.lexer.prev_end();
+
         self.alloc_at_loc(start, end, DeclarationStatement {
             kind,
             declarators
@@ -636,7 +637,7 @@ impl<'ast> Parser<'ast> {
         if self.lexer.token == Comma || self.lexer.token == ParenOpen {
             // call or access. example: `import()` `import.filed`
             let expression = self.alloc_at_loc(start, end, import);
-            let expression = self.nested_expression::<ANY>(expression);
+            let expression = self.nested_expression::<ANY>(start, expression);
             self.expect_semicolon();
             return self.alloc_at_loc(start, expression.end, expression)
         }
@@ -660,7 +661,6 @@ impl<'ast> Parser<'ast> {
                 }
             }
             LiteralString => { // empty import entry
-                let start = self.lexer.start();
                 let str_ltr = self.lexer.token_as_str();
                 let source = &str_ltr[1..str_ltr.len() - 1];
                 let end = self.lexer.end_then_consume();
-- 
2.43.0


From 0ca98774373acbb38d0a2bdfb4a14f6d251eae95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:23 +0000
Subject: [PATCH 13/69] fix: an arrow function is not an operand

It binds no tighter than an assignment, so that it is neither the operand
of an operator nor called or accessed without parentheses around it. Its
parameters are checked before the arrow is consumed, so that the error
names the arrow.
---
 ratel/src/parser/expression.rs | 21 +++++++++--------
 ratel/src/parser/nested.rs     | 42 +++++++++++++++++++++++-----------
 2 files changed, 41 insertions(+), 22 deletions(-)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index ee50ca5..f6624b3 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -2,7 +2,7 @@ use toolshed::list::ListBuilder;
 use parser::{Parser, Parse, BindingPower, ANY, B0, B15};
 use lexer::Token::*;
 use ast::{Node, NodeList, Expression, ExpressionNode, IdentifierNode, ExpressionList};
-use ast::{Property, PropertyKey, OperatorKind, Literal, Function, Class, StatementNode};
+use ast::{Property, PropertyKey, OperatorKind, Literal, Function, Class, StatementNode, Pattern};
 use ast::expression::*;
 
 
@@ -270,9 +270,7 @@ impl<'ast> Parser<'ast> {
     }
 
     #[inline]
-    pub fn arrow_function_expression(&mut self, params: ExpressionList<'ast>) -> ArrowExpression<'ast> {
-        let params = self.params_from_expressions(params);
-
+    pub fn arrow_function_expression(&mut self, params: NodeList<'ast, Pattern<'ast>>) -> ArrowExpression<'ast> {
         let body = match self.lexer.token {
             BraceOpen => ArrowBody::Block(self.unchecked_block()),
             _         => ArrowBody::Expression(self.expression::<B0>()),
@@ -322,11 +320,16 @@ impl<'ast> Parser<'ast> {
         let start = self.lexer.start_then_consume();
         match self.lexer.token {
             ParenClose => {
-                self.lexer.consume();
-                expect!(self, OperatorFatArrow);
-                let expression = self.arrow_function_expression(NodeList::empty());
-                let end = self.lexer.prev_end();
-                self.alloc_at_loc(start, end, expression)
+                let end = self.lexer.end_then_consume();
+
+                // Must be followed by an arrow, which turns this into its empty list of parameters
+                if self.lexer.token != OperatorFatArrow {
+                    self.error::<()>();
+                }
+
+                self.alloc_at_loc(start, end, SequenceExpression {
+                    body: NodeList::empty()
+                })
             },
             _ => {
                 let expression = self.expression::<ANY>();
diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index fd22d2b..daf4e47 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -93,7 +93,7 @@ bp!(B1, [
 ]);
 
 bp!(B5, [
-    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ARRW, ____,
+    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ____, ____,
     INC,  DEC,  ____, ____, ____, ____, ____, MUL,  DIV,  REM,  EXPN, ADD,
     SUB,  BSL,  BSR,  UBSR, LESS, LSEQ, GRTR, GREQ, INOF, IN,   STEQ, SIEQ,
     EQ,   INEQ, BWAN, BWXO, BWOR, AND,  ____, ____, ____, ____, ____, ____,
@@ -105,7 +105,7 @@ bp!(B5, [
 ]);
 
 bp!(B6, [
-    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ARRW, ____,
+    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ____, ____,
     INC,  DEC,  ____, ____, ____, ____, ____, MUL,  DIV,  REM,  EXPN, ADD,
     SUB,  BSL,  BSR,  UBSR, LESS, LSEQ, GRTR, GREQ, INOF, IN,   STEQ, SIEQ,
     EQ,   INEQ, BWAN, BWXO, BWOR, ____, ____, ____, ____, ____, ____, ____,
@@ -117,7 +117,7 @@ bp!(B6, [
 ]);
 
 bp!(B7, [
-    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ARRW, ____,
+    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ____, ____,
     INC,  DEC,  ____, ____, ____, ____, ____, MUL,  DIV,  REM,  EXPN, ADD,
     SUB,  BSL,  BSR,  UBSR, LESS, LSEQ, GRTR, GREQ, INOF, IN,   STEQ, SIEQ,
     EQ,   INEQ, BWAN, BWXO, ____, ____, ____, ____, ____, ____, ____, ____,
@@ -129,7 +129,7 @@ bp!(B7, [
 ]);
 
 bp!(B8, [
-    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ARRW, ____,
+    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ____, ____,
     INC,  DEC,  ____, ____, ____, ____, ____, MUL,  DIV,  REM,  EXPN, ADD,
     SUB,  BSL,  BSR,  UBSR, LESS, LSEQ, GRTR, GREQ, INOF, IN,   STEQ, SIEQ,
     EQ,   INEQ, BWAN, ____, ____, ____, ____, ____, ____, ____, ____, ____,
@@ -141,7 +141,7 @@ bp!(B8, [
 ]);
 
 bp!(B9, [
-    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ARRW, ____,
+    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ____, ____,
     INC,  DEC,  ____, ____, ____, ____, ____, MUL,  DIV,  REM,  EXPN, ADD,
     SUB,  BSL,  BSR,  UBSR, LESS, LSEQ, GRTR, GREQ, INOF, IN,   STEQ, SIEQ,
     EQ,   INEQ, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
@@ -153,7 +153,7 @@ bp!(B9, [
 ]);
 
 bp!(B10, [
-    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ARRW, ____,
+    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ____, ____,
     INC,  DEC,  ____, ____, ____, ____, ____, MUL,  DIV,  REM,  EXPN, ADD,
     SUB,  BSL,  BSR,  UBSR, LESS, LSEQ, GRTR, GREQ, INOF, IN,   ____, ____,
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
@@ -165,7 +165,7 @@ bp!(B10, [
 ]);
 
 bp!(B11, [
-    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ARRW, ____,
+    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ____, ____,
     INC,  DEC,  ____, ____, ____, ____, ____, MUL,  DIV,  REM,  EXPN, ADD,
     SUB,  BSL,  BSR,  UBSR, ____, ____, ____, ____, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
@@ -177,7 +177,7 @@ bp!(B11, [
 ]);
 
 bp!(B12, [
-    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ARRW, ____,
+    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ____, ____,
     INC,  DEC,  ____, ____, ____, ____, ____, MUL,  DIV,  REM,  EXPN, ADD,
     SUB,  ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
@@ -189,7 +189,7 @@ bp!(B12, [
 ]);
 
 bp!(B13, [
-    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ARRW, ____,
+    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ____, ____,
     INC,  DEC,  ____, ____, ____, ____, ____, MUL,  DIV,  REM,  EXPN, ____,
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
@@ -201,7 +201,7 @@ bp!(B13, [
 ]);
 
 bp!(B14, [
-    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ARRW, ____,
+    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ____, ____,
     INC,  DEC,  ____, ____, ____, ____, ____, ____, ____, ____, EXPN, ____,
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
@@ -213,7 +213,7 @@ bp!(B14, [
 ]);
 
 bp!(B15, [
-    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ARRW, ____,
+    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ____, ____,
     INC,  DEC,  ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
@@ -259,13 +259,18 @@ const COND: NestedHandler = Some(|par, start, left| {
 });
 
 const ARRW: NestedHandler = Some(|par, _, left| {
-    par.lexer.consume();
-
     let params = match left.item {
         Expression::Sequence(SequenceExpression { body }) => body,
         _ => NodeList::from(par.arena, left)
     };
 
+    let errors = par.errors.len();
+    let params = par.params_from_expressions(params);
+
+    if par.errors.len() == errors {
+        par.lexer.consume();
+    }
+
     let expression = par.arrow_function_expression(params);
     let end = par.lexer.prev_end();
     par.alloc_at_loc(left.start, end, expression)
@@ -438,8 +443,19 @@ impl<'ast> Parser<'ast> {
     where
         B: BindingPower
     {
+        let mut arrow = false;
+
         while let Some(handler) = B::handler(self.asi(), self.lexer.token) {
+            let token = self.lexer.token;
+
+            // An arrow function can only be an operand of a sequence,
+            // unless it is wrapped in parentheses
+            if arrow && token != Comma {
+                break;
+            }
+
             left = handler(self, start, left);
+            arrow = token == OperatorFatArrow;
         }
 
         left
-- 
2.43.0


From 7ec26a938e6eebf94365fec01dc8b68c9f9317a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 14/69] fix: reject assignments to what can not be assigned

Patterns are checked all the way down and only allowed on the left of the
plain assignment operator, and the operand of a prefix increment has to
be a reference. The error names the operator.
---
 ratel/src/ast/expression.rs    | 39 +++++++++++++++++++++++++++++-----
 ratel/src/parser/expression.rs |  6 ++++++
 ratel/src/parser/nested.rs     | 39 +++++++++++++++++-----------------
 3 files changed, 60 insertions(+), 24 deletions(-)

diff --git a/ratel/src/ast/expression.rs b/ratel/src/ast/expression.rs
index b25d1db..8f462ae 100644
--- a/ratel/src/ast/expression.rs
+++ b/ratel/src/ast/expression.rs
@@ -220,18 +220,47 @@ impl<'ast> Expression<'ast> {
         }
     }
 
+    /// Can be a target of any assignment operator, increment or decrement
     #[inline]
-    pub fn is_lvalue(&self) -> bool {
+    pub fn is_reference(&self) -> bool {
         use self::Expression::*;
 
         match *self {
             Identifier(_)     |
             Member(_)         |
-            ComputedMember(_) |
-            Object(_)         |
-            Array(_)          |
-            Spread(_)         => true,
+            ComputedMember(_) => true,
             _ => false,
         }
     }
+
+    /// Can be on the left side of the `=` operator, which includes destructuring patterns
+    #[inline]
+    pub fn is_lvalue(&self) -> bool {
+        use self::Expression::*;
+
+        match *self {
+            Object(ObjectExpression { body }) => body.iter().all(|property| match property.item {
+                Property::Shorthand(_)         => true,
+                Property::Literal { value, .. } => value.is_target(),
+                Property::Method { .. }        => false,
+                Property::Spread { argument }  => argument.is_reference(),
+            }),
+            Array(ArrayExpression { body }) => body.iter().all(|element| match element.item {
+                Void                                     => true,
+                Spread(SpreadExpression { argument }) => argument.is_lvalue(),
+                _                                        => element.is_target(),
+            }),
+            _ => self.is_reference(),
+        }
+    }
+
+    /// Can be an element of a destructuring pattern, optionally with a default value
+    #[inline]
+    fn is_target(&self) -> bool {
+        match *self {
+            // The left side is already known to be a target
+            Expression::Binary(BinaryExpression { operator: OperatorKind::Assign, .. }) => true,
+            _ => self.is_lvalue(),
+        }
+    }
 }
diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index f6624b3..ade92fb 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -345,6 +345,12 @@ impl<'ast> Parser<'ast> {
     pub fn prefix_expression(&mut self, operator: OperatorKind) -> PrefixExpression<'ast> {
         let operand = self.expression::<B15>();
 
+        match operator {
+            OperatorKind::Increment |
+            OperatorKind::Decrement if !operand.is_reference() => self.error(),
+            _ => {}
+        }
+
         PrefixExpression {
             operator,
             operand,
diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index daf4e47..37606c7 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -331,9 +331,10 @@ macro_rules! postfix {
         const $name: NestedHandler = {
             fn handler<'ast>(par: &mut Parser<'ast>, start: u32, left: ExpressionNode<'ast>) -> ExpressionNode<'ast> {
                 let end = par.lexer.end();
-                par.lexer.consume();
 
-                if !left.is_lvalue() {
+                if left.is_reference() {
+                    par.lexer.consume();
+                } else {
                     par.error::<()>();
                 }
 
@@ -349,12 +350,12 @@ macro_rules! postfix {
 }
 
 macro_rules! assign {
-    ($name:ident => $op:ident) => {
+    ($name:ident, $check:ident => $op:ident) => {
         const $name: NestedHandler = {
             fn handler<'ast>(par: &mut Parser<'ast>, start: u32, left: ExpressionNode<'ast>) -> ExpressionNode<'ast> {
-                par.lexer.consume();
-
-                if !left.is_lvalue() {
+                if left.$check() {
+                    par.lexer.consume();
+                } else {
                     par.error::<()>();
                 }
 
@@ -397,19 +398,19 @@ macro_rules! binary {
 postfix!(INC => Increment);
 postfix!(DEC => Decrement);
 
-assign!(ASGN => Assign);
-assign!(ADDA => AddAssign);
-assign!(SUBA => SubtractAssign);
-assign!(EXPA => ExponentAssign);
-assign!(MULA => MultiplyAssign);
-assign!(DIVA => DivideAssign);
-assign!(REMA => RemainderAssign);
-assign!(BSLA => BSLAssign);
-assign!(BSRA => BSRAssign);
-assign!(UBSA => UBSRAssign);
-assign!(BWAA => BitAndAssign);
-assign!(XORA => BitXorAssign);
-assign!(BORA => BitOrAssign);
+assign!(ASGN, is_lvalue => Assign);
+assign!(ADDA, is_reference => AddAssign);
+assign!(SUBA, is_reference => SubtractAssign);
+assign!(EXPA, is_reference => ExponentAssign);
+assign!(MULA, is_reference => MultiplyAssign);
+assign!(DIVA, is_reference => DivideAssign);
+assign!(REMA, is_reference => RemainderAssign);
+assign!(BSLA, is_reference => BSLAssign);
+assign!(BSRA, is_reference => BSRAssign);
+assign!(UBSA, is_reference => UBSRAssign);
+assign!(BWAA, is_reference => BitAndAssign);
+assign!(XORA, is_reference => BitXorAssign);
+assign!(BORA, is_reference => BitOrAssign);
 
 binary!(OR   , B5  => LogicalOr);
 binary!(AND  , B6  => LogicalAnd);
-- 
2.43.0


From ceb184ba49bd81487c628a4fb334912072dfa86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 15/69] fix: operands of exponentiation, new and extends

Exponentiation is right associative and does not take a unary base. The
operand of new is a member expression with at most one list of arguments,
and that of extends binds tighter than binary operators.
---
 ratel/src/parser/expression.rs | 35 ++++++++++++++++++++++++++++++++--
 ratel/src/parser/function.rs   |  4 ++--
 ratel/src/parser/nested.rs     | 35 +++++++++++++++++++++++++++++++++-
 3 files changed, 69 insertions(+), 5 deletions(-)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index ade92fb..54e952a 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -1,5 +1,5 @@
 use toolshed::list::ListBuilder;
-use parser::{Parser, Parse, BindingPower, ANY, B0, B15};
+use parser::{Parser, Parse, BindingPower, ANY, B0, B15, MEM};
 use lexer::Token::*;
 use ast::{Node, NodeList, Expression, ExpressionNode, IdentifierNode, ExpressionList};
 use ast::{Property, PropertyKey, OperatorKind, Literal, Function, Class, StatementNode, Pattern};
@@ -155,7 +155,7 @@ create_handlers! {
             par.lexer.consume();
             par.alloc_at_loc(start, end, expression)
         } else {
-            let expression = par.prefix_expression(OperatorKind::New);
+            let expression = par.new_expression();
             let end = par.lexer.end();
             par.alloc_at_loc(start, end, expression)
         }
@@ -357,6 +357,37 @@ impl<'ast> Parser<'ast> {
         }
     }
 
+    #[inline]
+    pub fn new_expression(&mut self) -> PrefixExpression<'ast> {
+        let callee = self.expression::<MEM>();
+        let end = self.lexer.prev_end();
+
+        let operand = match (self.lexer.token, callee.item) {
+            (ParenOpen, _) => {
+                let start = self.lexer.start_then_consume();
+                let arguments = self.call_arguments();
+                let end = self.lexer.end_then_consume();
+
+                self.alloc_at_loc(start, end, CallExpression {
+                    callee,
+                    arguments,
+                })
+            },
+            // A call wrapped in parentheses is what produces the constructor,
+            // its arguments are not those of the constructor
+            (_, Expression::Call(_)) => self.alloc_at_loc(end, end, CallExpression {
+                callee,
+                arguments: NodeList::empty(),
+            }),
+            _ => callee,
+        };
+
+        PrefixExpression {
+            operator: OperatorKind::New,
+            operand,
+        }
+    }
+
     #[inline]
     pub fn object_expression(&mut self) -> ExpressionNode<'ast> {
         let start = self.lexer.start_then_consume();
diff --git a/ratel/src/parser/function.rs b/ratel/src/parser/function.rs
index 65ab461..7fb1511 100644
--- a/ratel/src/parser/function.rs
+++ b/ratel/src/parser/function.rs
@@ -1,5 +1,5 @@
 use toolshed::list::ListBuilder;
-use parser::{Parser, Parse, ANY, B0};
+use parser::{Parser, Parse, ANY, B0, B15};
 use lexer::Token::*;
 use ast::{Node, NodeList, EmptyName, OptionalName, MandatoryName, Name};
 use ast::{MethodKind, Pattern, Function, Class, ClassMember, PropertyKey};
@@ -213,7 +213,7 @@ impl<'ast, N> Parse<'ast> for Class<'ast, N> where
             Extends => {
                 par.lexer.consume();
 
-                Some(par.expression::<B0>())
+                Some(par.expression::<B15>())
             },
             _ => None
         };
diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 37606c7..5565684 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -224,6 +224,19 @@ bp!(B15, [
     ____, ____, ____, ____, ____, ____, ____, ACCS, TPLE, TPLS, ____, ____,
 ]);
 
+/// Member expressions only, for the operand of the `new` operator
+bp!(MEM, [
+    ____, ____, ____, ____, ____, ____, CMEM, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ACCS, TPLE, TPLS, ____, ____,
+]);
+
 const ____: NestedHandler = None;
 
 const SEQ: NestedHandler = Some(|par, start, left| {
@@ -395,6 +408,27 @@ macro_rules! binary {
     }
 }
 
+const EXPN: NestedHandler = Some(|par, start, left| {
+    match left.item {
+        // The base can not be a unary operation, unless it is wrapped in parentheses
+        Expression::Prefix(PrefixExpression { operator, .. }) if left.start == start => match operator {
+            Increment | Decrement | New => par.lexer.consume(),
+            _                           => par.error(),
+        },
+        _ => par.lexer.consume(),
+    }
+
+    // Exponentiation is right associative
+    let right = par.expression::<B14>();
+
+    let end = par.lexer.prev_end();
+    par.alloc_at_loc(start, end, BinaryExpression {
+        operator: Exponent,
+        left,
+        right,
+    })
+});
+
 postfix!(INC => Increment);
 postfix!(DEC => Decrement);
 
@@ -435,7 +469,6 @@ binary!(SUB  , B13 => Subtraction);
 binary!(MUL  , B14 => Multiplication);
 binary!(DIV  , B14 => Division);
 binary!(REM  , B14 => Remainder);
-binary!(EXPN , B15 => Exponent);
 
 
 impl<'ast> Parser<'ast> {
-- 
2.43.0


From ceb69c5aab05ff2e3103077f665a63dd1d59705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 16/69] fix: reject unclosed blocks, lists and calls

What stood in place of the closing token was consumed as if it was the
right one, and the end of the program inside of a case was never reached.
---
 ratel/src/parser/expression.rs |  6 +++---
 ratel/src/parser/function.rs   |  4 ++--
 ratel/src/parser/mod.rs        | 18 +++++++++++++++---
 ratel/src/parser/nested.rs     |  2 +-
 ratel/src/parser/statement.rs  |  4 ++--
 5 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 54e952a..0adcdf9 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -366,7 +366,7 @@ impl<'ast> Parser<'ast> {
             (ParenOpen, _) => {
                 let start = self.lexer.start_then_consume();
                 let arguments = self.call_arguments();
-                let end = self.lexer.end_then_consume();
+                let end = self.close(ParenClose);
 
                 self.alloc_at_loc(start, end, CallExpression {
                     callee,
@@ -392,7 +392,7 @@ impl<'ast> Parser<'ast> {
     pub fn object_expression(&mut self) -> ExpressionNode<'ast> {
         let start = self.lexer.start_then_consume();
         let body = self.property_list();
-        let end = self.lexer.end_then_consume();
+        let end = self.close(BraceClose);
 
         self.alloc_at_loc(start, end, ObjectExpression {
             body
@@ -522,7 +522,7 @@ impl<'ast> Parser<'ast> {
     pub fn array_expression(&mut self) -> ExpressionNode<'ast> {
         let start = self.lexer.start_then_consume();
         let body = self.array_elements(|par| par.expression_in_context::<B0>(ARRAY_CONTEXT));
-        let end = self.lexer.end_then_consume();
+        let end = self.close(BracketClose);
 
         self.alloc_at_loc(start, end, ArrayExpression { body })
     }
diff --git a/ratel/src/parser/function.rs b/ratel/src/parser/function.rs
index 7fb1511..35161ba 100644
--- a/ratel/src/parser/function.rs
+++ b/ratel/src/parser/function.rs
@@ -247,7 +247,7 @@ impl<'ast> Parser<'ast> {
     fn pattern_array(&mut self) -> Node<'ast, Pattern<'ast>> {
         let start = self.lexer.start_then_consume();
         let elements = self.array_elements(Parser::pattern_array_element);
-        let end = self.lexer.end_then_consume();
+        let end = self.close(BracketClose);
 
         self.alloc_at_loc(start, end, Pattern::ArrayPattern {
             elements
@@ -258,7 +258,7 @@ impl<'ast> Parser<'ast> {
     fn pattern_object(&mut self) -> Node<'ast, Pattern<'ast>> {
         let start = self.lexer.start_then_consume();
         let properties = self.property_list();
-        let end = self.lexer.end_then_consume();
+        let end = self.close(BraceClose);
 
         self.alloc_at_loc(start, end, Pattern::ObjectPattern {
             properties,
diff --git a/ratel/src/parser/mod.rs b/ratel/src/parser/mod.rs
index 9b99d1a..ce1767a 100644
--- a/ratel/src/parser/mod.rs
+++ b/ratel/src/parser/mod.rs
@@ -18,7 +18,7 @@ use ast::{Loc, Node, Statement, NodeList, Block, BlockNode};
 use ast::{Expression, ExpressionNode, ExpressionList, IdentifierNode};
 use ast::{OperatorKind, Pattern};
 use ast::expression::BinaryExpression;
-use lexer::{Lexer, Asi};
+use lexer::{Lexer, Token, Asi};
 use lexer::Token::*;
 
 pub trait Parse<'ast> {
@@ -99,6 +99,18 @@ impl<'ast> Parser<'ast> {
         self.alloc(Loc::new(start, end, item.into()))
     }
 
+    /// Expect the `token` closing a block or a list, consume it and get its end position.
+    #[inline]
+    fn close(&mut self, token: Token) -> u32 {
+        if self.lexer.token == token {
+            self.lexer.consume();
+        } else {
+            self.error::<()>();
+        }
+
+        self.lexer.prev_end()
+    }
+
     #[inline]
     fn parse(&mut self) {
         if self.lexer.token == EndOfProgram {
@@ -127,7 +139,7 @@ impl<'ast> Parser<'ast> {
         }
 
         let block = self.raw_block();
-        let end   = self.lexer.end_then_consume();
+        let end   = self.close(BraceClose);
 
         self.alloc_at_loc(start, end, block)
     }
@@ -139,7 +151,7 @@ impl<'ast> Parser<'ast> {
     {
         let start = self.lexer.start_then_consume();
         let block = self.raw_block();
-        let end   = self.lexer.end_then_consume();
+        let end   = self.close(BraceClose);
 
         self.alloc_at_loc(start, end, block)
     }
diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 5565684..13ff4ea 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -305,7 +305,7 @@ const ACCS: NestedHandler = Some(|par, start, left| {
 const CALL: NestedHandler = Some(|par, _, left| {
     let start = par.lexer.start_then_consume();
     let arguments = par.call_arguments();
-    let end = par.lexer.end_then_consume();
+    let end = par.close(ParenClose);
 
     par.alloc_at_loc(start, end, CallExpression {
         callee: left,
diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 30ae752..41c8b83 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -139,7 +139,7 @@ impl<'ast> Parse<'ast> for SwitchCase<'ast> {
 
         loop {
             match par.lexer.token {
-                Case | Default | BraceClose => break,
+                Case | Default | BraceClose | EndOfProgram => break,
                 _ => {
                     let statement = par.statement();
                     end = statement.end;
@@ -176,7 +176,7 @@ impl<'ast> Parser<'ast> {
     pub fn block_statement(&mut self) -> StatementNode<'ast> {
         let start = self.lexer.start_then_consume();
         let block = self.raw_block();
-        let end   = self.lexer.end_then_consume();
+        let end   = self.close(BraceClose);
 
         self.alloc_at_loc(start, end, block)
     }
-- 
2.43.0


From 623012837b86b0f5f2131a29caa38db670da3a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 17/69] fix: tell the kinds of for loops apart

Only a left hand side expression can be followed by in or of, anything
else is the beginning of a regular loop. The right side of for-of is not
a sequence.
---
 ratel/src/parser/nested.rs    |  2 +-
 ratel/src/parser/statement.rs | 48 +++++++++++++++--------------------
 2 files changed, 22 insertions(+), 28 deletions(-)

diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 13ff4ea..63507d0 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -224,7 +224,7 @@ bp!(B15, [
     ____, ____, ____, ____, ____, ____, ____, ACCS, TPLE, TPLS, ____, ____,
 ]);
 
-/// Member expressions only, for the operand of the `new` operator
+// Member expressions only, for the operand of the `new` operator
 bp!(MEM, [
     ____, ____, ____, ____, ____, ____, CMEM, ____, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 41c8b83..421eb61 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -1,16 +1,14 @@
 use toolshed::list::{ListBuilder, GrowableList};
-use parser::{Parser, Parse, ANY, B0};
+use parser::{Parser, Parse, ANY, B0, B15};
 use lexer::Token::*;
 use lexer::Asi;
 use ast::{Node, NodeList, Declarator, DeclarationKind};
-use ast::{Statement, StatementNode, Expression, ExpressionNode, Class, Function, Pattern};
-use ast::expression::BinaryExpression;
+use ast::{Statement, StatementNode, ExpressionNode, Class, Function, Pattern};
 use ast::statement::{ThrowStatement, ContinueStatement, BreakStatement, ReturnStatement};
 use ast::statement::{TryStatement, CatchClause, IfStatement, WhileStatement, DoStatement};
 use ast::statement::{DeclarationStatement, ForStatement, ForInStatement, ForOfStatement};
 use ast::statement::{SwitchStatement, SwitchCase, LabeledStatement, ForInit};
 use ast::statement::{ImportDeclaration, ImportDefaultSpecifier, ImportNamespaceSpecifier, ImportSpecifier, ForImportSpecifier};
-use ast::OperatorKind::*;
 
 
 type StatementHandler = for<'ast> fn(&mut Parser<'ast>) -> StatementNode<'ast>;
@@ -505,18 +503,26 @@ impl<'ast> Parser<'ast> {
             DeclarationLet   => Some(self.for_init(DeclarationKind::Let)),
             DeclarationConst => Some(self.for_init(DeclarationKind::Const)),
             _ => {
-                let init = self.expression::<ANY>();
+                let start = self.lexer.start();
+                let init = self.expression::<B15>();
 
-                if let Expression::Binary(BinaryExpression {
-                    operator: In,
-                    left,
-                    right,
-                    ..
-                }) = init.item {
-                    let left = self.alloc_at_loc(left.start, left.end, left);
+                let init = match self.lexer.token {
+                    OperatorIn => {
+                        if !init.is_lvalue() {
+                            self.error::<()>();
+                        }
 
-                    return self.for_in_statement_from_parts(start, left, right);
-                }
+                        init
+                    },
+                    Identifier if self.lexer.token_as_str() == "of" => {
+                        if !init.is_lvalue() {
+                            self.error::<()>();
+                        }
+
+                        init
+                    },
+                    _ => self.nested_expression::<ANY>(start, init),
+                };
 
                 Some(self.alloc_at_loc(init.start, init.end, init))
             },
@@ -572,18 +578,6 @@ impl<'ast> Parser<'ast> {
         })
     }
 
-    fn for_in_statement_from_parts(&mut self, start: u32, left: Node<'ast, ForInit<'ast>>, right: ExpressionNode<'ast>) -> StatementNode<'ast> {
-        expect!(self, ParenClose);
-
-        let body = self.statement();
-
-        self.alloc_at_loc(start, body.end, ForInStatement {
-            left,
-            right,
-            body,
-        })
-    }
-
     fn for_in_statement(&mut self, start: u32, left: Node<'ast, ForInit<'ast>>) -> StatementNode<'ast> {
         let right = self.expression::<ANY>();
 
@@ -599,7 +593,7 @@ impl<'ast> Parser<'ast> {
     }
 
     fn for_of_statement(&mut self, start: u32, left: Node<'ast, ForInit<'ast>>) -> StatementNode<'ast> {
-        let right = self.expression::<ANY>();
+        let right = self.expression::<B0>();
 
         expect!(self, ParenClose);
 
-- 
2.43.0


From 9a225cf8abc0c8ae50fbbf9f238c7dca406025a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 18/69] fix: import declarations end like any other statement

An import was not terminated by a semicolon, a trailing comma was taken for
an error and a missing one was not always. What follows import as an
expression is an accessor, not a comma.
---
 ratel/src/parser/statement.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 421eb61..fb0c6f2 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -628,7 +628,7 @@ impl<'ast> Parser<'ast> {
 
         let builder: GrowableList<Node<'ast, ForImportSpecifier>> = GrowableList::new();
         self.lexer.consume();
-        if self.lexer.token == Comma || self.lexer.token == ParenOpen {
+        if self.lexer.token == Accessor || self.lexer.token == ParenOpen {
             // call or access. example: `import()` `import.filed`
             let expression = self.alloc_at_loc(start, end, import);
             let expression = self.nested_expression::<ANY>(start, expression);
@@ -659,6 +659,8 @@ impl<'ast> Parser<'ast> {
                 let source = &str_ltr[1..str_ltr.len() - 1];
                 let end = self.lexer.end_then_consume();
 
+                self.expect_semicolon();
+
                 return self.alloc_at_loc(start, end, ImportDeclaration {
                     specifiers: NodeList::empty(),
                     source,
@@ -690,6 +692,11 @@ impl<'ast> Parser<'ast> {
                                 match self.lexer.token {
                                     Comma => {
                                         self.lexer.consume();
+
+                                        if self.lexer.token == BraceClose {
+                                            self.lexer.consume();
+                                            break;
+                                        }
                                     },
                                     BraceClose => {
                                         self.lexer.consume();
@@ -697,6 +704,7 @@ impl<'ast> Parser<'ast> {
                                     },
                                     _ => {
                                         self.error::<()>();
+                                        break;
                                     }
                                 }
                             },
@@ -744,6 +752,9 @@ impl<'ast> Parser<'ast> {
             }
         };
         let end = self.lexer.end_then_consume();
+
+        self.expect_semicolon();
+
         self.alloc_at_loc(start, end, ImportDeclaration {
             specifiers: builder.as_list(),
             source,
-- 
2.43.0


From 7dd08c4d9c8da76f25cc3f8257ce3d145ac7c41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 19/69] fix: debugger and do-while statements end with a
 semicolon

It was parsed as an empty statement of its own.
---
 ratel/src/parser/statement.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index fb0c6f2..cf3ab0d 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -74,6 +74,7 @@ create_handlers! {
     const DBGGR = |par| {
         let stmt = par.alloc_in_loc(Statement::Debugger);
         par.lexer.consume();
+        par.expect_semicolon();
 
         stmt
     };
@@ -471,6 +472,9 @@ impl<'ast> Parser<'ast> {
         let end = self.lexer.end();
         expect!(self, ParenClose);
 
+        // The semicolon is optional here, even without a line break
+        allow!(self, Semicolon => {});
+
         self.alloc_at_loc(start, end, DoStatement {
             body,
             test,
-- 
2.43.0


From edc95d73ec3965db973d316161001dd0e85a84aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 20/69] fix: any reserved word can be a property name

---
 ratel/src/lexer/token.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ratel/src/lexer/token.rs b/ratel/src/lexer/token.rs
index e1f0eef..3e2f81c 100644
--- a/ratel/src/lexer/token.rs
+++ b/ratel/src/lexer/token.rs
@@ -156,10 +156,21 @@ impl Token {
             Import             |
             Try                |
             Static             |
+            DeclarationVar     |
+            DeclarationLet     |
+            DeclarationConst   |
+            ReservedEnum       |
+            ReservedImplements |
+            ReservedPackage    |
+            ReservedProtected  |
+            ReservedInterface  |
+            ReservedPrivate    |
+            ReservedPublic     |
             OperatorNew        |
             OperatorTypeof     |
             OperatorVoid       |
             OperatorDelete     |
+            OperatorIn         |
             OperatorInstanceof |
             LiteralTrue        |
             LiteralFalse       |
-- 
2.43.0


From f9eaa47fb53cfc2a3c82b6cafe84e45c55a8375a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 21/69] fix: a keyword is not a shorthand property

---
 ratel/src/parser/expression.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 0adcdf9..1ffa232 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -450,12 +450,16 @@ impl<'ast> Parser<'ast> {
             _ if self.lexer.token.is_word() => {
                 let (start, end) = self.lexer.loc();
                 let label = self.lexer.token_as_str();
+                let token = self.lexer.token;
 
                 self.lexer.consume();
 
                 match self.lexer.token {
                     Colon | ParenOpen => self.alloc_at_loc(start, end, PropertyKey::Literal(label)),
 
+                    // Keywords can be keys, but not names of variables
+                    _ if token != Identifier && token != LiteralUndefined => return self.error(),
+
                     _ => return self.alloc_at_loc(start, end, Property::Shorthand(label)),
                 }
             },
-- 
2.43.0


From 25ff50657f8803d9c854312abf7ef1124a241863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 22/69] fix: expression statements cover their whole text

---
 ratel/src/parser/statement.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index cf3ab0d..28f8a88 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -1,9 +1,10 @@
+use std::cmp;
 use toolshed::list::{ListBuilder, GrowableList};
 use parser::{Parser, Parse, ANY, B0, B15};
 use lexer::Token::*;
 use lexer::Asi;
 use ast::{Node, NodeList, Declarator, DeclarationKind};
-use ast::{Statement, StatementNode, ExpressionNode, Class, Function, Pattern};
+use ast::{Statement, StatementNode, Expression, ExpressionNode, Class, Function, Pattern};
 use ast::statement::{ThrowStatement, ContinueStatement, BreakStatement, ReturnStatement};
 use ast::statement::{TryStatement, CatchClause, IfStatement, WhileStatement, DoStatement};
 use ast::statement::{DeclarationStatement, ForStatement, ForInStatement, ForOfStatement};
@@ -184,13 +185,19 @@ impl<'ast> Parser<'ast> {
     pub fn expression_statement(&mut self, start: u32, expression: ExpressionNode<'ast>) -> StatementNode<'ast> {
         let expression = self.nested_expression::<ANY>(start, expression);
 
-        self.wrap_expression(expression)
+        self.wrap_expression(start, expression)
     }
 
     #[inline]
-    pub fn wrap_expression(&mut self, expression: ExpressionNode<'ast>) -> StatementNode<'ast> {
+    pub fn wrap_expression(&mut self, start: u32, expression: ExpressionNode<'ast>) -> StatementNode<'ast> {
+        let start = match expression.item {
+            Expression::Arrow(_) => expression.start,
+            _                    => start,
+        };
+        let end = cmp::max(self.lexer.prev_end(), expression.end);
+
         self.expect_semicolon();
-        self.alloc_at_loc(expression.start, expression.end, expression)
+        self.alloc_at_loc(start, end, expression)
     }
 
     #[inline]
@@ -214,9 +221,7 @@ impl<'ast> Parser<'ast> {
         let expression = self.alloc_at_loc(start, end, label);
         let expression = self.nested_expression::<ANY>(start, expression);
 
-        self.expect_semicolon();
-
-        self.alloc_at_loc(start, expression.end, expression)
+        self.wrap_expression(start, expression)
     }
 
     #[inline]
@@ -528,7 +533,9 @@ impl<'ast> Parser<'ast> {
                     _ => self.nested_expression::<ANY>(start, init),
                 };
 
-                Some(self.alloc_at_loc(init.start, init.end, init))
+                let end = self.lexer.prev_end();
+
+                Some(self.alloc_at_loc(start, end, init))
             },
         };
 
@@ -636,8 +643,7 @@ impl<'ast> Parser<'ast> {
             // call or access. example: `import()` `import.filed`
             let expression = self.alloc_at_loc(start, end, import);
             let expression = self.nested_expression::<ANY>(start, expression);
-            self.expect_semicolon();
-            return self.alloc_at_loc(start, expression.end, expression)
+            return self.wrap_expression(start, expression)
         }
 
         let has_next = match self.lexer.token {
-- 
2.43.0


From 8370c9b365a0d0e38d963945b72eece271259e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 23/69] fix: parenthesise operands that bind weaker than their
 operator

---
 ratel-codegen/src/expression.rs | 74 ++++++++++++++++++++--------
 ratel-codegen/src/function.rs   |  6 +--
 ratel-codegen/src/lib.rs        | 60 +++++++++++++++++++++--
 ratel-codegen/src/statement.rs  | 10 ++--
 ratel/src/ast/expression.rs     | 85 ++++++++++++++++++++++++++++++++-
 5 files changed, 199 insertions(+), 36 deletions(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index 4796e5e..92966a7 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -1,7 +1,7 @@
 use ratel::ast::{Expression, Literal, OperatorKind, OperatorCategory, Property, PropertyKey, Pattern};
 use ratel::ast::expression::*;
 
-use {ToCode, Generator};
+use {ToCode, Generator, ASSIGNMENT, BINARY, UNARY, UPDATE, MEMBER, CONSTRUCTOR};
 
 
 impl<'ast, G: Generator> ToCode<G> for Expression<'ast> {
@@ -68,7 +68,7 @@ impl<'ast, G: Generator> ToCode<G> for PropertyKey<'ast> {
         match *self {
             Computed(ref val) => {
                 gen.write_byte(b'[');
-                gen.write(val);
+                gen.write_expression(val, ASSIGNMENT);
                 gen.write_byte(b']');
             },
             Literal(ref val) => gen.write(val),
@@ -91,7 +91,7 @@ impl<'ast, G: Generator> ToCode<G> for Property<'ast> {
                 gen.write(key);
                 gen.write_byte(b':');
                 gen.write_pretty(b' ');
-                gen.write(value);
+                gen.write_expression(value, ASSIGNMENT);
             },
             Method {
                 ref key,
@@ -104,7 +104,7 @@ impl<'ast, G: Generator> ToCode<G> for Property<'ast> {
                 ref argument
             } => {
                 gen.write_bytes(b"...");
-                gen.write(argument);
+                gen.write_expression(argument, ASSIGNMENT);
             }
         }
     }
@@ -113,7 +113,7 @@ impl<'ast, G: Generator> ToCode<G> for Property<'ast> {
 impl<'ast, G: Generator> ToCode<G> for SequenceExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write_list(&self.body);
+        gen.write_expression_list(&self.body);
     }
 }
 
@@ -121,7 +121,7 @@ impl<'ast, G: Generator> ToCode<G> for ArrayExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         gen.write_byte(b'[');
-        gen.write_list(&self.body);
+        gen.write_expression_list(&self.body);
         gen.write_byte(b']');
     }
 }
@@ -129,7 +129,7 @@ impl<'ast, G: Generator> ToCode<G> for ArrayExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for MemberExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write_expression(&self.object, 19);
+        gen.write_expression(&self.object, MEMBER);
         gen.write_byte(b'.');
         gen.write(&self.property);
     }
@@ -138,7 +138,7 @@ impl<'ast, G: Generator> ToCode<G> for MemberExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for ComputedMemberExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write_expression(&self.object, 19);
+        gen.write_expression(&self.object, MEMBER);
         gen.write_byte(b'[');
         gen.write(&self.property);
         gen.write_byte(b']');
@@ -157,9 +157,9 @@ impl<'ast, G: Generator> ToCode<G> for MetaPropertyExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for CallExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write(&self.callee);
+        gen.write_expression(&self.callee, MEMBER);
         gen.write_byte(b'(');
-        gen.write_list(&self.arguments);
+        gen.write_expression_list(&self.arguments);
         gen.write_byte(b')');
     }
 }
@@ -192,7 +192,13 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
             }
         };
 
-        gen.write_expression(&self.left, bp);
+        // Assignments and exponentiation are right associative, and the left side
+        // of the latter can not be an unary expression.
+        gen.write_expression(&self.left, match self.operator {
+            OperatorKind::Exponent                => UPDATE,
+            operator if operator.assignment() => MEMBER,
+            _                                 => bp,
+        });
 
         if spacing_left {
             gen.write_byte(b' ');
@@ -211,7 +217,15 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
         // `2 / 2 * 2` and `2 / (2 * 2)` are different expressions,
         // hence the need for parenthesis in a right-balanced tree
         // even if binding power of operators is exactly the same.
-        gen.write_expression(&self.right, bp + 1);
+        let right_bp = match (self.operator, self.right.item) {
+            (OperatorKind::Exponent, Expression::Binary(BinaryExpression {
+                operator: OperatorKind::Exponent, ..
+            }))                                   => bp,
+            (operator, _) if operator.assignment() => bp,
+            _                                     => bp + 1,
+        };
+
+        gen.write_expression(&self.right, right_bp);
     }
 }
 
@@ -222,14 +236,28 @@ impl<'ast, G: Generator> ToCode<G> for PrefixExpression<'ast> {
         if self.operator.category() == OperatorCategory::Word {
             gen.write_byte(b' ');
         }
-        gen.write(&self.operand);
+
+        if self.operator != OperatorKind::New {
+            return gen.write_expression(&self.operand, UNARY);
+        }
+
+        // The arguments that follow `new` belong to it, not to any other call
+        match self.operand.item {
+            Expression::Call(ref call) => {
+                gen.write_constructor(&call.callee);
+                gen.write_byte(b'(');
+                gen.write_expression_list(&call.arguments);
+                gen.write_byte(b')');
+            },
+            _ => gen.write_constructor(&self.operand),
+        }
     }
 }
 
 impl<'ast, G: Generator> ToCode<G> for PostfixExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write(&self.operand);
+        gen.write_expression(&self.operand, MEMBER);
         gen.write(&self.operator);
     }
 }
@@ -237,15 +265,15 @@ impl<'ast, G: Generator> ToCode<G> for PostfixExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for ConditionalExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write(&self.test);
+        gen.write_expression(&self.test, BINARY);
         gen.write_pretty(b' ');
         gen.write_byte(b'?');
         gen.write_pretty(b' ');
-        gen.write(&self.consequent);
+        gen.write_expression(&self.consequent, ASSIGNMENT);
         gen.write_pretty(b' ');
         gen.write_byte(b':');
         gen.write_pretty(b' ');
-        gen.write(&self.alternate);
+        gen.write_expression(&self.alternate, ASSIGNMENT);
     }
 }
 
@@ -281,7 +309,7 @@ impl<'ast, G: Generator> ToCode<G> for TemplateLiteral<'ast> {
 impl<'ast, G: Generator> ToCode<G> for TaggedTemplateExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write(&self.tag);
+        gen.write_expression(&self.tag, MEMBER);
         gen.write(&self.quasi);
     }
 }
@@ -290,7 +318,7 @@ impl<'ast, G: Generator> ToCode<G> for SpreadExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         gen.write_bytes(b"...");
-        gen.write(&self.argument);
+        gen.write_expression(&self.argument, ASSIGNMENT);
     }
 }
 
@@ -298,8 +326,12 @@ impl<'ast, G: Generator> ToCode<G> for ArrowBody<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         match *self {
-            ArrowBody::Expression(ref expression) => gen.write(expression),
-            ArrowBody::Block(ref block)           => gen.write(block),
+            ArrowBody::Expression(ref expression) => if expression.is_allowed_as_arrow_body() {
+                gen.write_expression(expression, ASSIGNMENT);
+            } else {
+                gen.write_parenthesised(expression);
+            },
+            ArrowBody::Block(ref block) => gen.write(block),
         }
     }
 }
diff --git a/ratel-codegen/src/function.rs b/ratel-codegen/src/function.rs
index c9e23f8..db6f52c 100644
--- a/ratel-codegen/src/function.rs
+++ b/ratel-codegen/src/function.rs
@@ -1,6 +1,6 @@
 use ratel::ast::{Function, Class, ClassMember, Name, EmptyName, MandatoryName, OptionalName, MethodKind};
 
-use {ToCode, Generator};
+use {ToCode, Generator, ASSIGNMENT, MEMBER};
 
 
 impl<G: Generator> ToCode<G> for EmptyName {
@@ -104,7 +104,7 @@ impl<'ast, G: Generator> ToCode<G> for ClassMember<'ast> {
                 gen.write_pretty(b' ');
                 gen.write_byte(b'=');
                 gen.write_pretty(b' ');
-                gen.write(value);
+                gen.write_expression(value, ASSIGNMENT);
                 gen.write_byte(b';');
             }
         }
@@ -121,7 +121,7 @@ impl<'ast, G, N> ToCode<G> for Class<'ast, N> where
         gen.write(&self.name);
         if let Some(ref super_class) = self.extends {
             gen.write_bytes(b" extends ");
-            gen.write(super_class);
+            gen.write_expression(super_class, MEMBER);
         }
         gen.write_pretty(b' ');
         gen.write(&self.body);
diff --git a/ratel-codegen/src/lib.rs b/ratel-codegen/src/lib.rs
index 7481831..8fe746f 100644
--- a/ratel-codegen/src/lib.rs
+++ b/ratel-codegen/src/lib.rs
@@ -10,6 +10,24 @@ mod expression;
 mod statement;
 mod function;
 
+/// Binding power an expression needs where the grammar takes anything but a sequence
+const ASSIGNMENT: u8 = 3;
+
+/// Binding power an expression needs as the test of a conditional
+const BINARY: u8 = 5;
+
+/// Binding power an expression needs as an operand of a prefix operator
+const UNARY: u8 = 15;
+
+/// Binding power an expression needs on the left side of `**`
+const UPDATE: u8 = 16;
+
+/// Binding power an expression needs to be called, accessed or assigned to
+const MEMBER: u8 = 17;
+
+/// Binding power an expression needs to be called with `new`
+const CONSTRUCTOR: u8 = 18;
+
 pub trait Generator: Sized {
     type Output;
 
@@ -29,14 +47,29 @@ pub trait Generator: Sized {
     #[inline]
     fn write_expression<'ast>(&mut self, item: &ExpressionNode<'ast>, bp: u8) {
         if item.binding_power() < bp {
-            self.write_byte(b'(');
-            item.to_code(self);
-            self.write_byte(b')');
+            self.write_parenthesised(item);
         } else {
             item.to_code(self);
         }
     }
 
+    #[inline]
+    fn write_parenthesised<'ast>(&mut self, item: &ExpressionNode<'ast>) {
+        self.write_byte(b'(');
+        item.to_code(self);
+        self.write_byte(b')');
+    }
+
+    /// Helper that writes an expression that is called with `new`
+    #[inline]
+    fn write_constructor<'ast>(&mut self, item: &ExpressionNode<'ast>) {
+        if item.has_call() {
+            self.write_parenthesised(item);
+        } else {
+            self.write_expression(item, CONSTRUCTOR);
+        }
+    }
+
     #[inline]
     fn write_list<'a, T, I>(&mut self, items: I) where
         T: ToCode<Self> + 'a,
@@ -55,6 +88,25 @@ pub trait Generator: Sized {
         }
     }
 
+    /// A list of expressions in which a sequence needs parenthesis
+    #[inline]
+    fn write_expression_list<'a, 'ast, I>(&mut self, items: I) where
+        'ast: 'a,
+        I: IntoIterator<Item = &'a ExpressionNode<'ast>>,
+    {
+        let mut items = items.into_iter();
+
+        if let Some(item) = items.next() {
+            self.write_expression(item, ASSIGNMENT);
+        }
+
+        for item in items {
+            self.write_byte(b',');
+            self.write_pretty(b' ');
+            self.write_expression(item, ASSIGNMENT);
+        }
+    }
+
     #[inline]
     fn write_block<'a, T, I>(&mut self, items: I) where
         T: ToCode<Self> + 'a,
@@ -314,7 +366,7 @@ impl<'ast, G: Generator> ToCode<G> for Pattern<'ast> {
                 gen.write_pretty(b' ');
                 gen.write_byte(b'=');
                 gen.write_pretty(b' ');
-                gen.write(right);
+                gen.write_expression(right, ASSIGNMENT);
             }
         }
     }
diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index 134d26a..ccbe193 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -1,7 +1,7 @@
 use ratel::ast::{Statement, Declarator, DeclarationKind};
 use ratel::ast::statement::*;
 
-use {ToCode, Generator};
+use {ToCode, Generator, ASSIGNMENT};
 use ratel::ast::Node;
 
 
@@ -19,9 +19,7 @@ impl<'ast, G: Generator> ToCode<G> for Statement<'ast> {
                 if expression.is_allowed_as_bare_statement() {
                     gen.write(expression);
                 } else {
-                    gen.write_byte(b'(');
-                    gen.write(expression);
-                    gen.write_byte(b')');
+                    gen.write_parenthesised(expression);
                 }
                 gen.write_byte(b';');
             },
@@ -72,7 +70,7 @@ impl<'ast, G: Generator> ToCode<G> for Declarator<'ast> {
             gen.write_pretty(b' ');
             gen.write_byte(b'=');
             gen.write_pretty(b' ');
-            gen.write(init);
+            gen.write_expression(init, ASSIGNMENT);
         }
     }
 }
@@ -233,7 +231,7 @@ impl<'ast, G: Generator> ToCode<G> for ForOfStatement<'ast> {
         gen.write_byte(b'(');
         gen.write(&self.left);
         gen.write_bytes(b" of ");
-        gen.write(&self.right);
+        gen.write_expression(&self.right, ASSIGNMENT);
         gen.write_byte(b')');
         gen.write_pretty(b' ');
         gen.write(&self.body);
diff --git a/ratel/src/ast/expression.rs b/ratel/src/ast/expression.rs
index 8f462ae..965db79 100644
--- a/ratel/src/ast/expression.rs
+++ b/ratel/src/ast/expression.rs
@@ -191,7 +191,7 @@ impl<'ast> Expression<'ast> {
         use self::Expression::*;
 
         match *self {
-            Member(_) | MetaProperty(_) | Arrow(_) => 18,
+            Member(_) | MetaProperty(_) => 18,
 
             Call(_) => 17,
 
@@ -202,6 +202,8 @@ impl<'ast> Expression<'ast> {
 
             Conditional(_) => 4,
 
+            Arrow(_) => 3,
+
             Sequence(_) => 0,
 
             _  => 100,
@@ -212,7 +214,7 @@ impl<'ast> Expression<'ast> {
     pub fn is_allowed_as_bare_statement(&self) -> bool {
         use self::Expression::*;
 
-        match *self {
+        match *self.leftmost() {
             Object(_)   |
             Function(_) |
             Class(_)    => false,
@@ -220,6 +222,85 @@ impl<'ast> Expression<'ast> {
         }
     }
 
+    #[inline]
+    pub fn is_allowed_as_arrow_body(&self) -> bool {
+        match *self.leftmost() {
+            Expression::Object(_) => false,
+            _                     => true,
+        }
+    }
+
+    /// The innermost expression that starts where this one does
+    #[inline]
+    fn leftmost(&self) -> &Expression<'ast> {
+        use self::Expression::*;
+
+        let mut expression = self;
+
+        loop {
+            expression = match *expression {
+                Member(ref member)           => &member.object,
+                ComputedMember(ref computed) => &computed.object,
+                Call(ref call)               => &call.callee,
+                TaggedTemplate(ref tagged)   => &tagged.tag,
+                Binary(ref binary)           => &binary.left,
+                Postfix(ref postfix)         => &postfix.operand,
+                Conditional(ref conditional) => &conditional.test,
+                Sequence(ref sequence)       => match sequence.body.iter().next() {
+                    Some(first) => first,
+                    None        => return expression,
+                },
+                _ => return expression,
+            }
+        }
+    }
+
+    /// Has a call that would take the place of the constructor call after `new`
+    #[inline]
+    pub fn has_call(&self) -> bool {
+        use self::Expression::*;
+
+        let mut expression = self;
+
+        loop {
+            expression = match *expression {
+                Member(ref member)           => &member.object,
+                ComputedMember(ref computed) => &computed.object,
+                TaggedTemplate(ref tagged)   => &tagged.tag,
+                Call(_)                      => return true,
+                _                            => return false,
+            }
+        }
+    }
+
+    /// Has an `in` operator that `for` would take for its own
+    pub fn has_in(&self) -> bool {
+        use self::Expression::*;
+
+        match *self {
+            Binary(BinaryExpression { operator: OperatorKind::In, .. }) => true,
+
+            Member(ref member)           => member.object.has_in(),
+            ComputedMember(ref computed) => computed.object.has_in(),
+            Call(ref call)               => call.callee.has_in(),
+            TaggedTemplate(ref tagged)   => tagged.tag.has_in(),
+            Binary(ref binary)           => binary.left.has_in() || binary.right.has_in(),
+            Prefix(ref prefix)           => prefix.operand.has_in(),
+            Postfix(ref postfix)         => postfix.operand.has_in(),
+            Sequence(ref sequence)       => sequence.body.iter().any(|item| item.has_in()),
+
+            Conditional(ref conditional) => {
+                conditional.test.has_in() ||
+                conditional.consequent.has_in() ||
+                conditional.alternate.has_in()
+            },
+
+            Arrow(ArrowExpression { body: ArrowBody::Expression(ref body), .. }) => body.has_in(),
+
+            _ => false,
+        }
+    }
+
     /// Can be a target of any assignment operator, increment or decrement
     #[inline]
     pub fn is_reference(&self) -> bool {
-- 
2.43.0


From 854cdbe3b315fb621e24de5979dbd64b8c327fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 24/69] fix: parenthesise the in operator at the start of a for
 statement

---
 ratel-codegen/src/statement.rs | 45 +++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index ccbe193..1e07aaf 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -189,13 +189,56 @@ impl<'ast, G: Generator> ToCode<G> for ForInit<'ast> {
     }
 }
 
+/// The first part of a `for` statement can not have a bare `in` operator
+#[inline]
+fn write_for_init<'ast, G: Generator>(gen: &mut G, init: &ForInit<'ast>) {
+    match *init {
+        ForInit::Declaration(ref declaration) => {
+            gen.write(&declaration.kind);
+
+            let mut declarators = declaration.declarators.iter();
+
+            if let Some(declarator) = declarators.next() {
+                write_for_declarator(gen, declarator);
+            }
+
+            for declarator in declarators {
+                gen.write_byte(b',');
+                gen.write_pretty(b' ');
+                write_for_declarator(gen, declarator);
+            }
+        },
+        ForInit::Expression(ref expression) => if expression.has_in() {
+            gen.write_parenthesised(expression);
+        } else {
+            gen.write(expression);
+        },
+    }
+}
+
+#[inline]
+fn write_for_declarator<'ast, G: Generator>(gen: &mut G, declarator: &Declarator<'ast>) {
+    match declarator.init {
+        Some(ref init) if init.has_in() => {
+            gen.write(&declarator.id);
+            gen.write_pretty(b' ');
+            gen.write_byte(b'=');
+            gen.write_pretty(b' ');
+            gen.write_parenthesised(init);
+        },
+        _ => gen.write(declarator),
+    }
+}
+
 impl<'ast, G: Generator> ToCode<G> for ForStatement<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         gen.write_bytes(b"for");
         gen.write_pretty(b' ');
         gen.write_byte(b'(');
-        gen.write(&self.init);
+        if let Some(ref init) = self.init {
+            write_for_init(gen, init);
+        }
         gen.write_byte(b';');
         gen.write_pretty(b' ');
         gen.write(&self.test);
-- 
2.43.0


From 92c3c6a41da4aea4e7d3e91b55a01d05ab3e1382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 25/69] fix: do not merge neighbouring tokens

---
 ratel-codegen/src/expression.rs | 27 +++++++++++++++++++++++++--
 ratel-codegen/src/lib.rs        | 11 +++++++++++
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index 92966a7..c8c9252 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -47,8 +47,14 @@ impl<'ast, G: Generator> ToCode<G> for Literal<'ast> {
             False             => gen.write_bytes(b"false"),
             Binary(n)         => gen.write(&n),
             Number(ref val)   |
-            String(ref val)   |
-            RegEx(ref val)    => gen.write(val),
+            String(ref val)   => gen.write(val),
+            RegEx(ref val)    => {
+                // Division followed by a regular expression is not a comment
+                if gen.ends_with(b"/") {
+                    gen.write_byte(b' ');
+                }
+                gen.write(val)
+            },
         }
     }
 }
@@ -130,6 +136,12 @@ impl<'ast, G: Generator> ToCode<G> for MemberExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         gen.write_expression(&self.object, MEMBER);
+        // The dot would become a part of the number
+        if let Expression::Literal(Literal::Number(number)) = self.object.item {
+            if number.bytes().all(|byte| byte.is_ascii_digit()) {
+                gen.write_byte(b' ');
+            }
+        }
         gen.write_byte(b'.');
         gen.write(&self.property);
     }
@@ -232,6 +244,17 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for PrefixExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
+        // `- -a` and `- --a` are not `--a`, and `a < !--b` is not the start of a comment
+        let separate = match self.operator.category() {
+            OperatorCategory::Plus  => gen.ends_with(b"+"),
+            OperatorCategory::Minus => gen.ends_with(b"-") || gen.ends_with(b"<!"),
+            _                       => false,
+        };
+
+        if separate {
+            gen.write_byte(b' ');
+        }
+
         gen.write(&self.operator);
         if self.operator.category() == OperatorCategory::Word {
             gen.write_byte(b' ');
diff --git a/ratel-codegen/src/lib.rs b/ratel-codegen/src/lib.rs
index 8fe746f..0c3e824 100644
--- a/ratel-codegen/src/lib.rs
+++ b/ratel-codegen/src/lib.rs
@@ -35,6 +35,7 @@ pub trait Generator: Sized {
     fn write_byte(&mut self, u8);
     fn write_bytes(&mut self, &[u8]);
     fn write_pretty(&mut self, u8);
+    fn ends_with(&self, &[u8]) -> bool;
 
     #[inline]
     fn write<T>(&mut self, item: &T) where
@@ -173,6 +174,11 @@ impl Generator for MinifyingGenerator {
     fn write_bytes(&mut self, slice: &[u8]) {
         extend_from_slice(&mut self.code, slice);
     }
+
+    #[inline]
+    fn ends_with(&self, slice: &[u8]) -> bool {
+        self.code.ends_with(slice)
+    }
 }
 
 pub struct PrettyGenerator {
@@ -211,6 +217,11 @@ impl Generator for PrettyGenerator {
         extend_from_slice(&mut self.code, slice);
     }
 
+    #[inline]
+    fn ends_with(&self, slice: &[u8]) -> bool {
+        self.code.ends_with(slice)
+    }
+
     #[inline]
     fn new_line(&mut self) {
         self.write_byte(b'\n');
-- 
2.43.0


From 077db85c862cfa7384126ca8078f4e3ee449ae16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 26/69] fix: print the finally keyword

---
 ratel-codegen/src/statement.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index 1e07aaf..cd2a9be 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -298,6 +298,8 @@ impl<'ast, G: Generator> ToCode<G> for TryStatement<'ast> {
             gen.write(&handler.body);
         }
         if let Some(ref finalizer) = self.finalizer {
+            gen.write_pretty(b' ');
+            gen.write_bytes(b"finally");
             gen.write_pretty(b' ');
             gen.write(finalizer);
         }
-- 
2.43.0


From 0ecca1c96d58c7c6b8c941c900ecd103f30c4b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 27/69] fix: print generator functions as such

---
 ratel-codegen/src/function.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ratel-codegen/src/function.rs b/ratel-codegen/src/function.rs
index db6f52c..e980b83 100644
--- a/ratel-codegen/src/function.rs
+++ b/ratel-codegen/src/function.rs
@@ -59,6 +59,9 @@ impl<'ast, G, N> ToCode<G> for Function<'ast, N> where
     #[inline]
     fn to_code(&self, gen: &mut G) {
         N::write_function(gen);
+        if self.generator {
+            gen.write_byte(b'*');
+        }
         gen.write(&self.name);
         gen.write_byte(b'(');
         gen.write_list(&self.params);
-- 
2.43.0


From 13e8db25c45815845f5a8645a7f4ce2df6df8ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 28/69] fix: print empty statements

---
 ratel-codegen/src/statement.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index cd2a9be..1968c1a 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -11,7 +11,9 @@ impl<'ast, G: Generator> ToCode<G> for Statement<'ast> {
         use ratel::ast::Statement::*;
 
         match *self {
-            Empty => {},
+            Empty => {
+                gen.write_byte(b';');
+            },
             Debugger => {
                 gen.write_bytes(b"debugger");
             },
-- 
2.43.0


From 13f8d3a8d257242de1a8c4b602da576f634d6d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 29/69] fix: separate statements that end without a semicolon

---
 ratel-codegen/src/lib.rs       | 45 ++++++++++++++++++++++++++++------
 ratel-codegen/src/statement.rs | 30 +++++++++++++++++++++++
 2 files changed, 67 insertions(+), 8 deletions(-)

diff --git a/ratel-codegen/src/lib.rs b/ratel-codegen/src/lib.rs
index 0c3e824..8eb9803 100644
--- a/ratel-codegen/src/lib.rs
+++ b/ratel-codegen/src/lib.rs
@@ -115,23 +115,36 @@ pub trait Generator: Sized {
     {
         let mut items = items.into_iter();
 
-        match items.next() {
+        let mut last = match items.next() {
             Some(item) => {
                 self.indent();
                 self.new_line();
                 self.write(item);
+                item
             },
             None => return,
-        }
+        };
 
         for item in items {
+            self.write_separator(last);
             self.new_line();
             self.write(item);
+            last = item;
         }
         self.dedent();
         self.new_line();
     }
 
+    /// Helper that adds the semicolon a statement needs if something follows it
+    #[inline]
+    fn write_separator<T>(&mut self, item: &T) where
+        T: ToCode<Self>,
+    {
+        if item.is_open() {
+            self.write_byte(b';');
+        }
+    }
+
     #[inline]
     fn new_line(&mut self) {}
 
@@ -244,21 +257,26 @@ impl Generator for PrettyGenerator {
 pub fn codegen(module: &Module, minify: bool) -> String {
     if minify {
         let mut gen = MinifyingGenerator::default();
+        let mut body = module.body().iter().peekable();
 
-        for statement in module.body() {
+        while let Some(statement) = body.next() {
             gen.write(statement);
+            if body.peek().is_some() {
+                gen.write_separator(statement);
+            }
         }
 
         gen.consume()
     } else {
         let mut gen = PrettyGenerator::default();
-        let mut body = module.body().iter();
+        let mut body = module.body().iter().peekable();
 
-        gen.write(&body.next().cloned());
-
-        for statement in body {
-            gen.new_line();
+        while let Some(statement) = body.next() {
             gen.write(statement);
+            if body.peek().is_some() {
+                gen.write_separator(statement);
+                gen.new_line();
+            }
         }
 
         gen.consume()
@@ -269,6 +287,12 @@ pub fn codegen(module: &Module, minify: bool) -> String {
 /// to efficiently write characters and string slices to the code `Generator`.
 pub trait ToCode<G: Generator> {
     fn to_code(&self, gen: &mut G);
+
+    /// Is written without the semicolon that has to separate it from what follows
+    #[inline]
+    fn is_open(&self) -> bool {
+        false
+    }
 }
 
 impl<'ast, G, T> ToCode<G> for Node<'ast, T> where
@@ -279,6 +303,11 @@ impl<'ast, G, T> ToCode<G> for Node<'ast, T> where
     fn to_code(&self, gen: &mut G) {
         (**self).to_code(gen)
     }
+
+    #[inline]
+    fn is_open(&self) -> bool {
+        ToCode::<G>::is_open(&**self)
+    }
 }
 
 impl<G, T> ToCode<G> for Loc<T> where
diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index 1968c1a..0885f53 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -48,6 +48,29 @@ impl<'ast, G: Generator> ToCode<G> for Statement<'ast> {
             Import(ref import)           => gen.write(import)
         }
     }
+
+    #[inline]
+    fn is_open(&self) -> bool {
+        use ratel::ast::Statement::*;
+
+        let mut statement = self;
+
+        loop {
+            statement = match *statement {
+                Debugger | Do(_) | Import(_) => return true,
+                If(IfStatement { ref consequent, ref alternate, .. }) => match *alternate {
+                    Some(ref alternate) => alternate,
+                    None                => consequent,
+                },
+                While(ref while_statement) => &while_statement.body,
+                For(ref for_statement)     => &for_statement.body,
+                ForIn(ref for_in)          => &for_in.body,
+                ForOf(ref for_of)          => &for_of.body,
+                Labeled(ref labeled)       => &labeled.body,
+                _                          => return false,
+            }
+        }
+    }
 }
 
 impl<G: Generator> ToCode<G> for DeclarationKind {
@@ -134,6 +157,7 @@ impl<'ast, G: Generator> ToCode<G> for IfStatement<'ast> {
         gen.write(&self.consequent);
 
         if let Some(ref alternate) = self.alternate {
+            gen.write_separator(&self.consequent);
             if self.consequent.is_block() {
                 gen.write_pretty(b' ');
             } else {
@@ -173,6 +197,7 @@ impl<'ast, G: Generator> ToCode<G> for DoStatement<'ast> {
             gen.write_byte(b' ');
         }
         gen.write(&self.body);
+        gen.write_separator(&self.body);
         gen.write_bytes(b"while");
         gen.write_pretty(b' ');
         gen.write_byte(b'(');
@@ -357,6 +382,11 @@ impl<'ast, G: Generator> ToCode<G> for SwitchCase<'ast> {
         }
         gen.write_block(&self.consequent);
     }
+
+    #[inline]
+    fn is_open(&self) -> bool {
+        self.consequent.iter().last().map_or(false, |last| ToCode::<G>::is_open(last))
+    }
 }
 
 impl<'ast, G: Generator> ToCode<G> for ImportDeclaration<'ast> {
-- 
2.43.0


From e9feff8691ffbb02bfb94ae1ff83f6e5fcd91981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 30/69] fix: print import sources that contain a single quote

---
 ratel-codegen/src/statement.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index 0885f53..9eedb8e 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -393,10 +393,11 @@ impl<'ast, G: Generator> ToCode<G> for ImportDeclaration<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         gen.write_bytes(b"import ");
+        let quote = import_quote(self.source);
         if self.specifiers.is_empty() {
-            gen.write_byte(b'\'');
+            gen.write_byte(quote);
             gen.write(&self.source);
-            gen.write_byte(b'\'');
+            gen.write_byte(quote);
             return
         }
 
@@ -423,11 +424,31 @@ impl<'ast, G: Generator> ToCode<G> for ImportDeclaration<'ast> {
             gen.write_byte(b'}');
         }
 
-        gen.write_bytes(b" from '");
+        gen.write_bytes(b" from ");
+        gen.write_byte(quote);
         gen.write_bytes(self.source.as_bytes());
-        gen.write_byte(b'\'');
+        gen.write_byte(quote);
     }
 }
+
+/// The source is the text between the quotes, in which only the same quotes are escaped
+#[inline]
+fn import_quote(source: &str) -> u8 {
+    let mut bytes = source.bytes();
+
+    while let Some(byte) = bytes.next() {
+        match byte {
+            b'\\' => {
+                bytes.next();
+            },
+            b'\'' => return b'"',
+            _     => {},
+        }
+    }
+
+    b'\''
+}
+
 impl<'ast, G: Generator> ToCode<G> for ForImportSpecifier<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-- 
2.43.0


From a82e71fe9321e2987e6ebd9c38310c8079feff43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 31/69] fix: separate statements that end without a semicolon,
 located ones too

---
 ratel-codegen/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ratel-codegen/src/lib.rs b/ratel-codegen/src/lib.rs
index 8eb9803..46c5026 100644
--- a/ratel-codegen/src/lib.rs
+++ b/ratel-codegen/src/lib.rs
@@ -318,6 +318,11 @@ impl<G, T> ToCode<G> for Loc<T> where
     fn to_code(&self, gen: &mut G) {
         self.item.to_code(gen)
     }
+
+    #[inline]
+    fn is_open(&self) -> bool {
+        ToCode::<G>::is_open(&self.item)
+    }
 }
 
 impl<'a, G, T> ToCode<G> for &'a Loc<T> where
@@ -328,6 +333,11 @@ impl<'a, G, T> ToCode<G> for &'a Loc<T> where
     fn to_code(&self, gen: &mut G) {
         self.item.to_code(gen)
     }
+
+    #[inline]
+    fn is_open(&self) -> bool {
+        ToCode::<G>::is_open(&self.item)
+    }
 }
 
 impl<'a, G> ToCode<G> for &'a str where
-- 
2.43.0


From 9bfacfca0ce4ee532e9f4aadcc7755c7faea7e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 32/69] fix: no stray lines after the statements of a switch
 case

---
 ratel-codegen/src/statement.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index 9eedb8e..1d8207c 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -198,6 +198,7 @@ impl<'ast, G: Generator> ToCode<G> for DoStatement<'ast> {
         }
         gen.write(&self.body);
         gen.write_separator(&self.body);
+        gen.write_pretty(b' ');
         gen.write_bytes(b"while");
         gen.write_pretty(b' ');
         gen.write_byte(b'(');
@@ -365,6 +366,7 @@ impl<'ast, G: Generator> ToCode<G> for SwitchStatement<'ast> {
         gen.write_byte(b'(');
         gen.write(&self.discriminant);
         gen.write_byte(b')');
+        gen.write_pretty(b' ');
         gen.write(&self.cases);
     }
 }
@@ -380,7 +382,16 @@ impl<'ast, G: Generator> ToCode<G> for SwitchCase<'ast> {
             }
             None => gen.write_bytes(b"default:")
         }
-        gen.write_block(&self.consequent);
+        gen.indent();
+        let mut consequent = self.consequent.iter().peekable();
+        while let Some(statement) = consequent.next() {
+            gen.new_line();
+            gen.write(statement);
+            if consequent.peek().is_some() {
+                gen.write_separator(statement);
+            }
+        }
+        gen.dedent();
     }
 
     #[inline]
-- 
2.43.0


From f069ff4e5294556ef8bbe1454206525e53b1f087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 33/69] fix: serialise class fields and computed method keys

---
 ratel/src/ast/expression.rs  | 10 ++++++++++
 ratel/src/astgen/function.rs | 11 ++++++++---
 ratel/src/astgen/value.rs    | 10 ++--------
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/ratel/src/ast/expression.rs b/ratel/src/ast/expression.rs
index 965db79..3de3151 100644
--- a/ratel/src/ast/expression.rs
+++ b/ratel/src/ast/expression.rs
@@ -8,6 +8,16 @@ pub enum PropertyKey<'ast> {
     Binary(&'ast str),
 }
 
+impl<'ast> PropertyKey<'ast> {
+    #[inline]
+    pub fn is_computed(&self) -> bool {
+        match *self {
+            PropertyKey::Computed(_) => true,
+            _                        => false,
+        }
+    }
+}
+
 #[derive(Debug, PartialEq, Clone, Copy)]
 pub enum Property<'ast> {
     Shorthand(&'ast str),
diff --git a/ratel/src/astgen/function.rs b/ratel/src/astgen/function.rs
index 63bb687..15888b0 100644
--- a/ratel/src/astgen/function.rs
+++ b/ratel/src/astgen/function.rs
@@ -31,13 +31,18 @@ impl<'ast> SerializeInLoc for ClassMember<'ast> {
                 self.in_loc(serializer, "MethodDefinition", 5, |state| {
                     state.serialize_field("kind", &kind)?;
                     state.serialize_field("static", &is_static)?;
-                    state.serialize_field("computed", &false)?;
+                    state.serialize_field("computed", &key.is_computed())?;
                     state.serialize_field("key", &*key)?;
                     state.serialize_field("value", &value)
                 })
             },
-            Literal { .. } => {
-                unimplemented!()
+            Literal { is_static, key, value } => {
+                self.in_loc(serializer, "PropertyDefinition", 4, |state| {
+                    state.serialize_field("static", &is_static)?;
+                    state.serialize_field("computed", &key.is_computed())?;
+                    state.serialize_field("key", &*key)?;
+                    state.serialize_field("value", &value)
+                })
             }
         }
     }
diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index 35a17c1..b66234d 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -114,17 +114,11 @@ impl<'ast> SerializeInLoc for Property<'ast> {
                 Expression::Identifier(value).serialize(serializer)
             }
             Literal { key, value } => {
-                let computed = if let PropertyKey::Computed(_) = key.item {
-                    true
-                } else {
-                    false
-                };
-
                 self.in_loc(serializer, "Property", 6, |state| {
                     state.serialize_field("key", &*key)?;
                     state.serialize_field("method", &false)?;
                     state.serialize_field("shorthand", &false)?;
-                    state.serialize_field("computed", &computed)?;
+                    state.serialize_field("computed", &key.is_computed())?;
                     state.serialize_field("value", &value)?;
                     state.serialize_field("kind", &"init")
                 })
@@ -133,7 +127,7 @@ impl<'ast> SerializeInLoc for Property<'ast> {
                 state.serialize_field("key", &*key)?;
                 state.serialize_field("method", &true)?;
                 state.serialize_field("shorthand", &false)?;
-                state.serialize_field("computed", &false)?;
+                state.serialize_field("computed", &key.is_computed())?;
                 state.serialize_field("value", &value)?;
                 state.serialize_field("kind", &"init")
             }),
-- 
2.43.0


From 76f7068da427351b236e73dfc328f0a81e1501be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 34/69] fix: serialise new without arguments

---
 ratel/src/astgen/expression.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ratel/src/astgen/expression.rs b/ratel/src/astgen/expression.rs
index f9732ee..20fd6f1 100644
--- a/ratel/src/astgen/expression.rs
+++ b/ratel/src/astgen/expression.rs
@@ -164,15 +164,14 @@ impl<'ast> SerializeInLoc for PrefixExpression<'ast> {
                         state.serialize_field("arguments", arguments)
                     })
                 },
-                Literal(_) => {
+                _ => {
                     self.in_loc(serializer, expr_type, 2, |state| {
                         // 0 byte array, will be optimized away
                         let arguments: [(); 0] = [];
                         state.serialize_field("callee", &self.operand)?;
                         state.serialize_field("arguments", &arguments)
                     })
-                },
-                _ => unimplemented!()
+                }
             }
         } else {
             self.in_loc(serializer, expr_type, 3, |state| {
-- 
2.43.0


From 25f321971850072b4de5916aa4580aab7415956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 35/69] fix: serialise holes in array patterns

---
 ratel/src/astgen/value.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index b66234d..53912db 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -247,12 +247,17 @@ impl<'ast> SerializeInLoc for Pattern<'ast> {
         use self::Pattern::*;
 
         match *self {
+            // A list of elements has `null` in the place of a hole
             Void => unreachable!(),
             Identifier(a) => Expression::Identifier(a).serialize(serializer),
             ObjectPattern { properties } => self.in_loc(serializer, "ObjectPattern", 1, |state| {
                 state.serialize_field("keys", &properties)
             }),
             ArrayPattern { elements } => self.in_loc(serializer, "ArrayPattern", 1, |state| {
+                let elements = elements.iter()
+                                       .map(|loc| if loc.item != Void { Some(loc) } else { None })
+                                       .collect::<Vec<_>>();
+
                 state.serialize_field("elements", &elements)
             }),
             AssignmentPattern { left, right } => {
-- 
2.43.0


From 29d8db1c8f81374b7eef21e33c8d4027b175160c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 36/69] fix: serialise string and number keys as literals

---
 ratel/src/astgen/value.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index 53912db..37c4081 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -1,5 +1,6 @@
 use ast::expression::{PropertyKey, TaggedTemplateExpression, TemplateLiteral};
 use ast::{Expression, Literal, Loc, NodeList, Pattern, Property};
+use ast;
 use astgen::SerializeInLoc;
 use serde::ser::{Serialize, SerializeSeq, SerializeStruct, Serializer};
 
@@ -150,12 +151,18 @@ impl<'ast> Serialize for Loc<PropertyKey<'ast>> {
             Literal(value) => serializer.serialize_some(&Loc::new(
                 self.start,
                 self.end,
-                Expression::Identifier(value),
+                match value.as_bytes().first() {
+                    Some(&b'"')           |
+                    Some(&b'\'')          => Expression::Literal(ast::Literal::String(value)),
+                    Some(&b'.')           |
+                    Some(&b'0'...b'9')    => Expression::Literal(ast::Literal::Number(value)),
+                    _                     => Expression::Identifier(value),
+                },
             )),
             Binary(value) => serializer.serialize_some(&Loc::new(
                 self.start,
                 self.end,
-                Expression::Identifier(value),
+                Expression::Literal(ast::Literal::Binary(value)),
             )),
         }
     }
-- 
2.43.0


From 0ea0c0b5d1a7a6a35e8710d1ed8aca5d0616ed89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:44 +0000
Subject: [PATCH 37/69] fix: serialise numbers of any size and notation

---
 ratel/src/astgen/value.rs | 65 ++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 22 deletions(-)

diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index 37c4081..ef2820a 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -31,6 +31,37 @@ pub fn is_float(value: &str) -> bool {
     value.bytes().any(|c| c == b'.')
 }
 
+/// Value of an integer of any length, written in a base that is a power of two
+#[inline]
+fn parse_radix(digits: &[u8], bits: u32) -> f64 {
+    let mut value = 0u128;
+    let mut exponent = 0;
+
+    for digit in digits {
+        let digit = (*digit as char).to_digit(16).expect("Invalid number") as u128;
+
+        if value >> 120 == 0 {
+            value = (value << bits) | digit;
+        } else {
+            // Far below the precision of a float, only tells the exact half from more
+            value |= (digit != 0) as u128;
+            exponent += bits as i32;
+        }
+    }
+
+    value as f64 * 2f64.powi(exponent)
+}
+
+#[inline]
+fn serialize_number<S: SerializeStruct>(state: &mut S, value: f64) -> Result<(), S::Error> {
+    // Integers up to this are exact
+    if value.fract() == 0.0 && value.abs() <= 9007199254740992.0 {
+        state.serialize_field("value", &(value as i64))
+    } else {
+        state.serialize_field("value", &value)
+    }
+}
+
 #[derive(Debug)]
 pub struct TemplateElement<'ast> {
     pub tail: bool,
@@ -199,37 +230,27 @@ impl<'ast> SerializeInLoc for Literal<'ast> {
                     state.serialize_field("raw", &"false")
                 },
                 Number(number) => {
-                    if number.len() > 2 {
-                        let prefix = &number[0..2];
-                        let is_hexdecimal = prefix == "0x" || prefix == "0X";
-                        let is_octal = prefix == "0o" || prefix == "0O";
-                        if is_hexdecimal || is_octal {
-                            let value = unsafe { number.get_unchecked(2..number.len()) };
-                            let radix = if is_hexdecimal { 16 } else { 8 };
-                            state.serialize_field(
-                                "value",
-                                &i32::from_str_radix(value, radix).expect("Invalid number"),
-                            )?;
-                            return state.serialize_field("raw", &number)
-                        }
-                    }
-
                     if is_float(number) {
                         let value: f64 = number.parse().expect("Invalid number");
                         state.serialize_field("value", &value)?;
                         return state.serialize_field("raw", &number)
                     }
 
-                    let value: i64 = number.parse().expect("Invalid number");
-                    state.serialize_field("value", &value)?;
+                    let bytes = number.as_bytes();
+                    let value = match bytes.get(1) {
+                        Some(&b'x') | Some(&b'X') => parse_radix(&bytes[2..], 4),
+                        Some(&b'o') | Some(&b'O') => parse_radix(&bytes[2..], 3),
+                        // Legacy octal notation
+                        Some(_) if bytes.iter().all(|&c| c >= b'0' && c <= b'7') && bytes[0] == b'0' => {
+                            parse_radix(&bytes[1..], 3)
+                        },
+                        _ => number.parse().expect("Invalid number"),
+                    };
+                    serialize_number(state, value)?;
                     state.serialize_field("raw", &number)
                 }
                 Binary(number) => {
-                    let value = unsafe { number.get_unchecked(2..number.len()) };
-                    state.serialize_field(
-                        "value",
-                        &i32::from_str_radix(value, 2).expect("Invalid number"),
-                    )?;
+                    serialize_number(state, parse_radix(&number.as_bytes()[2..], 1))?;
                     state.serialize_field("raw", &number)
                 }
                 String(value) => {
-- 
2.43.0


From 18f6c724604e57f9a31786a8beed677da84f2940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 38/69] fix: normalise line breaks in the value of templates

---
 ratel/src/astgen/value.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index ef2820a..d67033a 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -308,9 +308,11 @@ impl<'ast> SerializeInLoc for TemplateElement<'ast> {
     {
         self.in_loc(serializer, "TemplateElement", 2, |state| {
             state.serialize_field("tail", &self.tail)?;
+            // Every line break in a template is a line feed
+            let cooked = self.value.replace("\r\n", "\n").replace('\r', "\n");
             let value = TemplateElementValue {
                 raw: self.value,
-                cooked: self.value,
+                cooked: &cooked,
             };
             state.serialize_field("value", &value)
         })
-- 
2.43.0


From f8b63b23411ff337897148a249de3b965dcca246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 39/69] fix: locate the first clause of a for loop without its
 parentheses (C08, C12)

---
 ratel/src/parser/statement.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 28f8a88..256b13c 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -533,9 +533,7 @@ impl<'ast> Parser<'ast> {
                     _ => self.nested_expression::<ANY>(start, init),
                 };
 
-                let end = self.lexer.prev_end();
-
-                Some(self.alloc_at_loc(start, end, init))
+                Some(self.alloc_at_loc(init.start, init.end, init))
             },
         };
 
-- 
2.43.0


From a655b610d325026227423ec28cf4568c3430f524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 40/69] fix: no element after the last comma of an array
 pattern in the JSON (C12)

---
 ratel/src/astgen/value.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index d67033a..f92ee8c 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -282,9 +282,14 @@ impl<'ast> SerializeInLoc for Pattern<'ast> {
                 state.serialize_field("keys", &properties)
             }),
             ArrayPattern { elements } => self.in_loc(serializer, "ArrayPattern", 1, |state| {
-                let elements = elements.iter()
-                                       .map(|loc| if loc.item != Void { Some(loc) } else { None })
-                                       .collect::<Vec<_>>();
+                let mut elements = elements.iter()
+                                           .map(|loc| if loc.item != Void { Some(loc) } else { None })
+                                           .collect::<Vec<_>>();
+
+                // What follows the last comma is not an element
+                if let Some(&None) = elements.last() {
+                    elements.pop();
+                }
 
                 state.serialize_field("elements", &elements)
             }),
-- 
2.43.0


From 6829e572b4f674156dba3f736c915190949d9386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 41/69] fix: push the parent that is popped after an import
 (C14)

---
 ratel-visitor/src/statement.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ratel-visitor/src/statement.rs b/ratel-visitor/src/statement.rs
index a5e3bc9..c4226f9 100644
--- a/ratel-visitor/src/statement.rs
+++ b/ratel-visitor/src/statement.rs
@@ -114,6 +114,7 @@ impl<'ast> Visitable<'ast> for StatementNode<'ast> {
             },
             Import(ref import) => {
                 visitor.on_import_declaration_statement(import, self);
+                visitor.push_parent(ParentNode::from(self));
                 import.visit_with(visitor);
             }
         }
-- 
2.43.0


From 0719c5d51e9b9a79330476ea14544a26a1d0c7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:47 +0000
Subject: [PATCH 42/69] fix: visit the program body as a statement list (C14)

---
 ratel-visitor/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ratel-visitor/src/lib.rs b/ratel-visitor/src/lib.rs
index 6cdd0a6..b2a37b9 100644
--- a/ratel-visitor/src/lib.rs
+++ b/ratel-visitor/src/lib.rs
@@ -126,6 +126,7 @@ impl<'ast> Visitable<'ast> for Module<'ast> {
         V: Visitor<'ast>,
     {
         let body = self.body();
+        visitor.on_statement_list(body);
         for item in body {
             item.visit_with(visitor);
         }
-- 
2.43.0


From 2fb168d8006ec307cb2176e6a025f0e1a4a76341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 43/69] fix: arrow functions have a scope (C15)

---
 ratel-visitor/src/expression.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ratel-visitor/src/expression.rs b/ratel-visitor/src/expression.rs
index b6b1b3c..04217af 100644
--- a/ratel-visitor/src/expression.rs
+++ b/ratel-visitor/src/expression.rs
@@ -1,7 +1,7 @@
 use ratel::ast::{Identifier, Expression, ExpressionNode, StatementNode, Literal};
 use ratel::ast::expression::*;
 
-use {Visitor, Visitable, ParentNode};
+use {Visitor, Visitable, ParentNode, ScopeKind};
 
 
 impl<'ast> Visitable<'ast> for ExpressionNode<'ast> {
@@ -331,8 +331,10 @@ impl<'ast> Visitable<'ast> for ArrowExpression<'ast> {
     where
         V: Visitor<'ast>,
     {
+        visitor.on_enter_scope(ScopeKind::Function);
         self.params.visit_with(visitor);
         self.body.visit_with(visitor);
+        visitor.on_leave_scope();
     }
 }
 
-- 
2.43.0


From 244c2bbc8922f129d7e0d4a896e57881928948bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 44/69] fix: a catch parameter belongs to the scope of its
 block (C15)

---
 ratel-visitor/src/statement.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ratel-visitor/src/statement.rs b/ratel-visitor/src/statement.rs
index c4226f9..3b5711c 100644
--- a/ratel-visitor/src/statement.rs
+++ b/ratel-visitor/src/statement.rs
@@ -325,8 +325,11 @@ impl<'ast> Visitable<'ast> for CatchClause<'ast> {
     where
         V: Visitor<'ast>,
     {
+        // The parameter ends up inside the block
+        visitor.on_enter_scope(ScopeKind::Block);
         self.param.visit_with(visitor);
-        self.body.visit_with(visitor);
+        self.body.body.visit_with(visitor);
+        visitor.on_leave_scope();
     }
 }
 
-- 
2.43.0


From 9c4b34e79dcca601cea1687ae4f1c3f8b840b5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 45/69] fix: imported names are declared in the importing scope
 (C15)

---
 ratel-visitor/src/statement.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ratel-visitor/src/statement.rs b/ratel-visitor/src/statement.rs
index 3b5711c..228d260 100644
--- a/ratel-visitor/src/statement.rs
+++ b/ratel-visitor/src/statement.rs
@@ -396,7 +396,6 @@ impl<'ast> Visitable<'ast> for ImportDeclaration<'ast> {
     where
         V: Visitor<'ast>,
     {
-        self.source.visit_with(visitor);
         self.specifiers.visit_with(visitor);
     }
 }
@@ -425,8 +424,7 @@ impl<'ast> Visitable<'ast> for ImportSpecifier<'ast> {
     where
         V: Visitor<'ast>,
     {
-        self.local.visit_with(visitor);
-        self.imported.visit_with(visitor);
+        visitor.on_reference_declaration(&self.local.item);
     }
 }
 
@@ -438,7 +436,7 @@ impl<'ast> Visitable<'ast> for ImportDefaultSpecifier<'ast> {
     where
         V: Visitor<'ast>,
     {
-        self.local.visit_with(visitor);
+        visitor.on_reference_declaration(&self.local.item);
     }
 }
 
@@ -450,6 +448,6 @@ impl<'ast> Visitable<'ast> for ImportNamespaceSpecifier<'ast> {
     where
         V: Visitor<'ast>,
     {
-        self.local.visit_with(visitor);
+        visitor.on_reference_declaration(&self.local.item);
     }
 }
-- 
2.43.0


From 9c94d39722fa8b3be7f8ad9a573f9d65f536396c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 46/69] fix: the words of a meta property are not references
 (C15)

---
 ratel-visitor/src/expression.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/ratel-visitor/src/expression.rs b/ratel-visitor/src/expression.rs
index 04217af..ff9d7d3 100644
--- a/ratel-visitor/src/expression.rs
+++ b/ratel-visitor/src/expression.rs
@@ -198,13 +198,7 @@ impl<'ast> Visitable<'ast> for MetaPropertyExpression<'ast> {
     type Parent = ExpressionNode<'ast>;
 
     #[inline]
-    fn visit_with<V>(&'ast self, visitor: &mut V)
-    where
-        V: Visitor<'ast>,
-    {
-        self.meta.visit_with(visitor);
-        self.property.visit_with(visitor);
-    }
+    fn visit_with<V: Visitor<'ast>>(&self, _: &mut V) {}
 }
 
 impl<'ast> Visitable<'ast> for CallExpression<'ast> {
-- 
2.43.0


From 508c16aa84c1c7c25fd001696a64cdb5b70da640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:09 +0000
Subject: [PATCH 47/69] fix: patterns declare the names they bind (C15)

---
 ratel-visitor/src/lib.rs | 63 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 60 insertions(+), 3 deletions(-)

diff --git a/ratel-visitor/src/lib.rs b/ratel-visitor/src/lib.rs
index b2a37b9..e37428e 100644
--- a/ratel-visitor/src/lib.rs
+++ b/ratel-visitor/src/lib.rs
@@ -6,7 +6,7 @@ extern crate ratel;
 use ratel::ast::expression::*;
 use ratel::ast::statement::*;
 use ratel::ast::{ExpressionList, ExpressionNode, StatementList, StatementNode};
-use ratel::ast::{Identifier, Literal, Node, NodeList, Pattern};
+use ratel::ast::{Expression, Identifier, Literal, Node, NodeList, OperatorKind, Pattern};
 
 use ratel::Module;
 
@@ -145,13 +145,13 @@ impl<'ast> Visitable<'ast> for Pattern<'ast> {
             Pattern::Void => {}
             Pattern::Identifier(ref ident) => visitor.on_reference_declaration(ident),
             Pattern::ObjectPattern { ref properties } => {
-                properties.visit_with(visitor);
+                visit_bound_properties(properties, visitor);
             }
             Pattern::ArrayPattern { ref elements } => {
                 elements.visit_with(visitor);
             }
             Pattern::RestElement { ref argument } => {
-                argument.visit_with(visitor);
+                visitor.on_reference_declaration(&argument.item);
             }
             Pattern::AssignmentPattern {
                 ref left,
@@ -164,6 +164,63 @@ impl<'ast> Visitable<'ast> for Pattern<'ast> {
     }
 }
 
+/// The values of properties in an object pattern are expressions,
+/// but the identifiers they assign to are declared by the pattern.
+fn visit_bound_properties<'ast, V>(properties: &'ast NodeList<'ast, Property<'ast>>, visitor: &mut V)
+where
+    V: Visitor<'ast>,
+{
+    for property in properties {
+        match property.item {
+            Property::Shorthand(ref ident) => visitor.on_reference_declaration(ident),
+            Property::Literal { ref key, ref value } => {
+                key.visit_with(visitor);
+                visit_bound_expression(value, visitor);
+            }
+            Property::Method { .. } => property.item.visit_with(visitor),
+            Property::Spread { ref argument } => visit_bound_expression(argument, visitor),
+        }
+    }
+}
+
+fn visit_bound_expression<'ast, V>(node: &'ast ExpressionNode<'ast>, visitor: &mut V)
+where
+    V: Visitor<'ast>,
+{
+    match node.item {
+        Expression::Identifier(ref ident) => {
+            visitor.on_identifier_expression(ident, node);
+            visitor.push_parent(ParentNode::from(node));
+            visitor.on_reference_declaration(ident);
+        }
+        Expression::Object(ref object) => {
+            visitor.on_object_expression(object, node);
+            visitor.push_parent(ParentNode::from(node));
+            visit_bound_properties(&object.body, visitor);
+        }
+        Expression::Array(ref array) => {
+            visitor.on_array_expression(array, node);
+            visitor.push_parent(ParentNode::from(node));
+            for element in &array.body {
+                visit_bound_expression(element, visitor);
+            }
+        }
+        Expression::Spread(ref spread) => {
+            visitor.on_spread_expression(spread, node);
+            visitor.push_parent(ParentNode::from(node));
+            visit_bound_expression(&spread.argument, visitor);
+        }
+        Expression::Binary(ref binary) if binary.operator == OperatorKind::Assign => {
+            visitor.on_binary_expression(binary, node);
+            visitor.push_parent(ParentNode::from(node));
+            visit_bound_expression(&binary.left, visitor);
+            binary.right.visit_with(visitor);
+        }
+        _ => return node.visit_with(visitor),
+    }
+    visitor.pop_parent();
+}
+
 impl<'ast> Visitable<'ast> for PropertyKey<'ast> {
     type Parent = Node<'ast, Self>;
 
-- 
2.43.0


From 1caf9939345c44eeaaec16e07bd89cdd1e5d672b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 48/69] fix: transform arrow functions, nested ones first (C16)

---
 ratel-transformer/src/es2015/arrow.rs | 34 ++++++++++++++++++++-------
 ratel-transformer/src/lib.rs          |  4 ++--
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/ratel-transformer/src/es2015/arrow.rs b/ratel-transformer/src/es2015/arrow.rs
index c01ea7b..05d2b00 100644
--- a/ratel-transformer/src/es2015/arrow.rs
+++ b/ratel-transformer/src/es2015/arrow.rs
@@ -1,24 +1,24 @@
-use ratel::ast::{NodeList, ExpressionNode, Function, Name, OptionalName, Block};
+use ratel::ast::{NodeList, Expression, ExpressionNode, Function, Name, OptionalName, Block};
 use ratel::ast::expression::{ArrowExpression, ArrowBody};
 use ratel::ast::statement::ReturnStatement;
-use ratel_visitor::Visitor;
+use ratel_visitor::{ParentNode, Visitor};
 
 use TransformerCtxt;
 
 pub struct TransformArrow<'ast> {
-    ctx: TransformerCtxt<'ast>
+    ctx: TransformerCtxt<'ast>,
+    parents: Vec<ParentNode<'ast>>,
 }
 
 impl<'ast> TransformArrow<'ast> {
     pub fn new(ctx: TransformerCtxt<'ast>) -> TransformArrow<'ast> {
         TransformArrow {
-            ctx
+            ctx,
+            parents: Vec::new(),
         }
     }
-}
 
-impl<'ast> Visitor<'ast> for TransformArrow<'ast> {
-    fn on_arrow_expression(&mut self, node: &ArrowExpression<'ast>, ptr: &'ast ExpressionNode<'ast>) {
+    fn transform(&self, node: &ArrowExpression<'ast>, ptr: &'ast ExpressionNode<'ast>) {
         let body = match node.body {
             ArrowBody::Block(block)     => block,
             ArrowBody::Expression(expr) => {
@@ -32,7 +32,7 @@ impl<'ast> Visitor<'ast> for TransformArrow<'ast> {
             }
         };
 
-        self.ctx.swap(*ptr, Function {
+        self.ctx.swap(ptr, Function {
             name: OptionalName::empty(),
             generator: false,
             params: node.params,
@@ -40,3 +40,21 @@ impl<'ast> Visitor<'ast> for TransformArrow<'ast> {
         });
     }
 }
+
+impl<'ast> Visitor<'ast> for TransformArrow<'ast> {
+    fn push_parent(&mut self, node: ParentNode<'ast>) {
+        self.parents.push(node);
+    }
+
+    // An arrow is replaced once everything inside of it has been transformed,
+    // as the replacement has copies of the nodes directly inside the arrow.
+    fn pop_parent(&mut self) {
+        if let Some(ParentNode::Expression(ptr)) = self.parents.pop() {
+            let node = **ptr;
+
+            if let Expression::Arrow(ref arrow) = node.item {
+                self.transform(arrow, ptr);
+            }
+        }
+    }
+}
diff --git a/ratel-transformer/src/lib.rs b/ratel-transformer/src/lib.rs
index 7a345a4..3f86670 100644
--- a/ratel-transformer/src/lib.rs
+++ b/ratel-transformer/src/lib.rs
@@ -61,7 +61,7 @@ impl<'ast> TransformerCtxt<'ast> {
     }
 
     #[inline]
-    pub fn swap<T, I>(&self, ptr: Node<'ast, T>, item: I) where
+    pub fn swap<T, I>(&self, ptr: &Node<'ast, T>, item: I) where
         T: Copy + 'ast,
         I: Into<T>,
     {
@@ -75,7 +75,7 @@ impl<'ast> TransformerCtxt<'ast> {
     }
 }
 
-pub fn transform<'ast>(module: &'ast mut Module<'ast>) {
+pub fn transform<'ast>(module: &'ast Module<'ast>) {
     let arena = module.arena();
 
     let ctx = TransformerCtxt {
-- 
2.43.0


From b06286477534b8a4ddfac72a894f5f11c361814d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 49/69] fix: print the right place of errors after a line break
 (C07)

---
 ratel/src/error.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ratel/src/error.rs b/ratel/src/error.rs
index a4d15d7..ac0bcde 100644
--- a/ratel/src/error.rs
+++ b/ratel/src/error.rs
@@ -49,19 +49,20 @@ impl Display for ParseError {
                 start,
                 end
             } => {
-                let (lineno, line) = source[..start]
-                                       .lines()
-                                       .enumerate()
-                                       .last()
-                                       .unwrap_or((0, ""));
+                let lineno = source[..start].matches('\n').count();
+                let line = source[..start].rsplit('\n').next().unwrap_or("");
+
+                // What follows a line break at the very end is a line, too
+                let end_line = if lineno == source.lines().count() { Some("") } else { None };
 
                 let colno = line.chars().count();
-                let token_len = source[start..end].chars().count();
+                let token_len = source[start..end].lines().next().unwrap_or("").chars().count();
 
                 writeln!(f, "Unexpected token at {}:{}\n", lineno + 1, colno + 1)?;
 
                 let iter = source
                             .lines()
+                            .chain(end_line)
                             .enumerate()
                             .skip_while(|&(index, _)| index < lineno.saturating_sub(2))
                             .take_while(|&(index, _)| index < lineno + 3);
-- 
2.43.0


From 34adbd0f8f1783ec0b821aa5277006d9f18f3956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 50/69] fix: skip any number of comments without recursion
 (C01)

---
 ratel/src/lexer/mod.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index d697649..dd619f6 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -409,10 +409,10 @@ const SLH: ByteHandler = Some(|lex| {
             unwind_loop!({
                 match lex.next_byte() {
                     0 | b'\n' | b'\r' => {
-                        return lex.scan();
+                        return lex.skipped = true;
                     },
                     0xE2 if util::is_line_separator(lex.read_char()) => {
-                        return lex.scan();
+                        return lex.skipped = true;
                     },
                     _ => {}
                 }
@@ -429,7 +429,7 @@ const SLH: ByteHandler = Some(|lex| {
                         match lex.next_byte() {
                             b'/' => {
                                 lex.bump();
-                                return lex.scan();
+                                return lex.skipped = true;
                             },
                             0 => return lex.token = UnexpectedEndOfProgram,
                             _ => {}
@@ -481,11 +481,11 @@ const UNI: ByteHandler = Some(|lex| {
     if util::is_line_separator(first) {
         lex.asi = Asi::ImplicitSemicolon;
 
-        return lex.scan();
+        return lex.skipped = true;
     }
 
     if util::is_unicode_space(first) {
-        return lex.scan();
+        return lex.skipped = true;
     }
 
     if !first.is_alphanumeric() {
@@ -652,6 +652,9 @@ pub struct Lexer<'arena> {
 
     accessor_start: usize,
 
+    /// Set when a handler has read a comment or white space instead of a token
+    skipped: bool,
+
     pub quasi: &'arena str,
 }
 
@@ -688,6 +691,7 @@ impl<'arena> Lexer<'arena> {
             token_start: 0,
             prev_end: 0,
             accessor_start: 0,
+            skipped: false,
             quasi: "",
         };
 
@@ -705,8 +709,7 @@ impl<'arena> Lexer<'arena> {
         self.scan();
     }
 
-    /// Scan for the next token, without forgetting about the new lines that
-    /// have been read since the previous one.
+    /// Scan for the next token.
     #[inline]
     fn scan(&mut self) {
         let mut ch;
@@ -716,13 +719,19 @@ impl<'arena> Lexer<'arena> {
 
             if let Some(handler) = self.handler_from_byte(ch) {
                 self.token_start = self.index;
-                return handler(self);
-            }
+                handler(self);
 
-            self.bump();
+                if !self.skipped {
+                    return;
+                }
+
+                self.skipped = false;
+            } else {
+                self.bump();
 
-            if ch == b'\n' || ch == b'\r' {
-                self.asi = Asi::ImplicitSemicolon;
+                if ch == b'\n' || ch == b'\r' {
+                    self.asi = Asi::ImplicitSemicolon;
+                }
             }
         })
     }
-- 
2.43.0


From e87deb7764356770745e1d1be32c485896df3a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:26 +0000
Subject: [PATCH 51/69] fix: a line break cannot be escaped in a regular
 expression (C03)

---
 ratel/src/lexer/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index dd619f6..f9e2e24 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -1178,6 +1178,8 @@ impl<'arena> Lexer<'arena> {
                             self.token = UnexpectedEndOfProgram;
                             return "";
                         },
+                        // No line break can be escaped
+                        b'\n' | b'\r' => {},
                         _ => self.bump()
                     }
                 },
-- 
2.43.0


From fd441fdd711750eabf9c2900c0a0b770f9a6c74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 52/69] fix: no line break before the arrow of a function (C05,
 C06)

---
 ratel/src/parser/expression.rs | 7 ++++---
 ratel/src/parser/nested.rs     | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 1ffa232..5ad0440 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -1,6 +1,6 @@
 use toolshed::list::ListBuilder;
 use parser::{Parser, Parse, BindingPower, ANY, B0, B15, MEM};
-use lexer::Token::*;
+use lexer::{Asi, Token::*};
 use ast::{Node, NodeList, Expression, ExpressionNode, IdentifierNode, ExpressionList};
 use ast::{Property, PropertyKey, OperatorKind, Literal, Function, Class, StatementNode, Pattern};
 use ast::expression::*;
@@ -322,8 +322,9 @@ impl<'ast> Parser<'ast> {
             ParenClose => {
                 let end = self.lexer.end_then_consume();
 
-                // Must be followed by an arrow, which turns this into its empty list of parameters
-                if self.lexer.token != OperatorFatArrow {
+                // Must be followed by an arrow on the same line,
+                // which turns this into its empty list of parameters
+                if self.lexer.token != OperatorFatArrow || self.asi() == Asi::ImplicitSemicolon {
                     self.error::<()>();
                 }
 
diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 63507d0..18b966c 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -19,7 +19,7 @@ pub trait BindingPower {
         // TODO: find a cleaner solution, roll it the ASI check into lookup table somehow?
         if asi == Asi::ImplicitSemicolon {
             match token {
-                OperatorIncrement | OperatorDecrement => return None,
+                OperatorIncrement | OperatorDecrement | OperatorFatArrow => return None,
                 _ => {}
             }
         }
-- 
2.43.0


From b7bc8fc8ec98d43e6e34d93836e3c715738b7e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:42 +0000
Subject: [PATCH 53/69] fix: only operands are called or accessed (C05, C06)

What ends in a postfix operation is not an operand: a bracket, a
parenthesis or a template on the next line starts a new statement.
---
 ratel/src/parser/nested.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 18b966c..d322d00 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -478,6 +478,10 @@ impl<'ast> Parser<'ast> {
         B: BindingPower
     {
         let mut arrow = false;
+        let mut operand = match left.item {
+            Expression::Prefix(PrefixExpression { operator, .. }) => operator == New || left.start != start,
+            _ => true,
+        };
 
         while let Some(handler) = B::handler(self.asi(), self.lexer.token) {
             let token = self.lexer.token;
@@ -488,8 +492,20 @@ impl<'ast> Parser<'ast> {
                 break;
             }
 
+            // Only operands can be called or accessed, what ends in a postfix
+            // operation can not be, unless it is wrapped in parentheses
+            let suffix = match token {
+                ParenOpen | BracketOpen | Accessor | TemplateOpen | TemplateClosed => true,
+                _ => false,
+            };
+
+            if suffix && !operand {
+                break;
+            }
+
             left = handler(self, start, left);
             arrow = token == OperatorFatArrow;
+            operand = suffix;
         }
 
         left
-- 
2.43.0


From b3c5888d3826d0457f7f4d765aedaa74a5669ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:28 +0000
Subject: [PATCH 54/69] fix: a computed key holds no sequence (C06, C11)

---
 ratel/src/parser/expression.rs | 2 +-
 ratel/src/parser/function.rs   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 5ad0440..53f9c19 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -489,7 +489,7 @@ impl<'ast> Parser<'ast> {
             },
             BracketOpen => {
                 let start = self.lexer.start_then_consume();
-                let expression = self.expression::<ANY>();
+                let expression = self.expression::<B0>();
                 let end = self.lexer.end();
 
                 expect!(self, BracketClose);
diff --git a/ratel/src/parser/function.rs b/ratel/src/parser/function.rs
index 35161ba..0d3ad92 100644
--- a/ratel/src/parser/function.rs
+++ b/ratel/src/parser/function.rs
@@ -1,5 +1,5 @@
 use toolshed::list::ListBuilder;
-use parser::{Parser, Parse, ANY, B0, B15};
+use parser::{Parser, Parse, B0, B15};
 use lexer::Token::*;
 use ast::{Node, NodeList, EmptyName, OptionalName, MandatoryName, Name};
 use ast::{MethodKind, Pattern, Function, Class, ClassMember, PropertyKey};
@@ -151,7 +151,7 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
             BracketOpen => {
                 par.lexer.consume();
 
-                let expression = par.expression::<ANY>();
+                let expression = par.expression::<B0>();
                 token_end = par.lexer.end();
 
                 expect!(par, BracketClose);
-- 
2.43.0


From 599c188c8292fb706f90c1a306691062fddc4a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 55/69] fix: no line break after throw (C06)

---
 ratel/src/parser/statement.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 256b13c..acb2c47 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -371,6 +371,12 @@ impl<'ast> Parser<'ast> {
     #[inline]
     pub fn throw_statement(&mut self) -> StatementNode<'ast> {
         let start = self.lexer.start_then_consume();
+
+        // The value has to start on the same line
+        if self.asi() == Asi::ImplicitSemicolon {
+            self.error::<()>();
+        }
+
         let value = self.expression::<ANY>();
         let end = self.lexer.prev_end();
 
-- 
2.43.0


From e677dee7bcb76dddae4d3e02bde756724c508ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:49 +0000
Subject: [PATCH 56/69] fix: a declared pattern needs a value (C06)

---
 ratel/src/parser/statement.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index acb2c47..a1f8a38 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -243,7 +243,7 @@ impl<'ast> Parser<'ast> {
     #[inline]
     pub fn variable_declaration_statement(&mut self, kind: DeclarationKind) -> StatementNode<'ast> {
         let start = self.lexer.start_then_consume();
-        let declarators = self.variable_declarators();
+        let declarators = self.variable_declarators(false);
 
         self.expect_semicolon();
 
@@ -256,7 +256,7 @@ impl<'ast> Parser<'ast> {
     }
 
     #[inline]
-    pub fn variable_declarator(&mut self) -> Node<'ast, Declarator<'ast>> {
+    pub fn variable_declarator(&mut self, in_for: bool) -> Node<'ast, Declarator<'ast>> {
         let id = Pattern::parse(self);
 
         let (init, end) = match self.lexer.token {
@@ -266,7 +266,22 @@ impl<'ast> Parser<'ast> {
 
                 (Some(init), self.lexer.prev_end())
             },
-            _ => (None, id.end)
+            _ => {
+                let looped = in_for && match self.lexer.token {
+                    OperatorIn => true,
+                    Identifier => self.lexer.token_as_str() == "of",
+                    _          => false,
+                };
+
+                // A pattern needs a value to take apart, unless a loop provides it
+                match id.item {
+                    Pattern::ArrayPattern { .. } |
+                    Pattern::ObjectPattern { .. } if !looped => self.error(),
+                    _ => {}
+                }
+
+                (None, id.end)
+            }
         };
 
         self.alloc_at_loc(id.start, end, Declarator {
@@ -276,8 +291,8 @@ impl<'ast> Parser<'ast> {
     }
 
     #[inline]
-    pub fn variable_declarators(&mut self) -> NodeList<'ast, Declarator<'ast>> {
-        let builder = ListBuilder::new(self.arena, self.variable_declarator());
+    pub fn variable_declarators(&mut self, in_for: bool) -> NodeList<'ast, Declarator<'ast>> {
+        let builder = ListBuilder::new(self.arena, self.variable_declarator(in_for));
 
         match self.lexer.token {
             Comma => self.lexer.consume(),
@@ -285,7 +300,7 @@ impl<'ast> Parser<'ast> {
         }
 
         loop {
-            builder.push(self.arena, self.variable_declarator());
+            builder.push(self.arena, self.variable_declarator(in_for));
 
             match self.lexer.token {
                 Comma => self.lexer.consume(),
@@ -495,7 +510,7 @@ impl<'ast> Parser<'ast> {
     #[inline]
     fn for_init(&mut self, kind: DeclarationKind) -> Node<'ast, ForInit<'ast>> {
         let start = self.lexer.start_then_consume();
-        let declarators = self.variable_declarators();
+        let declarators = self.variable_declarators(true);
         let end = self.lexer.prev_end();
 
         self.alloc_at_loc(start, end, DeclarationStatement {
-- 
2.43.0


From f88a1fdd86fc0519a42993111f02ed5a25b64846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:44 +0000
Subject: [PATCH 57/69] fix: a for-in or for-of statement has one target (C06)

---
 ratel/src/parser/statement.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index a1f8a38..dfbff3f 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -537,20 +537,8 @@ impl<'ast> Parser<'ast> {
                 let init = self.expression::<B15>();
 
                 let init = match self.lexer.token {
-                    OperatorIn => {
-                        if !init.is_lvalue() {
-                            self.error::<()>();
-                        }
-
-                        init
-                    },
-                    Identifier if self.lexer.token_as_str() == "of" => {
-                        if !init.is_lvalue() {
-                            self.error::<()>();
-                        }
-
-                        init
-                    },
+                    OperatorIn => init,
+                    Identifier if self.lexer.token_as_str() == "of" => init,
                     _ => self.nested_expression::<ANY>(start, init),
                 };
 
@@ -561,10 +549,12 @@ impl<'ast> Parser<'ast> {
         if let Some(ref init) = init {
             match self.lexer.token {
                 OperatorIn => {
+                    self.for_target(init);
                     self.lexer.consume();
                     return self.for_in_statement(start, *init);
                 },
                 Identifier if self.lexer.token_as_str() == "of" => {
+                    self.for_target(init);
                     self.lexer.consume();
                     return self.for_of_statement(start, *init);
                 },
@@ -608,6 +598,21 @@ impl<'ast> Parser<'ast> {
         })
     }
 
+    /// The head of a `for-in` or a `for-of` statement has exactly one target, and no initial value
+    fn for_target(&mut self, init: &ForInit<'ast>) {
+        let valid = match *init {
+            ForInit::Declaration(ref declaration) => match declaration.declarators.only_element() {
+                Some(declarator) => declarator.init.is_none(),
+                None             => false,
+            },
+            ForInit::Expression(ref expression) => expression.is_lvalue(),
+        };
+
+        if !valid {
+            self.error::<()>();
+        }
+    }
+
     fn for_in_statement(&mut self, start: u32, left: Node<'ast, ForInit<'ast>>) -> StatementNode<'ast> {
         let right = self.expression::<ANY>();
 
-- 
2.43.0


From 44a9b633c7ba718c73085c5b0e29cf2f4eb7929d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:46 +0000
Subject: [PATCH 58/69] fix: a destructuring pattern is not wrapped in
 parentheses (C06)

---
 ratel/src/parser/nested.rs    | 3 ++-
 ratel/src/parser/statement.rs | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index d322d00..1e5572a 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -366,7 +366,8 @@ macro_rules! assign {
     ($name:ident, $check:ident => $op:ident) => {
         const $name: NestedHandler = {
             fn handler<'ast>(par: &mut Parser<'ast>, start: u32, left: ExpressionNode<'ast>) -> ExpressionNode<'ast> {
-                if left.$check() {
+                // A destructuring pattern can not be wrapped in parentheses
+                if left.$check() && (left.start == start || left.is_reference()) {
                     par.lexer.consume();
                 } else {
                     par.error::<()>();
diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index dfbff3f..21fc16f 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -542,6 +542,11 @@ impl<'ast> Parser<'ast> {
                     _ => self.nested_expression::<ANY>(start, init),
                 };
 
+                // A destructuring pattern can not be wrapped in parentheses
+                if init.start != start && !init.is_reference() && self.lexer.token != Semicolon {
+                    self.error::<()>();
+                }
+
                 Some(self.alloc_at_loc(init.start, init.end, init))
             },
         };
-- 
2.43.0


From aae7f43b5dbb25f2409542fd19d62df0baf9763a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:26 +0000
Subject: [PATCH 59/69] fix: a setter takes exactly one parameter (C06)

---
 ratel/src/parser/function.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ratel/src/parser/function.rs b/ratel/src/parser/function.rs
index 0d3ad92..2e11a23 100644
--- a/ratel/src/parser/function.rs
+++ b/ratel/src/parser/function.rs
@@ -165,7 +165,17 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
         let end;
         let member = match par.lexer.token {
             ParenOpen => {
-                let value = Node::parse(par);
+                let value: Node<Function<_>> = Node::parse(par);
+
+                if let MethodKind::Set = kind {
+                    // A setter takes exactly one parameter
+                    let param = value.params.only_element().map(|param| param.item);
+
+                    match param {
+                        None | Some(Pattern::RestElement { .. }) => return par.error(),
+                        _                                        => {},
+                    }
+                }
 
                 end = value.end;
 
-- 
2.43.0


From c8c6ec19012e83963c360f08992ce0db87214f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:03 +0000
Subject: [PATCH 60/69] fix: class fields end with a semicolon or a line (C06)

---
 ratel/src/parser/function.rs  | 3 +++
 ratel/src/parser/statement.rs | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/ratel/src/parser/function.rs b/ratel/src/parser/function.rs
index 2e11a23..c70e21f 100644
--- a/ratel/src/parser/function.rs
+++ b/ratel/src/parser/function.rs
@@ -193,6 +193,9 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
 
                 end = par.lexer.prev_end();
 
+                // The next member starts after a semicolon or on a new line
+                par.expect_semicolon();
+
                 ClassMember::Literal {
                     is_static,
                     key,
diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 21fc16f..72c6623 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -164,7 +164,7 @@ impl<'ast> Parser<'ast> {
     /// Expect a semicolon to terminate a statement. Will assume a semicolon
     /// following the ASI rules.
     #[inline]
-    fn expect_semicolon(&mut self) {
+    pub fn expect_semicolon(&mut self) {
         match self.asi() {
             Asi::ExplicitSemicolon => self.lexer.consume(),
             Asi::ImplicitSemicolon => {},
-- 
2.43.0


From 148e3f6a6baf1b29f8d1ddad9b5233c0985607b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:07 +0000
Subject: [PATCH 61/69] fix: only names are declared by an object pattern (C06)

---
 ratel/src/ast/expression.rs  | 47 ++++++++++++++++++++++++++++++++++++
 ratel/src/parser/function.rs |  5 ++++
 2 files changed, 52 insertions(+)

diff --git a/ratel/src/ast/expression.rs b/ratel/src/ast/expression.rs
index 3de3151..dbf4ab6 100644
--- a/ratel/src/ast/expression.rs
+++ b/ratel/src/ast/expression.rs
@@ -195,6 +195,22 @@ impl_from! {
     ClassExpression<'ast> => Class
 }
 
+impl<'ast> Property<'ast> {
+    /// Can be a property of a destructuring pattern when names are declared
+    #[inline]
+    pub fn is_binding(&self) -> bool {
+        match *self {
+            Property::Shorthand(_)          => true,
+            Property::Literal { value, .. } => value.is_binding_target(),
+            Property::Method { .. }         => false,
+            Property::Spread { argument }   => match argument.item {
+                Expression::Identifier(_) => true,
+                _                         => false,
+            },
+        }
+    }
+}
+
 impl<'ast> Expression<'ast> {
     #[inline]
     pub fn binding_power(&self) -> u8 {
@@ -324,6 +340,37 @@ impl<'ast> Expression<'ast> {
         }
     }
 
+    /// Can be on the left side of the `=` operator when names are declared:
+    /// a name, or a destructuring pattern of names
+    #[inline]
+    pub fn is_binding(&self) -> bool {
+        use self::Expression::*;
+
+        match *self {
+            Identifier(_)                       => true,
+            Object(ObjectExpression { body })   => body.iter().all(|property| property.is_binding()),
+            Array(ArrayExpression { body })     => body.iter().all(|element| match element.item {
+                Void                                  => true,
+                Spread(SpreadExpression { argument }) => argument.is_binding(),
+                _                                     => element.is_binding_target(),
+            }),
+            _ => false,
+        }
+    }
+
+    /// Can be an element of a declared pattern, optionally with a default value
+    #[inline]
+    fn is_binding_target(&self) -> bool {
+        match *self {
+            Expression::Binary(BinaryExpression {
+                operator: OperatorKind::Assign,
+                left,
+                ..
+            }) => left.is_binding(),
+            _ => self.is_binding(),
+        }
+    }
+
     /// Can be on the left side of the `=` operator, which includes destructuring patterns
     #[inline]
     pub fn is_lvalue(&self) -> bool {
diff --git a/ratel/src/parser/function.rs b/ratel/src/parser/function.rs
index c70e21f..594d676 100644
--- a/ratel/src/parser/function.rs
+++ b/ratel/src/parser/function.rs
@@ -271,6 +271,11 @@ impl<'ast> Parser<'ast> {
     fn pattern_object(&mut self) -> Node<'ast, Pattern<'ast>> {
         let start = self.lexer.start_then_consume();
         let properties = self.property_list();
+
+        if !properties.iter().all(|property| property.is_binding()) {
+            self.error::<()>();
+        }
+
         let end = self.close(BraceClose);
 
         self.alloc_at_loc(start, end, Pattern::ObjectPattern {
-- 
2.43.0


From 3532be71d761c7ec1e927c061715b78bfb2eb9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:49 +0000
Subject: [PATCH 62/69] fix: nothing follows the rest of a destructuring
 pattern (C06)

---
 ratel/src/ast/expression.rs  | 26 ++++++++++++++++++++++----
 ratel/src/parser/function.rs |  3 ++-
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/ratel/src/ast/expression.rs b/ratel/src/ast/expression.rs
index dbf4ab6..68abfb8 100644
--- a/ratel/src/ast/expression.rs
+++ b/ratel/src/ast/expression.rs
@@ -211,6 +211,24 @@ impl<'ast> Property<'ast> {
     }
 }
 
+/// Nothing follows a rest element of an array pattern
+#[inline]
+fn rest_element_is_last(body: ExpressionList) -> bool {
+    body.iter().skip_while(|element| match element.item {
+        Expression::Spread(_) => false,
+        _                     => true,
+    }).skip(1).next().is_none()
+}
+
+/// Nothing follows a rest property of an object pattern
+#[inline]
+pub fn rest_property_is_last(body: NodeList<Property>) -> bool {
+    body.iter().skip_while(|property| match property.item {
+        Property::Spread { .. } => false,
+        _                       => true,
+    }).skip(1).next().is_none()
+}
+
 impl<'ast> Expression<'ast> {
     #[inline]
     pub fn binding_power(&self) -> u8 {
@@ -348,8 +366,8 @@ impl<'ast> Expression<'ast> {
 
         match *self {
             Identifier(_)                       => true,
-            Object(ObjectExpression { body })   => body.iter().all(|property| property.is_binding()),
-            Array(ArrayExpression { body })     => body.iter().all(|element| match element.item {
+            Object(ObjectExpression { body })   => rest_property_is_last(body) && body.iter().all(|property| property.is_binding()),
+            Array(ArrayExpression { body })     => rest_element_is_last(body) && body.iter().all(|element| match element.item {
                 Void                                  => true,
                 Spread(SpreadExpression { argument }) => argument.is_binding(),
                 _                                     => element.is_binding_target(),
@@ -377,13 +395,13 @@ impl<'ast> Expression<'ast> {
         use self::Expression::*;
 
         match *self {
-            Object(ObjectExpression { body }) => body.iter().all(|property| match property.item {
+            Object(ObjectExpression { body }) => rest_property_is_last(body) && body.iter().all(|property| match property.item {
                 Property::Shorthand(_)         => true,
                 Property::Literal { value, .. } => value.is_target(),
                 Property::Method { .. }        => false,
                 Property::Spread { argument }  => argument.is_reference(),
             }),
-            Array(ArrayExpression { body }) => body.iter().all(|element| match element.item {
+            Array(ArrayExpression { body }) => rest_element_is_last(body) && body.iter().all(|element| match element.item {
                 Void                                     => true,
                 Spread(SpreadExpression { argument }) => argument.is_lvalue(),
                 _                                        => element.is_target(),
diff --git a/ratel/src/parser/function.rs b/ratel/src/parser/function.rs
index 594d676..cfcad42 100644
--- a/ratel/src/parser/function.rs
+++ b/ratel/src/parser/function.rs
@@ -3,6 +3,7 @@ use parser::{Parser, Parse, B0, B15};
 use lexer::Token::*;
 use ast::{Node, NodeList, EmptyName, OptionalName, MandatoryName, Name};
 use ast::{MethodKind, Pattern, Function, Class, ClassMember, PropertyKey};
+use ast::expression::rest_property_is_last;
 
 impl<'ast> Parse<'ast> for EmptyName {
     type Output = Self;
@@ -272,7 +273,7 @@ impl<'ast> Parser<'ast> {
         let start = self.lexer.start_then_consume();
         let properties = self.property_list();
 
-        if !properties.iter().all(|property| property.is_binding()) {
+        if !rest_property_is_last(properties) || !properties.iter().all(|property| property.is_binding()) {
             self.error::<()>();
         }
 
-- 
2.43.0


From d85978efc7f2e691ad68ff07cccfd89d2301ad7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:51 +0000
Subject: [PATCH 63/69] fix: a constructor is not a unary operation (C06)

---
 ratel/src/parser/expression.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 53f9c19..b267ba2 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -360,9 +360,18 @@ impl<'ast> Parser<'ast> {
 
     #[inline]
     pub fn new_expression(&mut self) -> PrefixExpression<'ast> {
+        let start = self.lexer.start();
         let callee = self.expression::<MEM>();
         let end = self.lexer.prev_end();
 
+        // The only operator the constructor can start with is another `new`,
+        // unless it is wrapped in parentheses
+        match callee.item {
+            Expression::Prefix(PrefixExpression { operator: OperatorKind::New, .. }) => {},
+            Expression::Prefix(_) if callee.start == start => self.error(),
+            _ => {},
+        }
+
         let operand = match (self.lexer.token, callee.item) {
             (ParenOpen, _) => {
                 let start = self.lexer.start_then_consume();
-- 
2.43.0


From 8508bc8a8c44eccead3aa4c6324b4c286fb17c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:37 +0000
Subject: [PATCH 64/69] fix: only operands are called or accessed, in every
 context (C06)

---
 ratel/src/parser/nested.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 1e5572a..e5772ce 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -481,7 +481,11 @@ impl<'ast> Parser<'ast> {
         let mut arrow = false;
         let mut operand = match left.item {
             Expression::Prefix(PrefixExpression { operator, .. }) => operator == New || left.start != start,
-            _ => true,
+            Expression::Postfix(_)     |
+            Expression::Binary(_)      |
+            Expression::Conditional(_) |
+            Expression::Spread(_)      => left.start != start,
+            _                          => true,
         };
 
         while let Some(handler) = B::handler(self.asi(), self.lexer.token) {
-- 
2.43.0


From 55d29ec7a53b80fe4e55d4598aba77ee9edaf831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:16 +0000
Subject: [PATCH 65/69] fix: a body is a statement, not a lexical declaration
 (C06)

---
 ratel/src/parser/statement.rs | 38 +++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 72c6623..4f50588 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -161,6 +161,28 @@ impl<'ast> Parser<'ast> {
         unsafe { (*(&STMT_HANDLERS as *const StatementHandler).offset(self.lexer.token as isize))(self) }
     }
 
+    /// The body of another statement. This can not be a declaration, other than
+    /// one of a `var` or a function
+    #[inline]
+    fn body_statement(&mut self) -> StatementNode<'ast> {
+        match self.lexer.token {
+            DeclarationLet | DeclarationConst | Class => self.error::<()>(),
+            _                                         => {},
+        }
+
+        self.statement()
+    }
+
+    /// The body of a loop. This can not be a declaration, other than one of a `var`
+    #[inline]
+    fn loop_body(&mut self) -> StatementNode<'ast> {
+        if self.lexer.token == Function {
+            self.error::<()>();
+        }
+
+        self.body_statement()
+    }
+
     /// Expect a semicolon to terminate a statement. Will assume a semicolon
     /// following the ASI rules.
     #[inline]
@@ -210,7 +232,7 @@ impl<'ast> Parser<'ast> {
         if self.lexer.token == Colon {
             self.lexer.consume();
 
-            let body = self.statement();
+            let body = self.body_statement();
 
             return self.alloc_at_loc(start, body.end, LabeledStatement {
                 label,
@@ -455,12 +477,12 @@ impl<'ast> Parser<'ast> {
         let test = self.expression::<ANY>();
         expect!(self, ParenClose);
 
-        let consequent = self.statement();
+        let consequent = self.body_statement();
 
         let (alternate, end) = match self.lexer.token {
             Else => {
                 self.lexer.consume();
-                let alternate = self.statement();
+                let alternate = self.body_statement();
                 (Some(alternate), alternate.end)
             },
             _ => (None, consequent.end)
@@ -480,7 +502,7 @@ impl<'ast> Parser<'ast> {
         let test = self.expression::<ANY>();
         expect!(self, ParenClose);
 
-        let body = self.statement();
+        let body = self.loop_body();
 
         self.alloc_at_loc(start, body.end, WhileStatement {
             test,
@@ -491,7 +513,7 @@ impl<'ast> Parser<'ast> {
     #[inline]
     pub fn do_statement(&mut self) -> StatementNode<'ast> {
         let start = self.lexer.start_then_consume();
-        let body = self.statement();
+        let body = self.loop_body();
         expect!(self, While);
         expect!(self, ParenOpen);
         let test = self.expression::<ANY>();
@@ -593,7 +615,7 @@ impl<'ast> Parser<'ast> {
             }
         };
 
-        let body = self.statement();
+        let body = self.loop_body();
 
         self.alloc_at_loc(start, body.end, ForStatement {
             init,
@@ -623,7 +645,7 @@ impl<'ast> Parser<'ast> {
 
         expect!(self, ParenClose);
 
-        let body = self.statement();
+        let body = self.loop_body();
 
         self.alloc_at_loc(start, body.end, ForInStatement {
             left,
@@ -637,7 +659,7 @@ impl<'ast> Parser<'ast> {
 
         expect!(self, ParenClose);
 
-        let body = self.statement();
+        let body = self.loop_body();
 
         self.alloc_at_loc(start, body.end, ForOfStatement {
             left,
-- 
2.43.0


From 025096f5e702cfa33b9fa4d10c7b75745ba1ff52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:17 +0000
Subject: [PATCH 66/69] fix: class fields are no accessors (C06)

---
 ratel/src/parser/function.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ratel/src/parser/function.rs b/ratel/src/parser/function.rs
index cfcad42..f22422c 100644
--- a/ratel/src/parser/function.rs
+++ b/ratel/src/parser/function.rs
@@ -188,7 +188,12 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
                 }
             },
             OperatorAssign => {
-                par.lexer.consume();
+                // Fields are neither accessors nor constructors
+                if let MethodKind::Method = kind {
+                    par.lexer.consume();
+                } else {
+                    return par.error();
+                }
 
                 let expression = par.expression::<B0>();
 
-- 
2.43.0


From ce3400b83e15244d6323811fc9041e52ab7ad945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:19 +0000
Subject: [PATCH 67/69] fix: a super class is no operation (C06)

---
 ratel/src/parser/function.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ratel/src/parser/function.rs b/ratel/src/parser/function.rs
index f22422c..91e8073 100644
--- a/ratel/src/parser/function.rs
+++ b/ratel/src/parser/function.rs
@@ -2,7 +2,8 @@ use toolshed::list::ListBuilder;
 use parser::{Parser, Parse, B0, B15};
 use lexer::Token::*;
 use ast::{Node, NodeList, EmptyName, OptionalName, MandatoryName, Name};
-use ast::{MethodKind, Pattern, Function, Class, ClassMember, PropertyKey};
+use ast::{MethodKind, Pattern, Function, Class, ClassMember, PropertyKey, Expression, OperatorKind};
+use ast::expression::PrefixExpression;
 use ast::expression::rest_property_is_last;
 
 impl<'ast> Parse<'ast> for EmptyName {
@@ -232,7 +233,19 @@ impl<'ast, N> Parse<'ast> for Class<'ast, N> where
             Extends => {
                 par.lexer.consume();
 
-                Some(par.expression::<B15>())
+                let start = par.lexer.start();
+                let super_class = par.expression::<B15>();
+
+                // Operations have to be wrapped in parentheses
+                match super_class.item {
+                    Expression::Prefix(PrefixExpression { operator: OperatorKind::New, .. }) => {},
+                    Expression::Prefix(_)  |
+                    Expression::Postfix(_) |
+                    Expression::Arrow(_) if super_class.start == start => par.error(),
+                    _ => {},
+                }
+
+                Some(super_class)
             },
             _ => None
         };
-- 
2.43.0


From 8cc7eff5d27dbff48cf60bc16df4c78a1b2f6509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:43 +0000
Subject: [PATCH 68/69] fix: what ends in an arrow function is no operand (C05,
 C06)

---
 ratel/src/parser/nested.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index e5772ce..1863c18 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -478,7 +478,10 @@ impl<'ast> Parser<'ast> {
     where
         B: BindingPower
     {
-        let mut arrow = false;
+        let mut complete = match left.item {
+            Expression::Spread(_) => true,
+            _                     => false,
+        };
         let mut operand = match left.item {
             Expression::Prefix(PrefixExpression { operator, .. }) => operator == New || left.start != start,
             Expression::Postfix(_)     |
@@ -491,9 +494,9 @@ impl<'ast> Parser<'ast> {
         while let Some(handler) = B::handler(self.asi(), self.lexer.token) {
             let token = self.lexer.token;
 
-            // An arrow function can only be an operand of a sequence,
-            // unless it is wrapped in parentheses
-            if arrow && token != Comma {
+            // An arrow function, and what ends in one, can only be an operand
+            // of a sequence, unless it is wrapped in parentheses
+            if complete && token != Comma {
                 break;
             }
 
@@ -509,7 +512,13 @@ impl<'ast> Parser<'ast> {
             }
 
             left = handler(self, start, left);
-            arrow = token == OperatorFatArrow;
+            complete = match left.item {
+                Expression::Arrow(_)       |
+                Expression::Conditional(_) |
+                Expression::Sequence(_)    => true,
+                Expression::Binary(BinaryExpression { operator, .. }) => operator.assignment(),
+                _ => false,
+            };
             operand = suffix;
         }
 
-- 
2.43.0


From 012b94a4ad607dc8e74193810b022f144d87df0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:03 +0000
Subject: [PATCH 69/69] fix: a second default clause in a switch statement is
 an error

---
 ratel/src/parser/statement.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 4f50588..927b199 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -3,7 +3,7 @@ use toolshed::list::{ListBuilder, GrowableList};
 use parser::{Parser, Parse, ANY, B0, B15};
 use lexer::Token::*;
 use lexer::Asi;
-use ast::{Node, NodeList, Declarator, DeclarationKind};
+use ast::{Node, NodeList, Block, Declarator, DeclarationKind};
 use ast::{Statement, StatementNode, Expression, ExpressionNode, Class, Function, Pattern};
 use ast::statement::{ThrowStatement, ContinueStatement, BreakStatement, ReturnStatement};
 use ast::statement::{TryStatement, CatchClause, IfStatement, WhileStatement, DoStatement};
@@ -676,9 +676,30 @@ impl<'ast> Parser<'ast> {
 
         expect!(self, ParenClose);
 
-        let cases = self.block();
+        let block_start = self.lexer.start();
 
-        self.alloc_at_loc(start, cases.end, SwitchStatement {
+        expect!(self, BraceOpen);
+
+        let builder = GrowableList::new();
+        let mut has_default = false;
+
+        while self.lexer.token != BraceClose && self.lexer.token != EndOfProgram {
+            if self.lexer.token == Default {
+                // There is one default clause at most
+                if has_default {
+                    self.error::<()>();
+                    break;
+                }
+                has_default = true;
+            }
+
+            builder.push(self.arena, SwitchCase::parse(self));
+        }
+
+        let end = self.close(BraceClose);
+        let cases = self.alloc_at_loc(block_start, end, Block { body: builder.as_list() });
+
+        self.alloc_at_loc(start, end, SwitchStatement {
             discriminant,
             cases,
         })
-- 
2.43.0

