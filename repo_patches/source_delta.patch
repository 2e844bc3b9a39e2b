From 67e200508dc540da2faee71a467d826711c3f8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 01/28] fix: drop pending spaces at a line break even at the
 start of the output

---
 src/fmt/formatter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index 922ba69..d25ea33 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -109,23 +109,23 @@ impl<'a> Formatter<'a> {
     }
 
     fn push(&mut self) {
+        self.spaces = 0;
+
         self.line = match self.line {
             Whitespace::Initial => return,
             Whitespace::Line => return,
             _ => Whitespace::Push,
         };
-
-        self.spaces = 0;
     }
 
     /// Push a new line.
     fn line(&mut self) {
+        self.spaces = 0;
+
         self.line = match self.line {
             Whitespace::Initial => return,
             _ => Whitespace::Line,
         };
-
-        self.spaces = 0;
     }
 
     /// Push a space.
-- 
2.43.0


From 190d1e6ffb24c50a64a8ff59f54ab37e59b4982d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 02/28] fix: escape form feed and vertical tab in C family,
 JavaScript and Dart strings

---
 src/lang/dart/mod.rs | 4 ++--
 src/lang/js.rs       | 4 ++--
 src/lang/mod.rs      | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lang/dart/mod.rs b/src/lang/dart/mod.rs
index 077f932..cf2d765 100644
--- a/src/lang/dart/mod.rs
+++ b/src/lang/dart/mod.rs
@@ -100,7 +100,7 @@ impl_lang! {
                     // backspace
                     '\u{0008}' => out.write_str("\\b")?,
                     // form feed
-                    '\u{0012}' => out.write_str("\\f")?,
+                    '\u{000c}' => out.write_str("\\f")?,
                     // new line
                     '\n' => out.write_str("\\n")?,
                     // carriage return
@@ -108,7 +108,7 @@ impl_lang! {
                     // horizontal tab
                     '\t' => out.write_str("\\t")?,
                     // vertical tab
-                    '\u{0011}' => out.write_str("\\v")?,
+                    '\u{000b}' => out.write_str("\\v")?,
                     // Note: only relevant if we were to use single-quoted strings.
                     // '\'' => out.write_str("\\'")?,
                     '"' => out.write_str("\\\"")?,
diff --git a/src/lang/js.rs b/src/lang/js.rs
index 6d129e4..182a5ca 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -129,7 +129,7 @@ impl_lang! {
                     // backspace
                     '\u{0008}' => out.write_str("\\b")?,
                     // form feed
-                    '\u{0012}' => out.write_str("\\f")?,
+                    '\u{000c}' => out.write_str("\\f")?,
                     // new line
                     '\n' => out.write_str("\\n")?,
                     // carriage return
@@ -137,7 +137,7 @@ impl_lang! {
                     // horizontal tab
                     '\t' => out.write_str("\\t")?,
                     // vertical tab
-                    '\u{0011}' => out.write_str("\\v")?,
+                    '\u{000b}' => out.write_str("\\v")?,
                     // null character.
                     '\0' => out.write_str("\\0")?,
                     // Note: only relevant if we were to use single-quoted strings.
diff --git a/src/lang/mod.rs b/src/lang/mod.rs
index 85d2852..88c80aa 100644
--- a/src/lang/mod.rs
+++ b/src/lang/mod.rs
@@ -187,7 +187,7 @@ pub fn c_family_write_quoted(out: &mut fmt::Formatter, input: &str) -> fmt::Resu
             // backspace
             '\u{0008}' => out.write_str("\\b")?,
             // form feed
-            '\u{0012}' => out.write_str("\\f")?,
+            '\u{000c}' => out.write_str("\\f")?,
             // new line
             '\n' => out.write_str("\\n")?,
             // carriage return
@@ -195,7 +195,7 @@ pub fn c_family_write_quoted(out: &mut fmt::Formatter, input: &str) -> fmt::Resu
             // horizontal tab
             '\t' => out.write_str("\\t")?,
             // vertical tab
-            '\u{0011}' => out.write_str("\\v")?,
+            '\u{000b}' => out.write_str("\\v")?,
             '\'' => out.write_str("\\'")?,
             '"' => out.write_str("\\\"")?,
             '\\' => out.write_str("\\\\")?,
-- 
2.43.0


From e6b751bf6f8a4a68503efd6d97e6f1bf3a700af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 03/28] fix: escape backspace and form feed in Java strings

---
 src/lang/java/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lang/java/mod.rs b/src/lang/java/mod.rs
index 265bee9..a4e195a 100644
--- a/src/lang/java/mod.rs
+++ b/src/lang/java/mod.rs
@@ -44,10 +44,10 @@ impl_lang! {
             for c in input.chars() {
                 match c {
                     '\t' => out.write_str("\\t")?,
-                    '\u{0007}' => out.write_str("\\b")?,
+                    '\u{0008}' => out.write_str("\\b")?,
                     '\n' => out.write_str("\\n")?,
                     '\r' => out.write_str("\\r")?,
-                    '\u{0014}' => out.write_str("\\f")?,
+                    '\u{000c}' => out.write_str("\\f")?,
                     '\'' => out.write_str("\\'")?,
                     '"' => out.write_str("\\\"")?,
                     '\\' => out.write_str("\\\\")?,
-- 
2.43.0


From b20b81dc344923011f9ea367ee7bf03cd8516604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 04/28] fix: do not let C# \x escapes swallow following
 hexadecimal digits

---
 src/lang/csharp/mod.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/lang/csharp/mod.rs b/src/lang/csharp/mod.rs
index 5606b3a..c862565 100644
--- a/src/lang/csharp/mod.rs
+++ b/src/lang/csharp/mod.rs
@@ -45,7 +45,24 @@ impl_lang! {
 
         fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
             // From: https://csharpindepth.com/articles/Strings
-            super::c_family_write_quoted(out, input)
+            let mut it = input.chars().peekable();
+
+            while let Some(c) = it.next() {
+                let next = it.peek().copied();
+
+                // NB: `\x` takes up to four hexadecimal digits in C#, so it can't
+                // be used if another digit might follow.
+                if c.is_ascii_control()
+                    && !('\u{0007}'..='\r').contains(&c)
+                    && next.map_or(true, |c| c.is_ascii_hexdigit())
+                {
+                    write!(out, "\\u{:04x}", c as u32)?;
+                } else {
+                    super::c_family_write_quoted(out, c.encode_utf8(&mut [0; 4]))?;
+                }
+            }
+
+            Ok(())
         }
 
         fn format_file(
-- 
2.43.0


From e32705ffe0fd30f131e259ba094c43ac451f802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 05/28] fix: escape control characters in C strings so that
 they denote the same text

---
 src/lang/c.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/lang/c.rs b/src/lang/c.rs
index 15e0b7d..19ccad4 100644
--- a/src/lang/c.rs
+++ b/src/lang/c.rs
@@ -20,7 +20,32 @@ impl_lang! {
         type Item = Import;
 
         fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
-            super::c_family_write_quoted(out, input)
+            let mut it = input.chars().peekable();
+
+            while let Some(c) = it.next() {
+                let next = it.peek().copied();
+
+                match c {
+                    // NB: universal character names below U+00A0 are not
+                    // permitted in C.
+                    '\u{0080}'..='\u{009f}' => {
+                        for b in c.encode_utf8(&mut [0; 4]).bytes() {
+                            write!(out, "\\{:03o}", b)?;
+                        }
+                    }
+                    // NB: `\x` takes any number of hexadecimal digits, so it can't
+                    // be used if another digit might follow.
+                    c if c.is_ascii_control()
+                        && !('\u{0007}'..='\r').contains(&c)
+                        && next.map_or(true, |c| c.is_ascii_hexdigit()) =>
+                    {
+                        write!(out, "\\{:03o}", c as u32)?;
+                    }
+                    c => super::c_family_write_quoted(out, c.encode_utf8(&mut [0; 4]))?,
+                }
+            }
+
+            Ok(())
         }
 
         fn format_file(
-- 
2.43.0


From 3bb51226b01050d857cea2ef9338577ec75c492e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 06/28] fix: do not escape single quotes in Go strings

---
 src/lang/go.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lang/go.rs b/src/lang/go.rs
index 82c38db..9d6c189 100644
--- a/src/lang/go.rs
+++ b/src/lang/go.rs
@@ -66,7 +66,15 @@ impl_lang! {
 
         fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
             // From: https://golang.org/src/strconv/quote.go
-            super::c_family_write_quoted(out, input)
+            for c in input.chars() {
+                match c {
+                    // NB: `\'` is only permitted in rune literals.
+                    '\'' => out.write_char(c)?,
+                    c => super::c_family_write_quoted(out, c.encode_utf8(&mut [0; 4]))?,
+                }
+            }
+
+            Ok(())
         }
 
         fn format_file(
-- 
2.43.0


From 5d0b06eb3c2070b0cde73b94993ae099ea7557ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 07/28] fix: use the escapes Nix strings understand

---
 src/lang/nix.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/lang/nix.rs b/src/lang/nix.rs
index 9e71ad6..449fe47 100644
--- a/src/lang/nix.rs
+++ b/src/lang/nix.rs
@@ -21,7 +21,21 @@ impl_lang! {
         type Item = Import;
 
         fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
-            super::c_family_write_quoted(out, input)
+            // From: https://nixos.org/manual/nix/stable/language/values.html#type-string
+            for c in input.chars() {
+                match c {
+                    '\n' => out.write_str("\\n")?,
+                    '\r' => out.write_str("\\r")?,
+                    '\t' => out.write_str("\\t")?,
+                    '"' => out.write_str("\\\"")?,
+                    '\\' => out.write_str("\\\\")?,
+                    // NB: `${` starts an interpolation.
+                    '$' => out.write_str("\\$")?,
+                    c => out.write_char(c)?,
+                }
+            }
+
+            Ok(())
         }
 
         fn format_file(
-- 
2.43.0


From 9ca548ff95034418474269a9f63cf5660e887ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 08/28] fix: do not write \0 in JavaScript strings if a digit
 might follow

---
 src/lang/js.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lang/js.rs b/src/lang/js.rs
index 182a5ca..7cf2ce3 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -124,7 +124,11 @@ impl_lang! {
         fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
             // Reference: https://mathiasbynens.be/notes/javascript-escapes
 
-            for c in input.chars() {
+            let mut it = input.chars().peekable();
+
+            while let Some(c) = it.next() {
+                let next = it.peek().copied();
+
                 match c {
                     // backspace
                     '\u{0008}' => out.write_str("\\b")?,
@@ -139,7 +143,8 @@ impl_lang! {
                     // vertical tab
                     '\u{000b}' => out.write_str("\\v")?,
                     // null character.
-                    '\0' => out.write_str("\\0")?,
+                    // NB: not permitted if it might be followed by a digit.
+                    '\0' if next.map_or(false, |c| !c.is_ascii_digit()) => out.write_str("\\0")?,
                     // Note: only relevant if we were to use single-quoted strings.
                     // '\'' => out.write_str("\\'")?,
                     '"' => out.write_str("\\\"")?,
-- 
2.43.0


From 17af69840ea35cce7e3c8e695bda86714716e5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 09/28] fix: escape backticks and ${ in JavaScript strings

---
 src/lang/js.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lang/js.rs b/src/lang/js.rs
index 7cf2ce3..a13b588 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -148,6 +148,9 @@ impl_lang! {
                     // Note: only relevant if we were to use single-quoted strings.
                     // '\'' => out.write_str("\\'")?,
                     '"' => out.write_str("\\\"")?,
+                    // NB: these would end or interpolate a template literal.
+                    '`' => out.write_str("\\`")?,
+                    '$' if next.map_or(true, |c| c == '{') => out.write_str("\\$")?,
                     '\\' => out.write_str("\\\\")?,
                     c if !c.is_control() => out.write_char(c)?,
                     c if (c as u32) < 0x100 => {
-- 
2.43.0


From 25fbdcc179854a395c3f45e734d078310f28e635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 10/28] fix: format quotes nested more than two levels deep

---
 src/fmt/formatter.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index d25ea33..e61f6af 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -188,13 +188,15 @@ impl<'a> Formatter<'a> {
                     L::write_quoted(self, &buf)?;
                     buf.clear();
                 }
-                Item::CloseQuote if end_on_close_quote => {
-                    return Ok(());
-                }
                 Item::CloseQuote if *in_quote => {
                     *in_quote = false;
                     L::close_quote(self, config, format, mem::take(has_eval))?;
                 }
+                // NB: only ends the interior quote once everything which has been
+                // opened inside of it has been closed.
+                Item::CloseQuote if end_on_close_quote && !*end_on_eval => {
+                    return Ok(());
+                }
                 Item::Lang(_, lang) => {
                     lang.format(self, config, format)?;
                 }
-- 
2.43.0


From 03faafa7832be8ad02103a9f1ec5e55350126f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 11/28] fix: only interpolate identifiers using the short form
 in Dart

---
 src/lang/dart/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lang/dart/mod.rs b/src/lang/dart/mod.rs
index cf2d765..7713018 100644
--- a/src/lang/dart/mod.rs
+++ b/src/lang/dart/mod.rs
@@ -67,7 +67,18 @@ impl_lang! {
             _format: &Self::Format,
             literal: &str,
         ) -> fmt::Result {
-            write!(out, "${}", literal)?;
+            // NB: the short form only works for simple identifiers.
+            let is_identifier = literal
+                .chars()
+                .enumerate()
+                .all(|(i, c)| c == '_' || c.is_ascii_alphabetic() || (i > 0 && c.is_ascii_digit()));
+
+            if literal.is_empty() || !is_identifier {
+                write!(out, "${{{}}}", literal)?;
+            } else {
+                write!(out, "${}", literal)?;
+            }
+
             Ok(())
         }
 
-- 
2.43.0


From d7c4ce38b4002a19bd8a1856cbd75cb1d5d7928e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 12/28] fix: delimit an interpolation which is followed by
 identifier characters

---
 src/fmt/cursor.rs    | 13 +++++++++++++
 src/fmt/formatter.rs |  5 ++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/fmt/cursor.rs b/src/fmt/cursor.rs
index 5dfc8dc..11c1f33 100644
--- a/src/fmt/cursor.rs
+++ b/src/fmt/cursor.rs
@@ -109,6 +109,19 @@ where
         }
     }
 
+    /// Test if what is written by the item at the given position might be taken
+    /// as the continuation of an identifier that comes before it.
+    pub(super) fn continues_identifier(&self, at: usize) -> bool {
+        match self.items.get(at) {
+            Some(Item::Literal(s)) => match s.chars().next() {
+                Some(c) => c == '_' || c.is_ascii_alphanumeric() || !c.is_ascii(),
+                None => true,
+            },
+            Some(Item::Lang(..) | Item::Register(..)) => true,
+            _ => false,
+        }
+    }
+
     #[inline]
     pub(super) fn parse<P>(&mut self) -> fmt::Result<&P::Output>
     where
diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index e61f6af..b98646c 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -214,7 +214,10 @@ impl<'a> Formatter<'a> {
                     self.indentation(*n);
                 }
                 Item::OpenEval if *in_quote => {
-                    if cursor.peek::<cursor::Literal>() && cursor.peek1::<cursor::CloseEval>() {
+                    if cursor.peek::<cursor::Literal>()
+                        && cursor.peek1::<cursor::CloseEval>()
+                        && !cursor.continues_identifier(2)
+                    {
                         let literal = cursor.parse::<cursor::Literal>()?;
                         L::string_eval_literal(self, config, format, literal)?;
                         cursor.parse::<cursor::CloseEval>()?;
-- 
2.43.0


From a061bab61ce9610959b8c7ba956a6ee8a11d1e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:22 +0000
Subject: [PATCH 13/28] fix: do not reserve the upper size hint when extending
 token streams

---
 src/tokens/tokens.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tokens/tokens.rs b/src/tokens/tokens.rs
index 3e5f81e..d3cfc7d 100644
--- a/src/tokens/tokens.rs
+++ b/src/tokens/tokens.rs
@@ -203,8 +203,8 @@ where
         I: IntoIterator<Item = Item<L>>,
     {
         let it = it.into_iter();
-        let (low, high) = it.size_hint();
-        self.items.reserve(high.unwrap_or(low));
+        let (low, _) = it.size_hint();
+        self.items.reserve(low);
 
         for item in it {
             self.item(item);
@@ -1001,8 +1001,8 @@ where
 {
     fn from_iter<I: IntoIterator<Item = &'a Item<L>>>(iter: I) -> Self {
         let it = iter.into_iter();
-        let (low, high) = it.size_hint();
-        let mut tokens = Self::with_capacity(high.unwrap_or(low));
+        let (low, _) = it.size_hint();
+        let mut tokens = Self::with_capacity(low);
         tokens.extend(it.cloned());
         tokens
     }
@@ -1014,8 +1014,8 @@ where
 {
     fn from_iter<I: IntoIterator<Item = Item<L>>>(iter: I) -> Self {
         let it = iter.into_iter();
-        let (low, high) = it.size_hint();
-        let mut tokens = Self::with_capacity(high.unwrap_or(low));
+        let (low, _) = it.size_hint();
+        let mut tokens = Self::with_capacity(low);
         tokens.extend(it);
         tokens
     }
-- 
2.43.0


From bda1ae4cf34ad60728ceef26f31f3744f4c45fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 14/28] fix: refuse to end an evaluation while a quote inside
 of it is open

---
 src/fmt/formatter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index b98646c..f6aa3c6 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -232,7 +232,7 @@ impl<'a> Formatter<'a> {
                     }
                 }
                 // Eval are only allowed within quotes.
-                Item::CloseEval if *end_on_eval => {
+                Item::CloseEval if *end_on_eval && !*in_quote => {
                     L::end_string_eval(self, config, format)?;
                     stack.pop();
                 }
-- 
2.43.0


From 9db4b9ecfb8d988340fd8e16548c8ee73532a79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 15/28] fix: compare item strings by their content

---
 src/tokens/item_str.rs | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/tokens/item_str.rs b/src/tokens/item_str.rs
index 928c84d..d10fe6b 100644
--- a/src/tokens/item_str.rs
+++ b/src/tokens/item_str.rs
@@ -1,6 +1,8 @@
 //! Helper trait to take ownership of strings.
 
+use core::cmp::Ordering;
 use core::fmt;
+use core::hash::{Hash, Hasher};
 use core::ops::Deref;
 
 use alloc::borrow::{Cow, ToOwned};
@@ -12,7 +14,7 @@ use crate::lang::Lang;
 use crate::tokens::{FormatInto, Item, Tokens};
 
 /// A managed string that permits immutable borrowing.
-#[derive(Debug, Clone, Hash, PartialOrd, Ord, PartialEq, Eq)]
+#[derive(Debug, Clone)]
 pub enum ItemStr {
     /// A boxed string.
     Box(Box<str>),
@@ -39,6 +41,40 @@ where
     }
 }
 
+// NB: compared by content, how the string is stored makes no difference.
+impl PartialEq for ItemStr {
+    #[inline]
+    fn eq(&self, other: &Self) -> bool {
+        **self == **other
+    }
+}
+
+impl Eq for ItemStr {}
+
+impl PartialOrd for ItemStr {
+    #[inline]
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for ItemStr {
+    #[inline]
+    fn cmp(&self, other: &Self) -> Ordering {
+        (**self).cmp(&**other)
+    }
+}
+
+impl Hash for ItemStr {
+    #[inline]
+    fn hash<H>(&self, state: &mut H)
+    where
+        H: Hasher,
+    {
+        (**self).hash(state);
+    }
+}
+
 impl AsRef<str> for ItemStr {
     fn as_ref(&self) -> &str {
         match self {
-- 
2.43.0


From 7c05fe300d4b7e3d0c955420ca4ef2b4042dbda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 16/28] fix: import every default import of a JavaScript module

---
 src/lang/js.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/lang/js.rs b/src/lang/js.rs
index a13b588..344a8d6 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -440,7 +440,7 @@ impl JavaScript {
                 }
                 ImportKind::Default => {
                     let module = modules.entry(&import.module).or_default();
-                    module.default_import = Some(&import.name);
+                    module.default_imports.insert(&import.name);
                 }
                 ImportKind::Wildcard => {
                     wildcards.insert((&import.module, &import.name));
@@ -460,11 +460,14 @@ impl JavaScript {
         }
 
         for (name, module) in modules {
+            let mut defaults = module.default_imports.iter();
+            let default_import = defaults.next();
+
             out.push();
             quote_in! { *out =>
                 import $(ref tokens => {
-                    if let Some(default) = module.default_import {
-                        tokens.append(ItemStr::from(default));
+                    if let Some(default) = default_import {
+                        tokens.append(*default);
 
                         if !module.set.is_empty() {
                             tokens.append(",");
@@ -497,13 +500,21 @@ impl JavaScript {
                     }
                 }) from $(ref t => render_from(t, config.module_path.as_deref(), name));
             };
+
+            // NB: a statement can only have one default import.
+            for default in defaults {
+                out.push();
+                quote_in! { *out =>
+                    import $(*default) from $(ref t => render_from(t, config.module_path.as_deref(), name));
+                }
+            }
         }
 
         out.line();
 
         #[derive(Default)]
         struct ResolvedModule<'a> {
-            default_import: Option<&'a ItemStr>,
+            default_imports: BTreeSet<&'a ItemStr>,
             set: BTreeSet<ImportedElement<'a>>,
         }
 
-- 
2.43.0


From ab3da2018d535ca7cfaa5007b578a2324556213a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 17/28] fix: do not use aliases in qualified Python references

---
 src/lang/python.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lang/python.rs b/src/lang/python.rs
index f6272ee..5d331e3 100644
--- a/src/lang/python.rs
+++ b/src/lang/python.rs
@@ -63,9 +63,10 @@ impl_lang! {
                 out.write_str(SEP)?;
             }
 
-            let name = match &self.alias {
-                Some(alias) => alias,
-                None => &self.name,
+            // NB: a member of a module can't be reached through its alias.
+            let name = match (&self.module, &self.alias) {
+                (TypeModule::Unqualified { .. }, Some(alias)) => alias,
+                _ => &self.name,
             };
 
             out.write_str(name)?;
-- 
2.43.0


From d093c37763b7d4bd8371c9fe3de82a893c5ec4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:04 +0000
Subject: [PATCH 18/28] fix: keep Java types of the current package and
 java.lang apart from imported ones

---
 src/lang/java/mod.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/lang/java/mod.rs b/src/lang/java/mod.rs
index a4e195a..db35a0b 100644
--- a/src/lang/java/mod.rs
+++ b/src/lang/java/mod.rs
@@ -86,11 +86,14 @@ impl_lang! {
 
     Import {
         fn format(&self, out: &mut fmt::Formatter<'_>, config: &Config, format: &Format) -> fmt::Result {
-            let file_package = config.package.as_ref().map(|p| p.as_ref());
-            let imported = format.imported.get(self.name.as_ref()).map(String::as_str);
-            let pkg = Some(self.package.as_ref());
+            let pkg = &*self.package;
 
-            if &*self.package != JAVA_LANG && imported != pkg && file_package != pkg {
+            let in_scope = match format.imported.get(&*self.name) {
+                Some(imported) => imported == pkg,
+                None => pkg == JAVA_LANG || config.package.as_deref() == Some(pkg),
+            };
+
+            if !in_scope {
                 out.write_str(self.package.as_ref())?;
                 out.write_str(SEP)?;
             }
@@ -188,16 +191,18 @@ impl Java {
             return;
         }
 
-        for (package, name) in modules {
-            if imported.contains_key(&*name) {
-                continue;
-            }
-
-            if &*package == JAVA_LANG {
-                continue;
+        // NB: types of the current package and of `java.lang` are in scope without
+        // being imported, and keep their name.
+        for scope in file_package.into_iter().chain([JAVA_LANG]) {
+            for (package, name) in &modules {
+                if &**package == scope && !imported.contains_key(&**name) {
+                    imported.insert(name.to_string(), package.to_string());
+                }
             }
+        }
 
-            if Some(&*package) == file_package {
+        for (package, name) in modules {
+            if imported.contains_key(&*name) {
                 continue;
             }
 
-- 
2.43.0


From 11853acc9a350a54dc516e1e582a0cbbc15d301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 19/28] fix: keep C# types of the current namespace and
 ambiguous names apart from imported ones

---
 src/lang/csharp/mod.rs | 52 ++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/src/lang/csharp/mod.rs b/src/lang/csharp/mod.rs
index c862565..b6598df 100644
--- a/src/lang/csharp/mod.rs
+++ b/src/lang/csharp/mod.rs
@@ -116,14 +116,13 @@ impl_lang! {
                     }
                 }
 
-                if let Some(imported) = format.imported_names.get(name) {
-                    // a conflicting name is in the namespace.
-                    if imported != namespace {
-                        return true;
-                    }
+                match format.imported_names.get(name) {
+                    // a conflicting name might be in the namespace.
+                    Some(Some(imported)) => imported != namespace,
+                    // the name is ambiguous.
+                    Some(None) => true,
+                    None => false,
                 }
-
-                false
             }
         }
     }
@@ -139,7 +138,7 @@ pub struct Format {
     /// their use has to be qualified or not.
     ///
     /// A missing name means that it has to be used in a qualified manner.
-    imported_names: BTreeMap<String, String>,
+    imported_names: BTreeMap<String, Option<String>>,
 }
 
 /// Config data for Csharp formatting.
@@ -190,7 +189,7 @@ impl Csharp {
         out: &mut Tokens,
         tokens: &Tokens,
         config: &Config,
-        imported_names: &mut BTreeMap<String, String>,
+        imported_names: &mut BTreeMap<String, Option<String>>,
     ) {
         let mut modules = BTreeSet::new();
 
@@ -202,19 +201,22 @@ impl Csharp {
             return;
         }
 
+        // NB: types of the current namespace take precedence over imported ones.
+        for (namespace, name) in &modules {
+            if Some(*namespace) == config.namespace.as_deref() {
+                imported_names.insert(name.to_string(), Some(namespace.to_string()));
+            }
+        }
+
         let mut imported = BTreeSet::new();
 
-        for (namespace, name) in modules {
+        for &(namespace, name) in &modules {
             if Some(namespace) == config.namespace.as_deref() {
                 continue;
             }
 
-            match imported_names.get(name) {
-                // already imported...
-                Some(existing) if existing == namespace => continue,
-                // already imported, as something else...
-                Some(_) => continue,
-                _ => {}
+            if imported_names.contains_key(name) {
+                continue;
             }
 
             if !imported.contains(namespace) {
@@ -223,7 +225,23 @@ impl Csharp {
                 imported.insert(namespace);
             }
 
-            imported_names.insert(name.to_string(), namespace.to_string());
+            imported_names.insert(name.to_string(), Some(namespace.to_string()));
+        }
+
+        // NB: an imported namespace brings all of its types into scope, which makes
+        // the names it shares with other imported namespaces ambiguous.
+        for (namespace, name) in modules {
+            if !imported.contains(namespace) {
+                continue;
+            }
+
+            if let Some(existing) = imported_names.get_mut(name) {
+                let other = existing.as_deref();
+
+                if other != Some(namespace) && other != config.namespace.as_deref() {
+                    *existing = None;
+                }
+            }
         }
 
         out.line();
-- 
2.43.0


From 2bd8a988006ee5d88a0314b4fa25fe34f0e7bcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 20/28] fix: import dart:core if it is used through an alias

---
 src/lang/dart/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lang/dart/mod.rs b/src/lang/dart/mod.rs
index 7713018..184838c 100644
--- a/src/lang/dart/mod.rs
+++ b/src/lang/dart/mod.rs
@@ -205,7 +205,12 @@ impl Dart {
 
         for import in input.walk_imports() {
             if &*import.path == DART_CORE {
-                continue;
+                if import.alias.is_none() {
+                    continue;
+                }
+
+                // NB: importing it explicitly disables the implicit import.
+                modules.insert((import.path.clone(), None));
             }
 
             modules.insert((import.path.clone(), import.alias.clone()));
-- 
2.43.0


From 2597c3ec0334502b062f320f99b6a8575528f723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:17 +0000
Subject: [PATCH 21/28] fix: bind what the values of Nix variables use, however
 deeply nested

---
 src/lang/nix.rs | 47 +++++++++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/src/lang/nix.rs b/src/lang/nix.rs
index 449fe47..89c4d19 100644
--- a/src/lang/nix.rs
+++ b/src/lang/nix.rs
@@ -4,6 +4,7 @@ use core::fmt::Write as _;
 
 use alloc::collections::BTreeSet;
 use alloc::string::ToString;
+use alloc::vec::Vec;
 
 use crate as genco;
 use crate::fmt;
@@ -132,10 +133,26 @@ impl Config {
 }
 
 impl Nix {
+    /// Walk imports, including the ones that the values of variables use.
+    fn walk_nested(tokens: &Tokens) -> Vec<&Import> {
+        let mut imports = tokens.walk_imports().collect::<Vec<_>>();
+        let mut at = 0;
+
+        while let Some(import) = imports.get(at).copied() {
+            if let Import::Variable(variable) = import {
+                imports.extend(variable.value.walk_imports());
+            }
+
+            at += 1;
+        }
+
+        imports
+    }
+
     fn arguments(out: &mut Tokens, tokens: &Tokens) {
         let mut arguments = BTreeSet::new();
 
-        for imports in tokens.walk_imports() {
+        for imports in Self::walk_nested(tokens) {
             match imports {
                 Import::Argument(argument) => {
                     arguments.insert(argument.0.to_string());
@@ -146,23 +163,7 @@ impl Nix {
                         arguments.insert(a.to_string());
                     }
                 }
-                Import::Variable(variable) => {
-                    let value = &variable.value;
-                    for import in value.walk_imports() {
-                        match import {
-                            Import::Inherit(inherit) => {
-                                let argument = inherit.path.split('.').next();
-                                if let Some(a) = argument {
-                                    arguments.insert(a.to_string());
-                                }
-                            }
-                            Import::Argument(argument) => {
-                                arguments.insert(argument.0.to_string());
-                            }
-                            _ => (),
-                        }
-                    }
-                }
+                Import::Variable(_) => (),
                 Import::With(with) => {
                     let argument = with.argument.split('.').next();
                     if let Some(a) = argument {
@@ -194,7 +195,7 @@ impl Nix {
     fn withs(out: &mut Tokens, tokens: &Tokens) {
         let mut withs = BTreeSet::new();
 
-        for imports in tokens.walk_imports() {
+        for imports in Self::walk_nested(tokens) {
             if let Import::With(with) = imports {
                 withs.insert(&with.argument);
             }
@@ -216,18 +217,12 @@ impl Nix {
         let mut inherits = BTreeSet::new();
         let mut variables = BTreeSet::new();
 
-        for imports in tokens.walk_imports() {
+        for imports in Self::walk_nested(tokens) {
             match imports {
                 Import::Inherit(inherit) => {
                     inherits.insert((&inherit.path, &inherit.name));
                 }
                 Import::Variable(variable) => {
-                    let value = &variable.value;
-                    for import in value.walk_imports() {
-                        if let Import::Inherit(inherit) = import {
-                            inherits.insert((&inherit.path, &inherit.name));
-                        }
-                    }
                     variables.insert((&variable.name, &variable.value));
                 }
                 _ => (),
-- 
2.43.0


From 14b9ea8c0e0948832ab6cd78b7961f634595dbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:39 +0000
Subject: [PATCH 22/28] fix: refuse lines which are shallower than the first
 line of a quote

They were joined with the line before them without any separator.
---
 genco-macros/src/encoder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/genco-macros/src/encoder.rs b/genco-macros/src/encoder.rs
index 3f517be..06ea119 100644
--- a/genco-macros/src/encoder.rs
+++ b/genco-macros/src/encoder.rs
@@ -415,6 +415,12 @@ impl<'a> Encoder<'a> {
                     self.output.extend(q::quote!(#r.line();));
                 }
             } else if last_start_column > to.column {
+                // There is no indentation which could be ended. The edges of a
+                // spanned group are not rows of their own, so they have none.
+                if self.indents.is_empty() && self.last.is_some() && to_span.is_some() {
+                    return Err(indentation_error(to.column, last_start_column, to_span));
+                }
+
                 while let Some((column, _)) = self.indents.pop() {
                     if column > to.column && !self.indents.is_empty() {
                         self.output.extend(q::quote!(#r.unindent();));
-- 
2.43.0


From 20ea782eebffe7b738ef74b04db6b0ec88f456fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:42 +0000
Subject: [PATCH 23/28] fix: keep the spaces at the edges of interpolations in
 strings

The span of the first token was used instead of that of the parentheses.
---
 genco-macros/src/string_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genco-macros/src/string_parser.rs b/genco-macros/src/string_parser.rs
index 5f7dc52..01585a9 100644
--- a/genco-macros/src/string_parser.rs
+++ b/genco-macros/src/string_parser.rs
@@ -288,7 +288,7 @@ impl<'a> StringParser<'a> {
                     let end = syn::parenthesized!(content in input).span;
 
                     let (req, stream) = crate::quote::Quote::new(self.cx)
-                        .with_span(content.span())?
+                        .with_span(end.span())?
                         .parse(&content)?;
                     requirements.merge_with(req);
                     let start = self.buf.cursor(start.span())?;
-- 
2.43.0


From eb2c867595be3b170a03509166985da06bb9070d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 24/28] fix: accept attributes on the arms of quoted matches

They were looked for in the stream around the match.
---
 genco-macros/src/quote.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genco-macros/src/quote.rs b/genco-macros/src/quote.rs
index 82c4fd2..835d7ae 100644
--- a/genco-macros/src/quote.rs
+++ b/genco-macros/src/quote.rs
@@ -196,7 +196,7 @@ impl<'a> Quote<'a> {
         let mut arms = Vec::new();
 
         while !body.is_empty() {
-            let attr = input.call(syn::Attribute::parse_outer)?;
+            let attr = body.call(syn::Attribute::parse_outer)?;
             let pattern = syn::Pat::parse_multi_with_leading_vert(&body)?;
 
             let condition = if body.peek(Token![if]) {
-- 
2.43.0


From 04d55b638cc72cb1a46ce115b573aab24f1f5d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:55 +0000
Subject: [PATCH 25/28] fix: parse groups in interpolated strings like the rest
 of the string

Their spaces were changed and interpolations in them were not recognized.
---
 genco-macros/src/string_parser.rs | 42 +++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/genco-macros/src/string_parser.rs b/genco-macros/src/string_parser.rs
index 01585a9..2c19093 100644
--- a/genco-macros/src/string_parser.rs
+++ b/genco-macros/src/string_parser.rs
@@ -234,7 +234,17 @@ impl<'a> StringParser<'a> {
     pub(crate) fn parse(self, input: ParseStream) -> Result<(Options, Requirements, TokenStream)> {
         let mut requirements = Requirements::default();
         let encoder = Encoder::new(self.cx, self.start, self.span);
+        self.parse_inner(&encoder, &mut requirements, input)?;
+        let (options, stream) = encoder.finalize(self.end)?;
+        Ok((options, requirements, stream))
+    }
 
+    fn parse_inner(
+        &self,
+        encoder: &Encoder<'_>,
+        requirements: &mut Requirements,
+        input: ParseStream,
+    ) -> Result<()> {
         while !input.is_empty() {
             if input.peek(syn::Token![$]) && input.peek2(syn::Token![$]) {
                 let start = input.parse::<syn::Token![$]>()?;
@@ -299,16 +309,44 @@ impl<'a> StringParser<'a> {
                 continue;
             }
 
+            // Groups are part of the text, their content is parsed like the rest.
+            if let Some((open, close, span, content)) = parse_group(input)? {
+                let cursor = self.buf.cursor(span)?;
+                let (first, last) = (cursor.first_character(), cursor.last_character());
+
+                encoder.encode_char(open, first.start, first.end)?;
+                self.parse_inner(encoder, requirements, &content)?;
+                encoder.encode_char(close, last.start, last.end)?;
+                continue;
+            }
+
             let tt = input.parse::<TokenTree>()?;
             let cursor = self.buf.cursor(tt.span())?;
             encoder.extend_tt(&tt, cursor.start, Some(cursor.end))?;
         }
 
-        let (options, stream) = encoder.finalize(self.end)?;
-        Ok((options, requirements, stream))
+        Ok(())
     }
 }
 
+/// Parse a delimited group, if there is one.
+fn parse_group<'a>(input: &'a ParseBuffer) -> Result<Option<(char, char, Span, ParseBuffer<'a>)>> {
+    let content;
+
+    Ok(Some(if input.peek(token::Paren) {
+        let group = syn::parenthesized!(content in input);
+        ('(', ')', group.span.span(), content)
+    } else if input.peek(token::Brace) {
+        let group = syn::braced!(content in input);
+        ('{', '}', group.span.span(), content)
+    } else if input.peek(token::Bracket) {
+        let group = syn::bracketed!(content in input);
+        ('[', ']', group.span.span(), content)
+    } else {
+        return Ok(None);
+    }))
+}
+
 pub(crate) fn is_lit_str_opt(content: ParseBuffer<'_>) -> syn::Result<bool> {
     if content.parse::<Option<syn::LitStr>>()?.is_none() {
         return Ok(false);
-- 
2.43.0


From 6863110a2145813f36385d6c276dca59f950fbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:19 +0000
Subject: [PATCH 26/28] fix: header names in C includes have no escape
 sequences

---
 src/lang/c.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lang/c.rs b/src/lang/c.rs
index 19ccad4..888ff53 100644
--- a/src/lang/c.rs
+++ b/src/lang/c.rs
@@ -7,7 +7,7 @@ use alloc::collections::BTreeSet;
 use crate as genco;
 use crate::fmt;
 use crate::quote_in;
-use crate::tokens::{quoted, ItemStr};
+use crate::tokens::ItemStr;
 
 /// Tokens container specialization for C.
 pub type Tokens = crate::Tokens<C>;
@@ -109,7 +109,8 @@ impl C {
             if system_header {
                 quote_in!(*out => #include <$(file)>);
             } else {
-                quote_in!(*out => #include $(quoted(file)));
+                // NB: there are no escape sequences in header names.
+                quote_in!(*out => #include $("\"")$(file)$("\""));
             }
             out.push();
         }
-- 
2.43.0


From d2fe87605e24a8f57860a1fe961b4de8c6c85fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:21 +0000
Subject: [PATCH 27/28] fix: look up C# types in the namespaces enclosing the
 current one

---
 src/lang/csharp/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/lang/csharp/mod.rs b/src/lang/csharp/mod.rs
index b6598df..4f73008 100644
--- a/src/lang/csharp/mod.rs
+++ b/src/lang/csharp/mod.rs
@@ -201,11 +201,18 @@ impl Csharp {
             return;
         }
 
-        // NB: types of the current namespace take precedence over imported ones.
-        for (namespace, name) in &modules {
-            if Some(*namespace) == config.namespace.as_deref() {
-                imported_names.insert(name.to_string(), Some(namespace.to_string()));
+        // NB: types of the current namespace, and then of the ones enclosing it, take
+        // precedence over imported ones.
+        let mut scope = config.namespace.as_deref();
+
+        while let Some(current) = scope {
+            for (namespace, name) in &modules {
+                if *namespace == current && !imported_names.contains_key(*name) {
+                    imported_names.insert(name.to_string(), Some(namespace.to_string()));
+                }
             }
+
+            scope = current.rsplit_once(SEP).map(|(enclosing, _)| enclosing);
         }
 
         let mut imported = BTreeSet::new();
-- 
2.43.0


From c42b7600663feebd7dc0b67057f74a93854f80e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:12 +0000
Subject: [PATCH 28/28] fix: import an item once if it is also imported under
 its own name as alias

---
 src/lang/js.rs     |  4 ++++
 src/lang/python.rs | 13 ++++++++++---
 src/lang/rust.rs   | 43 +++++++++++++++++++++++++++++++++++++------
 3 files changed, 51 insertions(+), 9 deletions(-)

diff --git a/src/lang/js.rs b/src/lang/js.rs
index 344a8d6..ecf4dc2 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -434,6 +434,10 @@ impl JavaScript {
                     let module = modules.entry(&import.module).or_default();
 
                     module.set.insert(match &import.alias {
+                        // NB: binds the same as no alias.
+                        Some(alias) if *alias == import.name => {
+                            ImportedElement::Plain(&import.name)
+                        }
                         None => ImportedElement::Plain(&import.name),
                         Some(alias) => ImportedElement::Aliased(&import.name, alias),
                     });
diff --git a/src/lang/python.rs b/src/lang/python.rs
index 5d331e3..ea70640 100644
--- a/src/lang/python.rs
+++ b/src/lang/python.rs
@@ -301,17 +301,17 @@ impl Python {
                     name,
                 }) => match module {
                     TypeModule::Qualified { module, alias } => {
-                        imports.insert((module, alias));
+                        imports.insert((module, renamed(module, alias)));
                     }
                     TypeModule::Unqualified { module } => {
                         imported_from
                             .entry(module)
                             .or_insert_with(BTreeSet::new)
-                            .insert((name, alias));
+                            .insert((name, renamed(name, alias)));
                     }
                 },
                 Any::ImportModule(ImportModule { module, alias }) => {
-                    imports.insert((module, alias));
+                    imports.insert((module, renamed(module, alias)));
                 }
             }
         }
@@ -348,6 +348,13 @@ impl Python {
         }
 
         out.line();
+
+        return;
+
+        // NB: an alias which is the name itself binds the same as no alias.
+        fn renamed<'a>(name: &ItemStr, alias: &'a Option<ItemStr>) -> Option<&'a ItemStr> {
+            alias.as_ref().filter(|alias| *alias != name)
+        }
     }
 }
 
diff --git a/src/lang/rust.rs b/src/lang/rust.rs
index 439e1ea..a02435e 100644
--- a/src/lang/rust.rs
+++ b/src/lang/rust.rs
@@ -41,6 +41,8 @@
 use core::fmt::Write as _;
 
 use alloc::collections::{BTreeMap, BTreeSet, VecDeque};
+use alloc::format;
+use alloc::string::ToString;
 
 use crate::fmt;
 use crate::tokens::ItemStr;
@@ -430,7 +432,7 @@ impl Rust {
                     import: Some(ImportMode::Direct),
                 } => {
                     let module = modules.entry(module).or_default();
-                    module.names.insert((&import.name, import.alias.as_ref()));
+                    module.insert_name(import);
                 }
                 Module::Module {
                     module,
@@ -445,23 +447,46 @@ impl Rust {
                 } => match config.default_import {
                     ImportMode::Direct => {
                         let module = modules.entry(module).or_default();
-                        module.names.insert((&import.name, import.alias.as_ref()));
+                        module.insert_name(import);
                     }
                     ImportMode::Qualified => {
                         let module = modules.entry(module).or_default();
                         module.self_import = true;
                     }
                 },
-                Module::Aliased { module, alias } => {
-                    let module = modules.entry(module).or_default();
-                    module.self_aliases.insert(alias);
+                Module::Aliased { module: m, alias } => {
+                    let module = modules.entry(m).or_default();
+
+                    // NB: an alias which is the name itself binds the same as no alias.
+                    if m.rsplit(SEP).next() == Some(&**alias) {
+                        module.self_import = true;
+                    } else {
+                        module.self_aliases.insert(alias);
+                    }
                 }
             }
         }
 
+        // NB: a module might also be imported by name from the module containing it.
+        let mut self_imports = BTreeSet::new();
+
+        for (m, module) in &modules {
+            if module.self_import {
+                self_imports.insert((m.to_string(), None));
+            }
+
+            for alias in &module.self_aliases {
+                self_imports.insert((m.to_string(), Some(*alias)));
+            }
+        }
+
         let mut has_any = false;
 
-        for (m, module) in modules {
+        for (m, mut module) in modules {
+            module.names.retain(|(name, alias)| {
+                !self_imports.contains(&(format!("{}{}{}", &**m, SEP, &**name), *alias))
+            });
+
             let mut render = module.iter(m);
 
             if let Some(first) = render.next() {
@@ -521,6 +546,12 @@ impl Rust {
         }
 
         impl<'a> Import<'a> {
+            fn insert_name(&mut self, import: &'a crate::lang::rust::Import) {
+                // NB: an alias which is the name itself binds the same as no alias.
+                let alias = import.alias.as_ref().filter(|a| **a != import.name);
+                self.names.insert((&import.name, alias));
+            }
+
             fn iter(self, module: &'a str) -> ImportedIter<'a> {
                 ImportedIter {
                     module,
-- 
2.43.0

