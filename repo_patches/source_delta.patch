From 5d52f61c20ddace50d5deaceff239010c543ec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 1/5] fix: parse two-digit decimal color codes by digit value

---
 src/from_str.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/from_str.rs b/src/from_str.rs
index bcf5b5c..ce39583 100644
--- a/src/from_str.rs
+++ b/src/from_str.rs
@@ -48,7 +48,7 @@ impl FromStr for Color {
                 })
             }
             &[a @ b'0'..=b'9'] => Self::Xterm((a - b'0').into()),
-            &[a @ b'0'..=b'9', b @ b'0'..=b'9'] => Self::Xterm(((a - b'0') * 10 + b).into()),
+            &[a @ b'0'..=b'9', b @ b'0'..=b'9'] => Self::Xterm(((a - b'0') * 10 + (b - b'0')).into()),
             &[a @ b'0'..=b'1', b @ b'0'..=b'9', c @ b'0'..=b'9']
             | &[a @ b'2', b @ b'0'..=b'4', c @ b'0'..=b'9']
             | &[a @ b'2', b @ b'5', c @ b'0'..=b'5'] => {
-- 
2.43.0


From e0c76d3cf3f092bf97484948024836dc235ff5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 2/5] fix: Color::Rgb writes foreground args on the foreground
 layer

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 796c728..ada56f2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -235,7 +235,7 @@ impl WriteColor for Color {
             Color::Ansi(color) => color.fmt_foreground_args(f),
             Color::Css(color) => color.fmt_foreground_args(f),
             Color::Xterm(color) => color.fmt_foreground_args(f),
-            Color::Rgb(color) => color.fmt_background_args(f),
+            Color::Rgb(color) => color.fmt_foreground_args(f),
         }
     }
 
-- 
2.43.0


From bc1ebca4c2e2db51429fa3cc9d36f309815d6710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 3/5] fix: subscript effect uses SGR code 74, not superscript's
 73

---
 src/style.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/style.rs b/src/style.rs
index 6a05a64..9536dd4 100644
--- a/src/style.rs
+++ b/src/style.rs
@@ -558,7 +558,7 @@ Effect! {
     ///
     /// println!("{}", "hello world".subscript());
     /// ```
-    SubScript 73 75 -> subscript,
+    SubScript 74 75 -> subscript,
 }
 
 const ANY_UNDERLINE: EffectFlags = EffectFlags::new()
-- 
2.43.0


From 2c0f4698221448148a0bbea17bf30d05a3e396dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:43 +0000
Subject: [PATCH 4/5] fix: reject 'never' followed by a space or NUL when
 parsing Mode and Stream

---
 src/mode.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mode.rs b/src/mode.rs
index 19a46c3..ffc5449 100644
--- a/src/mode.rs
+++ b/src/mode.rs
@@ -83,7 +83,8 @@ impl Mode {
         match data {
             DETECT_STR => Ok(Mode::Detect),
             ALWAYS_STR => Ok(Mode::Always),
-            NEVER_STR => Ok(Mode::Never),
+            // the padding of a 5 byte name must not match an explicit 6th byte (`\0` or ` `)
+            NEVER_STR if s.len() == 5 => Ok(Mode::Never),
             _ => Err(ModeFromStrError),
         }
     }
@@ -149,7 +150,8 @@ impl Stream {
             STDERR_STR => Ok(Stream::Stderr),
             STDOUT_STR => Ok(Stream::Stdout),
             ALWAYS_STR => Ok(Stream::AlwaysColor),
-            NEVER_STR => Ok(Stream::NeverColor),
+            // the padding of a 5 byte name must not match an explicit 6th byte (`\0` or ` `)
+            NEVER_STR if s.len() == 5 => Ok(Stream::NeverColor),
             _ => Err(StreamFromStrError),
         }
     }
-- 
2.43.0


From 8e94d0076bc4198185a973055b3b79255d1e80dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:14 +0000
Subject: [PATCH 5/5] fix: default ANSI color resets the underline layer (59)
 instead of selecting xterm 16

---
 src/ansi.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/ansi.rs b/src/ansi.rs
index f52af4b..1c1daff 100644
--- a/src/ansi.rs
+++ b/src/ansi.rs
@@ -91,7 +91,11 @@ macro_rules! MkAnsiColor {
             #[inline]
             /// The ANSI background color args
             pub const fn underline_args(self) -> &'static str {
-                self.to_xterm().underline_args()
+                match self {
+                    // the default color isn't part of the Xterm palette
+                    Self::Default => "59",
+                    _ => self.to_xterm().underline_args(),
+                }
             }
 
             #[inline]
@@ -113,7 +117,11 @@ macro_rules! MkAnsiColor {
             #[inline]
             /// The ANSI underline color escape sequence
             pub const fn underline_escape(self) -> &'static str {
-                self.to_xterm().underline_escape()
+                match self {
+                    // the default color isn't part of the Xterm palette
+                    Self::Default => "\x1b[59m",
+                    _ => self.to_xterm().underline_escape(),
+                }
             }
 
             #[inline]
@@ -145,7 +153,7 @@ macro_rules! MkAnsiColor {
 
             #[inline]
             fn underline_args(self) -> &'static str {
-                self.to_xterm().underline_args()
+                self.underline_args()
             }
 
             #[inline]
@@ -170,7 +178,7 @@ macro_rules! MkAnsiColor {
 
             #[inline]
             fn underline_escape(self) -> &'static str {
-                self.to_xterm().underline_escape()
+                self.underline_escape()
             }
         }
 
@@ -217,7 +225,7 @@ macro_rules! MkAnsiColor {
 
                 #[inline]
                 fn underline_args(self) -> &'static str {
-                    <xterm_from_code!($xterm)>::UNDERLINE_ARGS
+                    Self::DYNAMIC.underline_args()
                 }
 
                 #[inline]
@@ -232,7 +240,7 @@ macro_rules! MkAnsiColor {
 
                 #[inline]
                 fn underline_escape(self) -> &'static str {
-                    <xterm_from_code!($xterm)>::UNDERLINE_ESCAPE
+                    Self::DYNAMIC.underline_escape()
                 }
             }
         )*
-- 
2.43.0

