From 0dac1bc3c0bd97f2e18282919dbe16d2d3a01348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:53 +0000
Subject: [PATCH 1/5] fix: write the foreground arguments of a runtime
 Color::Rgb used as foreground

Color::fmt_foreground_args delegated to fmt_background_args for Color::Rgb, so a
style with an rgb Color foreground and two or more effects coloured the background.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 796c728..ada56f2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -235,7 +235,7 @@ impl WriteColor for Color {
             Color::Ansi(color) => color.fmt_foreground_args(f),
             Color::Css(color) => color.fmt_foreground_args(f),
             Color::Xterm(color) => color.fmt_foreground_args(f),
-            Color::Rgb(color) => color.fmt_background_args(f),
+            Color::Rgb(color) => color.fmt_foreground_args(f),
         }
     }
 
-- 
2.43.0


From 46deef4f84a07c015290c1bab00e0b8eee9ade85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:53 +0000
Subject: [PATCH 2/5] fix: parse two digit decimal color codes

The second digit was added without subtracting b'0', so "42" parsed as code 90.
---
 src/from_str.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/from_str.rs b/src/from_str.rs
index bcf5b5c..ce39583 100644
--- a/src/from_str.rs
+++ b/src/from_str.rs
@@ -48,7 +48,7 @@ impl FromStr for Color {
                 })
             }
             &[a @ b'0'..=b'9'] => Self::Xterm((a - b'0').into()),
-            &[a @ b'0'..=b'9', b @ b'0'..=b'9'] => Self::Xterm(((a - b'0') * 10 + b).into()),
+            &[a @ b'0'..=b'9', b @ b'0'..=b'9'] => Self::Xterm(((a - b'0') * 10 + (b - b'0')).into()),
             &[a @ b'0'..=b'1', b @ b'0'..=b'9', c @ b'0'..=b'9']
             | &[a @ b'2', b @ b'0'..=b'4', c @ b'0'..=b'9']
             | &[a @ b'2', b @ b'5', c @ b'0'..=b'5'] => {
-- 
2.43.0


From f88565522d648af8dbe0e4a8bc5ac68488421b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:53 +0000
Subject: [PATCH 3/5] fix: reject "never " and "never\0" as mode and stream
 names

The padding of the five byte name compared equal to a trailing space or NUL.
---
 src/mode.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/mode.rs b/src/mode.rs
index 19a46c3..ab05614 100644
--- a/src/mode.rs
+++ b/src/mode.rs
@@ -80,10 +80,11 @@ impl Mode {
 
         let data = data | ASCII_CASE_MASK_SIMD;
 
-        match data {
-            DETECT_STR => Ok(Mode::Detect),
-            ALWAYS_STR => Ok(Mode::Always),
-            NEVER_STR => Ok(Mode::Never),
+        // `never` is padded to fit, so the length is needed to tell the padding from actual input
+        match (data, s.len()) {
+            (DETECT_STR, 6) => Ok(Mode::Detect),
+            (ALWAYS_STR, 6) => Ok(Mode::Always),
+            (NEVER_STR, 5) => Ok(Mode::Never),
             _ => Err(ModeFromStrError),
         }
     }
@@ -145,11 +146,12 @@ impl Stream {
 
         let data = data | ASCII_CASE_MASK_SIMD;
 
-        match data {
-            STDERR_STR => Ok(Stream::Stderr),
-            STDOUT_STR => Ok(Stream::Stdout),
-            ALWAYS_STR => Ok(Stream::AlwaysColor),
-            NEVER_STR => Ok(Stream::NeverColor),
+        // `never` is padded to fit, so the length is needed to tell the padding from actual input
+        match (data, s.len()) {
+            (STDERR_STR, 6) => Ok(Stream::Stderr),
+            (STDOUT_STR, 6) => Ok(Stream::Stdout),
+            (ALWAYS_STR, 6) => Ok(Stream::AlwaysColor),
+            (NEVER_STR, 5) => Ok(Stream::NeverColor),
             _ => Err(StreamFromStrError),
         }
     }
-- 
2.43.0


From 4cc355c49802b39bc6646a3537edac266030fa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:53 +0000
Subject: [PATCH 4/5] fix: use SGR 74 for subscript

SubScript shared SGR 73 with SuperScript, so subscript text rendered as superscript.
---
 src/style.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/style.rs b/src/style.rs
index 6a05a64..9536dd4 100644
--- a/src/style.rs
+++ b/src/style.rs
@@ -558,7 +558,7 @@ Effect! {
     ///
     /// println!("{}", "hello world".subscript());
     /// ```
-    SubScript 73 75 -> subscript,
+    SubScript 74 75 -> subscript,
 }
 
 const ANY_UNDERLINE: EffectFlags = EffectFlags::new()
-- 
2.43.0


From c6730cbbdf3ccb72efbab34facf9e2e0ed257295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:32 +0000
Subject: [PATCH 5/5] verif: let a test memory model see the atomics of the
 mode module (cfg colorz_verif)

---
 src/lib.rs        |   4 +
 src/mode.rs       |   5 ++
 src/verif_sync.rs | 225 ++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 234 insertions(+)
 create mode 100644 src/verif_sync.rs

diff --git a/src/lib.rs b/src/lib.rs
index ada56f2..038b565 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -7,6 +7,7 @@
     clippy::missing_const_for_fn,
     clippy::missing_inline_in_public_items
 )]
+#![allow(unexpected_cfgs)] // colorz_verif
 #![cfg_attr(doc, warn(rustdoc::missing_doc_code_examples))]
 #![cfg_attr(doc, feature(doc_cfg, rustdoc_missing_doc_code_examples))]
 
@@ -26,6 +27,9 @@ pub mod rgb;
 mod style;
 mod value;
 
+#[cfg(colorz_verif)]
+pub mod verif_sync;
+
 pub use from_str::ParseColorError;
 
 /// A styled value, created from [`Colorize`] or [`StyledValue::new`]
diff --git a/src/mode.rs b/src/mode.rs
index ab05614..341e69b 100644
--- a/src/mode.rs
+++ b/src/mode.rs
@@ -18,6 +18,11 @@
 #[cfg(doc)]
 use crate::StyledValue;
 
+#[cfg(colorz_verif)]
+use crate::verif_sync::hooked_core as core;
+#[cfg(all(colorz_verif, feature = "std"))]
+use crate::verif_sync::hooked_std as std;
+
 use core::{str::FromStr, sync::atomic::AtomicU8};
 
 static COLORING_MODE: AtomicU8 = AtomicU8::new(Mode::DETECT);
diff --git a/src/verif_sync.rs b/src/verif_sync.rs
new file mode 100644
index 0000000..407edb4
--- /dev/null
+++ b/src/verif_sync.rs
@@ -0,0 +1,225 @@
+//! Verification hook, only compiled with `--cfg colorz_verif`.
+//!
+//! [`crate::mode`] then sees these modules as `core` and `std`: they are the real ones,
+//! except that the atomics can be handed over to a [`Memory`] which decides what
+//! every access of every thread does. Nothing changes until one is installed.
+
+#![allow(deprecated, clippy::missing_inline_in_public_items, clippy::missing_const_for_fn)]
+
+extern crate std;
+
+use ::core::sync::atomic::Ordering;
+
+/// What an atomic cell is to a [`Memory`]
+#[derive(Debug, Clone, Copy)]
+pub struct Location {
+    /// the address of the cell
+    pub address: usize,
+    /// the value the cell was initialized with (the cell is never written once a memory is installed)
+    pub initial: u64,
+}
+
+/// Decides what every access to an atomic does
+pub trait Memory: Sync {
+    /// an atomic load
+    fn load(&self, at: Location, order: Ordering) -> u64;
+    /// an atomic store
+    fn store(&self, at: Location, value: u64, order: Ordering);
+    /// an atomic read-modify-write: `update` gives the new value, or none to leave the cell as it is.
+    /// Returns the old value
+    fn update(&self, at: Location, success: Ordering, failure: Ordering, update: &mut dyn FnMut(u64) -> Option<u64>) -> u64;
+    /// an atomic fence
+    fn fence(&self, order: Ordering);
+}
+
+static MEMORY: std::sync::OnceLock<&'static dyn Memory> = std::sync::OnceLock::new();
+
+/// Hands all atomics of this crate over to `memory`, for good
+pub fn install(memory: &'static dyn Memory) -> bool {
+    MEMORY.set(memory).is_ok()
+}
+
+/// `core`, as seen by the hooked modules
+pub mod hooked_core {
+    pub use ::core::*;
+    /// `core::sync`
+    pub mod sync {
+        pub use ::core::sync::*;
+        pub use super::super::atomic;
+    }
+}
+
+/// `std`, as seen by the hooked modules
+pub mod hooked_std {
+    pub use super::std::*;
+    /// `std::sync`
+    pub mod sync {
+        pub use super::super::atomic;
+        pub use super::super::std::sync::*;
+    }
+}
+
+/// `core::sync::atomic`, with the hooked atomics
+pub mod atomic {
+    pub use ::core::sync::atomic::*;
+
+    use super::{Location, MEMORY};
+
+    /// see [`::core::sync::atomic::fence`]
+    pub fn fence(order: Ordering) {
+        match MEMORY.get() {
+            Some(memory) => memory.fence(order),
+            None => ::core::sync::atomic::fence(order),
+        }
+    }
+
+    fn failure(order: Ordering) -> Ordering {
+        match order {
+            Ordering::Release => Ordering::Relaxed,
+            Ordering::AcqRel => Ordering::Acquire,
+            order => order,
+        }
+    }
+
+    macro_rules! common {
+        ($name:ident, $ty:ty, $enc:expr, $dec:expr) => {
+            /// see the type of the same name in [`::core::sync::atomic`]
+            #[derive(Debug)]
+            pub struct $name(::core::sync::atomic::$name);
+
+            impl $name {
+                /// a new cell
+                pub const fn new(value: $ty) -> Self {
+                    Self(::core::sync::atomic::$name::new(value))
+                }
+                fn location(&self) -> Location {
+                    Location {
+                        address: self as *const Self as usize,
+                        initial: $enc(self.0.load(Ordering::Relaxed)),
+                    }
+                }
+                fn modify(&self, success: Ordering, fail: Ordering, update: &mut dyn FnMut($ty) -> Option<$ty>) -> Result<$ty, $ty> {
+                    let Some(memory) = MEMORY.get() else {
+                        return self.0.fetch_update(success, fail, update);
+                    };
+                    let mut done = false;
+                    let old = memory.update(self.location(), success, fail, &mut |x| {
+                        let new = update($dec(x));
+                        done = new.is_some();
+                        new.map($enc)
+                    });
+                    if done { Ok($dec(old)) } else { Err($dec(old)) }
+                }
+                fn always(&self, order: Ordering, update: impl Fn($ty) -> $ty) -> $ty {
+                    match self.modify(order, failure(order), &mut |x| Some(update(x))) {
+                        Ok(x) | Err(x) => x,
+                    }
+                }
+                /// atomic load
+                pub fn load(&self, order: Ordering) -> $ty {
+                    match MEMORY.get() {
+                        Some(memory) => $dec(memory.load(self.location(), order)),
+                        None => self.0.load(order),
+                    }
+                }
+                /// atomic store
+                pub fn store(&self, value: $ty, order: Ordering) {
+                    match MEMORY.get() {
+                        Some(memory) => memory.store(self.location(), $enc(value), order),
+                        None => self.0.store(value, order),
+                    }
+                }
+                /// atomic swap
+                pub fn swap(&self, value: $ty, order: Ordering) -> $ty {
+                    self.always(order, |_| value)
+                }
+                /// atomic compare and exchange
+                pub fn compare_exchange(&self, current: $ty, new: $ty, success: Ordering, failure: Ordering) -> Result<$ty, $ty> {
+                    self.modify(success, failure, &mut |x| (x == current).then_some(new))
+                }
+                /// atomic compare and exchange
+                pub fn compare_exchange_weak(&self, current: $ty, new: $ty, success: Ordering, failure: Ordering) -> Result<$ty, $ty> {
+                    self.compare_exchange(current, new, success, failure)
+                }
+                /// a loop of compare and exchange
+                pub fn fetch_update(&self, set: Ordering, fetch: Ordering, mut update: impl FnMut($ty) -> Option<$ty>) -> Result<$ty, $ty> {
+                    let mut old = self.load(fetch);
+                    while let Some(new) = update(old) {
+                        match self.compare_exchange_weak(old, new, set, fetch) {
+                            Ok(x) => return Ok(x),
+                            Err(x) => old = x,
+                        }
+                    }
+                    Err(old)
+                }
+                /// a loop of compare and exchange
+                pub fn try_update(&self, set: Ordering, fetch: Ordering, update: impl FnMut($ty) -> Option<$ty>) -> Result<$ty, $ty> {
+                    self.fetch_update(set, fetch, update)
+                }
+                /// a loop of compare and exchange
+                pub fn update(&self, set: Ordering, fetch: Ordering, mut update: impl FnMut($ty) -> $ty) -> $ty {
+                    match self.fetch_update(set, fetch, |x| Some(update(x))) {
+                        Ok(x) | Err(x) => x,
+                    }
+                }
+                /// atomic and
+                pub fn fetch_and(&self, value: $ty, order: Ordering) -> $ty {
+                    self.always(order, |x| x & value)
+                }
+                /// atomic nand
+                pub fn fetch_nand(&self, value: $ty, order: Ordering) -> $ty {
+                    self.always(order, |x| !(x & value))
+                }
+                /// atomic or
+                pub fn fetch_or(&self, value: $ty, order: Ordering) -> $ty {
+                    self.always(order, |x| x | value)
+                }
+                /// atomic xor
+                pub fn fetch_xor(&self, value: $ty, order: Ordering) -> $ty {
+                    self.always(order, |x| x ^ value)
+                }
+                /// the value, of a cell that is not shared
+                pub fn into_inner(self) -> $ty {
+                    self.load(Ordering::Relaxed)
+                }
+            }
+            impl Default for $name {
+                fn default() -> Self {
+                    Self::new(Default::default())
+                }
+            }
+            impl From<$ty> for $name {
+                fn from(value: $ty) -> Self {
+                    Self::new(value)
+                }
+            }
+        };
+    }
+    macro_rules! number {
+        ($($name:ident $ty:ty),*) => {$(
+            common!($name, $ty, |x: $ty| x as u64, |x: u64| x as $ty);
+
+            impl $name {
+                /// atomic addition
+                pub fn fetch_add(&self, value: $ty, order: Ordering) -> $ty {
+                    self.always(order, |x| x.wrapping_add(value))
+                }
+                /// atomic subtraction
+                pub fn fetch_sub(&self, value: $ty, order: Ordering) -> $ty {
+                    self.always(order, |x| x.wrapping_sub(value))
+                }
+                /// atomic maximum
+                pub fn fetch_max(&self, value: $ty, order: Ordering) -> $ty {
+                    self.always(order, |x| x.max(value))
+                }
+                /// atomic minimum
+                pub fn fetch_min(&self, value: $ty, order: Ordering) -> $ty {
+                    self.always(order, |x| x.min(value))
+                }
+            }
+        )*};
+    }
+    number!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize);
+    number!(AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
+    common!(AtomicBool, bool, |x: bool| x as u64, |x: u64| x != 0);
+}
-- 
2.43.0

