From 77c5c66d8f2719540216925b396658347d867afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:41 +0000
Subject: [PATCH 1/5] fix: return the visitor's own error when visiting
 framework-captured primitives

Visiting a value captured through sval or serde ignored an error returned
by the callback and called visit_any as a second callback.
---
 src/internal/cast/mod.rs |  6 ++--
 src/internal/serde/v1.rs | 76 +++++++++++++++++++++++++++++-----------
 src/internal/sval/v2.rs  | 76 +++++++++++++++++++++++++++++++---------
 src/visit.rs             |  6 ++--
 4 files changed, 121 insertions(+), 43 deletions(-)

diff --git a/src/internal/cast/mod.rs b/src/internal/cast/mod.rs
index 6fc18fd..2ae5f29 100644
--- a/src/internal/cast/mod.rs
+++ b/src/internal/cast/mod.rs
@@ -275,7 +275,7 @@ impl<'v> Internal<'v> {
             #[cfg(feature = "sval2")]
             #[inline]
             fn sval2(&mut self, v: &dyn super::sval::v2::Value) -> Result<(), Error> {
-                if super::sval::v2::internal_visit(v, self) {
+                if super::sval::v2::internal_visit(v, self)? {
                     Ok(())
                 } else {
                     Err(Error::msg("invalid cast"))
@@ -284,7 +284,7 @@ impl<'v> Internal<'v> {
 
             #[cfg(feature = "sval2")]
             fn borrowed_sval2(&mut self, v: &'v dyn super::sval::v2::Value) -> Result<(), Error> {
-                if super::sval::v2::borrowed_internal_visit(v, self) {
+                if super::sval::v2::borrowed_internal_visit(v, self)? {
                     Ok(())
                 } else {
                     Err(Error::msg("invalid cast"))
@@ -294,7 +294,7 @@ impl<'v> Internal<'v> {
             #[cfg(feature = "serde1")]
             #[inline]
             fn serde1(&mut self, v: &dyn super::serde::v1::Serialize) -> Result<(), Error> {
-                if super::serde::v1::internal_visit(v, self) {
+                if super::serde::v1::internal_visit(v, self)? {
                     Ok(())
                 } else {
                     Err(Error::msg("invalid cast"))
diff --git a/src/internal/serde/v1.rs b/src/internal/serde/v1.rs
index 8ee44f8..f1f142e 100644
--- a/src/internal/serde/v1.rs
+++ b/src/internal/serde/v1.rs
@@ -324,8 +324,30 @@ fn serialize_seq<S: value_bag_serde1::lib::Serializer>(
     s.serializer.end()
 }
 
-pub(crate) fn internal_visit(v: &dyn Serialize, visitor: &mut dyn InternalVisitor<'_>) -> bool {
-    struct VisitorSerializer<'a, 'v>(&'a mut dyn InternalVisitor<'v>);
+/// Visit a value as a primitive.
+///
+/// Returns `Ok(false)` if the value isn't a primitive and nothing was visited.
+/// If the visitor itself fails then its error is returned.
+pub(crate) fn internal_visit(
+    v: &dyn Serialize,
+    visitor: &mut dyn InternalVisitor<'_>,
+) -> Result<bool, Error> {
+    struct VisitorSerializer<'a, 'v> {
+        visitor: &'a mut dyn InternalVisitor<'v>,
+        visited: &'a mut Option<Result<(), Error>>,
+    }
+
+    impl<'a, 'v> VisitorSerializer<'a, 'v> {
+        fn visit(
+            self,
+            f: impl FnOnce(&mut dyn InternalVisitor<'v>) -> Result<(), Error>,
+        ) -> Result<(), Unsupported> {
+            let result = f(self.visitor);
+            let serialized = result.as_ref().map(|_| ()).map_err(|_| Unsupported);
+            *self.visited = Some(result);
+            serialized
+        }
+    }
 
     impl<'a, 'v> value_bag_serde1::lib::Serializer for VisitorSerializer<'a, 'v> {
         type Ok = ();
@@ -340,59 +362,59 @@ pub(crate) fn internal_visit(v: &dyn Serialize, visitor: &mut dyn InternalVisito
         type SerializeStructVariant = Impossible<Self::Ok, Self::Error>;
 
         fn serialize_u8(self, v: u8) -> Result<Self::Ok, Self::Error> {
-            self.0.u64(v as u64).map_err(|_| Unsupported)
+            self.visit(|visitor| visitor.u64(v as u64))
         }
 
         fn serialize_u16(self, v: u16) -> Result<Self::Ok, Self::Error> {
-            self.0.u64(v as u64).map_err(|_| Unsupported)
+            self.visit(|visitor| visitor.u64(v as u64))
         }
 
         fn serialize_u32(self, v: u32) -> Result<Self::Ok, Self::Error> {
-            self.0.u64(v as u64).map_err(|_| Unsupported)
+            self.visit(|visitor| visitor.u64(v as u64))
         }
 
         fn serialize_u64(self, v: u64) -> Result<Self::Ok, Self::Error> {
-            self.0.u64(v).map_err(|_| Unsupported)
+            self.visit(|visitor| visitor.u64(v))
         }
 
         fn serialize_u128(self, v: u128) -> Result<Self::Ok, Self::Error> {
-            self.0.u128(&v).map_err(|_| Unsupported)
+            self.visit(|visitor| visitor.u128(&v))
         }
 
         fn serialize_i8(self, v: i8) -> Result<Self::Ok, Self::Error> {
-            self.0.i64(v as i64).map_err(|_| Unsupported)
+            self.visit(|visitor| visitor.i64(v as i64))
         }
 
         fn serialize_i16(self, v: i16) -> Result<Self::Ok, Self::Error> {
-            self.0.i64(v as i64).map_err(|_| Unsupported)
+            self.visit(|visitor| visitor.i64(v as i64))
         }
 
         fn serialize_i32(self, v: i32) -> Result<Self::Ok, Self::Error> {
-            self.0.i64(v as i64).map_err(|_| Unsupported)
+            self.visit(|visitor| visitor.i64(v as i64))
         }
 
         fn serialize_i64(self, v: i64) -> Result<Self::Ok, Self::Error> {
-            self.0.i64(v).map_err(|_| Unsupported)
+            self.visit(|visitor| visitor.i64(v))
         }
 
         fn serialize_i128(self, v: i128) -> Result<Self::Ok, Self::Error> {
-            self.0.i128(&v).map_err(|_| Unsupported)
+            self.visit(|visitor| visitor.i128(&v))
         }
 
         fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
-            self.0.f64(v as f64).map_err(|_| Unsupported)
+            self.visit(|visitor| visitor.f64(v as f64))
         }
 
         fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
-            self.0.f64(v).map_err(|_| Unsupported)
+            self.visit(|visitor| visitor.f64(v))
         }
 
         fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
-            self.0.char(v).map_err(|_| Unsupported)
+            self.visit(|visitor| visitor.char(v))
         }
 
         fn serialize_bool(self, v: bool) -> Result<Self::Ok, Self::Error> {
-            self.0.bool(v).map_err(|_| Unsupported)
+            self.visit(|visitor| visitor.bool(v))
         }
 
         fn serialize_some<T>(self, v: &T) -> Result<Self::Ok, Self::Error>
@@ -403,11 +425,11 @@ pub(crate) fn internal_visit(v: &dyn Serialize, visitor: &mut dyn InternalVisito
         }
 
         fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
-            self.0.none().map_err(|_| Unsupported)
+            self.visit(|visitor| visitor.none())
         }
 
         fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
-            self.0.none().map_err(|_| Unsupported)
+            self.visit(|visitor| visitor.none())
         }
 
         fn serialize_bytes(self, _: &[u8]) -> Result<Self::Ok, Self::Error> {
@@ -415,7 +437,7 @@ pub(crate) fn internal_visit(v: &dyn Serialize, visitor: &mut dyn InternalVisito
         }
 
         fn serialize_str(self, s: &str) -> Result<Self::Ok, Self::Error> {
-            self.0.str(s).map_err(|_| Unsupported)
+            self.visit(|visitor| visitor.str(s))
         }
 
         fn serialize_unit_struct(self, _: &'static str) -> Result<Self::Ok, Self::Error> {
@@ -510,7 +532,21 @@ pub(crate) fn internal_visit(v: &dyn Serialize, visitor: &mut dyn InternalVisito
         }
     }
 
-    value_bag_serde1::erased::serialize(v, VisitorSerializer(visitor)).is_ok()
+    let mut visited = None;
+    let serialized = value_bag_serde1::erased::serialize(
+        v,
+        VisitorSerializer {
+            visitor,
+            visited: &mut visited,
+        },
+    );
+
+    match (visited, serialized) {
+        (Some(Err(e)), _) => Err(e),
+        (_, Ok(())) => Ok(true),
+        (Some(Ok(())), Err(e)) => Err(Error::serde(e)),
+        (None, Err(_)) => Ok(false),
+    }
 }
 
 impl Error {
diff --git a/src/internal/sval/v2.rs b/src/internal/sval/v2.rs
index 5c9a100..330d026 100644
--- a/src/internal/sval/v2.rs
+++ b/src/internal/sval/v2.rs
@@ -269,59 +269,102 @@ where
     value_bag_sval2::serde1::serialize(s, v)
 }
 
-pub(crate) fn internal_visit(v: &dyn Value, visitor: &mut dyn InternalVisitor<'_>) -> bool {
+/// Visit a value as a primitive.
+///
+/// Returns `Ok(false)` if the value isn't a primitive and nothing was visited.
+/// If the visitor itself fails then its error is returned.
+pub(crate) fn internal_visit(
+    v: &dyn Value,
+    visitor: &mut dyn InternalVisitor<'_>,
+) -> Result<bool, Error> {
     let mut visitor = VisitorStream {
         visitor,
+        visited: None,
         text_buf: Default::default(),
     };
 
-    value_bag_sval2::lib::stream_computed(&mut visitor, v).is_ok()
+    let streamed = value_bag_sval2::lib::stream_computed(&mut visitor, v);
+    visitor.into_result(streamed)
 }
 
+/// Visit a borrowed value as a primitive.
+///
+/// Returns `Ok(false)` if the value isn't a primitive and nothing was visited.
+/// If the visitor itself fails then its error is returned.
 pub(crate) fn borrowed_internal_visit<'v>(
     v: &'v dyn Value,
     visitor: &mut dyn InternalVisitor<'v>,
-) -> bool {
+) -> Result<bool, Error> {
     let mut visitor = VisitorStream {
         visitor,
+        visited: None,
         text_buf: Default::default(),
     };
 
-    value_bag_sval2::lib::stream(&mut visitor, v).is_ok()
+    let streamed = value_bag_sval2::lib::stream(&mut visitor, v);
+    visitor.into_result(streamed)
 }
 
 struct VisitorStream<'a, 'v> {
     visitor: &'a mut dyn InternalVisitor<'v>,
+    visited: Option<Result<(), Error>>,
     text_buf: value_bag_sval2::buffer::TextBuf<'v>,
 }
 
+impl<'a, 'v> VisitorStream<'a, 'v> {
+    fn visited(&mut self, result: Result<(), Error>) -> value_bag_sval2::lib::Result {
+        let streamed = match result {
+            Ok(()) => Ok(()),
+            Err(_) => value_bag_sval2::lib::error(),
+        };
+        self.visited = Some(result);
+        streamed
+    }
+
+    fn into_result(self, streamed: value_bag_sval2::lib::Result) -> Result<bool, Error> {
+        match (self.visited, streamed) {
+            (Some(Err(e)), _) => Err(e),
+            (_, Ok(())) => Ok(true),
+            (Some(Ok(())), Err(e)) => Err(Error::from_sval2(e)),
+            (None, Err(_)) => Ok(false),
+        }
+    }
+}
+
 impl<'a, 'v> value_bag_sval2::lib::Stream<'v> for VisitorStream<'a, 'v> {
     fn null(&mut self) -> value_bag_sval2::lib::Result {
-        self.visitor.none().map_err(Error::into_sval2)
+        let result = self.visitor.none();
+        self.visited(result)
     }
 
     fn bool(&mut self, v: bool) -> value_bag_sval2::lib::Result {
-        self.visitor.bool(v).map_err(Error::into_sval2)
+        let result = self.visitor.bool(v);
+        self.visited(result)
     }
 
     fn i64(&mut self, v: i64) -> value_bag_sval2::lib::Result {
-        self.visitor.i64(v).map_err(Error::into_sval2)
+        let result = self.visitor.i64(v);
+        self.visited(result)
     }
 
     fn u64(&mut self, v: u64) -> value_bag_sval2::lib::Result {
-        self.visitor.u64(v).map_err(Error::into_sval2)
+        let result = self.visitor.u64(v);
+        self.visited(result)
     }
 
     fn i128(&mut self, v: i128) -> value_bag_sval2::lib::Result {
-        self.visitor.i128(&v).map_err(Error::into_sval2)
+        let result = self.visitor.i128(&v);
+        self.visited(result)
     }
 
     fn u128(&mut self, v: u128) -> value_bag_sval2::lib::Result {
-        self.visitor.u128(&v).map_err(Error::into_sval2)
+        let result = self.visitor.u128(&v);
+        self.visited(result)
     }
 
     fn f64(&mut self, v: f64) -> value_bag_sval2::lib::Result {
-        self.visitor.f64(v).map_err(Error::into_sval2)
+        let result = self.visitor.f64(v);
+        self.visited(result)
     }
 
     fn text_begin(&mut self, _: Option<usize>) -> value_bag_sval2::lib::Result {
@@ -342,13 +385,12 @@ impl<'a, 'v> value_bag_sval2::lib::Stream<'v> for VisitorStream<'a, 'v> {
     }
 
     fn text_end(&mut self) -> value_bag_sval2::lib::Result {
-        if let Some(v) = self.text_buf.as_borrowed_str() {
-            self.visitor.borrowed_str(v).map_err(Error::into_sval2)
+        let result = if let Some(v) = self.text_buf.as_borrowed_str() {
+            self.visitor.borrowed_str(v)
         } else {
-            self.visitor
-                .str(self.text_buf.as_str())
-                .map_err(Error::into_sval2)
-        }
+            self.visitor.str(self.text_buf.as_str())
+        };
+        self.visited(result)
     }
 
     fn seq_begin(&mut self, _: Option<usize>) -> value_bag_sval2::lib::Result {
diff --git a/src/visit.rs b/src/visit.rs
index 346550d..09bc6eb 100644
--- a/src/visit.rs
+++ b/src/visit.rs
@@ -307,7 +307,7 @@ impl<'v> ValueBag<'v> {
 
             #[cfg(feature = "sval2")]
             fn sval2(&mut self, v: &dyn internal::sval::v2::Value) -> Result<(), Error> {
-                if internal::sval::v2::internal_visit(v, self) {
+                if internal::sval::v2::internal_visit(v, self)? {
                     Ok(())
                 } else {
                     self.0.visit_any(ValueBag::from_dyn_sval2(v))
@@ -319,7 +319,7 @@ impl<'v> ValueBag<'v> {
                 &mut self,
                 v: &'v dyn internal::sval::v2::Value,
             ) -> Result<(), Error> {
-                if internal::sval::v2::borrowed_internal_visit(v, self) {
+                if internal::sval::v2::borrowed_internal_visit(v, self)? {
                     Ok(())
                 } else {
                     self.0.visit_any(ValueBag::from_dyn_sval2(v))
@@ -328,7 +328,7 @@ impl<'v> ValueBag<'v> {
 
             #[cfg(feature = "serde1")]
             fn serde1(&mut self, v: &dyn internal::serde::v1::Serialize) -> Result<(), Error> {
-                if internal::serde::v1::internal_visit(v, self) {
+                if internal::serde::v1::internal_visit(v, self)? {
                     Ok(())
                 } else {
                     self.0.visit_any(ValueBag::from_dyn_serde1(v))
-- 
2.43.0


From 05e11d2e3b46144431ab10f01832e33db9c12fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:20 +0000
Subject: [PATCH 2/5] fix: return the serializer's own error when serializing
 with serde

Formatting the serializer's error panics when the serializer is an
erased one, which is the case for a bag nested in a captured value.
---
 src/internal/serde/v1.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/internal/serde/v1.rs b/src/internal/serde/v1.rs
index f1f142e..b9169df 100644
--- a/src/internal/serde/v1.rs
+++ b/src/internal/serde/v1.rs
@@ -136,7 +136,9 @@ impl<'v> value_bag_serde1::lib::Serialize for ValueBag<'v> {
             fn result(&self) -> Result<(), Error> {
                 match self.result {
                     Some(Ok(_)) => Ok(()),
-                    Some(Err(ref e)) => Err(Error::serde(e)),
+                    // The serializer's own error is kept in `self.result`. It can't be formatted
+                    // here: error types used for short-circuiting aren't always printable
+                    Some(Err(_)) => Err(Error::msg("`serde` serialization failed")),
                     None => Err(Error::msg("`serde` serialization didn't produce a result")),
                 }
             }
@@ -264,10 +266,16 @@ impl<'v> value_bag_serde1::lib::Serialize for ValueBag<'v> {
             result: None,
         };
 
-        self.internal_visit(&mut visitor)
-            .map_err(S::Error::custom)?;
+        let visited = self.internal_visit(&mut visitor);
 
-        visitor.into_result()
+        match visitor.result {
+            Some(Err(e)) => Err(e),
+            _ => {
+                visited.map_err(S::Error::custom)?;
+
+                visitor.into_result()
+            }
+        }
     }
 }
 
-- 
2.43.0


From b4e892bac9c6ce6fe6291ec151a7309636650c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:36 +0000
Subject: [PATCH 3/5] fix: count a deeply nested sequence as a single element

Extracting a sequence from an sval value added an extra null element
for every level of nesting below the second.
---
 src/internal/sval/v2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/sval/v2.rs b/src/internal/sval/v2.rs
index 330d026..9f5b7aa 100644
--- a/src/internal/sval/v2.rs
+++ b/src/internal/sval/v2.rs
@@ -625,7 +625,7 @@ pub(crate) mod seq {
             // Treat nested complex values as null
             // This ensures an upstream visitor sees them, but won't
             // be able to convert them into anything meaningful
-            if self.depth > 1 {
+            if self.depth == 2 {
                 if let Some(ref mut seq) = self.seq {
                     seq.extend_borrowed(ValueBag::from(()).inner);
                 }
-- 
2.43.0


From 126b9578c91510e04618c63033c5db10a03dba6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:43 +0000
Subject: [PATCH 4/5] fix: mark a value that fails while being buffered as
 failed

A deferred value whose supplier failed was silently buffered as an
empty or partial value.
---
 src/internal/owned.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/internal/owned.rs b/src/internal/owned.rs
index dda0638..8bb9b5b 100644
--- a/src/internal/owned.rs
+++ b/src/internal/owned.rs
@@ -379,9 +379,10 @@ impl<'v> Internal<'v> {
 
         let mut visitor = OwnedVisitor(OwnedInternal::None);
 
-        let _ = self.internal_visit(&mut visitor);
-
-        visitor.0
+        match self.internal_visit(&mut visitor) {
+            Ok(()) => visitor.0,
+            Err(_) => OwnedInternal::Poisoned("failed to buffer the value"),
+        }
     }
 }
 
-- 
2.43.0


From 19c8302ac7e25ea5f9094a189fae939711dae74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:58:59 +0000
Subject: [PATCH 5/5] fix: don't panic when buffering a value that fails to
 format

Buffering a failing Debug, Display or Error value panicked unless the
inline-str feature was enabled. Use the same explanatory text in all
configurations.
---
 src/internal/error.rs |  7 +++++--
 src/internal/fmt.rs   | 17 ++++++++++++++---
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/internal/error.rs b/src/internal/error.rs
index 75ee76c..73a83f3 100644
--- a/src/internal/error.rs
+++ b/src/internal/error.rs
@@ -74,7 +74,10 @@ pub use self::error::Error;
 
 #[cfg(feature = "owned")]
 pub(crate) mod owned {
-    use crate::std::{boxed::Box, error, fmt, string::ToString};
+    use crate::{
+        internal::fmt::owned::buffer_boxed,
+        std::{boxed::Box, error, fmt},
+    };
 
     #[derive(Clone, Debug)]
     pub(crate) struct OwnedError {
@@ -100,7 +103,7 @@ pub(crate) mod owned {
 
     pub(crate) fn buffer(err: &(dyn error::Error + 'static)) -> OwnedError {
         OwnedError {
-            display: err.to_string().into(),
+            display: buffer_boxed(err),
             source: err.source().map(buffer).map(Box::new),
         }
     }
diff --git a/src/internal/fmt.rs b/src/internal/fmt.rs
index ba88e11..cf944d1 100644
--- a/src/internal/fmt.rs
+++ b/src/internal/fmt.rs
@@ -420,7 +420,7 @@ pub(crate) mod owned {
         }
         #[cfg(not(feature = "inline-str"))]
         {
-            Err(OwnedFmt(format!("{v:?}").into()))
+            Err(OwnedFmt(buffer_boxed(format_args!("{v:?}"))))
         }
     }
 
@@ -431,9 +431,20 @@ pub(crate) mod owned {
         }
         #[cfg(not(feature = "inline-str"))]
         {
-            use crate::std::string::ToString as _;
+            Err(OwnedFmt(buffer_boxed(v)))
+        }
+    }
+
+    #[cfg(any(feature = "error", not(feature = "inline-str")))]
+    pub(in crate::internal) fn buffer_boxed(v: impl fmt::Display) -> Box<str> {
+        use crate::std::{fmt::Write as _, string::String};
+
+        let mut buffer = String::new();
 
-            Err(OwnedFmt(v.to_string().into()))
+        // NOTE: `to_string` and `format!` panic if the value fails to format
+        match write!(&mut buffer, "{v}") {
+            Ok(()) => buffer.into_boxed_str(),
+            Err(err) => format!("<{err}>").into_boxed_str(),
         }
     }
 
-- 
2.43.0

