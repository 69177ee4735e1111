From d1f0cdfa2e430f7ece1cf0d2709029f0007cae2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:46 +0000
Subject: [PATCH 1/5] fix: return a visitor's error for values captured through
 sval and serde

Visiting a primitive captured through sval or serde treated a failing
visitor as a non-primitive value. The error was dropped and the visitor
was called a second time with the whole value.
---
 src/internal/cast/mod.rs |  6 +--
 src/internal/serde/v1.rs | 79 ++++++++++++++++++++++++++++++----------
 src/internal/sval/v2.rs  | 62 +++++++++++++++++++++++--------
 src/visit.rs             |  6 +--
 4 files changed, 112 insertions(+), 41 deletions(-)

diff --git a/src/internal/cast/mod.rs b/src/internal/cast/mod.rs
index 6fc18fd..2ae5f29 100644
--- a/src/internal/cast/mod.rs
+++ b/src/internal/cast/mod.rs
@@ -275,7 +275,7 @@ impl<'v> Internal<'v> {
             #[cfg(feature = "sval2")]
             #[inline]
             fn sval2(&mut self, v: &dyn super::sval::v2::Value) -> Result<(), Error> {
-                if super::sval::v2::internal_visit(v, self) {
+                if super::sval::v2::internal_visit(v, self)? {
                     Ok(())
                 } else {
                     Err(Error::msg("invalid cast"))
@@ -284,7 +284,7 @@ impl<'v> Internal<'v> {
 
             #[cfg(feature = "sval2")]
             fn borrowed_sval2(&mut self, v: &'v dyn super::sval::v2::Value) -> Result<(), Error> {
-                if super::sval::v2::borrowed_internal_visit(v, self) {
+                if super::sval::v2::borrowed_internal_visit(v, self)? {
                     Ok(())
                 } else {
                     Err(Error::msg("invalid cast"))
@@ -294,7 +294,7 @@ impl<'v> Internal<'v> {
             #[cfg(feature = "serde1")]
             #[inline]
             fn serde1(&mut self, v: &dyn super::serde::v1::Serialize) -> Result<(), Error> {
-                if super::serde::v1::internal_visit(v, self) {
+                if super::serde::v1::internal_visit(v, self)? {
                     Ok(())
                 } else {
                     Err(Error::msg("invalid cast"))
diff --git a/src/internal/serde/v1.rs b/src/internal/serde/v1.rs
index 8ee44f8..a9201f6 100644
--- a/src/internal/serde/v1.rs
+++ b/src/internal/serde/v1.rs
@@ -324,8 +324,26 @@ fn serialize_seq<S: value_bag_serde1::lib::Serializer>(
     s.serializer.end()
 }
 
-pub(crate) fn internal_visit(v: &dyn Serialize, visitor: &mut dyn InternalVisitor<'_>) -> bool {
-    struct VisitorSerializer<'a, 'v>(&'a mut dyn InternalVisitor<'v>);
+/**
+Visit a value if it's a primitive.
+
+If the value isn't a primitive then this function returns `Ok(false)`.
+If the visitor itself fails then its error is returned.
+*/
+pub(crate) fn internal_visit(
+    v: &dyn Serialize,
+    visitor: &mut dyn InternalVisitor<'_>,
+) -> Result<bool, Error> {
+    struct VisitorSerializer<'a, 'v>(&'a mut dyn InternalVisitor<'v>, &'a mut Option<Error>);
+
+    impl<'a, 'v> VisitorSerializer<'a, 'v> {
+        fn visited(self, r: Result<(), Error>) -> Result<(), Unsupported> {
+            r.map_err(|e| {
+                *self.1 = Some(e);
+                Unsupported
+            })
+        }
+    }
 
     impl<'a, 'v> value_bag_serde1::lib::Serializer for VisitorSerializer<'a, 'v> {
         type Ok = ();
@@ -340,59 +358,73 @@ pub(crate) fn internal_visit(v: &dyn Serialize, visitor: &mut dyn InternalVisito
         type SerializeStructVariant = Impossible<Self::Ok, Self::Error>;
 
         fn serialize_u8(self, v: u8) -> Result<Self::Ok, Self::Error> {
-            self.0.u64(v as u64).map_err(|_| Unsupported)
+            let r = self.0.u64(v as u64);
+            self.visited(r)
         }
 
         fn serialize_u16(self, v: u16) -> Result<Self::Ok, Self::Error> {
-            self.0.u64(v as u64).map_err(|_| Unsupported)
+            let r = self.0.u64(v as u64);
+            self.visited(r)
         }
 
         fn serialize_u32(self, v: u32) -> Result<Self::Ok, Self::Error> {
-            self.0.u64(v as u64).map_err(|_| Unsupported)
+            let r = self.0.u64(v as u64);
+            self.visited(r)
         }
 
         fn serialize_u64(self, v: u64) -> Result<Self::Ok, Self::Error> {
-            self.0.u64(v).map_err(|_| Unsupported)
+            let r = self.0.u64(v);
+            self.visited(r)
         }
 
         fn serialize_u128(self, v: u128) -> Result<Self::Ok, Self::Error> {
-            self.0.u128(&v).map_err(|_| Unsupported)
+            let r = self.0.u128(&v);
+            self.visited(r)
         }
 
         fn serialize_i8(self, v: i8) -> Result<Self::Ok, Self::Error> {
-            self.0.i64(v as i64).map_err(|_| Unsupported)
+            let r = self.0.i64(v as i64);
+            self.visited(r)
         }
 
         fn serialize_i16(self, v: i16) -> Result<Self::Ok, Self::Error> {
-            self.0.i64(v as i64).map_err(|_| Unsupported)
+            let r = self.0.i64(v as i64);
+            self.visited(r)
         }
 
         fn serialize_i32(self, v: i32) -> Result<Self::Ok, Self::Error> {
-            self.0.i64(v as i64).map_err(|_| Unsupported)
+            let r = self.0.i64(v as i64);
+            self.visited(r)
         }
 
         fn serialize_i64(self, v: i64) -> Result<Self::Ok, Self::Error> {
-            self.0.i64(v).map_err(|_| Unsupported)
+            let r = self.0.i64(v);
+            self.visited(r)
         }
 
         fn serialize_i128(self, v: i128) -> Result<Self::Ok, Self::Error> {
-            self.0.i128(&v).map_err(|_| Unsupported)
+            let r = self.0.i128(&v);
+            self.visited(r)
         }
 
         fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
-            self.0.f64(v as f64).map_err(|_| Unsupported)
+            let r = self.0.f64(v as f64);
+            self.visited(r)
         }
 
         fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
-            self.0.f64(v).map_err(|_| Unsupported)
+            let r = self.0.f64(v);
+            self.visited(r)
         }
 
         fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
-            self.0.char(v).map_err(|_| Unsupported)
+            let r = self.0.char(v);
+            self.visited(r)
         }
 
         fn serialize_bool(self, v: bool) -> Result<Self::Ok, Self::Error> {
-            self.0.bool(v).map_err(|_| Unsupported)
+            let r = self.0.bool(v);
+            self.visited(r)
         }
 
         fn serialize_some<T>(self, v: &T) -> Result<Self::Ok, Self::Error>
@@ -403,11 +435,13 @@ pub(crate) fn internal_visit(v: &dyn Serialize, visitor: &mut dyn InternalVisito
         }
 
         fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
-            self.0.none().map_err(|_| Unsupported)
+            let r = self.0.none();
+            self.visited(r)
         }
 
         fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
-            self.0.none().map_err(|_| Unsupported)
+            let r = self.0.none();
+            self.visited(r)
         }
 
         fn serialize_bytes(self, _: &[u8]) -> Result<Self::Ok, Self::Error> {
@@ -415,7 +449,8 @@ pub(crate) fn internal_visit(v: &dyn Serialize, visitor: &mut dyn InternalVisito
         }
 
         fn serialize_str(self, s: &str) -> Result<Self::Ok, Self::Error> {
-            self.0.str(s).map_err(|_| Unsupported)
+            let r = self.0.str(s);
+            self.visited(r)
         }
 
         fn serialize_unit_struct(self, _: &'static str) -> Result<Self::Ok, Self::Error> {
@@ -510,7 +545,11 @@ pub(crate) fn internal_visit(v: &dyn Serialize, visitor: &mut dyn InternalVisito
         }
     }
 
-    value_bag_serde1::erased::serialize(v, VisitorSerializer(visitor)).is_ok()
+    let mut err = None;
+    let visited =
+        value_bag_serde1::erased::serialize(v, VisitorSerializer(visitor, &mut err)).is_ok();
+
+    err.map(Err).unwrap_or(Ok(visited))
 }
 
 impl Error {
diff --git a/src/internal/sval/v2.rs b/src/internal/sval/v2.rs
index 5c9a100..eb328f7 100644
--- a/src/internal/sval/v2.rs
+++ b/src/internal/sval/v2.rs
@@ -269,59 +269,91 @@ where
     value_bag_sval2::serde1::serialize(s, v)
 }
 
-pub(crate) fn internal_visit(v: &dyn Value, visitor: &mut dyn InternalVisitor<'_>) -> bool {
+/**
+Visit a value if it's a primitive.
+
+If the value isn't a primitive then this function returns `Ok(false)`.
+If the visitor itself fails then its error is returned.
+*/
+pub(crate) fn internal_visit(
+    v: &dyn Value,
+    visitor: &mut dyn InternalVisitor<'_>,
+) -> Result<bool, Error> {
     let mut visitor = VisitorStream {
         visitor,
         text_buf: Default::default(),
+        err: None,
     };
 
-    value_bag_sval2::lib::stream_computed(&mut visitor, v).is_ok()
+    let visited = value_bag_sval2::lib::stream_computed(&mut visitor, v).is_ok();
+
+    visitor.err.map(Err).unwrap_or(Ok(visited))
 }
 
 pub(crate) fn borrowed_internal_visit<'v>(
     v: &'v dyn Value,
     visitor: &mut dyn InternalVisitor<'v>,
-) -> bool {
+) -> Result<bool, Error> {
     let mut visitor = VisitorStream {
         visitor,
         text_buf: Default::default(),
+        err: None,
     };
 
-    value_bag_sval2::lib::stream(&mut visitor, v).is_ok()
+    let visited = value_bag_sval2::lib::stream(&mut visitor, v).is_ok();
+
+    visitor.err.map(Err).unwrap_or(Ok(visited))
 }
 
 struct VisitorStream<'a, 'v> {
     visitor: &'a mut dyn InternalVisitor<'v>,
     text_buf: value_bag_sval2::buffer::TextBuf<'v>,
+    err: Option<Error>,
+}
+
+impl<'a, 'v> VisitorStream<'a, 'v> {
+    fn visited(&mut self, r: Result<(), Error>) -> value_bag_sval2::lib::Result {
+        r.map_err(|e| {
+            self.err = Some(e);
+            value_bag_sval2::lib::Error::new()
+        })
+    }
 }
 
 impl<'a, 'v> value_bag_sval2::lib::Stream<'v> for VisitorStream<'a, 'v> {
     fn null(&mut self) -> value_bag_sval2::lib::Result {
-        self.visitor.none().map_err(Error::into_sval2)
+        let r = self.visitor.none();
+        self.visited(r)
     }
 
     fn bool(&mut self, v: bool) -> value_bag_sval2::lib::Result {
-        self.visitor.bool(v).map_err(Error::into_sval2)
+        let r = self.visitor.bool(v);
+        self.visited(r)
     }
 
     fn i64(&mut self, v: i64) -> value_bag_sval2::lib::Result {
-        self.visitor.i64(v).map_err(Error::into_sval2)
+        let r = self.visitor.i64(v);
+        self.visited(r)
     }
 
     fn u64(&mut self, v: u64) -> value_bag_sval2::lib::Result {
-        self.visitor.u64(v).map_err(Error::into_sval2)
+        let r = self.visitor.u64(v);
+        self.visited(r)
     }
 
     fn i128(&mut self, v: i128) -> value_bag_sval2::lib::Result {
-        self.visitor.i128(&v).map_err(Error::into_sval2)
+        let r = self.visitor.i128(&v);
+        self.visited(r)
     }
 
     fn u128(&mut self, v: u128) -> value_bag_sval2::lib::Result {
-        self.visitor.u128(&v).map_err(Error::into_sval2)
+        let r = self.visitor.u128(&v);
+        self.visited(r)
     }
 
     fn f64(&mut self, v: f64) -> value_bag_sval2::lib::Result {
-        self.visitor.f64(v).map_err(Error::into_sval2)
+        let r = self.visitor.f64(v);
+        self.visited(r)
     }
 
     fn text_begin(&mut self, _: Option<usize>) -> value_bag_sval2::lib::Result {
@@ -343,11 +375,11 @@ impl<'a, 'v> value_bag_sval2::lib::Stream<'v> for VisitorStream<'a, 'v> {
 
     fn text_end(&mut self) -> value_bag_sval2::lib::Result {
         if let Some(v) = self.text_buf.as_borrowed_str() {
-            self.visitor.borrowed_str(v).map_err(Error::into_sval2)
+            let r = self.visitor.borrowed_str(v);
+            self.visited(r)
         } else {
-            self.visitor
-                .str(self.text_buf.as_str())
-                .map_err(Error::into_sval2)
+            let r = self.visitor.str(self.text_buf.as_str());
+            self.visited(r)
         }
     }
 
diff --git a/src/visit.rs b/src/visit.rs
index 346550d..09bc6eb 100644
--- a/src/visit.rs
+++ b/src/visit.rs
@@ -307,7 +307,7 @@ impl<'v> ValueBag<'v> {
 
             #[cfg(feature = "sval2")]
             fn sval2(&mut self, v: &dyn internal::sval::v2::Value) -> Result<(), Error> {
-                if internal::sval::v2::internal_visit(v, self) {
+                if internal::sval::v2::internal_visit(v, self)? {
                     Ok(())
                 } else {
                     self.0.visit_any(ValueBag::from_dyn_sval2(v))
@@ -319,7 +319,7 @@ impl<'v> ValueBag<'v> {
                 &mut self,
                 v: &'v dyn internal::sval::v2::Value,
             ) -> Result<(), Error> {
-                if internal::sval::v2::borrowed_internal_visit(v, self) {
+                if internal::sval::v2::borrowed_internal_visit(v, self)? {
                     Ok(())
                 } else {
                     self.0.visit_any(ValueBag::from_dyn_sval2(v))
@@ -328,7 +328,7 @@ impl<'v> ValueBag<'v> {
 
             #[cfg(feature = "serde1")]
             fn serde1(&mut self, v: &dyn internal::serde::v1::Serialize) -> Result<(), Error> {
-                if internal::serde::v1::internal_visit(v, self) {
+                if internal::serde::v1::internal_visit(v, self)? {
                     Ok(())
                 } else {
                     self.0.visit_any(ValueBag::from_dyn_serde1(v))
-- 
2.43.0


From 996c6a65c438207f938a1c3f69cf339cacc7d6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:46 +0000
Subject: [PATCH 2/5] fix: give one slot to each nested value in a sequence
 captured through sval

Sequences nested more than one level deep added extra empty elements to
the collected sequence.
---
 src/internal/sval/v2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/sval/v2.rs b/src/internal/sval/v2.rs
index eb328f7..6afe30d 100644
--- a/src/internal/sval/v2.rs
+++ b/src/internal/sval/v2.rs
@@ -615,7 +615,7 @@ pub(crate) mod seq {
             // Treat nested complex values as null
             // This ensures an upstream visitor sees them, but won't
             // be able to convert them into anything meaningful
-            if self.depth > 1 {
+            if self.depth == 2 {
                 if let Some(ref mut seq) = self.seq {
                     seq.extend_borrowed(ValueBag::from(()).inner);
                 }
-- 
2.43.0


From 7781723d3a14a2d01177fe20e56039488f8d8ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:53 +0000
Subject: [PATCH 3/5] fix: lend out errors borrowed from a shared value

A shared error viewed by reference could be visited as an error, but
couldn't be retrieved as one.
---
 src/internal/error.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/internal/error.rs b/src/internal/error.rs
index 75ee76c..03c23f8 100644
--- a/src/internal/error.rs
+++ b/src/internal/error.rs
@@ -31,6 +31,8 @@ impl<'v> ValueBag<'v> {
         match self.inner {
             Internal::Error(value) => Some(value.as_super()),
             Internal::AnonError(value) => Some(value),
+            #[cfg(feature = "owned")]
+            Internal::SharedRefError(value) => Some(value.as_super()),
             _ => None,
         }
     }
-- 
2.43.0


From cd50549f0294968dd24402d6e599b3d5d350c59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:34 +0000
Subject: [PATCH 4/5] fix: don't panic buffering a value that fails to format

Buffering a debuggable or displayable value, or an error, panicked when
its formatting implementation returned an error. The buffered text now
holds the same placeholder that's already used with inline-str.
---
 src/internal/error.rs |  6 ++++--
 src/internal/fmt.rs   | 21 ++++++++++++++++++---
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/internal/error.rs b/src/internal/error.rs
index 03c23f8..0af29fd 100644
--- a/src/internal/error.rs
+++ b/src/internal/error.rs
@@ -76,7 +76,9 @@ pub use self::error::Error;
 
 #[cfg(feature = "owned")]
 pub(crate) mod owned {
-    use crate::std::{boxed::Box, error, fmt, string::ToString};
+    use crate::std::{boxed::Box, error, fmt};
+
+    use crate::internal::fmt::owned::buffer_str;
 
     #[derive(Clone, Debug)]
     pub(crate) struct OwnedError {
@@ -102,7 +104,7 @@ pub(crate) mod owned {
 
     pub(crate) fn buffer(err: &(dyn error::Error + 'static)) -> OwnedError {
         OwnedError {
-            display: err.to_string().into(),
+            display: buffer_str(err),
             source: err.source().map(buffer).map(Box::new),
         }
     }
diff --git a/src/internal/fmt.rs b/src/internal/fmt.rs
index ba88e11..c26c326 100644
--- a/src/internal/fmt.rs
+++ b/src/internal/fmt.rs
@@ -420,7 +420,7 @@ pub(crate) mod owned {
         }
         #[cfg(not(feature = "inline-str"))]
         {
-            Err(OwnedFmt(format!("{v:?}").into()))
+            Err(OwnedFmt(buffer_str(format_args!("{v:?}"))))
         }
     }
 
@@ -431,9 +431,24 @@ pub(crate) mod owned {
         }
         #[cfg(not(feature = "inline-str"))]
         {
-            use crate::std::string::ToString as _;
+            Err(OwnedFmt(buffer_str(v)))
+        }
+    }
+
+    /**
+    Buffer a value as a string.
+
+    Unlike `ToString`, this function doesn't panic if the value can't be formatted.
+    */
+    #[cfg(any(feature = "error", not(feature = "inline-str")))]
+    pub(crate) fn buffer_str(v: impl fmt::Display) -> Box<str> {
+        use crate::std::{fmt::Write as _, string::String};
+
+        let mut buf = String::new();
 
-            Err(OwnedFmt(v.to_string().into()))
+        match write!(&mut buf, "{v}") {
+            Ok(()) => buf.into_boxed_str(),
+            Err(err) => format!("<{err}>").into_boxed_str(),
         }
     }
 
-- 
2.43.0


From bae0b97011aad94dc7a08597f0ab46549449d64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:42 +0000
Subject: [PATCH 5/5] fix: don't buffer a value that fails to fill as an empty
 one

A fill that returns an error now buffers to a poisoned value, the same
as any other value that fails to buffer.
---
 src/internal/owned.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/internal/owned.rs b/src/internal/owned.rs
index dda0638..8bb9b5b 100644
--- a/src/internal/owned.rs
+++ b/src/internal/owned.rs
@@ -379,9 +379,10 @@ impl<'v> Internal<'v> {
 
         let mut visitor = OwnedVisitor(OwnedInternal::None);
 
-        let _ = self.internal_visit(&mut visitor);
-
-        visitor.0
+        match self.internal_visit(&mut visitor) {
+            Ok(()) => visitor.0,
+            Err(_) => OwnedInternal::Poisoned("failed to buffer the value"),
+        }
     }
 }
 
-- 
2.43.0

