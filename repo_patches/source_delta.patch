From 098d0a607dd48516e3209b25b83a5c9280d260ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:55 +0000
Subject: [PATCH 01/22] fix: json: don't treat a map value as tagged by its key

A tagged map key left the formatter thinking an enum variant was open,
so a labelled value following it was wrapped in an object that was
never closed.
---
 json/src/to_fmt.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index 464e7bf..f11d191 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -254,6 +254,8 @@ where
     }
 
     fn map_value_begin(&mut self) -> sval::Result {
+        self.is_internally_tagged = false;
+
         Ok(())
     }
 
-- 
2.43.0


From 3603a647e027e398470c9ad914a2cd4296c4a07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:55 +0000
Subject: [PATCH 02/22] fix: json: only close objects that were opened for
 nested enums

An enum without a label or index wrapping another enum closed the object
of the inner variant twice.
---
 json/src/to_fmt.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index f11d191..faa6479 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -328,10 +328,10 @@ where
         }
 
         if self.is_internally_tagged {
-            self.internally_tagged_map_end()
-        } else {
-            self.internally_tagged_end(label, index)
+            _try_no_conv!(self.internally_tagged_map_end());
         }
+
+        self.internally_tagged_end(label, index)
     }
 
     fn tagged_begin(
-- 
2.43.0


From fbfde9d89ba745bbd563e3213ba8c6c49814f73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:55 +0000
Subject: [PATCH 03/22] fix: json: keep the zero of numbers like 0e1

Leading zeroes are dropped from numbers, but an exponent following them
needs one to form a valid JSON number.
---
 json/src/to_fmt.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index faa6479..e5eddef 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -620,6 +620,20 @@ impl NumberTextHandler {
                         self.at_start = false;
                         range.end += 1;
                     }
+                    // If we encounter an exponent directly after leading zeroes then
+                    // they were the whole integral part
+                    b'e' | b'E' => {
+                        if self.at_start {
+                            if self.sign_negative {
+                                _try_no_conv!(out.write_char('-'));
+                            }
+
+                            _try_no_conv!(out.write_char('0'));
+                        }
+
+                        self.at_start = false;
+                        range.end += 1;
+                    }
                     // If we encounter a sign then stash it until we know the number is finite
                     // A value like `-inf` should still write `null`, not `-null`
                     b'-' if self.at_start => {
-- 
2.43.0


From 775877ae4f19c855398880a76a9a0b21e4d7b0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:55 +0000
Subject: [PATCH 04/22] fix: json: report writers that stop accepting bytes

A writer returning Ok(0) silently truncated the document while reporting
success.
---
 json/src/to_io.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/json/src/to_io.rs b/json/src/to_io.rs
index 96f805b..9f480a3 100644
--- a/json/src/to_io.rs
+++ b/json/src/to_io.rs
@@ -20,7 +20,10 @@ pub fn stream_to_io_write(io: impl Write, v: impl sval::Value) -> Result<(), Err
 
             while buf.len() > 0 {
                 match self.io.write(buf) {
-                    Ok(0) => break,
+                    Ok(0) => {
+                        self.err = Some(io::ErrorKind::WriteZero.into());
+                        return Err(fmt::Error);
+                    }
                     Ok(n) => {
                         buf = &buf[n..];
                     }
-- 
2.43.0


From 57f0412de84ec999bdc6f67eaa10c1fa491fd659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:58 +0000
Subject: [PATCH 05/22] fix: keep the tag of a label when making it owned

Converting a label into an owned one, or cloning an owned one, dropped
the tag hint associated with it.
---
 src/data.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 96d28f5..82c237b 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -163,10 +163,16 @@ impl<'computed> Label<'computed> {
         #[cfg(not(feature = "alloc"))]
         {
             self.as_static_str()
-                .map(Label::new)
+                .map(|label| self.with_same_tag(Label::new(label)))
                 .ok_or_else(crate::Error::new)
         }
     }
+
+    #[inline(always)]
+    fn with_same_tag<'a>(&self, mut label: Label<'a>) -> Label<'a> {
+        label.tag = self.tag.clone();
+        label
+    }
 }
 
 impl<'a, 'b> PartialEq<Label<'b>> for Label<'a> {
@@ -570,7 +576,7 @@ mod alloc_support {
         fn clone(&self) -> Self {
             if let Some(owned) = self.backing_field_owned {
                 // SAFETY: `owned` lives as long as `Label`
-                Label::new_owned(unsafe { &*owned }.to_owned())
+                self.with_same_tag(Label::new_owned(unsafe { &*owned }.to_owned()))
             } else {
                 Label {
                     value_computed: self.value_computed,
@@ -590,11 +596,13 @@ mod alloc_support {
         This method will allocate if the label isn't based on a static string.
         */
         pub fn to_owned(&self) -> Label<'static> {
-            if let Some(backing_field_static) = self.backing_field_static {
-                Label::new(backing_field_static)
-            } else {
-                Label::new_owned(self.as_str().into())
-            }
+            self.with_same_tag(
+                if let Some(backing_field_static) = self.backing_field_static {
+                    Label::new(backing_field_static)
+                } else {
+                    Label::new_owned(self.as_str().into())
+                },
+            )
         }
     }
 
-- 
2.43.0


From fc72c1998560c3a37492c7432c74ce70e72a6e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:58 +0000
Subject: [PATCH 06/22] fix: buffer: don't panic collecting a value that fails
 by itself

A value may fail to stream without the collector ever seeing an error.
---
 buffer/src/fragments.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/buffer/src/fragments.rs b/buffer/src/fragments.rs
index d75d51c..c0ac305 100644
--- a/buffer/src/fragments.rs
+++ b/buffer/src/fragments.rs
@@ -40,9 +40,11 @@ impl<'sval> TextBuf<'sval> {
             err: None,
         };
 
-        value
-            .stream(&mut collector)
-            .map_err(|_| collector.err.unwrap())?;
+        value.stream(&mut collector).map_err(|_| {
+            collector
+                .err
+                .unwrap_or_else(|| Error::invalid_value("the value itself failed to stream"))
+        })?;
 
         Ok(collector.buf)
     }
@@ -297,9 +299,11 @@ impl<'sval> BinaryBuf<'sval> {
             err: None,
         };
 
-        value
-            .stream(&mut collector)
-            .map_err(|_| collector.err.unwrap())?;
+        value.stream(&mut collector).map_err(|_| {
+            collector
+                .err
+                .unwrap_or_else(|| Error::invalid_value("the value itself failed to stream"))
+        })?;
 
         Ok(collector.buf)
     }
-- 
2.43.0


From 24cf8424d9dba31dd720fd26a92340e648c7149a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:58 +0000
Subject: [PATCH 07/22] fix: buffer: don't panic on a fragment sent to an empty
 buffer

It's an error like any other fragment outside of text or binary.
---
 buffer/src/value.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/buffer/src/value.rs b/buffer/src/value.rs
index 8534aa0..9f66bb5 100644
--- a/buffer/src/value.rs
+++ b/buffer/src/value.rs
@@ -408,15 +408,15 @@ impl<'sval> sval::Stream<'sval> for ValueBuf<'sval> {
     }
 
     fn text_fragment(&mut self, fragment: &'sval str) -> sval::Result {
-        self.try_catch(|buf| match buf.current_mut().kind {
-            ValueKind::Text(ref mut text) => text.push_fragment(fragment),
+        self.try_catch(|buf| match buf.current_mut() {
+            Some(ValueKind::Text(ref mut text)) => text.push_fragment(fragment),
             _ => Err(Error::outside_container("text")),
         })
     }
 
     fn text_fragment_computed(&mut self, fragment: &str) -> sval::Result {
-        self.try_catch(|buf| match buf.current_mut().kind {
-            ValueKind::Text(ref mut text) => text.push_fragment_computed(fragment),
+        self.try_catch(|buf| match buf.current_mut() {
+            Some(ValueKind::Text(ref mut text)) => text.push_fragment_computed(fragment),
             _ => Err(Error::outside_container("text")),
         })
     }
@@ -435,15 +435,15 @@ impl<'sval> sval::Stream<'sval> for ValueBuf<'sval> {
     }
 
     fn binary_fragment(&mut self, fragment: &'sval [u8]) -> sval::Result {
-        self.try_catch(|buf| match buf.current_mut().kind {
-            ValueKind::Binary(ref mut binary) => binary.push_fragment(fragment),
+        self.try_catch(|buf| match buf.current_mut() {
+            Some(ValueKind::Binary(ref mut binary)) => binary.push_fragment(fragment),
             _ => Err(Error::outside_container("binary")),
         })
     }
 
     fn binary_fragment_computed(&mut self, fragment: &[u8]) -> sval::Result {
-        self.try_catch(|buf| match buf.current_mut().kind {
-            ValueKind::Binary(ref mut binary) => binary.push_fragment_computed(fragment),
+        self.try_catch(|buf| match buf.current_mut() {
+            Some(ValueKind::Binary(ref mut binary)) => binary.push_fragment_computed(fragment),
             _ => Err(Error::outside_container("binary")),
         })
     }
@@ -976,8 +976,8 @@ impl<'sval> ValueBuf<'sval> {
         Ok(())
     }
 
-    fn current_mut(&mut self) -> &mut ValuePart<'sval> {
-        self.parts.last_mut().expect("missing current")
+    fn current_mut(&mut self) -> Option<&mut ValueKind<'sval>> {
+        self.parts.last_mut().map(|part| &mut part.kind)
     }
 }
 
-- 
2.43.0


From b728f44bc76ded85fc2515929dd52629e35a98fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:58 +0000
Subject: [PATCH 08/22] fix: buffer: accept tag hints between text and binary
 fragments

Hints may be given at any point in a stream, but one given while text or
binary was being buffered made the next fragment fail.
---
 buffer/src/value.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/buffer/src/value.rs b/buffer/src/value.rs
index 9f66bb5..7f99a4a 100644
--- a/buffer/src/value.rs
+++ b/buffer/src/value.rs
@@ -639,6 +639,12 @@ impl<'sval> sval::Stream<'sval> for ValueBuf<'sval> {
         &mut self,
         tag: &sval::Tag,
     ) -> sval::Result {
+        // Fragments are buffered contiguously so there's nowhere
+        // to put a hint that's given between them
+        if self.is_in_text_or_binary {
+            return Ok(());
+        }
+
         self.try_catch(|buf| {
             buf.push_kind(ValueKind::TagHint {
                 tag: tag.clone(),
-- 
2.43.0


From 3763aeea11f8a05dd79089289a7c0ad80d87a527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:58 +0000
Subject: [PATCH 09/22] fix: buffer: a tag hint by itself isn't a complete
 value

---
 buffer/src/value.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/buffer/src/value.rs b/buffer/src/value.rs
index 7f99a4a..cbcf69b 100644
--- a/buffer/src/value.rs
+++ b/buffer/src/value.rs
@@ -165,7 +165,12 @@ impl<'sval> ValueBuf<'sval> {
     Whether or not the contents of the value buffer are complete.
     */
     pub fn is_complete(&self) -> bool {
-        self.stack.len() == 0 && self.parts.len() > 0 && !self.is_in_text_or_binary
+        self.stack.len() == 0
+            && !self.is_in_text_or_binary
+            && self
+                .parts
+                .iter()
+                .any(|part| !matches!(part.kind, ValueKind::TagHint { .. }))
     }
 
     /**
-- 
2.43.0


From 448c93ab245fc38b44d6c36fc39c13192761b5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:47 +0000
Subject: [PATCH 10/22] fix: nested: don't panic on nested enum variants with
 fields

---
 nested/src/flat.rs      | 34 +++++++++++++++++++++++++++++++---
 nested/src/flat_enum.rs |  4 ++++
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/nested/src/flat.rs b/nested/src/flat.rs
index b94d386..6abc326 100644
--- a/nested/src/flat.rs
+++ b/nested/src/flat.rs
@@ -417,6 +417,7 @@ impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S> {
         index: Option<&sval::Index>,
         num_entries: Option<usize>,
     ) -> sval::Result {
+        self.buffer_nested_variant();
         self.buffer_or_begin_with(
             |buf| buf.record_begin(tag, label, index, num_entries),
             |stream| {
@@ -492,6 +493,7 @@ impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S> {
         index: Option<&sval::Index>,
         num_entries: Option<usize>,
     ) -> sval::Result {
+        self.buffer_nested_variant();
         self.buffer_or_begin_with(
             |buf| buf.tuple_begin(tag, label, index, num_entries),
             |stream| {
@@ -1164,9 +1166,21 @@ impl<'sval, S: Stream<'sval>> FlatStream<'sval, S> {
                     let buf = mem::take(buf);
                     *buffered = None;
 
-                    return stream
-                        .state
-                        .value_computed(&buf, |stream, value| stream.value_computed(value));
+                    return match stream.state {
+                        // The fields of a nested variant
+                        State::Enum(ref mut variant) => {
+                            let variant = variant.take().ok_or_else(|| {
+                                Error::invalid_value(
+                                    "cannot stream enum value; the stream is already completed",
+                                )
+                            })?;
+
+                            Ok(Some(variant.stream.value_computed(&buf)?))
+                        }
+                        ref mut state => {
+                            state.value_computed(&buf, |stream, value| stream.value_computed(value))
+                        }
+                    };
                 }
 
                 return Ok(None);
@@ -1180,6 +1194,20 @@ impl<'sval, S: Stream<'sval>> FlatStream<'sval, S> {
         Ok(())
     }
 
+    // The fields of a variant nested in another enum can't be streamed until the
+    // enums around it are, so they're buffered
+    fn buffer_nested_variant(&mut self) {
+        if let FlatStream {
+            buffered: buffered @ None,
+            state: State::Enum(Some(variant)),
+        } = self
+        {
+            if variant.stream.is_nested() {
+                *buffered = Some(Buffered::Value(ValueBuf::new()));
+            }
+        }
+    }
+
     fn put_buffer(&mut self, buf: Buffered<'sval>) -> Result {
         match self.buffered {
             None => {
diff --git a/nested/src/flat_enum.rs b/nested/src/flat_enum.rs
index 7363aa2..186b771 100644
--- a/nested/src/flat_enum.rs
+++ b/nested/src/flat_enum.rs
@@ -39,6 +39,10 @@ impl<'sval, S: StreamEnum<'sval>> FlatStreamEnum<S> {
         })
     }
 
+    pub fn is_nested(&self) -> bool {
+        !self.queue.is_empty()
+    }
+
     pub fn end(self) -> Result<S::Ok> {
         self.value_or_recurse(|stream, _| stream.end(), |stream, _| stream.end(), ())
     }
-- 
2.43.0


From 84a26efee4c65e4a3882c41ca3cd51b249781eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:48 +0000
Subject: [PATCH 11/22] fix: nested: keep the elements of buffered sequences
 apart

---
 nested/src/flat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nested/src/flat.rs b/nested/src/flat.rs
index 6abc326..349ecb7 100644
--- a/nested/src/flat.rs
+++ b/nested/src/flat.rs
@@ -250,11 +250,11 @@ impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S> {
     }
 
     fn seq_value_begin(&mut self) -> sval::Result {
-        Ok(())
+        self.buffer_or_with(|buf| buf.seq_value_begin(), |_| Ok(()))
     }
 
     fn seq_value_end(&mut self) -> sval::Result {
-        Ok(())
+        self.buffer_or_with(|buf| buf.seq_value_end(), |_| Ok(()))
     }
 
     fn seq_end(&mut self) -> sval::Result {
-- 
2.43.0


From d6dc30f1351d251eb9562c3ac3da73c5b0661b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:29 +0000
Subject: [PATCH 12/22] fix: nested: don't recurse forever on an enum without a
 variant

---
 nested/src/flat_enum.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nested/src/flat_enum.rs b/nested/src/flat_enum.rs
index 186b771..91e79dc 100644
--- a/nested/src/flat_enum.rs
+++ b/nested/src/flat_enum.rs
@@ -44,7 +44,11 @@ impl<'sval, S: StreamEnum<'sval>> FlatStreamEnum<S> {
     }
 
     pub fn end(self) -> Result<S::Ok> {
-        self.value_or_recurse(|stream, _| stream.end(), |stream, _| stream.end(), ())
+        self.value_or_recurse(
+            |stream, _| stream.stream.empty(),
+            |stream, _| stream.end(),
+            (),
+        )
     }
 
     fn value_or_recurse<I>(
-- 
2.43.0


From aac6f1089bc1956fb6ea16ece69d455a64a5032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:24 +0000
Subject: [PATCH 13/22] fix: fmt: don't repeat the name of an enum after an
 empty container

---
 fmt/src/writer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fmt/src/writer.rs b/fmt/src/writer.rs
index e8ec851..3700552 100644
--- a/fmt/src/writer.rs
+++ b/fmt/src/writer.rs
@@ -304,6 +304,8 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
             .write_map_end(self.is_current_depth_empty)
             .map_err(|_| sval::Error::new())?;
 
+        self.is_current_depth_empty = false;
+
         Ok(())
     }
 
@@ -335,6 +337,8 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
             .write_seq_end(self.is_current_depth_empty)
             .map_err(|_| sval::Error::new())?;
 
+        self.is_current_depth_empty = false;
+
         Ok(())
     }
 
@@ -471,6 +475,8 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
             .write_record_end(self.is_current_depth_empty)
             .map_err(|_| sval::Error::new())?;
 
+        self.is_current_depth_empty = false;
+
         Ok(())
     }
 
@@ -521,6 +527,8 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
             .write_tuple_end(self.is_current_depth_empty)
             .map_err(|_| sval::Error::new())?;
 
+        self.is_current_depth_empty = false;
+
         Ok(())
     }
 }
-- 
2.43.0


From 9a5666ae0bb6dc943e13c0adfebb625115a960cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:50 +0000
Subject: [PATCH 14/22] fix: serde: keep the field names of unlabelled records

---
 serde/src/to_serialize.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/serde/src/to_serialize.rs b/serde/src/to_serialize.rs
index e0f54d6..e6f6711 100644
--- a/serde/src/to_serialize.rs
+++ b/serde/src/to_serialize.rs
@@ -100,7 +100,7 @@ impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S> {
 
     type Tuple = SerializeTuple<S::SerializeTupleStruct, S::SerializeTuple, S::Error>;
 
-    type Record = SerializeRecord<S::SerializeStruct, S::SerializeTuple, S::Error>;
+    type Record = SerializeRecord<S::SerializeStruct, S::SerializeMap, S::Error>;
 
     type Enum = SerializeEnum<S>;
 
@@ -284,7 +284,7 @@ impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S> {
             None => Ok(SerializeRecord {
                 serializer: self
                     .serializer
-                    .serialize_tuple(len)
+                    .serialize_map(Some(len))
                     .map(|serializer| MaybeNamed::Unnamed { serializer }),
             }),
         }
@@ -379,7 +379,7 @@ impl<
         TOk,
         TError,
         TNamed: serde::ser::SerializeStruct<Ok = TOk, Error = TError>,
-        TUnnamed: serde::ser::SerializeTuple<Ok = TOk, Error = TError>,
+        TUnnamed: serde::ser::SerializeMap<Ok = TOk, Error = TError>,
     > StreamRecord<'sval> for SerializeRecord<TNamed, TUnnamed, TError>
 {
     type Ok = Result<TOk, TError>;
@@ -404,7 +404,7 @@ impl<
                 }
             }
             Ok(MaybeNamed::Unnamed { ref mut serializer }) => {
-                match serializer.serialize_element(&ToSerialize::new(value)) {
+                match serializer.serialize_entry(label.as_str(), &ToSerialize::new(value)) {
                     Ok(()) => return Ok(()),
                     Err(err) => {
                         self.serializer = Err(err);
-- 
2.43.0


From f74ab13bf339f7c48cef812496cc839444590a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:43 +0000
Subject: [PATCH 15/22] fix: flatten: end the keys of nested maps

The end of a key in a map below the flattened value was passed through as the
beginning of another key.
---
 flatten/src/flattener.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatten/src/flattener.rs b/flatten/src/flattener.rs
index a3c412f..83f6d65 100644
--- a/flatten/src/flattener.rs
+++ b/flatten/src/flattener.rs
@@ -302,7 +302,7 @@ impl<'sval, S: Flatten<'sval>> Stream<'sval> for Flattener<'sval, S> {
                 state.in_flattening_map_key = false;
                 Ok(())
             },
-            |stream| stream.map_key_begin(),
+            |stream| stream.map_key_end(),
         )
     }
 
-- 
2.43.0


From f84a2bb2979c4f220bc101fda384898d14a89eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:43 +0000
Subject: [PATCH 16/22] fix: flatten: leave the enum at its end

The end of a tagged value around a flattened enum was matched against a
beginning that had been unwrapped, so the depth went below zero.
---
 flatten/src/flattener.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatten/src/flattener.rs b/flatten/src/flattener.rs
index 83f6d65..97dc89d 100644
--- a/flatten/src/flattener.rs
+++ b/flatten/src/flattener.rs
@@ -419,7 +419,10 @@ impl<'sval, S: Flatten<'sval>> Stream<'sval> for Flattener<'sval, S> {
         index: Option<&Index>,
     ) -> sval::Result {
         self.value_at_root(
-            |_, _| Ok(()),
+            |_, state| {
+                state.in_flattening_enum = false;
+                Ok(())
+            },
             |buf| buf.enum_end(tag, label, index),
             |stream| stream.enum_end(tag, label, index),
         )
-- 
2.43.0


From b43d2c1c24b05d1b1316b06dd748d63d7c029ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:43 +0000
Subject: [PATCH 17/22] fix: flatten: keep every part of a complex key

A number in a key replaced what came before it, and text replaced a number
before it, instead of being concatenated.
---
 flatten/src/label.rs | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/flatten/src/label.rs b/flatten/src/label.rs
index d15da13..60a845f 100644
--- a/flatten/src/label.rs
+++ b/flatten/src/label.rs
@@ -41,18 +41,25 @@ impl<'sval> LabelBuf<'sval> {
     }
 
     pub(crate) fn i128(&mut self, v: impl TryInto<i128>) -> sval::Result {
-        *self = LabelBuf::I128(v.try_into().map_err(|_| sval::Error::new())?);
-        Ok(())
+        self.push(LabelBuf::I128(v.try_into().map_err(|_| sval::Error::new())?))
     }
 
     pub(crate) fn u128(&mut self, v: impl TryInto<u128>) -> sval::Result {
-        *self = LabelBuf::U128(v.try_into().map_err(|_| sval::Error::new())?);
-        Ok(())
+        self.push(LabelBuf::U128(v.try_into().map_err(|_| sval::Error::new())?))
     }
 
     pub(crate) fn f64(&mut self, v: impl TryInto<f64>) -> sval::Result {
-        *self = LabelBuf::F64(v.try_into().map_err(|_| sval::Error::new())?);
-        Ok(())
+        self.push(LabelBuf::F64(v.try_into().map_err(|_| sval::Error::new())?))
+    }
+
+    // Values after the first are concatenated to it as text
+    fn push(&mut self, v: LabelBuf<'sval>) -> sval::Result {
+        if let LabelBuf::Empty = self {
+            *self = v;
+            return Ok(());
+        }
+
+        v.with_label(|label| self.text_fragment_computed(label.as_str()))
     }
 
     pub(crate) fn null(&mut self) -> sval::Result {
@@ -98,7 +105,18 @@ impl<'sval> LabelBuf<'sval> {
         match self {
             LabelBuf::Text(buf) => Ok(buf),
             _ => {
-                *self = LabelBuf::Text(TextBuf::new());
+                let mut buf = TextBuf::new();
+
+                mem::take(self).with_label(|label| {
+                    if !label.as_str().is_empty() {
+                        buf.push_fragment_computed(label.as_str())
+                            .map_err(|_| sval::Error::new())?;
+                    }
+
+                    Ok(())
+                })?;
+
+                *self = LabelBuf::Text(buf);
                 if let LabelBuf::Text(buf) = self {
                     Ok(buf)
                 } else {
-- 
2.43.0


From 57cb85c1ab790bdd94f6a74712bb581c31cb4c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:33 +0000
Subject: [PATCH 18/22] fix: nested: report values that fail by themselves

---
 nested/src/lib.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/nested/src/lib.rs b/nested/src/lib.rs
index fecf900..ef8fd07 100644
--- a/nested/src/lib.rs
+++ b/nested/src/lib.rs
@@ -929,6 +929,19 @@ pub mod default_stream {
 
     use super::*;
 
+    fn finish<'sval, S: Stream<'sval>>(
+        mut stream: FlatStream<'sval, S>,
+        r: sval::Result,
+    ) -> Result<S::Ok> {
+        // Errors from the stream are more specific than errors from the value
+        let ok = stream.finish()?;
+
+        match r {
+            Ok(()) => Ok(ok),
+            Err(_) => Err(Error::invalid_value("failed to stream value")),
+        }
+    }
+
     /**
     Recurse into a value.
     */
@@ -937,8 +950,8 @@ pub mod default_stream {
         value: V,
     ) -> Result<S::Ok> {
         let mut stream = FlatStream::new(stream);
-        let _ = sval_ref::stream_ref(&mut stream, value);
-        stream.finish()
+        let r = sval_ref::stream_ref(&mut stream, value);
+        finish(stream, r)
     }
 
     /**
@@ -959,8 +972,8 @@ pub mod default_stream {
         value: V,
     ) -> Result<S::Ok> {
         let mut stream = FlatStream::new(stream);
-        let _ = sval::default_stream::value_computed(&mut stream, &value);
-        stream.finish()
+        let r = sval::default_stream::value_computed(&mut stream, &value);
+        finish(stream, r)
     }
 
     /**
@@ -992,8 +1005,8 @@ pub mod default_stream {
             stream.i64(value)
         } else {
             let mut stream = FlatStream::new(stream);
-            let _ = sval::stream_number(&mut stream, value);
-            stream.finish()
+            let r = sval::stream_number(&mut stream, value);
+            finish(stream, r)
         }
     }
 
@@ -1033,8 +1046,8 @@ pub mod default_stream {
             stream.i64(value)
         } else {
             let mut stream = FlatStream::new(stream);
-            let _ = sval::stream_number(&mut stream, value);
-            stream.finish()
+            let r = sval::stream_number(&mut stream, value);
+            finish(stream, r)
         }
     }
 
-- 
2.43.0


From 233e2376e7725fd89da08ea16651d575a81d572d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:37 +0000
Subject: [PATCH 19/22] fix: derive: report the tag of a transparent newtype's
 value

---
 derive_macros/src/derive/derive_newtype.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/derive_macros/src/derive/derive_newtype.rs b/derive_macros/src/derive/derive_newtype.rs
index 6662826..fb22605 100644
--- a/derive_macros/src/derive/derive_newtype.rs
+++ b/derive_macros/src/derive/derive_newtype.rs
@@ -86,7 +86,13 @@ pub(crate) fn derive_newtype<'a>(
         attrs.transparent(),
     );
 
-    let tag = quote_optional_tag_owned(attrs.tag());
+    // A transparent newtype streams its inner value as-is,
+    // so its tag is the tag of that value
+    let tag = if attrs.transparent() {
+        None
+    } else {
+        Some(quote_optional_tag_owned(attrs.tag()))
+    };
 
     impl_tokens(
         impl_generics,
@@ -100,6 +106,6 @@ pub(crate) fn derive_newtype<'a>(
 
             Ok(())
         }),
-        Some(tag),
+        tag,
     )
 }
-- 
2.43.0


From 8aaa4b695eca44464a1759e1a6c20334613c5f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:19 +0000
Subject: [PATCH 20/22] fix: derive: count on from a variant's explicit index

---
 derive_macros/src/derive/derive_enum.rs       | 24 +++++++++----------
 derive_macros/src/derive/derive_newtype.rs    |  6 ++++-
 derive_macros/src/derive/derive_struct.rs     |  6 ++++-
 .../src/derive/derive_unit_struct.rs          |  6 ++++-
 4 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/derive_macros/src/derive/derive_enum.rs b/derive_macros/src/derive/derive_enum.rs
index 41e107c..31b99ea 100644
--- a/derive_macros/src/derive/derive_enum.rs
+++ b/derive_macros/src/derive/derive_enum.rs
@@ -92,14 +92,14 @@ pub(crate) fn derive_enum<'a>(
     let mut variant_match_arms = Vec::new();
     let mut index_allocator = IndexAllocator::new();
 
-    let mut variant_index = |index: Option<Index>, discriminant: Option<IndexValue>| {
-        index.or_else(|| {
-            if attrs.dynamic || attrs.unindexed_variants {
-                None
-            } else {
-                Some(index_allocator.next_const_index(discriminant))
-            }
-        })
+    // An explicit index takes precedence over a discriminant
+    // Later variants without either continue from it
+    let mut variant_index = |index: Option<IndexValue>, discriminant: Option<IndexValue>| {
+        if attrs.dynamic || attrs.unindexed_variants {
+            index.map(IndexAllocator::const_index_of)
+        } else {
+            Some(index_allocator.next_const_index(index.or(discriminant)))
+        }
     };
 
     let variant_label = |label: Option<LabelValue>, ident: &Ident| {
@@ -153,7 +153,7 @@ pub(crate) fn derive_enum<'a>(
                     &fields.unnamed[0],
                     attrs.tag(),
                     variant_label(attrs.label(), variant_ident),
-                    variant_index(attrs.index(), discriminant),
+                    variant_index(attrs.index_value(), discriminant),
                     variant_transparent,
                 )
             }
@@ -164,7 +164,7 @@ pub(crate) fn derive_enum<'a>(
                     quote!(#ident :: #variant_ident),
                     attrs.tag(),
                     unit_variant_label(attrs.label(), variant_ident),
-                    variant_index(attrs.index(), discriminant),
+                    variant_index(attrs.index_value(), discriminant),
                 )
             }
             Fields::Named(ref fields) => {
@@ -176,7 +176,7 @@ pub(crate) fn derive_enum<'a>(
                     RecordTupleTarget::named_fields(),
                     attrs.tag(),
                     variant_label(attrs.label(), variant_ident),
-                    variant_index(attrs.index(), discriminant),
+                    variant_index(attrs.index_value(), discriminant),
                     attrs.unlabeled_fields(),
                     attrs.unindexed_fields(),
                 )
@@ -190,7 +190,7 @@ pub(crate) fn derive_enum<'a>(
                     RecordTupleTarget::unnamed_fields(),
                     attrs.tag(),
                     variant_label(attrs.label(), variant_ident),
-                    variant_index(attrs.index(), discriminant),
+                    variant_index(attrs.index_value(), discriminant),
                     attrs.unlabeled_fields(),
                     attrs.unindexed_fields(),
                 )
diff --git a/derive_macros/src/derive/derive_newtype.rs b/derive_macros/src/derive/derive_newtype.rs
index fb22605..2f22764 100644
--- a/derive_macros/src/derive/derive_newtype.rs
+++ b/derive_macros/src/derive/derive_newtype.rs
@@ -58,7 +58,11 @@ impl NewtypeAttrs {
     }
 
     pub(crate) fn index(&self) -> Option<Index> {
-        self.index.clone().map(IndexAllocator::const_index_of)
+        self.index_value().map(IndexAllocator::const_index_of)
+    }
+
+    pub(crate) fn index_value(&self) -> Option<IndexValue> {
+        self.index.clone()
     }
 
     pub(crate) fn transparent(&self) -> bool {
diff --git a/derive_macros/src/derive/derive_struct.rs b/derive_macros/src/derive/derive_struct.rs
index d6bd4ef..d484d09 100644
--- a/derive_macros/src/derive/derive_struct.rs
+++ b/derive_macros/src/derive/derive_struct.rs
@@ -58,7 +58,11 @@ impl StructAttrs {
     }
 
     pub(crate) fn index(&self) -> Option<Index> {
-        self.index.clone().map(IndexAllocator::const_index_of)
+        self.index_value().map(IndexAllocator::const_index_of)
+    }
+
+    pub(crate) fn index_value(&self) -> Option<IndexValue> {
+        self.index.clone()
     }
 
     pub(crate) fn unlabeled_fields(&self) -> bool {
diff --git a/derive_macros/src/derive/derive_unit_struct.rs b/derive_macros/src/derive/derive_unit_struct.rs
index 58ce057..186eae0 100644
--- a/derive_macros/src/derive/derive_unit_struct.rs
+++ b/derive_macros/src/derive/derive_unit_struct.rs
@@ -39,7 +39,11 @@ impl UnitStructAttrs {
     }
 
     pub(crate) fn index(&self) -> Option<Index> {
-        self.index.clone().map(IndexAllocator::const_index_of)
+        self.index_value().map(IndexAllocator::const_index_of)
+    }
+
+    pub(crate) fn index_value(&self) -> Option<IndexValue> {
+        self.index.clone()
     }
 }
 
-- 
2.43.0


From cfd8304e61d852ad84238af1642371afd0b2088c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:55 +0000
Subject: [PATCH 21/22] fix: nested: keep the tags of labels without an
 allocator

---
 nested/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nested/src/lib.rs b/nested/src/lib.rs
index ef8fd07..5205e45 100644
--- a/nested/src/lib.rs
+++ b/nested/src/lib.rs
@@ -914,8 +914,13 @@ fn owned_label_ref(label: &sval::Label) -> Result<sval::Label<'static>> {
     }
     #[cfg(not(feature = "alloc"))]
     {
-        if let Some(label) = label.as_static_str() {
-            Ok(sval::Label::new(label))
+        if let Some(text) = label.as_static_str() {
+            let owned = sval::Label::new(text);
+
+            Ok(match label.tag() {
+                Some(tag) => owned.with_tag(tag),
+                None => owned,
+            })
         } else {
             Err(Error::no_alloc("streaming value"))
         }
-- 
2.43.0


From e919b4241abdf0ed82643d2b93d8e3b38ba882a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:37 +0000
Subject: [PATCH 22/22] fix: flatten: don't overflow on indexes at the end of
 their range

---
 flatten/src/index.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flatten/src/index.rs b/flatten/src/index.rs
index d41d0c1..a18c854 100644
--- a/flatten/src/index.rs
+++ b/flatten/src/index.rs
@@ -20,7 +20,7 @@ impl IndexAllocator {
             Some(incoming) => match (incoming.tag(), incoming.to_isize()) {
                 // If the incoming tag is a value offset then increment it by our starting point
                 (Some(&sval::tags::VALUE_OFFSET), Some(incoming)) => {
-                    Index::new_isize(incoming + self.initial_offset)
+                    Index::new_isize(incoming.saturating_add(self.initial_offset))
                         .with_tag(&sval::tags::VALUE_OFFSET)
                 }
                 // If the incoming tag is not a value offset then just use it directly
@@ -33,7 +33,10 @@ impl IndexAllocator {
 
     pub(crate) fn next_end(&mut self, incoming: Option<&Index>) -> Index {
         let index = self.next_begin(incoming);
-        self.current_offset = index.to_isize().unwrap_or(self.current_offset) + 1;
+        self.current_offset = index
+            .to_isize()
+            .unwrap_or(self.current_offset)
+            .saturating_add(1);
 
         index
     }
-- 
2.43.0

