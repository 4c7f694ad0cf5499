From 4d083130edf2636ef3db2894f4025654830fb43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:21 +0000
Subject: [PATCH 01/29] fix: forward finish, value_for_key and expecting in the
 sink of Option<T>

---
 deser/src/de/impls.rs | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/deser/src/de/impls.rs b/deser/src/de/impls.rs
index 014365c..24afd0b 100644
--- a/deser/src/de/impls.rs
+++ b/deser/src/de/impls.rs
@@ -528,7 +528,10 @@ where
         let sink = Deserialize::deserialize_into(out.as_mut().unwrap());
         match sink {
             SinkHandle::Null(_) => sink,
-            sink => SinkHandle::boxed(NullIgnoringSink { sink }),
+            sink => SinkHandle::boxed(NullIgnoringSink {
+                sink,
+                active: false,
+            }),
         }
     }
 
@@ -539,21 +542,28 @@ where
 
 struct NullIgnoringSink<'a> {
     sink: SinkHandle<'a>,
+    // set once the wrapped sink received something
+    active: bool,
 }
 
 impl<'a> Sink for NullIgnoringSink<'a> {
     fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
         match atom {
             Atom::Null => Ok(()),
-            other => self.sink.atom(other, state),
+            other => {
+                self.active = true;
+                self.sink.atom(other, state)
+            }
         }
     }
 
     fn map(&mut self, state: &DeserializerState) -> Result<(), Error> {
+        self.active = true;
         self.sink.map(state)
     }
 
     fn seq(&mut self, state: &DeserializerState) -> Result<(), Error> {
+        self.active = true;
         self.sink.seq(state)
     }
 
@@ -565,9 +575,31 @@ impl<'a> Sink for NullIgnoringSink<'a> {
         self.sink.next_value(state)
     }
 
+    fn value_for_key(
+        &mut self,
+        key: &str,
+        state: &DeserializerState,
+    ) -> Result<Option<SinkHandle>, Error> {
+        let rv = self.sink.value_for_key(key, state)?;
+        self.active |= rv.is_some();
+        Ok(rv)
+    }
+
+    fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
+        if self.active {
+            self.sink.finish(state)
+        } else {
+            Ok(())
+        }
+    }
+
     fn descriptor(&self) -> &dyn Descriptor {
         self.sink.descriptor()
     }
+
+    fn expecting(&self) -> std::borrow::Cow<'_, str> {
+        self.sink.expecting()
+    }
 }
 
 macro_rules! deserialize_for_tuple {
-- 
2.43.0


From e3e69c880d5fc07cb8d85d42d933cfdea3e42339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:21 +0000
Subject: [PATCH 02/29] fix: accept maps in the HashMap sink

---
 deser/src/de/impls.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deser/src/de/impls.rs b/deser/src/de/impls.rs
index 24afd0b..cc0c582 100644
--- a/deser/src/de/impls.rs
+++ b/deser/src/de/impls.rs
@@ -388,6 +388,10 @@ where
                 &DESCRIPTOR
             }
 
+            fn map(&mut self, _state: &DeserializerState) -> Result<(), Error> {
+                Ok(())
+            }
+
             fn next_key(&mut self, _state: &DeserializerState) -> Result<SinkHandle, Error> {
                 self.flush();
                 Ok(Deserialize::deserialize_into(&mut self.key))
-- 
2.43.0


From 0a7683229ff465a334cfdf12af24e4b20e6da947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:22 +0000
Subject: [PATCH 03/29] fix: reject integers that do not fit the target type
 instead of wrapping them

---
 deser/src/de/impls.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/deser/src/de/impls.rs b/deser/src/de/impls.rs
index cc0c582..59cea06 100644
--- a/deser/src/de/impls.rs
+++ b/deser/src/de/impls.rs
@@ -87,9 +87,8 @@ macro_rules! int_sink {
             fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
                 match atom {
                     Atom::U64(value) => {
-                        let truncated = value as $ty;
-                        if truncated as u64 == value {
-                            **self = Some(truncated);
+                        if let Ok(value) = <$ty>::try_from(value) {
+                            **self = Some(value);
                             Ok(())
                         } else {
                             Err(Error::new(
@@ -99,9 +98,8 @@ macro_rules! int_sink {
                         }
                     }
                     Atom::I64(value) => {
-                        let truncated = value as $ty;
-                        if truncated as i64 == value {
-                            **self = Some(truncated);
+                        if let Ok(value) = <$ty>::try_from(value) {
+                            **self = Some(value);
                             Ok(())
                         } else {
                             Err(Error::new(
-- 
2.43.0


From ca500124b8e897d029f547f97a9b9eca78bedb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:24 +0000
Subject: [PATCH 04/29] fix: tie the lifetime of the sink passed to
 DeserializeDriver::from_sink to the driver

---
 deser/src/de/driver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser/src/de/driver.rs b/deser/src/de/driver.rs
index 10c18cf..64a9890 100644
--- a/deser/src/de/driver.rs
+++ b/deser/src/de/driver.rs
@@ -32,7 +32,7 @@ impl<'a> DeserializeDriver<'a> {
     }
 
     /// Creates a new deserializer driver from a sink.
-    pub fn from_sink(sink: SinkHandle) -> DeserializeDriver<'a> {
+    pub fn from_sink(sink: SinkHandle<'a>) -> DeserializeDriver<'a> {
         DeserializeDriver {
             state: DeserializerState {
                 extensions: Extensions::default(),
-- 
2.43.0


From ed3b01760c8040641b2208224cd3239651e28502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:48 +0000
Subject: [PATCH 05/29] fix: drop child sinks before their parents and unwind
 the state on errors in DeserializeDriver

---
 deser/src/de/driver.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/deser/src/de/driver.rs b/deser/src/de/driver.rs
index 64a9890..e238379 100644
--- a/deser/src/de/driver.rs
+++ b/deser/src/de/driver.rs
@@ -59,6 +59,10 @@ impl<'a> DeserializeDriver<'a> {
     }
 
     fn update_current_sink(&mut self) -> Result<(), Error> {
+        if !self.sink_stack.is_empty() {
+            // the previous sink can borrow from the container it came from
+            self.current_sink = None;
+        }
         match self.sink_stack.last_mut() {
             Some((map_sink, Layer::Map(ref mut is_key))) => {
                 let next_sink = if *is_key {
@@ -92,6 +96,7 @@ impl<'a> DeserializeDriver<'a> {
                 let current_sink = current_sink!();
                 current_sink.atom(atom, &self.state)?;
                 current_sink.finish(&self.state)?;
+                self.current_sink = None;
             }
             Event::MapStart => {
                 let current_sink = current_sink!();
@@ -104,11 +109,14 @@ impl<'a> DeserializeDriver<'a> {
                     .push((self.current_sink.take().unwrap(), Layer::Map(true)));
                 return Ok(());
             }
-            Event::MapEnd => match self.sink_stack.pop() {
-                Some((mut map_sink, Layer::Map(_))) => {
-                    map_sink.finish(&self.state)?;
+            Event::MapEnd => match self.sink_stack.last_mut() {
+                Some((map_sink, Layer::Map(_))) => {
+                    // the previous sink can borrow from the container
+                    self.current_sink = None;
+                    let rv = map_sink.finish(&self.state);
                     self.state.descriptor_stack.pop();
-                    self.current_sink = Some(map_sink);
+                    self.sink_stack.pop();
+                    rv?;
                 }
                 _ => panic!("not inside a MapSink"),
             },
@@ -123,11 +131,14 @@ impl<'a> DeserializeDriver<'a> {
                     .push((self.current_sink.take().unwrap(), Layer::Seq));
                 return Ok(());
             }
-            Event::SeqEnd => match self.sink_stack.pop() {
-                Some((mut seq_sink, Layer::Seq)) => {
-                    seq_sink.finish(&self.state)?;
+            Event::SeqEnd => match self.sink_stack.last_mut() {
+                Some((seq_sink, Layer::Seq)) => {
+                    // the previous sink can borrow from the container
+                    self.current_sink = None;
+                    let rv = seq_sink.finish(&self.state);
                     self.state.descriptor_stack.pop();
-                    self.current_sink = Some(seq_sink);
+                    self.sink_stack.pop();
+                    rv?;
                 }
                 _ => panic!("not inside a SeqSink"),
             },
@@ -139,6 +150,8 @@ impl<'a> DeserializeDriver<'a> {
 
 impl<'a> Drop for DeserializeDriver<'a> {
     fn drop(&mut self) {
+        // the current sink can borrow from the sinks on the stack
+        self.current_sink = None;
         unsafe {
             while let Some(_item) = self.sink_stack.pop() {
                 // drop in inverse order
-- 
2.43.0


From 0a5d26eacea14ec73e3b892667e4c0b88092f64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:48 +0000
Subject: [PATCH 06/29] fix: panic on a map end where a map value is expected

---
 deser/src/de/driver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser/src/de/driver.rs b/deser/src/de/driver.rs
index e238379..cc4f873 100644
--- a/deser/src/de/driver.rs
+++ b/deser/src/de/driver.rs
@@ -110,7 +110,7 @@ impl<'a> DeserializeDriver<'a> {
                 return Ok(());
             }
             Event::MapEnd => match self.sink_stack.last_mut() {
-                Some((map_sink, Layer::Map(_))) => {
+                Some((map_sink, Layer::Map(true))) => {
                     // the previous sink can borrow from the container
                     self.current_sink = None;
                     let rv = map_sink.finish(&self.state);
-- 
2.43.0


From 8df2ac1771d94ae006851a10bb2063d9473baeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:49 +0000
Subject: [PATCH 07/29] fix: drop emitters and serializables of SerializeDriver
 in inverse order of creation

---
 deser/src/ser/driver.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/deser/src/ser/driver.rs b/deser/src/ser/driver.rs
index c420421..41f02bf 100644
--- a/deser/src/ser/driver.rs
+++ b/deser/src/ser/driver.rs
@@ -59,11 +59,19 @@ enum Emitter {
 impl<'a> Drop for SerializeDriver<'a> {
     fn drop(&mut self) {
         self.next_event.take();
-        while let Some(_emitter) = self.emitter_stack.pop() {
-            // drop in inverse order
-        }
-        while let Some(_emitter) = self.serializable_stack.pop() {
-            // drop in inverse order
+        // Drop in inverse order.  A value borrows from the emitter that produced
+        // it and an emitter borrows from the value it belongs to so the two stacks
+        // need to be unwound together.
+        while let Some(state) = self.state_stack.pop() {
+            match state {
+                DriverState::Serialize | DriverState::FinishSerialize => {}
+                DriverState::SeqEmitterAdvance
+                | DriverState::MapEmitterNextKey
+                | DriverState::MapEmitterNextValue
+                | DriverState::StructEmitterAdvance
+                | DriverState::PopEmitter => drop(self.emitter_stack.pop()),
+            }
+            self.serializable_stack.pop();
         }
         unsafe {
             ManuallyDrop::drop(&mut self.serializable_stack);
-- 
2.43.0


From 778c73ebac9034f9621abf305cd045a2719b1f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:00 +0000
Subject: [PATCH 08/29] fix: forward finish, is_optional and descriptor for
 references and boxes and finish for options when serializing

---
 deser/src/ser/impls.rs | 43 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/deser/src/ser/impls.rs b/deser/src/ser/impls.rs
index 18e6642..428546e 100644
--- a/deser/src/ser/impls.rs
+++ b/deser/src/ser/impls.rs
@@ -323,6 +323,13 @@ where
             None => Ok(Chunk::Atom(Atom::Null)),
         }
     }
+
+    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
+        match self {
+            Some(value) => value.finish(state),
+            None => Ok(()),
+        }
+    }
 }
 
 macro_rules! serialize_for_tuple {
@@ -395,16 +402,52 @@ impl<'a, T: Serialize> Serialize for &'a T {
     fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
         Serialize::serialize(*self, state)
     }
+
+    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
+        Serialize::finish(*self, state)
+    }
+
+    fn is_optional(&self) -> bool {
+        Serialize::is_optional(*self)
+    }
+
+    fn descriptor(&self) -> &dyn Descriptor {
+        Serialize::descriptor(*self)
+    }
 }
 
 impl<'a, T: Serialize> Serialize for &'a mut T {
     fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
         Serialize::serialize(*self, state)
     }
+
+    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
+        Serialize::finish(*self, state)
+    }
+
+    fn is_optional(&self) -> bool {
+        Serialize::is_optional(*self)
+    }
+
+    fn descriptor(&self) -> &dyn Descriptor {
+        Serialize::descriptor(*self)
+    }
 }
 
 impl<T: Serialize> Serialize for Box<T> {
     fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
         Serialize::serialize(&**self, state)
     }
+
+    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
+        Serialize::finish(&**self, state)
+    }
+
+    fn is_optional(&self) -> bool {
+        Serialize::is_optional(&**self)
+    }
+
+    fn descriptor(&self) -> &dyn Descriptor {
+        Serialize::descriptor(&**self)
+    }
 }
-- 
2.43.0


From 323c3ad2df56764ee15e02952f2d9194842521ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:50 +0000
Subject: [PATCH 09/29] fix: do not hand out a replaceable sink handle from
 OwnedSink::borrow_mut

---
 deser/src/de/owned.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deser/src/de/owned.rs b/deser/src/de/owned.rs
index 1667cdf..dde41de 100644
--- a/deser/src/de/owned.rs
+++ b/deser/src/de/owned.rs
@@ -2,7 +2,7 @@ use std::mem::{transmute, ManuallyDrop};
 use std::ops::{Deref, DerefMut};
 use std::ptr::NonNull;
 
-use crate::de::{Deserialize, SinkHandle};
+use crate::de::{Deserialize, Sink, SinkHandle};
 
 struct NonuniqueBox<T: ?Sized> {
     ptr: NonNull<T>,
@@ -117,8 +117,8 @@ impl<T: Deserialize> OwnedSink<T> {
 
     /// Mutably borrows from the owned sink.
     #[allow(clippy::should_implement_trait)]
-    pub fn borrow_mut(&mut self) -> &mut SinkHandle<'_> {
-        unsafe { extend_lifetime!(&mut self.sink, &mut SinkHandle<'_>) }
+    pub fn borrow_mut(&mut self) -> &mut (dyn Sink + '_) {
+        &mut **self.sink
     }
 
     /// Takes the value produced by the sink.
-- 
2.43.0


From 25ed719706c79b1e352ee1e101a051e85c8bbe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:50 +0000
Subject: [PATCH 10/29] fix: report an error instead of panicking on trailing
 commas in JSON arrays

---
 deser-json/src/de.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index afc9cae..e05d323 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -142,7 +142,13 @@ impl<'a> Deserializer<'a> {
                         Token::Colon => {
                             return Err(Error::new(ErrorKind::Unexpected, "unexpected colon"));
                         }
-                        Token::SeqEnd | Token::MapEnd => unreachable!(),
+                        // can only happen after a comma or colon
+                        Token::SeqEnd | Token::MapEnd => {
+                            return Err(Error::new(
+                                ErrorKind::Unexpected,
+                                "unexpected end of container",
+                            ));
+                        }
                     }
                 }
             }
-- 
2.43.0


From d14b679330e9c9095b1c77badb075829a9f6eb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:50 +0000
Subject: [PATCH 11/29] fix: reject JSON objects with a missing value at the
 end

---
 deser-json/src/de.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index e05d323..f48b3b4 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -67,7 +67,10 @@ impl<'a> Deserializer<'a> {
             // try to exit containers first
             match token {
                 Token::MapEnd => {
-                    if !matches!(stack.pop(), Some(ContainerState::Map { .. })) {
+                    if !matches!(
+                        stack.pop(),
+                        Some(ContainerState::Map { key_pos: true, .. })
+                    ) {
                         return Err(Error::new(ErrorKind::Unexpected, "unexpected end of map"));
                     }
                     driver.emit(Event::MapEnd)?;
-- 
2.43.0


From 7669240a20b682c11b2510318bdbc90792afd55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:50 +0000
Subject: [PATCH 12/29] fix: do not overflow when negating the smallest
 exponent of a JSON number

---
 deser-json/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index f48b3b4..be6d092 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -618,7 +618,7 @@ impl<'a> Deserializer<'a> {
 fn f64_from_parts(nonnegative: bool, significand: u64, mut exponent: i32) -> Result<f64, Error> {
     let mut f = significand as f64;
     loop {
-        match POW10.get(exponent.abs() as usize) {
+        match POW10.get(exponent.unsigned_abs() as usize) {
             Some(&pow) => {
                 if exponent >= 0 {
                     f *= pow;
-- 
2.43.0


From cdf409b9dca0b4faf31192b879d05df10b2df95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:50 +0000
Subject: [PATCH 13/29] fix: do not overflow the exponent of JSON numbers with
 billions of digits

---
 deser-json/src/de.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index be6d092..3de1abe 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -430,8 +430,7 @@ impl<'a> Deserializer<'a> {
                 b'0'..=b'9' => {
                     self.bump();
                     // This could overflow... if your integer is gigabytes long.
-                    // Ignore that possibility.
-                    exponent += 1;
+                    exponent = exponent.saturating_add(1);
                 }
                 b'.' => {
                     return self.parse_decimal(nonnegative, significand, exponent);
@@ -495,7 +494,7 @@ impl<'a> Deserializer<'a> {
             }
 
             significand = significand * 10 + digit;
-            exponent -= 1;
+            exponent = exponent.saturating_sub(1);
         }
 
         if !at_least_one_digit {
-- 
2.43.0


From 4c550ad1584c5280b6c378c18b052e5eed1602bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:50 +0000
Subject: [PATCH 14/29] fix: validate that JSON strings are UTF-8 as the
 deserializer accepts arbitrary bytes

---
 deser-json/src/de.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index 3de1abe..0627045 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -208,10 +208,11 @@ impl<'a> Deserializer<'a> {
     }
 
     fn parse_str(&mut self) -> Result<&str, Error> {
-        fn result(bytes: &[u8]) -> &str {
-            // The input is assumed to be valid UTF-8 and the \u-escapes are
-            // checked along the way, so don't need to check here.
-            unsafe { str::from_utf8_unchecked(bytes) }
+        fn result(bytes: &[u8]) -> Result<&str, Error> {
+            // The input comes from the user as bytes and might not be valid UTF-8.
+            str::from_utf8(bytes).map_err(|err| {
+                Error::new(ErrorKind::Unexpected, "invalid utf-8 in string").with_source(err)
+            })
         }
 
         // Index of the first byte not yet copied into the scratch space.
@@ -235,11 +236,11 @@ impl<'a> Deserializer<'a> {
                         // copying.
                         let borrowed = &self.input[start..self.pos];
                         self.pos += 1;
-                        return Ok(result(borrowed));
+                        return result(borrowed);
                     } else {
                         self.buffer.extend_from_slice(&self.input[start..self.pos]);
                         self.pos += 1;
-                        return Ok(result(&self.buffer));
+                        return result(&self.buffer);
                     }
                 }
                 b'\\' => {
-- 
2.43.0


From 032b5541c1bfd0c539fb0ec35a5199b01c6e68bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:50 +0000
Subject: [PATCH 15/29] fix: serialize chars to JSON as the string the char
 deserializer reads

---
 deser-json/src/ser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deser-json/src/ser.rs b/deser-json/src/ser.rs
index a5786de..0352fe5 100644
--- a/deser-json/src/ser.rs
+++ b/deser-json/src/ser.rs
@@ -77,7 +77,7 @@ impl Serializer {
                     match event {
                         Event::Atom(Atom::Str(val)) => self.write_escaped_str(&val),
                         Event::Atom(Atom::Char(c)) => {
-                            self.write_escaped_str(&(c as u32).to_string())
+                            self.write_escaped_str(c.encode_utf8(&mut [0; 4]))
                         }
                         _ => unsupported!("JSON does not support this value for map keys"),
                     }
@@ -93,7 +93,7 @@ impl Serializer {
                     Atom::Bool(false) => self.write_str("false"),
                     Atom::Str(val) => self.write_escaped_str(&val),
                     Atom::Bytes(_val) => unsupported!("JSON doesn't support bytes"),
-                    Atom::Char(c) => self.write_escaped_str(&(c as u32).to_string()),
+                    Atom::Char(c) => self.write_escaped_str(c.encode_utf8(&mut [0; 4])),
                     Atom::U64(val) => {
                         #[cfg(feature = "speedups")]
                         {
-- 
2.43.0


From 8656d137c7d4aa2b865ba26d0c56f5f1231475cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:51 +0000
Subject: [PATCH 16/29] fix: pop the path segments of finished containers in
 PathSink

---
 deser-path/src/de.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/deser-path/src/de.rs b/deser-path/src/de.rs
index 9023b9b..9bd0cab 100644
--- a/deser-path/src/de.rs
+++ b/deser-path/src/de.rs
@@ -18,6 +18,8 @@ pub struct PathSink<'a> {
     sink: SinkHandle<'a>,
     container: Container,
     set_segment: Option<PathSegment>,
+    // set if this sink pushed a segment that needs to be popped again
+    pushed: bool,
 }
 
 impl<'a> PathSink<'a> {
@@ -32,6 +34,7 @@ impl<'a> PathSink<'a> {
             sink,
             container: Container::None,
             set_segment: None,
+            pushed: false,
         }
     }
 
@@ -59,6 +62,7 @@ impl<'a> Sink for PathSink<'a> {
     fn map(&mut self, state: &DeserializerState) -> Result<(), Error> {
         self.set_segment(state);
         state.get_mut::<Path>().segments.push(PathSegment::Unknown);
+        self.pushed = true;
         self.container = Container::Map(Rc::default());
         self.sink.map(state)
     }
@@ -66,6 +70,7 @@ impl<'a> Sink for PathSink<'a> {
     fn seq(&mut self, state: &DeserializerState) -> Result<(), Error> {
         self.set_segment(state);
         state.get_mut::<Path>().segments.push(PathSegment::Unknown);
+        self.pushed = true;
         self.container = Container::Seq(0);
         self.sink.seq(state)
     }
@@ -79,6 +84,7 @@ impl<'a> Sink for PathSink<'a> {
                     _ => unreachable!(),
                 },
                 set_segment: None,
+                pushed: false,
             })
         })
     }
@@ -98,12 +104,18 @@ impl<'a> Sink for PathSink<'a> {
                 sink,
                 container: Container::None,
                 set_segment,
+                pushed: false,
             })
         })
     }
 
     fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
-        self.sink.finish(state)
+        self.sink.finish(state)?;
+        if self.pushed {
+            self.pushed = false;
+            state.get_mut::<Path>().segments.pop();
+        }
+        Ok(())
     }
 
     fn descriptor(&self) -> &dyn Descriptor {
-- 
2.43.0


From a9b5c422b15b8a7da8dd5e77fd22efd8c8e6e153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:52 +0000
Subject: [PATCH 17/29] fix: report unsupported map keys as unknown path
 segments in PathSink

---
 deser-path/src/de.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/deser-path/src/de.rs b/deser-path/src/de.rs
index 9bd0cab..5d2faa7 100644
--- a/deser-path/src/de.rs
+++ b/deser-path/src/de.rs
@@ -52,7 +52,7 @@ impl<'a> Sink for PathSink<'a> {
             *capture.borrow_mut() = match atom {
                 Atom::Str(ref value) => Some(PathSegment::Key(value.to_string())),
                 Atom::U64(value) => Some(PathSegment::Index(value as usize)),
-                Atom::I64(value) => Some(PathSegment::Index(value as usize)),
+                Atom::I64(value) => usize::try_from(value).ok().map(PathSegment::Index),
                 _ => None,
             };
         }
@@ -92,7 +92,12 @@ impl<'a> Sink for PathSink<'a> {
     fn next_value(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
         let set_segment = match self.container {
             Container::None => None,
-            Container::Map(ref captured_key) => captured_key.borrow_mut().take(),
+            Container::Map(ref captured_key) => Some(
+                captured_key
+                    .borrow_mut()
+                    .take()
+                    .unwrap_or(PathSegment::Unknown),
+            ),
             Container::Seq(ref mut index) => {
                 let old_index = *index;
                 *index += 1;
-- 
2.43.0


From e238169a492396cf307e88bd15f283a5117ee709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:52 +0000
Subject: [PATCH 18/29] fix: forward value_for_key in PathSink

---
 deser-path/src/de.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/deser-path/src/de.rs b/deser-path/src/de.rs
index 5d2faa7..09afe0d 100644
--- a/deser-path/src/de.rs
+++ b/deser-path/src/de.rs
@@ -114,6 +114,21 @@ impl<'a> Sink for PathSink<'a> {
         })
     }
 
+    fn value_for_key(
+        &mut self,
+        key: &str,
+        state: &DeserializerState,
+    ) -> Result<Option<SinkHandle>, Error> {
+        Ok(self.sink.value_for_key(key, state)?.map(|sink| {
+            SinkHandle::boxed(PathSink {
+                sink,
+                container: Container::None,
+                set_segment: None,
+                pushed: false,
+            })
+        }))
+    }
+
     fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
         self.sink.finish(state)?;
         if self.pushed {
-- 
2.43.0


From 07a7dcde9d8cf17e7be747f63eaa246a02413a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:53 +0000
Subject: [PATCH 19/29] fix: forward is_optional and descriptor in the path
 tracking serializables

---
 deser-path/src/ser.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/deser-path/src/ser.rs b/deser-path/src/ser.rs
index 708ce8b..275dd46 100644
--- a/deser-path/src/ser.rs
+++ b/deser-path/src/ser.rs
@@ -5,7 +5,7 @@ use std::rc::Rc;
 use deser::ser::{
     Chunk, MapEmitter, SeqEmitter, Serialize, SerializeHandle, SerializerState, StructEmitter,
 };
-use deser::{Atom, Error};
+use deser::{Atom, Descriptor, Error};
 
 use crate::{Path, PathSegment};
 
@@ -42,6 +42,14 @@ impl<'a> Serialize for PathSerializable<'a> {
     fn finish(&self, state: &SerializerState) -> Result<(), Error> {
         self.serializable.finish(state)
     }
+
+    fn is_optional(&self) -> bool {
+        self.serializable.is_optional()
+    }
+
+    fn descriptor(&self) -> &dyn Descriptor {
+        self.serializable.descriptor()
+    }
 }
 
 struct PathStructEmitter<'a> {
@@ -147,6 +155,14 @@ impl<'a> Serialize for SegmentPushingSerializable<'a> {
         path.segments.pop();
         Ok(())
     }
+
+    fn is_optional(&self) -> bool {
+        self.serializable.is_optional()
+    }
+
+    fn descriptor(&self) -> &dyn Descriptor {
+        self.serializable.descriptor()
+    }
 }
 
 struct SegmentCollectingSerializable<'a> {
@@ -172,4 +188,12 @@ impl<'a> Serialize for SegmentCollectingSerializable<'a> {
     fn finish(&self, state: &SerializerState) -> Result<(), Error> {
         self.serializable.finish(state)
     }
+
+    fn is_optional(&self) -> bool {
+        self.serializable.is_optional()
+    }
+
+    fn descriptor(&self) -> &dyn Descriptor {
+        self.serializable.descriptor()
+    }
 }
-- 
2.43.0


From 8ec3853e6d925adc3cdc33c78adec02f57bd7230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:08 +0000
Subject: [PATCH 20/29] fix: terminate in deser-debug if the formatter fails

---
 deser-debug/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/deser-debug/src/lib.rs b/deser-debug/src/lib.rs
index 648211d..a74b29d 100644
--- a/deser-debug/src/lib.rs
+++ b/deser-debug/src/lib.rs
@@ -88,7 +88,11 @@ fn dump<'a, 'f>(
                         map.value(&inner);
                     }
                     is_key = !is_key;
-                    rest = &rest[inner.1.load(atomic::Ordering::Relaxed)..];
+                    match inner.1.load(atomic::Ordering::Relaxed) {
+                        // nothing was consumed because the formatter failed
+                        0 => return Err(fmt::Error),
+                        consumed => rest = &rest[consumed..],
+                    }
                 }
                 map.finish()?;
             }
@@ -107,7 +111,11 @@ fn dump<'a, 'f>(
                     }
                     let inner = Helper(rest, AtomicUsize::default());
                     list.entry(&inner);
-                    rest = &rest[inner.1.load(atomic::Ordering::Relaxed)..];
+                    match inner.1.load(atomic::Ordering::Relaxed) {
+                        // nothing was consumed because the formatter failed
+                        0 => return Err(fmt::Error),
+                        consumed => rest = &rest[consumed..],
+                    }
                 }
                 list.finish()?;
             }
-- 
2.43.0


From 12801d97f6446d347ad0ef0d0e18c5e98e83db41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:52 +0000
Subject: [PATCH 21/29] fix: derive Deserialize with the correct bounds and
 types for generic types

---
 deser-derive/src/de.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index 13784ad..580374a 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -122,7 +122,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
 
     let wrapper_generics = with_lifetime_bound(&input.generics, "'__a");
     let (wrapper_impl_generics, wrapper_ty_generics, _) = wrapper_generics.split_for_impl();
-    let bound = syn::parse_quote!(::deser::Serialize);
+    let bound = syn::parse_quote!(::deser::Deserialize);
     let bounded_where_clause = where_clause_with_bound(&input.generics, bound);
 
     let field_stage1_default = attrs
@@ -200,7 +200,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
                 need_container_default.into_iter().unzip();
             let type_default = match container_attrs.default().unwrap() {
                 TypeDefault::Implicit => quote! {
-                    <#ident as ::deser::__derive::Default>::default()
+                    <#ident #ty_generics as ::deser::__derive::Default>::default()
                 },
                 TypeDefault::Explicit(path) => quote! { #path() },
             };
@@ -462,7 +462,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
 
     let wrapper_generics = with_lifetime_bound(&input.generics, "'__a");
     let (wrapper_impl_generics, wrapper_ty_generics, _) = wrapper_generics.split_for_impl();
-    let bound = syn::parse_quote!(::deser::Serialize);
+    let bound = syn::parse_quote!(::deser::Deserialize);
     let bounded_where_clause = where_clause_with_bound(&input.generics, bound);
 
     Ok(quote! {
@@ -470,7 +470,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
         const #dummy: () = {
             struct __Sink #wrapper_impl_generics #where_clause {
                 slot: &'__a mut ::deser::__derive::Option<#ident #ty_generics>,
-                sink: ::deser::de::OwnedSink<#field_type #ty_generics>,
+                sink: ::deser::de::OwnedSink<#field_type>,
             }
 
             #[automatically_derived]
-- 
2.43.0


From e37102a19391ab1772bc130fd2204c1a8cf64415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:53 +0000
Subject: [PATCH 22/29] fix: report malformed deser attributes instead of
 ignoring them

---
 deser-derive/src/attr.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/deser-derive/src/attr.rs b/deser-derive/src/attr.rs
index eeb20f0..05c4f2b 100644
--- a/deser-derive/src/attr.rs
+++ b/deser-derive/src/attr.rs
@@ -59,6 +59,14 @@ pub fn get_meta_items(attr: &syn::Attribute) -> syn::Result<Vec<syn::NestedMeta>
     }
 }
 
+fn get_all_meta_items(attrs: &[syn::Attribute]) -> syn::Result<Vec<syn::NestedMeta>> {
+    let mut rv = Vec::new();
+    for attr in attrs {
+        rv.extend(get_meta_items(attr)?);
+    }
+    Ok(rv)
+}
+
 fn respan(stream: proc_macro2::TokenStream, span: proc_macro2::Span) -> proc_macro2::TokenStream {
     stream
         .into_iter()
@@ -102,7 +110,7 @@ impl<'a> ContainerAttrs<'a> {
             skip_serializing_optionals: false,
         };
 
-        for meta_item in input.attrs.iter().flat_map(get_meta_items).flatten() {
+        for meta_item in get_all_meta_items(&input.attrs)? {
             if let syn::NestedMeta::Meta(meta) = meta_item {
                 match &meta {
                     syn::Meta::NameValue(nv) if nv.path.is_ident("rename_all") => {
@@ -266,7 +274,7 @@ impl<'a> ContainerAttrs<'a> {
 }
 
 pub fn ensure_no_field_attrs(field: &syn::Field) -> syn::Result<()> {
-    if let Some(first) = field.attrs.iter().flat_map(get_meta_items).flatten().next() {
+    if let Some(first) = get_all_meta_items(&field.attrs)?.into_iter().next() {
         Err(syn::Error::new_spanned(first, "unsupported attribute"))
     } else {
         Ok(())
@@ -293,7 +301,7 @@ impl<'a> FieldAttrs<'a> {
             skip_serializing_if: None,
         };
 
-        for meta_item in field.attrs.iter().flat_map(get_meta_items).flatten() {
+        for meta_item in get_all_meta_items(&field.attrs)? {
             if let syn::NestedMeta::Meta(meta) = meta_item {
                 match &meta {
                     syn::Meta::NameValue(nv) if nv.path.is_ident("rename") => {
@@ -406,7 +414,7 @@ impl<'a> EnumVariantAttrs<'a> {
             aliases: Vec::new(),
         };
 
-        for meta_item in variant.attrs.iter().flat_map(get_meta_items).flatten() {
+        for meta_item in get_all_meta_items(&variant.attrs)? {
             if let syn::NestedMeta::Meta(meta) = meta_item {
                 match &meta {
                     syn::Meta::NameValue(nv) if nv.path.is_ident("rename") => {
-- 
2.43.0


From 07d1bba13a9dae7b179475fb9a61307288079888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:54 +0000
Subject: [PATCH 23/29] fix: support raw identifiers in the derives

---
 deser-derive/src/attr.rs | 8 +++++---
 deser-derive/src/de.rs   | 9 +++++----
 deser-derive/src/ser.rs  | 7 ++++---
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/deser-derive/src/attr.rs b/deser-derive/src/attr.rs
index 05c4f2b..ffee96d 100644
--- a/deser-derive/src/attr.rs
+++ b/deser-derive/src/attr.rs
@@ -1,5 +1,7 @@
 use std::borrow::Cow;
 
+use syn::ext::IdentExt;
+
 #[derive(Copy, Clone)]
 #[allow(clippy::enum_variant_names)]
 pub enum RenameAll {
@@ -173,12 +175,12 @@ impl<'a> ContainerAttrs<'a> {
     pub fn container_name(&self) -> String {
         match self.rename {
             Some(ref name) => name.clone(),
-            None => self.ident.to_string(),
+            None => self.ident.unraw().to_string(),
         }
     }
 
     pub fn get_field_name(&self, field: &syn::Field) -> String {
-        let name = field.ident.as_ref().unwrap().to_string();
+        let name = field.ident.as_ref().unwrap().unraw().to_string();
         if let Some(rename_all) = self.rename_all {
             match rename_all {
                 RenameAll::LowerCase | RenameAll::SnakeCase => name,
@@ -230,7 +232,7 @@ impl<'a> ContainerAttrs<'a> {
     }
 
     pub fn get_variant_name(&self, variant: &syn::Variant) -> String {
-        let name = variant.ident.to_string();
+        let name = variant.ident.unraw().to_string();
         if let Some(rename_all) = self.rename_all {
             match rename_all {
                 RenameAll::PascalCase => name,
diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index 580374a..01ecd1d 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -2,6 +2,7 @@ use std::collections::HashSet;
 
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
+use syn::ext::IdentExt;
 
 use crate::attr::{
     ensure_no_field_attrs, ContainerAttrs, EnumVariantAttrs, FieldAttrs, TypeDefault,
@@ -27,7 +28,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
     let ident = &input.ident;
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
     let dummy = syn::Ident::new(
-        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
@@ -43,7 +44,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
         .iter()
         .map(|x| {
             syn::Ident::new(
-                &format!("field_{}", x.field().ident.as_ref().unwrap()),
+                &format!("field_{}", x.field().ident.as_ref().unwrap().unraw()),
                 Span::call_site(),
             )
         })
@@ -337,7 +338,7 @@ pub fn derive_enum(
 
     let ident = &input.ident;
     let dummy = syn::Ident::new(
-        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
@@ -447,7 +448,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
     let ident = &input.ident;
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
     let dummy = syn::Ident::new(
-        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
diff --git a/deser-derive/src/ser.rs b/deser-derive/src/ser.rs
index 79206d8..455eeb0 100644
--- a/deser-derive/src/ser.rs
+++ b/deser-derive/src/ser.rs
@@ -1,5 +1,6 @@
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
+use syn::ext::IdentExt;
 
 use crate::attr::{ensure_no_field_attrs, ContainerAttrs, EnumVariantAttrs, FieldAttrs};
 use crate::bound::{where_clause_with_bound, with_lifetime_bound};
@@ -23,7 +24,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
     let ident = &input.ident;
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
     let dummy = syn::Ident::new(
-        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
@@ -210,7 +211,7 @@ fn derive_enum(input: &syn::DeriveInput, enumeration: &syn::DataEnum) -> syn::Re
 
     let ident = &input.ident;
     let dummy = syn::Ident::new(
-        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
@@ -261,7 +262,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
     let ident = &input.ident;
     let (impl_generics, ty_generics, _) = input.generics.split_for_impl();
     let dummy = syn::Ident::new(
-        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
-- 
2.43.0


From b565bf4154663b90836bd0cc77b0cb055a067287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:04 +0000
Subject: [PATCH 24/29] fix: make the derive expansions independent of the
 names in scope

---
 deser-derive/src/de.rs  | 14 ++++++--------
 deser-derive/src/ser.rs |  6 +++---
 deser/src/lib.rs        |  1 +
 3 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index 01ecd1d..1ddab65 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -206,14 +206,12 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
                 TypeDefault::Explicit(path) => quote! { #path() },
             };
             Some(quote! {
-                if [
-                    #(
-                        #sink_name.as_ref().is_none()
-                    ),*
-                ].iter().any(|x| *x) {
+                if #(
+                    #sink_name.is_none()
+                )||* {
                     let __default = #type_default;
                     #(
-                        #sink_name = #sink_name.or_else(|| Some(__default.#original_name));
+                        #sink_name = #sink_name.or_else(|| ::deser::__derive::Some(__default.#original_name));
                     )*
                 }
             })
@@ -229,7 +227,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
         const #dummy: () = {
             struct __Sink #wrapper_impl_generics #where_clause {
                 slot: &'__a mut ::deser::__derive::Option<#ident #ty_generics>,
-                key: ::deser::__derive::Option<String>,
+                key: ::deser::__derive::Option<::deser::__derive::String>,
                 #(
                     #sink_fieldname: #sink_fieldty,
                 )*
@@ -524,7 +522,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
                 fn finish(&mut self, __state: &::deser::de::DeserializerState) -> ::deser::__derive::Result<()> {
                     self.sink.borrow_mut().finish(__state)?;
                     *self.slot = self.sink.take().map(#ident);
-                    Ok(())
+                    ::deser::__derive::Ok(())
                 }
 
                 fn descriptor(&self) -> &dyn ::deser::Descriptor {
diff --git a/deser-derive/src/ser.rs b/deser-derive/src/ser.rs
index 455eeb0..0f2fe92 100644
--- a/deser-derive/src/ser.rs
+++ b/deser-derive/src/ser.rs
@@ -106,7 +106,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
                         if self.nested_emitter_exhausted {
                             self.nested_emitter = match ::deser::ser::Serialize::serialize(&self.data.#name, __state)? {
                                 ::deser::ser::Chunk::Struct(__inner) => {
-                                    Some(__inner)
+                                    ::deser::__derive::Some(__inner)
                                 }
                                 _ => return ::deser::__derive::Err(::deser::Error::new(
                                     ::deser::ErrorKind::Unexpected,
@@ -158,7 +158,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
                     &__Descriptor
                 }
                 fn serialize(&self, __state: &::deser::ser::SerializerState) -> ::deser::__derive::Result<::deser::ser::Chunk> {
-                    ::deser::__derive::Ok(::deser::ser::Chunk::Struct(Box::new(__StructEmitter {
+                    ::deser::__derive::Ok(::deser::ser::Chunk::Struct(::deser::__derive::Box::new(__StructEmitter {
                         data: self,
                         index: 0,
                         #temp_emitter_init
@@ -183,7 +183,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
             #[automatically_derived]
             impl #wrapper_impl_generics ::deser::ser::StructEmitter for __StructEmitter #wrapper_ty_generics #bounded_where_clause {
                 fn next(&mut self, __state: &::deser::ser::SerializerState)
-                    -> ::deser::__derive::Result<::deser::__derive::Option<(deser::__derive::StrCow, ::deser::ser::SerializeHandle)>>
+                    -> ::deser::__derive::Result<::deser::__derive::Option<(::deser::__derive::StrCow, ::deser::ser::SerializeHandle)>>
                 {
                     #[allow(clippy::never_loop)]
                     loop {
diff --git a/deser/src/lib.rs b/deser/src/lib.rs
index f18959b..ee89286 100644
--- a/deser/src/lib.rs
+++ b/deser/src/lib.rs
@@ -77,6 +77,7 @@ pub mod __derive {
     pub use std::default::Default;
     pub use std::option::Option::{self, None, Some};
     pub use std::result::Result::{Err, Ok};
+    pub use std::string::String;
     pub type Result<T> = std::result::Result<T, super::Error>;
     pub type StrCow<'a> = Cow<'a, str>;
 
-- 
2.43.0


From bf62ff6e7fe9787c067b41f3db3401bfea5d2abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:32 +0000
Subject: [PATCH 25/29] fix: do not panic in the derives on non-ASCII enum
 variants with rename_all = "camelCase"

---
 deser-derive/src/attr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/deser-derive/src/attr.rs b/deser-derive/src/attr.rs
index ffee96d..d4ca2fd 100644
--- a/deser-derive/src/attr.rs
+++ b/deser-derive/src/attr.rs
@@ -238,7 +238,11 @@ impl<'a> ContainerAttrs<'a> {
                 RenameAll::PascalCase => name,
                 RenameAll::LowerCase => name.to_ascii_lowercase(),
                 RenameAll::UpperCase => name.to_ascii_uppercase(),
-                RenameAll::CamelCase => name[..1].to_ascii_lowercase() + &name[1..],
+                RenameAll::CamelCase => {
+                    let mut chars = name.chars();
+                    let first = chars.next().map(|ch| ch.to_ascii_lowercase());
+                    first.into_iter().chain(chars).collect()
+                }
                 RenameAll::SnakeCase
                 | RenameAll::ScreamingSnakeCase
                 | RenameAll::KebabCase
-- 
2.43.0


From f1fdb7b55b46fe7c2c4a7c3d8cca6b88d25bddf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:42 +0000
Subject: [PATCH 26/29] fix: container defaults of derive(Deserialize) also
 apply to optional fields

A missing field of type Option was always None, even if the struct has a
default which says otherwise.
---
 deser-derive/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index 1ddab65..46bb891 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -71,7 +71,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
                 quote! {
                     ::deser::de::OwnedSink::deserialize()
                 }
-            } else if f.default().is_some() {
+            } else if f.default().is_some() || container_attrs.default().is_some() {
                 quote! {
                     ::deser::__derive::None
                 }
-- 
2.43.0


From fd1879f37a0b9a1601466183e1766797779bfdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:01 +0000
Subject: [PATCH 27/29] fix: reject container attributes of the derives where
 they have no effect

---
 deser-derive/src/attr.rs | 30 ++++++++++++++++++++++++++++++
 deser-derive/src/de.rs   |  2 ++
 deser-derive/src/ser.rs  |  2 ++
 3 files changed, 34 insertions(+)

diff --git a/deser-derive/src/attr.rs b/deser-derive/src/attr.rs
index d4ca2fd..e4def53 100644
--- a/deser-derive/src/attr.rs
+++ b/deser-derive/src/attr.rs
@@ -172,6 +172,36 @@ impl<'a> ContainerAttrs<'a> {
         Ok(rv)
     }
 
+    /// Fails if there is an attribute which only makes sense for structs with fields.
+    pub fn ensure_no_struct_attrs(&self) -> syn::Result<()> {
+        if self.default.is_some() {
+            Err(syn::Error::new_spanned(
+                self.ident,
+                "default is only supported on structs with named fields",
+            ))
+        } else if self.skip_serializing_optionals {
+            Err(syn::Error::new_spanned(
+                self.ident,
+                "skip_serializing_optionals is only supported on structs with named fields",
+            ))
+        } else {
+            Ok(())
+        }
+    }
+
+    /// Fails if there is an attribute which makes no sense for newtype structs.
+    pub fn ensure_no_newtype_attrs(&self) -> syn::Result<()> {
+        self.ensure_no_struct_attrs()?;
+        if self.rename_all.is_some() {
+            Err(syn::Error::new_spanned(
+                self.ident,
+                "rename_all is not supported on newtype structs",
+            ))
+        } else {
+            Ok(())
+        }
+    }
+
     pub fn container_name(&self) -> String {
         match self.rename {
             Some(ref name) => name.clone(),
diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index 46bb891..bc8e30f 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -341,6 +341,7 @@ pub fn derive_enum(
     );
 
     let container_attrs = ContainerAttrs::of(input)?;
+    container_attrs.ensure_no_struct_attrs()?;
     let var_idents = enumeration
         .variants
         .iter()
@@ -453,6 +454,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
     // TODO: we want to report the type name here but the current descriptor
     // interface does not let us.  https://github.com/mitsuhiko/deser/issues/8
     let container_attrs = ContainerAttrs::of(input)?;
+    container_attrs.ensure_no_newtype_attrs()?;
     let _type_name = container_attrs.container_name();
 
     ensure_no_field_attrs(field)?;
diff --git a/deser-derive/src/ser.rs b/deser-derive/src/ser.rs
index 0f2fe92..6ac12fb 100644
--- a/deser-derive/src/ser.rs
+++ b/deser-derive/src/ser.rs
@@ -216,6 +216,7 @@ fn derive_enum(input: &syn::DeriveInput, enumeration: &syn::DataEnum) -> syn::Re
     );
 
     let container_attrs = ContainerAttrs::of(input)?;
+    container_attrs.ensure_no_struct_attrs()?;
     let var_idents = enumeration
         .variants
         .iter()
@@ -269,6 +270,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
     // TODO: we want to report the type name here but the current descriptor
     // interface does not let us.  https://github.com/mitsuhiko/deser/issues/8
     let container_attrs = ContainerAttrs::of(input)?;
+    container_attrs.ensure_no_newtype_attrs()?;
     let _type_name = container_attrs.container_name();
 
     ensure_no_field_attrs(field)?;
-- 
2.43.0


From 86f49e9722393d9d7f531feadda6e857567e3854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:01 +0000
Subject: [PATCH 28/29] fix: reject rename and alias on flattened fields

---
 deser-derive/src/attr.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/deser-derive/src/attr.rs b/deser-derive/src/attr.rs
index e4def53..b8e28d9 100644
--- a/deser-derive/src/attr.rs
+++ b/deser-derive/src/attr.rs
@@ -404,6 +404,12 @@ impl<'a> FieldAttrs<'a> {
                 "cannot combine flatten and default",
             ));
         }
+        if rv.flatten && (rv.rename.is_some() || !rv.aliases.is_empty()) {
+            return Err(syn::Error::new_spanned(
+                field,
+                "cannot combine flatten with rename or alias",
+            ));
+        }
 
         Ok(rv)
     }
-- 
2.43.0


From 0e5dc72ef55208fc9310127bd19eef9fb1dbfb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:40 +0000
Subject: [PATCH 29/29] fix: derive expansions do not collide with more names
 in scope

---
 deser-derive/src/de.rs  | 16 ++++++++--------
 deser-derive/src/ser.rs |  8 ++++----
 deser/src/lib.rs        |  4 +++-
 3 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index bc8e30f..55454fb 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -152,7 +152,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
                 );
                 quote! {
                     match #name {
-                        ::deser::__derive::Some(val) => val,
+                        ::deser::__derive::Some(__val) => __val,
                         ::deser::__derive::None => return ::deser::__derive::Err(::deser::Error::new(::deser::ErrorKind::Unexpected, #error))
                     }
                 }
@@ -162,7 +162,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
                 let str_name = attrs.name(&container_attrs);
                 quote! {
                     match #name {
-                        ::deser::__derive::Some(val) => val,
+                        ::deser::__derive::Some(__val) => __val,
                         ::deser::__derive::None => return ::deser::__derive::Err(::deser::__derive::new_missing_field_error(#str_name))
                     }
                 }
@@ -276,7 +276,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
                     })
                 }
 
-                fn value_for_key(&mut self, __key: &str, __state: &::deser::de::DeserializerState)
+                fn value_for_key(&mut self, __key: &::deser::__derive::str, __state: &::deser::de::DeserializerState)
                     -> ::deser::__derive::Result<::deser::__derive::Option<::deser::de::SinkHandle>>
                 {
                     match __key {
@@ -425,17 +425,17 @@ pub fn derive_enum(
                     __atom: ::deser::Atom,
                     __state: &::deser::de::DeserializerState
                 ) -> ::deser::__derive::Result<()> {
-                    let s = match __atom {
-                        ::deser::Atom::Str(ref s) => &s as &::deser::__derive::str,
+                    let __s = match __atom {
+                        ::deser::Atom::Str(ref __s) => &__s as &::deser::__derive::str,
                         __other => return self.unexpected_atom(__other, __state),
                     };
-                    let value = match s {
+                    let __value = match __s {
                         #( #matcher => #ident::#var_idents, )*
                         _ => return ::deser::__derive::Err(
                             ::deser::Error::new(::deser::ErrorKind::Unexpected, "unexpected value for enum")
                         )
                     };
-                    self.slot = ::deser::__derive::Some(value);
+                    self.slot = ::deser::__derive::Some(__value);
                     ::deser::__derive::Ok(())
                 }
             }
@@ -515,7 +515,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
 
                 fn value_for_key(
                     &mut self,
-                    __key: &str,
+                    __key: &::deser::__derive::str,
                     __state: &::deser::de::DeserializerState,
                 ) -> ::deser::__derive::Result<::deser::__derive::Option<::deser::de::SinkHandle>> {
                     self.sink.borrow_mut().value_for_key(__key, __state)
diff --git a/deser-derive/src/ser.rs b/deser-derive/src/ser.rs
index 6ac12fb..07e3189 100644
--- a/deser-derive/src/ser.rs
+++ b/deser-derive/src/ser.rs
@@ -39,7 +39,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
     let temp_emitter = if attrs.iter().any(|x| x.flatten()) {
         Some(quote! {
             nested_emitter: ::deser::__derive::Option<::deser::__derive::Box<dyn ::deser::ser::StructEmitter + '__a>>,
-            nested_emitter_exhausted: bool,
+            nested_emitter_exhausted: ::deser::__derive::bool,
         })
     } else {
         None
@@ -168,7 +168,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
 
             struct __StructEmitter #wrapper_impl_generics #where_clause {
                 data: &'__a #ident #ty_generics,
-                index: usize,
+                index: ::deser::__derive::usize,
                 #temp_emitter
             }
 
@@ -284,7 +284,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
             #[automatically_derived]
             impl #impl_generics ::deser::Serialize for #ident #ty_generics #bounded_where_clause {
                 fn descriptor(&self) -> &dyn ::deser::Descriptor {
-                    self.0.descriptor()
+                    ::deser::ser::Serialize::descriptor(&self.0)
                 }
                 fn serialize(&self, __state: &::deser::ser::SerializerState) -> ::deser::__derive::Result<::deser::ser::Chunk> {
                     ::deser::ser::Serialize::serialize(&self.0, __state)
@@ -292,7 +292,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
                 fn finish(&self, __state: &::deser::ser::SerializerState) -> ::deser::__derive::Result<()> {
                     ::deser::ser::Serialize::finish(&self.0, __state)
                 }
-                fn is_optional(&self) -> bool {
+                fn is_optional(&self) -> ::deser::__derive::bool {
                     ::deser::ser::Serialize::is_optional(&self.0)
                 }
             }
diff --git a/deser/src/lib.rs b/deser/src/lib.rs
index ee89286..fd7ee42 100644
--- a/deser/src/lib.rs
+++ b/deser/src/lib.rs
@@ -90,6 +90,8 @@ pub mod __derive {
 
     mod _hack {
         pub type Str = str;
+        pub type Usize = usize;
+        pub type Bool = bool;
     }
-    pub use self::_hack::Str as str;
+    pub use self::_hack::{Bool as bool, Str as str, Usize as usize};
 }
-- 
2.43.0

