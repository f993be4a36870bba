From 68ea530ba71012e7ec2fc85b49a35babfe250486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 01/12] fix: give every anchor definition its own id

The id was the number of distinct anchor names, so redefining a name made
later anchors reuse an id that was already taken and an alias to the
redefined anchor resolved to a different node.
---
 src/loader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/loader.rs b/src/loader.rs
index 7c7c7b6..27dfc51 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -88,7 +88,7 @@ impl<'input> Loader<'input> {
                 },
                 YamlEvent::Scalar(mut scalar) => {
                     if let Some(anchor) = scalar.anchor.take() {
-                        let id = anchors.len();
+                        let id = document.aliases.len();
                         anchors.insert(anchor, id);
                         document.aliases.insert(id, document.events.len());
                     }
@@ -96,7 +96,7 @@ impl<'input> Loader<'input> {
                 }
                 YamlEvent::SequenceStart(mut sequence_start) => {
                     if let Some(anchor) = sequence_start.anchor.take() {
-                        let id = anchors.len();
+                        let id = document.aliases.len();
                         anchors.insert(anchor, id);
                         document.aliases.insert(id, document.events.len());
                     }
@@ -105,7 +105,7 @@ impl<'input> Loader<'input> {
                 YamlEvent::SequenceEnd => Event::SequenceEnd,
                 YamlEvent::MappingStart(mut mapping_start) => {
                     if let Some(anchor) = mapping_start.anchor.take() {
-                        let id = anchors.len();
+                        let id = document.aliases.len();
                         anchors.insert(anchor, id);
                         document.aliases.insert(id, document.events.len());
                     }
-- 
2.43.0


From f72f8ab9a858d0f37e5a4d3766c2f3c049cdbc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 02/12] fix: stop iterating after an unknown anchor

The rest of the broken document was otherwise returned as another document,
which could be an end event and panic in the deserializer.
---
 src/loader.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/loader.rs b/src/loader.rs
index 27dfc51..2f5ebfd 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -83,6 +83,7 @@ impl<'input> Loader<'input> {
                     Some(id) => Event::Alias(*id),
                     None => {
                         document.error = Some(error::new(ErrorImpl::UnknownAnchor(mark)).shared());
+                        self.parser = None;
                         return Some(document);
                     }
                 },
-- 
2.43.0


From 6c6d99c2ea4a0f0988137af34a600e9c1fe508b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 03/12] fix: do not lose the start of a single-entry map whose
 key is a map or enum

The start of a single-entry map is deferred in the serializer state until its
key is seen. Keys that are themselves single-entry maps, tagged values, or
non-unit enum variants overwrote that state without emitting it.
---
 src/ser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ser.rs b/src/ser.rs
index 23c761b..5b76190 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -416,6 +416,7 @@ where
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
+        self.flush_mapping_start()?;
         self.state = State::FoundTag(variant.to_owned());
         value.serialize(&mut *self)
     }
@@ -460,6 +461,7 @@ where
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
+        self.flush_mapping_start()?;
         self.state = State::FoundTag(variant.to_owned());
         self.emit_sequence_start()?;
         Ok(self)
@@ -467,6 +469,7 @@ where
 
     fn serialize_map(self, len: Option<usize>) -> Result<Self::SerializeMap> {
         if len == Some(1) {
+            self.flush_mapping_start()?;
             self.state = if let State::FoundTag(_) = self.state {
                 self.emit_mapping_start()?;
                 State::CheckForDuplicateTag
@@ -494,6 +497,7 @@ where
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
+        self.flush_mapping_start()?;
         self.state = State::FoundTag(variant.to_owned());
         self.emit_mapping_start()?;
         Ok(self)
-- 
2.43.0


From f8d1f23ad096c9752fcd5a18295751c53991f92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 04/12] fix: order mappings used as keys independently of
 insertion order

Equal mappings whose keys are mappings written in a different order compared
as Less or Greater.
---
 src/mapping.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mapping.rs b/src/mapping.rs
index 667cd4b..20eb56e 100644
--- a/src/mapping.rs
+++ b/src/mapping.rs
@@ -428,6 +428,10 @@ impl PartialOrd for Mapping {
                 (_, Value::Sequence(_)) => Ordering::Greater,
 
                 (Value::Mapping(a), Value::Mapping(b)) => {
+                    let mut a = Vec::from_iter(a);
+                    let mut b = Vec::from_iter(b);
+                    a.sort_by(|(ak, _), (bk, _)| total_cmp(ak, bk));
+                    b.sort_by(|(ak, _), (bk, _)| total_cmp(ak, bk));
                     iter_cmp_by(a, b, |(ak, av), (bk, bv)| {
                         total_cmp(ak, bk).then_with(|| total_cmp(av, bv))
                     })
-- 
2.43.0


From cd9f3cb6dc7e5cfdd51c116e98ff55665d1c4da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 05/12] fix: Serializer::flush flushes the underlying writer,
 as documented

---
 src/libyaml/emitter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libyaml/emitter.rs b/src/libyaml/emitter.rs
index 686f06e..85c8f44 100644
--- a/src/libyaml/emitter.rs
+++ b/src/libyaml/emitter.rs
@@ -176,8 +176,8 @@ impl<'a> Emitter<'a> {
             if sys::yaml_emitter_flush(emitter).fail {
                 return Err(self.error());
             }
+            (*self.pin.ptr).write.flush().map_err(Error::Io)
         }
-        Ok(())
     }
 
     pub fn into_inner(self) -> Box<dyn io::Write + 'a> {
-- 
2.43.0


From 776c93da6089bddb78619501c3c121db31784a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 06/12] fix: reject scalars longer than the emitter's length
 type

The length was truncated to i32; a negative length makes the emitter look
for a NUL terminator past the end of the string.
---
 src/libyaml/emitter.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libyaml/emitter.rs b/src/libyaml/emitter.rs
index 85c8f44..4dd0b1e 100644
--- a/src/libyaml/emitter.rs
+++ b/src/libyaml/emitter.rs
@@ -113,7 +113,12 @@ impl<'a> Emitter<'a> {
                         tag.as_ptr()
                     });
                     let value = scalar.value.as_ptr();
-                    let length = scalar.value.len() as i32;
+                    let length = i32::try_from(scalar.value.len()).map_err(|_| {
+                        Error::Io(io::Error::new(
+                            io::ErrorKind::InvalidInput,
+                            "scalar is too long to be emitted",
+                        ))
+                    })?;
                     let plain_implicit = tag.is_null();
                     let quoted_implicit = tag.is_null();
                     let style = match scalar.style {
-- 
2.43.0


From 7c42f9ab71c64eb131d6d819c42dca86ba5bfb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 07/12] fix: reject tags containing NUL instead of truncating
 them

Tags are passed to the emitter as NUL-terminated strings.
---
 src/libyaml/emitter.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/libyaml/emitter.rs b/src/libyaml/emitter.rs
index 4dd0b1e..991347b 100644
--- a/src/libyaml/emitter.rs
+++ b/src/libyaml/emitter.rs
@@ -108,10 +108,7 @@ impl<'a> Emitter<'a> {
                 }
                 Event::Scalar(mut scalar) => {
                     let anchor = ptr::null();
-                    let tag = scalar.tag.as_mut().map_or_else(ptr::null, |tag| {
-                        tag.push('\0');
-                        tag.as_ptr()
-                    });
+                    let tag = nul_terminated(&mut scalar.tag)?;
                     let value = scalar.value.as_ptr();
                     let length = i32::try_from(scalar.value.len()).map_err(|_| {
                         Error::Io(io::Error::new(
@@ -140,10 +137,7 @@ impl<'a> Emitter<'a> {
                 }
                 Event::SequenceStart(mut sequence) => {
                     let anchor = ptr::null();
-                    let tag = sequence.tag.as_mut().map_or_else(ptr::null, |tag| {
-                        tag.push('\0');
-                        tag.as_ptr()
-                    });
+                    let tag = nul_terminated(&mut sequence.tag)?;
                     let implicit = tag.is_null();
                     let style = sys::YAML_ANY_SEQUENCE_STYLE;
                     sys::yaml_sequence_start_event_initialize(
@@ -153,10 +147,7 @@ impl<'a> Emitter<'a> {
                 Event::SequenceEnd => sys::yaml_sequence_end_event_initialize(sys_event),
                 Event::MappingStart(mut mapping) => {
                     let anchor = ptr::null();
-                    let tag = mapping.tag.as_mut().map_or_else(ptr::null, |tag| {
-                        tag.push('\0');
-                        tag.as_ptr()
-                    });
+                    let tag = nul_terminated(&mut mapping.tag)?;
                     let implicit = tag.is_null();
                     let style = sys::YAML_ANY_MAPPING_STYLE;
                     sys::yaml_mapping_start_event_initialize(
@@ -200,6 +191,20 @@ impl<'a> Emitter<'a> {
     }
 }
 
+fn nul_terminated(tag: &mut Option<String>) -> Result<*const u8, Error> {
+    match tag {
+        None => Ok(ptr::null()),
+        Some(tag) if tag.contains('\0') => Err(Error::Io(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "tag contains a NUL character",
+        ))),
+        Some(tag) => {
+            tag.push('\0');
+            Ok(tag.as_ptr())
+        }
+    }
+}
+
 unsafe fn write_handler(data: *mut c_void, buffer: *mut u8, size: u64) -> i32 {
     let data = data.cast::<EmitterPinned>();
     match io::Write::write_all(unsafe { &mut *(*data).write }, unsafe {
-- 
2.43.0


From 9f4fa451d33c930affe5ec011e980ac54511b92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:33 +0000
Subject: [PATCH 08/12] fix: report entries of a struct variant left over in a
 Value

A visitor that stopped before the last entry had the rest silently discarded,
unlike the same data read from text or as a plain map.
---
 src/value/de.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/value/de.rs b/src/value/de.rs
index b1ff576..ebdcabd 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -687,11 +687,18 @@ impl<'de> Deserializer<'de> for MapDeserializer {
     type Error = Error;
 
     #[inline]
-    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, Error>
+    fn deserialize_any<V>(mut self, visitor: V) -> Result<V::Value, Error>
     where
         V: Visitor<'de>,
     {
-        visitor.visit_map(self)
+        let len = self.iter.len();
+        let map = visitor.visit_map(&mut self)?;
+        let remaining = self.iter.len();
+        if remaining == 0 {
+            Ok(map)
+        } else {
+            Err(Error::invalid_length(len, &"fewer elements in map"))
+        }
     }
 
     fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value, Error>
@@ -1197,11 +1204,18 @@ impl<'de> Deserializer<'de> for MapRefDeserializer<'de> {
     type Error = Error;
 
     #[inline]
-    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, Error>
+    fn deserialize_any<V>(mut self, visitor: V) -> Result<V::Value, Error>
     where
         V: Visitor<'de>,
     {
-        visitor.visit_map(self)
+        let len = self.iter.as_ref().map_or(0, ExactSizeIterator::len);
+        let map = visitor.visit_map(&mut self)?;
+        let remaining = self.iter.as_ref().map_or(0, ExactSizeIterator::len);
+        if remaining == 0 {
+            Ok(map)
+        } else {
+            Err(Error::invalid_length(len, &"fewer elements in map"))
+        }
     }
 
     fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value, Error>
-- 
2.43.0


From f9b50612236bb80d4e03553b8e940af875ee227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:28 +0000
Subject: [PATCH 09/12] fix: keep the leading "!" of a displayed map key that
 is not a tag

---
 src/value/tagged.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/value/tagged.rs b/src/value/tagged.rs
index baf6a0a..18c308b 100644
--- a/src/value/tagged.rs
+++ b/src/value/tagged.rs
@@ -452,6 +452,7 @@ where
                 }
                 CheckForTag::Tag(string) => {
                     let mut string = mem::take(string);
+                    string.insert(0, '!');
                     string.push_str(s);
                     *self = CheckForTag::NotTag(string);
                 }
-- 
2.43.0


From e817e10253de214a51aa28bad35810deed4b9b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:40 +0000
Subject: [PATCH 10/12] fix: do not start a mapping twice when a map announced
 with one entry has none

---
 src/ser.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index 5b76190..3ffc414 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -640,9 +640,7 @@ where
     }
 
     fn end(self) -> Result<()> {
-        if let State::CheckForTag = self.state {
-            self.emit_mapping_start()?;
-        }
+        self.flush_mapping_start()?;
         if !matches!(self.state, State::AlreadyTagged) {
             self.emit_mapping_end()?;
         }
-- 
2.43.0


From 2d29c3533a93e39c8c617522f4e05ed0c6b1fa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:00 +0000
Subject: [PATCH 11/12] fix: record the position of the error for a mistagged
 null read as an option

---
 src/de.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 566f5f0..93d20c4 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1518,7 +1518,8 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
     where
         V: Visitor<'de>,
     {
-        let is_some = match self.peek_event()? {
+        let (next, mark) = self.peek_event_mark()?;
+        let is_some = match next {
             Event::Alias(mut pos) => {
                 *self.pos += 1;
                 return self.jump(&mut pos)?.deserialize_option(visitor);
@@ -1532,12 +1533,12 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
                         if let Some(()) = parse_null(&scalar.value) {
                             false
                         } else if let Ok(v) = str::from_utf8(&scalar.value) {
-                            return Err(de::Error::invalid_value(Unexpected::Str(v), &"null"));
+                            let err = de::Error::invalid_value(Unexpected::Str(v), &"null");
+                            return Err(error::fix_mark(err, mark, self.path));
                         } else {
-                            return Err(de::Error::invalid_value(
-                                Unexpected::Bytes(&scalar.value),
-                                &"null",
-                            ));
+                            let err =
+                                de::Error::invalid_value(Unexpected::Bytes(&scalar.value), &"null");
+                            return Err(error::fix_mark(err, mark, self.path));
                         }
                     } else {
                         true
-- 
2.43.0


From b20f6443515f09969a20b05c868d202f3b13c748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:45 +0000
Subject: [PATCH 12/12] fix: merge keys inside the merged mapping were left
 unmerged by apply_merge

---
 src/value/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 27a170b..4b9e033 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -629,7 +629,12 @@ impl Value {
         while let Some(node) = stack.pop() {
             match node {
                 Value::Mapping(mapping) => {
-                    match mapping.remove("<<") {
+                    let mut merge = mapping.remove("<<");
+                    if let Some(merge) = &mut merge {
+                        // What is merged may itself contain merges.
+                        merge.apply_merge()?;
+                    }
+                    match merge {
                         Some(Value::Mapping(merge)) => {
                             for (k, v) in merge {
                                 mapping.entry(k).or_insert(v);
-- 
2.43.0

