From 0d88870be36540fd06ef73cdd334aed53359847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:15 +0000
Subject: [PATCH 01/17] fix: accept negative lower bounds of offset arrays

---
 src/record/binary_array.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/record/binary_array.rs b/src/record/binary_array.rs
index cba98ac..a1848c9 100644
--- a/src/record/binary_array.rs
+++ b/src/record/binary_array.rs
@@ -5,6 +5,7 @@ use nom::{IResult, Parser, combinator::cond, multi::count};
 use crate::{
   combinator::{length, object_id},
   common::AdditionalTypeInfo,
+  data_type::Int32,
   enumeration::{BinaryArrayType, BinaryType},
   error::Error,
   record::RecordType,
@@ -16,7 +17,7 @@ pub struct BinaryArray<'i> {
   pub object_id: NonZeroU32,
   pub binary_array_type_enum: BinaryArrayType,
   pub lengths: Vec<usize>,
-  pub lower_bounds: Option<Vec<usize>>,
+  pub lower_bounds: Option<Vec<Int32>>,
   pub type_enum: BinaryType,
   pub additional_type_info: Option<AdditionalTypeInfo<'i>>,
 }
@@ -35,7 +36,7 @@ impl<'i> BinaryArray<'i> {
         binary_array_type_enum,
         BinaryArrayType::SingleOffset | BinaryArrayType::JaggedOffset | BinaryArrayType::RectangularOffset
       ),
-      count(length, rank),
+      count(|input| Int32::parse(input), rank),
     )
     .parse(input)?;
     let (input, type_enum) = BinaryType::parse(input)?;
-- 
2.43.0


From 8e9fd1dc1a4a5b96413bc0b430e837264f98a123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 02/17] fix: check RETURN_VALUE_INLINE against the other
 message flags

---
 src/record/message_flags.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/record/message_flags.rs b/src/record/message_flags.rs
index d4ba481..3cb0b8c 100644
--- a/src/record/message_flags.rs
+++ b/src/record/message_flags.rs
@@ -81,7 +81,7 @@ impl MessageFlags {
     let return_flags = flags.intersection(
       Self::NO_RETURN_VALUE
         .union(Self::RETURN_VALUE_VOID)
-        .union(Self::RETURN_VALUE_IN_ARRAY)
+        .union(Self::RETURN_VALUE_INLINE)
         .union(Self::RETURN_VALUE_IN_ARRAY),
     );
     let signature_flags = flags.intersection(Self::METHOD_SIGNATURE_IN_ARRAY);
-- 
2.43.0


From 0454095d388f0f2f6a6699096a2886d6ba5e64f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 03/17] fix: decode Char as a UTF-8 encoded character

---
 src/data_type/char.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/data_type/char.rs b/src/data_type/char.rs
index 26f8f2e..d9a0341 100644
--- a/src/data_type/char.rs
+++ b/src/data_type/char.rs
@@ -1,8 +1,9 @@
+use std::str;
+
 use nom::{
   IResult, Parser,
-  branch::alt,
+  bytes::complete::take,
   combinator::{map, map_opt},
-  number::complete::{le_u16, le_u24, le_u32, u8},
 };
 
 use super::impl_primitive;
@@ -18,17 +19,15 @@ pub struct Char(pub char);
 
 impl Char {
   pub fn parse(input: &[u8]) -> IResult<&[u8], Self, Error<'_>> {
-    map(
-      alt((
-        map_opt(u8, |n| char::from_u32(n as u32)),
-        map_opt(le_u16, |n| char::from_u32(n as u32)),
-        map_opt(le_u24, char::from_u32),
-        map_opt(le_u32, char::from_u32),
-      )),
-      Self,
-    )
-    .parse(input)
-    .map_err(|err| {
+    // A single UTF-8 encoded character, whose first byte determines the length.
+    let len = match input.first() {
+      Some(0xc0..=0xdf) => 2usize,
+      Some(0xe0..=0xef) => 3,
+      Some(0xf0..=0xff) => 4,
+      _ => 1,
+    };
+
+    map(map_opt(take(len), |bytes| str::from_utf8(bytes).ok()?.chars().next()), Self).parse(input).map_err(|err| {
       into_failure(err)
         .map(|err: nom::error::Error<&[u8]>| error_position!(err.input, ExpectedPrimitive(PrimitiveType::Char)))
     })
-- 
2.43.0


From 1e924e4e5f38f9ec82016a31e0b5aafeed0e74a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:17 +0000
Subject: [PATCH 04/17] fix: read the kind of a DateTime from the two most
 significant bits

---
 src/value/date_time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/value/date_time.rs b/src/value/date_time.rs
index 7a2e5e5..8b5a034 100644
--- a/src/value/date_time.rs
+++ b/src/value/date_time.rs
@@ -17,12 +17,12 @@ impl DateTime {
   /// The value can represent time instants in a granularity of 100 nanoseconds
   /// until 23:59:59.9999999, December 31, 9999.
   pub fn ticks(&self) -> i64 {
-    i64::from(self.0) >> 2
+    i64::from(self.0) & 0x3fff_ffff_ffff_ffff
   }
 
   /// Provides the time-zone information.
   pub fn kind(&self) -> Option<DateTimeKind> {
-    match i64::from(self.0) & 0b11 {
+    match (i64::from(self.0) >> 62) & 0b11 {
       1 => Some(DateTimeKind::Utc),
       2 => Some(DateTimeKind::Local),
       _ => None,
-- 
2.43.0


From fc37c5d39694297b32c9aa129fd769da261930b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:17 +0000
Subject: [PATCH 05/17] fix: do not count a missing element of a List

---
 src/value/object.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/value/object.rs b/src/value/object.rs
index 7364f11..e3c879d 100644
--- a/src/value/object.rs
+++ b/src/value/object.rs
@@ -262,7 +262,9 @@ where
   {
     if self.count < self.size {
       let res = self.array_deserializer.next_element_seed(seed)?;
-      self.count += 1;
+      if res.is_some() {
+        self.count += 1;
+      }
       return Ok(res)
     }
 
-- 
2.43.0


From c98b2d8d1cfcf89541e3f5e61a934fdcb8b3428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 06/17] fix: deserialize the root value of a message into an
 Option

---
 src/remoting_message.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/remoting_message.rs b/src/remoting_message.rs
index 644fb80..b00f576 100644
--- a/src/remoting_message.rs
+++ b/src/remoting_message.rs
@@ -100,6 +100,13 @@ impl<'de> Deserializer<'de> for RemotingMessage<'de> {
     self.to_deserializer(&visitor)?.deserialize_any(visitor)
   }
 
+  fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+  where
+    V: Visitor<'de>,
+  {
+    self.to_deserializer(&visitor)?.deserialize_option(visitor)
+  }
+
   fn deserialize_struct<V>(
     self,
     name: &'static str,
@@ -114,7 +121,7 @@ impl<'de> Deserializer<'de> for RemotingMessage<'de> {
 
   forward_to_deserialize_any! {
       bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-      bytes byte_buf option unit unit_struct newtype_struct seq tuple
+      bytes byte_buf unit unit_struct newtype_struct seq tuple
       tuple_struct map enum identifier ignored_any
   }
 }
-- 
2.43.0


From 66297ad8581972ed59d5e84c939794f295cbe355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 07/17] fix: accept negative object IDs of class instances

---
 src/combinator.rs           | 16 ++++++++++++++++
 src/common/class_info.rs    |  4 ++--
 src/record/class_with_id.rs |  6 +++---
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 03fb2ac..afa13c4 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -44,6 +44,22 @@ pub fn object_id(input: &[u8]) -> IResult<&[u8], NonZeroU32, Error<'_>> {
   }
 }
 
+/// The ID of a class instance, which may be negative if it is not referenced, e.g. for value types.
+pub fn class_object_id(input: &[u8]) -> IResult<&[u8], NonZeroU32, Error<'_>> {
+  let err_input = input;
+
+  match Int32::parse(input) {
+    Ok((input, object_id)) => {
+      if let Some(object_id) = NonZeroU32::new(i32::from(object_id) as u32) {
+        Ok((input, object_id))
+      } else {
+        Err(nom::Err::Failure(error_position!(err_input, InvalidObjectId)))
+      }
+    },
+    Err(err) => Err(err),
+  }
+}
+
 pub fn length(input: &[u8]) -> IResult<&[u8], usize, Error<'_>> {
   let err_input = input;
 
diff --git a/src/common/class_info.rs b/src/common/class_info.rs
index bef193a..67c4ee3 100644
--- a/src/common/class_info.rs
+++ b/src/common/class_info.rs
@@ -3,7 +3,7 @@ use std::num::NonZeroU32;
 use nom::{IResult, Parser, multi::length_count};
 
 use crate::{
-  combinator::{length, object_id},
+  combinator::{class_object_id, length},
   data_type::LengthPrefixedString,
   error::Error,
 };
@@ -18,7 +18,7 @@ pub struct ClassInfo<'i> {
 
 impl<'i> ClassInfo<'i> {
   pub fn parse(input: &'i [u8]) -> IResult<&'i [u8], Self, Error<'i>> {
-    let (input, object_id) = object_id(input)?;
+    let (input, object_id) = class_object_id(input)?;
     let (input, name) = LengthPrefixedString::parse(input)?;
     let (input, member_names) = length_count(length, LengthPrefixedString::parse).parse(input)?;
 
diff --git a/src/record/class_with_id.rs b/src/record/class_with_id.rs
index 028496b..3153d5c 100644
--- a/src/record/class_with_id.rs
+++ b/src/record/class_with_id.rs
@@ -3,7 +3,7 @@ use std::num::NonZeroU32;
 use nom::IResult;
 
 use crate::{
-  combinator::{self, object_id},
+  combinator::class_object_id,
   error::{Error, error_position},
   record::RecordType,
 };
@@ -19,9 +19,9 @@ impl ClassWithId {
   pub fn parse(input: &[u8]) -> IResult<&[u8], Self, Error<'_>> {
     let (input, _) = RecordType::ClassWithId.parse(input)?;
 
-    let (input, object_id) = object_id(input)?;
+    let (input, object_id) = class_object_id(input)?;
     let err_input = input;
-    let (input, metadata_id) = combinator::object_id(input)?;
+    let (input, metadata_id) = class_object_id(input)?;
 
     if metadata_id == object_id {
       return Err(nom::Err::Failure(error_position!(err_input, InvalidMetadataId)))
-- 
2.43.0


From 7a788702174ad2931dd61cc0d15743cb2fc133af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 08/17] fix: do not parse an untyped primitive as a library

---
 src/binary_parser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index d0cb273..01653c5 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -95,7 +95,11 @@ impl<'i> BinaryParser<'i> {
     input: &'i [u8],
     type_enum_and_additional_type_info: Option<(BinaryType, Option<&AdditionalTypeInfo<'i>>)>,
   ) -> IResult<&'i [u8], ValueOrRef<'i>, Error<'i>> {
-    let (input, ()) = self.parse_binary_library(input)?;
+    // An untyped primitive has no record type, so it cannot be preceded by a library.
+    let (input, ()) = match type_enum_and_additional_type_info {
+      Some((BinaryType::Primitive, _)) => (input, ()),
+      _ => self.parse_binary_library(input)?,
+    };
 
     let (input, object) = if let Some((type_enum, additional_type_info)) = type_enum_and_additional_type_info {
       match (type_enum, additional_type_info) {
-- 
2.43.0


From e47393dd57b986a51644a58776c867da9b41630e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 09/17] fix: allow a library to precede any kind of record

---
 src/binary_parser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 01653c5..098f5c2 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -80,8 +80,12 @@ impl<'i> BinaryParser<'i> {
 
     if let Some(binary_library) = binary_library {
       let library_id = binary_library.library_id();
+      let library_name = binary_library.library_name.as_str();
 
-      if self.binary_libraries.insert(library_id, binary_library.library_name).is_some() {
+      // The same record is parsed again if parsing continues with a different alternative.
+      if let Some(existing) = self.binary_libraries.insert(library_id, binary_library.library_name)
+        && !std::ptr::eq(existing.as_str(), library_name)
+      {
         return Err(nom::Err::Failure(error_position!(input, DuplicateLibraryId)))
       }
     }
-- 
2.43.0


From cbed9921a22e44c5ad8a5846ab48b3163e51ca3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 10/17] fix: keep class metadata for following instances

---
 src/binary_parser/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 098f5c2..10795a8 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -254,14 +254,15 @@ impl<'i> BinaryParser<'i> {
           (class.object_id(), Class::SystemClassWithMembersAndTypes(class))
         }),
       ))
-      .parse(input)?,
+      .parse(input)
+      .map(|(input, (object_id, class))| {
+        // Instances of a class may follow even within its own members.
+        self.classes.insert(object_id, class.clone());
+        (input, (object_id, class))
+      })?,
       Err(err) => return Err(err),
     };
 
-    if self.classes.contains_key(&object_id) {
-      return Err(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
-    }
-
     let (input, (class_info, library, member_references)) = match class {
       Class::ClassWithMembers(ref class) => {
         let library = if let Some(library) = self.binary_libraries.get(&class.library_id()) {
-- 
2.43.0


From ca7a394b5afeb8df1fbdb53ab4fe41b2e99786d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 11/17] fix: count runs of null objects by their length

---
 src/binary_parser/mod.rs | 106 +++++++++++++++++++--------------------
 1 file changed, 53 insertions(+), 53 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 10795a8..826690b 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -187,13 +187,51 @@ impl<'i> BinaryParser<'i> {
       member_type_info.binary_type_enums.iter().zip(member_type_info.additional_infos.iter())
     {
       let member;
-      (input, member) = self.parse_member_reference(input, Some((*binary_type_enum, additional_info.as_ref())))?;
+      (input, member) = self.parse_member(input, Some((*binary_type_enum, additional_info.as_ref())))?;
       member_references.push(member);
     }
 
     Ok((input, member_references))
   }
 
+  /// Parses a single class member, so a run of more than one null object is invalid.
+  fn parse_member(
+    &mut self,
+    input: &'i [u8],
+    type_info: Option<(BinaryType, Option<&AdditionalTypeInfo<'i>>)>,
+  ) -> IResult<&'i [u8], ValueOrRef<'i>, Error<'i>> {
+    match self.parse_member_reference(input, type_info)? {
+      (_, ValueOrRef::Null(2..)) => Err(nom::Err::Failure(error_position!(input, InvalidNullCount))),
+      res => Ok(res),
+    }
+  }
+
+  /// Parses the `len` elements of an array.
+  fn parse_elements(
+    &mut self,
+    mut input: &'i [u8],
+    type_info: Option<(BinaryType, Option<&AdditionalTypeInfo<'i>>)>,
+    len: usize,
+  ) -> IResult<&'i [u8], Vec<ValueOrRef<'i>>, Error<'i>> {
+    let mut members = vec![];
+
+    while members.len() < len {
+      let err_input = input;
+      let member;
+      (input, member) = self.parse_member_reference(input, type_info)?;
+
+      match member {
+        ValueOrRef::Null(count) if count > len - members.len() => {
+          return Err(nom::Err::Failure(error_position!(err_input, InvalidNullCount)))
+        },
+        ValueOrRef::Null(count) => members.extend(std::iter::repeat_n(ValueOrRef::Null(1), count)),
+        _ => members.push(member),
+      }
+    }
+
+    Ok((input, members))
+  }
+
   /// Resolves members from already parsed objects or by parsing missing members.
   fn resolve_members(
     &mut self,
@@ -207,10 +245,8 @@ impl<'i> BinaryParser<'i> {
         ValueOrRef::Value(value) => {
           members2.push(value);
         },
-        ValueOrRef::Null(count) => {
-          for _ in 0..count {
-            members2.push(Value::Null);
-          }
+        ValueOrRef::Null(_) => {
+          members2.push(Value::Null);
         },
         ValueOrRef::Ref(id) => {
           if let Some(value) = self.objects.remove(&id.0) {
@@ -273,7 +309,7 @@ impl<'i> BinaryParser<'i> {
 
         let member_count = class.class_info().member_names.len();
         let (input, member_references) =
-          count(|input| self.parse_member_reference(input, None), member_count).parse(input)?;
+          count(|input| self.parse_member(input, None), member_count).parse(input)?;
 
         (input, (class.class_info(), Some(library), member_references))
       },
@@ -291,7 +327,7 @@ impl<'i> BinaryParser<'i> {
       Class::SystemClassWithMembers(ref class) => {
         let member_count = class.class_info().member_names.len();
         let (input, member_references) =
-          count(|input| self.parse_member_reference(input, None), member_count).parse(input)?;
+          count(|input| self.parse_member(input, None), member_count).parse(input)?;
 
         (input, (class.class_info(), None, member_references))
       },
@@ -319,27 +355,10 @@ impl<'i> BinaryParser<'i> {
 
   /// 2.7 Binary Record Grammar - `ArraySingleObject *(memberReference)`
   fn parse_array_single_object(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
-    let (mut input, array_single_object) = ArraySingleObject::parse(input)?;
-
-    let mut members = vec![];
-
-    let len = array_single_object.array_info.len();
-    while members.len() < len {
-      let member;
-      (input, member) = self.parse_member_reference(input, None)?;
-
-      match member {
-        ValueOrRef::Null(count) => {
-          for _ in 0..count {
-            members.push(ValueOrRef::Value(Value::Null));
-          }
-        },
-        _ => {
-          members.push(member);
-        },
-      }
-    }
+    let (input, array_single_object) = ArraySingleObject::parse(input)?;
 
+    let (input, members) =
+      self.parse_elements(input, None, array_single_object.array_info.len())?;
     let (input, members) = self.resolve_members(input, members)?;
 
     let object_id = array_single_object.object_id();
@@ -365,27 +384,10 @@ impl<'i> BinaryParser<'i> {
 
   /// 2.7 Binary Record Grammar - `ArraySingleString *(BinaryObjectString/MemberReference/nullObject)`
   fn parse_array_single_string(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
-    let (mut input, array_single_string) = ArraySingleString::parse(input)?;
-
-    let mut members = vec![];
-
-    let len = array_single_string.array_info.len();
-    while members.len() < len {
-      let member;
-      (input, member) = self.parse_member_reference(input, Some((BinaryType::StringArray, None)))?;
-
-      match member {
-        ValueOrRef::Null(count) => {
-          for _ in 0..count {
-            members.push(ValueOrRef::Value(Value::Null));
-          }
-        },
-        _ => {
-          members.push(member);
-        },
-      }
-    }
+    let (input, array_single_string) = ArraySingleString::parse(input)?;
 
+    let (input, members) =
+      self.parse_elements(input, Some((BinaryType::StringArray, None)), array_single_string.array_info.len())?;
     let (input, members) = self.resolve_members(input, members)?;
 
     let object_id = array_single_string.object_id();
@@ -402,13 +404,11 @@ impl<'i> BinaryParser<'i> {
       Some(member_count) => member_count,
       None => return Err(nom::Err::Failure(error_position!(err_input, InvalidLength))),
     };
-    let (input, members) = count(
-      |input| {
-        self.parse_member_reference(input, Some((binary_array.type_enum, binary_array.additional_type_info.as_ref())))
-      },
+    let (input, members) = self.parse_elements(
+      input,
+      Some((binary_array.type_enum, binary_array.additional_type_info.as_ref())),
       member_count,
-    )
-    .parse(input)?;
+    )?;
 
     let (input, members) = self.resolve_members(input, members)?;
     let object_id = binary_array.object_id();
-- 
2.43.0


From 3de8edca6cdecd578ff068e864d6a5ff726de547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 12/17] fix: shape rectangular arrays in linear time

---
 src/binary_parser/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 826690b..f09d40d 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -416,9 +416,10 @@ impl<'i> BinaryParser<'i> {
     let mut members = members;
     for l in binary_array.lengths.into_iter().skip(1).rev() {
       let mut members2 = vec![];
+      let mut elements = members.into_iter().peekable();
 
-      while !members.is_empty() {
-        members2.push(Value::Array(members.drain(0..l).collect::<Vec<_>>()));
+      while elements.peek().is_some() {
+        members2.push(Value::Array(elements.by_ref().take(l).collect::<Vec<_>>()));
       }
 
       members = members2;
-- 
2.43.0


From aed09a6f315b40e3aa6ded6f98d55284f2fb85bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 13/17] fix: accept references and null objects for typed
 members

---
 src/binary_parser/mod.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index f09d40d..45288b3 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -112,9 +112,11 @@ impl<'i> BinaryParser<'i> {
           |primitive| ValueOrRef::Value(primitive.into_value()),
         )
         .parse(input)?,
-        (BinaryType::String, None) => {
-          map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))).parse(input)?
-        },
+        (BinaryType::String, None) => alt((
+          map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))),
+          Self::parse_null_object_or_reference,
+        ))
+        .parse(input)?,
         (BinaryType::Object, None) => return self.parse_member_reference(input, None),
         (BinaryType::SystemClass, Some(AdditionalTypeInfo::SystemClass(class_name))) => {
           if let Ok((input, (_, object))) = self.parse_classes(input) {
@@ -124,7 +126,7 @@ impl<'i> BinaryParser<'i> {
 
             (input, ValueOrRef::Value(Value::Object(object)))
           } else {
-            Self::parse_null_object(input)?
+            Self::parse_null_object_or_reference(input)?
           }
         },
         (BinaryType::Class, Some(AdditionalTypeInfo::Class(class_type_info))) => {
@@ -143,31 +145,25 @@ impl<'i> BinaryParser<'i> {
 
             (input, ValueOrRef::Value(Value::Object(object)))
           } else {
-            Self::parse_null_object(input)?
+            Self::parse_null_object_or_reference(input)?
           }
         },
         (BinaryType::ObjectArray, None) => return self.parse_member_reference(input, None),
         (BinaryType::StringArray, None) => alt((
           map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))),
-          map(
-            |input| MemberReference::parse(input),
-            |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref)),
-          ),
-          Self::parse_null_object,
+          Self::parse_null_object_or_reference,
         ))
         .parse(input)?,
         (BinaryType::PrimitiveArray, Some(AdditionalTypeInfo::Primitive(_primitive_type))) => {
-          map(|input| MemberReference::parse(input), |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref)))
-            .parse(input)?
+          Self::parse_null_object_or_reference(input)?
         },
         _ => unreachable!(),
       }
     } else {
       alt((
         map(|input| MemberPrimitiveTyped::parse(input), |primitive| ValueOrRef::Value(primitive.into_value())),
-        map(|input| MemberReference::parse(input), |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref))),
         map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))),
-        Self::parse_null_object,
+        Self::parse_null_object_or_reference,
         map(|input| self.parse_classes(input), |(_, object)| ValueOrRef::Value(Value::Object(object))),
       ))
       .parse(input)?
@@ -471,6 +467,15 @@ impl<'i> BinaryParser<'i> {
     .parse(input)
   }
 
+  /// A null object or a reference to an object that is defined elsewhere.
+  fn parse_null_object_or_reference(input: &'i [u8]) -> IResult<&'i [u8], ValueOrRef<'i>, Error<'i>> {
+    alt((
+      map(|input| MemberReference::parse(input), |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref))),
+      Self::parse_null_object,
+    ))
+    .parse(input)
+  }
+
   fn parse_call_array(
     &mut self,
     input: &'i [u8],
-- 
2.43.0


From 03e0d244b97d7eaaa9e00bd89c23b3e678962d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 14/17] fix: reject duplicate object IDs

---
 src/binary_parser/mod.rs | 47 +++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 45288b3..d245942 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -55,6 +55,7 @@ enum MethodCallOrReturn<'i> {
 pub struct BinaryParser<'i> {
   binary_libraries: BTreeMap<NonZeroU32, LengthPrefixedString<'i>>,
   classes: BTreeMap<NonZeroU32, Class<'i>>,
+  object_ids: BTreeMap<NonZeroU32, &'i [u8]>,
   objects: BTreeMap<NonZeroU32, Value<'i>>,
 }
 
@@ -93,6 +94,26 @@ impl<'i> BinaryParser<'i> {
     Ok((input, ()))
   }
 
+  /// Checks that no other record has the same object ID.
+  fn add_object_id(&mut self, input: &'i [u8], object_id: NonZeroU32) -> Result<(), nom::Err<Error<'i>>> {
+    // The same record is parsed again if parsing continues with a different alternative.
+    match self.object_ids.insert(object_id, input) {
+      Some(existing) if !std::ptr::eq(existing, input) => {
+        Err(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
+      },
+      _ => Ok(()),
+    }
+  }
+
+  /// 2.5.7 `BinaryObjectString`
+  fn parse_object_string(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Value<'i>), Error<'i>> {
+    let (input, string) = BinaryObjectString::parse(input)?;
+
+    self.add_object_id(input, string.object_id())?;
+
+    Ok((input, (RefId(string.object_id()), Value::String(string.as_str()))))
+  }
+
   /// 2.7 Binary Record Grammar - `memberReference`
   fn parse_member_reference(
     &mut self,
@@ -113,7 +134,7 @@ impl<'i> BinaryParser<'i> {
         )
         .parse(input)?,
         (BinaryType::String, None) => alt((
-          map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))),
+          map(|input| self.parse_object_string(input), |(_, string)| ValueOrRef::Value(string)),
           Self::parse_null_object_or_reference,
         ))
         .parse(input)?,
@@ -150,7 +171,7 @@ impl<'i> BinaryParser<'i> {
         },
         (BinaryType::ObjectArray, None) => return self.parse_member_reference(input, None),
         (BinaryType::StringArray, None) => alt((
-          map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))),
+          map(|input| self.parse_object_string(input), |(_, string)| ValueOrRef::Value(string)),
           Self::parse_null_object_or_reference,
         ))
         .parse(input)?,
@@ -160,13 +181,12 @@ impl<'i> BinaryParser<'i> {
         _ => unreachable!(),
       }
     } else {
-      alt((
+      alt_mut!(input =>
         map(|input| MemberPrimitiveTyped::parse(input), |primitive| ValueOrRef::Value(primitive.into_value())),
-        map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))),
+        map(|input| self.parse_object_string(input), |(_, string)| ValueOrRef::Value(string)),
         Self::parse_null_object_or_reference,
         map(|input| self.parse_classes(input), |(_, object)| ValueOrRef::Value(Value::Object(object))),
-      ))
-      .parse(input)?
+      )?
     };
 
     Ok((input, object))
@@ -295,6 +315,8 @@ impl<'i> BinaryParser<'i> {
       Err(err) => return Err(err),
     };
 
+    self.add_object_id(input, object_id)?;
+
     let (input, (class_info, library, member_references)) = match class {
       Class::ClassWithMembers(ref class) => {
         let library = if let Some(library) = self.binary_libraries.get(&class.library_id()) {
@@ -353,6 +375,8 @@ impl<'i> BinaryParser<'i> {
   fn parse_array_single_object(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
     let (input, array_single_object) = ArraySingleObject::parse(input)?;
 
+    self.add_object_id(input, array_single_object.object_id())?;
+
     let (input, members) =
       self.parse_elements(input, None, array_single_object.array_info.len())?;
     let (input, members) = self.resolve_members(input, members)?;
@@ -365,6 +389,8 @@ impl<'i> BinaryParser<'i> {
   fn parse_array_single_primitive(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
     let (input, array_single_primitive) = ArraySinglePrimitive::parse(input)?;
 
+    self.add_object_id(input, array_single_primitive.object_id())?;
+
     let (input, members) = count(
       map(
         |input| MemberPrimitiveUnTyped::parse(input, array_single_primitive.primitive_type),
@@ -382,6 +408,8 @@ impl<'i> BinaryParser<'i> {
   fn parse_array_single_string(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
     let (input, array_single_string) = ArraySingleString::parse(input)?;
 
+    self.add_object_id(input, array_single_string.object_id())?;
+
     let (input, members) =
       self.parse_elements(input, Some((BinaryType::StringArray, None)), array_single_string.array_info.len())?;
     let (input, members) = self.resolve_members(input, members)?;
@@ -396,6 +424,8 @@ impl<'i> BinaryParser<'i> {
 
     let (input, binary_array) = BinaryArray::parse(input)?;
 
+    self.add_object_id(input, binary_array.object_id())?;
+
     let member_count = match binary_array.lengths.iter().copied().try_fold(1usize, |acc, n| acc.checked_mul(n)) {
       Some(member_count) => member_count,
       None => return Err(nom::Err::Failure(error_position!(err_input, InvalidLength))),
@@ -447,10 +477,7 @@ impl<'i> BinaryParser<'i> {
         |input| self.parse_arrays(input),
         |(object_id, array)| (object_id, Value::Array(array)),
       ),
-      map(
-        BinaryObjectString::parse,
-        |s| (RefId(s.object_id()), Value::String(s.as_str())),
-      ),
+      |input| self.parse_object_string(input),
     )?;
 
     self.objects.insert(object_id.0, object);
-- 
2.43.0


From c3f8191910dad32aec4876c5a40b3661c5330eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 15/17] fix: resolve references after all records are read

---
 src/binary_parser/mod.rs | 320 ++++++++++++++++++++-------------------
 1 file changed, 168 insertions(+), 152 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index d245942..11f26ba 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -1,12 +1,9 @@
-use std::{
-  collections::{BTreeMap, HashMap},
-  num::NonZeroU32,
-};
+use std::{collections::BTreeMap, num::NonZeroU32};
 
 use nom::{
   IResult, Parser,
   branch::alt,
-  combinator::{map, opt, verify},
+  combinator::{map, opt},
   multi::count,
 };
 
@@ -31,6 +28,16 @@ enum ValueOrRef<'i> {
   Value(Value<'i>),
   Null(usize),
   Ref(RefId),
+  Object(ObjectWithRefs<'i>),
+  Array(Vec<ValueOrRef<'i>>),
+}
+
+/// An object whose members may still refer to other objects.
+#[derive(Debug, Clone)]
+struct ObjectWithRefs<'i> {
+  class: &'i str,
+  library: Option<&'i str>,
+  members: Vec<(&'i str, ValueOrRef<'i>)>,
 }
 
 #[derive(Debug, Clone, Copy)]
@@ -56,7 +63,8 @@ pub struct BinaryParser<'i> {
   binary_libraries: BTreeMap<NonZeroU32, LengthPrefixedString<'i>>,
   classes: BTreeMap<NonZeroU32, Class<'i>>,
   object_ids: BTreeMap<NonZeroU32, &'i [u8]>,
-  objects: BTreeMap<NonZeroU32, Value<'i>>,
+  objects: BTreeMap<NonZeroU32, ValueOrRef<'i>>,
+  references: Vec<RefId>,
 }
 
 macro_rules! alt_mut {
@@ -106,12 +114,13 @@ impl<'i> BinaryParser<'i> {
   }
 
   /// 2.5.7 `BinaryObjectString`
-  fn parse_object_string(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Value<'i>), Error<'i>> {
+  fn parse_object_string(&mut self, input: &'i [u8]) -> IResult<&'i [u8], ValueOrRef<'i>, Error<'i>> {
     let (input, string) = BinaryObjectString::parse(input)?;
 
     self.add_object_id(input, string.object_id())?;
+    self.objects.insert(string.object_id(), ValueOrRef::Value(Value::String(string.as_str())));
 
-    Ok((input, (RefId(string.object_id()), Value::String(string.as_str()))))
+    Ok((input, ValueOrRef::Value(Value::String(string.as_str()))))
   }
 
   /// 2.7 Binary Record Grammar - `memberReference`
@@ -133,11 +142,10 @@ impl<'i> BinaryParser<'i> {
           |primitive| ValueOrRef::Value(primitive.into_value()),
         )
         .parse(input)?,
-        (BinaryType::String, None) => alt((
-          map(|input| self.parse_object_string(input), |(_, string)| ValueOrRef::Value(string)),
-          Self::parse_null_object_or_reference,
-        ))
-        .parse(input)?,
+        (BinaryType::String | BinaryType::StringArray, None) => alt_mut!(input =>
+          |input| self.parse_object_string(input),
+          |input| self.parse_null_object_or_reference(input),
+        )?,
         (BinaryType::Object, None) => return self.parse_member_reference(input, None),
         (BinaryType::SystemClass, Some(AdditionalTypeInfo::SystemClass(class_name))) => {
           if let Ok((input, (_, object))) = self.parse_classes(input) {
@@ -145,9 +153,9 @@ impl<'i> BinaryParser<'i> {
               return Err(nom::Err::Failure(error_position!(input, UnexpectedClass)))
             }
 
-            (input, ValueOrRef::Value(Value::Object(object)))
+            (input, ValueOrRef::Object(object))
           } else {
-            Self::parse_null_object_or_reference(input)?
+            self.parse_null_object_or_reference(input)?
           }
         },
         (BinaryType::Class, Some(AdditionalTypeInfo::Class(class_type_info))) => {
@@ -164,28 +172,23 @@ impl<'i> BinaryParser<'i> {
               return Err(nom::Err::Failure(error_position!(input, UnexpectedClass)))
             }
 
-            (input, ValueOrRef::Value(Value::Object(object)))
+            (input, ValueOrRef::Object(object))
           } else {
-            Self::parse_null_object_or_reference(input)?
+            self.parse_null_object_or_reference(input)?
           }
         },
         (BinaryType::ObjectArray, None) => return self.parse_member_reference(input, None),
-        (BinaryType::StringArray, None) => alt((
-          map(|input| self.parse_object_string(input), |(_, string)| ValueOrRef::Value(string)),
-          Self::parse_null_object_or_reference,
-        ))
-        .parse(input)?,
         (BinaryType::PrimitiveArray, Some(AdditionalTypeInfo::Primitive(_primitive_type))) => {
-          Self::parse_null_object_or_reference(input)?
+          self.parse_null_object_or_reference(input)?
         },
         _ => unreachable!(),
       }
     } else {
       alt_mut!(input =>
         map(|input| MemberPrimitiveTyped::parse(input), |primitive| ValueOrRef::Value(primitive.into_value())),
-        map(|input| self.parse_object_string(input), |(_, string)| ValueOrRef::Value(string)),
-        Self::parse_null_object_or_reference,
-        map(|input| self.parse_classes(input), |(_, object)| ValueOrRef::Value(Value::Object(object))),
+        |input| self.parse_object_string(input),
+        |input| self.parse_null_object_or_reference(input),
+        map(|input| self.parse_classes(input), |(_, object)| ValueOrRef::Object(object)),
       )?
     };
 
@@ -248,44 +251,36 @@ impl<'i> BinaryParser<'i> {
     Ok((input, members))
   }
 
-  /// Resolves members from already parsed objects or by parsing missing members.
-  fn resolve_members(
-    &mut self,
-    mut input: &'i [u8],
-    members: Vec<ValueOrRef<'i>>,
-  ) -> IResult<&'i [u8], Vec<Value<'i>>, Error<'i>> {
-    let mut members2 = Vec::with_capacity(members.len());
-
-    for member in members.into_iter() {
-      match member {
-        ValueOrRef::Value(value) => {
-          members2.push(value);
+  /// Replaces all references in a value with the objects they refer to.
+  ///
+  /// Strings can be referenced more than once.
+  fn resolve(&mut self, value: ValueOrRef<'i>) -> Result<Value<'i>, ErrorInner> {
+    match value {
+      ValueOrRef::Value(value) => Ok(value),
+      ValueOrRef::Null(_) => Ok(Value::Null),
+      ValueOrRef::Ref(id) => match self.objects.get(&id.0) {
+        Some(ValueOrRef::Value(value)) => Ok(value.clone()),
+        _ => {
+          let value = self.objects.remove(&id.0).ok_or(ErrorInner::UnresolvableMemberReference)?;
+          self.resolve(value)
         },
-        ValueOrRef::Null(_) => {
-          members2.push(Value::Null);
-        },
-        ValueOrRef::Ref(id) => {
-          if let Some(value) = self.objects.remove(&id.0) {
-            members2.push(value);
-          } else {
-            let member2;
-            (input, member2) = verify(|input| self.parse_referenceable(input), |id2| id2.0 == id.0).parse(input)?;
+      },
+      ValueOrRef::Object(ObjectWithRefs { class, library, members }) => {
+        let members = members
+          .into_iter()
+          .map(|(member_name, member)| Ok((member_name, self.resolve(member)?)))
+          .collect::<Result<_, _>>()?;
 
-            if let Some(value) = self.objects.remove(&member2.0) {
-              members2.push(value);
-            } else {
-              return Err(nom::Err::Failure(error_position!(input, UnresolvableMemberReference)))
-            }
-          }
-        },
-      }
+        Ok(Value::Object(Object { class, library, members }))
+      },
+      ValueOrRef::Array(members) => {
+        Ok(Value::Array(members.into_iter().map(|member| self.resolve(member)).collect::<Result<_, _>>()?))
+      },
     }
-
-    Ok((input, members2))
   }
 
   /// 2.7 Binary Record Grammar - `Classes`
-  fn parse_classes(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Object<'i>), Error<'i>> {
+  fn parse_classes(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, ObjectWithRefs<'i>), Error<'i>> {
     let (input, ()) = self.parse_binary_library(input)?;
 
     let err_input = input;
@@ -326,8 +321,7 @@ impl<'i> BinaryParser<'i> {
         };
 
         let member_count = class.class_info().member_names.len();
-        let (input, member_references) =
-          count(|input| self.parse_member(input, None), member_count).parse(input)?;
+        let (input, member_references) = count(|input| self.parse_member(input, None), member_count).parse(input)?;
 
         (input, (class.class_info(), Some(library), member_references))
       },
@@ -344,8 +338,7 @@ impl<'i> BinaryParser<'i> {
       },
       Class::SystemClassWithMembers(ref class) => {
         let member_count = class.class_info().member_names.len();
-        let (input, member_references) =
-          count(|input| self.parse_member(input, None), member_count).parse(input)?;
+        let (input, member_references) = count(|input| self.parse_member(input, None), member_count).parse(input)?;
 
         (input, (class.class_info(), None, member_references))
       },
@@ -356,37 +349,37 @@ impl<'i> BinaryParser<'i> {
       },
     };
 
-    let (input, member_references) = self.resolve_members(input, member_references)?;
-
-    let members = HashMap::from_iter(
-      class_info
-        .member_names
-        .iter()
-        .zip(member_references)
-        .map(|(member_name, member)| (member_name.as_str(), { member })),
-    );
+    let members = class_info
+      .member_names
+      .iter()
+      .zip(member_references)
+      .map(|(member_name, member)| (member_name.as_str(), member))
+      .collect();
 
     let class_name = class_info.name.as_str();
 
-    Ok((input, (RefId(object_id), Object { class: class_name, library, members })))
+    Ok((input, (RefId(object_id), ObjectWithRefs { class: class_name, library, members })))
   }
 
   /// 2.7 Binary Record Grammar - `ArraySingleObject *(memberReference)`
-  fn parse_array_single_object(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
+  fn parse_array_single_object(
+    &mut self,
+    input: &'i [u8],
+  ) -> IResult<&'i [u8], (RefId, Vec<ValueOrRef<'i>>), Error<'i>> {
     let (input, array_single_object) = ArraySingleObject::parse(input)?;
 
     self.add_object_id(input, array_single_object.object_id())?;
 
-    let (input, members) =
-      self.parse_elements(input, None, array_single_object.array_info.len())?;
-    let (input, members) = self.resolve_members(input, members)?;
-
+    let (input, members) = self.parse_elements(input, None, array_single_object.array_info.len())?;
     let object_id = array_single_object.object_id();
     Ok((input, (RefId(object_id), members)))
   }
 
   /// 2.7 Binary Record Grammar - `ArraySinglePrimitive *(MemberPrimitiveUnTyped)`
-  fn parse_array_single_primitive(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
+  fn parse_array_single_primitive(
+    &mut self,
+    input: &'i [u8],
+  ) -> IResult<&'i [u8], (RefId, Vec<ValueOrRef<'i>>), Error<'i>> {
     let (input, array_single_primitive) = ArraySinglePrimitive::parse(input)?;
 
     self.add_object_id(input, array_single_primitive.object_id())?;
@@ -394,7 +387,7 @@ impl<'i> BinaryParser<'i> {
     let (input, members) = count(
       map(
         |input| MemberPrimitiveUnTyped::parse(input, array_single_primitive.primitive_type),
-        |primitive| primitive.into_value(),
+        |primitive| ValueOrRef::Value(primitive.into_value()),
       ),
       array_single_primitive.array_info.len(),
     )
@@ -405,21 +398,22 @@ impl<'i> BinaryParser<'i> {
   }
 
   /// 2.7 Binary Record Grammar - `ArraySingleString *(BinaryObjectString/MemberReference/nullObject)`
-  fn parse_array_single_string(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
+  fn parse_array_single_string(
+    &mut self,
+    input: &'i [u8],
+  ) -> IResult<&'i [u8], (RefId, Vec<ValueOrRef<'i>>), Error<'i>> {
     let (input, array_single_string) = ArraySingleString::parse(input)?;
 
     self.add_object_id(input, array_single_string.object_id())?;
 
     let (input, members) =
       self.parse_elements(input, Some((BinaryType::StringArray, None)), array_single_string.array_info.len())?;
-    let (input, members) = self.resolve_members(input, members)?;
-
     let object_id = array_single_string.object_id();
     Ok((input, (RefId(object_id), members)))
   }
 
   /// 2.7 Binary Record Grammar - `BinaryArray *(memberReference)`
-  fn parse_binary_array(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
+  fn parse_binary_array(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<ValueOrRef<'i>>), Error<'i>> {
     let err_input = input;
 
     let (input, binary_array) = BinaryArray::parse(input)?;
@@ -436,7 +430,6 @@ impl<'i> BinaryParser<'i> {
       member_count,
     )?;
 
-    let (input, members) = self.resolve_members(input, members)?;
     let object_id = binary_array.object_id();
 
     let mut members = members;
@@ -445,7 +438,7 @@ impl<'i> BinaryParser<'i> {
       let mut elements = members.into_iter().peekable();
 
       while elements.peek().is_some() {
-        members2.push(Value::Array(elements.by_ref().take(l).collect::<Vec<_>>()));
+        members2.push(ValueOrRef::Array(elements.by_ref().take(l).collect::<Vec<_>>()));
       }
 
       members = members2;
@@ -455,7 +448,7 @@ impl<'i> BinaryParser<'i> {
   }
 
   /// 2.7 Binary Record Grammar - `Arrays`
-  fn parse_arrays(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
+  fn parse_arrays(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<ValueOrRef<'i>>), Error<'i>> {
     let (input, ()) = self.parse_binary_library(input)?;
 
     alt_mut!(input =>
@@ -467,21 +460,24 @@ impl<'i> BinaryParser<'i> {
   }
 
   /// 2.7 Binary Record Grammar - `referenceable`
-  fn parse_referenceable(&mut self, input: &'i [u8]) -> IResult<&'i [u8], RefId, Error<'i>> {
-    let (input, (object_id, object)) = alt_mut!(input =>
+  fn parse_referenceable(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (), Error<'i>> {
+    let (input, object) = alt_mut!(input =>
       map(
         |input| self.parse_classes(input),
-        |(object_id, object)| (object_id, Value::Object(object)),
+        |(object_id, object)| Some((object_id, ValueOrRef::Object(object))),
       ),
       map(
         |input| self.parse_arrays(input),
-        |(object_id, array)| (object_id, Value::Array(array)),
+        |(object_id, array)| Some((object_id, ValueOrRef::Array(array))),
       ),
-      |input| self.parse_object_string(input),
+      map(|input| self.parse_object_string(input), |_| None),
     )?;
 
-    self.objects.insert(object_id.0, object);
-    Ok((input, object_id))
+    if let Some((object_id, object)) = object {
+      self.objects.insert(object_id.0, object);
+    }
+
+    Ok((input, ()))
   }
 
   /// 2.7 Binary Record Grammar - `nullObject`
@@ -495,9 +491,15 @@ impl<'i> BinaryParser<'i> {
   }
 
   /// A null object or a reference to an object that is defined elsewhere.
-  fn parse_null_object_or_reference(input: &'i [u8]) -> IResult<&'i [u8], ValueOrRef<'i>, Error<'i>> {
+  fn parse_null_object_or_reference(&mut self, input: &'i [u8]) -> IResult<&'i [u8], ValueOrRef<'i>, Error<'i>> {
     alt((
-      map(|input| MemberReference::parse(input), |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref))),
+      map(
+        |input| MemberReference::parse(input),
+        |member_reference| {
+          self.references.push(RefId(member_reference.id_ref));
+          ValueOrRef::Ref(RefId(member_reference.id_ref))
+        },
+      ),
       Self::parse_null_object,
     ))
     .parse(input)
@@ -507,7 +509,7 @@ impl<'i> BinaryParser<'i> {
     &mut self,
     input: &'i [u8],
     root_id: Option<NonZeroU32>,
-  ) -> IResult<&'i [u8], Vec<Value<'i>>, Error<'i>> {
+  ) -> IResult<&'i [u8], Vec<ValueOrRef<'i>>, Error<'i>> {
     let (input, ()) = self.parse_binary_library(input)?;
 
     let (input, (call_array_id, call_array)) = self.parse_array_single_object(input)?;
@@ -519,48 +521,55 @@ impl<'i> BinaryParser<'i> {
     Ok((input, call_array))
   }
 
+  /// Finds the arguments of a method call or return. The items of the call array
+  /// may refer to objects which follow.
+  fn parse_args(
+    input: &'i [u8],
+    message_enum: MessageFlags,
+    args: Option<Vec<Value<'i>>>,
+    call_array: Option<Vec<ValueOrRef<'i>>>,
+  ) -> Result<Option<ValueOrRef<'i>>, nom::Err<Error<'i>>> {
+    let args = if message_enum.intersects(MessageFlags::ARGS_IS_ARRAY) {
+      call_array.map(ValueOrRef::Array)
+    } else if message_enum.intersects(MessageFlags::ARGS_IN_ARRAY) {
+      call_array.and_then(|call_array| call_array.into_iter().next())
+    } else {
+      return Ok(args.map(|args| ValueOrRef::Array(args.into_iter().map(ValueOrRef::Value).collect())))
+    };
+
+    match args {
+      Some(args) => Ok(Some(args)),
+      None => Err(nom::Err::Failure(error_position!(input, InvalidArgs))),
+    }
+  }
+
   /// 2.7 Binary Record Grammar - `methodCall`
   fn parse_method_call(
     &mut self,
     input: &'i [u8],
     root_id: Option<NonZeroU32>,
-  ) -> IResult<&'i [u8], MethodCall<'i>, Error<'i>> {
+  ) -> IResult<&'i [u8], (MethodCall<'i>, Option<ValueOrRef<'i>>), Error<'i>> {
     let (input, ()) = self.parse_binary_library(input)?;
 
     let (input, binary_method_call) = BinaryMethodCall::parse(input)?;
 
     let (input, call_array) = opt(|input| self.parse_call_array(input, root_id)).parse(input)?;
 
-    let parse_args = |message_enum: MessageFlags| {
-      if message_enum.intersects(MessageFlags::ARGS_IS_ARRAY) {
-        if let Some(call_array) = call_array {
-          return Ok(Some(call_array))
-        }
-      } else if message_enum.intersects(MessageFlags::ARGS_IN_ARRAY) {
-        if let Some(mut call_array) = call_array {
-          if !call_array.is_empty() {
-            if let Value::Array(args) = call_array.remove(0) {
-              return Ok(Some(args))
-            }
-          }
-        }
-      } else {
-        return Ok(binary_method_call.args.map(|v| v.into_values()))
-      }
-
-      Err(nom::Err::Failure(error_position!(input, InvalidArgs)))
-    };
-
-    let args = parse_args(binary_method_call.message_enum)?;
+    let args = Self::parse_args(
+      input,
+      binary_method_call.message_enum,
+      binary_method_call.args.map(|v| v.into_values()),
+      call_array,
+    )?;
 
     let method_call = MethodCall {
       method_name: binary_method_call.method_name.as_str(),
       type_name: binary_method_call.type_name.as_str(),
       call_context: binary_method_call.call_context.map(|c| c.as_str()),
-      args,
+      args: None,
     };
 
-    Ok((input, method_call))
+    Ok((input, (method_call, args)))
   }
 
   /// 2.7 Binary Record Grammar - `methodReturn`
@@ -568,42 +577,27 @@ impl<'i> BinaryParser<'i> {
     &mut self,
     input: &'i [u8],
     root_id: Option<NonZeroU32>,
-  ) -> IResult<&'i [u8], MethodReturn<'i>, Error<'i>> {
+  ) -> IResult<&'i [u8], (MethodReturn<'i>, Option<ValueOrRef<'i>>), Error<'i>> {
     let (input, ()) = self.parse_binary_library(input)?;
 
     let (input, binary_method_return) = BinaryMethodReturn::parse(input)?;
 
     let (input, call_array) = opt(|input| self.parse_call_array(input, root_id)).parse(input)?;
 
-    let parse_args = |message_enum: MessageFlags| {
-      if message_enum.intersects(MessageFlags::ARGS_IS_ARRAY) {
-        if let Some(call_array) = call_array {
-          return Ok(Some(call_array.clone()))
-        }
-      } else if message_enum.intersects(MessageFlags::ARGS_IN_ARRAY) {
-        if let Some(mut call_array) = call_array {
-          if !call_array.is_empty() {
-            if let Value::Array(args) = call_array.remove(0) {
-              return Ok(Some(args))
-            }
-          }
-        }
-      } else {
-        return Ok(binary_method_return.args.map(|v| v.into_values()))
-      }
-
-      Err(nom::Err::Failure(error_position!(input, InvalidArgs)))
-    };
-
-    let args = parse_args(binary_method_return.message_enum)?;
+    let args = Self::parse_args(
+      input,
+      binary_method_return.message_enum,
+      binary_method_return.args.map(|v| v.into_values()),
+      call_array,
+    )?;
 
     let method_return = MethodReturn {
       return_value: binary_method_return.return_value.map(|v| v.into_value()),
       call_context: binary_method_return.call_context.map(|c| c.as_str()),
-      args,
+      args: None,
     };
 
-    Ok((input, method_return))
+    Ok((input, (method_return, args)))
   }
 
   /// 2.7 Binary Record Grammar - `(methodCall/methodReturn)`
@@ -611,10 +605,10 @@ impl<'i> BinaryParser<'i> {
     &mut self,
     input: &'i [u8],
     root_id: Option<NonZeroU32>,
-  ) -> IResult<&'i [u8], MethodCallOrReturn<'i>, Error<'i>> {
+  ) -> IResult<&'i [u8], (MethodCallOrReturn<'i>, Option<ValueOrRef<'i>>), Error<'i>> {
     alt_mut!(input =>
-      map(|input| self.parse_method_call(input, root_id), MethodCallOrReturn::MethodCall),
-      map(|input| self.parse_method_return(input, root_id), MethodCallOrReturn::MethodReturn),
+      map(|input| self.parse_method_call(input, root_id), |(method_call, args)| (MethodCallOrReturn::MethodCall(method_call), args)),
+      map(|input| self.parse_method_return(input, root_id), |(method_return, args)| (MethodCallOrReturn::MethodReturn(method_return), args)),
     )
   }
 
@@ -652,16 +646,38 @@ impl<'i> BinaryParser<'i> {
       return Err(nom::Err::Error(error_position!(input, TrailingData)))
     }
 
+    if self.references.iter().any(|id| !self.object_ids.contains_key(&id.0)) {
+      return Err(nom::Err::Failure(error_position!(input, UnresolvableMemberReference)))
+    }
+
     let remoting_message = match method_call_or_return {
-      Some(MethodCallOrReturn::MethodCall(method_call)) => RemotingMessage::MethodCall(method_call),
-      Some(MethodCallOrReturn::MethodReturn(method_return)) => RemotingMessage::MethodReturn(method_return),
+      Some((method_call_or_return, args)) => {
+        let args = match args.map(|args| self.resolve(args)).transpose() {
+          Ok(Some(Value::Array(args))) => Some(args),
+          Ok(Some(_)) => return Err(nom::Err::Failure(error_position!(input, InvalidArgs))),
+          Ok(None) => None,
+          Err(inner) => return Err(nom::Err::Failure(Error { input, inner })),
+        };
+
+        match method_call_or_return {
+          MethodCallOrReturn::MethodCall(method_call) => {
+            RemotingMessage::MethodCall(MethodCall { args, ..method_call })
+          },
+          MethodCallOrReturn::MethodReturn(method_return) => {
+            RemotingMessage::MethodReturn(MethodReturn { args, ..method_return })
+          },
+        }
+      },
       None => {
         if let Some(root_id) = header.root_id {
-          if let Some(root_object) = self.objects.remove(&root_id) {
-            RemotingMessage::Value(root_object)
-          } else {
+          if !self.objects.contains_key(&root_id) {
             return Err(nom::Err::Error(error_position!(input, MissingRootObject)))
           }
+
+          match self.resolve(ValueOrRef::Ref(RefId(root_id))) {
+            Ok(root_object) => RemotingMessage::Value(root_object),
+            Err(inner) => return Err(nom::Err::Failure(Error { input, inner })),
+          }
         } else {
           RemotingMessage::Value(Value::Null)
         }
-- 
2.43.0


From 971365ba6e77649cc8130bf52fe7a589c11660d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:40 +0000
Subject: [PATCH 16/17] fix: limit the nesting of classes

---
 src/binary_parser/mod.rs | 16 ++++++++++++++++
 src/error.rs             |  2 ++
 2 files changed, 18 insertions(+)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 11f26ba..2626509 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -58,6 +58,10 @@ enum MethodCallOrReturn<'i> {
   MethodReturn(MethodReturn<'i>),
 }
 
+/// Maximum number of classes nested within each other's members. Only value types are nested
+/// this way, other objects are referenced.
+const MAX_DEPTH: usize = 64;
+
 #[derive(Debug, Default)]
 pub struct BinaryParser<'i> {
   binary_libraries: BTreeMap<NonZeroU32, LengthPrefixedString<'i>>,
@@ -65,6 +69,7 @@ pub struct BinaryParser<'i> {
   object_ids: BTreeMap<NonZeroU32, &'i [u8]>,
   objects: BTreeMap<NonZeroU32, ValueOrRef<'i>>,
   references: Vec<RefId>,
+  depth: usize,
 }
 
 macro_rules! alt_mut {
@@ -281,6 +286,17 @@ impl<'i> BinaryParser<'i> {
 
   /// 2.7 Binary Record Grammar - `Classes`
   fn parse_classes(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, ObjectWithRefs<'i>), Error<'i>> {
+    if self.depth == MAX_DEPTH {
+      return Err(nom::Err::Failure(error_position!(input, NestingTooDeep)))
+    }
+
+    self.depth += 1;
+    let res = self.parse_class(input);
+    self.depth -= 1;
+    res
+  }
+
+  fn parse_class(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, ObjectWithRefs<'i>), Error<'i>> {
     let (input, ()) = self.parse_binary_library(input)?;
 
     let err_input = input;
diff --git a/src/error.rs b/src/error.rs
index 69d48d1..7bd0449 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -48,6 +48,7 @@ pub(crate) enum ErrorInner {
   InvalidObjectId,
   DuplicateObjectId,
   InvalidLength,
+  NestingTooDeep,
   InvalidMajorVersion,
   InvalidMinorVersion,
   InvalidRootId,
@@ -81,6 +82,7 @@ impl fmt::Display for ErrorInner {
       Self::InvalidObjectId => write!(f, "invalid object ID"),
       Self::DuplicateObjectId => write!(f, "duplicate object ID"),
       Self::InvalidLength => write!(f, "invalid length"),
+      Self::NestingTooDeep => write!(f, "objects are nested too deeply"),
       Self::InvalidMajorVersion => write!(f, "invalid major version"),
       Self::InvalidMinorVersion => write!(f, "invalid minor version"),
       Self::InvalidRootId => write!(f, "invalid root ID"),
-- 
2.43.0


From 38bcac79808130af995866a6b456c4f7ecfd79c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:41 +0000
Subject: [PATCH 17/17] fix: limit the rank of arrays

---
 src/record/binary_array.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/record/binary_array.rs b/src/record/binary_array.rs
index a1848c9..be60131 100644
--- a/src/record/binary_array.rs
+++ b/src/record/binary_array.rs
@@ -7,10 +7,13 @@ use crate::{
   common::AdditionalTypeInfo,
   data_type::Int32,
   enumeration::{BinaryArrayType, BinaryType},
-  error::Error,
+  error::{Error, error_position},
   record::RecordType,
 };
 
+/// Maximum rank of an array in .NET.
+const MAX_RANK: usize = 32;
+
 /// 2.4.3.1 `BinaryArray`
 #[derive(Debug, Clone, PartialEq)]
 pub struct BinaryArray<'i> {
@@ -28,8 +31,13 @@ impl<'i> BinaryArray<'i> {
 
     let (input, object_id) = object_id(input)?;
     let (input, binary_array_type_enum) = BinaryArrayType::parse(input)?;
+    let err_input = input;
     let (input, rank) = length(input)?;
 
+    if rank > MAX_RANK {
+      return Err(nom::Err::Failure(error_position!(err_input, InvalidLength)))
+    }
+
     let (input, lengths) = count(length, rank).parse(input)?;
     let (input, lower_bounds) = cond(
       matches!(
-- 
2.43.0

