From 8adc38abe9a1ca88c1eccf119c9112cc4f4d8c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:22:14 +0000
Subject: [PATCH 01/15] fix: write every byte of an ASCII string even when the
 writer accepts only part of it

write_string called Write::write and discarded the returned count, so a writer
that performs short writes silently produced truncated strings.
---
 src/cursor_ext.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cursor_ext.rs b/src/cursor_ext.rs
index 8fc0c44..8ac6d1f 100644
--- a/src/cursor_ext.rs
+++ b/src/cursor_ext.rs
@@ -150,8 +150,8 @@ impl<W: Write> WriteExt for W {
             // ASCII strings do not require encoding
             let len = v.len() + 1;
             self.write_i32::<LittleEndian>(len as i32)?;
-            let _ = self.write(v.as_bytes())?;
-            let _ = self.write(&[0u8; 1])?;
+            self.write_all(v.as_bytes())?;
+            self.write_all(&[0u8; 1])?;
             Ok(len * 2 + 4)
         } else {
             // Perform UTF-16 encoding when non-ASCII characters are detected
-- 
2.43.0


From 66a269fb3a766a7a4bca3044862fb29450e0e7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:22:33 +0000
Subject: [PATCH 02/15] fix: report the number of bytes actually written

write_string counted ASCII strings as two bytes per character, NameProperty
left its type name out of the count and GameplayTagContainer counted its tags
instead of the four length bytes.
---
 src/cursor_ext.rs                 | 2 +-
 src/properties/mod.rs             | 2 +-
 src/properties/struct_property.rs | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cursor_ext.rs b/src/cursor_ext.rs
index 8ac6d1f..f6fbe86 100644
--- a/src/cursor_ext.rs
+++ b/src/cursor_ext.rs
@@ -152,7 +152,7 @@ impl<W: Write> WriteExt for W {
             self.write_i32::<LittleEndian>(len as i32)?;
             self.write_all(v.as_bytes())?;
             self.write_all(&[0u8; 1])?;
-            Ok(len * 2 + 4)
+            Ok(len + 4)
         } else {
             // Perform UTF-16 encoding when non-ASCII characters are detected
             let words: Vec<u16> = v.encode_utf16().collect();
diff --git a/src/properties/mod.rs b/src/properties/mod.rs
index 963f515..cd1fcfd 100644
--- a/src/properties/mod.rs
+++ b/src/properties/mod.rs
@@ -330,7 +330,7 @@ macro_rules! impl_write {
             len += self.write_body(buf, options)?;
             let buf = buf.get_ref();
 
-            writer.write_string(stringify!($property))?;
+            len += writer.write_string(stringify!($property))?;
             writer.write_u32::<LittleEndian>(buf.len() as u32)?;
             writer.write_u32::<LittleEndian>(self.array_index)?;
             $(
diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index 8a59413..4898eb1 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -347,8 +347,8 @@ impl PropertyTrait for StructPropertyValue {
                 Ok(16)
             }
             StructPropertyValue::GameplayTagContainer(tags) => {
-                let mut len = tags.len();
-                cursor.write_i32::<LittleEndian>(len as i32)?;
+                let mut len = 4;
+                cursor.write_i32::<LittleEndian>(tags.len() as i32)?;
                 for gameplaytag in tags {
                     len += cursor.write_string(gameplaytag)?;
                 }
-- 
2.43.0


From bdfa3dd3d67eea0c1ecb7042ca8c87a095d61731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:22:50 +0000
Subject: [PATCH 03/15] fix: return an error instead of panicking on malformed
 property headers

Array indices, separators and the inner type of struct arrays were checked
with assert_eq!, so a corrupted file aborted the caller.
---
 src/properties/array_property.rs   |  6 +++++-
 src/properties/int_property.rs     | 32 +++++++++++++++++-------------
 src/properties/unknown_property.rs | 22 +++++++++++---------
 3 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/properties/array_property.rs b/src/properties/array_property.rs
index 9977e3e..626d9ea 100644
--- a/src/properties/array_property.rs
+++ b/src/properties/array_property.rs
@@ -311,7 +311,11 @@ impl ArrayProperty {
                 let field_name = cursor.read_string()?;
 
                 let property_type = cursor.read_string()?;
-                assert_eq!(property_type, "StructProperty");
+                validate!(
+                    cursor,
+                    property_type == "StructProperty",
+                    "Unexpected array property type {property_type}",
+                );
                 let properties_size = cursor.read_u64::<LittleEndian>()?;
 
                 let struct_name = cursor.read_string()?;
diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index ab4f7e4..e44ec19 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -28,6 +28,16 @@ macro_rules! check_size {
     };
 }
 
+macro_rules! check_zero {
+    ($cursor:ident) => {
+        let terminator = $cursor.read_u8()?;
+        if terminator != 0 {
+            let position = $cursor.stream_position()? - 1;
+            Err(DeserializeError::InvalidTerminator(terminator, position))?
+        }
+    };
+}
+
 macro_rules! impl_int_property {
     ($name:ident, $ty:ident, $read_method:ident, $write_method:ident, $size:literal) => {
         #[doc = concat!("A property that stores a `", stringify!($ty), "`.")]
@@ -53,8 +63,7 @@ macro_rules! impl_int_property {
             ) -> Result<Self, Error> {
                 if include_header {
                     check_size!(cursor, $size);
-                    let separator = cursor.read_u8()?;
-                    assert_eq!(separator, 0);
+                    check_zero!(cursor);
                 }
                 Ok(Self::new(cursor.$read_method::<LittleEndian>()?))
             }
@@ -107,8 +116,7 @@ impl Int8Property {
     ) -> Result<Self, Error> {
         if include_header {
             check_size!(cursor, 1);
-            let separator = cursor.read_u8()?;
-            assert_eq!(separator, 0);
+            check_zero!(cursor);
         }
         Ok(Int8Property {
             value: cursor.read_i8()?,
@@ -193,17 +201,14 @@ impl ByteProperty {
         if include_header {
             let length = cursor.read_u32::<LittleEndian>()?;
             let array_index = cursor.read_u32::<LittleEndian>()?;
-            assert_eq!(
-                array_index,
-                0,
-                "Expected array_index value zero @ {:#x}",
-                cursor.stream_position()? - 4
-            );
+            if array_index != 0 {
+                let position = cursor.stream_position()? - 4;
+                Err(DeserializeError::InvalidArrayIndex(array_index, position))?
+            }
             suggested_length = Some(length);
 
             name = Some(cursor.read_string()?);
-            let separator = cursor.read_u8()?;
-            assert_eq!(separator, 0);
+            check_zero!(cursor);
         }
 
         // -1 to account for separator
@@ -286,8 +291,7 @@ impl BoolProperty {
         }
         let value = cursor.read_bool()?;
         if include_header {
-            let indicator = cursor.read_u8()?;
-            assert_eq!(indicator, 0);
+            check_zero!(cursor);
         }
         Ok(BoolProperty { value })
     }
diff --git a/src/properties/unknown_property.rs b/src/properties/unknown_property.rs
index e7126b7..15640cf 100644
--- a/src/properties/unknown_property.rs
+++ b/src/properties/unknown_property.rs
@@ -2,7 +2,10 @@ use std::io::{Cursor, Read, Seek, Write};
 
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 
-use crate::{cursor_ext::WriteExt, error::Error};
+use crate::{
+    cursor_ext::WriteExt,
+    error::{DeserializeError, Error},
+};
 
 use super::{PropertyOptions, PropertyTrait};
 
@@ -43,14 +46,15 @@ impl UnknownProperty {
     ) -> Result<Self, Error> {
         let length = cursor.read_u32::<LittleEndian>()?;
         let array_index = cursor.read_u32::<LittleEndian>()?;
-        assert_eq!(
-            array_index,
-            0,
-            "Expected array_index value zero @ {:#x}",
-            cursor.stream_position()? - 4
-        );
-        let separator = cursor.read_u8()?;
-        assert_eq!(separator, 0);
+        if array_index != 0 {
+            let position = cursor.stream_position()? - 4;
+            Err(DeserializeError::InvalidArrayIndex(array_index, position))?
+        }
+        let terminator = cursor.read_u8()?;
+        if terminator != 0 {
+            let position = cursor.stream_position()? - 1;
+            Err(DeserializeError::InvalidTerminator(terminator, position))?
+        }
 
         UnknownProperty::read_with_length(cursor, property_name, length)
     }
-- 
2.43.0


From 47e10653c546a56b9ba09287e93efd2534f6b602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:22:53 +0000
Subject: [PATCH 04/15] fix: return an error for text histories and arguments
 that are not supported

Reading a TextGenerator or RawText history, or a Gender format argument, hit
unimplemented!() and panicked.
---
 src/properties/text_property.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index e38b961..f9da13d 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -14,7 +14,7 @@ use crate::properties::struct_types::DateTime;
 use crate::types::map::HashableIndexMap;
 use crate::{
     cursor_ext::{ReadExt, WriteExt},
-    error::Error,
+    error::{DeserializeError, Error},
 };
 
 use super::{PropertyOptions, PropertyTrait, impl_read, impl_read_header, impl_write};
@@ -493,7 +493,10 @@ impl FTextHistory {
 
                 FTextHistory::StringTableEntry { table_id, key }
             }
-            _ => unimplemented!("unimplemented history type: {:?}", history_type),
+            _ => Err(DeserializeError::invalid_property(
+                format!("unimplemented history type: {history_type:?}"),
+                cursor,
+            ))?,
         })
     }
 
@@ -779,7 +782,10 @@ impl FormatArgumentValue {
                 FormatArgumentValue::Double(cursor.read_f64::<LittleEndian>()?.into())
             }
             FormatArgumentType::Text => FormatArgumentValue::Text(FText::read(cursor, options)?),
-            FormatArgumentType::Gender => unimplemented!(),
+            FormatArgumentType::Gender => Err(DeserializeError::invalid_property(
+                "unimplemented format argument type: Gender",
+                cursor,
+            ))?,
         })
     }
 
-- 
2.43.0


From a3ff16acbc535155fa437134368e309465dfc146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:22:55 +0000
Subject: [PATCH 05/15] fix: do not underflow on byte and set properties with a
 too small length

---
 src/properties/int_property.rs | 2 +-
 src/properties/set_property.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index e44ec19..0e61fb3 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -212,7 +212,7 @@ impl ByteProperty {
         }
 
         // -1 to account for separator
-        let length = suggested_length.map(|e| e - 1).unwrap_or(1);
+        let length = suggested_length.map(|e| e.saturating_sub(1)).unwrap_or(1);
 
         let value = match length {
             1 | 0 => BytePropertyValue::Byte(cursor.read_u8()?),
diff --git a/src/properties/set_property.rs b/src/properties/set_property.rs
index 1bc82db..e87b531 100644
--- a/src/properties/set_property.rs
+++ b/src/properties/set_property.rs
@@ -65,7 +65,7 @@ impl SetProperty {
         let mut properties: Vec<Property> = Vec::with_capacity(element_count as usize);
 
         if element_count > 0
-            && let Some(total_bytes_per_property) = (length - 8).checked_div(element_count)
+            && let Some(total_bytes_per_property) = length.saturating_sub(8).checked_div(element_count)
         {
             for _ in 0..element_count {
                 properties.push(Property::new(
-- 
2.43.0


From b15c88cd9adf00c65974ab59507fd766aa980418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:23:18 +0000
Subject: [PATCH 06/15] fix: do not preallocate collections from counts found
 in the file

A corrupted element count made with_capacity panic with a capacity overflow
(negative counts) or abort on allocation failure.
---
 src/lib.rs                            | 2 +-
 src/properties/array_property.rs      | 2 +-
 src/properties/delegate_property.rs   | 2 +-
 src/properties/field_path_property.rs | 2 +-
 src/properties/map_property.rs        | 2 +-
 src/properties/set_property.rs        | 2 +-
 src/properties/struct_property.rs     | 2 +-
 src/properties/text_property.rs       | 6 +++---
 8 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c72922a..3d94be0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -221,7 +221,7 @@ impl GvasHeader {
         }
 
         let custom_versions_len = cursor.read_u32::<LittleEndian>()?;
-        let mut custom_versions = HashableIndexMap::with_capacity(custom_versions_len as usize);
+        let mut custom_versions = HashableIndexMap::new();
         for _ in 0..custom_versions_len {
             let FCustomVersion { key, version } = FCustomVersion::read(cursor)?;
             custom_versions.insert(key, version);
diff --git a/src/properties/array_property.rs b/src/properties/array_property.rs
index 626d9ea..4b94539 100644
--- a/src/properties/array_property.rs
+++ b/src/properties/array_property.rs
@@ -302,7 +302,7 @@ impl ArrayProperty {
         property_type: String,
     ) -> Result<Self, Error> {
         let property_count = cursor.read_u32::<LittleEndian>()?;
-        let mut properties: Vec<Property> = Vec::with_capacity(property_count as usize);
+        let mut properties: Vec<Property> = Vec::new();
 
         let mut array_struct_info = None;
 
diff --git a/src/properties/delegate_property.rs b/src/properties/delegate_property.rs
index 8f8e0df..5ff49bb 100644
--- a/src/properties/delegate_property.rs
+++ b/src/properties/delegate_property.rs
@@ -105,7 +105,7 @@ impl MulticastScriptDelegate {
     #[inline]
     pub(crate) fn read<R: Read + Seek>(cursor: &mut R) -> Result<Self, Error> {
         let delegates_len = cursor.read_u32::<LittleEndian>()?;
-        let mut delegates = Vec::with_capacity(delegates_len as usize);
+        let mut delegates = Vec::new();
         for _ in 0..delegates_len {
             delegates.push(Delegate::read(cursor)?);
         }
diff --git a/src/properties/field_path_property.rs b/src/properties/field_path_property.rs
index 0579ad1..120bcd5 100644
--- a/src/properties/field_path_property.rs
+++ b/src/properties/field_path_property.rs
@@ -32,7 +32,7 @@ impl FieldPath {
     #[inline]
     pub(crate) fn read<R: Read + Seek>(cursor: &mut R) -> Result<Self, Error> {
         let path_len = cursor.read_u32::<LittleEndian>()?;
-        let mut path = Vec::with_capacity(path_len as usize);
+        let mut path = Vec::new();
         for _ in 0..path_len {
             path.push(cursor.read_string()?);
         }
diff --git a/src/properties/map_property.rs b/src/properties/map_property.rs
index 9ee6bb6..d7c0e36 100644
--- a/src/properties/map_property.rs
+++ b/src/properties/map_property.rs
@@ -465,7 +465,7 @@ impl MapProperty {
         let allocation_flags = cursor.read_u32::<LittleEndian>()?;
         let element_count = cursor.read_u32::<LittleEndian>()?;
 
-        let mut map = HashableIndexMap::with_capacity(element_count as usize);
+        let mut map = HashableIndexMap::new();
         for _ in 0..element_count {
             let properties_stack = &mut options.properties_stack;
             let key_stack_entry = ScopedStackEntry::new(properties_stack, "Key".to_string());
diff --git a/src/properties/set_property.rs b/src/properties/set_property.rs
index e87b531..b88f3ea 100644
--- a/src/properties/set_property.rs
+++ b/src/properties/set_property.rs
@@ -62,7 +62,7 @@ impl SetProperty {
         let allocation_flags = cursor.read_u32::<LittleEndian>()?;
 
         let element_count = cursor.read_u32::<LittleEndian>()?;
-        let mut properties: Vec<Property> = Vec::with_capacity(element_count as usize);
+        let mut properties: Vec<Property> = Vec::new();
 
         if element_count > 0
             && let Some(total_bytes_per_property) = length.saturating_sub(8).checked_div(element_count)
diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index 4898eb1..f9e1968 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -392,7 +392,7 @@ impl StructPropertyValue {
 
     fn read_gameplaytagcontainer<R: Read + Seek>(cursor: &mut R) -> Result<Self, Error> {
         let len = cursor.read_i32::<LittleEndian>()?;
-        let mut tags: Vec<String> = Vec::with_capacity(len as usize);
+        let mut tags: Vec<String> = Vec::new();
         for _ in 0..len {
             tags.push(cursor.read_string()?);
         }
diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index f9da13d..6e4a0eb 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -332,7 +332,7 @@ impl FTextHistory {
                 let source_format = Box::new(FText::read(cursor, options)?);
 
                 let argument_count = cursor.read_i32::<LittleEndian>()?;
-                let mut arguments = HashableIndexMap::with_capacity(argument_count as usize);
+                let mut arguments = HashableIndexMap::new();
 
                 for _ in 0..argument_count {
                     let key = cursor.read_string()?;
@@ -349,7 +349,7 @@ impl FTextHistory {
                 let source_format = Box::new(FText::read(cursor, options)?);
 
                 let count = cursor.read_i32::<LittleEndian>()?;
-                let mut arguments = Vec::with_capacity(count as usize);
+                let mut arguments = Vec::new();
 
                 for _ in 0..count {
                     arguments.push(FormatArgumentValue::read(cursor, options)?);
@@ -363,7 +363,7 @@ impl FTextHistory {
             TextHistoryType::ArgumentFormat => {
                 let source_format = Box::new(FText::read(cursor, options)?);
                 let count = cursor.read_i32::<LittleEndian>()?;
-                let mut arguments = HashableIndexMap::with_capacity(count as usize);
+                let mut arguments = HashableIndexMap::new();
 
                 for _ in 0..count {
                     let key = cursor.read_string()?;
-- 
2.43.0


From d564cb52c83d1b05e3784f7991a77254d5038529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:23:20 +0000
Subject: [PATCH 07/15] fix: do not panic in debug builds on repeated property
 names in a struct

The values are kept in file order together with their array index, so nothing
is lost without the assertion; release builds already accept such files.
---
 src/properties/struct_property.rs | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index f9e1968..d2f8d49 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -11,7 +11,7 @@ use crate::{
     cursor_ext::{ReadExt, WriteExt},
     custom_version::FUE5ReleaseStreamObjectVersion,
     error::{DeserializeError, Error, SerializeError},
-    properties::{name_property::NameProperty, struct_types::LinearColor},
+    properties::struct_types::LinearColor,
     scoped_stack_entry::ScopedStackEntry,
     types::{Guid, map::HashableIndexMap},
 };
@@ -182,20 +182,7 @@ impl StructProperty {
 }
 
 fn insert_property(map: &mut IndexMap<String, Vec<Property>>, key: String, property: Property) {
-    let entry = map.entry(key).or_default();
-    #[cfg(debug_assertions)]
-    {
-        let array_index = match property {
-            // TODO: Move array_index to the Property layer
-            Property::NameProperty(NameProperty { array_index, .. }) => array_index,
-            _ => 0,
-        };
-        let actual_array_index = entry.len() as u32;
-        // Ensure that the position in the array matches the array_index value,
-        // otherwise this conversion would cause data loss.
-        assert_eq!(actual_array_index, array_index);
-    }
-    entry.push(property);
+    map.entry(key).or_default().push(property);
 }
 
 impl PropertyTrait for StructProperty {
-- 
2.43.0


From 8cd4405be5e74d1485072544ca6b763b13bd861d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:23:33 +0000
Subject: [PATCH 08/15] fix: return an error instead of panicking when writing
 version-dependent text arguments

FormatArgumentValue::write asserted that the value fits the custom versions in
use and BoolProperty::write_body was unimplemented.
---
 src/properties/int_property.rs  |  9 ++++--
 src/properties/text_property.rs | 54 ++++++++++++++++++---------------
 2 files changed, 36 insertions(+), 27 deletions(-)

diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index 0e61fb3..a05aab6 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -326,8 +326,13 @@ impl PropertyTrait for BoolProperty {
         Ok(len)
     }
 
-    fn write_body<W: Write>(&self, _: &mut W, _: &mut PropertyOptions) -> Result<usize, Error> {
-        unimplemented!()
+    fn write_body<W: Write>(
+        &self,
+        cursor: &mut W,
+        _: &mut PropertyOptions,
+    ) -> Result<usize, Error> {
+        cursor.write_bool(self.value)?;
+        Ok(1)
     }
 }
 
diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index 6e4a0eb..b33a0df 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -14,7 +14,7 @@ use crate::properties::struct_types::DateTime;
 use crate::types::map::HashableIndexMap;
 use crate::{
     cursor_ext::{ReadExt, WriteExt},
-    error::{DeserializeError, Error},
+    error::{DeserializeError, Error, SerializeError},
 };
 
 use super::{PropertyOptions, PropertyTrait, impl_read, impl_read_header, impl_write};
@@ -798,45 +798,49 @@ impl FormatArgumentValue {
     ) -> Result<usize, Error> {
         match self {
             FormatArgumentValue::Int(value) => {
-                assert!(
-                    !options.supports_version(
-                        FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
-                    ),
-                    "FormatArgumentValue::Int is not compatible with TextFormatArgumentData64bitSupport"
-                );
+                if options.supports_version(
+                    FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
+                ) {
+                    Err(SerializeError::invalid_value(
+                        "FormatArgumentValue::Int is not compatible with TextFormatArgumentData64bitSupport",
+                    ))?
+                }
                 cursor.write_enum(FormatArgumentType::Int)?;
                 cursor.write_i32::<LittleEndian>(*value)?;
                 Ok(5)
             }
             FormatArgumentValue::Int64(value) => {
-                assert!(
-                    options.supports_version(
-                        FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
-                    ),
-                    "FormatArgumentValue::Int64 requires TextFormatArgumentData64bitSupport"
-                );
+                if !options.supports_version(
+                    FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
+                ) {
+                    Err(SerializeError::invalid_value(
+                        "FormatArgumentValue::Int64 requires TextFormatArgumentData64bitSupport",
+                    ))?
+                }
                 cursor.write_enum(FormatArgumentType::Int)?;
                 cursor.write_i64::<LittleEndian>(*value)?;
                 Ok(9)
             }
             FormatArgumentValue::UInt(value) => {
-                assert!(
-                    !options.supports_version(
-                        FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
-                    ),
-                    "FormatArgumentValue::UInt is not compatible with TextFormatArgumentData64bitSupport"
-                );
+                if options.supports_version(
+                    FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
+                ) {
+                    Err(SerializeError::invalid_value(
+                        "FormatArgumentValue::UInt is not compatible with TextFormatArgumentData64bitSupport",
+                    ))?
+                }
                 cursor.write_enum(FormatArgumentType::UInt)?;
                 cursor.write_u32::<LittleEndian>(*value)?;
                 Ok(5)
             }
             FormatArgumentValue::UInt64(value) => {
-                assert!(
-                    options.supports_version(
-                        FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
-                    ),
-                    "FormatArgumentValue::UInt64 requires TextFormatArgumentData64bitSupport"
-                );
+                if !options.supports_version(
+                    FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
+                ) {
+                    Err(SerializeError::invalid_value(
+                        "FormatArgumentValue::UInt64 requires TextFormatArgumentData64bitSupport",
+                    ))?
+                }
                 cursor.write_enum(FormatArgumentType::UInt)?;
                 cursor.write_u64::<LittleEndian>(*value)?;
                 Ok(9)
-- 
2.43.0


From 63ed404cafe76a68c19003f71e2b3624fe72a02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:24:28 +0000
Subject: [PATCH 09/15] fix: refuse to write a culture invariant string the
 custom versions cannot store

The string was silently dropped from the output.
---
 src/properties/text_property.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index b33a0df..56b7d2e 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -523,15 +523,17 @@ impl FTextHistory {
             FTextHistory::None {
                 culture_invariant_string,
             } => {
-                let mut len = 1;
-                cursor.write_enum(TextHistoryType::None)?;
-                if options.supports_version(
+                if !options.supports_version(
                     FEditorObjectVersion::CultureInvariantTextSerializationKeyStability,
                 ) {
-                    len += 4;
-                    cursor.write_b32(true)?;
-                    len += cursor.write_fstring(culture_invariant_string.as_deref())?;
+                    Err(SerializeError::invalid_value(
+                        "FTextHistory::None requires CultureInvariantTextSerializationKeyStability",
+                    ))?
                 }
+                let mut len = 5;
+                cursor.write_enum(TextHistoryType::None)?;
+                cursor.write_b32(true)?;
+                len += cursor.write_fstring(culture_invariant_string.as_deref())?;
                 Ok(len)
             }
 
-- 
2.43.0


From 1a419e710933b57a988ad31993e98be7dc770e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:24:46 +0000
Subject: [PATCH 10/15] fix: check the declared size of byte properties

A ByteProperty whose header declared a different number of bytes than its value
occupies was accepted, leaving the reader out of step with the file.
---
 src/properties/int_property.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index a05aab6..9f0735b 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -198,6 +198,7 @@ impl ByteProperty {
         mut suggested_length: Option<u32>,
     ) -> Result<Self, Error> {
         let mut name = None;
+        let mut expected_size = None;
         if include_header {
             let length = cursor.read_u32::<LittleEndian>()?;
             let array_index = cursor.read_u32::<LittleEndian>()?;
@@ -206,10 +207,12 @@ impl ByteProperty {
                 Err(DeserializeError::InvalidArrayIndex(array_index, position))?
             }
             suggested_length = Some(length);
+            expected_size = Some(length as u64);
 
             name = Some(cursor.read_string()?);
             check_zero!(cursor);
         }
+        let start = cursor.stream_position()?;
 
         // -1 to account for separator
         let length = suggested_length.map(|e| e.saturating_sub(1)).unwrap_or(1);
@@ -219,6 +222,17 @@ impl ByteProperty {
             _ => BytePropertyValue::Namespaced(cursor.read_string()?),
         };
 
+        if let Some(expected_size) = expected_size {
+            let size = cursor.stream_position()? - start;
+            if size != expected_size {
+                Err(DeserializeError::InvalidValueSize(
+                    expected_size,
+                    size,
+                    start,
+                ))?
+            }
+        }
+
         Ok(ByteProperty { name, value })
     }
 }
-- 
2.43.0


From 536df9d93c06812386f54626e328eab55b21a48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:24:48 +0000
Subject: [PATCH 11/15] fix: reject GUID strings with characters that are not
 hex digits

Multi-byte characters made Guid::from_str panic on a char boundary and signs
such as +F were accepted as digits.
---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 22705f4..677d0dd 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -174,7 +174,7 @@ impl FromStr for Guid {
             return Ok(Guid([0u8; 16]));
         }
 
-        if cleaned.len() != 32 {
+        if cleaned.len() != 32 || !cleaned.bytes().all(|b| b.is_ascii_hexdigit()) {
             Err(ParseGuidError)?;
         }
         let mut guid = Guid(Default::default());
-- 
2.43.0


From 77f790f189fff2e9466be67390e24ca2376d9dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:24:51 +0000
Subject: [PATCH 12/15] fix: hash equal maps to the same value

HashableIndexMap equality ignores entry order while its hash depended on it, so
equal values used as map keys could hash differently.
---
 src/types.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 677d0dd..395e3f4 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -211,7 +211,7 @@ impl<'de> serde::Deserialize<'de> for Guid {
 pub mod map {
     use std::{
         fmt::Debug,
-        hash::Hash,
+        hash::{DefaultHasher, Hash, Hasher},
         ops::{Deref, DerefMut},
     };
 
@@ -249,10 +249,15 @@ pub mod map {
         V: Hash,
     {
         fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-            for (key, value) in &self.0 {
-                key.hash(state);
-                value.hash(state);
+            // Entries are combined without regard to their order because Eq ignores it.
+            let mut sum = 0u64;
+            for entry in &self.0 {
+                let mut hasher = DefaultHasher::new();
+                entry.hash(&mut hasher);
+                sum = sum.wrapping_add(hasher.finish());
             }
+            self.0.len().hash(state);
+            sum.hash(state);
         }
     }
 
-- 
2.43.0


From 62d0b5019431e988e51c96d771e54cab090cd255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:25:07 +0000
Subject: [PATCH 13/15] fix: report write errors while finishing twice
 compressed saves

The outer zlib stream was finished on drop, which ignores I/O errors.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3d94be0..b79d669 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -555,7 +555,7 @@ impl GvasFile {
                         let encoder = ZlibEncoder::new(cursor.by_ref(), Compression::default());
                         let mut encoder = ZlibEncoder::new(encoder, Compression::default());
                         encoder.write_all(&decompressed)?;
-                        encoder.finish()?;
+                        encoder.finish()?.finish()?;
                     }
                 }
 
-- 
2.43.0


From 18b2760d2a328daaad7efb35adb6c165184293d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:25:40 +0000
Subject: [PATCH 14/15] fix: refuse to write strings that are too long to be
 read back

The reader rejects strings of more than 131072 units, so writing one produced a
file that cannot be loaded again.
---
 src/cursor_ext.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/cursor_ext.rs b/src/cursor_ext.rs
index f6fbe86..8967120 100644
--- a/src/cursor_ext.rs
+++ b/src/cursor_ext.rs
@@ -3,7 +3,7 @@ use std::io::{Read, Seek, Write};
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 
 use crate::{
-    error::{DeserializeError, Error},
+    error::{DeserializeError, Error, SerializeError},
     types::Guid,
 };
 
@@ -142,6 +142,14 @@ impl<R: Read + Seek> ReadExt for R {
     }
 }
 
+/// Strings longer than this are rejected when reading.
+fn check_string_len(len: usize) -> Result<(), Error> {
+    if len > 131072 {
+        Err(SerializeError::invalid_value("string is too long"))?
+    }
+    Ok(())
+}
+
 impl<W: Write> WriteExt for W {
     #[inline]
     fn write_string<T: AsRef<str>>(&mut self, v: T) -> Result<usize, Error> {
@@ -149,6 +157,7 @@ impl<W: Write> WriteExt for W {
         if v.is_ascii() {
             // ASCII strings do not require encoding
             let len = v.len() + 1;
+            check_string_len(len)?;
             self.write_i32::<LittleEndian>(len as i32)?;
             self.write_all(v.as_bytes())?;
             self.write_all(&[0u8; 1])?;
@@ -157,6 +166,7 @@ impl<W: Write> WriteExt for W {
             // Perform UTF-16 encoding when non-ASCII characters are detected
             let words: Vec<u16> = v.encode_utf16().collect();
             let len = words.len() + 1;
+            check_string_len(len)?;
             self.write_i32::<LittleEndian>(-(len as i32))?;
             for word in words {
                 self.write_u16::<LittleEndian>(word)?;
-- 
2.43.0


From 45b196bcf2175593271a936ad00c4a9caf64bba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:00:06 +0000
Subject: [PATCH 15/15] fix: refuse array and set elements of unknown kinds
 that have no bytes

---
 src/properties/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/properties/mod.rs b/src/properties/mod.rs
index cd1fcfd..8f4aeb3 100644
--- a/src/properties/mod.rs
+++ b/src/properties/mod.rs
@@ -608,7 +608,10 @@ impl Property {
                     );
                 }
 
-                if let Some(suggested_length) = suggested_length {
+                // An element without any bytes could be repeated without end.
+                if let Some(suggested_length) = suggested_length
+                    && suggested_length > 0
+                {
                     return Ok(UnknownProperty::read_with_length(
                         cursor,
                         value_type.to_string(),
-- 
2.43.0

