From cba75154259d2300a6d75d2b9c46abcff09d4f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 01/36] fix: report truncated varchar strings as Truncated
 instead of panicking

---
 runtime/src/message/util/string.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/message/util/string.rs b/runtime/src/message/util/string.rs
index 3a5fe43..9cf52d1 100644
--- a/runtime/src/message/util/string.rs
+++ b/runtime/src/message/util/string.rs
@@ -64,7 +64,8 @@ impl<'a, T: FromSlice<'a, Output: ToUsize>> FromSlice<'a> for VarcharString<T> {
     fn from_slice(slice: &'a [u8]) -> Result<Message<Self::Output>, Error> {
         let msg = T::from_slice(slice)?;
         let size = msg.size();
-        let subslice = &slice[size..size + msg.into_inner().to_usize()];
+        let len = msg.into_inner().to_usize();
+        let subslice = size.checked_add(len).and_then(|end| slice.get(size..end)).ok_or(Error::Truncated)?;
         let string = std::str::from_utf8(subslice).map_err(|_| Error::InvalidUtf8)?;
         Ok(Message::new(size + string.len(), string))
     }
-- 
2.43.0


From c1465e38b074e0e977024d7f142ce13b5f59b580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 02/36] fix: do not overflow on huge array lengths

---
 runtime/src/message/util/array.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/src/message/util/array.rs b/runtime/src/message/util/array.rs
index 99e2ccb..d1788bc 100644
--- a/runtime/src/message/util/array.rs
+++ b/runtime/src/message/util/array.rs
@@ -72,7 +72,7 @@ impl<'a, Item: From<&'a [u8]>> Iterator for Iter<'a, Item> {
 
 impl<B: AsRef<[u8]>, T, Item: FixedSize> Array<B, T, Item> {
     pub fn from_parts(data: B, len: usize) -> Option<Array<B, T, Item>> {
-        match data.as_ref().len() == len * Item::SIZE {
+        match Some(data.as_ref().len()) == len.checked_mul(Item::SIZE) {
             true => Some(unsafe { Array::from_raw_parts(data, len) }),
             false => None
         }
@@ -116,7 +116,7 @@ impl<'a, T: FromSlice<'a, Output: ToUsize>, Item: FixedSize + FromSlice<'a, Outp
         let msg = T::from_slice(slice)?;
         let control_size = msg.size();
         let len = msg.into_inner().to_usize();
-        let total_size = control_size + (len * Item::SIZE);
+        let total_size = len.checked_mul(Item::SIZE).and_then(|v| v.checked_add(control_size)).ok_or(Error::Truncated)?;
         if slice.len() < total_size {
             Err(Error::Truncated)
         } else {
-- 
2.43.0


From 08ff5f988c350555280a3ceeb84b6ac6935aed3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 03/36] fix: stop iterating a list after a malformed item

---
 runtime/src/message/util/list.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/runtime/src/message/util/list.rs b/runtime/src/message/util/list.rs
index 23164cd..f0aa1eb 100644
--- a/runtime/src/message/util/list.rs
+++ b/runtime/src/message/util/list.rs
@@ -73,7 +73,11 @@ impl<'a, Item: FromSlice<'a, Output = Item>> Iterator for Iter<'a, Item> {
             return None;
         }
         let msg = match Item::from_slice(self.data) {
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                // The position of the next item is unknown, so iteration has to stop here.
+                self.len = 0;
+                return Some(Err(e));
+            },
             Ok(v) => v
         };
         self.data = &self.data[msg.size()..];
@@ -96,7 +100,11 @@ impl<'a, Item: FromSlice<'a, Output = Item> + FromSliceWithOffsets<'a>> Iterator
             return None;
         }
         let msg = match Item::from_slice_with_offsets(&self.data[..]) {
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                // The position of the next item is unknown, so iteration has to stop here.
+                self.len = 0;
+                return Some(Err(e));
+            },
             Ok(v) => v
         };
         self.data = &self.data[msg.size()..];
-- 
2.43.0


From c89597333b961861c09de567eaca15cc18703373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 04/36] fix: never wrap an out of bounds array index around to
 a valid item

---
 runtime/src/codec/arrays.rs       | 4 ++--
 runtime/src/message/util/array.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/runtime/src/codec/arrays.rs b/runtime/src/codec/arrays.rs
index e64bc72..a72f371 100644
--- a/runtime/src/codec/arrays.rs
+++ b/runtime/src/codec/arrays.rs
@@ -49,7 +49,7 @@ impl<B, Item, C, const ITEM_BIT_SIZE: usize> ArrayCodec<B, Item, C, ITEM_BIT_SIZ
 impl<B: AsRef<[u8]>, Item: ReadBytes, C: ByteCodec, const ITEM_BIT_SIZE: usize> ArrayCodec<B, Item, C, ITEM_BIT_SIZE> {
     pub fn get_raw(&self, index: usize) -> Item {
         let byte_size = ITEM_BIT_SIZE / 8;
-        let pos = index * byte_size;
+        let pos = index.checked_mul(byte_size).expect("array index out of bounds");
         let end = pos + byte_size;
         C::read::<Item>(&self.buffer.as_ref()[pos..end])
     }
@@ -68,7 +68,7 @@ impl<B: AsRef<[u8]>, Item: ReadBytes, C: ByteCodec, const ITEM_BIT_SIZE: usize>
 impl<B: AsMut<[u8]>, Item: WriteBytes, C: ByteCodec, const ITEM_BIT_SIZE: usize> ArrayCodec<B, Item, C, ITEM_BIT_SIZE> {
     pub fn set_raw(&mut self, index: usize, value: Item) -> &mut Self {
         let byte_size = ITEM_BIT_SIZE / 8;
-        let pos = index * byte_size;
+        let pos = index.checked_mul(byte_size).expect("array index out of bounds");
         let end = pos + byte_size;
         C::write::<Item>(&mut self.buffer.as_mut()[pos..end], value);
         self
diff --git a/runtime/src/message/util/array.rs b/runtime/src/message/util/array.rs
index d1788bc..19a471f 100644
--- a/runtime/src/message/util/array.rs
+++ b/runtime/src/message/util/array.rs
@@ -81,7 +81,7 @@ impl<B: AsRef<[u8]>, T, Item: FixedSize> Array<B, T, Item> {
 
 impl<'a, B: AsRef<[u8]>, T, I> Array<B, T, I> {
     pub fn get<Item: FixedSize + From<&'a [u8]>>(&'a self, index: usize) -> Item {
-        let start = index * Item::SIZE;
+        let start = index.checked_mul(Item::SIZE).expect("array index out of bounds");
         let end = start + Item::SIZE;
         Item::from(&self.data.as_ref()[start..end])
     }
@@ -96,7 +96,7 @@ impl<'a, B: AsRef<[u8]>, T, I> Array<B, T, I> {
 
 impl<'a, B: AsMut<[u8]>, T, I> Array<B, T, I> {
     pub fn get_mut<Item: FixedSize + From<&'a mut [u8]>>(&'a mut self, index: usize) -> Item {
-        let start = index * Item::SIZE;
+        let start = index.checked_mul(Item::SIZE).expect("array index out of bounds");
         let end = start + Item::SIZE;
         Item::from(&mut self.data.as_mut()[start..end])
     }
-- 
2.43.0


From daaae05a94f493fb18c653da3df9b118806513d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 05/36] fix: refuse to write a string or list longer than its
 length prefix can express

---
 runtime/src/message/util/common.rs    | 9 +++++++++
 runtime/src/message/util/list_base.rs | 3 ++-
 runtime/src/message/util/string.rs    | 4 +++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/runtime/src/message/util/common.rs b/runtime/src/message/util/common.rs
index ed58874..4430d4b 100644
--- a/runtime/src/message/util/common.rs
+++ b/runtime/src/message/util/common.rs
@@ -30,6 +30,15 @@ use std::io::Write;
 use std::marker::PhantomData;
 use bytesutil::ReadBytes;
 use crate::message::{Error, FromSlice, FromSliceWithOffsets, Message, WriteTo};
+use crate::util::ToUsize;
+
+/// Converts a length to the type of a length prefix, and refuses lengths the prefix cannot express.
+pub(crate) fn encode_len<T: ToUsize>(len: usize) -> Result<T, Error> {
+    if T::from_usize(len).to_usize() != len {
+        return Err(Error::Io(std::io::Error::new(std::io::ErrorKind::InvalidInput, "length does not fit the length prefix")));
+    }
+    Ok(T::from_usize(len))
+}
 
 pub struct Optional<T>(PhantomData<T>);
 
diff --git a/runtime/src/message/util/list_base.rs b/runtime/src/message/util/list_base.rs
index 4a0f801..ab206e6 100644
--- a/runtime/src/message/util/list_base.rs
+++ b/runtime/src/message/util/list_base.rs
@@ -51,7 +51,8 @@ macro_rules! impl_list_base {
             type Input = $t<B, T, Item>;
 
             fn write_to<W: std::io::Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
-                T::write_to(&T::Input::from_usize(input.len), &mut out)?;
+                let len = crate::message::util::common::encode_len::<T::Input>(input.len)?;
+                T::write_to(&len, &mut out)?;
                 out.write_all(input.data.as_ref())?;
                 Ok(())
             }
diff --git a/runtime/src/message/util/string.rs b/runtime/src/message/util/string.rs
index 9cf52d1..8c3a3f7 100644
--- a/runtime/src/message/util/string.rs
+++ b/runtime/src/message/util/string.rs
@@ -29,6 +29,7 @@
 use std::io::Write;
 use std::marker::PhantomData;
 use crate::message::{Error, FromSlice, Message, WriteTo};
+use crate::message::util::common::encode_len;
 use crate::util::ToUsize;
 
 pub struct NullTerminatedString;
@@ -75,7 +76,8 @@ impl<T: WriteTo<Input: ToUsize + Sized>> WriteTo for VarcharString<T> {
     type Input = str;
 
     fn write_to<W: Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
-        T::write_to(&T::Input::from_usize(input.len()), &mut out)?;
+        let len = encode_len::<T::Input>(input.len())?;
+        T::write_to(&len, &mut out)?;
         out.write_all(input.as_bytes())?;
         Ok(())
     }
-- 
2.43.0


From 6b4182912d858fce61488a58646fa10ae6ce122c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 06/36] fix: refuse to write a NUL character in a null
 terminated string

---
 runtime/src/message/util/string.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/src/message/util/string.rs b/runtime/src/message/util/string.rs
index 8c3a3f7..e467999 100644
--- a/runtime/src/message/util/string.rs
+++ b/runtime/src/message/util/string.rs
@@ -51,6 +51,9 @@ impl WriteTo for NullTerminatedString {
     type Input = str;
 
     fn write_to<W: Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
+        if input.as_bytes().contains(&0x0) {
+            return Err(Error::Io(std::io::Error::new(std::io::ErrorKind::InvalidInput, "NUL character in a null terminated string")));
+        }
         out.write_all(input.as_bytes())?;
         out.write_all(&[0x0])?;
         Ok(())
-- 
2.43.0


From abf6610ab09e3540fad2605d6dd2342e202b7be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:53 +0000
Subject: [PATCH 07/36] fix: check the discriminant when writing a union case
 without content

---
 compiler/src/gen/rust/union.rs       | 22 ++++++++++++----------
 compiler/src/gen/rust/union.template | 17 +++++++++++++++--
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/compiler/src/gen/rust/union.rs b/compiler/src/gen/rust/union.rs
index cbbf563..169dd1b 100644
--- a/compiler/src/gen/rust/union.rs
+++ b/compiler/src/gen/rust/union.rs
@@ -82,17 +82,19 @@ fn gen_union_from_slice_impl(u: &Union, template: &Template, type_path_by_name:
 fn gen_union_write_to_impl(u: &Union, template: &Template, type_path_by_name: &TypePathMap) -> String {
     let generics = get_generics(u);
     let mut scope = template.scope();
+    let cases = u.cases.iter().map(|case| {
+        let mut scope = template.scope();
+        scope.var("name", &case.name).var_d("case", case.case);
+        match &case.item_type {
+            None if generics != "" => scope.render("write_to.generics", &["case_none"]).unwrap(),
+            None => scope.render("write_to.none", &["case"]).unwrap(),
+            Some(item_type) => scope.var("type_name", type_path_by_name.get(item_type.name()))
+                .render("write_to.generics", &["case"]).unwrap()
+        }
+    }).join("");
+    scope.var("cases", cases);
     if generics != "" {
-        let cases = u.cases.iter().filter_map(|case| {
-            let mut scope = template.scope();
-            scope.var("name", &case.name).var_d("case", case.case);
-            match &case.item_type {
-                None => None,
-                Some(item_type) => Some(scope.var("type_name", type_path_by_name.get(item_type.name()))
-                    .render("write_to.generics", &["case"]).unwrap())
-            }
-        }).join("");
-        scope.var("cases", cases).render_to_var("write_to", &["generics"], "fragment").unwrap();
+        scope.render_to_var("write_to", &["generics"], "fragment").unwrap();
     } else {
         scope.render_to_var("write_to", &["none"], "fragment").unwrap();
     }
diff --git a/compiler/src/gen/rust/union.template b/compiler/src/gen/rust/union.template
index e20da4c..6871bf8 100644
--- a/compiler/src/gen/rust/union.template
+++ b/compiler/src/gen/rust/union.template
@@ -77,13 +77,26 @@ impl<'a> {union_name}{generics} {{
                 return Err(bp3d_proto::message::Error::InvalidUnionDiscriminant(discriminant as _))
             }},
 #fragment pop
-            _ => ()
+#fragment push case_none
+            Self::{name} => if discriminant != {case} {{
+                return Err(bp3d_proto::message::Error::InvalidUnionDiscriminant(discriminant as _))
+            }},
+#fragment pop
         }};
         Ok(())
     }}
 #fragment pop
 #fragment push none
-    pub fn write_to<W: std::io::Write>(_: &Self, _: &{discriminant_type}<&'a [u8]>, _: W) -> bp3d_proto::message::Result<()> {{
+    pub fn write_to<W: std::io::Write>(input: &Self, discriminant: &{discriminant_type}<&'a [u8]>, _: W) -> bp3d_proto::message::Result<()> {{
+        let discriminant = discriminant.{discriminant_path};
+        match input {{
+{cases}
+#fragment push case
+            Self::{name} => if discriminant != {case} {{
+                return Err(bp3d_proto::message::Error::InvalidUnionDiscriminant(discriminant as _))
+            }},
+#fragment pop
+        }};
         Ok(())
     }}
 #fragment pop
-- 
2.43.0


From 5c7e25c8f977b1a7916aa823029e35156e910e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 08/36] fix: read and write big endian bit fields and 24, 40,
 48 and 56 bits integers most significant bits first

---
 runtime/src/codec/bits.rs  |  8 +++++---
 runtime/src/codec/bytes.rs | 20 ++++++++++++++++++++
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/runtime/src/codec/bits.rs b/runtime/src/codec/bits.rs
index fb992a3..38050d5 100644
--- a/runtime/src/codec/bits.rs
+++ b/runtime/src/codec/bits.rs
@@ -89,16 +89,18 @@ impl BitCodec for BitCodecLE {
 impl BitCodec for BitCodecBE {
     unsafe fn read_aligned<T: ToUsize + ReadBytes + Shr<Output=T> + BitAnd<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
         let mask: usize = (1 << BIT_SIZE) - 1;
+        let shift = size_of::<T>() * 8 - BIT_SIZE - BIT_OFFSET;
         let value = T::read_bytes_be(buffer);
-        (value >> T::from_usize(8 - (BIT_SIZE % 8) - BIT_OFFSET)) & T::from_usize(mask)
+        (value >> T::from_usize(shift)) & T::from_usize(mask)
     }
 
     unsafe fn write_aligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output=T> + Shr<Output=T> + BitAnd<Output=T> + BitOr<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
         let mask: usize = (1 << BIT_SIZE) - 1;
-        let reset_mask = !(mask << BIT_OFFSET);
+        let shift = size_of::<T>() * 8 - BIT_SIZE - BIT_OFFSET;
+        let reset_mask = !(mask << shift);
         let original = T::read_bytes_be(buffer);
         let clean = original & T::from_usize(reset_mask);
-        let value = (value & T::from_usize(mask)) << T::from_usize(8 - (BIT_SIZE % 8) - BIT_OFFSET);
+        let value = (value & T::from_usize(mask)) << T::from_usize(shift);
         (clean | value).write_bytes_be(buffer);
     }
 }
diff --git a/runtime/src/codec/bytes.rs b/runtime/src/codec/bytes.rs
index 2143e4c..0b836c3 100644
--- a/runtime/src/codec/bytes.rs
+++ b/runtime/src/codec/bytes.rs
@@ -82,9 +82,29 @@ impl ByteCodec for ByteCodecBE {
         T::read_bytes_be(buffer)
     }
 
+    // In big endian, the missing (or excess) bytes are the most significant ones: the first ones.
+    unsafe fn read_unaligned<T: ReadBytes>(buffer: &[u8]) -> T {
+        if buffer.len() > size_of::<T>() {
+            return Self::read_aligned::<T>(&buffer[buffer.len() - size_of::<T>()..]);
+        }
+        let mut data = [0; 8];
+        data[size_of::<T>() - buffer.len()..size_of::<T>()].copy_from_slice(buffer);
+        Self::read_aligned::<T>(&data)
+    }
+
     unsafe fn write_aligned<T: WriteBytes>(buffer: &mut [u8], value: T) {
         value.write_bytes_be(buffer);
     }
+
+    unsafe fn write_unaligned<T: WriteBytes>(buffer: &mut [u8], value: T) {
+        if buffer.len() > size_of::<T>() {
+            let start = buffer.len() - size_of::<T>();
+            return Self::write_aligned::<T>(&mut buffer[start..], value);
+        }
+        let mut data = [0; 8];
+        Self::write_aligned::<T>(&mut data, value);
+        buffer.copy_from_slice(&data[size_of::<T>() - buffer.len()..size_of::<T>()]);
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 3bc9d0eaf41a1a712f19f149b5cb91e8028d8ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 09/36] fix: honor the byte order declared by a protocol

---
 compiler/src/compiler/protocol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/compiler/protocol.rs b/compiler/src/compiler/protocol.rs
index cc0dccc..e53245a 100644
--- a/compiler/src/compiler/protocol.rs
+++ b/compiler/src/compiler/protocol.rs
@@ -55,7 +55,7 @@ impl Protocol {
     pub fn from_model<T: ImportResolver>(value: crate::model::Protocol, solver: &T) -> Result<Self, Error> {
         let mut proto = Protocol {
             name: value.name,
-            endianness: Endianness::Little,
+            endianness: value.endianness.unwrap_or(Endianness::Little),
             type_path_by_name: TypePathMap::new(),
             structs_by_name: HashMap::new(),
             messages_by_name: HashMap::new(),
-- 
2.43.0


From 0a58287e3b5c102eb3e3e2d2ed8a3159b1ef7e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 10/36] fix: keep the byte order of an imported single number
 structure

---
 compiler/src/compiler/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index ad2a248..ea0d9aa 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -145,7 +145,7 @@ impl Field {
                                     is_dyn_sized: false,
                                     is_element_dyn_sized: false
                                 },
-                                endianness: proto.endianness
+                                endianness: fixed.endianness
                             })
                         } else {
                             Ok(Field {
-- 
2.43.0


From 4fbae7563d3fa2693bb89758e602fdd7c1c7ceb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 11/36] fix: read and write struct fields that are not byte
 aligned from exactly their own bits

---
 compiler/src/compiler/structure.rs | 15 ++++++--
 compiler/src/gen/base/structure.rs |  4 +-
 runtime/src/codec/bits.rs          | 62 ++++++++++++++++++++++--------
 3 files changed, 59 insertions(+), 22 deletions(-)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 3517776..3d0a38b 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -126,18 +126,25 @@ pub struct Location {
 impl Location {
     fn from_model(bit_size: usize, bit_offset: usize) -> Self {
         let byte_offset = bit_offset / 8;
+        let bit_offset = bit_offset - byte_offset * 8;
+        let last_bit_offset = bit_offset + bit_size;
         Self {
             byte_offset,
-            bit_offset: bit_offset - byte_offset * 8,
+            bit_offset,
             bit_size,
-            byte_size: if bit_size % 8 != 0 {
-                (bit_size / 8) + 1
+            byte_size: if last_bit_offset % 8 != 0 {
+                (last_bit_offset / 8) + 1
             } else {
-                bit_size / 8
+                last_bit_offset / 8
             }
         }
     }
 
+    /// Returns true if the bits of this location are exactly the bits of its bytes.
+    pub fn is_byte_aligned(&self) -> bool {
+        self.bit_offset == 0 && self.bit_size % 8 == 0
+    }
+
     pub fn get_unsigned_integer_type(&self) -> FixedFieldType {
         FixedFieldType::from_model(StructFieldType::Unsigned { bits: self.bit_size }).unwrap()
     }
diff --git a/compiler/src/gen/base/structure.rs b/compiler/src/gen/base/structure.rs
index 4041308..1a6df4e 100644
--- a/compiler/src/gen/base/structure.rs
+++ b/compiler/src/gen/base/structure.rs
@@ -52,7 +52,7 @@ fn gen_field_getter<U: Utilities>(field: &Field, template: &Template, type_path_
             let raw_field_type = U::get_field_type(raw_field_type);
             let function_name = U::get_function_name(v);
             scope.var("raw_type", raw_field_type).var("function_name", function_name);
-            if v.loc.bit_size % 8 != 0 {
+            if !v.loc.is_byte_aligned() {
                 scope.var("codec", U::get_bit_codec_inline(v.endianness))
                     .var_d("bit_offset", v.loc.bit_offset)
                     .var_d("bit_size", v.loc.bit_size)
@@ -84,7 +84,7 @@ fn gen_field_setter<U: Utilities>(field: &Field, template: &Template, type_path_
             let raw_field_type = U::get_field_type(raw_field_type);
             let function_name = U::get_function_name_mut(v);
             scope.var("raw_type", raw_field_type).var("function_name", function_name);
-            if v.loc.bit_size % 8 != 0 {
+            if !v.loc.is_byte_aligned() {
                 scope.var("codec", U::get_bit_codec_inline(v.endianness))
                     .var_d("bit_offset", v.loc.bit_offset)
                     .var_d("bit_size", v.loc.bit_size)
diff --git a/runtime/src/codec/bits.rs b/runtime/src/codec/bits.rs
index 38050d5..55a9c34 100644
--- a/runtime/src/codec/bits.rs
+++ b/runtime/src/codec/bits.rs
@@ -33,11 +33,7 @@ use crate::util::ToUsize;
 pub trait BitCodec {
     unsafe fn read_aligned<T: ToUsize + ReadBytes + Shr<Output = T> + BitAnd<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T;
 
-    unsafe fn read_unaligned<T: ToUsize + ReadBytes + Shr<Output = T> + BitAnd<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
-        let mut data = [0; 8];
-        data[..buffer.len()].copy_from_slice(buffer);
-        Self::read_aligned::<T, BIT_OFFSET, BIT_SIZE>(&data)
-    }
+    unsafe fn read_unaligned<T: ToUsize + ReadBytes + Shr<Output = T> + BitAnd<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T;
 
     fn read<T: ToUsize + ReadBytes + Shr<Output = T> + BitAnd<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
         if size_of::<T>() != buffer.len() {
@@ -49,13 +45,7 @@ pub trait BitCodec {
 
     unsafe fn write_aligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output = T> + Shr<Output = T> + BitAnd<Output = T> + BitOr<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T);
 
-    unsafe fn write_unaligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output = T> + Shr<Output = T> + BitAnd<Output = T> + BitOr<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
-        let mut data = [0; 8];
-        data[..buffer.len()].copy_from_slice(buffer);
-        Self::write_aligned::<T, BIT_OFFSET, BIT_SIZE>(&mut data, value);
-        let motherfuckingrust = buffer.len();
-        buffer.copy_from_slice(&data[..motherfuckingrust]);
-    }
+    unsafe fn write_unaligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output = T> + Shr<Output = T> + BitAnd<Output = T> + BitOr<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T);
 
     fn write<T: ToUsize + ReadBytes + WriteBytes + Shl<Output = T> + Shr<Output = T> + BitAnd<Output = T> + BitOr<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
         if size_of::<T>() != buffer.len() {
@@ -71,31 +61,59 @@ pub struct BitCodecBE;
 
 impl BitCodec for BitCodecLE {
     unsafe fn read_aligned<T: ToUsize + ReadBytes + Shr<Output=T> + BitAnd<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
-        let mask: usize = (1 << BIT_SIZE) - 1;
+        let mask = ((1u128 << BIT_SIZE) - 1) as usize;
         let value = T::read_bytes_le(buffer);
         (value >> T::from_usize(BIT_OFFSET)) & T::from_usize(mask)
     }
 
+    unsafe fn read_unaligned<T: ToUsize + ReadBytes + Shr<Output=T> + BitAnd<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
+        let mask: u128 = (1 << BIT_SIZE) - 1;
+        let mut data = [0; 16];
+        data[..buffer.len()].copy_from_slice(buffer);
+        let value = u128::from_le_bytes(data);
+        T::from_usize(((value >> BIT_OFFSET) & mask) as usize)
+    }
+
     unsafe fn write_aligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output=T> + Shr<Output=T> + BitAnd<Output=T> + BitOr<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
-        let mask: usize = (1 << BIT_SIZE) - 1;
+        let mask = ((1u128 << BIT_SIZE) - 1) as usize;
         let reset_mask = !(mask << BIT_OFFSET);
         let original = T::read_bytes_le(buffer);
         let clean = original & T::from_usize(reset_mask);
         let value = (value & T::from_usize(mask)) << T::from_usize(BIT_OFFSET);
         (clean | value).write_bytes_le(buffer);
     }
+
+    unsafe fn write_unaligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output=T> + Shr<Output=T> + BitAnd<Output=T> + BitOr<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
+        let mask: u128 = (1 << BIT_SIZE) - 1;
+        let mut data = [0; 16];
+        data[..buffer.len()].copy_from_slice(buffer);
+        let clean = u128::from_le_bytes(data) & !(mask << BIT_OFFSET);
+        let value = (value.to_usize() as u128 & mask) << BIT_OFFSET;
+        data = (clean | value).to_le_bytes();
+        let len = buffer.len();
+        buffer.copy_from_slice(&data[..len]);
+    }
 }
 
 impl BitCodec for BitCodecBE {
     unsafe fn read_aligned<T: ToUsize + ReadBytes + Shr<Output=T> + BitAnd<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
-        let mask: usize = (1 << BIT_SIZE) - 1;
+        let mask = ((1u128 << BIT_SIZE) - 1) as usize;
         let shift = size_of::<T>() * 8 - BIT_SIZE - BIT_OFFSET;
         let value = T::read_bytes_be(buffer);
         (value >> T::from_usize(shift)) & T::from_usize(mask)
     }
 
+    unsafe fn read_unaligned<T: ToUsize + ReadBytes + Shr<Output=T> + BitAnd<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
+        let mask: u128 = (1 << BIT_SIZE) - 1;
+        let shift = buffer.len() * 8 - BIT_SIZE - BIT_OFFSET;
+        let mut data = [0; 16];
+        data[16 - buffer.len()..].copy_from_slice(buffer);
+        let value = u128::from_be_bytes(data);
+        T::from_usize(((value >> shift) & mask) as usize)
+    }
+
     unsafe fn write_aligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output=T> + Shr<Output=T> + BitAnd<Output=T> + BitOr<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
-        let mask: usize = (1 << BIT_SIZE) - 1;
+        let mask = ((1u128 << BIT_SIZE) - 1) as usize;
         let shift = size_of::<T>() * 8 - BIT_SIZE - BIT_OFFSET;
         let reset_mask = !(mask << shift);
         let original = T::read_bytes_be(buffer);
@@ -103,6 +121,18 @@ impl BitCodec for BitCodecBE {
         let value = (value & T::from_usize(mask)) << T::from_usize(shift);
         (clean | value).write_bytes_be(buffer);
     }
+
+    unsafe fn write_unaligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output=T> + Shr<Output=T> + BitAnd<Output=T> + BitOr<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
+        let mask: u128 = (1 << BIT_SIZE) - 1;
+        let shift = buffer.len() * 8 - BIT_SIZE - BIT_OFFSET;
+        let mut data = [0; 16];
+        data[16 - buffer.len()..].copy_from_slice(buffer);
+        let clean = u128::from_be_bytes(data) & !(mask << shift);
+        let value = (value.to_usize() as u128 & mask) << shift;
+        data = (clean | value).to_be_bytes();
+        let len = buffer.len();
+        buffer.copy_from_slice(&data[16 - len..]);
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 349c4002720631d1b07b9db043f4428e763ffc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 12/36] fix: reject arrays and nested structures that do not
 start at a byte boundary

---
 compiler/src/compiler/error.rs     | 1 +
 compiler/src/compiler/structure.rs | 9 ++++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index 5c77b70..12b9a5c 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -39,6 +39,7 @@ simple_error! {
         MissingBitSize => "missing bits specifier on a structure field",
         UndefinedReference(String) => "undefined reference to '{}'",
         UnalignedArrayCodec => "unaligned array in structure",
+        UnalignedStruct => "unaligned structure in structure",
         SolverError => "failed to resolve imported type",
         ZeroEnum => "enums must have at least 1 variant",
         InvalidUnionDiscriminant => "invalid union discriminant path",
diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 3d0a38b..effb530 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -296,6 +296,9 @@ impl Field {
         match value.info {
             StructFieldType::Struct { item_type } => {
                 let r = proto.structs_by_name.get(&item_type).ok_or_else(|| Error::UndefinedReference(item_type))?;
+                if last_bit_offset % 8 != 0 {
+                    return Err(Error::UnalignedStruct);
+                }
                 Ok((Self::Struct(StructField {
                     name: value.name,
                     r: r.clone(),
@@ -306,13 +309,13 @@ impl Field {
                 let array_len = value.array_len.unwrap_or(1);
                 let mut bit_size = value.info.get_bit_size().ok_or(Error::MissingBitSize)?;
                 let view = FieldView::from_model(proto, value.info.get_simple_type(), bit_size, value.view)?;
+                if array_len > 1 && (bit_size % 8 != 0 || last_bit_offset % 8 != 0) {
+                    return Err(Error::UnalignedArrayCodec);
+                }
                 bit_size *= array_len;
                 let ty = FixedFieldType::from_model(value.info)?;
                 let loc = Location::from_model(bit_size, last_bit_offset);
                 if array_len > 1 {
-                    if bit_size % 8 != 0 {
-                        return Err(Error::UnalignedArrayCodec);
-                    }
                     Ok((Self::Array(FixedArrayField {
                         name: value.name,
                         endianness: proto.endianness,
-- 
2.43.0


From e86e4887584799e27c98c7ea3e849c3ccdf7f71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 13/36] fix: do not transmute undeclared values in enum views

---
 compiler/src/gen/base/structure.rs              | 10 ++++++++--
 compiler/src/gen/rust/structure.field.template  | 11 ++++++-----
 compiler/src/gen/swift/structure.field.template |  2 ++
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/compiler/src/gen/base/structure.rs b/compiler/src/gen/base/structure.rs
index 1a6df4e..414b78b 100644
--- a/compiler/src/gen/base/structure.rs
+++ b/compiler/src/gen/base/structure.rs
@@ -111,8 +111,14 @@ fn gen_field_view_getter<U: Utilities>(field: &FixedField, scope: &Scope, type_p
         FieldView::Float { a, b, .. } => scope.var("view_type", U::get_field_type(field.ty))
             .var("a", format!("{:?}", a)).var("b", format!("{:?}", b))
             .render("getters", &["view_float"]).unwrap(),
-        FieldView::Enum(e) => scope.var("view_type", type_path_by_name.get(&e.name))
-            .var_d("enum_largest", e.largest).render("getters", &["view_enum"]).unwrap(),
+        FieldView::Enum(e) => {
+            scope.var("view_type", type_path_by_name.get(&e.name));
+            // Variants which cannot be stored in the field can never be read.
+            let variants = e.variants.iter().filter(|(_, v)| field.loc.bit_size >= 64 || *v < 1 << field.loc.bit_size)
+                .map(|(k, v)| scope.clone().var("key", k).var_d("value", v).render("getters.view_enum", &["variant"]).unwrap())
+                .join("");
+            scope.var("variants", variants).render("getters", &["view_enum"]).unwrap()
+        },
         FieldView::Transmute => {
             let field_type = U::get_field_type(field.ty);
             scope.var("view_type", field_type);
diff --git a/compiler/src/gen/rust/structure.field.template b/compiler/src/gen/rust/structure.field.template
index e4b51f7..138e1e3 100644
--- a/compiler/src/gen/rust/structure.field.template
+++ b/compiler/src/gen/rust/structure.field.template
@@ -30,11 +30,12 @@ impl<T: AsRef<[u8]>> {struct_name}<T> {{
 #fragment pop
 #fragment push view_enum
     pub fn get_{name}(&self) -> Option<{view_type}> {{
-        let raw_value = self.get_raw_{name}();
-        if raw_value > {enum_largest} {{
-            None
-        }} else {{
-            Some(unsafe {{ std::mem::transmute::<{raw_type}, {view_type}>(raw_value) }})
+        match self.get_raw_{name}() {{
+{variants}
+#fragment push variant
+            {value} => Some({view_type}::{key}),
+#fragment pop
+            _ => None
         }}
     }}
 #fragment pop
diff --git a/compiler/src/gen/swift/structure.field.template b/compiler/src/gen/swift/structure.field.template
index 74fccbe..63280e8 100644
--- a/compiler/src/gen/swift/structure.field.template
+++ b/compiler/src/gen/swift/structure.field.template
@@ -32,6 +32,8 @@ extension {struct_name} where T: BP3DProto.Buffer {{
     public {name}: {view_type}? {{
         let raw_value = self.raw_{name};
         return {view_type}(raw: raw_value);
+#fragment push variant
+#fragment pop
     }}
 #fragment pop
 #fragment push view_transmute
-- 
2.43.0


From d563e72b24cc0521b7ce83e7a28508193ab6bedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 14/36] fix: map a float range to its declared minimum and
 maximum

---
 compiler/src/compiler/structure.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index effb530..06ca987 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -197,10 +197,10 @@ impl FieldView {
                     return Err(Error::UnsupportedViewType(ty));
                 }
                 let raw_max: usize = (1 << bit_size) - 1;
-                let a = max / (raw_max as f64);
+                let a = (max - min) / (raw_max as f64);
                 let b = min;
                 let a_inv = 1.0 / a;
-                let b_inv = -b;
+                let b_inv = -b * a_inv;
                 Ok(FieldView::Float { a, b, a_inv, b_inv })
             }
             Some(StructFieldView::FloatMultiplier { multiplier }) => {
-- 
2.43.0


From 0173d4f66a4e67d81a9aaa5133d097d65bbef2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 15/36] fix: reject unsupported bit sizes of boolean, signed
 and float range fields instead of panicking

---
 compiler/src/compiler/structure.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 06ca987..d3d3bc6 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -91,7 +91,9 @@ impl FixedFieldType {
         let motherfuckingrust = ty1.clone();
         let ty = ty1.get_simple_type();
         let bit_size = ty1.get_bit_size().ok_or(Error::UnsupportedType(ty1))?;
-        if ty == SimpleType::Boolean {
+        if bit_size == 0 || bit_size > 64 {
+            Err(Error::UnsupportedBitSize(bit_size))
+        } else if ty == SimpleType::Boolean {
             Ok(Self::Bool)
         } else if ty == SimpleType::Float && bit_size == 32 {
             Ok(Self::Float32)
@@ -196,7 +198,7 @@ impl FieldView {
                 if ty != SimpleType::Float {
                     return Err(Error::UnsupportedViewType(ty));
                 }
-                let raw_max: usize = (1 << bit_size) - 1;
+                let raw_max = u64::MAX >> (64 - bit_size);
                 let a = (max - min) / (raw_max as f64);
                 let b = min;
                 let a_inv = 1.0 / a;
@@ -308,12 +310,12 @@ impl Field {
             _ => {
                 let array_len = value.array_len.unwrap_or(1);
                 let mut bit_size = value.info.get_bit_size().ok_or(Error::MissingBitSize)?;
+                let ty = FixedFieldType::from_model(value.info.clone())?;
                 let view = FieldView::from_model(proto, value.info.get_simple_type(), bit_size, value.view)?;
                 if array_len > 1 && (bit_size % 8 != 0 || last_bit_offset % 8 != 0) {
                     return Err(Error::UnalignedArrayCodec);
                 }
                 bit_size *= array_len;
-                let ty = FixedFieldType::from_model(value.info)?;
                 let loc = Location::from_model(bit_size, last_bit_offset);
                 if array_len > 1 {
                     Ok((Self::Array(FixedArrayField {
-- 
2.43.0


From f3b1539c8067b66d1e860e2a7313eaeb4cd7e8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 16/36] fix: reject empty and oversized arrays in structures
 instead of panicking

---
 compiler/src/compiler/error.rs     |  2 ++
 compiler/src/compiler/structure.rs | 13 +++++++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index 12b9a5c..cf797f3 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -40,6 +40,8 @@ simple_error! {
         UndefinedReference(String) => "undefined reference to '{}'",
         UnalignedArrayCodec => "unaligned array in structure",
         UnalignedStruct => "unaligned structure in structure",
+        ZeroArray => "arrays must have at least 1 item",
+        StructureTooLarge => "structure is too large",
         SolverError => "failed to resolve imported type",
         ZeroEnum => "enums must have at least 1 variant",
         InvalidUnionDiscriminant => "invalid union discriminant path",
diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index d3d3bc6..013a953 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -301,11 +301,12 @@ impl Field {
                 if last_bit_offset % 8 != 0 {
                     return Err(Error::UnalignedStruct);
                 }
+                let next_bit_offset = last_bit_offset.checked_add(r.bit_size).ok_or(Error::StructureTooLarge)?;
                 Ok((Self::Struct(StructField {
                     name: value.name,
                     r: r.clone(),
                     loc: Location::from_model(r.bit_size, last_bit_offset)
-                }), last_bit_offset + r.bit_size))
+                }), next_bit_offset))
             },
             _ => {
                 let array_len = value.array_len.unwrap_or(1);
@@ -315,7 +316,11 @@ impl Field {
                 if array_len > 1 && (bit_size % 8 != 0 || last_bit_offset % 8 != 0) {
                     return Err(Error::UnalignedArrayCodec);
                 }
-                bit_size *= array_len;
+                if array_len == 0 {
+                    return Err(Error::ZeroArray);
+                }
+                bit_size = bit_size.checked_mul(array_len).ok_or(Error::StructureTooLarge)?;
+                let next_bit_offset = last_bit_offset.checked_add(bit_size).ok_or(Error::StructureTooLarge)?;
                 let loc = Location::from_model(bit_size, last_bit_offset);
                 if array_len > 1 {
                     Ok((Self::Array(FixedArrayField {
@@ -324,7 +329,7 @@ impl Field {
                         array_len,
                         ty,
                         loc
-                    }), last_bit_offset + bit_size))
+                    }), next_bit_offset))
                 } else {
                     Ok((Self::Fixed(FixedField {
                         name: value.name,
@@ -332,7 +337,7 @@ impl Field {
                         ty,
                         loc,
                         view
-                    }), last_bit_offset + bit_size))
+                    }), next_bit_offset))
                 }
             }
         }
-- 
2.43.0


From d92f2ec030b6c99f4b5be188f265aa11fd13d9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 17/36] fix: reject views on nested structures

---
 compiler/src/compiler/structure.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 013a953..301e514 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -298,6 +298,9 @@ impl Field {
         match value.info {
             StructFieldType::Struct { item_type } => {
                 let r = proto.structs_by_name.get(&item_type).ok_or_else(|| Error::UndefinedReference(item_type))?;
+                if value.view.is_some() {
+                    return Err(Error::UnsupportedViewType(SimpleType::Struct));
+                }
                 if last_bit_offset % 8 != 0 {
                     return Err(Error::UnalignedStruct);
                 }
-- 
2.43.0


From 93c145ef46bd434056eeaa69fb8f6b0463e8873e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 18/36] fix: reject union discriminant paths that do not end at
 a scalar field

---
 compiler/src/compiler/union.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/compiler/src/compiler/union.rs b/compiler/src/compiler/union.rs
index b81a205..ec44096 100644
--- a/compiler/src/compiler/union.rs
+++ b/compiler/src/compiler/union.rs
@@ -108,17 +108,24 @@ impl DiscriminantField {
         let mut leaf = proto.structs_by_name.get(name).ok_or_else(|| Error::UndefinedReference(name.into()))?;
         let root = leaf;
         let mut index_list = Vec::new();
+        let mut is_scalar = false;
         for sub in parts {
+            if is_scalar {
+                return Err(Error::InvalidUnionDiscriminant);
+            }
             let (index, field) = leaf.fields.iter().enumerate()
                 .find(|(_, v)| v.name() == sub)
                 .ok_or_else(|| Error::UndefinedReference(format!("{}.{}", name, sub)))?;
             index_list.push(index);
             match field {
-                Field::Fixed(_) => break,
+                Field::Fixed(_) => is_scalar = true,
                 Field::Struct(v) => leaf = &v.r,
                 Field::Array(_) => return Err(Error::InvalidUnionDiscriminant)
             }
         }
+        if !is_scalar {
+            return Err(Error::InvalidUnionDiscriminant);
+        }
         Ok(DiscriminantField {
             root: root.clone(),
             leaf: leaf.clone(),
-- 
2.43.0


From 405713cdcddc34f6499994792b5a7c562415c379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 19/36] fix: do not panic when capitalizing a name that does
 not start with an ASCII character

---
 compiler/src/gen/template.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/gen/template.rs b/compiler/src/gen/template.rs
index b1afce5..7348200 100644
--- a/compiler/src/gen/template.rs
+++ b/compiler/src/gen/template.rs
@@ -135,7 +135,7 @@ fn capitalize(value: &str) -> Cow<str> {
     if value.len() == 0 {
         return value.into();
     }
-    if value.as_bytes()[0] >= b'A' && value.as_bytes()[0] <= b'Z' {
+    if !value.is_char_boundary(1) || value.as_bytes()[0] >= b'A' && value.as_bytes()[0] <= b'Z' {
         value.into()
     } else {
         (value[..1].to_ascii_uppercase() + &value[1..]).into()
-- 
2.43.0


From 4fb30b04955008e9bc8bf061d2e0ae22c20fe680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 20/36] fix: reject float discriminants without a view

---
 compiler/src/compiler/union.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/compiler/src/compiler/union.rs b/compiler/src/compiler/union.rs
index ec44096..7a7d6a1 100644
--- a/compiler/src/compiler/union.rs
+++ b/compiler/src/compiler/union.rs
@@ -29,7 +29,7 @@
 use std::rc::Rc;
 use crate::compiler::message::{Referenced, SizeInfo};
 use crate::compiler::{Error, Protocol};
-use crate::compiler::structure::{Field, FieldView, FixedField, Structure};
+use crate::compiler::structure::{Field, FieldView, FixedField, FixedFieldType, Structure};
 
 #[derive(Clone, Debug)]
 pub struct UnionField {
@@ -146,6 +146,9 @@ pub struct Union  {
 impl Union {
     pub fn from_model(proto: &Protocol, value: crate::model::union::Union) -> Result<Self, Error> {
         let discriminant = DiscriminantField::from_model(proto, value.discriminant)?;
+        if matches!(discriminant.get_leaf().ty, FixedFieldType::Float32 | FixedFieldType::Float64) {
+            return Err(Error::FloatInUnionDiscriminant);
+        }
         let cases = value.cases.into_iter().map(|v| UnionField::from_model(proto, discriminant.get_leaf(), v))
             .collect::<Result<Vec<UnionField>, Error>>()?;
         let is_element_dyn_sized = cases.iter().any(|v| v.item_type.as_ref().map(|v| match v {
-- 
2.43.0


From e3a2044fc50c188acc01a751cbeef0259bcdf079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 21/36] fix: encode negative union cases in, and reject union
 cases outside of, the bits of the discriminant

---
 compiler/src/compiler/union.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/compiler/src/compiler/union.rs b/compiler/src/compiler/union.rs
index 7a7d6a1..b0b50cf 100644
--- a/compiler/src/compiler/union.rs
+++ b/compiler/src/compiler/union.rs
@@ -40,14 +40,22 @@ pub struct UnionField {
 
 impl UnionField {
     pub fn from_model(proto: &Protocol, discriminant: &FixedField, value: crate::model::union::UnionField) -> Result<Self, Error> {
-        let case: usize = match &discriminant.view {
+        // The discriminant is compared by its raw bits, so a case has to fit these bits.
+        let max_value = usize::MAX >> (64 - discriminant.loc.bit_size);
+        let case: Option<usize> = match &discriminant.view {
             FieldView::Float { .. } => return Err(Error::FloatInUnionDiscriminant),
-            FieldView::Enum(v) => v.variants_map.get(&value.case).map(|v| *v).ok_or_else(|| Error::InvalidUnionCase(value.case))?,
-            FieldView::Transmute | FieldView::SignedCast { .. } => {
-                let value: isize = value.case.parse().map_err(|_| Error::InvalidUnionCase(value.case))?;
-                value as usize
-            }
-            FieldView::None => value.case.parse().map_err(|_| Error::InvalidUnionCase(value.case))?
+            FieldView::Enum(v) => v.variants_map.get(&value.case).map(|v| *v),
+            FieldView::Transmute | FieldView::SignedCast { .. } => value.case.parse().ok().and_then(|value: isize| {
+                match value < 0 && value >> (discriminant.loc.bit_size - 1) == -1 {
+                    true => Some(value as usize & max_value),
+                    false => usize::try_from(value).ok()
+                }
+            }),
+            FieldView::None => value.case.parse().ok()
+        };
+        let case = match case {
+            Some(v) if v <= max_value => v,
+            _ => return Err(Error::InvalidUnionCase(value.case))
         };
         let item_type = value.item_type.map(|v| Referenced::lookup(proto, &v).ok_or_else(|| Error::UndefinedReference(v)))
             .transpose()?;
-- 
2.43.0


From 59a0790aa85c07d45138d02c195f86006735542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 22/36] fix: do not give a lifetime to references to messages
 and unions declared without one

---
 compiler/src/gen/base/message.rs           | 11 ++++----
 compiler/src/gen/rust/message.ext.template |  2 +-
 compiler/src/gen/rust/message.rs           |  5 ++--
 compiler/src/gen/rust/message.template     |  2 +-
 compiler/src/gen/rust/union.rs             | 21 ++++++--------
 compiler/src/gen/rust/union.template       |  4 +--
 compiler/src/gen/rust/util.rs              | 32 ++++++++++++++++------
 7 files changed, 46 insertions(+), 31 deletions(-)

diff --git a/compiler/src/gen/base/message.rs b/compiler/src/gen/base/message.rs
index afcfcc3..3aef480 100644
--- a/compiler/src/gen/base/message.rs
+++ b/compiler/src/gen/base/message.rs
@@ -29,6 +29,7 @@
 use itertools::Itertools;
 use crate::compiler::message::{Field, FieldType, Message, Referenced};
 use crate::compiler::structure::FixedFieldType;
+use crate::compiler::union::Union;
 use crate::compiler::util::TypePathMap;
 use crate::gen::template::Template;
 use crate::model::protocol::Endianness;
@@ -49,8 +50,8 @@ pub trait Utilities: crate::gen::base::structure::Utilities {
     fn get_payload_type() -> &'static str;
     fn get_payload_type_inline() -> &'static str;
     fn gen_struct_ref_type(type_name: &str) -> String;
-    fn gen_message_ref_type(type_name: &str) -> String;
-    fn gen_union_ref_type(type_name: &str) -> String;
+    fn gen_message_ref_type(type_name: &str, msg: &Message) -> String;
+    fn gen_union_ref_type(type_name: &str, u: &Union) -> String;
 }
 
 fn gen_field_decl<U: Utilities>(field: &Field, template: &Template, type_path_by_name: &TypePathMap) -> String {
@@ -58,7 +59,7 @@ fn gen_field_decl<U: Utilities>(field: &Field, template: &Template, type_path_by
         FieldType::Fixed(ty) => U::get_field_type(ty.ty).into(),
         FieldType::Ref(v) => match v {
             Referenced::Struct(v) => U::gen_struct_ref_type(type_path_by_name.get(&v.name)),
-            Referenced::Message(v) => U::gen_message_ref_type(type_path_by_name.get(&v.name)),
+            Referenced::Message(v) => U::gen_message_ref_type(type_path_by_name.get(&v.name), v),
         },
         FieldType::NullTerminatedString => U::get_string_type(StringType::NullTerminated).into(),
         FieldType::VarcharString(_) => U::get_string_type(StringType::Varchar).into(),
@@ -66,10 +67,10 @@ fn gen_field_decl<U: Utilities>(field: &Field, template: &Template, type_path_by
             .var("codec", U::get_value_type(field.endianness, v.ty))
             .var("type_name", type_path_by_name.get(&v.item_type.name))
             .render("", &["array"]).unwrap(),
-        FieldType::Union(v) => U::gen_union_ref_type(type_path_by_name.get(&v.r.name)),
+        FieldType::Union(v) => U::gen_union_ref_type(type_path_by_name.get(&v.r.name), &v.r),
         FieldType::List(v) => template.scope()
             .var("codec", U::get_value_type(field.endianness, v.ty))
-            .var("type_name", type_path_by_name.get(&v.item_type.name))
+            .var("type_name", U::gen_message_ref_type(type_path_by_name.get(&v.item_type.name), &v.item_type))
             .render("", &["list"]).unwrap(),
         FieldType::Payload => U::get_payload_type().into()
     };
diff --git a/compiler/src/gen/rust/message.ext.template b/compiler/src/gen/rust/message.ext.template
index 2cb28fe..42300fb 100644
--- a/compiler/src/gen/rust/message.ext.template
+++ b/compiler/src/gen/rust/message.ext.template
@@ -3,5 +3,5 @@ bp3d_proto::generate_array_wrapper!({msg_name}{name:capitalize}, {item_type}, {c
 #fragment pop
 
 #fragment push decl_list
-pub type {msg_name}{name:capitalize}<'a, T> = bp3d_proto::message::util::List<T, {codec}, {item_type}<'a>>;
+pub type {msg_name}{name:capitalize}<{lifetime}T> = bp3d_proto::message::util::List<T, {codec}, {item_type}>;
 #fragment pop
diff --git a/compiler/src/gen/rust/message.rs b/compiler/src/gen/rust/message.rs
index aa78ddc..8f690f1 100644
--- a/compiler/src/gen/rust/message.rs
+++ b/compiler/src/gen/rust/message.rs
@@ -30,7 +30,7 @@ use itertools::Itertools;
 use crate::compiler::message::{FieldType, Message};
 use crate::compiler::util::TypePathMap;
 use crate::gen::base::message::{generate, Utilities};
-use crate::gen::rust::util::RustUtils;
+use crate::gen::rust::util::{Generics, RustUtils};
 use crate::gen::template::Template;
 
 const TEMPLATE: &[u8] = include_bytes!("./message.template");
@@ -45,7 +45,8 @@ fn gen_message_array_type_decls(msg: &Message, type_path_by_name: &TypePathMap)
             FieldType::Array(v) => Some(template.var("item_type", type_path_by_name.get(&v.item_type.name))
                 .var("codec", RustUtils::get_value_type(field.endianness, v.ty))
                 .render("", &["decl_array"]).unwrap()),
-            FieldType::List(v) => Some(template.var("item_type", type_path_by_name.get(&v.item_type.name))
+            FieldType::List(v) => Some(template.var("item_type", RustUtils::gen_message_ref_type(type_path_by_name.get(&v.item_type.name), &v.item_type))
+                .var("lifetime", if Generics::from_message(&v.item_type).has_lifetime { "'a, " } else { "" })
                 .var("codec", RustUtils::get_value_type(field.endianness, v.ty))
                 .render("", &["decl_list"]).unwrap()),
             _ => None
diff --git a/compiler/src/gen/rust/message.template b/compiler/src/gen/rust/message.template
index cfd510c..34d6512 100644
--- a/compiler/src/gen/rust/message.template
+++ b/compiler/src/gen/rust/message.template
@@ -13,5 +13,5 @@ bp3d_proto::message::util::Array::<&'a [u8], {codec}, {type_name}<&'a [u8]>>
 #fragment pop
 
 #fragment push list
-bp3d_proto::message::util::List::<&'a [u8], {codec}, {type_name}<'a>>
+bp3d_proto::message::util::List::<&'a [u8], {codec}, {type_name}>
 #fragment pop
diff --git a/compiler/src/gen/rust/union.rs b/compiler/src/gen/rust/union.rs
index 169dd1b..6ce060d 100644
--- a/compiler/src/gen/rust/union.rs
+++ b/compiler/src/gen/rust/union.rs
@@ -30,16 +30,13 @@ use itertools::Itertools;
 use crate::compiler::message::Referenced;
 use crate::compiler::union::Union;
 use crate::compiler::util::TypePathMap;
+use crate::gen::rust::util::Generics;
 use crate::gen::template::Template;
 
 const TEMPLATE: &[u8] = include_bytes!("./union.template");
 
-fn get_generics(u: &Union) -> &str {
-    if u.cases.iter().any(|v| v.item_type.is_some()) {
-        "<'a>"
-    } else {
-        ""
-    }
+fn has_content(u: &Union) -> bool {
+    u.cases.iter().any(|v| v.item_type.is_some())
 }
 
 fn get_discriminant_path(u: &Union) -> String {
@@ -70,8 +67,7 @@ fn gen_union_from_slice_impl(u: &Union, template: &Template, type_path_by_name:
     }).join("");
     let mut scope = template.scope();
     scope.var("cases", cases);
-    let generics = get_generics(u);
-    if generics != "" {
+    if has_content(u) {
         scope.render_to_var("from_slice", &["generics"], "fragment").unwrap();
     } else {
         scope.render_to_var("from_slice", &["none"], "fragment").unwrap();
@@ -80,20 +76,19 @@ fn gen_union_from_slice_impl(u: &Union, template: &Template, type_path_by_name:
 }
 
 fn gen_union_write_to_impl(u: &Union, template: &Template, type_path_by_name: &TypePathMap) -> String {
-    let generics = get_generics(u);
     let mut scope = template.scope();
     let cases = u.cases.iter().map(|case| {
         let mut scope = template.scope();
         scope.var("name", &case.name).var_d("case", case.case);
         match &case.item_type {
-            None if generics != "" => scope.render("write_to.generics", &["case_none"]).unwrap(),
+            None if has_content(u) => scope.render("write_to.generics", &["case_none"]).unwrap(),
             None => scope.render("write_to.none", &["case"]).unwrap(),
             Some(item_type) => scope.var("type_name", type_path_by_name.get(item_type.name()))
                 .render("write_to.generics", &["case"]).unwrap()
         }
     }).join("");
     scope.var("cases", cases);
-    if generics != "" {
+    if has_content(u) {
         scope.render_to_var("write_to", &["generics"], "fragment").unwrap();
     } else {
         scope.render_to_var("write_to", &["none"], "fragment").unwrap();
@@ -121,6 +116,7 @@ fn gen_union_as_getters(u: &Union, template: &Template, type_path_by_name: &Type
             Some(Referenced::Struct(v)) => scope.var("type_name", type_path_by_name.get(&v.name))
                 .render("getters", &["struct"]).unwrap(),
             Some(Referenced::Message(v)) => scope.var("type_name", type_path_by_name.get(&v.name))
+                .var("item_generics", Generics::from_message(v).to_code())
                 .render("getters", &["message"]).unwrap(),
             None => scope.render("getters", &["none"]).unwrap()
         }
@@ -130,7 +126,7 @@ fn gen_union_as_getters(u: &Union, template: &Template, type_path_by_name: &Type
 
 pub fn gen_union_decl(u: &Union, type_path_by_name: &TypePathMap) -> String {
     let mut template = Template::compile(TEMPLATE).unwrap();
-    let generics = get_generics(u);
+    let generics = Generics::from_union(u).to_code();
     template.var("union_name", &u.name).var("generics", generics)
         .var("discriminant_path_mut", get_discriminant_path_mut(u))
         .var("discriminant_path", get_discriminant_path(u))
@@ -142,6 +138,7 @@ pub fn gen_union_decl(u: &Union, type_path_by_name: &TypePathMap) -> String {
             .render("decl", &["struct"]).unwrap(),
         Some(Referenced::Message(v)) => template.scope()
             .var("name", &case.name).var("type_name", type_path_by_name.get(&v.name))
+            .var("item_generics", Generics::from_message(v).to_code())
             .render("decl", &["message"]).unwrap()
     }).join("");
     let mut code = template.scope().var("cases", cases).render("", &["decl"]).unwrap();
diff --git a/compiler/src/gen/rust/union.template b/compiler/src/gen/rust/union.template
index 6871bf8..53c5a32 100644
--- a/compiler/src/gen/rust/union.template
+++ b/compiler/src/gen/rust/union.template
@@ -6,7 +6,7 @@ pub enum {union_name}{generics} {{
     {name}({type_name}<&'a [u8]>),
 #fragment pop
 #fragment push message
-    {name}({type_name}<'a>),
+    {name}({type_name}{item_generics}),
 #fragment pop
 #fragment push none
     {name},
@@ -26,7 +26,7 @@ impl{generics} {union_name}{generics} {{
     }}
 #fragment pop
 #fragment push message
-    pub fn as_{name_lower}(&self) -> Option<&{type_name}<'a>> {{
+    pub fn as_{name_lower}(&self) -> Option<&{type_name}{item_generics}> {{
         match self {{
             Self::{name}(v) => Some(v),
             _ => None
diff --git a/compiler/src/gen/rust/util.rs b/compiler/src/gen/rust/util.rs
index 89dddd4..4c24a9c 100644
--- a/compiler/src/gen/rust/util.rs
+++ b/compiler/src/gen/rust/util.rs
@@ -26,8 +26,9 @@
 // NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 // SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-use crate::compiler::message::{FieldType, Message};
+use crate::compiler::message::{FieldType, Message, Referenced};
 use crate::compiler::structure::{FixedField, FixedFieldType};
+use crate::compiler::union::Union;
 use crate::gen::base::message::StringType;
 use crate::model::protocol::Endianness;
 
@@ -37,12 +38,12 @@ pub struct Generics {
 
 impl Generics {
     pub fn from_message(msg: &Message) -> Self {
-        let has_lifetime = msg.fields.iter().any(|v| match v.ty {
-            FieldType::Ref(_) => true,
+        let has_lifetime = msg.fields.iter().any(|v| match &v.ty {
+            FieldType::Ref(v) => Self::from_referenced(v).has_lifetime,
             FieldType::NullTerminatedString => true,
             FieldType::VarcharString(_) => true,
             FieldType::Array(_) => true,
-            FieldType::Union(_) => true,
+            FieldType::Union(v) => Self::from_union(&v.r).has_lifetime,
             FieldType::List(_) => true,
             FieldType::Payload => true,
             _ => false
@@ -52,6 +53,21 @@ impl Generics {
         }
     }
 
+    pub fn from_union(u: &Union) -> Self {
+        let has_lifetime = u.cases.iter().filter_map(|v| v.item_type.as_ref())
+            .any(|v| Self::from_referenced(v).has_lifetime);
+        Generics {
+            has_lifetime
+        }
+    }
+
+    pub fn from_referenced(item_type: &Referenced) -> Self {
+        match item_type {
+            Referenced::Struct(_) => Generics { has_lifetime: true },
+            Referenced::Message(v) => Self::from_message(v)
+        }
+    }
+
     pub fn to_vec(&self) -> Vec<&'static str> {
         let mut generics = Vec::new();
         if self.has_lifetime {
@@ -185,11 +201,11 @@ impl crate::gen::base::message::Utilities for RustUtils {
         format!("{}<&'a [u8]>", type_name)
     }
 
-    fn gen_message_ref_type(type_name: &str) -> String {
-        format!("{}<'a>", type_name)
+    fn gen_message_ref_type(type_name: &str, msg: &Message) -> String {
+        format!("{}{}", type_name, Generics::from_message(msg).to_code())
     }
 
-    fn gen_union_ref_type(type_name: &str) -> String {
-        format!("{}<'a>", type_name)
+    fn gen_union_ref_type(type_name: &str, u: &Union) -> String {
+        format!("{}{}", type_name, Generics::from_union(u).to_code())
     }
 }
-- 
2.43.0


From c0653ca466e4dbdb5adb7ed526c51b47ea87bfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 23/36] fix: delimit the lists of messages nested inside list
 items

---
 compiler/src/compiler/message.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index ea0d9aa..ab877b4 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -191,7 +191,7 @@ impl Field {
                         })
                     },
                     Referenced::Message(item_type) => {
-                        item_type.embedded.set(true);
+                        item_type.set_embedded();
                         Ok(Field {
                             name: value.name,
                             ty: FieldType::List(ListField {
@@ -300,6 +300,25 @@ impl Message {
         self.embedded.get()
     }
 
+    /// Marks this message, and all messages that are part of it, as embedded in a list: their end
+    /// is not the end of the input.
+    fn set_embedded(&self) {
+        if self.embedded.replace(true) {
+            return;
+        }
+        for field in &self.fields {
+            match &field.ty {
+                FieldType::Ref(Referenced::Message(v)) => v.set_embedded(),
+                FieldType::Union(v) => for case in &v.r.cases {
+                    if let Some(Referenced::Message(v)) = &case.item_type {
+                        v.set_embedded();
+                    }
+                },
+                _ => ()
+            }
+        }
+    }
+
     pub fn from_model(proto: &Protocol, value: crate::model::message::Message) -> Result<Message, Error> {
         let mut fields = Vec::with_capacity(value.fields.len());
         let mut dyn_sized_elem_count = 0;
-- 
2.43.0


From de7eb86d7fcd00ba90f5db737c864a0bb05d5e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 24/36] fix: support the optional flag on numbers, strings,
 structures, lists and payloads

---
 compiler/src/gen/base/message_from_slice.rs  |  3 ++-
 compiler/src/gen/base/message_write.rs       |  4 +++-
 compiler/src/gen/rust/message.write.template |  3 +++
 runtime/src/message/util/common.rs           | 23 +++++++++++++-------
 4 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/compiler/src/gen/base/message_from_slice.rs b/compiler/src/gen/base/message_from_slice.rs
index c7bd322..6653f91 100644
--- a/compiler/src/gen/base/message_from_slice.rs
+++ b/compiler/src/gen/base/message_from_slice.rs
@@ -46,7 +46,8 @@ pub fn generate_field_type_inline<'a, U: Utilities>(msg: &Message, field: &'a Fi
     let msg_type = match &field.ty {
         FieldType::Fixed(ty) => gen_optional::<U>(field.optional, U::get_value_type_inline(field.endianness, ty.ty)),
         FieldType::Ref(v) => match v {
-            Referenced::Struct(v) => gen_optional::<U>(field.optional, type_path_by_name.get(&v.name)),
+            Referenced::Struct(v) if field.optional => U::gen_option_type_inline(&U::gen_struct_ref_type(type_path_by_name.get(&v.name))).into(),
+            Referenced::Struct(v) => type_path_by_name.get(&v.name).into(),
             Referenced::Message(v) => gen_optional::<U>(field.optional, type_path_by_name.get(&v.name))
         }
         FieldType::NullTerminatedString => gen_optional::<U>(field.optional, U::get_string_type_inline(StringType::NullTerminated)),
diff --git a/compiler/src/gen/base/message_write.rs b/compiler/src/gen/base/message_write.rs
index 575d711..a8f4b02 100644
--- a/compiler/src/gen/base/message_write.rs
+++ b/compiler/src/gen/base/message_write.rs
@@ -27,7 +27,7 @@
 // SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 use itertools::Itertools;
-use crate::compiler::message::{Field, Message};
+use crate::compiler::message::{Field, FieldType, Message};
 use crate::compiler::util::TypePathMap;
 use crate::gen::base::message::Utilities;
 use crate::gen::base::message_from_slice::generate_field_type_inline;
@@ -43,6 +43,8 @@ fn gen_field_write_impl<U: Utilities>(msg: &Message, field: &Field, template: &T
     scope.var("type", msg_type);
     if union.is_some() {
         scope.render("impl", &["field_union"]).unwrap()
+    } else if field.optional && matches!(field.ty, FieldType::NullTerminatedString | FieldType::VarcharString(_) | FieldType::Payload) {
+        scope.render("impl", &["field_optional_ref"]).unwrap()
     } else {
         scope.render("impl", &["field"]).unwrap()
     }
diff --git a/compiler/src/gen/rust/message.write.template b/compiler/src/gen/rust/message.write.template
index 936af33..bfaf4cb 100644
--- a/compiler/src/gen/rust/message.write.template
+++ b/compiler/src/gen/rust/message.write.template
@@ -7,6 +7,9 @@ impl{generics} bp3d_proto::message::WriteTo for {msg_name}{generics} {{
 #fragment push field
         {type}::write_to(&input.{name}, &mut out)?;
 #fragment pop
+#fragment push field_optional_ref
+        {type}::write_ref(input.{name}, &mut out)?;
+#fragment pop
 #fragment push field_union
         {type}::write_to(&input.{name}, &input.{on_name}, &mut out)?;
 #fragment pop
diff --git a/runtime/src/message/util/common.rs b/runtime/src/message/util/common.rs
index 4430d4b..200ea7f 100644
--- a/runtime/src/message/util/common.rs
+++ b/runtime/src/message/util/common.rs
@@ -42,10 +42,10 @@ pub(crate) fn encode_len<T: ToUsize>(len: usize) -> Result<T, Error> {
 
 pub struct Optional<T>(PhantomData<T>);
 
-impl<'a, T: FromSlice<'a, Output = T>> FromSlice<'a> for Optional<T> {
-    type Output = Option<T>;
+impl<'a, T: FromSlice<'a>> FromSlice<'a> for Optional<T> {
+    type Output = Option<T::Output>;
 
-    fn from_slice(slice: &'a [u8]) -> Result<Message<Option<T>>, Error> {
+    fn from_slice(slice: &'a [u8]) -> Result<Message<Self::Output>, Error> {
         if slice.len() < 1 {
             Err(Error::Truncated)
         } else {
@@ -60,7 +60,7 @@ impl<'a, T: FromSlice<'a, Output = T>> FromSlice<'a> for Optional<T> {
     }
 }
 
-impl<'a, T: FromSlice<'a, Output = T> + FromSliceWithOffsets<'a>> FromSliceWithOffsets<'a> for Optional<T> {
+impl<'a, T: FromSliceWithOffsets<'a>> FromSliceWithOffsets<'a> for Optional<T> {
     type Offsets = Option<T::Offsets>;
 
     fn from_slice_with_offsets(slice: &'a [u8]) -> crate::message::Result<Message<(Self::Output, Self::Offsets)>> {
@@ -80,10 +80,9 @@ impl<'a, T: FromSlice<'a, Output = T> + FromSliceWithOffsets<'a>> FromSliceWithO
     }
 }
 
-impl<T: WriteTo<Input = T>> WriteTo for Optional<T> {
-    type Input = Option<T>;
-
-    fn write_to<W: Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
+impl<T: WriteTo> Optional<T> {
+    /// Writes an optional reference, this also supports unsized inputs such as strings and payloads.
+    pub fn write_ref<W: Write>(input: Option<&T::Input>, mut out: W) -> Result<(), Error> {
         match input {
             None => out.write_all(&[0x0])?,
             Some(v) => {
@@ -95,6 +94,14 @@ impl<T: WriteTo<Input = T>> WriteTo for Optional<T> {
     }
 }
 
+impl<T: WriteTo<Input: Sized>> WriteTo for Optional<T> {
+    type Input = Option<T::Input>;
+
+    fn write_to<W: Write>(input: &Self::Input, out: W) -> Result<(), Error> {
+        Self::write_ref(input.as_ref(), out)
+    }
+}
+
 #[derive(Debug, Copy, Clone)]
 pub struct ValueLE<T>(PhantomData<T>);
 #[derive(Debug, Copy, Clone)]
-- 
2.43.0


From 114cef6d471eba3b9ee6cbf8a03684f6921f32c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 25/36] fix: reject unions on an optional discriminant

---
 compiler/src/compiler/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index ab877b4..63ccfaa 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -249,7 +249,7 @@ impl Field {
                 match &on_field.ty {
                     FieldType::Ref(v) => match v {
                         Referenced::Struct(v) => {
-                            if !Rc::ptr_eq(&r.discriminant.root, v) {
+                            if on_field.optional || !Rc::ptr_eq(&r.discriminant.root, v) {
                                 return Err(Error::UnionTypeMismatch);
                             }
                         }
-- 
2.43.0


From 172292662ea15250b336dbd0b3219e6ba3ebb75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 26/36] fix: types imported through another importing protocol
 are referenced where they are defined

---
 compiler/src/compiler/protocol.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/compiler/src/compiler/protocol.rs b/compiler/src/compiler/protocol.rs
index e53245a..48eb77a 100644
--- a/compiler/src/compiler/protocol.rs
+++ b/compiler/src/compiler/protocol.rs
@@ -73,33 +73,38 @@ impl Protocol {
                     Some(r) => r,
                     None => return Err(Error::UndefinedReference(v.protocol))
                 };
+                // A type which that protocol has itself imported lives where it was imported from.
+                let get_type_path = || match r.type_path_by_name.get(&v.type_name) {
+                    path if path != v.type_name => Ok(path.to_string()),
+                    _ => solver.get_full_type_path(&v.protocol, &v.type_name).ok_or(Error::SolverError)
+                };
                 match r.structs_by_name.get(&v.type_name) {
                     None => {
                         match r.enums_by_name.get(&v.type_name) {
                             None => {
                                 match r.unions_by_name.get(&v.type_name) {
                                     Some(vv) => {
-                                        let type_path = solver.get_full_type_path(&v.protocol, &v.type_name).ok_or(Error::SolverError)?;
+                                        let type_path = get_type_path()?;
                                         proto.unions_by_name.insert(v.type_name, vv.clone());
                                         proto.type_path_by_name.add(vv.name.clone(), type_path);
                                     },
                                     None => {
                                         let msg = r.messages_by_name.get(&v.type_name).ok_or(Error::UndefinedReference(format!("{}::{}", v.protocol, v.type_name)))?;
-                                        let type_path = solver.get_full_type_path(&v.protocol, &v.type_name).ok_or(Error::SolverError)?;
+                                        let type_path = get_type_path()?;
                                         proto.messages_by_name.insert(v.type_name, msg.clone());
                                         proto.type_path_by_name.add(msg.name.clone(), type_path);
                                     }
                                 }
                             },
                             Some(vv) => {
-                                let type_path = solver.get_full_type_path(&v.protocol, &v.type_name).ok_or(Error::SolverError)?;
+                                let type_path = get_type_path()?;
                                 proto.enums_by_name.insert(v.type_name, vv.clone());
                                 proto.type_path_by_name.add(vv.name.clone(), type_path);
                             }
                         }
                     },
                     Some(vv) => {
-                        let type_path = solver.get_full_type_path(&v.protocol, &v.type_name).ok_or(Error::SolverError)?;
+                        let type_path = get_type_path()?;
                         proto.structs_by_name.insert(v.type_name, vv.clone());
                         proto.type_path_by_name.add(vv.name.clone(), type_path);
                     }
-- 
2.43.0


From a7176535682b080a3a1e6481f71311884aea1392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 27/36] fix: arrays of imported structs in messages

---
 runtime/src/message/macros.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/runtime/src/message/macros.rs b/runtime/src/message/macros.rs
index 247157a..a32a003 100644
--- a/runtime/src/message/macros.rs
+++ b/runtime/src/message/macros.rs
@@ -28,19 +28,19 @@
 
 #[macro_export]
 macro_rules! generate_array_wrapper {
-    ($name: ident, $inner: ident, $t: ty) => {
-        pub struct $name<'a, B>($crate::message::util::Array<B, $t, $inner<&'a [u8]>>);
+    ($name: ident, $($inner: ident)? $(:: $path: ident)*, $t: ty) => {
+        pub struct $name<'a, B>($crate::message::util::Array<B, $t, $($inner)? $(:: $path)*<&'a [u8]>>);
 
         impl<'a, B> $name<'a, B> {
             pub unsafe fn from_raw_parts(data: B, len: usize) -> $name<'a, B> {
-                Self($crate::message::util::Array::<B, $t, $inner<&'a [u8]>>::from_raw_parts(data, len))
+                Self($crate::message::util::Array::<B, $t, $($inner)? $(:: $path)*<&'a [u8]>>::from_raw_parts(data, len))
             }
 
             pub fn new(data: B) -> $name<'a, B> {
                 unsafe { Self::from_raw_parts(data, 0) }
             }
 
-            pub fn from_array(inner: $crate::message::util::Array<B, $t, $inner<&'a [u8]>>) -> Self {
+            pub fn from_array(inner: $crate::message::util::Array<B, $t, $($inner)? $(:: $path)*<&'a [u8]>>) -> Self {
                 Self(inner)
             }
 
@@ -50,39 +50,39 @@ macro_rules! generate_array_wrapper {
         }
 
         impl<'a, B: std::io::Write> $name<'a, B> {
-            pub fn write_item(&mut self, item: &$inner<&[u8]>) -> $crate::message::Result<()> {
+            pub fn write_item(&mut self, item: &$($inner)? $(:: $path)*<&[u8]>) -> $crate::message::Result<()> {
                 self.0.write_item(item)
             }
 
-            pub fn write_items(&mut self, items: &[$inner<&[u8]>]) -> $crate::message::Result<()> {
+            pub fn write_items(&mut self, items: &[$($inner)? $(:: $path)*<&[u8]>]) -> $crate::message::Result<()> {
                 self.0.write_items(items)
             }
         }
 
         impl<'a, B: AsRef<[u8]>> $name<'a, B> {
-            pub fn to_ref(&self) -> $crate::message::util::Array<&[u8], $t, $inner<&[u8]>> {
+            pub fn to_ref(&self) -> $crate::message::util::Array<&[u8], $t, $($inner)? $(:: $path)*<&[u8]>> {
                 self.0.to_ref()
             }
 
             pub fn from_parts(data: B, len: usize) -> Option<Self> {
-                $crate::message::util::Array::<B, $t, $inner<&'a [u8]>>::from_parts(data, len).map(Self)
+                $crate::message::util::Array::<B, $t, $($inner)? $(:: $path)*<&'a [u8]>>::from_parts(data, len).map(Self)
             }
 
-            pub fn get(&self, index: usize) -> $inner<&[u8]> {
+            pub fn get(&self, index: usize) -> $($inner)? $(:: $path)*<&[u8]> {
                 self.0.get(index)
             }
 
-            pub fn iter<'b>(&'b self) -> $crate::message::util::array::Iter<'b, $inner<&[u8]>> {
+            pub fn iter<'b>(&'b self) -> $crate::message::util::array::Iter<'b, $($inner)? $(:: $path)*<&[u8]>> {
                 self.0.iter()
             }
         }
 
         impl<'a, B: AsMut<[u8]>> $name<'a, B> {
-            pub fn get_mut(&mut self, index: usize) -> $inner<&mut [u8]> {
+            pub fn get_mut(&mut self, index: usize) -> $($inner)? $(:: $path)*<&mut [u8]> {
                 self.0.get_mut(index)
             }
 
-            pub fn iter_mut<'b>(&'b mut self) -> $crate::message::util::array::IterMut<'b, $inner<&mut [u8]>> {
+            pub fn iter_mut<'b>(&'b mut self) -> $crate::message::util::array::IterMut<'b, $($inner)? $(:: $path)*<&mut [u8]>> {
                 self.0.iter_mut()
             }
         }
-- 
2.43.0


From 4ab22e1dfc893a4857a82f6302c14ad6c1da6531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 28/36] fix: enum variants of equal value are generated in a
 fixed order

---
 compiler/src/compiler/enum.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/compiler/enum.rs b/compiler/src/compiler/enum.rs
index 39138f0..8b84565 100644
--- a/compiler/src/compiler/enum.rs
+++ b/compiler/src/compiler/enum.rs
@@ -40,7 +40,7 @@ pub struct Enum {
 impl Enum {
     pub fn from_model(value: crate::model::protocol::Enum) -> Result<Enum, Error> {
         let mut variants: Vec<(String, usize)> = value.variants.into_iter().collect();
-        variants.sort_by(|(_, v), (_, v1)| v.cmp(v1));
+        variants.sort_by(|(k, v), (k1, v1)| (v, k).cmp(&(v1, k1)));
         let mut variants_map = HashMap::new();
         let largest = variants.last().map(|(_, v)| *v).ok_or(Error::ZeroEnum)?;
         for (k, v) in &variants {
-- 
2.43.0


From 404637de01dfcbcb993901fe828ae6d669def5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 29/36] fix: a variable next to doubled braces in a template is
 replaced

---
 compiler/src/gen/template.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/src/gen/template.rs b/compiler/src/gen/template.rs
index 7348200..ac2d0b6 100644
--- a/compiler/src/gen/template.rs
+++ b/compiler/src/gen/template.rs
@@ -213,21 +213,25 @@ impl<'fragment, 'variable> Template<'fragment, 'variable> {
             } else {
                 let cur_fragment = frag_stack.last_mut().ok_or(Error::NoFragment)?;
                 let mut token = Token::new(line);
+                let mut in_variable = false;
                 while token.has_next() {
                     if token.cur() == b'{' {
                         if token.next() == Some(b'{') {
                             token.inc();
+                        } else {
+                            in_variable = true;
                         }
                         if let Some(component) = token.pop()?.map(Component::Constant) {
                             cur_fragment.content.push(component);
                         }
                     } else if token.cur() == b'}' {
-                        if token.next() == Some(b'}') {
+                        if !in_variable && token.next() == Some(b'}') {
                             token.inc();
                             if let Some(component) = token.pop()?.map(Component::Constant) {
                                 cur_fragment.content.push(component);
                             }
                         } else {
+                            in_variable = false;
                             if let Some(component) = token.pop()?.map(|v| Component::parse_variable(&function_map, v)) {
                                 cur_fragment.content.push(component?);
                             }
-- 
2.43.0


From b5b3dc0f9ccfbf7e2ff41054ee84c9276f33f3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 30/36] fix: protocol files that are nested too deep are
 reported instead of overflowing the stack

---
 compiler/src/interface.rs | 58 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 54 insertions(+), 4 deletions(-)

diff --git a/compiler/src/interface.rs b/compiler/src/interface.rs
index 6855294..b0901f2 100644
--- a/compiler/src/interface.rs
+++ b/compiler/src/interface.rs
@@ -35,6 +35,58 @@ pub trait ImportSolver {
     fn register(&mut self, base_import_path: String, protocol: compiler::Protocol);
 }
 
+/// The maximum number of nested objects and arrays in a protocol file.
+const MAX_DEPTH: usize = 128;
+
+/// Returns true if the depth of nested objects and arrays in the given text exceeds [MAX_DEPTH].
+fn is_too_deep(content: &str) -> bool {
+    let mut depth = 0;
+    let mut chars = content.chars().peekable();
+    while let Some(c) = chars.next() {
+        match c {
+            '{' | '[' => {
+                depth += 1;
+                if depth > MAX_DEPTH {
+                    return true;
+                }
+            },
+            '}' | ']' if depth > 0 => depth -= 1,
+            '"' | '\'' => while let Some(v) = chars.next() {
+                if v == c {
+                    break;
+                }
+                if v == '\\' {
+                    chars.next();
+                }
+            },
+            '/' if chars.peek() == Some(&'/') => while let Some(v) = chars.next() {
+                if matches!(v, '\n' | '\r' | '\u{2028}' | '\u{2029}') {
+                    break;
+                }
+            },
+            '/' if chars.next_if_eq(&'*').is_some() => while let Some(v) = chars.next() {
+                if v == '*' && chars.next_if_eq(&'/').is_some() {
+                    break;
+                }
+            },
+            _ => ()
+        }
+    }
+    false
+}
+
+fn read_model(path: &Path) -> Result<model::Protocol, Error> {
+    let content = std::fs::read_to_string(path).map_err(Error::Io)?;
+    // The parser is recursive, so a file which is nested too deep would overflow the stack.
+    if is_too_deep(&content) {
+        return Err(Error::Model(json5::Error::Message {
+            msg: "too many nested objects or arrays".into(),
+            location: None
+        }));
+    }
+    json5::from_str(&content).map_err(Error::Model)
+}
+
 pub struct Loader {
     models: Vec<model::Protocol>,
     imported_models: Vec<(String, model::Protocol)>
@@ -49,15 +101,13 @@ impl Loader {
     }
 
     pub fn load(&mut self, path: impl AsRef<Path>) -> Result<(), Error> {
-        let content = std::fs::read_to_string(path).map_err(Error::Io)?;
-        let model: model::Protocol = json5::from_str(&content).map_err(Error::Model)?;
+        let model = read_model(path.as_ref())?;
         self.models.push(model);
         Ok(())
     }
 
     pub fn import(&mut self, path: impl AsRef<Path>, import_path: impl Into<String>) -> Result<(), Error> {
-        let content = std::fs::read_to_string(path).map_err(Error::Io)?;
-        let model: model::Protocol = json5::from_str(&content).map_err(Error::Model)?;
+        let model = read_model(path.as_ref())?;
         self.imported_models.push((import_path.into(), model));
         Ok(())
     }
-- 
2.43.0


From 620ff2a18ce75d9cd1f5fa5dbe26cac98229ddd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:21 +0000
Subject: [PATCH 31/36] fix: entry files generated into a relative directory
 include existing paths

---
 compiler/src/interface.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/compiler/src/interface.rs b/compiler/src/interface.rs
index b0901f2..9f3ef37 100644
--- a/compiler/src/interface.rs
+++ b/compiler/src/interface.rs
@@ -184,10 +184,12 @@ impl Protoc {
 
     pub fn generate<T: Generator>(self, out_directory: impl AsRef<Path>) -> Result<Vec<Proto>, Error> {
         let mut generated_protocols = Vec::new();
+        // A relative path in an include! would be relative to the umbrella file.
+        let out_directory = std::path::absolute(out_directory).map_err(Error::Io)?;
         for proto in self.protocols {
             let name = proto.name.clone();
             let files = T::generate(proto).map_err(|e| Error::Generator(e.to_string()))?;
-            let out_path = out_directory.as_ref().join(&name);
+            let out_path = out_directory.join(&name);
             if !out_path.exists() {
                 std::fs::create_dir(&out_path).map_err(Error::Io)?;
             }
-- 
2.43.0


From bea1be46d155fe7862715643f7b2c97bc5100f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:10 +0000
Subject: [PATCH 32/36] fix: names of message fields and types no longer
 collide with names inside generated functions

---
 compiler/src/gen/rust/message.from_slice.template | 10 +++++-----
 compiler/src/gen/rust/message.offsets.template    | 12 ++++++------
 compiler/src/gen/rust/union.template              |  4 ++--
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/compiler/src/gen/rust/message.from_slice.template b/compiler/src/gen/rust/message.from_slice.template
index e085f32..d097c7f 100644
--- a/compiler/src/gen/rust/message.from_slice.template
+++ b/compiler/src/gen/rust/message.from_slice.template
@@ -8,22 +8,22 @@ impl<'a> bp3d_proto::message::FromSlice<'a> for {msg_name}{generics} {{
 #fragment push field
         let {name}_msg = {type}::from_slice(&slice[byte_offset..])?;
         byte_offset += {name}_msg.size();
-        let {name} = {name}_msg.into_inner();
+        let __{name} = {name}_msg.into_inner();
 #fragment pop
 #fragment push field_msg
         let {name}_msg = {type}::from_slice(&slice[byte_offset..])?;
         byte_offset += {name}_msg.size();
-        let {name} = {name}_msg.into_inner();
+        let __{name} = {name}_msg.into_inner();
 #fragment pop
 #fragment push field_union
-        let {name}_msg = {type}::from_slice(&slice[byte_offset..], &{on_name})?;
+        let {name}_msg = {type}::from_slice(&slice[byte_offset..], &__{on_name})?;
         byte_offset += {name}_msg.size();
-        let {name} = {name}_msg.into_inner();
+        let __{name} = {name}_msg.into_inner();
 #fragment pop
         let data = {msg_name} {{
 {field_names}
 #fragment push field_name
-            {name},
+            {name}: __{name},
 #fragment pop
         }};
         Ok(bp3d_proto::message::Message::new(byte_offset, data))
diff --git a/compiler/src/gen/rust/message.offsets.template b/compiler/src/gen/rust/message.offsets.template
index 9075d38..b7478ba 100644
--- a/compiler/src/gen/rust/message.offsets.template
+++ b/compiler/src/gen/rust/message.offsets.template
@@ -19,7 +19,7 @@ impl<'a> bp3d_proto::message::FromSliceWithOffsets<'a> for {msg_name}{generics}
     type Offsets = {msg_name}Offsets;
 
     fn from_slice_with_offsets(slice: &'a [u8]) -> bp3d_proto::message::Result<bp3d_proto::message::Message<(Self, Self::Offsets)>> {{
-        use bp3d_proto::message::FromSlice;
+        use bp3d_proto::message::FromSlice as _;
         let mut offsets = Self::Offsets::default();
         let mut byte_offset: usize = 0;
 {fields}
@@ -28,27 +28,27 @@ impl<'a> bp3d_proto::message::FromSliceWithOffsets<'a> for {msg_name}{generics}
         offsets.{name}.start = byte_offset;
         byte_offset += {name}_msg.size();
         offsets.{name}.end = byte_offset;
-        let {name} = {name}_msg.into_inner();
+        let __{name} = {name}_msg.into_inner();
 #fragment pop
 #fragment push field_msg
         let {name}_msg = {type}::from_slice_with_offsets(&slice[byte_offset..])?;
         offsets.{name}.start = byte_offset;
         byte_offset += {name}_msg.size();
         offsets.{name}.end = byte_offset;
-        let ({name}, {name}_offsets) = {name}_msg.into_inner();
+        let (__{name}, {name}_offsets) = {name}_msg.into_inner();
         offsets.{name}_offsets = {name}_offsets;
 #fragment pop
 #fragment push field_union
-        let {name}_msg = {type}::from_slice(&slice[byte_offset..], &{on_name})?;
+        let {name}_msg = {type}::from_slice(&slice[byte_offset..], &__{on_name})?;
         offsets.{name}.start = byte_offset;
         byte_offset += {name}_msg.size();
         offsets.{name}.end = byte_offset;
-        let {name} = {name}_msg.into_inner();
+        let __{name} = {name}_msg.into_inner();
 #fragment pop
         let data = {msg_name} {{
 {field_names}
 #fragment push field_name
-            {name},
+            {name}: __{name},
 #fragment pop
         }};
         Ok(bp3d_proto::message::Message::new(byte_offset, (data, offsets)))
diff --git a/compiler/src/gen/rust/union.template b/compiler/src/gen/rust/union.template
index 53c5a32..11d9fac 100644
--- a/compiler/src/gen/rust/union.template
+++ b/compiler/src/gen/rust/union.template
@@ -66,7 +66,7 @@ impl<'a> {union_name}{generics} {{
 {fragment}
 #fragment push generics
     pub fn write_to<W: std::io::Write>(input: &Self, discriminant: &{discriminant_type}<&'a [u8]>, mut out: W) -> bp3d_proto::message::Result<()> {{
-        use bp3d_proto::message::WriteTo;
+        use bp3d_proto::message::WriteTo as _;
         let discriminant = discriminant.{discriminant_path};
         match input {{
 {cases}
@@ -108,7 +108,7 @@ impl<'a> {union_name}{generics} {{
 {fragment}
 #fragment push generics
     pub fn from_slice(slice: &'a [u8], discriminant: &{discriminant_type}<&'a [u8]>) -> bp3d_proto::message::Result<bp3d_proto::message::Message<Self>> {{
-        use bp3d_proto::message::FromSlice;
+        use bp3d_proto::message::FromSlice as _;
         let discriminant = discriminant.{discriminant_path};
         match discriminant {{
 {cases}
-- 
2.43.0


From 9730e14fb70b6e7a3c26cee1ed91cec7f88c95ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:34 +0000
Subject: [PATCH 33/36] fix: several generated files may share a sub folder,
 and be generated again

---
 compiler/src/gen/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/src/gen/mod.rs b/compiler/src/gen/mod.rs
index b1015bd..dd4d9de 100644
--- a/compiler/src/gen/mod.rs
+++ b/compiler/src/gen/mod.rs
@@ -66,9 +66,9 @@ impl File {
 
     pub fn write(self, out_directory: &Path) -> std::io::Result<Option<PathBuf>> {
         if self.data.len() > 1 {
-            let sub_folder = self.name.find("/").map(|id| &self.name[..id]);
+            let sub_folder = self.name.rfind("/").map(|id| &self.name[..id]);
             if let Some(sub_folder) = sub_folder {
-                std::fs::create_dir(out_directory.join(sub_folder))?;
+                std::fs::create_dir_all(out_directory.join(sub_folder))?;
             }
             let path = out_directory.join(&*self.name);
             std::fs::write(&path, self.data)?;
-- 
2.43.0


From 5db1e02b4320411c7503647cc1668c0f281df883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:35 +0000
Subject: [PATCH 34/36] fix: an item that cannot be written no longer leaves
 its first fields in a list

---
 runtime/src/message/util/list_base.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/src/message/util/list_base.rs b/runtime/src/message/util/list_base.rs
index ab206e6..e25fb12 100644
--- a/runtime/src/message/util/list_base.rs
+++ b/runtime/src/message/util/list_base.rs
@@ -60,6 +60,8 @@ macro_rules! impl_list_base {
 
         impl<B: std::io::Write, T, I> $t<B, T, I> {
             pub fn write_item<Item: WriteTo<Input = Item>>(&mut self, item: &Item) -> Result<(), Error> {
+                // An item which cannot be written must not leave its first fields in the list.
+                crate::message::util::size_of(item)?;
                 Item::write_to(item, &mut self.data)?;
                 self.len += 1;
                 Ok(())
-- 
2.43.0


From a51f70f136bc2a37f57ee875a604fa03a1cad0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:39 +0000
Subject: [PATCH 35/36] fix: a structure of one 24, 40, 48 or 56 bits number
 keeps its size in messages

---
 compiler/src/compiler/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index 63ccfaa..9b0d75f 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -133,7 +133,7 @@ impl Field {
                     Referenced::Struct(r) => {
                         if r.fields.len() == 1 && r.fields[0].as_fixed().is_some()
                             && r.fields[0].as_fixed().map(|v| v.view.is_transmute()).unwrap_or_default()
-                            && r.fields[0].as_fixed().map(|v| v.loc.bit_size % 8 == 0).unwrap_or_default() {
+                            && r.fields[0].as_fixed().map(|v| v.loc.bit_size == v.ty.get_byte_size() * 8).unwrap_or_default() {
                             let fixed = unsafe { r.fields[0].as_fixed().unwrap_unchecked() };
                             Ok(Field {
                                 name: value.name,
-- 
2.43.0


From be57f00ccf4a2ce9c1611644da53f025d4fa3d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:39 +0000
Subject: [PATCH 36/36] fix: a structure of one plain number can be the
 discriminant of a union

---
 compiler/src/compiler/message.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index 9b0d75f..8ffd23c 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -125,13 +125,14 @@ pub struct Field {
 }
 
 impl Field {
-    fn from_model(proto: &Protocol, unsorted: &[Field], value: crate::model::message::MessageField) -> Result<Self, Error> {
+    fn from_model(proto: &Protocol, unsorted: &[Field], is_discriminant: bool, value: crate::model::message::MessageField) -> Result<Self, Error> {
         match value.info {
             MessageFieldType::Item { item_type } => {
                 let r = Referenced::lookup(proto, &item_type).ok_or_else(|| Error::UndefinedReference(item_type))?;
                 match r {
                     Referenced::Struct(r) => {
-                        if r.fields.len() == 1 && r.fields[0].as_fixed().is_some()
+                        // A union needs its discriminant as a structure.
+                        if !is_discriminant && r.fields.len() == 1 && r.fields[0].as_fixed().is_some()
                             && r.fields[0].as_fixed().map(|v| v.view.is_transmute()).unwrap_or_default()
                             && r.fields[0].as_fixed().map(|v| v.loc.bit_size == v.ty.get_byte_size() * 8).unwrap_or_default() {
                             let fixed = unsafe { r.fields[0].as_fixed().unwrap_unchecked() };
@@ -323,8 +324,13 @@ impl Message {
         let mut fields = Vec::with_capacity(value.fields.len());
         let mut dyn_sized_elem_count = 0;
         let mut is_dyn_sized = false;
+        let discriminants: Vec<String> = value.fields.iter().filter_map(|v| match &v.info {
+            MessageFieldType::Union { on, .. } => Some(on.clone()),
+            _ => None
+        }).collect();
         for v in value.fields {
-            let field = Field::from_model(proto, &fields, v)?;
+            let is_discriminant = discriminants.contains(&v.name);
+            let field = Field::from_model(proto, &fields, is_discriminant, v)?;
             if field.size.is_dyn_sized {
                 is_dyn_sized = true;
             }
-- 
2.43.0

