From e2857d0d33dc53d7c6c532f025e1c60da443db22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 01/12] fix: reject a long or double constant whose second slot
 is outside the pool

---
 src/constant_pool.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 3721b02..8f1027b 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -689,7 +689,13 @@ pub(crate) fn read_constant_pool<'a>(
         cp_ix += 1;
         if constant_type == 5 || constant_type == 6 {
             // long and double types take up two entries in the constant pool,
-            // so eat up another index.
+            // so eat up another index. That index must also be a valid one.
+            if cp_ix == count {
+                fail!(
+                    "Constant pool entry of type {} does not fit in the constant pool",
+                    constant_type
+                );
+            }
             cp_ix += 1;
             constant_pool.push(CafeRc::new(ConstantPoolEntry::Unused));
         }
-- 
2.43.0


From f0133fcdb6b03e582291a2234c3e8731ed0f88f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 02/12] fix: reject a name-and-type whose descriptor is not
 representable as text

---
 src/constant_pool.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 8f1027b..1644c84 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -395,6 +395,15 @@ impl<'a> ConstantPoolEntry<'a> {
         }
     }
 
+    /// The descriptor of a NameAndType is exposed as a Rust string, so it must be
+    /// representable as one even if nothing refers to the entry.
+    fn validate_descriptor_text(&self) -> Result<(), ParseError> {
+        match self {
+            ConstantPoolEntry::NameAndType(_, y) => peel!(y).str().map(|_| ()),
+            _ => Ok(()),
+        }
+    }
+
     fn utf8(&self) -> Cow<'a, str> {
         match self {
             ConstantPoolEntry::Utf8(x) => x.clone(),
@@ -645,6 +654,7 @@ fn validate_constant_pool(
     for (i, cp_entry) in constant_pool.iter().enumerate() {
         cp_entry
             .validate(major_version)
+            .and_then(|()| cp_entry.validate_descriptor_text())
             .map_err(|e| err!(e, "constant pool entry {}", i))?;
     }
     Ok(())
-- 
2.43.0


From 8f9228183bf1ba21e5e704ef3c448d1b48dfa31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 03/12] fix: do not follow name-and-type descriptors that are
 name-and-types themselves

---
 src/constant_pool.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 1644c84..cf966cb 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -384,7 +384,13 @@ impl<'a> ConstantPoolEntry<'a> {
 
     fn validate_method_descriptor(&self) -> Result<(), ParseError> {
         match self {
-            ConstantPoolEntry::NameAndType(_, y) => peel!(y).validate_method_descriptor(),
+            ConstantPoolEntry::NameAndType(_, y) => {
+                if is_method_descriptor(peel!(y).str()?) {
+                    Ok(())
+                } else {
+                    fail!("Invalid method descriptor")
+                }
+            }
             _ => {
                 if is_method_descriptor(self.str()?) {
                     Ok(())
-- 
2.43.0


From 8fa4ee2f552c368061d49d466b296666a3d309cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 04/12] fix: check switch table sizes against the code before
 computing with and allocating them

---
 src/bytecode.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index b9758e2..777c7d9 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -500,13 +500,19 @@ fn read_opcodes<'a>(
                 if low > high {
                     fail!("The low value must be less than or equal to the high value in tableswitch at index {}", ix - 4);
                 }
-                let jump_count = match usize::try_from(high - low + 1) {
+                let jump_count = match usize::try_from(i64::from(high) - i64::from(low) + 1) {
                     Ok(n) => n,
                     _ => fail!(
                         "Unable to convert range to usize in tableswitch at index {}",
                         ix - 4
                     ),
                 };
+                if (code.len() - ix) / 4 < jump_count {
+                    fail!(
+                        "Unexpected end of stream reading tableswitch jumps at index {}",
+                        ix
+                    );
+                }
                 let mut jumps = Vec::with_capacity(jump_count);
                 for _ in 0..jump_count {
                     jumps.push(read_u4(code, &mut ix)? as JumpOffset);
@@ -536,6 +542,12 @@ fn read_opcodes<'a>(
                         ix - 4
                     ),
                 };
+                if (code.len() - ix) / 8 < pair_count {
+                    fail!(
+                        "Unexpected end of stream reading lookupswitch pairs at index {}",
+                        ix
+                    );
+                }
                 let mut match_offsets = Vec::with_capacity(pair_count);
                 for _ in 0..pair_count {
                     let match_part = read_u4(code, &mut ix)? as i32;
-- 
2.43.0


From 95c7bdfe09e9478f8c2c4ca56394e92f6b984655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 05/12] fix: do not overflow when applying a jump offset

---
 src/bytecode.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index 777c7d9..cfa537f 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -249,8 +249,10 @@ impl<'a> ByteCode<'a> {
     }
 
     fn validate_jump(&self, source_offset: i32, jump: JumpOffset) -> Result<(), ParseError> {
-        let target_offset = usize::try_from(source_offset + jump)
-            .map_err(|_| err!("Invalid destination after applying jump"))?;
+        let target_offset = source_offset
+            .checked_add(jump)
+            .and_then(|target| usize::try_from(target).ok())
+            .ok_or_else(|| err!("Invalid destination after applying jump"))?;
         if self.get_opcode_index(target_offset).is_none() {
             fail!("Invalid opcode offset after applying jump");
         }
-- 
2.43.0


From 85334f84a5f8ac21a79c404a1dca749ac0cecd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 06/12] fix: reject text after a field or method descriptor

---
 src/attributes.rs  | 10 +++++-----
 src/descriptors.rs | 15 +++++++++++++++
 src/lib.rs         |  6 +++---
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/attributes.rs b/src/attributes.rs
index c320f57..d441cd9 100644
--- a/src/attributes.rs
+++ b/src/attributes.rs
@@ -11,7 +11,7 @@ use crate::constant_pool::{
 use crate::constant_pool::{
     BootstrapArgument, ConstantPoolEntry, LiteralConstant, MethodHandle, NameAndType,
 };
-use crate::descriptors::{is_return_descriptor, parse_field_descriptor, FieldDescriptor};
+use crate::descriptors::{is_return_descriptor, parse_whole_field_descriptor, FieldDescriptor};
 use crate::names::is_unqualified_name;
 use crate::{read_u1, read_u2, read_u4, AccessFlags, CafeRc, ParseError, ParseOptions};
 
@@ -602,7 +602,7 @@ fn read_localvariable_data<'a>(
             fail!("Invalid unqualified name for variable {}", i);
         }
         let descriptor = read_cp_utf8(bytes, ix, pool)
-            .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
+            .and_then(|descriptor| parse_whole_field_descriptor(&descriptor))
             .map_err(|e| err!(e, "descriptor for variable {}", i))?;
         let index = read_u2(bytes, ix)?;
         localvariables.push(LocalVariableEntry {
@@ -661,7 +661,7 @@ fn read_annotation_element_value<'a>(
         's' => AnnotationElementValue::StringConstant(read_cp_utf8(bytes, ix, pool)?),
         'e' => {
             let type_name = read_cp_utf8(bytes, ix, pool)
-                .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
+                .and_then(|descriptor| parse_whole_field_descriptor(&descriptor))
                 .map_err(|e| err!(e, "annotation element value enum descriptor"))?;
             let const_name = read_cp_utf8(bytes, ix, pool)?;
             AnnotationElementValue::EnumConstant {
@@ -699,7 +699,7 @@ fn read_annotation<'a>(
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
 ) -> Result<Annotation<'a>, ParseError> {
     let type_descriptor = read_cp_utf8(bytes, ix, pool)
-        .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
+        .and_then(|descriptor| parse_whole_field_descriptor(&descriptor))
         .map_err(|e| err!(e, "type descriptor field"))?;
     let element_count = read_u2(bytes, ix)?;
     let mut elements = Vec::with_capacity(element_count.into());
@@ -1035,7 +1035,7 @@ fn read_record_data<'a>(
             fail!("Invalid unqualified name for entry {}", i);
         }
         let descriptor = read_cp_utf8(bytes, ix, pool)
-            .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
+            .and_then(|descriptor| parse_whole_field_descriptor(&descriptor))
             .map_err(|e| err!(e, "descriptor of entry {}", i))?;
         let attributes =
             read_attributes(bytes, ix, pool, opts).map_err(|e| err!(e, "entry {}", i))?;
diff --git a/src/descriptors.rs b/src/descriptors.rs
index eadf427..6602e20 100644
--- a/src/descriptors.rs
+++ b/src/descriptors.rs
@@ -196,6 +196,18 @@ pub(crate) fn parse_field_descriptor<'a>(
     fail!("Empty string is not a field descriptor");
 }
 
+// Parse the given data as a field descriptor. Returns an error if the data is not
+// a field descriptor in its entirety.
+pub(crate) fn parse_whole_field_descriptor<'a>(
+    data: &Cow<'a, str>,
+) -> Result<FieldDescriptor<'a>, ParseError> {
+    let desc = parse_field_descriptor(data, 0)?;
+    if data.len() != desc.byte_len() {
+        fail!("Unexpected characters after field descriptor");
+    }
+    Ok(desc)
+}
+
 #[derive(Clone, Debug, Hash, PartialEq, Eq)]
 pub enum ReturnDescriptor<'a> {
     Return(FieldDescriptor<'a>),
@@ -281,6 +293,9 @@ pub(crate) fn parse_method_descriptor<'a>(
     }
     index += 1;
     let return_type = parse_return_descriptor(data, index)?;
+    if data.len() != index + return_type.byte_len() {
+        fail!("Unexpected characters after method descriptor");
+    }
     Ok(MethodDescriptor {
         parameters,
         return_type,
diff --git a/src/lib.rs b/src/lib.rs
index e1683e1..9c9ac9f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -31,8 +31,8 @@ use crate::constant_pool::{
     ConstantPoolIter,
 };
 use crate::descriptors::{
-    parse_field_descriptor, parse_method_descriptor, ClassName, FieldDescriptor, MethodDescriptor,
-    ReturnDescriptor,
+    parse_method_descriptor, parse_whole_field_descriptor, ClassName, FieldDescriptor,
+    MethodDescriptor, ReturnDescriptor,
 };
 pub use crate::error::ParseError;
 use crate::names::{is_unqualified_method_name, is_unqualified_name};
@@ -176,7 +176,7 @@ fn read_fields<'a>(
         }
         let descriptor = read_cp_utf8(bytes, ix, pool)
             .map_err(|e| err!(e, "descriptor of class field {}", i))?;
-        let descriptor = parse_field_descriptor(&descriptor, 0)?;
+        let descriptor = parse_whole_field_descriptor(&descriptor)?;
 
         let unique_id = (name.clone(), descriptor.clone());
         if !unique_ids.insert(unique_id) {
-- 
2.43.0


From 1786f08d49444c0ab3d490defb64b290cb0234e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 07/12] fix: reject empty class names and class names ending in
 a slash

---
 src/descriptors.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/descriptors.rs b/src/descriptors.rs
index 6602e20..b90585a 100644
--- a/src/descriptors.rs
+++ b/src/descriptors.rs
@@ -20,6 +20,9 @@ fn parse_unqualified_segment(data: &str) -> Result<(&str, Option<char>), ParseEr
             _ => (),
         };
     }
+    if data.is_empty() {
+        fail!("Empty unqualified segment");
+    }
     Ok((data, None))
 }
 
-- 
2.43.0


From 82139db387368693b6ccbba48a4ded333f9154e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 08/12] fix: accept < and > in class names as JVMS 4.2.2 does

---
 src/descriptors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/descriptors.rs b/src/descriptors.rs
index b90585a..c50431d 100644
--- a/src/descriptors.rs
+++ b/src/descriptors.rs
@@ -16,7 +16,7 @@ fn parse_unqualified_segment(data: &str) -> Result<(&str, Option<char>), ParseEr
             '/' if ix == 0 => fail!("Unexpected '/' at start of unqualified segment"),
             ';' if ix == 0 => fail!("Unexpected ';' at start of unqualified segment"),
             '/' | ';' => return Ok((&data[0..ix], Some(c))),
-            '.' | '[' | '<' | '>' => fail!("Disallowed character in unqualified segment"),
+            '.' | '[' => fail!("Disallowed character in unqualified segment"),
             _ => (),
         };
     }
-- 
2.43.0


From 96150c98cc6eb148e62d00140371d0c1214535fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 09/12] fix: accept dynamic constants as bootstrap arguments

---
 src/constant_pool.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index cf966cb..e012411 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -138,7 +138,7 @@ bitflags! {
 
         const NEW_METHOD_REFS = Self::METHOD_REF.bits() | Self::INTERFACE_METHOD_REF.bits();
         const CONSTANTS = Self::INTEGER.bits() | Self::FLOAT.bits() | Self::LONG.bits() | Self::DOUBLE.bits() | Self::STRING.bits();
-        const BOOTSTRAP_ARGUMENT = Self::CONSTANTS.bits() | Self::CLASS_INFO.bits() | Self::METHOD_HANDLE.bits() | Self::METHOD_TYPE.bits();
+        const BOOTSTRAP_ARGUMENT = Self::CONSTANTS.bits() | Self::CLASS_INFO.bits() | Self::METHOD_HANDLE.bits() | Self::METHOD_TYPE.bits() | Self::DYNAMIC.bits();
         const LOADABLE = Self::CONSTANTS.bits() | Self::CLASS_INFO.bits() | Self::METHOD_HANDLE.bits() | Self::METHOD_TYPE.bits() | Self::DYNAMIC.bits();
     }
 }
@@ -1063,6 +1063,7 @@ pub enum BootstrapArgument<'a> {
     ClassInfo(Cow<'a, str>),
     MethodHandle(MethodHandle<'a>),
     MethodType(Cow<'a, str>),
+    Dynamic(Dynamic<'a>),
 }
 
 pub(crate) fn read_cp_bootstrap_argument<'a>(
@@ -1092,6 +1093,10 @@ pub(crate) fn read_cp_bootstrap_argument<'a>(
             Ok(BootstrapArgument::MethodHandle(make_method_handle(x, y)?))
         }
         ConstantPoolEntry::MethodType(x) => Ok(BootstrapArgument::MethodType(peel!(x).utf8())),
+        ConstantPoolEntry::Dynamic(x, y) => Ok(BootstrapArgument::Dynamic(Dynamic {
+            attr_index: *x,
+            name_and_type: peel!(y).name_and_type(),
+        })),
         _ => fail!("Unexpected constant pool reference type"),
     }
 }
-- 
2.43.0


From ab821e25cb86be8ca0925a6afeafcb22e2787a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 10/12] fix: limit the nesting of attributes and annotation
 values

---
 src/attributes.rs | 54 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/src/attributes.rs b/src/attributes.rs
index d441cd9..9cdd9ed 100644
--- a/src/attributes.rs
+++ b/src/attributes.rs
@@ -15,6 +15,12 @@ use crate::descriptors::{is_return_descriptor, parse_whole_field_descriptor, Fie
 use crate::names::is_unqualified_name;
 use crate::{read_u1, read_u2, read_u4, AccessFlags, CafeRc, ParseError, ParseOptions};
 
+// Attributes can contain attributes, and annotation element values can contain element
+// values. No valid class file comes near these nesting limits; they bound the stack usage
+// on malformed ones.
+const MAX_ATTRIBUTE_DEPTH: usize = 16;
+const MAX_ELEMENT_VALUE_DEPTH: usize = 64;
+
 #[derive(Debug)]
 pub struct ExceptionTableEntry<'a> {
     pub start_pc: u16,
@@ -369,6 +375,7 @@ fn read_code_data<'a>(
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
     opts: &ParseOptions,
+    depth: usize,
 ) -> Result<CodeData<'a>, ParseError> {
     let max_stack = read_u2(bytes, ix)?;
     let max_locals = read_u2(bytes, ix)?;
@@ -396,8 +403,8 @@ fn read_code_data<'a>(
             catch_type,
         });
     }
-    let code_attributes =
-        read_attributes(bytes, ix, pool, opts).map_err(|e| err!(e, "code attribute"))?;
+    let code_attributes = read_nested_attributes(bytes, ix, pool, opts, depth + 1)
+        .map_err(|e| err!(e, "code attribute"))?;
     let bytecode = if opts.parse_bytecode {
         Some(ByteCode::from(code, pool).map_err(|e| err!(e, "bytecode"))?)
     } else {
@@ -648,7 +655,11 @@ fn read_annotation_element_value<'a>(
     bytes: &'a [u8],
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
+    depth: usize,
 ) -> Result<AnnotationElementValue<'a>, ParseError> {
+    if depth > MAX_ELEMENT_VALUE_DEPTH {
+        fail!("Annotation element values are nested too deeply");
+    }
     let value = match read_u1(bytes, ix)? as char {
         'B' => AnnotationElementValue::ByteConstant(read_cp_integer(bytes, ix, pool)?),
         'C' => AnnotationElementValue::CharConstant(read_cp_integer(bytes, ix, pool)?),
@@ -676,13 +687,15 @@ fn read_annotation_element_value<'a>(
             }
             AnnotationElementValue::ClassLiteral { class_name }
         }
-        '@' => AnnotationElementValue::AnnotationValue(read_annotation(bytes, ix, pool)?),
+        '@' => {
+            AnnotationElementValue::AnnotationValue(read_annotation(bytes, ix, pool, depth + 1)?)
+        }
         '[' => {
             let count = read_u2(bytes, ix)?;
             let mut array_values = Vec::with_capacity(count.into());
             for i in 0..count {
                 array_values.push(
-                    read_annotation_element_value(bytes, ix, pool)
+                    read_annotation_element_value(bytes, ix, pool, depth + 1)
                         .map_err(|e| err!(e, "array index {}", i))?,
                 );
             }
@@ -697,6 +710,7 @@ fn read_annotation<'a>(
     bytes: &'a [u8],
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
+    depth: usize,
 ) -> Result<Annotation<'a>, ParseError> {
     let type_descriptor = read_cp_utf8(bytes, ix, pool)
         .and_then(|descriptor| parse_whole_field_descriptor(&descriptor))
@@ -705,7 +719,7 @@ fn read_annotation<'a>(
     let mut elements = Vec::with_capacity(element_count.into());
     for i in 0..element_count {
         let name = read_cp_utf8(bytes, ix, pool).map_err(|e| err!(e, "name of element {}", i))?;
-        let value = read_annotation_element_value(bytes, ix, pool)
+        let value = read_annotation_element_value(bytes, ix, pool, depth)
             .map_err(|e| err!(e, "value of element {}", i))?;
         elements.push(AnnotationElement { name, value });
     }
@@ -724,7 +738,7 @@ fn read_annotation_data<'a>(
     let mut annotations = Vec::with_capacity(count.into());
     for i in 0..count {
         annotations
-            .push(read_annotation(bytes, ix, pool).map_err(|e| err!(e, "annotation {}", i))?);
+            .push(read_annotation(bytes, ix, pool, 0).map_err(|e| err!(e, "annotation {}", i))?);
     }
     Ok(annotations)
 }
@@ -741,7 +755,7 @@ fn read_parameter_annotation_data<'a>(
         let mut annotations = Vec::with_capacity(annotation_count.into());
         for j in 0..annotation_count {
             annotations.push(
-                read_annotation(bytes, ix, pool)
+                read_annotation(bytes, ix, pool, 0)
                     .map_err(|e| err!(e, "annotation {} of parameter {}", j, i))?,
             );
         }
@@ -826,7 +840,7 @@ fn read_type_annotation_data<'a>(
             });
         }
         let annotation =
-            read_annotation(bytes, ix, pool).map_err(|e| err!(e, "type annotation {}", i))?;
+            read_annotation(bytes, ix, pool, 0).map_err(|e| err!(e, "type annotation {}", i))?;
         annotations.push(TypeAnnotation {
             target_type,
             target_path,
@@ -1026,6 +1040,7 @@ fn read_record_data<'a>(
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
     opts: &ParseOptions,
+    depth: usize,
 ) -> Result<Vec<RecordComponentEntry<'a>>, ParseError> {
     let count = read_u2(bytes, ix)?;
     let mut components = Vec::with_capacity(count.into());
@@ -1037,8 +1052,8 @@ fn read_record_data<'a>(
         let descriptor = read_cp_utf8(bytes, ix, pool)
             .and_then(|descriptor| parse_whole_field_descriptor(&descriptor))
             .map_err(|e| err!(e, "descriptor of entry {}", i))?;
-        let attributes =
-            read_attributes(bytes, ix, pool, opts).map_err(|e| err!(e, "entry {}", i))?;
+        let attributes = read_nested_attributes(bytes, ix, pool, opts, depth + 1)
+            .map_err(|e| err!(e, "entry {}", i))?;
         components.push(RecordComponentEntry {
             name,
             descriptor,
@@ -1054,6 +1069,19 @@ pub(crate) fn read_attributes<'a>(
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
     opts: &ParseOptions,
 ) -> Result<Vec<AttributeInfo<'a>>, ParseError> {
+    read_nested_attributes(bytes, ix, pool, opts, 0)
+}
+
+fn read_nested_attributes<'a>(
+    bytes: &'a [u8],
+    ix: &mut usize,
+    pool: &[CafeRc<ConstantPoolEntry<'a>>],
+    opts: &ParseOptions,
+    depth: usize,
+) -> Result<Vec<AttributeInfo<'a>>, ParseError> {
+    if depth > MAX_ATTRIBUTE_DEPTH {
+        fail!("Attributes are nested too deeply");
+    }
     let count = read_u2(bytes, ix)?;
     let mut attributes = Vec::with_capacity(count.into());
     for i in 0..count {
@@ -1076,7 +1104,7 @@ pub(crate) fn read_attributes<'a>(
                 )
             }
             "Code" => {
-                let code_data = read_code_data(bytes, ix, pool, opts)
+                let code_data = read_code_data(bytes, ix, pool, opts, depth)
                     .map_err(|e| err!(e, "Code attribute {}", i))?;
                 AttributeData::Code(code_data)
             }
@@ -1183,7 +1211,7 @@ pub(crate) fn read_attributes<'a>(
                 AttributeData::RuntimeInvisibleTypeAnnotations(annotation_data)
             }
             "AnnotationDefault" => {
-                let element_value = read_annotation_element_value(bytes, ix, pool)
+                let element_value = read_annotation_element_value(bytes, ix, pool, 0)
                     .map_err(|e| err!(e, "AnnotationDefault attribute {}", i))?;
                 AttributeData::AnnotationDefault(element_value)
             }
@@ -1230,7 +1258,7 @@ pub(crate) fn read_attributes<'a>(
                 AttributeData::PermittedSubclasses(permitted_subclasses_data)
             }
             "Record" => {
-                let record_data = read_record_data(bytes, ix, pool, opts)
+                let record_data = read_record_data(bytes, ix, pool, opts, depth)
                     .map_err(|e| err!(e, "Record attribute {}", i))?;
                 AttributeData::Record(record_data)
             }
-- 
2.43.0


From 373bc281e55220c5ffc43b8a2a5ea04a30d0f48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 11/12] Add lock event tracing behind the verif-hooks feature

---
 Cargo.toml           |   2 +
 src/constant_pool.rs |   4 +-
 src/lib.rs           |   2 +
 src/verif_hooks.rs   | 120 +++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 127 insertions(+), 1 deletion(-)
 create mode 100644 src/verif_hooks.rs

diff --git a/Cargo.toml b/Cargo.toml
index 90db2cf..a212dd6 100644
--- a/Cargo.toml
+++ b/Cargo.toml
@@ -19,6 +19,8 @@ maintenance = { status = "passively-maintained" }
 [features]
 default = []
 threadsafe = []
+# Lock event tracing for verification; not for normal use.
+verif-hooks = ["threadsafe"]
 
 [dependencies]
 bitflags = "1.0"
diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index e012411..d2094e4 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -4,7 +4,7 @@ use std::cell::RefCell;
 use std::ops::Deref;
 #[cfg(feature = "threadsafe")]
 use std::ops::DerefMut;
-#[cfg(feature = "threadsafe")]
+#[cfg(all(feature = "threadsafe", not(feature = "verif-hooks")))]
 use std::sync::Mutex;
 
 use crate::descriptors::FieldDescriptor;
@@ -14,6 +14,8 @@ use crate::descriptors::{
 use crate::names::{
     is_binary_name, is_module_name, is_unqualified_method_name, is_unqualified_name,
 };
+#[cfg(feature = "verif-hooks")]
+use crate::verif_hooks::TracedMutex as Mutex;
 use crate::{read_u1, read_u2, read_u4, read_u8, CafeRc, ParseError};
 
 #[cfg(not(feature = "threadsafe"))]
diff --git a/src/lib.rs b/src/lib.rs
index 9c9ac9f..6866ec7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -14,6 +14,8 @@ pub mod bytecode;
 pub mod constant_pool;
 pub mod descriptors;
 pub mod names;
+#[cfg(feature = "verif-hooks")]
+pub mod verif_hooks;
 
 use std::borrow::Cow;
 use std::collections::HashSet;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..14aaa92
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,120 @@
+//! Lock event tracing, only compiled with the `verif-hooks` feature.
+//!
+//! [TracedMutex] stands in for the mutex in the thread-safe constant pool cells and
+//! reports what happens to it to a listener installed on the current thread.
+
+use std::cell::RefCell;
+use std::ops::{Deref, DerefMut};
+use std::sync::{LockResult, Mutex, MutexGuard, PoisonError, TryLockError, TryLockResult};
+
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum LockEvent {
+    /// The thread is about to acquire the lock (and may have to wait for it).
+    Want,
+    /// The thread has acquired the lock.
+    Acquired,
+    /// The thread has released the lock.
+    Released,
+}
+
+type Listener = Box<dyn FnMut(LockEvent, usize)>;
+
+thread_local! {
+    static LISTENER: RefCell<Option<Listener>> = RefCell::new(None);
+}
+
+/// Installs the listener of the current thread. It is called with an event and the
+/// identity (the address) of the lock.
+pub fn set_listener(listener: Option<Listener>) {
+    LISTENER.with(|l| *l.borrow_mut() = listener);
+}
+
+fn notify(event: LockEvent, id: usize) {
+    LISTENER.with(|l| {
+        if let Some(f) = l.borrow_mut().as_mut() {
+            f(event, id);
+        }
+    });
+}
+
+#[derive(Debug, Default)]
+pub struct TracedMutex<T> {
+    inner: Mutex<T>,
+}
+
+#[derive(Debug)]
+pub struct TracedMutexGuard<'m, T> {
+    guard: Option<MutexGuard<'m, T>>,
+    id: usize,
+}
+
+impl<T> TracedMutex<T> {
+    pub fn new(value: T) -> Self {
+        TracedMutex {
+            inner: Mutex::new(value),
+        }
+    }
+
+    fn id(&self) -> usize {
+        self as *const Self as usize
+    }
+
+    fn acquired<'m>(&self, guard: MutexGuard<'m, T>) -> TracedMutexGuard<'m, T> {
+        notify(LockEvent::Acquired, self.id());
+        TracedMutexGuard {
+            guard: Some(guard),
+            id: self.id(),
+        }
+    }
+
+    pub fn lock(&self) -> LockResult<TracedMutexGuard<'_, T>> {
+        notify(LockEvent::Want, self.id());
+        match self.inner.lock() {
+            Ok(guard) => Ok(self.acquired(guard)),
+            Err(e) => Err(PoisonError::new(self.acquired(e.into_inner()))),
+        }
+    }
+
+    pub fn try_lock(&self) -> TryLockResult<TracedMutexGuard<'_, T>> {
+        match self.inner.try_lock() {
+            Ok(guard) => Ok(self.acquired(guard)),
+            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(
+                self.acquired(e.into_inner()),
+            ))),
+            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+        }
+    }
+
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.inner.get_mut()
+    }
+
+    pub fn into_inner(self) -> LockResult<T> {
+        self.inner.into_inner()
+    }
+
+    pub fn is_poisoned(&self) -> bool {
+        self.inner.is_poisoned()
+    }
+}
+
+impl<T> Deref for TracedMutexGuard<'_, T> {
+    type Target = T;
+
+    fn deref(&self) -> &T {
+        self.guard.as_ref().unwrap()
+    }
+}
+
+impl<T> DerefMut for TracedMutexGuard<'_, T> {
+    fn deref_mut(&mut self) -> &mut T {
+        self.guard.as_mut().unwrap()
+    }
+}
+
+impl<T> Drop for TracedMutexGuard<'_, T> {
+    fn drop(&mut self) {
+        self.guard = None;
+        notify(LockEvent::Released, self.id);
+    }
+}
-- 
2.43.0


From 595b22088f137bab11c4888c621dfbca29c36134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:23 +0000
Subject: [PATCH 12/12] Announce attempts to acquire a lock without waiting,
 behind the verif-hooks feature

---
 src/verif_hooks.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index 14aaa92..428d354 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -11,6 +11,8 @@ use std::sync::{LockResult, Mutex, MutexGuard, PoisonError, TryLockError, TryLoc
 pub enum LockEvent {
     /// The thread is about to acquire the lock (and may have to wait for it).
     Want,
+    /// The thread is about to acquire the lock if it is free (and will not wait for it).
+    Try,
     /// The thread has acquired the lock.
     Acquired,
     /// The thread has released the lock.
@@ -76,6 +78,7 @@ impl<T> TracedMutex<T> {
     }
 
     pub fn try_lock(&self) -> TryLockResult<TracedMutexGuard<'_, T>> {
+        notify(LockEvent::Try, self.id());
         match self.inner.try_lock() {
             Ok(guard) => Ok(self.acquired(guard)),
             Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(
-- 
2.43.0

