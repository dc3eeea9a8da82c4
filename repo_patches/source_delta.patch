From 7112c5695b835c80e48d07e9a948c053335d7cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:22 +0000
Subject: [PATCH 01/44] fix: report truncated string and byte padding instead
 of panicking

---
 serde-xdr/src/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde-xdr/src/de.rs b/serde-xdr/src/de.rs
index 8f748f2..b4a8f71 100644
--- a/serde-xdr/src/de.rs
+++ b/serde-xdr/src/de.rs
@@ -88,7 +88,7 @@ impl<'de> Deserializer<'de> {
         let v = self.read(size)?;
         let v = str::from_utf8(v)?;
         if padding_size < 4 {
-            self.input = &self.input[padding_size..];
+            self.read(padding_size)?;
         }
         Ok(v)
     }
@@ -99,7 +99,7 @@ impl<'de> Deserializer<'de> {
 
         let v = self.read(size)?;
         if padding_size < 4 {
-            self.input = &self.input[padding_size..];
+            self.read(padding_size)?;
         }
         Ok(v)
     }
-- 
2.43.0


From 47b2d942ca0daba1920716d8c229f4c112fa6a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:23 +0000
Subject: [PATCH 02/44] fix: do not allocate the claimed size of opaque data up
 front

---
 serde-xdr/src/opaque.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/serde-xdr/src/opaque.rs b/serde-xdr/src/opaque.rs
index b2bf25c..22a479e 100644
--- a/serde-xdr/src/opaque.rs
+++ b/serde-xdr/src/opaque.rs
@@ -69,21 +69,19 @@ where
 {
     let size = seq.size_hint().unwrap();
 
-    let mut bytes = vec![0u8; size];
+    // `size` is read from the input, so only allocate for the data actually present.
+    let mut bytes = Vec::with_capacity(size.min(4096));
     let padded_len = size.div_ceil(4);
 
-    let mut idx = 0;
     for _ in 0..padded_len {
         if let Some(v) = seq.next_element::<u32>()? {
-            for b in v.to_be_bytes() {
-                if idx < size {
-                    bytes[idx] = b;
-                    idx += 1;
-                }
-            }
+            let rest = size - bytes.len();
+            bytes.extend_from_slice(&v.to_be_bytes()[..rest.min(4)]);
         }
     }
 
+    bytes.resize(size, 0);
+
     Ok(bytes)
 }
 
-- 
2.43.0


From ad7b39991912a2a4b73f3bb4922c8d1057c4b05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:24 +0000
Subject: [PATCH 03/44] fix: reject lengths which do not fit in 32 bits instead
 of truncating them

---
 serde-xdr/src/ser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/serde-xdr/src/ser.rs b/serde-xdr/src/ser.rs
index 81a5946..54818bf 100644
--- a/serde-xdr/src/ser.rs
+++ b/serde-xdr/src/ser.rs
@@ -89,7 +89,7 @@ impl ser::Serializer for &mut Serializer {
     fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok, Self::Error> {
         let size = v.len();
         let padding_size = 4 - size % 4;
-        self.serialize_u32(size as u32)?;
+        self.serialize_u32(size.try_into()?)?;
         self.output.extend_from_slice(v);
         if padding_size < 4 {
             let mut padding = vec![0u8; padding_size];
@@ -155,7 +155,7 @@ impl ser::Serializer for &mut Serializer {
 
     fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
         let size = len.ok_or(Error::NotSupported)?;
-        self.serialize_u32(size as u32)?;
+        self.serialize_u32(size.try_into()?)?;
         Ok(self)
     }
 
@@ -184,7 +184,7 @@ impl ser::Serializer for &mut Serializer {
 
     fn serialize_map(self, len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         let size = len.ok_or(Error::NotSupported)?;
-        self.serialize_u32(size as u32)?;
+        self.serialize_u32(size.try_into()?)?;
         Ok(self)
     }
 
-- 
2.43.0


From b4042fdf43a4367f194554d971d88886a7011b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:46 +0000
Subject: [PATCH 04/44] fix: do not require Serialize of opaque data, which
 arrays over 32 bytes lack

---
 serde-xdr/src/opaque.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/serde-xdr/src/opaque.rs b/serde-xdr/src/opaque.rs
index 22a479e..83f6f41 100644
--- a/serde-xdr/src/opaque.rs
+++ b/serde-xdr/src/opaque.rs
@@ -87,11 +87,11 @@ where
 
 pub mod fixed {
     use serde::de::Deserializer;
-    use serde::ser::{Serialize, SerializeTuple, Serializer};
+    use serde::ser::{SerializeTuple, Serializer};
 
     pub fn serialize<T, S>(value: &T, serializer: S) -> Result<S::Ok, S::Error>
     where
-        T: Serialize + AsRef<[u8]>,
+        T: AsRef<[u8]>,
         S: Serializer,
     {
         let mut buf = value.as_ref().to_vec();
@@ -116,11 +116,11 @@ pub mod fixed {
 
 pub mod variable {
     use serde::de::Deserializer;
-    use serde::ser::{Serialize, SerializeSeq, Serializer};
+    use serde::ser::{SerializeSeq, Serializer};
 
     pub fn serialize<T, S>(value: &T, serializer: S) -> Result<S::Ok, S::Error>
     where
-        T: Serialize + AsRef<[u8]>,
+        T: AsRef<[u8]>,
         S: Serializer,
     {
         let mut buf = value.as_ref().to_vec();
-- 
2.43.0


From ca3e731762dd70c744d1e0c48005b4786fc61abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 05/44] fix: parse members whose type name begins with void

---
 rpcgen/src/parser.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index b178a94..6760656 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -8,7 +8,7 @@ use nom::{
         alpha1, alphanumeric1, digit1, hex_digit1, line_ending, multispace0, multispace1,
         not_line_ending, oct_digit1, one_of,
     },
-    combinator::{map, opt, peek, recognize, verify},
+    combinator::{map, not, opt, peek, recognize, verify},
     multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, terminated},
 };
@@ -499,7 +499,7 @@ fn decimal_nonzero(input: &str) -> IResult<&str, Constant> {
 fn declaration(input: &str) -> IResult<&str, Declaration> {
     // 優先度順に並べる。
     alt((
-        map(tag("void"), |_| Declaration::void()),
+        map(word("void"), |_| Declaration::void()),
         map(
             (
                 preceded((tag("opaque"), multispace1), identifier),
@@ -775,6 +775,12 @@ fn value(input: &str) -> IResult<&str, Value> {
     .parse(input)
 }
 
+fn word<'a>(
+    w: &'static str,
+) -> impl Parser<&'a str, Output = &'a str, Error = nom::error::Error<&'a str>> {
+    terminated(tag(w), not(alt((alphanumeric1, tag("_")))))
+}
+
 fn program(input: &str) -> IResult<&str, Program> {
     map(
         (
-- 
2.43.0


From 5de229df1606b7ed6a98f960579379840731ab74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 06/44] fix: end base types at the end of the word instead of
 requiring white space

---
 rpcgen/src/parser.rs | 74 +++++++++++---------------------------------
 1 file changed, 18 insertions(+), 56 deletions(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index 6760656..a73397b 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -8,7 +8,7 @@ use nom::{
         alpha1, alphanumeric1, digit1, hex_digit1, line_ending, multispace0, multispace1,
         not_line_ending, oct_digit1, one_of,
     },
-    combinator::{map, not, opt, peek, recognize, verify},
+    combinator::{map, not, opt, recognize, verify},
     multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, terminated},
 };
@@ -667,67 +667,29 @@ fn type_def(input: &str) -> IResult<&str, TypeDef> {
 
 fn type_specifier(input: &str) -> IResult<&str, TypeSpecifier> {
     alt((
-        map(
-            (
-                tag("unsigned"),
-                multispace1,
-                terminated(tag("int"), peek(multispace1)),
-            ),
-            |_| TypeSpecifier::Int(false),
-        ),
-        map(terminated(tag("int"), peek(multispace1)), |_| {
-            TypeSpecifier::Int(true)
+        map((tag("unsigned"), multispace1, word("int")), |_| {
+            TypeSpecifier::Int(false)
         }),
-        map(
-            (
-                tag("unsigned"),
-                multispace1,
-                terminated(tag("hyper"), peek(multispace1)),
-            ),
-            |_| TypeSpecifier::Hyper(false),
-        ),
-        map(terminated(tag("hyper"), peek(multispace1)), |_| {
-            TypeSpecifier::Hyper(true)
+        map(word("int"), |_| TypeSpecifier::Int(true)),
+        map((tag("unsigned"), multispace1, word("hyper")), |_| {
+            TypeSpecifier::Hyper(false)
         }),
+        map(word("hyper"), |_| TypeSpecifier::Hyper(true)),
         // start (libvirt extenstion)
-        map(
-            (
-                tag("unsigned"),
-                multispace1,
-                terminated(tag("char"), peek(multispace1)),
-            ),
-            |_| TypeSpecifier::Char(false),
-        ),
-        map(terminated(tag("char"), peek(multispace1)), |_| {
-            TypeSpecifier::Char(true)
+        map((tag("unsigned"), multispace1, word("char")), |_| {
+            TypeSpecifier::Char(false)
         }),
-        map(
-            (
-                tag("unsigned"),
-                multispace1,
-                terminated(tag("short"), peek(multispace1)),
-            ),
-            |_| TypeSpecifier::Short(false),
-        ),
-        map(terminated(tag("short"), peek(multispace1)), |_| {
-            TypeSpecifier::Short(true)
-        }),
-        map(terminated(tag("unsigned"), peek(multispace1)), |_| {
-            TypeSpecifier::Int(false)
+        map(word("char"), |_| TypeSpecifier::Char(true)),
+        map((tag("unsigned"), multispace1, word("short")), |_| {
+            TypeSpecifier::Short(false)
         }),
+        map(word("short"), |_| TypeSpecifier::Short(true)),
+        map(word("unsigned"), |_| TypeSpecifier::Int(false)),
         // end (libvirt extenstion)
-        map(terminated(tag("float"), peek(multispace1)), |_| {
-            TypeSpecifier::Float
-        }),
-        map(terminated(tag("double"), peek(multispace1)), |_| {
-            TypeSpecifier::Double
-        }),
-        map(terminated(tag("quadruple"), peek(multispace1)), |_| {
-            TypeSpecifier::Quadruple
-        }),
-        map(terminated(tag("bool"), peek(multispace1)), |_| {
-            TypeSpecifier::Bool
-        }),
+        map(word("float"), |_| TypeSpecifier::Float),
+        map(word("double"), |_| TypeSpecifier::Double),
+        map(word("quadruple"), |_| TypeSpecifier::Quadruple),
+        map(word("bool"), |_| TypeSpecifier::Bool),
         map(enum_type_spec, TypeSpecifier::enum_type),
         map(struct_type_spec, TypeSpecifier::struct_type),
         map(union_type_spec, TypeSpecifier::union_type),
-- 
2.43.0


From 373f376accb151d4c33ae9effb94dd5aec4f9724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 07/44] fix: accept files with nothing but comments and white
 space

---
 rpcgen/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index a73397b..94daab0 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -607,7 +607,7 @@ fn octal(input: &str) -> IResult<&str, Constant> {
 }
 
 fn specification(input: &str) -> IResult<&str, Vec<Definition>> {
-    many0(delimited(comment0, definition, comment0)).parse(input)
+    terminated(many0(delimited(comment0, definition, comment0)), comment0).parse(input)
 }
 
 fn struct_body(input: &str) -> IResult<&str, Vec<Declaration>> {
-- 
2.43.0


From bb932223ad2e22a613dcf6eb9b1a32ffffbcfad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 08/44] fix: accept white space between the versions of a
 program

---
 rpcgen/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index 94daab0..94524c7 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -749,7 +749,7 @@ fn program(input: &str) -> IResult<&str, Program> {
             preceded((tag("program"), multispace1), identifier),
             delimited(
                 (multispace0, tag("{"), multispace0),
-                many1(version),
+                many1(terminated(version, multispace0)),
                 (multispace0, tag("}"), multispace0),
             ),
             delimited((tag("="), multispace0), value, (multispace0, tag(";"))),
-- 
2.43.0


From 6cadcc49c4acf92c6a51c52fc9cccd06191401eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 09/44] fix: decode derived unions whose variants have more
 than nine fields

---
 serde-xdr-derive/src/lib.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/serde-xdr-derive/src/lib.rs b/serde-xdr-derive/src/lib.rs
index 360cc0c..97fcfb5 100644
--- a/serde-xdr-derive/src/lib.rs
+++ b/serde-xdr-derive/src/lib.rs
@@ -8,6 +8,15 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
 
     let ident = &ast.ident;
 
+    // the discriminant and the fields of the longest variant.
+    let len = ast
+        .variants
+        .iter()
+        .map(|v| v.fields.len())
+        .max()
+        .unwrap_or(0)
+        + 1;
+
     let mut ser_match_arms = vec![];
     let mut de_match_arms = vec![];
     for variant in ast.variants.iter() {
@@ -105,7 +114,7 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
                     }
                 }
 
-                deserializer.deserialize_tuple(10, XdrIndexerVisitor)
+                deserializer.deserialize_tuple(#len, XdrIndexerVisitor)
             }
         }
     };
@@ -119,6 +128,14 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
 
     let ident = &ast.ident;
 
+    // the fields of the longest variant including the discriminant.
+    let len = ast
+        .variants
+        .iter()
+        .map(|v| v.fields.len())
+        .max()
+        .unwrap_or(0);
+
     let mut ser_match_arms = vec![];
     let mut de_match_arms = vec![];
     let mut value_ty: Option<Type> = None;
@@ -228,7 +245,7 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
                     }
                 }
 
-                deserializer.deserialize_tuple(10, XdrUnionVisitor)
+                deserializer.deserialize_tuple(#len, XdrUnionVisitor)
             }
         }
     };
-- 
2.43.0


From f64fb888f9814d2e296e0bdebd55c47ea0c0a082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 10/44] fix: report void struct members as not supported
 instead of panicking

---
 rpcgen/src/gen_code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index c518714..cadbca1 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -384,7 +384,7 @@ fn convert_struct_token(
 
     let struct_type = Some(TypeSpecifier::Identifier(name.to_string()));
     for declaration in declarations {
-        let mut field_name = declaration.name().unwrap().to_string();
+        let mut field_name = declaration.name().ok_or(Error::NotSupported)?.to_string();
         let (mut ty, opaque) = convert_type_token(declaration, cxt)?.ok_or(Error::NotSupported)?;
 
         let derive = match opaque {
-- 
2.43.0


From 3e42dbb34ded64800244b69b18d66f42d4006c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 11/44] fix: report unions without any usable arm as not
 supported instead of panicking

---
 rpcgen/src/gen_code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index cadbca1..92ddde9 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -679,7 +679,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
         quote! { #[derive(Clone, Debug, Deserialize, Serialize)] }
     };
 
-    let default_value = default_value.unwrap();
+    let default_value = default_value.ok_or(Error::NotSupported)?;
     Ok(quote! {
         #derive
         pub enum #name_ident {
-- 
2.43.0


From bf02dc2205e711de2d67c654b99c7252b5a204fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 12/44] fix: do not overflow after the largest enumerator or
 case number

---
 rpcgen/src/gen_code.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 92ddde9..088a1bb 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -285,7 +285,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
             default_value = Some(quote! { #item_ident });
         }
 
-        start = end + 1;
+        start = end.saturating_add(1);
     }
 
     let as_ref = if cxt.config.enum_impl_std_trait {
@@ -497,7 +497,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     });
                 }
 
-                sindex = eindex + 1;
+                sindex = eindex.saturating_add(1);
 
                 xdr_union_cond_type = Some(tmp_type);
             }
-- 
2.43.0


From f7a103981651b343071a368e983bc8ca555c5e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 13/44] fix: resolve named constants and array sizes instead of
 copying the name

A name may stand for an enumerator or a 64-bit constant, or be undefined, and
a bare constant is no usize, so the generated code did not compile.
---
 rpcgen/src/gen_code.rs | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 088a1bb..d804764 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -185,13 +185,13 @@ fn constants_token(cxt: &Context) -> Result<Vec<TokenStream>, Error> {
 
     for (name, value) in &cxt.constants {
         let name_ident = format_ident!("{}", name);
-        let (value_token, ty) = match convert_value_token::<u32>(value, false) {
-            Ok(v) => Ok((v, quote! { u32 })),
-            Err(_) => match convert_value_token::<u64>(value, false) {
-                Ok(v) => Ok((v, quote! { u64 })),
-                Err(e) => Err(e),
-            },
-        }?;
+        let (value_token, ty) = match cxt.resolve_value::<u32>(value) {
+            Ok(v) => (quote! { #v }, quote! { u32 }),
+            Err(_) => {
+                let v = cxt.resolve_value::<u64>(value)?;
+                (quote! { #v }, quote! { u64 })
+            }
+        };
         results.push(quote! {
             pub const #name_ident: #ty = #value_token;
         });
@@ -698,7 +698,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     })
 }
 
-fn convert_value_token<'a, T>(value: &'a Value, cnv: bool) -> Result<TokenStream, Error>
+fn convert_value_token<'a, T>(value: &'a Value) -> Result<TokenStream, Error>
 where
     T: TryFrom<&'a Constant> + ToTokens,
 {
@@ -708,11 +708,7 @@ where
             Ok(quote! { #v })
         }
         Value::Identifier(i) => {
-            let v = if cnv {
-                upper_camel_case_ident(i)
-            } else {
-                format_ident!("{}", i)
-            };
+            let v = upper_camel_case_ident(i);
             Ok(quote! { #v })
         }
     }
@@ -729,7 +725,7 @@ fn convert_type_token(
         }
         Declaration::FixedArray(type_specifier, _, value) => {
             let (ty, opaque) = convert_primitive_token(type_specifier, cxt)?;
-            let len = convert_value_token::<usize>(value, false)?;
+            let len = cxt.resolve_value::<usize>(value)?;
             Ok(Some((quote! { [#ty; #len] }, opaque)))
         }
         Declaration::VariableArray(type_specifier, _, _) => {
@@ -745,8 +741,8 @@ fn convert_type_token(
             }
         }
         Declaration::OpaqueFixedArray(_, value) => {
-            let len = convert_value_token::<usize>(value, false)?;
-            Ok(Some((quote! { [u8; #len as usize] }, OpaqueType::Fixed)))
+            let len = cxt.resolve_value::<usize>(value)?;
+            Ok(Some((quote! { [u8; #len] }, OpaqueType::Fixed)))
         }
         Declaration::OpaqueVariableArray(_, _) => {
             Ok(Some((quote! { Vec<u8> }, OpaqueType::Variable)))
@@ -815,7 +811,7 @@ fn convert_case_token(
     ),
     Error,
 > {
-    let value = convert_value_token::<u32>(value, true)?;
+    let value = convert_value_token::<u32>(value)?;
     let cond_type = match convert_primitive_token(cond_type_spec, cxt) {
         Ok((ty, _)) => ty,
         _ => {
-- 
2.43.0


From 2ed728e7f50aabf48898d887cda76125c5e14cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 14/44] fix: report cyclic constants, enumerators and typedefs
 instead of recursing without end

---
 rpcgen/src/gen_code.rs | 59 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 58 insertions(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index d804764..0756c8f 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -177,7 +177,64 @@ fn setup_context(definitions: &[Definition], cxt: &mut Context) -> Result<(), Er
         }
     }
 
-    Ok(())
+    check_cycle(value_references(cxt))?;
+    check_cycle(typedef_references(cxt))
+}
+
+fn value_references(cxt: &Context) -> Vec<(&str, &str)> {
+    let constants = cxt.constants.iter().map(|(name, value)| (name, value));
+    let enumerators = cxt
+        .typedefs
+        .iter()
+        .filter_map(|(_, typedef)| match typedef {
+            TypeDef::Enum(_, assigns) => Some(assigns),
+            _ => None,
+        })
+        .flatten()
+        .map(|a| (&a.identifier, &a.value));
+
+    constants
+        .chain(enumerators)
+        .filter_map(|(name, value)| match value {
+            Value::Identifier(to) => Some((name.as_str(), to.as_str())),
+            _ => None,
+        })
+        .collect()
+}
+
+fn typedef_references(cxt: &Context) -> Vec<(&str, &str)> {
+    cxt.typedefs
+        .iter()
+        .filter_map(|(name, typedef)| match typedef {
+            TypeDef::Declaration(
+                Declaration::Variable(TypeSpecifier::Identifier(to), _)
+                | Declaration::FixedArray(TypeSpecifier::Identifier(to), _, _)
+                | Declaration::VariableArray(TypeSpecifier::Identifier(to), _, _)
+                | Declaration::OptionVariable(TypeSpecifier::Identifier(to), _),
+            ) => Some((name.as_str(), to.as_str())),
+            _ => None,
+        })
+        .collect()
+}
+
+fn check_cycle(mut references: Vec<(&str, &str)>) -> Result<(), Error> {
+    loop {
+        // drop the references which end at a definition without a reference.
+        let rest: Vec<_> = references
+            .iter()
+            .filter(|(_, to)| references.iter().any(|(from, _)| from == to))
+            .copied()
+            .collect();
+
+        if rest.len() == references.len() {
+            return match rest.first() {
+                Some((name, _)) => Err(Error::NotFountIdentifier(name.to_string())),
+                _ => Ok(()),
+            };
+        }
+
+        references = rest;
+    }
 }
 
 fn constants_token(cxt: &Context) -> Result<Vec<TokenStream>, Error> {
-- 
2.43.0


From 465f013d180e0c500c92f21b5633d3671ccab519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 15/44] fix: escape every generated name which is no Rust
 identifier

Keywords were looked up before the conversion to snake case and for fields
only, self, super, crate and Self can not be raw identifiers, and names of
underscores and digits alone panicked.
---
 rpcgen/src/gen_code.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 0756c8f..0a6dcdd 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -241,7 +241,7 @@ fn constants_token(cxt: &Context) -> Result<Vec<TokenStream>, Error> {
     let mut results = vec![];
 
     for (name, value) in &cxt.constants {
-        let name_ident = format_ident!("{}", name);
+        let name_ident = rust_ident(name);
         let (value_token, ty) = match cxt.resolve_value::<u32>(value) {
             Ok(v) => (quote! { #v }, quote! { u32 }),
             Err(_) => {
@@ -441,7 +441,7 @@ fn convert_struct_token(
 
     let struct_type = Some(TypeSpecifier::Identifier(name.to_string()));
     for declaration in declarations {
-        let mut field_name = declaration.name().ok_or(Error::NotSupported)?.to_string();
+        let field_name = declaration.name().ok_or(Error::NotSupported)?;
         let (mut ty, opaque) = convert_type_token(declaration, cxt)?.ok_or(Error::NotSupported)?;
 
         let derive = match opaque {
@@ -458,11 +458,7 @@ fn convert_struct_token(
             }
         };
 
-        if keyword::rust_reserved(&field_name) {
-            field_name = format!("r#{field_name}");
-        }
-
-        let field_name_ident = snake_case_ident(&field_name);
+        let field_name_ident = snake_case_ident(field_name);
 
         if struct_type == declaration.type_specifier() {
             // TODO: Add nested structure support.
@@ -970,7 +966,7 @@ fn upper_camel_case(value: &str) -> String {
 }
 
 fn upper_camel_case_ident(value: &str) -> Ident {
-    format_ident!("{}", upper_camel_case(value))
+    rust_ident(&upper_camel_case(value))
 }
 
 fn capitalize(value: &str) -> String {
@@ -984,6 +980,17 @@ fn capitalize(value: &str) -> String {
         .collect()
 }
 
+fn rust_ident(name: &str) -> Ident {
+    match name {
+        "" | "_" => format_ident!("__"),
+        // these can not be raw identifiers.
+        "crate" | "self" | "super" | "Self" => format_ident!("{}_", name),
+        _ if keyword::rust_reserved(name) => format_ident!("r#{}", name),
+        _ if name.starts_with(char::is_numeric) => format_ident!("_{}", name),
+        _ => format_ident!("{}", name),
+    }
+}
+
 fn snake_case(value: &str) -> String {
     let capitalized = value
         .split_inclusive(|c| char::is_lowercase(c) || char::is_numeric(c))
@@ -1023,7 +1030,7 @@ fn snake_case(value: &str) -> String {
 }
 
 fn snake_case_ident(value: &str) -> Ident {
-    format_ident!("{}", snake_case(value))
+    rust_ident(&snake_case(value))
 }
 
 fn with_underscore(value: &str) -> String {
-- 
2.43.0


From 06bd8937dfbee5bf1bcac9ae4b93abc54086c48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 16/44] fix: keep opaque data opaque in every union arm

Fixed-length opaque arms of XdrIndexer and XdrUnion unions got a length, and
opaque default arms were encoded as arrays of numbers.
---
 rpcgen/src/gen_code.rs  | 54 +++++++++++++++++++++++++++--------------
 serde-xdr/src/opaque.rs | 12 +++++++++
 2 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 0a6dcdd..6cfbb2c 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -106,7 +106,7 @@ impl Context {
 #[derive(Clone, Debug, PartialEq)]
 enum OpaqueType {
     None,
-    Fixed,
+    Fixed(usize),
     Variable,
 }
 
@@ -445,7 +445,7 @@ fn convert_struct_token(
         let (mut ty, opaque) = convert_type_token(declaration, cxt)?.ok_or(Error::NotSupported)?;
 
         let derive = match opaque {
-            OpaqueType::Fixed => quote! { #[serde(with = "serde_xdr::opaque::fixed")] },
+            OpaqueType::Fixed(_) => quote! { #[serde(with = "serde_xdr::opaque::fixed")] },
             OpaqueType::Variable => quote! { #[serde(with = "serde_xdr::opaque::variable")] },
             _ => {
                 if cxt.config.enum_impl_std_trait
@@ -634,15 +634,17 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     }
 
     if let Some(default) = &body.default {
-        if let Some((v_ty, _)) = convert_type_token(default, cxt)? {
+        if let Some((derive, v_ty)) = convert_arm_token(default, cxt)? {
             if cxt.config.union_impl_union {
                 specs.push(quote! {
+                    #derive
                     Default(#xdr_union_cond_type, #v_ty)
                 });
 
                 default_value = Some(quote! { Default(Default::default(), Default::default()) });
             } else {
                 specs.push(quote! {
+                    #derive
                     Default(#v_ty)
                 });
 
@@ -795,7 +797,7 @@ fn convert_type_token(
         }
         Declaration::OpaqueFixedArray(_, value) => {
             let len = cxt.resolve_value::<usize>(value)?;
-            Ok(Some((quote! { [u8; #len] }, OpaqueType::Fixed)))
+            Ok(Some((quote! { [u8; #len] }, OpaqueType::Fixed(len))))
         }
         Declaration::OpaqueVariableArray(_, _) => {
             Ok(Some((quote! { Vec<u8> }, OpaqueType::Variable)))
@@ -849,6 +851,35 @@ fn convert_primitive_token(
     }
 }
 
+fn convert_arm_token(
+    declaration: &Declaration,
+    cxt: &Context,
+) -> Result<Option<(TokenStream, TokenStream)>, Error> {
+    let Some((v_ty, opaque)) = convert_type_token(declaration, cxt)? else {
+        return Ok(None);
+    };
+
+    if !cxt.config.union_complement_index() {
+        // XdrIndexer を使用する場合は serde 属性が使用できないのでラッパオブジェクトを使用する。
+        return Ok(Some((quote! {}, convert_opaque_token(v_ty, opaque))));
+    }
+
+    let derive = match opaque {
+        OpaqueType::Fixed(_) => quote! { #[serde(with = "serde_xdr::opaque::fixed")] },
+        OpaqueType::Variable => quote! { #[serde(with = "serde_xdr::opaque::variable")] },
+        _ => quote! {},
+    };
+    Ok(Some((derive, v_ty)))
+}
+
+fn convert_opaque_token(ty: TokenStream, opaque: OpaqueType) -> TokenStream {
+    match opaque {
+        OpaqueType::Fixed(len) => quote! { serde_xdr::opaque::FixedArray<#len> },
+        OpaqueType::Variable => quote! { serde_xdr::opaque::VariableArray },
+        OpaqueType::None => ty,
+    }
+}
+
 fn convert_case_token(
     value: &Value,
     declaration: &Declaration,
@@ -877,20 +908,7 @@ fn convert_case_token(
         }
     };
 
-    let decl = convert_type_token(declaration, cxt)?;
-    if let Some((mut v_ty, opaque)) = decl {
-        let derive = if opaque != OpaqueType::None && !cxt.config.union_complement_index() {
-            // XdrIndexer を使用する場合は serde 属性が使用できないのでラッパオブジェクトを使用する。
-            v_ty = quote! { serde_xdr::opaque::VariableArray };
-            quote! {}
-        } else {
-            match opaque {
-                OpaqueType::Fixed => quote! { #[serde(with = "serde_xdr::opaque::fixed")] },
-                OpaqueType::Variable => quote! { #[serde(with = "serde_xdr::opaque::variable")] },
-                _ => quote! {},
-            }
-        };
-
+    if let Some((derive, v_ty)) = convert_arm_token(declaration, cxt)? {
         let value_token = if cxt.config.union_impl_union {
             quote! {
                 #derive
diff --git a/serde-xdr/src/opaque.rs b/serde-xdr/src/opaque.rs
index 83f6f41..7b86a9b 100644
--- a/serde-xdr/src/opaque.rs
+++ b/serde-xdr/src/opaque.rs
@@ -9,6 +9,18 @@ pub struct VariableArray {
     pub data: Vec<u8>,
 }
 
+#[derive(Clone, Debug, Deserialize, PartialEq, Serialize)]
+pub struct FixedArray<const N: usize> {
+    #[serde(with = "fixed")]
+    pub data: [u8; N],
+}
+
+impl<const N: usize> Default for FixedArray<N> {
+    fn default() -> Self {
+        FixedArray { data: [0; N] }
+    }
+}
+
 struct OpaqueVisitor<T> {
     marker: PhantomData<T>,
 }
-- 
2.43.0


From bb791551e1db42e9a8c19c29cd5e903d0e3af77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 17/44] fix: wrap the opaque elements of arrays, lists and
 optional data

---
 rpcgen/src/gen_code.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 6cfbb2c..bccf4e1 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -781,19 +781,13 @@ fn convert_type_token(
         Declaration::FixedArray(type_specifier, _, value) => {
             let (ty, opaque) = convert_primitive_token(type_specifier, cxt)?;
             let len = cxt.resolve_value::<usize>(value)?;
-            Ok(Some((quote! { [#ty; #len] }, opaque)))
+            let ty = convert_opaque_token(ty, opaque);
+            Ok(Some((quote! { [#ty; #len] }, OpaqueType::None)))
         }
         Declaration::VariableArray(type_specifier, _, _) => {
             let (ty, opaque) = convert_primitive_token(type_specifier, cxt)?;
-            if opaque == OpaqueType::Variable {
-                Ok(Some((
-                    quote! { Vec<serde_xdr::opaque::VariableArray> },
-                    OpaqueType::None,
-                )))
-            } else {
-                // TODO: Add inner fixed opaque array support.
-                Ok(Some((quote! { Vec<#ty> }, opaque)))
-            }
+            let ty = convert_opaque_token(ty, opaque);
+            Ok(Some((quote! { Vec<#ty> }, OpaqueType::None)))
         }
         Declaration::OpaqueFixedArray(_, value) => {
             let len = cxt.resolve_value::<usize>(value)?;
@@ -805,7 +799,8 @@ fn convert_type_token(
         Declaration::String(_, _) => Ok(Some((quote! { String }, OpaqueType::None))),
         Declaration::OptionVariable(type_specifier, _) => {
             let (ty, opaque) = convert_primitive_token(type_specifier, cxt)?;
-            Ok(Some((quote! { Option<#ty> }, opaque)))
+            let ty = convert_opaque_token(ty, opaque);
+            Ok(Some((quote! { Option<#ty> }, OpaqueType::None)))
         }
         Declaration::Void => Ok(None),
     }
-- 
2.43.0


From 812039e2e61aa97561d483a2b14dbe6d1dfd224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 18/44] fix: generate a default for opaque data longer than 32
 octets

Arrays of more than 32 elements do not implement Default, so structs and unions
with such a member did not compile.
---
 rpcgen/src/gen_code.rs | 47 +++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index bccf4e1..a0c3aa5 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -438,6 +438,7 @@ fn convert_struct_token(
     cxt: &Context,
 ) -> Result<TokenStream, Error> {
     let mut fields = vec![];
+    let mut defaults = vec![];
 
     let struct_type = Some(TypeSpecifier::Identifier(name.to_string()));
     for declaration in declarations {
@@ -469,14 +470,27 @@ fn convert_struct_token(
             #derive
             pub #field_name_ident: #ty
         });
+
+        let default = convert_default_token(&opaque);
+        defaults.push(quote! {
+            #field_name_ident: #default
+        });
     }
 
     let name_ident = upper_camel_case_ident(name);
     Ok(quote! {
-        #[derive(Clone, Debug, Default, Deserialize, Serialize)]
+        #[derive(Clone, Debug, Deserialize, Serialize)]
         pub struct #name_ident {
             #(#fields),*
         }
+
+        impl Default for #name_ident {
+            fn default() -> Self {
+                #name_ident {
+                    #(#defaults),*
+                }
+            }
+        }
     })
 }
 
@@ -634,21 +648,21 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     }
 
     if let Some(default) = &body.default {
-        if let Some((derive, v_ty)) = convert_arm_token(default, cxt)? {
+        if let Some((derive, v_ty, v_default)) = convert_arm_token(default, cxt)? {
             if cxt.config.union_impl_union {
                 specs.push(quote! {
                     #derive
                     Default(#xdr_union_cond_type, #v_ty)
                 });
 
-                default_value = Some(quote! { Default(Default::default(), Default::default()) });
+                default_value = Some(quote! { Default(Default::default(), #v_default) });
             } else {
                 specs.push(quote! {
                     #derive
                     Default(#v_ty)
                 });
 
-                default_value = Some(quote! { Default(Default::default()) });
+                default_value = Some(quote! { Default(#v_default) });
             }
         } else if cxt.config.union_impl_union {
             specs.push(quote! {
@@ -849,14 +863,18 @@ fn convert_primitive_token(
 fn convert_arm_token(
     declaration: &Declaration,
     cxt: &Context,
-) -> Result<Option<(TokenStream, TokenStream)>, Error> {
+) -> Result<Option<(TokenStream, TokenStream, TokenStream)>, Error> {
     let Some((v_ty, opaque)) = convert_type_token(declaration, cxt)? else {
         return Ok(None);
     };
 
     if !cxt.config.union_complement_index() {
         // XdrIndexer を使用する場合は serde 属性が使用できないのでラッパオブジェクトを使用する。
-        return Ok(Some((quote! {}, convert_opaque_token(v_ty, opaque))));
+        return Ok(Some((
+            quote! {},
+            convert_opaque_token(v_ty, opaque),
+            quote! { Default::default() },
+        )));
     }
 
     let derive = match opaque {
@@ -864,7 +882,16 @@ fn convert_arm_token(
         OpaqueType::Variable => quote! { #[serde(with = "serde_xdr::opaque::variable")] },
         _ => quote! {},
     };
-    Ok(Some((derive, v_ty)))
+    let default = convert_default_token(&opaque);
+    Ok(Some((derive, v_ty, default)))
+}
+
+fn convert_default_token(opaque: &OpaqueType) -> TokenStream {
+    match opaque {
+        // Default が実装されているのは長さ 32 までの配列のみ。
+        OpaqueType::Fixed(len) => quote! { [0; #len] },
+        _ => quote! { Default::default() },
+    }
 }
 
 fn convert_opaque_token(ty: TokenStream, opaque: OpaqueType) -> TokenStream {
@@ -903,7 +930,7 @@ fn convert_case_token(
         }
     };
 
-    if let Some((derive, v_ty)) = convert_arm_token(declaration, cxt)? {
+    if let Some((derive, v_ty, v_default)) = convert_arm_token(declaration, cxt)? {
         let value_token = if cxt.config.union_impl_union {
             quote! {
                 #derive
@@ -917,9 +944,9 @@ fn convert_case_token(
         };
 
         let default_token = if cxt.config.union_impl_union {
-            quote! { #value(Default::default(), Default::default()) }
+            quote! { #value(Default::default(), #v_default) }
         } else {
-            quote! { #value(Default::default()) }
+            quote! { #value(#v_default) }
         };
 
         Ok((
-- 
2.43.0


From 0f74c5fd077a5d5ee3e6f4d8c2a6e5bc3f68db54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 19/44] fix: encode enums with standard traits as their number
 wherever they are used

Only struct members of the enum type itself did; in arrays and optional data
the code did not compile, and typedefs, union arms and union discriminants
travelled as the position of the enumerator.
---
 rpcgen/src/gen_code.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index a0c3aa5..5c768e2 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -404,8 +404,34 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
         quote! {}
     };
 
+    let serde = if cxt.config.enum_impl_std_trait && !cxt.config.enum_impl_indexer {
+        quote! {
+            impl Serialize for #name_ident {
+                fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+                where
+                    S: serde::Serializer,
+                {
+                    serde_xdr::primitive::signed32::serialize(self, serializer)
+                }
+            }
+
+            impl<'de> Deserialize<'de> for #name_ident {
+                fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+                where
+                    D: serde::Deserializer<'de>,
+                {
+                    serde_xdr::primitive::signed32::deserialize(deserializer)
+                }
+            }
+        }
+    } else {
+        quote! {}
+    };
+
     let derive = if cxt.config.enum_impl_indexer {
         quote! { #[derive(Clone, Debug, PartialEq, XdrIndexer)] }
+    } else if cxt.config.enum_impl_std_trait {
+        quote! { #[derive(Clone, Debug, PartialEq)] }
     } else {
         quote! { #[derive(Clone, Debug, Deserialize, PartialEq, Serialize)] }
     };
@@ -428,6 +454,8 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
 
         #try_from
 
+        #serde
+
         #indexer
     })
 }
@@ -450,6 +478,7 @@ fn convert_struct_token(
             OpaqueType::Variable => quote! { #[serde(with = "serde_xdr::opaque::variable")] },
             _ => {
                 if cxt.config.enum_impl_std_trait
+                    && matches!(declaration, Declaration::Variable(_, _))
                     && cxt.is_enum_type(declaration.type_specifier().unwrap())
                 {
                     quote! { #[serde(with = "serde_xdr::primitive::signed32")] }
-- 
2.43.0


From cacca62b69a9b4248e5b1fa21e0b0eb418d073d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 20/44] fix: name union variants of numeric case labels

The number itself was used as the name of the variant.
---
 rpcgen/src/gen_code.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 5c768e2..f9d8c8f 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -4,7 +4,7 @@ use crate::parser::{
     Assign, Constant, Declaration, Definition, TypeDef, TypeSpecifier, UnionBody, Value,
 };
 use proc_macro2::{Ident, TokenStream};
-use quote::{ToTokens, format_ident, quote};
+use quote::{format_ident, quote};
 use std::convert::TryFrom;
 
 #[derive(Clone, Default)]
@@ -796,13 +796,10 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     })
 }
 
-fn convert_value_token<'a, T>(value: &'a Value) -> Result<TokenStream, Error>
-where
-    T: TryFrom<&'a Constant> + ToTokens,
-{
+fn convert_value_token(value: &Value) -> Result<TokenStream, Error> {
     match value {
         Value::Constant(c) => {
-            let v = c.value::<T>()?;
+            let v = format_ident!("Case{}", c.value::<u32>()?.to_string());
             Ok(quote! { #v })
         }
         Value::Identifier(i) => {
@@ -946,7 +943,7 @@ fn convert_case_token(
     ),
     Error,
 > {
-    let value = convert_value_token::<u32>(value)?;
+    let value = convert_value_token(value)?;
     let cond_type = match convert_primitive_token(cond_type_spec, cxt) {
         Ok((ty, _)) => ty,
         _ => {
-- 
2.43.0


From 4f66b061e3848659eb566aaf68e020de8787a9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 21/44] fix: resolve typedefs of union discriminants

---
 rpcgen/src/gen_code.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index f9d8c8f..8094544 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -52,6 +52,18 @@ impl Context {
         false
     }
 
+    pub fn resolve_type(&self, ty: &TypeSpecifier) -> TypeSpecifier {
+        let mut ty = ty.clone();
+        while let TypeSpecifier::Identifier(name) = &ty {
+            match self.typedefs.iter().find(|(n, _)| n == name) {
+                Some((_, TypeDef::Declaration(Declaration::Variable(t, _)))) => ty = t.clone(),
+                _ => break,
+            }
+        }
+
+        ty
+    }
+
     pub fn resolve_const_value<'a, T>(&'a self, name: &str) -> Result<T, Error>
     where
         T: TryFrom<&'a Constant>,
@@ -533,9 +545,10 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     let name_ident = upper_camel_case_ident(name);
 
     let cond_type = match &body.cond {
-        Declaration::Variable(cond_type, _) => Ok(cond_type),
+        Declaration::Variable(cond_type, _) => Ok(cxt.resolve_type(cond_type)),
         _ => Err(Error::NotSupported),
     }?;
+    let cond_type = &cond_type;
 
     match cond_type {
         TypeSpecifier::Int(_) | TypeSpecifier::Identifier(_) => {
-- 
2.43.0


From 05b1afae99c3e0e8adb0be55760ed422315e1463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:50 +0000
Subject: [PATCH 22/44] fix: generate XdrUnion mappings for signed, bool and
 numbered enum cases

The mapping of int discriminants did not compile, nor that of bool
discriminants with only one case, and enumerators given by number or by the name
of a constant were left out.
---
 rpcgen/src/gen_code.rs | 56 ++++++++++++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 16 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 8094544..a715bd8 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -52,6 +52,27 @@ impl Context {
         false
     }
 
+    pub fn find_enum(&self, ty: &TypeSpecifier) -> Option<(&str, &[Assign])> {
+        self.typedefs
+            .iter()
+            .find_map(|(name, def)| match (ty, def) {
+                (TypeSpecifier::Identifier(n), TypeDef::Enum(_, assigns)) if n == name => {
+                    Some((name.as_str(), assigns.as_slice()))
+                }
+                _ => None,
+            })
+    }
+
+    pub fn enumerator_ident(&self, assigns: &[Assign], index: i32) -> Result<Ident, Error> {
+        for assign in assigns {
+            if self.resolve_value::<i32>(&assign.value)? == index {
+                return Ok(upper_camel_case_ident(&assign.identifier));
+            }
+        }
+
+        Err(Error::NotSupported)
+    }
+
     pub fn resolve_type(&self, ty: &TypeSpecifier) -> TypeSpecifier {
         let mut ty = ty.clone();
         while let TypeSpecifier::Identifier(name) = &ty {
@@ -590,16 +611,18 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     #name_ident::#variant_arm => #index
                 });
 
-                if cxt.is_enum_type(cond_type.clone()) {
-                    if let TypeSpecifier::Identifier(cond_type) = cond_type {
-                        let cond_type_ident = upper_camel_case_ident(cond_type);
-                        if let Value::Identifier(value) = value_token {
-                            let value_ident = upper_camel_case_ident(value);
-                            xdr_union_name_by_value.push(quote! {
-                                #cond_type_ident::#value_ident => Ok(stringify!(#variant))
-                            });
-                        }
+                if let Some((enum_name, assigns)) = cxt.find_enum(cond_type) {
+                    if cxt.config.union_impl_union {
+                        let cond_type_ident = upper_camel_case_ident(enum_name);
+                        let value_ident = cxt.enumerator_ident(assigns, index)?;
+                        xdr_union_name_by_value.push(quote! {
+                            #cond_type_ident::#value_ident => Ok(stringify!(#variant))
+                        });
                     }
+                } else if cond_type == &TypeSpecifier::Int(true) {
+                    xdr_union_name_by_value.push(quote! {
+                        #index => Ok(stringify!(#variant))
+                    });
                 } else {
                     xdr_union_name_by_value.push(quote! {
                         #eindex => Ok(stringify!(#variant))
@@ -758,13 +781,14 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     };
 
     let xdr_union = if cxt.config.union_impl_union {
-        let xdr_union_name_by_value_default_arm = if cond_type == &TypeSpecifier::Bool {
-            quote! {}
-        } else if body.default.is_some() {
-            quote! { _ => Ok(stringify!(Default)), }
-        } else {
-            quote! { _ => Err(::serde_xdr::error::Error::Convert), }
-        };
+        let xdr_union_name_by_value_default_arm =
+            if cond_type == &TypeSpecifier::Bool && xdr_union_name_by_value.len() == 2 {
+                quote! {}
+            } else if body.default.is_some() {
+                quote! { _ => Ok(stringify!(Default)), }
+            } else {
+                quote! { _ => Err(::serde_xdr::error::Error::Convert), }
+            };
 
         quote! {
             impl XdrUnion<#xdr_union_cond_type> for #name_ident {
-- 
2.43.0


From 9fd23cafac88bd5c1325fb6389ffd29a44f8928a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:52 +0000
Subject: [PATCH 23/44] fix: report bool case labels other than TRUE and FALSE
 as not supported

They were dropped, or gave code which did not compile.
---
 rpcgen/src/gen_code.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index a715bd8..13defe2 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -635,6 +635,11 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             }
         }
         TypeSpecifier::Bool => {
+            let mut labels = body.specs.iter().flat_map(|s| &s.values);
+            if labels.any(|v| !v.is_false() && !v.is_true()) {
+                return Err(Error::NotSupported);
+            }
+
             let false_case = body
                 .specs
                 .iter()
-- 
2.43.0


From 24fa889dcca26915de120f1fd08f2519c68d5d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 24/44] fix: do not read a name which begins with case as a
 case label

---
 rpcgen/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index 94524c7..af177e1 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -444,7 +444,7 @@ fn case_spec(input: &str) -> IResult<&str, CaseSpec> {
     map(
         (
             many1(delimited(
-                (comment0, tag("case"), comment0),
+                (comment0, word("case"), comment0),
                 value,
                 (comment0, tag(":"), comment0),
             )),
-- 
2.43.0


From f1fed91949d5f88f691a3e9fa5b16c874e33c0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 25/44] fix: treat typedefs of enums as enums in struct members

---
 rpcgen/src/gen_code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 13defe2..b6e61cb 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -42,7 +42,7 @@ impl Context {
     }
 
     pub fn is_enum_type(&self, ty: TypeSpecifier) -> bool {
-        if let TypeSpecifier::Identifier(name) = ty {
+        if let TypeSpecifier::Identifier(name) = self.resolve_type(&ty) {
             return self.typedefs.iter().any(|(_, def)| match def {
                 TypeDef::Enum(identifier, _) => &name == identifier,
                 _ => false,
-- 
2.43.0


From d02648739a727ebfeacd87fda8bee670071e1aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 26/44] fix: box members which refer to their own struct by way
 of a typedef

---
 rpcgen/src/gen_code.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index b6e61cb..17b6e92 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -73,6 +73,17 @@ impl Context {
         Err(Error::NotSupported)
     }
 
+    pub fn refers_to(&self, declaration: &Declaration, name: &str) -> bool {
+        match declaration.type_specifier() {
+            Some(TypeSpecifier::Identifier(id)) if id == name => true,
+            Some(TypeSpecifier::Identifier(id)) => self.typedefs.iter().any(|(n, def)| match def {
+                TypeDef::Declaration(d) => n == &id && self.refers_to(d, name),
+                _ => false,
+            }),
+            _ => false,
+        }
+    }
+
     pub fn resolve_type(&self, ty: &TypeSpecifier) -> TypeSpecifier {
         let mut ty = ty.clone();
         while let TypeSpecifier::Identifier(name) = &ty {
@@ -501,7 +512,6 @@ fn convert_struct_token(
     let mut fields = vec![];
     let mut defaults = vec![];
 
-    let struct_type = Some(TypeSpecifier::Identifier(name.to_string()));
     for declaration in declarations {
         let field_name = declaration.name().ok_or(Error::NotSupported)?;
         let (mut ty, opaque) = convert_type_token(declaration, cxt)?.ok_or(Error::NotSupported)?;
@@ -523,7 +533,7 @@ fn convert_struct_token(
 
         let field_name_ident = snake_case_ident(field_name);
 
-        if struct_type == declaration.type_specifier() {
+        if cxt.refers_to(declaration, name) {
             // TODO: Add nested structure support.
             ty = quote! { Box<#ty> };
         }
-- 
2.43.0


From dfed2a258ff7e77f72cff8e1fbfc78f6323db05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:26 +0000
Subject: [PATCH 27/44] fix: report negative enumerators as not supported where
 variants are numbered by position

---
 rpcgen/src/gen_code.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 17b6e92..e8eabb0 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -356,6 +356,11 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
     let mut start: i32 = 0;
     for (end, assign) in indexed {
         if cxt.config.enum_complement_index() {
+            if end < 0 {
+                // variant の index は負にならない。
+                return Err(Error::NotSupported);
+            }
+
             for index in start..end {
                 // enum は index でシリアライズするため存在しない値は補完する。
                 let reserved = format_ident!("_Reserved{}", index.to_string());
-- 
2.43.0


From 41ead89acb64e314ec161803d96e28ea583ae580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:57 +0000
Subject: [PATCH 28/44] fix: generate code which compiles for variants called
 Error

---
 rpcgen/src/gen_code.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index e8eabb0..910cebf 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -435,7 +435,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
             impl XdrIndexer for #name_ident {
                 type Error = ::serde_xdr::error::Error;
 
-                fn name_by_index(index: i32) -> Result<&'static str, Self::Error> {
+                fn name_by_index(index: i32) -> Result<&'static str, ::serde_xdr::error::Error> {
                     match index {
                         #(#xdr_indexer_name_by_index),*,
                         #xdr_indexer_name_by_index_default_arm,
@@ -781,7 +781,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             impl XdrIndexer for #name_ident {
                 type Error = ::serde_xdr::error::Error;
 
-                fn name_by_index(index: i32) -> Result<&'static str, Self::Error> {
+                fn name_by_index(index: i32) -> Result<&'static str, ::serde_xdr::error::Error> {
                     match index {
                         #(#xdr_indexer_name_by_index),*,
                         #xdr_indexer_name_by_index_default_arm
@@ -814,7 +814,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             impl XdrUnion<#xdr_union_cond_type> for #name_ident {
                 type Error = ::serde_xdr::error::Error;
 
-                fn name_by_value(value: &#xdr_union_cond_type) -> Result<&'static str, Self::Error> {
+                fn name_by_value(value: &#xdr_union_cond_type) -> Result<&'static str, ::serde_xdr::error::Error> {
                     match value {
                         #(#xdr_union_name_by_value),*,
                         #xdr_union_name_by_value_default_arm
-- 
2.43.0


From 67886daf58340f848648813b97ece0336ded7dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:43 +0000
Subject: [PATCH 29/44] fix: derive for types named like the type parameters of
 the derived code

---
 serde-xdr-derive/src/lib.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/serde-xdr-derive/src/lib.rs b/serde-xdr-derive/src/lib.rs
index 97fcfb5..54e36ed 100644
--- a/serde-xdr-derive/src/lib.rs
+++ b/serde-xdr-derive/src/lib.rs
@@ -68,9 +68,9 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
 
     let serde_ast = quote! {
         impl ::serde::Serialize for #ident {
-            fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+            fn serialize<__S>(&self, serializer: __S) -> Result<__S::Ok, __S::Error>
             where
-                S: ::serde::ser::Serializer,
+                __S: ::serde::ser::Serializer,
             {
                 let index = self.index();
 
@@ -87,9 +87,9 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
         }
 
         impl<'de> ::serde::Deserialize<'de> for #ident {
-            fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+            fn deserialize<__D>(deserializer: __D) -> Result<Self, __D::Error>
             where
-                D: ::serde::de::Deserializer<'de>
+                __D: ::serde::de::Deserializer<'de>
             {
                 struct XdrIndexerVisitor;
 
@@ -100,9 +100,9 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
                         formatter.write_str(&format!("a {}", stringify!(#ident)))
                     }
 
-                    fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
+                    fn visit_seq<__A>(self, mut seq: __A) -> Result<Self::Value, __A::Error>
                     where
-                        A: ::serde::de::SeqAccess<'de>,
+                        __A: ::serde::de::SeqAccess<'de>,
                     {
                         let index = seq.next_element::<i32>()?.unwrap();
                         let variant = Self::Value::name_by_index(index)
@@ -202,9 +202,9 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
     let value_ty = value_ty.unwrap();
     let serde_ast = quote! {
         impl ::serde::Serialize for #ident {
-            fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+            fn serialize<__S>(&self, serializer: __S) -> Result<__S::Ok, __S::Error>
             where
-                S: ::serde::ser::Serializer,
+                __S: ::serde::ser::Serializer,
             {
                 let mut ser = serializer.serialize_tuple(2usize)?;
 
@@ -218,9 +218,9 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
         }
 
         impl<'de> ::serde::Deserialize<'de> for #ident {
-            fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+            fn deserialize<__D>(deserializer: __D) -> Result<Self, __D::Error>
             where
-                D: ::serde::de::Deserializer<'de>
+                __D: ::serde::de::Deserializer<'de>
             {
                 struct XdrUnionVisitor;
 
@@ -231,9 +231,9 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
                         formatter.write_str(&format!("a {}", stringify!(#ident)))
                     }
 
-                    fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
+                    fn visit_seq<__A>(self, mut seq: __A) -> Result<Self::Value, __A::Error>
                     where
-                        A: ::serde::de::SeqAccess<'de>,
+                        __A: ::serde::de::SeqAccess<'de>,
                     {
                         let value = seq.next_element::<#value_ty>()?.unwrap();
                         let variant = Self::Value::name_by_value(&value)
-- 
2.43.0


From c8ba83abfae26a1923a3438cef46529425d2ec51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:47 +0000
Subject: [PATCH 30/44] fix: derive where Result is not the standard one

---
 serde-xdr-derive/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/serde-xdr-derive/src/lib.rs b/serde-xdr-derive/src/lib.rs
index 54e36ed..b1b664a 100644
--- a/serde-xdr-derive/src/lib.rs
+++ b/serde-xdr-derive/src/lib.rs
@@ -68,7 +68,7 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
 
     let serde_ast = quote! {
         impl ::serde::Serialize for #ident {
-            fn serialize<__S>(&self, serializer: __S) -> Result<__S::Ok, __S::Error>
+            fn serialize<__S>(&self, serializer: __S) -> ::std::result::Result<__S::Ok, __S::Error>
             where
                 __S: ::serde::ser::Serializer,
             {
@@ -87,7 +87,7 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
         }
 
         impl<'de> ::serde::Deserialize<'de> for #ident {
-            fn deserialize<__D>(deserializer: __D) -> Result<Self, __D::Error>
+            fn deserialize<__D>(deserializer: __D) -> ::std::result::Result<Self, __D::Error>
             where
                 __D: ::serde::de::Deserializer<'de>
             {
@@ -100,7 +100,7 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
                         formatter.write_str(&format!("a {}", stringify!(#ident)))
                     }
 
-                    fn visit_seq<__A>(self, mut seq: __A) -> Result<Self::Value, __A::Error>
+                    fn visit_seq<__A>(self, mut seq: __A) -> ::std::result::Result<Self::Value, __A::Error>
                     where
                         __A: ::serde::de::SeqAccess<'de>,
                     {
@@ -202,7 +202,7 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
     let value_ty = value_ty.unwrap();
     let serde_ast = quote! {
         impl ::serde::Serialize for #ident {
-            fn serialize<__S>(&self, serializer: __S) -> Result<__S::Ok, __S::Error>
+            fn serialize<__S>(&self, serializer: __S) -> ::std::result::Result<__S::Ok, __S::Error>
             where
                 __S: ::serde::ser::Serializer,
             {
@@ -218,7 +218,7 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
         }
 
         impl<'de> ::serde::Deserialize<'de> for #ident {
-            fn deserialize<__D>(deserializer: __D) -> Result<Self, __D::Error>
+            fn deserialize<__D>(deserializer: __D) -> ::std::result::Result<Self, __D::Error>
             where
                 __D: ::serde::de::Deserializer<'de>
             {
@@ -231,7 +231,7 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
                         formatter.write_str(&format!("a {}", stringify!(#ident)))
                     }
 
-                    fn visit_seq<__A>(self, mut seq: __A) -> Result<Self::Value, __A::Error>
+                    fn visit_seq<__A>(self, mut seq: __A) -> ::std::result::Result<Self::Value, __A::Error>
                     where
                         __A: ::serde::de::SeqAccess<'de>,
                     {
-- 
2.43.0


From 985bff2ff8e0ef9ea0e3d4ba4a0ed60c1d10ba84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:30 +0000
Subject: [PATCH 31/44] fix: box union arms and members which refer to their
 own type by way of other types

---
 rpcgen/src/gen_code.rs | 54 +++++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 910cebf..a565b29 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -74,14 +74,35 @@ impl Context {
     }
 
     pub fn refers_to(&self, declaration: &Declaration, name: &str) -> bool {
-        match declaration.type_specifier() {
-            Some(TypeSpecifier::Identifier(id)) if id == name => true,
-            Some(TypeSpecifier::Identifier(id)) => self.typedefs.iter().any(|(n, def)| match def {
-                TypeDef::Declaration(d) => n == &id && self.refers_to(d, name),
-                _ => false,
-            }),
-            _ => false,
+        let mut found = vec![];
+        let mut declarations = vec![declaration];
+        while let Some(declaration) = declarations.pop() {
+            let Some(TypeSpecifier::Identifier(id)) = declaration.type_specifier() else {
+                continue;
+            };
+
+            if id == name {
+                return true;
+            }
+
+            if found.contains(&id) {
+                continue;
+            }
+
+            match self.typedefs.iter().find(|(n, _)| n == &id) {
+                Some((_, TypeDef::Declaration(d))) => declarations.push(d),
+                Some((_, TypeDef::Struct(_, body))) => declarations.extend(body),
+                Some((_, TypeDef::Union(_, body))) => {
+                    declarations.extend(body.specs.iter().map(|s| &s.declaration));
+                    declarations.extend(&body.default);
+                }
+                _ => {}
+            }
+
+            found.push(id);
         }
+
+        false
     }
 
     pub fn resolve_type(&self, ty: &TypeSpecifier) -> TypeSpecifier {
@@ -539,7 +560,6 @@ fn convert_struct_token(
         let field_name_ident = snake_case_ident(field_name);
 
         if cxt.refers_to(declaration, name) {
-            // TODO: Add nested structure support.
             ty = quote! { Box<#ty> };
         }
 
@@ -611,7 +631,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                 }
 
                 let (variant, variant_arm, value, default, tmp_type) =
-                    convert_case_token(value_token, &decl, cond_type, cxt)?;
+                    convert_case_token(name, value_token, &decl, cond_type, cxt)?;
                 specs.push(value);
                 if default_value.is_none() {
                     default_value = Some(default);
@@ -664,7 +684,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     let value = case.values.iter().find(|v| v.is_false()).unwrap();
 
                     let (variant, variant_arm, value, default, _) =
-                        convert_case_token(value, &case.declaration, cond_type, cxt)?;
+                        convert_case_token(name, value, &case.declaration, cond_type, cxt)?;
                     specs.push(value);
                     if default_value.is_none() {
                         default_value = Some(default);
@@ -700,7 +720,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     let value = case.values.iter().find(|v| v.is_true()).unwrap();
 
                     let (variant, variant_arm, value, default, _) =
-                        convert_case_token(value, &case.declaration, cond_type, cxt)?;
+                        convert_case_token(name, value, &case.declaration, cond_type, cxt)?;
                     specs.push(value);
                     if default_value.is_none() {
                         default_value = Some(default);
@@ -733,7 +753,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     }
 
     if let Some(default) = &body.default {
-        if let Some((derive, v_ty, v_default)) = convert_arm_token(default, cxt)? {
+        if let Some((derive, v_ty, v_default)) = convert_arm_token(name, default, cxt)? {
             if cxt.config.union_impl_union {
                 specs.push(quote! {
                     #derive
@@ -944,13 +964,18 @@ fn convert_primitive_token(
 }
 
 fn convert_arm_token(
+    name: &str,
     declaration: &Declaration,
     cxt: &Context,
 ) -> Result<Option<(TokenStream, TokenStream, TokenStream)>, Error> {
-    let Some((v_ty, opaque)) = convert_type_token(declaration, cxt)? else {
+    let Some((mut v_ty, opaque)) = convert_type_token(declaration, cxt)? else {
         return Ok(None);
     };
 
+    if cxt.refers_to(declaration, name) {
+        v_ty = quote! { Box<#v_ty> };
+    }
+
     if !cxt.config.union_complement_index() {
         // XdrIndexer を使用する場合は serde 属性が使用できないのでラッパオブジェクトを使用する。
         return Ok(Some((
@@ -986,6 +1011,7 @@ fn convert_opaque_token(ty: TokenStream, opaque: OpaqueType) -> TokenStream {
 }
 
 fn convert_case_token(
+    name: &str,
     value: &Value,
     declaration: &Declaration,
     cond_type_spec: &TypeSpecifier,
@@ -1013,7 +1039,7 @@ fn convert_case_token(
         }
     };
 
-    if let Some((derive, v_ty, v_default)) = convert_arm_token(declaration, cxt)? {
+    if let Some((derive, v_ty, v_default)) = convert_arm_token(name, declaration, cxt)? {
         let value_token = if cxt.config.union_impl_union {
             quote! {
                 #derive
-- 
2.43.0


From b8475fac3e11bc4de02821ad87bb66617c0b4cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 32/44] fix: parse the type of a member once, not once for each
 form of declaration

---
 rpcgen/src/parser.rs | 59 ++++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index af177e1..e218890 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -521,33 +521,7 @@ fn declaration(input: &str) -> IResult<&str, Declaration> {
             ),
             |(i, v)| Declaration::string(i, v),
         ),
-        map(
-            (
-                type_specifier,
-                preceded(multispace1, identifier),
-                delimited(tag("["), value, tag("]")),
-            ),
-            |(t, i, v)| Declaration::fixed_array(t, i, v),
-        ),
-        map(
-            (
-                type_specifier,
-                preceded(multispace1, identifier),
-                delimited(tag("<"), opt(value), tag(">")),
-            ),
-            |(t, i, v)| Declaration::variable_array(t, i, v),
-        ),
-        map(
-            (
-                type_specifier,
-                preceded((multispace0, tag("*"), multispace0), identifier),
-            ),
-            |(t, i)| Declaration::option_variable(t, i),
-        ),
-        map(
-            (type_specifier, preceded(multispace1, identifier)),
-            |(t, i)| Declaration::variable(t, i),
-        ),
+        type_declaration,
     ))
     .parse(input)
 }
@@ -665,6 +639,37 @@ fn type_def(input: &str) -> IResult<&str, TypeDef> {
     .parse(input)
 }
 
+fn type_declaration(input: &str) -> IResult<&str, Declaration> {
+    // 入れ子の型を繰り返し解析しないように、型は一度だけ解析する。
+    let (input, t) = type_specifier(input)?;
+
+    // 優先度順に並べる。
+    alt((
+        map(
+            (
+                preceded(multispace1, identifier),
+                delimited(tag("["), value, tag("]")),
+            ),
+            |(i, v)| Declaration::fixed_array(t.clone(), i, v),
+        ),
+        map(
+            (
+                preceded(multispace1, identifier),
+                delimited(tag("<"), opt(value), tag(">")),
+            ),
+            |(i, v)| Declaration::variable_array(t.clone(), i, v),
+        ),
+        map(
+            preceded((multispace0, tag("*"), multispace0), identifier),
+            |i| Declaration::option_variable(t.clone(), i),
+        ),
+        map(preceded(multispace1, identifier), |i| {
+            Declaration::variable(t.clone(), i)
+        }),
+    ))
+    .parse(input)
+}
+
 fn type_specifier(input: &str) -> IResult<&str, TypeSpecifier> {
     alt((
         map((tag("unsigned"), multispace1, word("int")), |_| {
-- 
2.43.0


From 6d5c5bdc529107dce63a53b795318ec6c44c6733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:22 +0000
Subject: [PATCH 33/44] fix: follow references in linear time and report chains
 which are too long to follow

---
 rpcgen/src/gen_code.rs | 69 ++++++++++++++++++++++++++++--------------
 1 file changed, 47 insertions(+), 22 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index a565b29..47a43f9 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -5,8 +5,12 @@ use crate::parser::{
 };
 use proc_macro2::{Ident, TokenStream};
 use quote::{format_ident, quote};
+use std::collections::{HashMap, HashSet};
 use std::convert::TryFrom;
 
+/// 定数や型の別名をたどる回数の上限。
+const MAX_REFERENCES: usize = 100;
+
 #[derive(Clone, Default)]
 pub struct Config {
     pub remove_typedef: bool,
@@ -30,6 +34,7 @@ struct Context {
     config: Config,
     constants: Vec<(String, Value)>,
     typedefs: Vec<(String, TypeDef)>,
+    references: HashMap<String, Vec<String>>,
 }
 
 impl Context {
@@ -38,6 +43,7 @@ impl Context {
             config: config.clone(),
             constants: vec![],
             typedefs: vec![],
+            references: HashMap::new(),
         }
     }
 
@@ -74,32 +80,21 @@ impl Context {
     }
 
     pub fn refers_to(&self, declaration: &Declaration, name: &str) -> bool {
-        let mut found = vec![];
-        let mut declarations = vec![declaration];
-        while let Some(declaration) = declarations.pop() {
-            let Some(TypeSpecifier::Identifier(id)) = declaration.type_specifier() else {
-                continue;
-            };
+        let Some(TypeSpecifier::Identifier(id)) = declaration.type_specifier() else {
+            return false;
+        };
 
+        let mut found = HashSet::new();
+        let mut ids = vec![id.as_str()];
+        while let Some(id) = ids.pop() {
             if id == name {
                 return true;
             }
 
-            if found.contains(&id) {
-                continue;
-            }
-
-            match self.typedefs.iter().find(|(n, _)| n == &id) {
-                Some((_, TypeDef::Declaration(d))) => declarations.push(d),
-                Some((_, TypeDef::Struct(_, body))) => declarations.extend(body),
-                Some((_, TypeDef::Union(_, body))) => {
-                    declarations.extend(body.specs.iter().map(|s| &s.declaration));
-                    declarations.extend(&body.default);
-                }
-                _ => {}
+            if found.insert(id) {
+                let references = self.references.get(id).into_iter().flatten();
+                ids.extend(references.map(|r| r.as_str()));
             }
-
-            found.push(id);
         }
 
         false
@@ -242,6 +237,12 @@ fn setup_context(definitions: &[Definition], cxt: &mut Context) -> Result<(), Er
         }
     }
 
+    for (name, typedef) in &cxt.typedefs {
+        cxt.references
+            .entry(name.to_string())
+            .or_insert_with(|| type_references(typedef));
+    }
+
     check_cycle(value_references(cxt))?;
     check_cycle(typedef_references(cxt))
 }
@@ -282,12 +283,33 @@ fn typedef_references(cxt: &Context) -> Vec<(&str, &str)> {
         .collect()
 }
 
+fn type_references(typedef: &TypeDef) -> Vec<String> {
+    let declarations: Vec<&Declaration> = match typedef {
+        TypeDef::Declaration(declaration) => vec![declaration],
+        TypeDef::Enum(_, _) => vec![],
+        TypeDef::Struct(_, body) => body.iter().collect(),
+        TypeDef::Union(_, body) => {
+            let arms = body.specs.iter().map(|s| &s.declaration);
+            arms.chain(&body.default).collect()
+        }
+    };
+
+    declarations
+        .iter()
+        .filter_map(|d| match d.type_specifier() {
+            Some(TypeSpecifier::Identifier(id)) => Some(id),
+            _ => None,
+        })
+        .collect()
+}
+
 fn check_cycle(mut references: Vec<(&str, &str)>) -> Result<(), Error> {
-    loop {
+    for _ in 0..MAX_REFERENCES {
         // drop the references which end at a definition without a reference.
+        let names: HashSet<_> = references.iter().map(|(from, _)| *from).collect();
         let rest: Vec<_> = references
             .iter()
-            .filter(|(_, to)| references.iter().any(|(from, _)| from == to))
+            .filter(|(_, to)| names.contains(to))
             .copied()
             .collect();
 
@@ -300,6 +322,9 @@ fn check_cycle(mut references: Vec<(&str, &str)>) -> Result<(), Error> {
 
         references = rest;
     }
+
+    // too many references to follow.
+    Err(Error::NotSupported)
 }
 
 fn constants_token(cxt: &Context) -> Result<Vec<TokenStream>, Error> {
-- 
2.43.0


From 3b3ca3a53d955e851a233a7e5d587451926a40b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 34/44] fix: accept white space and comments between all tokens

---
 rpcgen/src/parser.rs | 113 ++++++++++++++++++++++---------------------
 1 file changed, 59 insertions(+), 54 deletions(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index e218890..e3669b1 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -5,8 +5,8 @@ use nom::{
     branch::alt,
     bytes::complete::{tag, take_until},
     character::complete::{
-        alpha1, alphanumeric1, digit1, hex_digit1, line_ending, multispace0, multispace1,
-        not_line_ending, oct_digit1, one_of,
+        alpha1, alphanumeric1, digit1, hex_digit1, line_ending, multispace0, not_line_ending,
+        oct_digit1, one_of,
     },
     combinator::{map, not, opt, recognize, verify},
     multi::{many0, many1, separated_list1},
@@ -482,7 +482,7 @@ fn constant(input: &str) -> IResult<&str, Constant> {
 
 fn constant_def(input: &str) -> IResult<&str, Assign> {
     preceded(
-        (tag("const"), multispace1),
+        (word("const"), comment0),
         terminated(assign, (comment0, tag(";"))),
     )
     .parse(input)
@@ -502,22 +502,22 @@ fn declaration(input: &str) -> IResult<&str, Declaration> {
         map(word("void"), |_| Declaration::void()),
         map(
             (
-                preceded((tag("opaque"), multispace1), identifier),
-                delimited(tag("["), value, tag("]")),
+                preceded((word("opaque"), comment0), identifier),
+                fixed_length,
             ),
             |(i, v)| Declaration::opaque_fixed_array(i, v),
         ),
         map(
             (
-                preceded((tag("opaque"), multispace1), identifier),
-                delimited(tag("<"), opt(value), tag(">")),
+                preceded((word("opaque"), comment0), identifier),
+                variable_length,
             ),
             |(i, v)| Declaration::opaque_variable_array(i, v),
         ),
         map(
             (
-                preceded((tag("string"), multispace1), identifier),
-                delimited(tag("<"), opt(value), tag(">")),
+                preceded((word("string"), comment0), identifier),
+                variable_length,
             ),
             |(i, v)| Declaration::string(i, v),
         ),
@@ -547,12 +547,16 @@ fn enum_body(input: &str) -> IResult<&str, Vec<Assign>> {
 
 fn enum_type_spec(input: &str) -> IResult<&str, EnumTypeSpec> {
     map(
-        preceded((tag("enum"), multispace1), enum_body),
+        preceded((word("enum"), comment0), enum_body),
         EnumTypeSpec::new,
     )
     .parse(input)
 }
 
+fn fixed_length(input: &str) -> IResult<&str, Value> {
+    delimited((comment0, tag("["), comment0), value, (comment0, tag("]"))).parse(input)
+}
+
 fn hexadecimal(input: &str) -> IResult<&str, Constant> {
     map(
         preceded(tag("0x"), recognize(many1(hex_digit1))),
@@ -595,7 +599,7 @@ fn struct_body(input: &str) -> IResult<&str, Vec<Declaration>> {
 
 fn struct_type_spec(input: &str) -> IResult<&str, StructTypeSpec> {
     map(
-        preceded((tag("struct"), multispace1), struct_body),
+        preceded((word("struct"), comment0), struct_body),
         StructTypeSpec::new,
     )
     .parse(input)
@@ -605,7 +609,7 @@ fn type_def(input: &str) -> IResult<&str, TypeDef> {
     alt((
         map(
             delimited(
-                (tag("typedef"), multispace1),
+                (word("typedef"), comment0),
                 declaration,
                 (comment0, tag(";")),
             ),
@@ -613,7 +617,7 @@ fn type_def(input: &str) -> IResult<&str, TypeDef> {
         ),
         map(
             delimited(
-                (tag("enum"), multispace1),
+                (word("enum"), comment0),
                 (terminated(identifier, comment0), enum_body),
                 (comment0, tag(";")),
             ),
@@ -621,7 +625,7 @@ fn type_def(input: &str) -> IResult<&str, TypeDef> {
         ),
         map(
             delimited(
-                (tag("struct"), multispace1),
+                (word("struct"), comment0),
                 (terminated(identifier, comment0), struct_body),
                 (comment0, tag(";")),
             ),
@@ -629,7 +633,7 @@ fn type_def(input: &str) -> IResult<&str, TypeDef> {
         ),
         map(
             delimited(
-                (tag("union"), multispace1),
+                (word("union"), comment0),
                 (terminated(identifier, comment0), union_body),
                 (comment0, tag(";")),
             ),
@@ -645,25 +649,17 @@ fn type_declaration(input: &str) -> IResult<&str, Declaration> {
 
     // 優先度順に並べる。
     alt((
+        map((preceded(comment0, identifier), fixed_length), |(i, v)| {
+            Declaration::fixed_array(t.clone(), i, v)
+        }),
         map(
-            (
-                preceded(multispace1, identifier),
-                delimited(tag("["), value, tag("]")),
-            ),
-            |(i, v)| Declaration::fixed_array(t.clone(), i, v),
-        ),
-        map(
-            (
-                preceded(multispace1, identifier),
-                delimited(tag("<"), opt(value), tag(">")),
-            ),
+            (preceded(comment0, identifier), variable_length),
             |(i, v)| Declaration::variable_array(t.clone(), i, v),
         ),
-        map(
-            preceded((multispace0, tag("*"), multispace0), identifier),
-            |i| Declaration::option_variable(t.clone(), i),
-        ),
-        map(preceded(multispace1, identifier), |i| {
+        map(preceded((comment0, tag("*"), comment0), identifier), |i| {
+            Declaration::option_variable(t.clone(), i)
+        }),
+        map(preceded(comment0, identifier), |i| {
             Declaration::variable(t.clone(), i)
         }),
     ))
@@ -672,20 +668,20 @@ fn type_declaration(input: &str) -> IResult<&str, Declaration> {
 
 fn type_specifier(input: &str) -> IResult<&str, TypeSpecifier> {
     alt((
-        map((tag("unsigned"), multispace1, word("int")), |_| {
+        map((word("unsigned"), comment0, word("int")), |_| {
             TypeSpecifier::Int(false)
         }),
         map(word("int"), |_| TypeSpecifier::Int(true)),
-        map((tag("unsigned"), multispace1, word("hyper")), |_| {
+        map((word("unsigned"), comment0, word("hyper")), |_| {
             TypeSpecifier::Hyper(false)
         }),
         map(word("hyper"), |_| TypeSpecifier::Hyper(true)),
         // start (libvirt extenstion)
-        map((tag("unsigned"), multispace1, word("char")), |_| {
+        map((word("unsigned"), comment0, word("char")), |_| {
             TypeSpecifier::Char(false)
         }),
         map(word("char"), |_| TypeSpecifier::Char(true)),
-        map((tag("unsigned"), multispace1, word("short")), |_| {
+        map((word("unsigned"), comment0, word("short")), |_| {
             TypeSpecifier::Short(false)
         }),
         map(word("short"), |_| TypeSpecifier::Short(true)),
@@ -707,14 +703,14 @@ fn union_body(input: &str) -> IResult<&str, UnionBody> {
     map(
         (
             delimited(
-                (tag("switch"), comment0, tag("("), comment0),
+                (word("switch"), comment0, tag("("), comment0),
                 declaration,
                 (comment0, tag(")"), comment0, tag("{"), comment0),
             ),
             many1(terminated(case_spec, comment0)),
             terminated(
                 opt(delimited(
-                    (comment0, tag("default"), comment0, tag(":"), comment0),
+                    (comment0, word("default"), comment0, tag(":"), comment0),
                     declaration,
                     (comment0, tag(";")),
                 )),
@@ -728,7 +724,7 @@ fn union_body(input: &str) -> IResult<&str, UnionBody> {
 
 fn union_type_spec(input: &str) -> IResult<&str, UnionTypeSpec> {
     map(
-        preceded((tag("union"), multispace1), union_body),
+        preceded((word("union"), comment0), union_body),
         UnionTypeSpec::new,
     )
     .parse(input)
@@ -742,6 +738,15 @@ fn value(input: &str) -> IResult<&str, Value> {
     .parse(input)
 }
 
+fn variable_length(input: &str) -> IResult<&str, Option<Value>> {
+    delimited(
+        (comment0, tag("<"), comment0),
+        opt(value),
+        (comment0, tag(">")),
+    )
+    .parse(input)
+}
+
 fn word<'a>(
     w: &'static str,
 ) -> impl Parser<&'a str, Output = &'a str, Error = nom::error::Error<&'a str>> {
@@ -751,13 +756,13 @@ fn word<'a>(
 fn program(input: &str) -> IResult<&str, Program> {
     map(
         (
-            preceded((tag("program"), multispace1), identifier),
+            preceded((word("program"), comment0), identifier),
             delimited(
-                (multispace0, tag("{"), multispace0),
-                many1(terminated(version, multispace0)),
-                (multispace0, tag("}"), multispace0),
+                (comment0, tag("{"), comment0),
+                many1(terminated(version, comment0)),
+                (comment0, tag("}"), comment0),
             ),
-            delimited((tag("="), multispace0), value, (multispace0, tag(";"))),
+            delimited((tag("="), comment0), value, (comment0, tag(";"))),
         ),
         |(a, b, c)| Program::new(a, b, c),
     )
@@ -767,13 +772,13 @@ fn program(input: &str) -> IResult<&str, Program> {
 fn version(input: &str) -> IResult<&str, Version> {
     map(
         (
-            preceded((tag("version"), multispace1), identifier),
+            preceded((word("version"), comment0), identifier),
             delimited(
-                (multispace0, tag("{"), multispace0),
-                many1(terminated(procedure, multispace0)),
-                (multispace0, tag("}"), multispace0),
+                (comment0, tag("{"), comment0),
+                many1(terminated(procedure, comment0)),
+                (comment0, tag("}"), comment0),
             ),
-            delimited((tag("="), multispace0), value, (multispace0, tag(";"))),
+            delimited((tag("="), comment0), value, (comment0, tag(";"))),
         ),
         |(a, b, c)| Version::new(a, b, c),
     )
@@ -784,16 +789,16 @@ fn procedure(input: &str) -> IResult<&str, Procedure> {
     map(
         (
             terminated(
-                alt((type_specifier, map(tag("void"), |_| TypeSpecifier::Void))),
-                multispace1,
+                alt((type_specifier, map(word("void"), |_| TypeSpecifier::Void))),
+                comment0,
             ),
             identifier,
             delimited(
-                (multispace0, tag("("), multispace0),
-                alt((type_specifier, map(tag("void"), |_| TypeSpecifier::Void))),
-                (multispace0, tag(")"), multispace0),
+                (comment0, tag("("), comment0),
+                alt((type_specifier, map(word("void"), |_| TypeSpecifier::Void))),
+                (comment0, tag(")"), comment0),
             ),
-            delimited((tag("="), multispace0), value, (multispace0, tag(";"))),
+            delimited((tag("="), comment0), value, (comment0, tag(";"))),
         ),
         |(a, b, c, d)| Procedure::new(a, b, c, d),
     )
-- 
2.43.0


From 99ecc693a38dd44bcda980dbe7f7a74d22d98a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:22 +0000
Subject: [PATCH 35/44] fix: report types which are nested too deeply instead
 of overflowing the stack

---
 rpcgen/src/parser.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index e3669b1..4b31bc5 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -12,9 +12,17 @@ use nom::{
     multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, terminated},
 };
+use std::cell::Cell;
 use std::convert::TryFrom;
 use std::str::FromStr;
 
+/// 型の入れ子の深さの上限。
+const MAX_DEPTH: usize = 24;
+
+thread_local! {
+    static DEPTH: Cell<usize> = const { Cell::new(0) };
+}
+
 pub fn parse(input: &str) -> Result<Vec<Definition>, Error> {
     let (rest, ret) = specification(input)?;
     if !rest.is_empty() {
@@ -576,6 +584,24 @@ fn identifier(input: &str) -> IResult<&str, &str> {
     .parse(input)
 }
 
+fn nested<'a, T>(
+    input: &'a str,
+    body: impl FnOnce(&'a str) -> IResult<&'a str, T>,
+) -> IResult<&'a str, T> {
+    let depth = DEPTH.get();
+    if depth == MAX_DEPTH {
+        return Err(nom::Err::Failure(nom::error::Error::new(
+            input,
+            nom::error::ErrorKind::TooLarge,
+        )));
+    }
+
+    DEPTH.set(depth + 1);
+    let result = body(input);
+    DEPTH.set(depth);
+    result
+}
+
 fn octal(input: &str) -> IResult<&str, Constant> {
     map(
         preceded(tag("0"), recognize(many1(oct_digit1))),
@@ -599,7 +625,7 @@ fn struct_body(input: &str) -> IResult<&str, Vec<Declaration>> {
 
 fn struct_type_spec(input: &str) -> IResult<&str, StructTypeSpec> {
     map(
-        preceded((word("struct"), comment0), struct_body),
+        preceded((word("struct"), comment0), |i| nested(i, struct_body)),
         StructTypeSpec::new,
     )
     .parse(input)
@@ -724,7 +750,7 @@ fn union_body(input: &str) -> IResult<&str, UnionBody> {
 
 fn union_type_spec(input: &str) -> IResult<&str, UnionTypeSpec> {
     map(
-        preceded((word("union"), comment0), union_body),
+        preceded((word("union"), comment0), |i| nested(i, union_body)),
         UnionTypeSpec::new,
     )
     .parse(input)
-- 
2.43.0


From ddab4fe58657abcda18f238ca5ff93ab074c1998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:15 +0000
Subject: [PATCH 36/44] fix: give default union values a discriminant which
 selects their arm

---
 rpcgen/src/gen_code.rs | 105 ++++++++++++++++++++++++++++++-----------
 1 file changed, 78 insertions(+), 27 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 47a43f9..4c732ba 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -622,6 +622,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     let mut xdr_indexer_index = vec![];
     let mut xdr_union_name_by_value = vec![];
     let mut xdr_union_cond_type = None;
+    let mut cond_values = vec![];
     let mut default_value = None;
     let name_ident = upper_camel_case_ident(name);
 
@@ -655,14 +656,24 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     }
                 }
 
+                let index = eindex as i32;
+                let cond_value = match cxt.find_enum(cond_type) {
+                    Some((enum_name, assigns)) if cxt.config.union_impl_union => {
+                        let cond_type_ident = upper_camel_case_ident(enum_name);
+                        let value_ident = cxt.enumerator_ident(assigns, index)?;
+                        quote! { #cond_type_ident::#value_ident }
+                    }
+                    _ if cond_type == &TypeSpecifier::Int(true) => quote! { #index },
+                    _ => quote! { #eindex },
+                };
+
                 let (variant, variant_arm, value, default, tmp_type) =
-                    convert_case_token(name, value_token, &decl, cond_type, cxt)?;
+                    convert_case_token(name, value_token, &cond_value, &decl, cond_type, cxt)?;
                 specs.push(value);
                 if default_value.is_none() {
                     default_value = Some(default);
                 }
 
-                let index = eindex as i32;
                 xdr_indexer_name_by_index.push(quote! {
                     #index => Ok(stringify!(#variant))
                 });
@@ -671,23 +682,11 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     #name_ident::#variant_arm => #index
                 });
 
-                if let Some((enum_name, assigns)) = cxt.find_enum(cond_type) {
-                    if cxt.config.union_impl_union {
-                        let cond_type_ident = upper_camel_case_ident(enum_name);
-                        let value_ident = cxt.enumerator_ident(assigns, index)?;
-                        xdr_union_name_by_value.push(quote! {
-                            #cond_type_ident::#value_ident => Ok(stringify!(#variant))
-                        });
-                    }
-                } else if cond_type == &TypeSpecifier::Int(true) {
-                    xdr_union_name_by_value.push(quote! {
-                        #index => Ok(stringify!(#variant))
-                    });
-                } else {
-                    xdr_union_name_by_value.push(quote! {
-                        #eindex => Ok(stringify!(#variant))
-                    });
-                }
+                xdr_union_name_by_value.push(quote! {
+                    #cond_value => Ok(stringify!(#variant))
+                });
+
+                cond_values.push(eindex);
 
                 sindex = eindex.saturating_add(1);
 
@@ -708,8 +707,14 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                 Some(case) => {
                     let value = case.values.iter().find(|v| v.is_false()).unwrap();
 
-                    let (variant, variant_arm, value, default, _) =
-                        convert_case_token(name, value, &case.declaration, cond_type, cxt)?;
+                    let (variant, variant_arm, value, default, _) = convert_case_token(
+                        name,
+                        value,
+                        &quote! { false },
+                        &case.declaration,
+                        cond_type,
+                        cxt,
+                    )?;
                     specs.push(value);
                     if default_value.is_none() {
                         default_value = Some(default);
@@ -723,6 +728,8 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                         #name_ident::#variant_arm => 0i32
                     });
 
+                    cond_values.push(0);
+
                     xdr_union_name_by_value.push(quote! {
                         false => Ok(stringify!(#variant))
                     });
@@ -744,8 +751,14 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                 Some(case) => {
                     let value = case.values.iter().find(|v| v.is_true()).unwrap();
 
-                    let (variant, variant_arm, value, default, _) =
-                        convert_case_token(name, value, &case.declaration, cond_type, cxt)?;
+                    let (variant, variant_arm, value, default, _) = convert_case_token(
+                        name,
+                        value,
+                        &quote! { true },
+                        &case.declaration,
+                        cond_type,
+                        cxt,
+                    )?;
                     specs.push(value);
                     if default_value.is_none() {
                         default_value = Some(default);
@@ -759,6 +772,8 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                         #name_ident::#variant_arm => 1i32
                     });
 
+                    cond_values.push(1);
+
                     xdr_union_name_by_value.push(quote! {
                         true => Ok(stringify!(#variant))
                     });
@@ -785,7 +800,9 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     Default(#xdr_union_cond_type, #v_ty)
                 });
 
-                default_value = Some(quote! { Default(Default::default(), #v_default) });
+                if let Some(cond_value) = other_cond_value(&cond_values, cond_type, cxt)? {
+                    default_value = Some(quote! { Default(#cond_value, #v_default) });
+                }
             } else {
                 specs.push(quote! {
                     #derive
@@ -799,7 +816,9 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                 Default(#xdr_union_cond_type)
             });
 
-            default_value = Some(quote! { Default(Default::default()) });
+            if let Some(cond_value) = other_cond_value(&cond_values, cond_type, cxt)? {
+                default_value = Some(quote! { Default(#cond_value) });
+            }
         } else {
             specs.push(quote! {
                 Default
@@ -898,6 +917,37 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     })
 }
 
+fn other_cond_value(
+    cond_values: &[u32],
+    cond_type: &TypeSpecifier,
+    cxt: &Context,
+) -> Result<Option<TokenStream>, Error> {
+    if let Some((enum_name, assigns)) = cxt.find_enum(cond_type) {
+        let enum_ident = upper_camel_case_ident(enum_name);
+        for assign in assigns {
+            let index = cxt.resolve_value::<i32>(&assign.value)?;
+            if !cond_values.contains(&(index as u32)) {
+                let value_ident = upper_camel_case_ident(&assign.identifier);
+                return Ok(Some(quote! { #enum_ident::#value_ident }));
+            }
+        }
+
+        return Ok(None);
+    }
+
+    let index = (0..).find(|i| !cond_values.contains(i));
+    Ok(match (cond_type, index) {
+        (TypeSpecifier::Bool, Some(0)) => Some(quote! { false }),
+        (TypeSpecifier::Bool, Some(1)) => Some(quote! { true }),
+        (TypeSpecifier::Int(true), Some(i)) => {
+            let i = i as i32;
+            Some(quote! { #i })
+        }
+        (TypeSpecifier::Int(false), Some(i)) => Some(quote! { #i }),
+        _ => None,
+    })
+}
+
 fn convert_value_token(value: &Value) -> Result<TokenStream, Error> {
     match value {
         Value::Constant(c) => {
@@ -1038,6 +1088,7 @@ fn convert_opaque_token(ty: TokenStream, opaque: OpaqueType) -> TokenStream {
 fn convert_case_token(
     name: &str,
     value: &Value,
+    cond_value: &TokenStream,
     declaration: &Declaration,
     cond_type_spec: &TypeSpecifier,
     cxt: &Context,
@@ -1078,7 +1129,7 @@ fn convert_case_token(
         };
 
         let default_token = if cxt.config.union_impl_union {
-            quote! { #value(Default::default(), #v_default) }
+            quote! { #value(#cond_value, #v_default) }
         } else {
             quote! { #value(#v_default) }
         };
@@ -1092,7 +1143,7 @@ fn convert_case_token(
         ))
     } else if cxt.config.union_impl_union {
         let value_token = quote! { #value(#cond_type) };
-        let default_token = quote! { #value(Default::default()) };
+        let default_token = quote! { #value(#cond_value) };
         Ok((value.clone(), value, value_token, default_token, cond_type))
     } else {
         let value_token = quote! { #value };
-- 
2.43.0


From 9202acbe87d949c8d935d43a144efed18f61d3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 37/44] fix: choose a default for unions which does not contain
 itself

---
 rpcgen/src/gen_code.rs | 112 +++++++++++++++++++++++++++++++++--------
 1 file changed, 91 insertions(+), 21 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 4c732ba..3ec2e3d 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -34,7 +34,13 @@ struct Context {
     config: Config,
     constants: Vec<(String, Value)>,
     typedefs: Vec<(String, TypeDef)>,
-    references: HashMap<String, Vec<String>>,
+    references: HashMap<String, Vec<Reference>>,
+    default_ranks: HashMap<String, usize>,
+}
+
+struct Reference {
+    to: String,
+    required: bool,
 }
 
 impl Context {
@@ -44,6 +50,7 @@ impl Context {
             constants: vec![],
             typedefs: vec![],
             references: HashMap::new(),
+            default_ranks: HashMap::new(),
         }
     }
 
@@ -84,8 +91,16 @@ impl Context {
             return false;
         };
 
+        self.reaches(&id, name, false)
+    }
+
+    pub fn requires(&self, declaration: &Declaration, name: &str) -> bool {
+        required_type(declaration).is_some_and(|id| self.reaches(id, name, true))
+    }
+
+    fn reaches(&self, id: &str, name: &str, required: bool) -> bool {
         let mut found = HashSet::new();
-        let mut ids = vec![id.as_str()];
+        let mut ids = vec![id];
         while let Some(id) = ids.pop() {
             if id == name {
                 return true;
@@ -93,13 +108,37 @@ impl Context {
 
             if found.insert(id) {
                 let references = self.references.get(id).into_iter().flatten();
-                ids.extend(references.map(|r| r.as_str()));
+                ids.extend(
+                    references
+                        .filter(|r| r.required || !required)
+                        .map(|r| r.to.as_str()),
+                );
             }
         }
 
         false
     }
 
+    fn default_rank(&self, declaration: &Declaration) -> Option<usize> {
+        match required_type(declaration) {
+            Some(id) if self.references.contains_key(id) => self.default_ranks.get(id).copied(),
+            _ => Some(0),
+        }
+    }
+
+    fn has_default(&self, typedef: &TypeDef) -> bool {
+        let has_default = |d: &Declaration| self.default_rank(d).is_some();
+        match typedef {
+            TypeDef::Declaration(declaration) => has_default(declaration),
+            TypeDef::Enum(_, _) => true,
+            TypeDef::Struct(_, body) => body.iter().all(has_default),
+            TypeDef::Union(_, body) => {
+                let mut arms = body.specs.iter().map(|s| &s.declaration);
+                arms.any(has_default) || body.default.as_ref().is_some_and(has_default)
+            }
+        }
+    }
+
     pub fn resolve_type(&self, ty: &TypeSpecifier) -> TypeSpecifier {
         let mut ty = ty.clone();
         while let TypeSpecifier::Identifier(name) = &ty {
@@ -244,7 +283,28 @@ fn setup_context(definitions: &[Definition], cxt: &mut Context) -> Result<(), Er
     }
 
     check_cycle(value_references(cxt))?;
-    check_cycle(typedef_references(cxt))
+    check_cycle(typedef_references(cxt))?;
+
+    setup_default_ranks(cxt);
+    Ok(())
+}
+
+fn setup_default_ranks(cxt: &mut Context) {
+    // 既定値が自身を含まない型から順に番号をつける。
+    for rank in 1.. {
+        let names: Vec<_> = cxt
+            .typedefs
+            .iter()
+            .filter(|(name, def)| !cxt.default_ranks.contains_key(name) && cxt.has_default(def))
+            .map(|(name, _)| name.to_string())
+            .collect();
+        if names.is_empty() {
+            break;
+        }
+
+        cxt.default_ranks
+            .extend(names.into_iter().map(|name| (name, rank)));
+    }
 }
 
 fn value_references(cxt: &Context) -> Vec<(&str, &str)> {
@@ -283,7 +343,15 @@ fn typedef_references(cxt: &Context) -> Vec<(&str, &str)> {
         .collect()
 }
 
-fn type_references(typedef: &TypeDef) -> Vec<String> {
+fn required_type(declaration: &Declaration) -> Option<&str> {
+    match declaration {
+        Declaration::Variable(TypeSpecifier::Identifier(id), _)
+        | Declaration::FixedArray(TypeSpecifier::Identifier(id), _, _) => Some(id),
+        _ => None,
+    }
+}
+
+fn type_references(typedef: &TypeDef) -> Vec<Reference> {
     let declarations: Vec<&Declaration> = match typedef {
         TypeDef::Declaration(declaration) => vec![declaration],
         TypeDef::Enum(_, _) => vec![],
@@ -297,7 +365,10 @@ fn type_references(typedef: &TypeDef) -> Vec<String> {
     declarations
         .iter()
         .filter_map(|d| match d.type_specifier() {
-            Some(TypeSpecifier::Identifier(id)) => Some(id),
+            Some(TypeSpecifier::Identifier(to)) => Some(Reference {
+                to,
+                required: required_type(d).is_some(),
+            }),
             _ => None,
         })
         .collect()
@@ -623,7 +694,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     let mut xdr_union_name_by_value = vec![];
     let mut xdr_union_cond_type = None;
     let mut cond_values = vec![];
-    let mut default_value = None;
+    let mut defaults = vec![];
     let name_ident = upper_camel_case_ident(name);
 
     let cond_type = match &body.cond {
@@ -670,9 +741,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                 let (variant, variant_arm, value, default, tmp_type) =
                     convert_case_token(name, value_token, &cond_value, &decl, cond_type, cxt)?;
                 specs.push(value);
-                if default_value.is_none() {
-                    default_value = Some(default);
-                }
+                defaults.push((decl, default));
 
                 xdr_indexer_name_by_index.push(quote! {
                     #index => Ok(stringify!(#variant))
@@ -716,9 +785,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                         cxt,
                     )?;
                     specs.push(value);
-                    if default_value.is_none() {
-                        default_value = Some(default);
-                    }
+                    defaults.push((case.declaration.clone(), default));
 
                     xdr_indexer_name_by_index.push(quote! {
                         0i32 => Ok(stringify!(#variant))
@@ -760,9 +827,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                         cxt,
                     )?;
                     specs.push(value);
-                    if default_value.is_none() {
-                        default_value = Some(default);
-                    }
+                    defaults.push((case.declaration.clone(), default));
 
                     xdr_indexer_name_by_index.push(quote! {
                         1i32 => Ok(stringify!(#variant))
@@ -801,7 +866,8 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                 });
 
                 if let Some(cond_value) = other_cond_value(&cond_values, cond_type, cxt)? {
-                    default_value = Some(quote! { Default(#cond_value, #v_default) });
+                    let token = quote! { Default(#cond_value, #v_default) };
+                    defaults.insert(0, (default.clone(), token));
                 }
             } else {
                 specs.push(quote! {
@@ -809,7 +875,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     Default(#v_ty)
                 });
 
-                default_value = Some(quote! { Default(#v_default) });
+                defaults.insert(0, (default.clone(), quote! { Default(#v_default) }));
             }
         } else if cxt.config.union_impl_union {
             specs.push(quote! {
@@ -817,14 +883,14 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             });
 
             if let Some(cond_value) = other_cond_value(&cond_values, cond_type, cxt)? {
-                default_value = Some(quote! { Default(#cond_value) });
+                defaults.insert(0, (default.clone(), quote! { Default(#cond_value) }));
             }
         } else {
             specs.push(quote! {
                 Default
             });
 
-            default_value = Some(quote! { Default });
+            defaults.insert(0, (default.clone(), quote! { Default }));
         }
     }
 
@@ -898,7 +964,11 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
         quote! { #[derive(Clone, Debug, Deserialize, Serialize)] }
     };
 
-    let default_value = default_value.ok_or(Error::NotSupported)?;
+    // 既定値が自身を含む場合は他の値を既定値とする。
+    if defaults.first().is_some_and(|(d, _)| cxt.requires(d, name)) {
+        defaults.sort_by_key(|(d, _)| cxt.default_rank(d).unwrap_or(usize::MAX));
+    }
+    let (_, default_value) = defaults.first().ok_or(Error::NotSupported)?;
     Ok(quote! {
         #derive
         pub enum #name_ident {
-- 
2.43.0


From f641740c9d6d0a99f44bf94d42092226183ff93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 38/44] fix: let types be called like standard ones

---
 rpcgen/src/gen_code.rs | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 3ec2e3d..44b5fa4 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -513,7 +513,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
 
     let as_ref = if cxt.config.enum_impl_std_trait {
         quote! {
-            impl AsRef<i32> for #name_ident {
+            impl ::std::convert::AsRef<i32> for #name_ident {
                 fn as_ref(&self) -> &'static i32 {
                     match self {
                         #(#as_ref_values),*
@@ -527,10 +527,10 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
 
     let try_from = if cxt.config.enum_impl_std_trait {
         quote! {
-            impl TryFrom<i32> for #name_ident {
+            impl ::std::convert::TryFrom<i32> for #name_ident {
                 type Error = serde_xdr::error::Error;
 
-                fn try_from(v: i32) -> Result<Self, serde_xdr::error::Error> {
+                fn try_from(v: i32) -> ::std::result::Result<Self, serde_xdr::error::Error> {
                     match v {
                         #(#try_from_values),*,
                         _ => Err(serde_xdr::error::Error::Convert),
@@ -552,7 +552,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
             impl XdrIndexer for #name_ident {
                 type Error = ::serde_xdr::error::Error;
 
-                fn name_by_index(index: i32) -> Result<&'static str, ::serde_xdr::error::Error> {
+                fn name_by_index(index: i32) -> ::std::result::Result<&'static str, ::serde_xdr::error::Error> {
                     match index {
                         #(#xdr_indexer_name_by_index),*,
                         #xdr_indexer_name_by_index_default_arm,
@@ -573,7 +573,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
     let serde = if cxt.config.enum_impl_std_trait && !cxt.config.enum_impl_indexer {
         quote! {
             impl Serialize for #name_ident {
-                fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+                fn serialize<S>(&self, serializer: S) -> ::std::result::Result<S::Ok, S::Error>
                 where
                     S: serde::Serializer,
                 {
@@ -582,7 +582,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
             }
 
             impl<'de> Deserialize<'de> for #name_ident {
-                fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+                fn deserialize<D>(deserializer: D) -> ::std::result::Result<Self, D::Error>
                 where
                     D: serde::Deserializer<'de>,
                 {
@@ -610,7 +610,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
             #(#values),*
         }
 
-        impl Default for #name_ident {
+        impl ::std::default::Default for #name_ident {
             fn default() -> Self {
                 #name_ident::#default_value
             }
@@ -656,7 +656,7 @@ fn convert_struct_token(
         let field_name_ident = snake_case_ident(field_name);
 
         if cxt.refers_to(declaration, name) {
-            ty = quote! { Box<#ty> };
+            ty = quote! { ::std::boxed::Box<#ty> };
         }
 
         fields.push(quote! {
@@ -677,7 +677,7 @@ fn convert_struct_token(
             #(#fields),*
         }
 
-        impl Default for #name_ident {
+        impl ::std::default::Default for #name_ident {
             fn default() -> Self {
                 #name_ident {
                     #(#defaults),*
@@ -911,7 +911,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             impl XdrIndexer for #name_ident {
                 type Error = ::serde_xdr::error::Error;
 
-                fn name_by_index(index: i32) -> Result<&'static str, ::serde_xdr::error::Error> {
+                fn name_by_index(index: i32) -> ::std::result::Result<&'static str, ::serde_xdr::error::Error> {
                     match index {
                         #(#xdr_indexer_name_by_index),*,
                         #xdr_indexer_name_by_index_default_arm
@@ -944,7 +944,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             impl XdrUnion<#xdr_union_cond_type> for #name_ident {
                 type Error = ::serde_xdr::error::Error;
 
-                fn name_by_value(value: &#xdr_union_cond_type) -> Result<&'static str, ::serde_xdr::error::Error> {
+                fn name_by_value(value: &#xdr_union_cond_type) -> ::std::result::Result<&'static str, ::serde_xdr::error::Error> {
                     match value {
                         #(#xdr_union_name_by_value),*,
                         #xdr_union_name_by_value_default_arm
@@ -975,7 +975,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             #(#specs),*
         }
 
-        impl Default for #name_ident {
+        impl ::std::default::Default for #name_ident {
             fn default() -> Self {
                 #name_ident::#default_value
             }
@@ -1049,20 +1049,23 @@ fn convert_type_token(
         Declaration::VariableArray(type_specifier, _, _) => {
             let (ty, opaque) = convert_primitive_token(type_specifier, cxt)?;
             let ty = convert_opaque_token(ty, opaque);
-            Ok(Some((quote! { Vec<#ty> }, OpaqueType::None)))
+            Ok(Some((quote! { ::std::vec::Vec<#ty> }, OpaqueType::None)))
         }
         Declaration::OpaqueFixedArray(_, value) => {
             let len = cxt.resolve_value::<usize>(value)?;
             Ok(Some((quote! { [u8; #len] }, OpaqueType::Fixed(len))))
         }
         Declaration::OpaqueVariableArray(_, _) => {
-            Ok(Some((quote! { Vec<u8> }, OpaqueType::Variable)))
+            Ok(Some((quote! { ::std::vec::Vec<u8> }, OpaqueType::Variable)))
         }
-        Declaration::String(_, _) => Ok(Some((quote! { String }, OpaqueType::None))),
+        Declaration::String(_, _) => Ok(Some((quote! { ::std::string::String }, OpaqueType::None))),
         Declaration::OptionVariable(type_specifier, _) => {
             let (ty, opaque) = convert_primitive_token(type_specifier, cxt)?;
             let ty = convert_opaque_token(ty, opaque);
-            Ok(Some((quote! { Option<#ty> }, OpaqueType::None)))
+            Ok(Some((
+                quote! { ::std::option::Option<#ty> },
+                OpaqueType::None,
+            )))
         }
         Declaration::Void => Ok(None),
     }
@@ -1118,7 +1121,7 @@ fn convert_arm_token(
     };
 
     if cxt.refers_to(declaration, name) {
-        v_ty = quote! { Box<#v_ty> };
+        v_ty = quote! { ::std::boxed::Box<#v_ty> };
     }
 
     if !cxt.config.union_complement_index() {
@@ -1126,7 +1129,7 @@ fn convert_arm_token(
         return Ok(Some((
             quote! {},
             convert_opaque_token(v_ty, opaque),
-            quote! { Default::default() },
+            quote! { ::std::default::Default::default() },
         )));
     }
 
@@ -1143,7 +1146,7 @@ fn convert_default_token(opaque: &OpaqueType) -> TokenStream {
     match opaque {
         // Default が実装されているのは長さ 32 までの配列のみ。
         OpaqueType::Fixed(len) => quote! { [0; #len] },
-        _ => quote! { Default::default() },
+        _ => quote! { ::std::default::Default::default() },
     }
 }
 
-- 
2.43.0


From 1639ef5fc474bb7c1f4bba41e26910dd67644add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 39/44] fix: do not take bindings in generated code for
 constants of the interface

---
 rpcgen/src/gen_code.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 44b5fa4..9ff093b 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -530,8 +530,8 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
             impl ::std::convert::TryFrom<i32> for #name_ident {
                 type Error = serde_xdr::error::Error;
 
-                fn try_from(v: i32) -> ::std::result::Result<Self, serde_xdr::error::Error> {
-                    match v {
+                fn try_from(__v: i32) -> ::std::result::Result<Self, serde_xdr::error::Error> {
+                    match __v {
                         #(#try_from_values),*,
                         _ => Err(serde_xdr::error::Error::Convert),
                     }
@@ -552,8 +552,8 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
             impl XdrIndexer for #name_ident {
                 type Error = ::serde_xdr::error::Error;
 
-                fn name_by_index(index: i32) -> ::std::result::Result<&'static str, ::serde_xdr::error::Error> {
-                    match index {
+                fn name_by_index(__index: i32) -> ::std::result::Result<&'static str, ::serde_xdr::error::Error> {
+                    match __index {
                         #(#xdr_indexer_name_by_index),*,
                         #xdr_indexer_name_by_index_default_arm,
                     }
@@ -573,20 +573,20 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
     let serde = if cxt.config.enum_impl_std_trait && !cxt.config.enum_impl_indexer {
         quote! {
             impl Serialize for #name_ident {
-                fn serialize<S>(&self, serializer: S) -> ::std::result::Result<S::Ok, S::Error>
+                fn serialize<S>(&self, __serializer: S) -> ::std::result::Result<S::Ok, S::Error>
                 where
                     S: serde::Serializer,
                 {
-                    serde_xdr::primitive::signed32::serialize(self, serializer)
+                    serde_xdr::primitive::signed32::serialize(self, __serializer)
                 }
             }
 
             impl<'de> Deserialize<'de> for #name_ident {
-                fn deserialize<D>(deserializer: D) -> ::std::result::Result<Self, D::Error>
+                fn deserialize<D>(__deserializer: D) -> ::std::result::Result<Self, D::Error>
                 where
                     D: serde::Deserializer<'de>,
                 {
-                    serde_xdr::primitive::signed32::deserialize(deserializer)
+                    serde_xdr::primitive::signed32::deserialize(__deserializer)
                 }
             }
         }
@@ -911,8 +911,8 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             impl XdrIndexer for #name_ident {
                 type Error = ::serde_xdr::error::Error;
 
-                fn name_by_index(index: i32) -> ::std::result::Result<&'static str, ::serde_xdr::error::Error> {
-                    match index {
+                fn name_by_index(__index: i32) -> ::std::result::Result<&'static str, ::serde_xdr::error::Error> {
+                    match __index {
                         #(#xdr_indexer_name_by_index),*,
                         #xdr_indexer_name_by_index_default_arm
                     }
@@ -944,8 +944,8 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             impl XdrUnion<#xdr_union_cond_type> for #name_ident {
                 type Error = ::serde_xdr::error::Error;
 
-                fn name_by_value(value: &#xdr_union_cond_type) -> ::std::result::Result<&'static str, ::serde_xdr::error::Error> {
-                    match value {
+                fn name_by_value(__value: &#xdr_union_cond_type) -> ::std::result::Result<&'static str, ::serde_xdr::error::Error> {
+                    match __value {
                         #(#xdr_union_name_by_value),*,
                         #xdr_union_name_by_value_default_arm
                     }
-- 
2.43.0


From 118924e6387f940a5a00205130e57202a9345f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 40/44] fix: do not take bindings in derived code for constants
 in scope

---
 serde-xdr-derive/src/lib.rs | 70 ++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 35 deletions(-)

diff --git a/serde-xdr-derive/src/lib.rs b/serde-xdr-derive/src/lib.rs
index b1b664a..c55545d 100644
--- a/serde-xdr-derive/src/lib.rs
+++ b/serde-xdr-derive/src/lib.rs
@@ -32,15 +32,15 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
                 let mut de_rets = vec![];
 
                 for (i, field) in unnamed.unnamed.iter().enumerate() {
-                    let arg_ident = format_ident!("a{}", i);
-                    let ret_ident = format_ident!("r{}", i);
+                    let arg_ident = format_ident!("__a{}", i);
+                    let ret_ident = format_ident!("__r{}", i);
                     let ty = &field.ty;
                     ser_args.push(quote! { #arg_ident });
                     ser_stmts.push(quote! {
-                        ser.serialize_element(#arg_ident)?
+                        __ser.serialize_element(#arg_ident)?
                     });
                     de_stmts.push(quote! {
-                        let #ret_ident = seq.next_element::<#ty>()?.unwrap()
+                        let #ret_ident = __seq.next_element::<#ty>()?.unwrap()
                     });
                     de_rets.push(quote! { #ret_ident });
                 }
@@ -68,26 +68,26 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
 
     let serde_ast = quote! {
         impl ::serde::Serialize for #ident {
-            fn serialize<__S>(&self, serializer: __S) -> ::std::result::Result<__S::Ok, __S::Error>
+            fn serialize<__S>(&self, __serializer: __S) -> ::std::result::Result<__S::Ok, __S::Error>
             where
                 __S: ::serde::ser::Serializer,
             {
-                let index = self.index();
+                let __index = self.index();
 
-                let mut ser = serializer.serialize_tuple(index as usize)?;
-                ser.serialize_element(&index)?;
+                let mut __ser = __serializer.serialize_tuple(__index as usize)?;
+                __ser.serialize_element(&__index)?;
 
                 match self {
                     #(#ser_match_arms),*,
                     _ => unimplemented!(),
                 }
 
-                ser.end()
+                __ser.end()
             }
         }
 
         impl<'de> ::serde::Deserialize<'de> for #ident {
-            fn deserialize<__D>(deserializer: __D) -> ::std::result::Result<Self, __D::Error>
+            fn deserialize<__D>(__deserializer: __D) -> ::std::result::Result<Self, __D::Error>
             where
                 __D: ::serde::de::Deserializer<'de>
             {
@@ -96,25 +96,25 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
                 impl<'de> ::serde::de::Visitor<'de> for XdrIndexerVisitor {
                     type Value = #ident;
 
-                    fn expecting(&self, formatter: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
-                        formatter.write_str(&format!("a {}", stringify!(#ident)))
+                    fn expecting(&self, __formatter: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
+                        __formatter.write_str(&format!("a {}", stringify!(#ident)))
                     }
 
-                    fn visit_seq<__A>(self, mut seq: __A) -> ::std::result::Result<Self::Value, __A::Error>
+                    fn visit_seq<__A>(self, mut __seq: __A) -> ::std::result::Result<Self::Value, __A::Error>
                     where
                         __A: ::serde::de::SeqAccess<'de>,
                     {
-                        let index = seq.next_element::<i32>()?.unwrap();
-                        let variant = Self::Value::name_by_index(index)
-                            .map_err(|_| ::serde::de::Error::custom(format!("Can not convert from {}", index)))?;
-                        match variant {
+                        let __index = __seq.next_element::<i32>()?.unwrap();
+                        let __variant = Self::Value::name_by_index(__index)
+                            .map_err(|_| ::serde::de::Error::custom(format!("Can not convert from {}", __index)))?;
+                        match __variant {
                             #(#de_match_arms),*,
                             _ => unimplemented!(),
                         }
                     }
                 }
 
-                deserializer.deserialize_tuple(#len, XdrIndexerVisitor)
+                __deserializer.deserialize_tuple(#len, XdrIndexerVisitor)
             }
         }
     };
@@ -153,20 +153,20 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
 
                 let mut first = true;
                 for (i, field) in unnamed.unnamed.iter().enumerate() {
-                    let arg_ident = format_ident!("a{}", i);
-                    let ret_ident = format_ident!("r{}", i);
+                    let arg_ident = format_ident!("__a{}", i);
+                    let ret_ident = format_ident!("__r{}", i);
                     let ty = &field.ty;
 
                     ser_args.push(quote! { #arg_ident });
                     ser_stmts.push(quote! {
-                        ser.serialize_element(#arg_ident)?
+                        __ser.serialize_element(#arg_ident)?
                     });
 
                     if first {
-                        de_rets.push(quote! { value });
+                        de_rets.push(quote! { __value });
                     } else {
                         de_stmts.push(quote! {
-                            let #ret_ident = seq.next_element::<#ty>()?.unwrap()
+                            let #ret_ident = __seq.next_element::<#ty>()?.unwrap()
                         });
                         de_rets.push(quote! { #ret_ident });
                     }
@@ -202,23 +202,23 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
     let value_ty = value_ty.unwrap();
     let serde_ast = quote! {
         impl ::serde::Serialize for #ident {
-            fn serialize<__S>(&self, serializer: __S) -> ::std::result::Result<__S::Ok, __S::Error>
+            fn serialize<__S>(&self, __serializer: __S) -> ::std::result::Result<__S::Ok, __S::Error>
             where
                 __S: ::serde::ser::Serializer,
             {
-                let mut ser = serializer.serialize_tuple(2usize)?;
+                let mut __ser = __serializer.serialize_tuple(2usize)?;
 
                 match self {
                     #(#ser_match_arms),*,
                     _ => unimplemented!(),
                 }
 
-                ser.end()
+                __ser.end()
             }
         }
 
         impl<'de> ::serde::Deserialize<'de> for #ident {
-            fn deserialize<__D>(deserializer: __D) -> ::std::result::Result<Self, __D::Error>
+            fn deserialize<__D>(__deserializer: __D) -> ::std::result::Result<Self, __D::Error>
             where
                 __D: ::serde::de::Deserializer<'de>
             {
@@ -227,25 +227,25 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
                 impl<'de> ::serde::de::Visitor<'de> for XdrUnionVisitor {
                     type Value = #ident;
 
-                    fn expecting(&self, formatter: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
-                        formatter.write_str(&format!("a {}", stringify!(#ident)))
+                    fn expecting(&self, __formatter: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
+                        __formatter.write_str(&format!("a {}", stringify!(#ident)))
                     }
 
-                    fn visit_seq<__A>(self, mut seq: __A) -> ::std::result::Result<Self::Value, __A::Error>
+                    fn visit_seq<__A>(self, mut __seq: __A) -> ::std::result::Result<Self::Value, __A::Error>
                     where
                         __A: ::serde::de::SeqAccess<'de>,
                     {
-                        let value = seq.next_element::<#value_ty>()?.unwrap();
-                        let variant = Self::Value::name_by_value(&value)
-                            .map_err(|_| ::serde::de::Error::custom(format!("Can not convert from {:?}", &value)))?;
-                        match variant {
+                        let __value = __seq.next_element::<#value_ty>()?.unwrap();
+                        let __variant = Self::Value::name_by_value(&__value)
+                            .map_err(|_| ::serde::de::Error::custom(format!("Can not convert from {:?}", &__value)))?;
+                        match __variant {
                             #(#de_match_arms),*,
                             _ => unimplemented!(),
                         }
                     }
                 }
 
-                deserializer.deserialize_tuple(#len, XdrUnionVisitor)
+                __deserializer.deserialize_tuple(#len, XdrUnionVisitor)
             }
         }
     };
-- 
2.43.0


From 78b89d47854af734183c7941ec49e7cc4951763c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:01 +0000
Subject: [PATCH 41/44] fix: do not take opaque data and strings for references
 to types called u8 or String

---
 rpcgen/src/gen_code.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 9ff093b..a69dd5e 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -87,11 +87,7 @@ impl Context {
     }
 
     pub fn refers_to(&self, declaration: &Declaration, name: &str) -> bool {
-        let Some(TypeSpecifier::Identifier(id)) = declaration.type_specifier() else {
-            return false;
-        };
-
-        self.reaches(&id, name, false)
+        referred_type(declaration).is_some_and(|id| self.reaches(id, name, false))
     }
 
     pub fn requires(&self, declaration: &Declaration, name: &str) -> bool {
@@ -332,17 +328,22 @@ fn typedef_references(cxt: &Context) -> Vec<(&str, &str)> {
     cxt.typedefs
         .iter()
         .filter_map(|(name, typedef)| match typedef {
-            TypeDef::Declaration(
-                Declaration::Variable(TypeSpecifier::Identifier(to), _)
-                | Declaration::FixedArray(TypeSpecifier::Identifier(to), _, _)
-                | Declaration::VariableArray(TypeSpecifier::Identifier(to), _, _)
-                | Declaration::OptionVariable(TypeSpecifier::Identifier(to), _),
-            ) => Some((name.as_str(), to.as_str())),
+            TypeDef::Declaration(declaration) => Some((name.as_str(), referred_type(declaration)?)),
             _ => None,
         })
         .collect()
 }
 
+fn referred_type(declaration: &Declaration) -> Option<&str> {
+    match declaration {
+        Declaration::Variable(TypeSpecifier::Identifier(id), _)
+        | Declaration::FixedArray(TypeSpecifier::Identifier(id), _, _)
+        | Declaration::VariableArray(TypeSpecifier::Identifier(id), _, _)
+        | Declaration::OptionVariable(TypeSpecifier::Identifier(id), _) => Some(id),
+        _ => None,
+    }
+}
+
 fn required_type(declaration: &Declaration) -> Option<&str> {
     match declaration {
         Declaration::Variable(TypeSpecifier::Identifier(id), _)
@@ -364,12 +365,11 @@ fn type_references(typedef: &TypeDef) -> Vec<Reference> {
 
     declarations
         .iter()
-        .filter_map(|d| match d.type_specifier() {
-            Some(TypeSpecifier::Identifier(to)) => Some(Reference {
-                to,
+        .filter_map(|d| {
+            Some(Reference {
+                to: referred_type(d)?.to_string(),
                 required: required_type(d).is_some(),
-            }),
-            _ => None,
+            })
         })
         .collect()
 }
-- 
2.43.0


From 013fd477dee53ceb5258e460b1f3889868fee069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:47 +0000
Subject: [PATCH 42/44] fix: report enumerators and case labels with the same
 number

---
 rpcgen/src/gen_code.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index a69dd5e..74cdd41 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -460,6 +460,10 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
     }
 
     indexed.sort_by_key(|i| i.0);
+    if indexed.windows(2).any(|w| w[0].0 == w[1].0) {
+        // 同じ値の variant は定義できない。
+        return Err(Error::NotSupported);
+    }
 
     let name_ident = upper_camel_case_ident(name);
 
@@ -714,6 +718,10 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             }
 
             values.sort_by_key(|s| s.0);
+            if values.windows(2).any(|w| w[0].0 == w[1].0) {
+                // 同じ値の case は区別できない。
+                return Err(Error::NotSupported);
+            }
 
             let mut sindex: u32 = 0;
             for (eindex, decl, value_token) in values {
@@ -763,8 +771,11 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             }
         }
         TypeSpecifier::Bool => {
-            let mut labels = body.specs.iter().flat_map(|s| &s.values);
-            if labels.any(|v| !v.is_false() && !v.is_true()) {
+            let labels: Vec<_> = body.specs.iter().flat_map(|s| &s.values).collect();
+            if labels.iter().any(|v| !v.is_false() && !v.is_true())
+                || labels.iter().filter(|v| v.is_false()).count() > 1
+                || labels.iter().filter(|v| v.is_true()).count() > 1
+            {
                 return Err(Error::NotSupported);
             }
 
-- 
2.43.0


From cc0cb475e35ddac86fb4393a1fc4f9a784836e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 43/44] fix: do not let typedefs influence which default value
 a union gets

---
 rpcgen/src/gen_code.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 74cdd41..3c96429 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -287,19 +287,34 @@ fn setup_context(definitions: &[Definition], cxt: &mut Context) -> Result<(), Er
 
 fn setup_default_ranks(cxt: &mut Context) {
     // 既定値が自身を含まない型から順に番号をつける。
-    for rank in 1.. {
-        let names: Vec<_> = cxt
+    let mut rank = 1;
+    loop {
+        let names = cxt
             .typedefs
             .iter()
-            .filter(|(name, def)| !cxt.default_ranks.contains_key(name) && cxt.has_default(def))
-            .map(|(name, _)| name.to_string())
-            .collect();
-        if names.is_empty() {
+            .filter(|(name, def)| !cxt.default_ranks.contains_key(name) && cxt.has_default(def));
+        // typedef は元の型と同じ番号とする。
+        let (aliases, types): (Vec<_>, Vec<_>) = names
+            .map(|(name, def)| match def {
+                TypeDef::Declaration(d) => (name.to_string(), cxt.default_rank(d)),
+                _ => (name.to_string(), None),
+            })
+            .partition(|(_, alias)| alias.is_some());
+
+        if aliases.is_empty() && types.is_empty() {
             break;
         }
 
-        cxt.default_ranks
-            .extend(names.into_iter().map(|name| (name, rank)));
+        if aliases.is_empty() {
+            let ranks = types.into_iter().map(|(name, _)| (name, rank));
+            cxt.default_ranks.extend(ranks);
+            rank += 1;
+        } else {
+            let ranks = aliases
+                .into_iter()
+                .flat_map(|(name, alias)| Some((name, alias?)));
+            cxt.default_ranks.extend(ranks);
+        }
     }
 }
 
-- 
2.43.0


From 355417a1ba939a17b159e0be00d6cdf8a7ad6080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:32 +0000
Subject: [PATCH 44/44] fix: do not count on default arms which no discriminant
 selects

---
 rpcgen/src/gen_code.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 3c96429..265930f 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -130,11 +130,27 @@ impl Context {
             TypeDef::Struct(_, body) => body.iter().all(has_default),
             TypeDef::Union(_, body) => {
                 let mut arms = body.specs.iter().map(|s| &s.declaration);
-                arms.any(has_default) || body.default.as_ref().is_some_and(has_default)
+                let default = body.default.as_ref().filter(|_| self.is_default_used(body));
+                arms.any(has_default) || default.is_some_and(has_default)
             }
         }
     }
 
+    fn is_default_used(&self, body: &UnionBody) -> bool {
+        // XdrUnion では値がすべて case にあると default の値をつくれない。
+        let Declaration::Variable(cond_type, _) = &body.cond else {
+            return true;
+        };
+        let cond_values: usize = body.specs.iter().map(|s| s.values.len()).sum();
+        match self.resolve_type(cond_type) {
+            _ if !self.config.union_impl_union => true,
+            TypeSpecifier::Bool => cond_values < 2,
+            ty => self
+                .find_enum(&ty)
+                .is_none_or(|(_, a)| cond_values < a.len()),
+        }
+    }
+
     pub fn resolve_type(&self, ty: &TypeSpecifier) -> TypeSpecifier {
         let mut ty = ty.clone();
         while let TypeSpecifier::Identifier(name) = &ty {
-- 
2.43.0

