From 2bc10f2022bf70aaf050d1a4584f20a9a0816697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 01/18] fix: make chains of public imports of any length
 visible

The recursion guard was inverted: files seen for the first time were not
descended into, so a definition more than one public import away was
reported as not imported, and a cycle of public imports overflowed the stack.
---
 prost-reflect/src/descriptor/build/resolve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 5a80342..7f888b6 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -421,7 +421,7 @@ impl ResolveVisitor<'_> {
         for (i, dependency) in file.raw.dependency.iter().enumerate() {
             if let Some(&dependency_index) = self.pool.file_names.get(dependency.as_str()) {
                 if file.raw.public_dependency.contains(&(i as i32))
-                    && !dependencies.insert(dependency_index)
+                    && dependencies.insert(dependency_index)
                 {
                     self.resolve_public_dependencies(dependencies, dependency_index);
                 }
-- 
2.43.0


From 55d4ba817d9d7da6381b953d5bf8fd49bd9745c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 02/18] fix: remove dangling extensions when rolling back a
 failed pool update

The extension indices of each message were compared with the message count
instead of the extension count.
---
 prost-reflect/src/descriptor/build/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prost-reflect/src/descriptor/build/mod.rs b/prost-reflect/src/descriptor/build/mod.rs
index ea94ca0..ae26778 100644
--- a/prost-reflect/src/descriptor/build/mod.rs
+++ b/prost-reflect/src/descriptor/build/mod.rs
@@ -95,7 +95,9 @@ impl DescriptorPoolOffsets {
         });
         pool.file_names.retain(|_, &mut file| file < self.file);
         for message in &mut pool.messages {
-            message.extensions.retain(|&message| message < self.message);
+            message
+                .extensions
+                .retain(|&extension| extension < self.extension);
         }
     }
 }
-- 
2.43.0


From 34f81bd47fe005fe6399acf643685089202309fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 03/18] fix: report an unknown syntax as an error instead of
 panicking

The error label refers to the file, which had not been added to the pool yet.
---
 prost-reflect/src/descriptor/build/names.rs | 31 +++++++++++----------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/names.rs b/prost-reflect/src/descriptor/build/names.rs
index 2332a36..ad327e4 100644
--- a/prost-reflect/src/descriptor/build/names.rs
+++ b/prost-reflect/src/descriptor/build/names.rs
@@ -51,21 +51,10 @@ impl Visitor for NameVisitor<'_> {
     fn visit_file(&mut self, path: &[i32], index: FileIndex, file: &FileDescriptorProto) {
         debug_assert_eq!(to_index(self.pool.files.len()), index);
 
-        let syntax = match file.syntax.as_deref() {
-            None | Some("proto2") => Syntax::Proto2,
-            Some("proto3") => Syntax::Proto3,
-            Some(syntax) => {
-                self.errors.push(DescriptorErrorKind::UnknownSyntax {
-                    syntax: syntax.to_owned(),
-                    found: Label::new(
-                        &self.pool.files,
-                        "found here",
-                        index,
-                        join_path(path, &[tag::file::SYNTAX]),
-                    ),
-                });
-                return;
-            }
+        let (syntax, unknown_syntax) = match file.syntax.as_deref() {
+            None | Some("proto2") => (Syntax::Proto2, None),
+            Some("proto3") => (Syntax::Proto3, None),
+            Some(syntax) => (Syntax::Proto2, Some(syntax)),
         };
 
         if self
@@ -85,6 +74,18 @@ impl Visitor for NameVisitor<'_> {
             dependencies: Vec::with_capacity(file.dependency.len()),
             transitive_dependencies: HashSet::default(),
         });
+        // The file must be added before reporting the error, since visiting continues with its contents.
+        if let Some(syntax) = unknown_syntax {
+            self.errors.push(DescriptorErrorKind::UnknownSyntax {
+                syntax: syntax.to_owned(),
+                found: Label::new(
+                    &self.pool.files,
+                    "found here",
+                    index,
+                    join_path(path, &[tag::file::SYNTAX]),
+                ),
+            });
+        }
 
         if !file.package().is_empty() {
             for (i, _) in file.package().match_indices('.') {
-- 
2.43.0


From 3df85edfee68a76312c0fcd2167b405f7d0a511c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 04/18] fix: reject out of range and malformed escapes in bytes
 defaults

Octal escapes above 255 overflowed, a hex escape followed by a multi-byte
character sliced the string inside the character, and a sign was accepted
as a hex digit.
---
 prost-reflect/src/descriptor/build/resolve.rs | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 7f888b6..b9328a1 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -855,23 +855,26 @@ fn unescape_c_escape_string(s: &str) -> Result<Bytes, &'static str> {
                     p += 1;
                 }
                 b'0'..=b'7' => {
-                    let mut octal = 0;
+                    let mut octal = 0u16;
                     for _ in 0..3 {
                         if p < len && src[p] >= b'0' && src[p] <= b'7' {
-                            octal = octal * 8 + (src[p] - b'0');
+                            octal = octal * 8 + u16::from(src[p] - b'0');
                             p += 1;
                         } else {
                             break;
                         }
                     }
-                    dst.push(octal);
+                    match u8::try_from(octal) {
+                        Ok(b) => dst.push(b),
+                        Err(_) => return Err("octal escape out of range"),
+                    }
                 }
                 b'x' | b'X' => {
                     if p + 3 > len {
                         return Err("hex escape must contain two characters");
                     }
-                    match u8::from_str_radix(&s[p + 1..p + 3], 16) {
-                        Ok(b) => dst.push(b),
+                    match (hex_digit(src[p + 1]), hex_digit(src[p + 2])) {
+                        (Some(hi), Some(lo)) => dst.push(hi * 16 + lo),
                         _ => return Err("invalid hex escape"),
                     }
                     p += 3;
@@ -883,6 +886,15 @@ fn unescape_c_escape_string(s: &str) -> Result<Bytes, &'static str> {
     Ok(dst.into())
 }
 
+fn hex_digit(ch: u8) -> Option<u8> {
+    match ch {
+        b'0'..=b'9' => Some(ch - b'0'),
+        b'a'..=b'f' => Some(ch - b'a' + 10),
+        b'A'..=b'F' => Some(ch - b'A' + 10),
+        _ => None,
+    }
+}
+
 fn set_type_name(
     file: &mut FileDescriptorProto,
     path: &[i32],
-- 
2.43.0


From 966c24b8cb9b2c05945e89be4a424d57f9ea00ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 05/18] fix: do not drop a trailing underscore when converting
 field mask paths

A path ending in an underscore cannot be converted to camel case and back.
---
 prost-reflect/src/dynamic/serde/case.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prost-reflect/src/dynamic/serde/case.rs b/prost-reflect/src/dynamic/serde/case.rs
index 03bb7f0..c97147b 100644
--- a/prost-reflect/src/dynamic/serde/case.rs
+++ b/prost-reflect/src/dynamic/serde/case.rs
@@ -22,6 +22,10 @@ pub(crate) fn snake_case_to_camel_case(dst: &mut String, src: &str) -> Result<()
         }
     }
 
+    if ucase_next {
+        return Err(());
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 09c30afa71c20f626649b0bdc86acb95f42b1a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 06/18] fix: reject singular values for repeated and map fields

Such values passed validation and then panicked when encoding.
---
 prost-reflect/src/dynamic/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prost-reflect/src/dynamic/mod.rs b/prost-reflect/src/dynamic/mod.rs
index 57a9262..2364ca4 100644
--- a/prost-reflect/src/dynamic/mod.rs
+++ b/prost-reflect/src/dynamic/mod.rs
@@ -648,6 +648,7 @@ impl Value {
                     key.is_valid(&key_desc) && value.is_valid_for_field(&value_desc)
                 })
             }
+            (_, _) if field_desc.is_list() || field_desc.is_map() => false,
             (value, kind) => value.is_valid(&kind),
         }
     }
@@ -667,6 +668,7 @@ impl Value {
                     key.is_valid(&key_desc) && value.is_valid_for_field(&value_desc)
                 })
             }
+            (_, _) if extension_desc.is_list() || extension_desc.is_map() => false,
             (value, kind) => value.is_valid(&kind),
         }
     }
-- 
2.43.0


From 4573a44275dc2db69f74f9078d51656dce6857e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:44 +0000
Subject: [PATCH 07/18] fix: reject out of range JSON numbers for 64-bit
 integers instead of saturating

2^63 and 2^64 passed the range check since the maximum rounds up when
converted to a double.
---
 prost-reflect/src/dynamic/serde/de/kind.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/de/kind.rs b/prost-reflect/src/dynamic/serde/de/kind.rs
index 4fc2fb5..0a5c4d9 100644
--- a/prost-reflect/src/dynamic/serde/de/kind.rs
+++ b/prost-reflect/src/dynamic/serde/de/kind.rs
@@ -399,7 +399,8 @@ impl Visitor<'_> for Int64Visitor {
             return Err(Error::custom("expected integer value"));
         }
 
-        if v < (i64::MIN as f64) || v > (i64::MAX as f64) {
+        // `i64::MAX as f64` rounds up to a value which is out of range
+        if v < (i64::MIN as f64) || v >= (i64::MAX as f64) {
             return Err(Error::custom("float value out of range"));
         }
 
@@ -446,7 +447,8 @@ impl Visitor<'_> for Uint64Visitor {
             return Err(Error::custom("expected integer value"));
         }
 
-        if v < (u64::MIN as f64) || v > (u64::MAX as f64) {
+        // `u64::MAX as f64` rounds up to a value which is out of range
+        if v < (u64::MIN as f64) || v >= (u64::MAX as f64) {
             return Err(Error::custom("float value out of range"));
         }
 
-- 
2.43.0


From 4c53becaaa917e128c4e6e8c7f14910af7bd7a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:45 +0000
Subject: [PATCH 08/18] fix: check the wire type when decoding map fields

A record with any other wire type was read as if it were a map entry.
---
 prost-reflect/src/dynamic/message.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prost-reflect/src/dynamic/message.rs b/prost-reflect/src/dynamic/message.rs
index 239c4c5..e543811 100644
--- a/prost-reflect/src/dynamic/message.rs
+++ b/prost-reflect/src/dynamic/message.rs
@@ -351,6 +351,8 @@ impl Value {
                 }
             }
             (Value::Map(values), Kind::Message(map_entry)) if field_desc.is_map() => {
+                prost::encoding::check_wire_type(WireType::LengthDelimited, wire_type)?;
+
                 let key_desc = map_entry.get_field(MAP_ENTRY_KEY_NUMBER).unwrap();
                 let value_desc = map_entry.get_field(MAP_ENTRY_VALUE_NUMBER).unwrap();
 
-- 
2.43.0


From d5e3a0acf5eed203382799283c968c1b4b67122c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:01 +0000
Subject: [PATCH 09/18] fix: use packed encoding by default for proto3 fields
 with other options

A repeated proto3 field with any option set, for example 'deprecated', was
treated as if 'packed = false' had been given.
---
 prost-reflect/src/descriptor/build/resolve.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index b9328a1..a87879b 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -123,7 +123,8 @@ impl Visitor for ResolveVisitor<'_> {
             && (field
                 .options
                 .as_ref()
-                .map_or(syntax == Syntax::Proto3, |o| o.value.packed()));
+                .and_then(|o| o.value.packed)
+                .unwrap_or(syntax == Syntax::Proto3));
 
         let supports_presence = field.proto3_optional()
             || field.oneof_index.is_some()
@@ -394,7 +395,8 @@ impl Visitor for ResolveVisitor<'_> {
             && (extension
                 .options
                 .as_ref()
-                .map_or(syntax == Syntax::Proto3, |o| o.value.packed()));
+                .and_then(|o| o.value.packed)
+                .unwrap_or(syntax == Syntax::Proto3));
 
         let default = kind.and_then(|kind| {
             self.parse_field_default_value(kind, extension.default_value.as_deref(), file, path)
-- 
2.43.0


From 8f1fc0eb62f426d52f2d1592c75b46be205e58bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 10/18] fix: only let imported scopes shadow names during
 resolution

---
 prost-reflect/src/descriptor/build/mod.rs     | 30 ++++++++++++++++++-
 prost-reflect/src/descriptor/build/options.rs |  1 +
 prost-reflect/src/descriptor/build/resolve.rs |  1 +
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/prost-reflect/src/descriptor/build/mod.rs b/prost-reflect/src/descriptor/build/mod.rs
index ae26778..05bd80d 100644
--- a/prost-reflect/src/descriptor/build/mod.rs
+++ b/prost-reflect/src/descriptor/build/mod.rs
@@ -316,6 +316,7 @@ fn to_json_name(name: &str) -> String {
 }
 
 fn resolve_name<'a, 'b>(
+    files: &[FileDescriptorInner],
     dependencies: &HashSet<FileIndex>,
     names: &'a HashMap<Box<str>, Definition>,
     scope: &str,
@@ -325,11 +326,31 @@ fn resolve_name<'a, 'b>(
     match name.strip_prefix('.') {
         Some(full_name) => ResolveNameResult::new(dependencies, names, full_name, filter),
         None if scope.is_empty() => ResolveNameResult::new(dependencies, names, name, filter),
-        None => resolve_relative_name(dependencies, names, scope, name, filter),
+        None => resolve_relative_name(files, dependencies, names, scope, name, filter),
+    }
+}
+
+/// Checks whether a definition which acts as a scope can be seen by a file with the given dependencies.
+///
+/// A package may be defined by any number of files, so it's not enough to check the file which first defined it.
+fn is_visible_scope(
+    files: &[FileDescriptorInner],
+    dependencies: &HashSet<FileIndex>,
+    name: &str,
+    def: &Definition,
+) -> bool {
+    match def.kind {
+        DefinitionKind::Package => dependencies.iter().any(|&file| {
+            let package = files[file as usize].raw.package();
+            package.starts_with(name)
+                && matches!(package.as_bytes().get(name.len()), None | Some(&b'.'))
+        }),
+        _ => dependencies.contains(&def.file),
     }
 }
 
 fn resolve_relative_name<'a, 'b>(
+    files: &[FileDescriptorInner],
     dependencies: &HashSet<FileIndex>,
     names: &'a HashMap<Box<str>, Definition>,
     scope: &str,
@@ -364,6 +385,13 @@ fn resolve_relative_name<'a, 'b>(
 
                     let res =
                         ResolveNameResult::new(dependencies, names, candidate_full.clone(), filter);
+                    if !is_visible_scope(files, dependencies, &candidate, def) {
+                        // A scope which isn't imported doesn't shadow the outer scopes.
+                        if matches!(err, ResolveNameResult::NotFound) {
+                            err = res;
+                        }
+                        continue;
+                    }
                     if matches!(res, ResolveNameResult::NotFound) {
                         return ResolveNameResult::Shadowed {
                             name: Cow::Borrowed(relative_name),
diff --git a/prost-reflect/src/descriptor/build/options.rs b/prost-reflect/src/descriptor/build/options.rs
index 6aa38c9..1084a49 100644
--- a/prost-reflect/src/descriptor/build/options.rs
+++ b/prost-reflect/src/descriptor/build/options.rs
@@ -521,6 +521,7 @@ impl OptionsVisitor<'_> {
         extendee: &MessageDescriptor,
     ) -> Result<ExtensionDescriptor, DescriptorErrorKind> {
         let (_, def) = resolve_name(
+            &self.pool.inner.files,
             &self.pool.inner.files[file as usize].transitive_dependencies,
             &self.pool.inner.names,
             scope,
diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index a87879b..29c1425 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -725,6 +725,7 @@ impl ResolveVisitor<'_> {
         filter: ResolveNameFilter,
     ) -> Option<&Definition> {
         let (type_name, def) = match resolve_name(
+            &self.pool.files,
             &self.pool.files[file as usize].transitive_dependencies,
             &self.pool.names,
             scope,
-- 
2.43.0


From a0d55ee833b03046b955ca02a31be43bc6c6a53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:40 +0000
Subject: [PATCH 11/18] fix: reject timestamps and durations with invalid nanos
 when serializing

---
 prost-reflect/src/dynamic/serde/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/prost-reflect/src/dynamic/serde/mod.rs b/prost-reflect/src/dynamic/serde/mod.rs
index 8139977..0303076 100644
--- a/prost-reflect/src/dynamic/serde/mod.rs
+++ b/prost-reflect/src/dynamic/serde/mod.rs
@@ -261,6 +261,7 @@ const MAX_DURATION_NANOS: u32 = 999_999_999;
 
 const MIN_TIMESTAMP_SECONDS: i64 = -62135596800;
 const MAX_TIMESTAMP_SECONDS: i64 = 253402300799;
+const MAX_TIMESTAMP_NANOS: i32 = 999_999_999;
 
 fn is_well_known_type(full_name: &str) -> bool {
     matches!(
@@ -290,13 +291,20 @@ fn check_duration(duration: &prost_types::Duration) -> Result<(), &'static str>
         || duration.nanos.unsigned_abs() > MAX_DURATION_NANOS
     {
         Err("duration out of range")
+    } else if (duration.seconds > 0 && duration.nanos < 0)
+        || (duration.seconds < 0 && duration.nanos > 0)
+    {
+        Err("duration seconds and nanos have different signs")
     } else {
         Ok(())
     }
 }
 
 fn check_timestamp(timestamp: &prost_types::Timestamp) -> Result<(), &'static str> {
-    if timestamp.seconds < MIN_TIMESTAMP_SECONDS || MAX_TIMESTAMP_SECONDS < timestamp.seconds {
+    if timestamp.seconds < MIN_TIMESTAMP_SECONDS
+        || MAX_TIMESTAMP_SECONDS < timestamp.seconds
+        || !(0..=MAX_TIMESTAMP_NANOS).contains(&timestamp.nanos)
+    {
         Err("timestamp out of range")
     } else {
         Ok(())
-- 
2.43.0


From 23cbd90de27bb976019b8c034e76eff601e0e60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:40 +0000
Subject: [PATCH 12/18] fix: serialize non-finite FloatValue and DoubleValue
 wrappers as strings

---
 prost-reflect/src/dynamic/serde/ser/mod.rs | 58 +++++++++++++---------
 prost-reflect/src/dynamic/serde/ser/wkt.rs |  6 +--
 2 files changed, 37 insertions(+), 27 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/ser/mod.rs b/prost-reflect/src/dynamic/serde/ser/mod.rs
index 7da55a2..d3eee6b 100644
--- a/prost-reflect/src/dynamic/serde/ser/mod.rs
+++ b/prost-reflect/src/dynamic/serde/ser/mod.rs
@@ -89,6 +89,38 @@ where
     Ok(())
 }
 
+fn serialize_f32<S>(value: f32, serializer: S) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    if value.is_finite() {
+        serializer.serialize_f32(value)
+    } else if value == f32::INFINITY {
+        serializer.serialize_str("Infinity")
+    } else if value == f32::NEG_INFINITY {
+        serializer.serialize_str("-Infinity")
+    } else {
+        debug_assert!(value.is_nan());
+        serializer.serialize_str("NaN")
+    }
+}
+
+fn serialize_f64<S>(value: f64, serializer: S) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    if value.is_finite() {
+        serializer.serialize_f64(value)
+    } else if value == f64::INFINITY {
+        serializer.serialize_str("Infinity")
+    } else if value == f64::NEG_INFINITY {
+        serializer.serialize_str("-Infinity")
+    } else {
+        debug_assert!(value.is_nan());
+        serializer.serialize_str("NaN")
+    }
+}
+
 struct ValueAndKind<'a> {
     value: &'a Value,
     kind: &'a Kind,
@@ -117,30 +149,8 @@ impl<'a> Serialize for SerializeWrapper<'a, ValueAndKind<'a>> {
                     serializer.serialize_u64(*value)
                 }
             }
-            Value::F32(value) => {
-                if value.is_finite() {
-                    serializer.serialize_f32(*value)
-                } else if *value == f32::INFINITY {
-                    serializer.serialize_str("Infinity")
-                } else if *value == f32::NEG_INFINITY {
-                    serializer.serialize_str("-Infinity")
-                } else {
-                    debug_assert!(value.is_nan());
-                    serializer.serialize_str("NaN")
-                }
-            }
-            Value::F64(value) => {
-                if value.is_finite() {
-                    serializer.serialize_f64(*value)
-                } else if *value == f64::INFINITY {
-                    serializer.serialize_str("Infinity")
-                } else if *value == f64::NEG_INFINITY {
-                    serializer.serialize_str("-Infinity")
-                } else {
-                    debug_assert!(value.is_nan());
-                    serializer.serialize_str("NaN")
-                }
-            }
+            Value::F32(value) => serialize_f32(*value, serializer),
+            Value::F64(value) => serialize_f64(*value, serializer),
             Value::String(value) => serializer.serialize_str(value),
             Value::Bytes(value) => {
                 serializer.collect_str(&Base64Display::new(value, &BASE64_STANDARD))
diff --git a/prost-reflect/src/dynamic/serde/ser/wkt.rs b/prost-reflect/src/dynamic/serde/ser/wkt.rs
index 423ef26..64ecdd2 100644
--- a/prost-reflect/src/dynamic/serde/ser/wkt.rs
+++ b/prost-reflect/src/dynamic/serde/ser/wkt.rs
@@ -14,7 +14,7 @@ use crate::{
     ReflectMessage,
 };
 
-use super::{serialize_dynamic_message_fields, SerializeWrapper};
+use super::{serialize_dynamic_message_fields, serialize_f32, serialize_f64, SerializeWrapper};
 
 #[allow(type_alias_bounds)]
 type WellKnownTypeSerializer<S: Serializer> =
@@ -131,7 +131,7 @@ where
 {
     let raw: f32 = msg.transcode_to().map_err(decode_to_ser_err)?;
 
-    serializer.serialize_f32(raw)
+    serialize_f32(raw, serializer)
 }
 
 fn serialize_double<S>(
@@ -144,7 +144,7 @@ where
 {
     let raw: f64 = msg.transcode_to().map_err(decode_to_ser_err)?;
 
-    serializer.serialize_f64(raw)
+    serialize_f64(raw, serializer)
 }
 
 fn serialize_int32<S>(
-- 
2.43.0


From ec517563e4ae5bbc092675ef74f2740f51ffc3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 13/18] fix: reject field mask paths which cannot be
 represented in JSON

---
 prost-reflect/src/dynamic/serde/ser/wkt.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prost-reflect/src/dynamic/serde/ser/wkt.rs b/prost-reflect/src/dynamic/serde/ser/wkt.rs
index 64ecdd2..02e627d 100644
--- a/prost-reflect/src/dynamic/serde/ser/wkt.rs
+++ b/prost-reflect/src/dynamic/serde/ser/wkt.rs
@@ -258,6 +258,10 @@ where
 
     let mut result = String::new();
     for path in raw.paths {
+        if path.is_empty() || path.contains(',') {
+            return Err(Error::custom("cannot roundtrip field mask path"));
+        }
+
         if !result.is_empty() {
             result.push(',');
         }
-- 
2.43.0


From afed12363d16f59dfd7096d825b628333f010196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 14/18] fix: parse text format floats without rounding twice

---
 .../src/dynamic/text_format/parse/mod.rs      | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/prost-reflect/src/dynamic/text_format/parse/mod.rs b/prost-reflect/src/dynamic/text_format/parse/mod.rs
index c15153e..bc8acb2 100644
--- a/prost-reflect/src/dynamic/text_format/parse/mod.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/mod.rs
@@ -1,7 +1,7 @@
 mod error;
 mod lex;
 
-use std::{borrow::Cow, convert::TryFrom, iter::once};
+use std::{borrow::Cow, convert::TryFrom, iter::once, ops::Neg, str::FromStr};
 
 use logos::{Lexer, Logos, Span};
 use prost::Message;
@@ -274,7 +274,7 @@ impl<'a> Parser<'a> {
         match kind {
             Kind::Float => {
                 let (value, span) = self.parse_float()?;
-                Ok((Value::F32(value as f32), span))
+                Ok((Value::F32(value), span))
             }
             Kind::Double => {
                 let (value, span) = self.parse_float()?;
@@ -323,7 +323,11 @@ impl<'a> Parser<'a> {
         }
     }
 
-    fn parse_float(&mut self) -> Result<(f64, Span), ParseErrorKind> {
+    // The literal is parsed directly as the target type, since converting a parsed f64 to f32 would round twice.
+    fn parse_float<T>(&mut self) -> Result<(T, Span), ParseErrorKind>
+    where
+        T: FromStr + From<f32> + Neg<Output = T>,
+    {
         let (negative, start) = match self.peek()? {
             Some((Token::Minus, _)) => (true, self.bump()),
             Some((_, span)) => (false, span),
@@ -331,17 +335,20 @@ impl<'a> Parser<'a> {
         };
 
         let (value, end) = match self.peek()? {
-            Some((Token::FloatLiteral(value), _)) => (value, self.bump()),
-            Some((Token::IntLiteral(Int { value, radix: 10 }), _)) => {
-                (value.parse().unwrap(), self.bump())
+            Some((Token::FloatLiteral(_) | Token::IntLiteral(Int { radix: 10, .. }), span)) => {
+                let literal = self.lexer.source()[span].trim_end_matches(['f', 'F']);
+                match literal.parse() {
+                    Ok(value) => (value, self.bump()),
+                    Err(_) => self.unexpected_token("a number")?,
+                }
             }
             Some((Token::Ident(value), _))
                 if value.eq_ignore_ascii_case("inf") || value.eq_ignore_ascii_case("infinity") =>
             {
-                (f64::INFINITY, self.bump())
+                (T::from(f32::INFINITY), self.bump())
             }
             Some((Token::Ident(value), _)) if value.eq_ignore_ascii_case("nan") => {
-                (f64::NAN, self.bump())
+                (T::from(f32::NAN), self.bump())
             }
             _ => self.unexpected_token("a number")?,
         };
-- 
2.43.0


From 46698062587dd452b489efb85bf121955fe54c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 15/18] fix: do not expand Any messages whose type URL cannot
 be parsed back

---
 prost-reflect/src/dynamic/text_format/format.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/prost-reflect/src/dynamic/text_format/format.rs b/prost-reflect/src/dynamic/text_format/format.rs
index 0f168f9..186dceb 100644
--- a/prost-reflect/src/dynamic/text_format/format.rs
+++ b/prost-reflect/src/dynamic/text_format/format.rs
@@ -304,6 +304,12 @@ fn as_any(message: &DynamicMessage) -> Option<(String, DynamicMessage)> {
     let any = message.transcode_to::<prost_types::Any>().ok()?;
     let message_name = get_type_url_message_name(&any.type_url).ok()?;
 
+    // The expanded syntax only supports domains which are dotted identifiers
+    let domain = &any.type_url[..any.type_url.len() - message_name.len() - 1];
+    if !domain.split('.').all(is_identifier) {
+        return None;
+    }
+
     let desc = message
         .desc
         .parent_pool()
@@ -312,6 +318,12 @@ fn as_any(message: &DynamicMessage) -> Option<(String, DynamicMessage)> {
     Some((any.type_url, body))
 }
 
+fn is_identifier(s: &str) -> bool {
+    !s.is_empty()
+        && !s.starts_with(|ch: char| ch.is_ascii_digit())
+        && s.chars().all(|ch| ch.is_ascii_alphanumeric() || ch == '_')
+}
+
 #[cfg(test)]
 #[cfg(feature = "text-format")]
 mod tests {
-- 
2.43.0


From 53a5914a8973e760dab0304ed0e88f01de3bcdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:39 +0000
Subject: [PATCH 16/18] fix: accept the JSON text of the largest 32-bit floats

---
 prost-reflect/src/dynamic/serde/de/kind.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/de/kind.rs b/prost-reflect/src/dynamic/serde/de/kind.rs
index 0a5c4d9..45c3fc6 100644
--- a/prost-reflect/src/dynamic/serde/de/kind.rs
+++ b/prost-reflect/src/dynamic/serde/de/kind.rs
@@ -213,10 +213,11 @@ impl Visitor<'_> for FloatVisitor {
     where
         E: Error,
     {
-        if v < (f32::MIN as f64) || v > (f32::MAX as f64) {
+        let value = v as f32;
+        if value.is_infinite() {
             Err(Error::custom("float value out of range"))
         } else {
-            Ok(v as f32)
+            Ok(value)
         }
     }
 
-- 
2.43.0


From 9ef225521db84a3c87e2cd7cb517f9aebc102ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:40 +0000
Subject: [PATCH 17/18] fix: reject decimal integers with leading zeros in the
 text format

---
 prost-reflect/src/dynamic/text_format/parse/lex.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prost-reflect/src/dynamic/text_format/parse/lex.rs b/prost-reflect/src/dynamic/text_format/parse/lex.rs
index 91d2b45..38c23bb 100644
--- a/prost-reflect/src/dynamic/text_format/parse/lex.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/lex.rs
@@ -100,6 +100,12 @@ impl fmt::Display for Token<'_> {
 
 fn int<'a>(lex: &mut Lexer<'a, Token<'a>>, radix: u32, prefix_len: usize) -> Result<Int<'a>, ()> {
     debug_assert!(lex.slice().len() > prefix_len);
+
+    // Logos may match digits after a leading zero while looking for a float literal
+    if radix == 10 && lex.slice().len() > 1 && lex.slice().starts_with('0') {
+        return Err(());
+    }
+
     let span = lex.span().start + prefix_len..lex.span().end;
 
     if matches!(lex.remainder().chars().next(), Some(ch) if ch.is_ascii_alphabetic() || ch == '_') {
-- 
2.43.0


From 4439cc2afcd0f6972e693a11861ed20d9cb88ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:07 +0000
Subject: [PATCH 18/18] fix: treat JSON null for a repeated
 google.protobuf.Value or NullValue field as unset

---
 prost-reflect/src/dynamic/serde/de/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prost-reflect/src/dynamic/serde/de/mod.rs b/prost-reflect/src/dynamic/serde/de/mod.rs
index 3c16423..bbafc32 100644
--- a/prost-reflect/src/dynamic/serde/de/mod.rs
+++ b/prost-reflect/src/dynamic/serde/de/mod.rs
@@ -169,6 +169,11 @@ where
     where
         E: Error,
     {
+        // `null` is the empty list or map, even where `null` is a value of the element type.
+        if self.0.is_list() || self.0.is_map() {
+            return Ok(None);
+        }
+
         match self.0.kind() {
             Kind::Message(message_desc) if message_desc.full_name() == "google.protobuf.Value" => {
                 make_message(
-- 
2.43.0

