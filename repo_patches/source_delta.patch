From 8d78bce2217c8c1b6ad07216bb502ec59cef4b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 01/25] fix: own the inserted value before copy on write, so a
 value can be inserted into itself

---
 include/dart/heap/api.tcc | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/dart/heap/api.tcc b/include/dart/heap/api.tcc
index a0316f8..042d499 100644
--- a/include/dart/heap/api.tcc
+++ b/include/dart/heap/api.tcc
@@ -118,12 +118,13 @@ namespace dart {
   template <template <class> class RefCount>
   template <class KeyType, class ValueType, class EnableIf>
   auto basic_heap<RefCount>::insert(KeyType&& key, ValueType&& value) -> iterator {
-    // Perform our copy on write if our heap is shared.
-    copy_on_write();
-
     // Cast and forward the key/value into something we can insert.
+    // The value may be (or share storage with) this heap, so it must be owned before we copy on write.
     auto&& tmp_key = convert::cast<basic_heap>(std::forward<KeyType>(key));
-    auto&& tmp_value = convert::cast<basic_heap>(std::forward<ValueType>(value));
+    basic_heap tmp_value = convert::cast<basic_heap>(std::forward<ValueType>(value));
+
+    // Perform our copy on write if our heap is shared.
+    copy_on_write();
 
     // Perform the insertion.
     if (tmp_key.is_str()) {
@@ -170,12 +171,13 @@ namespace dart {
   template <template <class> class RefCount>
   template <class KeyType, class ValueType, class EnableIf>
   auto basic_heap<RefCount>::set(KeyType&& key, ValueType&& value) -> iterator {
-    // Perform our copy on write if our heap is shared.
-    copy_on_write();
-
     // Cast and forward the key/value into something we can use.
+    // The value may be (or share storage with) this heap, so it must be owned before we copy on write.
     auto&& tmp_key = convert::cast<basic_heap>(std::forward<KeyType>(key));
-    auto&& tmp_val = convert::cast<basic_heap>(std::forward<ValueType>(value));
+    basic_heap tmp_val = convert::cast<basic_heap>(std::forward<ValueType>(value));
+
+    // Perform our copy on write if our heap is shared.
+    copy_on_write();
 
     // Update the given value IF present.
     if (tmp_key.is_str()) {
-- 
2.43.0


From 64c1dc3cc4159b255cf0440c2ce975f2abba3777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 02/25] fix: clear, reserve and resize copy out of shared
 storage first

---
 include/dart/heap/api.tcc   | 2 ++
 include/dart/heap/array.tcc | 8 +++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/dart/heap/api.tcc b/include/dart/heap/api.tcc
index 042d499..be6704a 100644
--- a/include/dart/heap/api.tcc
+++ b/include/dart/heap/api.tcc
@@ -257,6 +257,8 @@ namespace dart {
   template <template <class> class RefCount>
   template <bool enabled, class EnableIf>
   void basic_heap<RefCount>::clear() {
+    // Make sure we copy out if our heap is shared.
+    copy_on_write();
     if (is_object()) get_fields().clear();
     else if (is_array()) get_elements().clear();
     else throw type_error("dart::heap is not an aggregate and cannot be cleared");
diff --git a/include/dart/heap/array.tcc b/include/dart/heap/array.tcc
index 45e0783..d2a46bb 100644
--- a/include/dart/heap/array.tcc
+++ b/include/dart/heap/array.tcc
@@ -123,13 +123,19 @@ namespace dart {
   template <template <class> class RefCount>
   template <bool enabled, class EnableIf>
   void basic_heap<RefCount>::reserve(size_type count) {
+    // Make sure we copy out if our heap is shared.
+    copy_on_write();
     get_elements().reserve(count);
   }
 
   template <template <class> class RefCount>
   template <class T, class EnableIf>
   void basic_heap<RefCount>::resize(size_type count, T const& def) {
-    get_elements().resize(count, convert::cast<basic_heap>(def));
+    // Make sure we copy out if our heap is shared.
+    // The default may be (or share storage with) this heap, so own it first.
+    basic_heap tmp_def = convert::cast<basic_heap>(def);
+    copy_on_write();
+    get_elements().resize(count, tmp_def);
   }
 
   template <template <class> class RefCount>
-- 
2.43.0


From e5494832ff74b251d677f87812b464543b806c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 03/25] fix: reading a finalized number as a boolean reports
 the type error

---
 include/dart/buffer/primitive.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dart/buffer/primitive.tcc b/include/dart/buffer/primitive.tcc
index 858fea8..a975a9a 100644
--- a/include/dart/buffer/primitive.tcc
+++ b/include/dart/buffer/primitive.tcc
@@ -33,7 +33,8 @@ namespace dart {
 
   template <template <class> class RefCount>
   bool basic_buffer<RefCount>::boolean() const {
-    return detail::get_primitive<bool>(raw)->get_data();
+    if (is_boolean()) return detail::get_primitive<bool>(raw)->get_data();
+    else throw type_error("dart::buffer is not a finalized boolean and cannot be accessed as such");
   }
 
 }
-- 
2.43.0


From bb0d559ae23c281da4e3918b6a59ab02d08f48ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:51 +0000
Subject: [PATCH 04/25] fix: front_or and back_or work on a finalized packet

---
 include/dart/packet/array.tcc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dart/packet/array.tcc b/include/dart/packet/array.tcc
index c19caa5..ae62610 100644
--- a/include/dart/packet/array.tcc
+++ b/include/dart/packet/array.tcc
@@ -236,7 +236,8 @@ namespace dart {
   template <template <class> class RefCount>
   template <class T, class EnableIf>
   basic_packet<RefCount> basic_packet<RefCount>::front_or(T&& opt) const {
-    return get_heap().front_or(std::forward<T>(opt));
+    if (is_array() && !empty()) return front();
+    else return convert::cast<basic_packet>(std::forward<T>(opt));
   }
 
   template <template <class> class RefCount>
@@ -254,7 +255,8 @@ namespace dart {
   template <template <class> class RefCount>
   template <class T, class EnableIf>
   basic_packet<RefCount> basic_packet<RefCount>::back_or(T&& opt) const {
-    return get_heap().back_or(std::forward<T>(opt));
+    if (is_array() && !empty()) return back();
+    else return convert::cast<basic_packet>(std::forward<T>(opt));
   }
 
   template <template <class> class RefCount>
-- 
2.43.0


From 53f169ba502b15b300f19bb0574d96b861a0dbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:51 +0000
Subject: [PATCH 05/25] fix: at_front and at_back on an expiring packet no
 longer flow off the end of a function that returns a value

---
 include/dart/packet/array.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/packet/array.tcc b/include/dart/packet/array.tcc
index ae62610..2a6d50c 100644
--- a/include/dart/packet/array.tcc
+++ b/include/dart/packet/array.tcc
@@ -205,7 +205,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <bool enabled, class EnableIf>
   basic_packet<RefCount>&& basic_packet<RefCount>::at_front() && {
-    shim::visit([] (auto& v) -> basic_packet { v = std::move(v).at_front(); }, impl);
+    shim::visit([] (auto& v) { v = std::move(v).at_front(); }, impl);
     return std::move(*this);
   }
 
@@ -217,7 +217,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <bool enabled, class EnableIf>
   basic_packet<RefCount>&& basic_packet<RefCount>::at_back() && {
-    shim::visit([] (auto& v) -> basic_packet { v = std::move(v).at_back(); }, impl);
+    shim::visit([] (auto& v) { v = std::move(v).at_back(); }, impl);
     return std::move(*this);
   }
 
-- 
2.43.0


From d5d73315a6aec539a711eb0c56066122210275de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 06/25] fix: a value initialized with an unknown reference
 counter is the null value, not an uninitialized structure

---
 src/buffer.cc  | 6 +++---
 src/generic.cc | 6 +++---
 src/heap.cc    | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/buffer.cc b/src/buffer.cc
index ff56675..b3dd17f 100644
--- a/src/buffer.cc
+++ b/src/buffer.cc
@@ -195,10 +195,10 @@ extern "C" {
   }
 
   dart_buffer_t dart_buffer_init_rc(dart_rc_type_t rc) {
-    // Cannot meaningfully fail.
     dart_buffer_t dst;
-    dart_buffer_init_rc_err(&dst, rc);
-    return dst;
+    auto err = dart_buffer_init_rc_err(&dst, rc);
+    if (err) return dart_buffer_init();
+    else return dst;
   }
 
   dart_err_t dart_buffer_init_rc_err(dart_buffer_t* dst, dart_rc_type_t rc) {
diff --git a/src/generic.cc b/src/generic.cc
index 5d0b574..2c5ac0e 100644
--- a/src/generic.cc
+++ b/src/generic.cc
@@ -686,10 +686,10 @@ extern "C" {
   }
 
   dart_packet_t dart_init_rc(dart_rc_type_t rc) {
-    // Cannot meaningfully fail.
     dart_packet_t dst;
-    dart_init_rc_err(&dst, rc);
-    return dst;
+    auto err = dart_init_rc_err(&dst, rc);
+    if (err) return dart_init();
+    else return dst;
   }
 
   dart_err_t dart_init_rc_err(dart_packet_t* dst, dart_rc_type_t rc) {
diff --git a/src/heap.cc b/src/heap.cc
index e49e273..541f9e5 100644
--- a/src/heap.cc
+++ b/src/heap.cc
@@ -547,10 +547,10 @@ extern "C" {
   }
 
   dart_heap_t dart_heap_init_rc(dart_rc_type_t rc) {
-    // Cannot meaningfully fail.
     dart_heap_t dst;
-    dart_heap_init_rc_err(&dst, rc);
-    return dst;
+    auto err = dart_heap_init_rc_err(&dst, rc);
+    if (err) return dart_heap_init();
+    else return dst;
   }
 
   dart_err_t dart_heap_init_rc_err(dart_heap_t* dst, dart_rc_type_t rc) {
-- 
2.43.0


From 39990df54c659860a1655f127e5d3b685dd2d3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 07/25] fix: arithmetic on a finalized number reports the state
 error instead of ending the process

---
 include/dart.h             | 16 ++++++++--------
 include/dart/primitive.tcc | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/dart.h b/include/dart.h
index b3ce7ac..6cb7827 100644
--- a/include/dart.h
+++ b/include/dart.h
@@ -3882,56 +3882,56 @@ namespace dart {
           meta::is_detected<make_decimal_t, Number, Arg>::value
         >
       >
-      basic_number& operator +=(Arg val) noexcept;
+      basic_number& operator +=(Arg val);
 
       template <class Arg, class EnableIf =
         std::enable_if_t<
           meta::is_detected<make_decimal_t, Number, Arg>::value
         >
       >
-      basic_number& operator -=(Arg val) noexcept;
+      basic_number& operator -=(Arg val);
 
       template <class Arg, class EnableIf =
         std::enable_if_t<
           meta::is_detected<make_decimal_t, Number, Arg>::value
         >
       >
-      basic_number& operator *=(Arg val) noexcept;
+      basic_number& operator *=(Arg val);
 
       template <class Arg, class EnableIf =
         std::enable_if_t<
           meta::is_detected<make_decimal_t, Number, Arg>::value
         >
       >
-      basic_number& operator /=(Arg val) noexcept;
+      basic_number& operator /=(Arg val);
 
       template <class Num = Number, class EnableIf =
         std::enable_if_t<
           meta::is_detected<make_decimal_t, Num, double>::value
         >
       >
-      basic_number& operator ++() noexcept;
+      basic_number& operator ++();
 
       template <class Num = Number, class EnableIf =
         std::enable_if_t<
           meta::is_detected<make_decimal_t, Num, double>::value
         >
       >
-      basic_number& operator --() noexcept;
+      basic_number& operator --();
 
       template <class Num = Number, class EnableIf =
         std::enable_if_t<
           meta::is_detected<make_decimal_t, Num, double>::value
         >
       >
-      basic_number operator ++(int) noexcept;
+      basic_number operator ++(int);
 
       template <class Num = Number, class EnableIf =
         std::enable_if_t<
           meta::is_detected<make_decimal_t, Num, double>::value
         >
       >
-      basic_number operator --(int) noexcept;
+      basic_number operator --(int);
 
       /**
        *  @brief
diff --git a/include/dart/primitive.tcc b/include/dart/primitive.tcc
index 06eca5e..fd69e57 100644
--- a/include/dart/primitive.tcc
+++ b/include/dart/primitive.tcc
@@ -29,49 +29,49 @@ namespace dart {
 
   template <class Number>
   template <class Arg, class EnableIf>
-  basic_number<Number>& basic_number<Number>::operator +=(Arg val) noexcept {
+  basic_number<Number>& basic_number<Number>::operator +=(Arg val) {
     this->val = numeric() + val;
     return *this;
   }
 
   template <class Number>
   template <class Arg, class EnableIf>
-  basic_number<Number>& basic_number<Number>::operator -=(Arg val) noexcept {
+  basic_number<Number>& basic_number<Number>::operator -=(Arg val) {
     this->val = numeric() - val;
     return *this;
   }
 
   template <class Number>
   template <class Arg, class EnableIf>
-  basic_number<Number>& basic_number<Number>::operator *=(Arg val) noexcept {
+  basic_number<Number>& basic_number<Number>::operator *=(Arg val) {
     this->val = numeric() * val;
     return *this;
   }
 
   template <class Number>
   template <class Arg, class EnableIf>
-  basic_number<Number>& basic_number<Number>::operator /=(Arg val) noexcept {
+  basic_number<Number>& basic_number<Number>::operator /=(Arg val) {
     this->val = numeric() / val;
     return *this;
   }
 
   template <class Number>
   template <class Num, class EnableIf>
-  basic_number<Number>& basic_number<Number>::operator ++() noexcept {
+  basic_number<Number>& basic_number<Number>::operator ++() {
     val = numeric() + 1;
     return *this;
   }
 
   template <class Number>
   template <class Num, class EnableIf>
-  basic_number<Number>& basic_number<Number>::operator --() noexcept {
+  basic_number<Number>& basic_number<Number>::operator --() {
     val = numeric() - 1;
     return *this;
   }
 
   template <class Number>
   template <class Num, class EnableIf>
-  basic_number<Number> basic_number<Number>::operator ++(int) noexcept {
+  basic_number<Number> basic_number<Number>::operator ++(int) {
     auto copy = *this;
     val = numeric() + 1;
     return copy;
@@ -79,7 +79,7 @@ namespace dart {
 
   template <class Number>
   template <class Num, class EnableIf>
-  basic_number<Number> basic_number<Number>::operator --(int) noexcept {
+  basic_number<Number> basic_number<Number>::operator --(int) {
     auto copy = *this;
     val = numeric() - 1;
     return copy;
-- 
2.43.0


From ea4499ac8200f465bd4cb945e846475fa93d4576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:30 +0000
Subject: [PATCH 08/25] fix: a view of a temporary constant is rejected like
 one of any other temporary

---
 include/dart.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/dart.h b/include/dart.h
index 6cb7827..80682bb 100644
--- a/include/dart.h
+++ b/include/dart.h
@@ -594,6 +594,7 @@ namespace dart {
        */
       operator view() const& noexcept;
       operator view() && = delete;
+      operator view() const&& = delete;
 
       /**
        *  @brief
@@ -2203,6 +2204,7 @@ namespace dart {
        */
       operator view() const& noexcept;
       operator view() && = delete;
+      operator view() const&& = delete;
 
       /**
        *  @brief
@@ -3374,6 +3376,7 @@ namespace dart {
        */
       operator view() const& noexcept;
       operator view() && = delete;
+      operator view() const&& = delete;
 
       /**
        *  @brief
@@ -3949,6 +3952,7 @@ namespace dart {
        */
       operator view() const& noexcept;
       operator view() && = delete;
+      operator view() const&& = delete;
 
       /**
        *  @brief
@@ -4433,6 +4437,7 @@ namespace dart {
        */
       operator view() const& noexcept;
       operator view() && = delete;
+      operator view() const&& = delete;
 
       /**
        *  @brief
@@ -4838,6 +4843,7 @@ namespace dart {
        */
       operator view() const& noexcept;
       operator view() && = delete;
+      operator view() const&& = delete;
 
       /**
        *  @brief
@@ -5374,6 +5380,7 @@ namespace dart {
        */
       operator view() const& noexcept;
       operator view() && = delete;
+      operator view() const&& = delete;
 
       /**
        *  @brief
@@ -8373,6 +8380,7 @@ namespace dart {
        */
       operator view() const& noexcept;
       operator view() && = delete;
+      operator view() const&& = delete;
 
       /**
        *  @brief
@@ -10878,6 +10886,7 @@ namespace dart {
        */
       operator view() const& noexcept;
       operator view() && = delete;
+      operator view() const&& = delete;
 
       /**
        *  @brief
-- 
2.43.0


From 3aa77ded2fe62c39be632bbbf155f44bf75478d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 09/25] fix: build object table entries from keys of explicit
 length

Keys holding NUL bytes were recorded with the length of their first part, so they could not be found in finalized objects.
---
 include/dart/object.tcc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 8258bc3..134dfb0 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -280,7 +280,8 @@ namespace dart {
 
         // Add an entry to the vtable.
         auto val_type = json_identify<RefCount>(it->value);
-        new(entry++) object_entry(val_type, static_cast<uint32_t>(offset), it->name.GetString());
+        shim::string_view keyv {it->name.GetString(), it->name.GetStringLength()};
+        new(entry++) object_entry(val_type, static_cast<uint32_t>(offset), keyv);
 
         // Layout our key.
         offset += json_lower<RefCount>(aligned, it->name);
@@ -319,7 +320,7 @@ namespace dart {
         // Add an entry to the vtable.
         new(entry++)
           object_entry(pair.value.get_raw_type(),
-            static_cast<uint32_t>(offset), pair.key.str());
+            static_cast<uint32_t>(offset), pair.key.strv());
 
         // Layout our key.
         offset += pair.key.layout(aligned);
@@ -358,7 +359,7 @@ namespace dart {
         // Add an entry to the vtable.
         new(entry++)
           object_entry(field.second.get_raw_type(),
-              static_cast<uint32_t>(offset), field.first.str());
+              static_cast<uint32_t>(offset), field.first.strv());
 
         // Layout our key.
         offset += field.first.layout(aligned);
@@ -410,7 +411,7 @@ namespace dart {
         // Add an entry to the vtable.
         auto* key = get_string(raw_key);
         new(entry++) object_entry(raw_val.type,
-            static_cast<uint32_t>(offset), key->get_strv().data());
+            static_cast<uint32_t>(offset), key->get_strv());
 
         // Copy in our key.
         auto key_len = find_sizeof<RefCount>(raw_key);
@@ -459,7 +460,7 @@ namespace dart {
         // Add an entry to the vtable.
         auto* key = get_string(raw_key);
         new(entry++) object_entry(raw_val.type,
-            static_cast<uint32_t>(offset), key->get_strv().data());
+            static_cast<uint32_t>(offset), key->get_strv());
 
         // Copy in our key.
         auto key_len = find_sizeof<RefCount>(raw_key);
-- 
2.43.0


From 212bd13a273c8ba5a7e5b92d25c5af5a7ba97a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 10/25] fix: compare heap strings over their whole length

Two different strings agreeing up to an embedded NUL compared equal.
---
 include/dart/common.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/common.h b/include/dart/common.h
index 7527ef3..d42cd0a 100644
--- a/include/dart/common.h
+++ b/include/dart/common.h
@@ -307,7 +307,7 @@ namespace dart {
     struct dynamic_string_layout {
       bool operator ==(dynamic_string_layout const& other) const noexcept {
         if (len != other.len) return false;
-        else return !strcmp(ptr.get(), other.ptr.get());
+        else return std::equal(ptr.get(), ptr.get() + len, other.ptr.get());
       }
       bool operator !=(dynamic_string_layout const& other) const noexcept {
         return !(*this == other);
@@ -319,7 +319,7 @@ namespace dart {
     struct inline_string_layout {
       bool operator ==(inline_string_layout const& other) const noexcept {
         if (left != other.left) return false;
-        else return !strcmp(buffer.data(), other.buffer.data());
+        else return std::equal(buffer.data(), buffer.data() + (buffer.size() - left), other.buffer.data());
       }
       bool operator !=(inline_string_layout const& other) const noexcept {
         return !(*this == other);
-- 
2.43.0


From ffb25675a77756caf457449b3e4d915f3c635bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 11/25] fix: compare YAML scalars with the literals over their
 whole length

A scalar holding a NUL after null, true or false lost its contents.
---
 include/dart/connector/yaml.tcc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/dart/connector/yaml.tcc b/include/dart/connector/yaml.tcc
index c04d940..e132dcf 100644
--- a/include/dart/connector/yaml.tcc
+++ b/include/dart/connector/yaml.tcc
@@ -186,6 +186,7 @@ namespace dart {
     basic_heap<RefCount> parse_scalar(yaml_event_t const& event) {
       size_t len = event.data.scalar.length;
       char const* str = reinterpret_cast<char const*>(event.data.scalar.value);
+      shim::string_view const strv {str, len};
 
       // Try to figure out what this is.
       int64_t int_val = 0;
@@ -193,13 +194,13 @@ namespace dart {
       type decision = type::string;
       switch (*str) {
         case 'n':
-          if (!strcmp(str, "null")) return basic_heap<RefCount>::make_null();
+          if (strv == "null") return basic_heap<RefCount>::make_null();
           return basic_heap<RefCount>::make_string({str, len});
         case 't':
         case 'f':
           // Could be a true or false literal.
-          if (!strcmp(str, "true") || !strcmp(str, "false")) {
-            return basic_heap<RefCount>::make_boolean(!strcmp(str, "true"));
+          if (strv == "true" || strv == "false") {
+            return basic_heap<RefCount>::make_boolean(strv == "true");
           }
           return basic_heap<RefCount>::make_string({str, len});
         case '0':
-- 
2.43.0


From a1f6694a3516f4e2d35fa5983c36504bee9507cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 12/25] fix: order key prefixes like the keys themselves

The search in a finalized object compared prefix bytes as signed characters and decided on capped lengths, so keys with bytes above 127 or of 255 bytes and more could be missed.
---
 include/dart/common.tcc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/dart/common.tcc b/include/dart/common.tcc
index e8b306a..a8ca50e 100644
--- a/include/dart/common.tcc
+++ b/include/dart/common.tcc
@@ -13,7 +13,8 @@ namespace dart {
 
     template <size_t bytes>
     int prefix_compare_impl(char const* prefix, char const* str, size_t const len) noexcept {
-      if (len && *prefix != *str) return *prefix - *str;
+      // Bytes compare as unsigned characters, like everywhere else keys are ordered.
+      if (len && *prefix != *str) return static_cast<unsigned char>(*prefix) - static_cast<unsigned char>(*str);
       else if (len) return prefix_compare_impl<bytes - 1>(prefix + 1, str + 1, len - 1);
       else return *prefix;
     }
@@ -198,9 +199,10 @@ namespace dart {
       constexpr auto max_len = std::numeric_limits<uint8_t>::max();
 
       // Compare first by string lengths, then by lexical ordering.
-      // If they are longer than us, but we're capped at the max value,
+      // If they are at least as long as us, but we're capped at the max value,
       // return equality to force key lookup to fall back on the general case.
-      if (our_len < their_len) return (our_len == max_len) ? 0 : -1;
+      if (our_len == max_len && their_len >= max_len) return 0;
+      else if (our_len < their_len) return -1;
       else if (our_len == their_len) return compare_impl(str.data(), their_len);
       else return 1;
     }
-- 
2.43.0


From 23adf9dc92a69db68b89c04238238e37896f2c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 13/25] fix: finding a missing key in a finalized object gives
 the end

The index was read uninitialised when the key was missing.
---
 include/dart/object.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 134dfb0..73400f9 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -680,14 +680,14 @@ namespace dart {
 
     template <template <class> class RefCount>
     auto object<RefCount>::get_it(shim::string_view const key) const noexcept -> ll_iterator<RefCount> {
-      size_t idx;
+      size_t idx = size();
       get_key(key, [&] (auto target) { idx = target; });
       return ll_iterator<RefCount>(idx, DART_FROM_THIS, load_value);
     }
 
     template <template <class> class RefCount>
     auto object<RefCount>::get_key_it(shim::string_view const key) const noexcept -> ll_iterator<RefCount> {
-      size_t idx;
+      size_t idx = size();
       get_key(key, [&] (auto target) { idx = target; });
       return ll_iterator<RefCount>(idx, DART_FROM_THIS, load_key);
     }
-- 
2.43.0


From cc324f9f423416e399616d0dc3c42a10f8027e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 14/25] fix: accept nulls when validating a buffer

Nulls take no space, so what follows one shares its address; validation rejected every such buffer.
---
 include/dart/array.tcc  | 3 ++-
 include/dart/object.tcc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dart/array.tcc b/include/dart/array.tcc
index dd67133..254b62e 100644
--- a/include/dart/array.tcc
+++ b/include/dart/array.tcc
@@ -325,7 +325,8 @@ namespace dart {
           if (silent) return false;
           else throw validation_error("Serialized array value offset does not meet alignment requirements");
         }
-        prev = raw_val.buffer;
+        // Nulls occupy no space, so whatever follows one may start at the same address.
+        if (raw_val.type != raw_type::null) prev = raw_val.buffer;
 
         // We now know that at least up to the base of the value is within bounds, so recurse on the value.
         // If the buffer validation routine returns false, it means we're not throwing errors.
diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 73400f9..c6ceb81 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -583,7 +583,8 @@ namespace dart {
           if (silent) return false;
           else throw validation_error("Serialized object value offset does not meet alignment requirements");
         }
-        prev = raw_val.buffer;
+        // Nulls occupy no space, so whatever follows one may start at the same address.
+        if (raw_val.type != raw_type::null) prev = raw_val.buffer;
 
         // We now know that at least up to the base of the value is within bounds, so recurse on the value.
         auto valid_val = valid_buffer<silent, RefCount>(raw_val, total_size - val_offset);
-- 
2.43.0


From 8ac706648f77d7d350dd67a48aaffa289823b971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:55 +0000
Subject: [PATCH 15/25] fix: reserve enough space when merging and projecting
 buffers

Merging interleaves members, which can need padding neither buffer had, and projecting assumed a table entry per requested key; both wrote past the reserved memory.
---
 include/dart/common.tcc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/dart/common.tcc b/include/dart/common.tcc
index a8ca50e..f68fcb3 100644
--- a/include/dart/common.tcc
+++ b/include/dart/common.tcc
@@ -252,7 +252,12 @@ namespace dart {
       auto* raw_incoming = get_object<RefCount>(incoming.raw);
       
       // Figure out the maximum amount of space we could need for the merged object.
-      auto total_size = raw_base->get_sizeof() + raw_incoming->get_sizeof();
+      // Interleaving the two can require padding that neither of them needed on its own.
+      size_t total_size = raw_base->get_sizeof() + raw_incoming->get_sizeof();
+      total_size += (raw_base->size() + raw_incoming->size()) * alignment_of<RefCount>(raw_type::object);
+      if (total_size > object_layout::max_offset) {
+        throw std::length_error("Offset required for encoding is too large for dart::buffer vtable");
+      }
 
       // Merge it.
       auto ref = aligned_alloc<RefCount>(total_size, raw_type::object, [&] (auto* ptr) {
@@ -269,8 +274,12 @@ namespace dart {
         // Unwrap our buffers to get the underlying machine representation.
         auto* raw_base = get_object<RefCount>(base.raw);
 
-        // Maximum required size is that of the current object, as the new one must be smaller.
-        auto total_size = raw_base->get_sizeof();
+        // Maximum required size is that of the current object, as the new one must be smaller,
+        // plus the vtable entries we'll initially assume for keys that might not exist.
+        size_t total_size = raw_base->get_sizeof() + key_ptrs.size() * sizeof(object_entry);
+        if (total_size > object_layout::max_offset) {
+          throw std::length_error("Offset required for encoding is too large for dart::buffer vtable");
+        }
         auto ref = aligned_alloc<RefCount>(total_size, raw_type::object, [&] (auto* ptr) {
           std::fill_n(ptr, total_size, gsl::byte {});
           new(ptr) detail::object<RefCount>(raw_base, key_ptrs);
-- 
2.43.0


From 5c69eafd5b6a000da5551b0a5e61fecfb6001604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:55 +0000
Subject: [PATCH 16/25] fix: reject objects built from pairs that are too large
 for the format

The sum of the members was never checked against the largest encodable offset.
---
 include/dart/common.tcc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dart/common.tcc b/include/dart/common.tcc
index f68fcb3..c8a9883 100644
--- a/include/dart/common.tcc
+++ b/include/dart/common.tcc
@@ -310,7 +310,11 @@ namespace dart {
         bytes += pair.value.upper_bound() + alignment_of<RefCount>(pair.value.get_raw_type()) - 1;
       }
       bytes += sizeof(detail::object<RefCount>) + ((sizeof(detail::object_entry) * (pairs.size() + 1)));
-      return bytes + detail::pad_bytes<RefCount>(bytes, detail::raw_type::object);
+      bytes = detail::pad_bytes<RefCount>(bytes, detail::raw_type::object);
+      if (bytes > object_layout::max_offset) {
+        throw std::length_error("Offset required for encoding is too large for dart::buffer vtable");
+      }
+      return bytes;
     }
 
     template <template <class> class RefCount>
-- 
2.43.0


From c5fde69d3bd7b326623c9c99525a53778c18d62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:55 +0000
Subject: [PATCH 17/25] fix: JSON integers beyond 64 bits signed become
 decimals

The mutable parser wrapped them to negative integers; the finalized parser already made decimals of them.
---
 include/dart/connector/json.tcc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dart/connector/json.tcc b/include/dart/connector/json.tcc
index acc8322..ebce3e9 100644
--- a/include/dart/connector/json.tcc
+++ b/include/dart/connector/json.tcc
@@ -381,7 +381,9 @@ namespace dart {
 
     template <template <class> class RefCount>
     bool heap_parser<RefCount>::Uint64(uint64_t num) {
-      return Int64(num);
+      // Integers too large for our integer type are decimals, like for every other route.
+      if (num > static_cast<uint64_t>(std::numeric_limits<int64_t>::max())) return Double(static_cast<double>(num));
+      return Int64(static_cast<int64_t>(num));
     }
 
     template <template <class> class RefCount>
-- 
2.43.0


From f60a4945327a328df1232c95dc424bb5b7b952a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:55 +0000
Subject: [PATCH 18/25] fix: finalized JSON parsing reserves, clears and checks
 like every other route

Padding held leftover memory, so equal buffers compared different, and keys longer than UINT16_MAX were truncated.
---
 include/dart/common.h           | 43 +++++++++++++++++++++++++++++++++
 include/dart/connector/json.tcc |  8 ++++--
 2 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/include/dart/common.h b/include/dart/common.h
index d42cd0a..66f79ec 100644
--- a/include/dart/common.h
+++ b/include/dart/common.h
@@ -1555,6 +1555,49 @@ namespace dart {
       }
       return detail::find_sizeof<RefCount>({raw, buffer});
     }
+
+    // Calculates the maximum space json_lower could require for the given value,
+    // and rejects anything the network format cannot represent.
+    template <template <class> class RefCount>
+    size_t json_upper_bound(rapidjson::Value const& curr_val) {
+      size_t max;
+      auto raw = json_identify<RefCount>(curr_val);
+      switch (raw) {
+        case raw_type::object:
+          max = sizeof(object<RefCount>) + (sizeof(object_entry) * (curr_val.MemberCount() + 1));
+          for (auto it = curr_val.MemberBegin(); it != curr_val.MemberEnd(); ++it) {
+            auto const key_len = it->name.GetStringLength();
+            if (key_len > std::numeric_limits<uint16_t>::max()) {
+              throw std::invalid_argument("dart::buffer keys cannot be longer than UINT16_MAX");
+            }
+            max += string::static_sizeof(static_cast<string::size_type>(key_len));
+            max += alignment_of<RefCount>(json_identify<RefCount>(it->value)) - 1;
+            max += json_upper_bound<RefCount>(it->value) + alignment_of<RefCount>(raw_type::string) - 1;
+          }
+          max = pad_bytes<RefCount>(max, raw_type::object);
+          break;
+        case raw_type::array:
+          max = sizeof(array<RefCount>) + (sizeof(array_entry) * (curr_val.Size() + 1));
+          for (auto it = curr_val.Begin(); it != curr_val.End(); ++it) {
+            max += json_upper_bound<RefCount>(*it) + alignment_of<RefCount>(json_identify<RefCount>(*it)) - 1;
+          }
+          break;
+        case raw_type::small_string:
+        case raw_type::string:
+          max = string::static_sizeof(static_cast<string::size_type>(curr_val.GetStringLength()));
+          break;
+        case raw_type::big_string:
+          max = big_string::static_sizeof(static_cast<big_string::size_type>(curr_val.GetStringLength()));
+          break;
+        default:
+          // Everything else is at most eight bytes.
+          max = primitive<int64_t>::static_sizeof();
+      }
+      if (max > object_layout::max_offset) {
+        throw std::length_error("Offset required for encoding is too large for dart::buffer vtable");
+      }
+      return max;
+    }
 #endif
 
     // Helper function handles the edge case where we're working with
diff --git a/include/dart/connector/json.tcc b/include/dart/connector/json.tcc
index ebce3e9..ae39a67 100644
--- a/include/dart/connector/json.tcc
+++ b/include/dart/connector/json.tcc
@@ -101,6 +101,8 @@ namespace dart {
     // Allocate space to store our finalized representation.
     // FIXME: Make this allocation size more intelligent.
     auto block = detail::aligned_alloc<RefCount>(json.size() * 8, detail::raw_type::object, [&] (auto* buf) {
+      // XXX: std::fill_n is REQUIRED here so that we can perform memcmps for finalized packets.
+      std::fill_n(buf, json.size() * 8, gsl::byte {});
       detail::json_lower<RefCount>(buf, doc.get_root());
     });
 
@@ -182,8 +184,10 @@ namespace dart {
     }
 
     // Allocate space to store our finalized representation.
-    // FIXME: Make this allocation size more intelligent.
-    auto block = detail::aligned_alloc<RefCount>(json.size() * 8, detail::raw_type::object, [&] (auto* buf) {
+    auto bytes = detail::json_upper_bound<RefCount>(doc);
+    auto block = detail::aligned_alloc<RefCount>(bytes, detail::raw_type::object, [&] (auto* buf) {
+      // XXX: std::fill_n is REQUIRED here so that we can perform memcmps for finalized packets.
+      std::fill_n(buf, bytes, gsl::byte {});
       detail::json_lower<RefCount>(buf, doc);
     });
 
-- 
2.43.0


From 2b611d50974f10bbce1e3f17987579d674be5c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 19/25] fix: empty the source of a smart pointer move before
 releasing what the target holds

---
 include/dart/support/ptrs.tcc | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/dart/support/ptrs.tcc b/include/dart/support/ptrs.tcc
index 9ad51bf..1644f98 100644
--- a/include/dart/support/ptrs.tcc
+++ b/include/dart/support/ptrs.tcc
@@ -92,10 +92,9 @@ namespace dart {
     counted_ptr_base<T, Counter>::operator =(counted_ptr_base<U, Counter>&& other) noexcept {
       if (value == other.value) return *this;
 
-      // Defer to destructor and move constructor to keep from copying stateful, easy to screw up, code
-      // all over the place.
-      this->~counted_ptr_base();
-      new(this) counted_ptr_base(std::move(other));
+      // Empty the source before letting go of what we hold, it may live inside of it.
+      counted_ptr_base tmp(std::move(other));
+      std::swap(value, tmp.value);
       return *this;
     }
 
@@ -113,10 +112,9 @@ namespace dart {
     counted_ptr_base<T, Counter>& counted_ptr_base<T, Counter>::operator =(counted_ptr_base&& other) noexcept {
       if (this == &other) return *this;
 
-      // Defer to destructor and move constructor to keep from copying stateful, easy to screw up, code
-      // all over the place.
-      this->~counted_ptr_base();
-      new(this) counted_ptr_base(std::move(other));
+      // Empty the source before letting go of what we hold, it may live inside of it.
+      counted_ptr_base tmp(std::move(other));
+      std::swap(value, tmp.value);
       return *this;
     }
 
@@ -296,8 +294,10 @@ namespace dart {
     // XXX: If you have a throwing move constructor, you get what you deserve.
     // I'm not allocating to avoid this, and I'm definitely not adding a "valueless by exception" state.
     // Good people don't throw from move constructors.
+    // Empty the source before letting go of what we hold, it may live inside of it.
+    shareable_ptr tmp {std::move(other)};
     this->~shareable_ptr();
-    new(this) shareable_ptr(std::move(other));
+    new(this) shareable_ptr(std::move(tmp));
     return *this;
   }
 
@@ -322,8 +322,10 @@ namespace dart {
     // I'm not allocating to avoid this, and I'm definitely not adding a "valueless by exception" state.
     // Good people don't throw from move constructors.
     if (this == &other) return *this;
+    // Empty the source before letting go of what we hold, it may live inside of it.
+    shareable_ptr tmp {std::move(other)};
     this->~shareable_ptr();
-    new(this) shareable_ptr(std::move(other));
+    new(this) shareable_ptr(std::move(tmp));
     return *this;
   }
 
@@ -413,13 +415,16 @@ namespace dart {
 
   template <class T>
   void shareable_ptr<T>::transfer(T& ptr) && noexcept(refcount_traits<T>::is_nothrow_moveable::value) {
+    // Empty ourselves before destroying anything, we may live inside what we were given.
+    shareable_ptr tmp {std::move(impl)};
+
     // Destroy the instance we were given.
     // We DID take it by mutable refernece, so hopefully the user won't be surprised.
     ptr.~T();
     
     // Move ourselves into it.
     // If you have a throwing move constructor, you get what you deserve.
-    refcount_traits<T>::move(&ptr, std::move(impl));
+    refcount_traits<T>::move(&ptr, std::move(tmp.impl));
   }
 
   template <class T>
-- 
2.43.0


From 06766520b1cc04d2c62e068dd305b64f7e109269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 20/25] fix: streaming a string view writes its characters, not
 up to the next NUL

---
 include/dart/support/string_view.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/dart/support/string_view.h b/include/dart/support/string_view.h
index fd453a6..11a798e 100644
--- a/include/dart/support/string_view.h
+++ b/include/dart/support/string_view.h
@@ -204,8 +204,7 @@ namespace dart {
   template <class CharT, class Traits>
   std::basic_ostream<CharT, Traits>&
   operator <<(std::basic_ostream<CharT, Traits>& os, basic_string_view<CharT, Traits> str) {
-    // Not standard compliant, and will fail with embedded nulls, but it'll work.
-    return (os << str.data());
+    return (os << std::basic_string<CharT, Traits>(str.data(), str.size()));
   }
 
   using string_view = basic_string_view<char>;
-- 
2.43.0


From 8393be57fd288926cdf0a29b2db91d1176a90e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 21/25] fix: a packet too large for a buffer reports it instead
 of terminating

---
 include/dart.h                 | 2 +-
 include/dart/packet/detail.tcc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart.h b/include/dart.h
index 80682bb..148408e 100644
--- a/include/dart.h
+++ b/include/dart.h
@@ -13578,7 +13578,7 @@ namespace dart {
 
       /*----- Private Helpers -----*/
 
-      size_t upper_bound() const noexcept;
+      size_t upper_bound() const;
       auto layout(gsl::byte* buffer) const noexcept -> size_type;
       detail::raw_type get_raw_type() const noexcept;
 
diff --git a/include/dart/packet/detail.tcc b/include/dart/packet/detail.tcc
index dbb6cc9..d9cd8ab 100644
--- a/include/dart/packet/detail.tcc
+++ b/include/dart/packet/detail.tcc
@@ -10,7 +10,7 @@
 namespace dart {
 
   template <template <class> class RefCount>
-  size_t basic_packet<RefCount>::upper_bound() const noexcept {
+  size_t basic_packet<RefCount>::upper_bound() const {
     return shim::visit(
       shim::compose_together(
         [] (basic_buffer<RefCount> const& impl) { return detail::find_sizeof<RefCount>(impl.raw); },
-- 
2.43.0


From c89d7b0712c343b5ec1e88d5f9c41988c89e4edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:54 +0000
Subject: [PATCH 22/25] fix: end the argument list of the variadic array
 initialisers

---
 src/generic.cc | 2 ++
 src/heap.cc    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/generic.cc b/src/generic.cc
index 2c5ac0e..457c308 100644
--- a/src/generic.cc
+++ b/src/generic.cc
@@ -877,6 +877,7 @@ extern "C" {
     dart_packet_t dst;
     va_start(args, format);
     auto ret = dart_arr_init_va_impl(&dst, DART_RC_SAFE, format, args);
+    va_end(args);
     if (ret) return dart_init();
     else return dst;
   }
@@ -894,6 +895,7 @@ extern "C" {
     dart_packet_t dst;
     va_start(args, format);
     auto ret = dart_arr_init_va_impl(&dst, rc, format, args);
+    va_end(args);
     if (ret) return dart_init();
     else return dst;
   }
diff --git a/src/heap.cc b/src/heap.cc
index 541f9e5..13ca001 100644
--- a/src/heap.cc
+++ b/src/heap.cc
@@ -757,6 +757,7 @@ extern "C" {
     dart_heap_t dst;
     va_start(args, format);
     auto ret = dart_heap_arr_init_va_impl(&dst, DART_RC_SAFE, format, args);
+    va_end(args);
     if (ret) return dart_heap_init();
     else return dst;
   }
@@ -774,6 +775,7 @@ extern "C" {
     dart_heap_t dst;
     va_start(args, format);
     auto ret = dart_heap_arr_init_va_impl(&dst, rc, format, args);
+    va_end(args);
     if (ret) return dart_heap_init();
     else return dst;
   }
-- 
2.43.0


From cbd21ac4b9062232a901ea351e4e92bdcdf47f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:54 +0000
Subject: [PATCH 23/25] fix: release exactly once what an owner could not be
 made for when memory runs out

---
 include/dart/buffer/detail.tcc |  6 +++---
 include/dart/support/ptrs.h    | 12 +++++++++---
 include/dart/support/ptrs.tcc  | 13 +++++++------
 3 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/include/dart/buffer/detail.tcc b/include/dart/buffer/detail.tcc
index 372a50e..6a0cd87 100644
--- a/include/dart/buffer/detail.tcc
+++ b/include/dart/buffer/detail.tcc
@@ -46,9 +46,9 @@ namespace dart {
     // This whole business is necessary to allow std::unique_ptr<gsl::byte const[]>
     // to convert to std::shared_ptr<gsl::byte const>, which the STL doesn't define
     // a conversion for, but is convenient for this library.
-    buffer_ref_type tmp(ptr.get(), std::move(ptr.get_deleter()));
-    ptr.release();
-    return tmp;
+    // It owns the pointer even if its constructor throws, so it has to be released first.
+    auto* owner = ptr.release();
+    return buffer_ref_type(owner, std::move(ptr.get_deleter()));
   }
 
   template <template <class> class RefCount>
diff --git a/include/dart/support/ptrs.h b/include/dart/support/ptrs.h
index 423d174..794c9f1 100644
--- a/include/dart/support/ptrs.h
+++ b/include/dart/support/ptrs.h
@@ -76,9 +76,15 @@ namespace dart {
           value(new managed_ptr_eraser<counter_type, ptr_type<T>, managed_ptr_deleter<ptr_type<T>>>(ptr, 1))
         {}
         template <class Deleter>
-        counted_ptr_base(ptr_type<T> ptr, Deleter&& deleter) :
-          value(new managed_ptr_eraser<counter_type, ptr_type<T>, Deleter>(ptr, 1, std::move(deleter)))
-        {}
+        counted_ptr_base(ptr_type<T> ptr, Deleter&& deleter) : value(nullptr) {
+          // We own the pointer from here on, so release it if we can't allocate our control block.
+          try {
+            value = new managed_ptr_eraser<counter_type, ptr_type<T>, Deleter>(ptr, 1, std::move(deleter));
+          } catch (...) {
+            deleter(ptr);
+            throw;
+          }
+        }
         template <class U, class EnableIf =
           std::enable_if_t<
             std::is_convertible<ptr_type<U>, ptr_type<T>>::value
diff --git a/include/dart/support/ptrs.tcc b/include/dart/support/ptrs.tcc
index 1644f98..7561cdc 100644
--- a/include/dart/support/ptrs.tcc
+++ b/include/dart/support/ptrs.tcc
@@ -243,8 +243,9 @@ namespace dart {
   shareable_ptr<T>::shareable_ptr(std::unique_ptr<U, D>&& ptr)
     noexcept(refcount_traits<T>::template can_nothrow_take<U*, D>::value)
   {
-    refcount_traits<T>::take(&impl, ptr.get(), std::move(ptr.get_deleter()));
-    ptr.release();
+    // The call owns the pointer even if it throws, so it has to be released first.
+    auto* owner = ptr.release();
+    refcount_traits<T>::take(&impl, owner, std::move(ptr.get_deleter()));
   }
 
   template <class T>
@@ -602,22 +603,22 @@ namespace dart {
 
   template <class T, class EnableIf>
   unsafe_ptr<T> make_unsafe(size_t idx) {
-    return unsafe_ptr<T>(new std::remove_extent_t<T>[idx]);
+    return unsafe_ptr<T>(std::unique_ptr<T>(new std::remove_extent_t<T>[idx]));
   }
 
   template <class T, class... Args>
   std::enable_if_t<!std::is_array<T>::value, unsafe_ptr<T>> make_unsafe(Args&&... the_args) {
-    return unsafe_ptr<T>(new T(std::forward<Args>(the_args)...));
+    return unsafe_ptr<T>(std::unique_ptr<T>(new T(std::forward<Args>(the_args)...)));
   }
 
   template <class T, class EnableIf>
   skinny_ptr<T> make_skinny(size_t idx) {
-    return skinny_ptr<T>(new std::remove_extent_t<T>[idx]);
+    return skinny_ptr<T>(std::unique_ptr<T>(new std::remove_extent_t<T>[idx]));
   }
 
   template <class T, class... Args>
   std::enable_if_t<!std::is_array<T>::value, skinny_ptr<T>> make_skinny(Args&&... the_args) {
-    return skinny_ptr<T>(new T(std::forward<Args>(the_args)...));
+    return skinny_ptr<T>(std::unique_ptr<T>(new T(std::forward<Args>(the_args)...)));
   }
 
 }
-- 
2.43.0


From 006b123110c29e994cbb2e98ace8a6f390623286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:54 +0000
Subject: [PATCH 24/25] fix: report JSON text with an embedded null instead of
 accepting the part in front of it

---
 include/dart/connector/json.tcc | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/dart/connector/json.tcc b/include/dart/connector/json.tcc
index ae39a67..a1a5f6c 100644
--- a/include/dart/connector/json.tcc
+++ b/include/dart/connector/json.tcc
@@ -146,11 +146,15 @@ namespace dart {
 
     // Parse!
     rapidjson::MemoryStream ss(json.data(), json.size());
-    if (reader.Parse<flags>(ss, context)) {
+    auto parsed = reader.Parse<flags>(ss, context);
+
+    // RapidJSON takes an embedded null character for the end of the text, don't accept just the part in front of it.
+    bool truncated = parsed && !(flags & rapidjson::kParseStopWhenDoneFlag) && ss.Tell() < json.size();
+    if (parsed && !truncated) {
       return context.curr_obj;
     } else {
-      auto err = reader.GetParseErrorCode();
-      auto off = reader.GetErrorOffset();
+      auto err = truncated ? rapidjson::kParseErrorDocumentRootNotSingular : reader.GetParseErrorCode();
+      auto off = truncated ? ss.Tell() : reader.GetErrorOffset();
       std::string errmsg = "dart::heap could not parse the given string due to: \"";
       errmsg += rapidjson::GetParseError_En(err);
       errmsg += "\" near  \"";
@@ -170,9 +174,14 @@ namespace dart {
 
     // Fire up RapidJSON.
     rapidjson::Document doc;
-    if (doc.ParseInsitu<flags>(buf.get()).HasParseError()) {
-      auto err = doc.GetParseError();
-      auto off = doc.GetErrorOffset();
+    rapidjson::InsituStringStream ss(buf.get());
+    bool failed = doc.ParseStream<flags | rapidjson::kParseInsituFlag>(ss).HasParseError();
+
+    // RapidJSON takes an embedded null character for the end of the text, don't accept just the part in front of it.
+    bool truncated = !failed && !(flags & rapidjson::kParseStopWhenDoneFlag) && ss.Tell() < json.size();
+    if (failed || truncated) {
+      auto err = truncated ? rapidjson::kParseErrorDocumentRootNotSingular : doc.GetParseError();
+      auto off = truncated ? ss.Tell() : doc.GetErrorOffset();
       std::string errmsg = "dart::buffer could not parse the given string due to: \"";
       errmsg += rapidjson::GetParseError_En(err);
       errmsg += "\" near \"";
-- 
2.43.0


From b8548ea61fd2a63f9aa02215f7035e5929935b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:54 +0000
Subject: [PATCH 25/25] fix: report YAML collections as mapping keys instead of
 reading an empty stack

---
 include/dart/connector/yaml.tcc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/dart/connector/yaml.tcc b/include/dart/connector/yaml.tcc
index e132dcf..d82596a 100644
--- a/include/dart/connector/yaml.tcc
+++ b/include/dart/connector/yaml.tcc
@@ -85,6 +85,11 @@ namespace dart {
               yaml_event_delete(&event);
               continue;
             case YAML_MAPPING_START_EVENT:
+              // Only scalars can be keys.
+              if (state == detail::parse_state::mapping_key) {
+                throw std::runtime_error("dart::packet does not support YAML collections as mapping keys");
+              }
+
               // Beginning a new object, push onto our stacks if we were holding anything.
               if (curr_key) key_stack.push_back(std::move(curr_key));
               if (curr_obj) obj_stack.push_back(std::move(curr_obj));
@@ -93,6 +98,11 @@ namespace dart {
               curr_obj = basic_heap<RefCount>::make_object();
               break;
             case YAML_SEQUENCE_START_EVENT:
+              // Only scalars can be keys.
+              if (state == detail::parse_state::mapping_key) {
+                throw std::runtime_error("dart::packet does not support YAML collections as mapping keys");
+              }
+
               // Beginning a new array, push onto our stacks if we were holding anything.
               if (curr_key) key_stack.push_back(std::move(curr_key));
               if (curr_obj) obj_stack.push_back(std::move(curr_obj));
-- 
2.43.0

