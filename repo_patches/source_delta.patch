From 2365f2b7afe284c2926b6db9ab7fd73d6a7ba1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 01/38] fix: String::assign with a view of the string itself
 copied overlapping memory

---
 include/Xsmp/String.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Xsmp/String.h b/include/Xsmp/String.h
index 2f3397a..8f89f87 100644
--- a/include/Xsmp/String.h
+++ b/include/Xsmp/String.h
@@ -319,7 +319,8 @@ template <std::size_t Nm> struct String {
   }
   constexpr String &assign(std::string_view str) {
     const size_t length = std::min(str.length(), Nm);
-    traits_type::copy(internalString, str.data(), length);
+    // str may designate a part of this string
+    traits_type::move(internalString, str.data(), length);
     internalString[length] = '\0';
     return *this;
   }
-- 
2.43.0


From f6ee6e0979184119e3e55743a7305ba44b351879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 02/38] fix: String::remove_prefix wrote out of bounds when the
 prefix is longer than the string

---
 include/Xsmp/String.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Xsmp/String.h b/include/Xsmp/String.h
index 8f89f87..31dc5c6 100644
--- a/include/Xsmp/String.h
+++ b/include/Xsmp/String.h
@@ -168,6 +168,7 @@ template <std::size_t Nm> struct String {
 
   constexpr void remove_prefix(size_t length) {
     auto newLength = this->length();
+    length = std::min(length, newLength);
     std::copy(internalString + length, internalString + newLength,
               internalString);
     newLength -= length;
-- 
2.43.0


From 364a7d0666771571e6c15dec8f5535ee98edda85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 03/38] fix: the free function swap for String could not be
 instantiated

---
 include/Xsmp/String.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Xsmp/String.h b/include/Xsmp/String.h
index 31dc5c6..c7b53e8 100644
--- a/include/Xsmp/String.h
+++ b/include/Xsmp/String.h
@@ -492,9 +492,9 @@ private:
   }
 };
 
-template <std::size_t Nm, std::size_t Nm2>
-constexpr void swap(const String<Nm> &lhs, const String<Nm2> &rhs) noexcept {
-  rhs.swap(lhs);
+template <std::size_t Nm>
+constexpr void swap(String<Nm> &lhs, String<Nm> &rhs) noexcept {
+  lhs.swap(rhs);
 }
 
 template <std::size_t Nm>
-- 
2.43.0


From 274ee8f763b49beb6e2798e23f2f976205f8dbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 04/38] fix: copying a moved-from cstring dereferenced a null
 pointer

---
 src/Xsmp/cstring.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/cstring.cpp b/src/Xsmp/cstring.cpp
index d882fda..b057e8f 100644
--- a/src/Xsmp/cstring.cpp
+++ b/src/Xsmp/cstring.cpp
@@ -25,8 +25,9 @@ const char *copy(const char *value, std::size_t size) {
   copy[size] = '\0';
   return copy;
 }
+// a moved-from string holds no value
 const char *copy(const char *value) {
-  return copy(value, std::char_traits<char>::length(value));
+  return value ? copy(value, std::char_traits<char>::length(value)) : nullptr;
 }
 } // namespace
 
@@ -39,7 +40,7 @@ cstring::cstring(const char *value)
 cstring::cstring(std::string_view value)
     : _value{copy(value.data(), value.size())} {}
 
-cstring::cstring(const cstring &other) : cstring(other.c_str()) {}
+cstring::cstring(const cstring &other) : _value{copy(other.c_str())} {}
 
 cstring &cstring::operator=(const cstring &other) {
   if (this != &other) {
-- 
2.43.0


From fd824cc91b46330449e36b31969831c295c7917b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 05/38] fix: cstring assignment released its value before
 copying the new one

---
 src/Xsmp/cstring.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/Xsmp/cstring.cpp b/src/Xsmp/cstring.cpp
index b057e8f..d0eefc1 100644
--- a/src/Xsmp/cstring.cpp
+++ b/src/Xsmp/cstring.cpp
@@ -43,16 +43,14 @@ cstring::cstring(std::string_view value)
 cstring::cstring(const cstring &other) : _value{copy(other.c_str())} {}
 
 cstring &cstring::operator=(const cstring &other) {
-  if (this != &other) {
-    delete[] _value;
-    _value = copy(other.c_str());
-  }
-  return *this;
+  return *this = other.c_str();
 }
 
 cstring &cstring::operator=(const char *value) {
+  // value may point into this string, and the copy may throw
+  const auto *newValue = copy(value);
   delete[] _value;
-  _value = copy(value);
+  _value = newValue;
   return *this;
 }
 
-- 
2.43.0


From 655b177011c1c4a8427c3e8f3f87811ebffcae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 06/38] fix: move-assigning a cstring to itself lost its value

---
 src/Xsmp/cstring.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/cstring.cpp b/src/Xsmp/cstring.cpp
index d0eefc1..18851c6 100644
--- a/src/Xsmp/cstring.cpp
+++ b/src/Xsmp/cstring.cpp
@@ -60,9 +60,11 @@ cstring::cstring(cstring &&other) noexcept : _value{other._value} {
   other._value = nullptr;
 }
 cstring &cstring::operator=(cstring &&other) noexcept {
-  delete[] _value;
-  _value = other._value;
-  other._value = nullptr;
+  if (this != &other) {
+    delete[] _value;
+    _value = other._value;
+    other._value = nullptr;
+  }
   return *this;
 }
 } // namespace Xsmp
-- 
2.43.0


From 138b25e4f1bfc31a965a1044580e24354e129a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 07/38] fix: convert an AnySimple integer to float without
 leaving its range

---
 src/Smp/AnySimple.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Smp/AnySimple.cpp b/src/Smp/AnySimple.cpp
index c19afe7..08f7189 100644
--- a/src/Smp/AnySimple.cpp
+++ b/src/Smp/AnySimple.cpp
@@ -20,6 +20,7 @@
 #include <cmath>
 #include <limits>
 #include <string>
+#include <type_traits>
 
 namespace Smp {
 
@@ -100,6 +101,13 @@ template <typename T, typename U>
 T convertFloat(U newValue, ::Smp::PrimitiveTypeKind kind,
                ::Smp::PrimitiveTypeKind expected) {
 
+  // the rounded value can be just above the range of the integral type
+  if constexpr (std::is_integral_v<U>) {
+    if (static_cast<T>(newValue) >=
+        std::ldexp(T{1}, std::numeric_limits<U>::digits)) {
+      ::Xsmp::Exception::throwInvalidAnyType(nullptr, expected, kind);
+    }
+  }
   if (std::fabs(newValue - static_cast<U>(static_cast<T>(newValue))) >
       std::numeric_limits<U>::epsilon()) {
     ::Xsmp::Exception::throwInvalidAnyType(nullptr, expected, kind);
-- 
2.43.0


From 9dd62b29956baa64a6d4bff0288a3cb60be3285a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 08/38] fix: copy an AnySimple string before releasing the old
 value

---
 src/Smp/AnySimple.cpp | 40 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/src/Smp/AnySimple.cpp b/src/Smp/AnySimple.cpp
index 08f7189..c2641e3 100644
--- a/src/Smp/AnySimple.cpp
+++ b/src/Smp/AnySimple.cpp
@@ -31,6 +31,15 @@ inline void _releaseContent(::Smp::AnySimple *any) {
     any->value.string8Value = nullptr;
   }
 }
+inline ::Smp::String8 _copyString(::Smp::String8 str) {
+  if (!str) {
+    return nullptr;
+  }
+  auto size = std::char_traits<char>::length(str) + 1;
+  auto *dest = new ::Smp::Char8[size];
+  std::char_traits<char>::copy(dest, str, size);
+  return dest;
+}
 } // namespace
 
 AnySimple::AnySimple() : AnySimple(PrimitiveTypeKind::PTK_None) {}
@@ -52,22 +61,15 @@ AnySimple::AnySimple(::Smp::AnySimple &&other)
 AnySimple &AnySimple::operator=(const ::Smp::AnySimple &other) {
 
   if (this != &other) {
-    _releaseContent(this);
-    type = other.type;
-
     if (other.type == PrimitiveTypeKind::PTK_String8) {
-      if (other.value.string8Value) {
-        auto size =
-            std::char_traits<char>::length(other.value.string8Value) + 1;
-        auto *dest = new ::Smp::Char8[size];
-        this->value.string8Value = dest;
-        std::char_traits<char>::copy(dest, other.value.string8Value, size);
-      } else {
-        value.string8Value = nullptr;
-      }
+      const auto *copy = _copyString(other.value.string8Value);
+      _releaseContent(this);
+      value.string8Value = copy;
     } else {
+      _releaseContent(this);
       value = other.value;
     }
+    type = other.type;
   }
 
   return *this;
@@ -144,17 +146,11 @@ void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Char8 newValue) {
 void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind,
                          ::Smp::String8 newValue) {
 
-  _releaseContent(this);
-
   if (kind == PrimitiveTypeKind::PTK_String8) {
-    if (newValue) {
-      auto size = std::char_traits<char>::length(newValue) + 1;
-      auto *dest = new ::Smp::Char8[size];
-      this->value.string8Value = dest;
-      std::char_traits<char>::copy(dest, newValue, size);
-    } else {
-      this->value.string8Value = nullptr;
-    }
+    // newValue may be the current content
+    const auto *copy = _copyString(newValue);
+    _releaseContent(this);
+    this->value.string8Value = copy;
     type = kind;
   } else {
 
-- 
2.43.0


From cb61535731c7410ccb166ba5f908eac23ce86473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 09/38] fix: an empty AnySimple equals only an empty AnySimple

---
 src/Smp/AnySimple.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Smp/AnySimple.cpp b/src/Smp/AnySimple.cpp
index c2641e3..736bc1c 100644
--- a/src/Smp/AnySimple.cpp
+++ b/src/Smp/AnySimple.cpp
@@ -1048,7 +1048,7 @@ bool ::Smp::AnySimple::operator==(const ::Smp::AnySimple & other) const {
   try {
     switch (type) {
     case PrimitiveTypeKind::PTK_None:
-      return true;
+      return other.type == PrimitiveTypeKind::PTK_None;
     case PrimitiveTypeKind::PTK_Bool:
       return value.boolValue == static_cast<::Smp::Bool>(other);
     case PrimitiveTypeKind::PTK_UInt8:
-- 
2.43.0


From 25de24b8b9425c09e2020f99e57d67595e87f272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 10/38] fix: infinite AnySimple values equal themselves

---
 src/Smp/AnySimple.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Smp/AnySimple.cpp b/src/Smp/AnySimple.cpp
index 736bc1c..a5cbdee 100644
--- a/src/Smp/AnySimple.cpp
+++ b/src/Smp/AnySimple.cpp
@@ -1072,13 +1072,15 @@ bool ::Smp::AnySimple::operator==(const ::Smp::AnySimple & other) const {
     case PrimitiveTypeKind::PTK_DateTime:
       return value.dateTimeValue == static_cast<::Smp::DateTime>(other);
     case PrimitiveTypeKind::PTK_Float32:
-      return std::fabs(value.float32Value -
+      return value.float32Value == static_cast<::Smp::Float32>(other) ||
+             std::fabs(value.float32Value -
                        static_cast<::Smp::Float32>(other)) <=
-             std::numeric_limits<Float32>::epsilon();
+                 std::numeric_limits<Float32>::epsilon();
     case PrimitiveTypeKind::PTK_Float64:
-      return std::fabs(value.float64Value -
+      return value.float64Value == static_cast<::Smp::Float64>(other) ||
+             std::fabs(value.float64Value -
                        static_cast<::Smp::Float64>(other)) <=
-             std::numeric_limits<Float64>::epsilon();
+                 std::numeric_limits<Float64>::epsilon();
     case PrimitiveTypeKind::PTK_Char8:
       return value.char8Value == static_cast<::Smp::Char8>(other);
     case PrimitiveTypeKind::PTK_String8:
-- 
2.43.0


From 656a3f2264cdd9910ed3c5eb32834c3f7e1ac5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:32 +0000
Subject: [PATCH 11/38] fix: a duration read from an unreadable text had an
 indeterminate value

---
 src/Xsmp/Duration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Duration.cpp b/src/Xsmp/Duration.cpp
index c3d1a82..2ae859b 100644
--- a/src/Xsmp/Duration.cpp
+++ b/src/Xsmp/Duration.cpp
@@ -30,7 +30,7 @@ static_assert(std::is_standard_layout_v<::Xsmp::Duration>,
 
 namespace {
 ::Smp::Duration from(std::istream &inputStream, const char *fmt) {
-  std::chrono::nanoseconds timePoint;
+  std::chrono::nanoseconds timePoint{};
   inputStream >> date::parse(fmt, timePoint);
   return timePoint.count();
 }
-- 
2.43.0


From d546d96a9ec9885dd37d8c08f6e7e6b45c3936af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:32 +0000
Subject: [PATCH 12/38] fix: assigning a C++ duration to a DateTime did not
 compile

---
 include/Xsmp/DateTime.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Xsmp/DateTime.h b/include/Xsmp/DateTime.h
index 78a4d43..66ef677 100644
--- a/include/Xsmp/DateTime.h
+++ b/include/Xsmp/DateTime.h
@@ -121,7 +121,8 @@ struct DateTime final {
   template <class Rep, class Period>
   constexpr DateTime &
   operator=(const std::chrono::duration<Rep, Period> &dateTime) {
-    _value = convert(dateTime);
+    _value =
+        std::chrono::duration_cast<std::chrono::nanoseconds>(dateTime).count();
     return *this;
   }
   constexpr DateTime &operator=(Smp::DateTime dateTime) {
-- 
2.43.0


From 9a5978b1d2871782450cd2e7fafd7ac52aa25d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:59 +0000
Subject: [PATCH 13/38] fix: store and restore all bytes of strings of wide
 characters

---
 include/Xsmp/Persist/StdString.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Xsmp/Persist/StdString.h b/include/Xsmp/Persist/StdString.h
index b1b798d..8003a32 100644
--- a/include/Xsmp/Persist/StdString.h
+++ b/include/Xsmp/Persist/StdString.h
@@ -31,7 +31,7 @@ struct Helper<std::basic_string<CharT, Traits, Alloc>> {
     ::Xsmp::Persist::Store(simulator, writer, size);
     if (size) {
       type v = value;
-      writer->Store(v.data(), size);
+      writer->Store(v.data(), size * sizeof(CharT));
     }
   }
 
@@ -41,7 +41,7 @@ struct Helper<std::basic_string<CharT, Traits, Alloc>> {
     ::Xsmp::Persist::Restore(simulator, reader, size);
     value.resize(size);
     if (size)
-      reader->Restore(value.data(), size);
+      reader->Restore(value.data(), size * sizeof(CharT));
   }
 };
 
-- 
2.43.0


From 6dc8ef5c35495896be1edfb321480b6566601e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 14/38] fix: the type name of a null object no longer throws
 std::bad_typeid

---
 src/Xsmp/Helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Helper.cpp b/src/Xsmp/Helper.cpp
index dc323b5..8c83c6b 100644
--- a/src/Xsmp/Helper.cpp
+++ b/src/Xsmp/Helper.cpp
@@ -447,7 +447,7 @@ std::string demangle(::Smp::String8 name) {
 #endif
 }
 std::string TypeName(const ::Smp::IObject *object) {
-  return demangle(typeid(*object).name());
+  return object ? demangle(typeid(*object).name()) : "<null>";
 }
 
 void CopyString(::Smp::Char8 *destination, std::size_t size,
-- 
2.43.0


From a749a8e442267f30959d924b953df449dcbb8f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:46 +0000
Subject: [PATCH 15/38] fix: sinks may subscribe and unsubscribe while an event
 is emitted

---
 src/Xsmp/EventSource.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/EventSource.cpp b/src/Xsmp/EventSource.cpp
index 7124dad..86000c4 100644
--- a/src/Xsmp/EventSource.cpp
+++ b/src/Xsmp/EventSource.cpp
@@ -79,8 +79,13 @@ void AbstractEventSource::RemoveLinks(
 }
 void AbstractEventSource::DoEmit(::Smp::IObject *sender,
                                  const ::Smp::AnySimple &value) const {
-  for (const auto &sink : _event_sinks) {
-    sink->Notify(sender, value);
+  // a notified sink may subscribe or unsubscribe sinks of this event source:
+  // iterate over a copy and skip the sinks that are no longer subscribed
+  const auto sinks = _event_sinks;
+  for (const auto &sink : sinks) {
+    if (_event_sinks.find(sink) != _event_sinks.end()) {
+      sink->Notify(sender, value);
+    }
   }
 }
 
-- 
2.43.0


From 38b4582f053509a0edcad01948796c3977cef080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:46 +0000
Subject: [PATCH 16/38] fix: DoConfigure is called once, with any of its
 signatures, and DoPublish() compiles

---
 include/Xsmp/ComponentHelper.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/Xsmp/ComponentHelper.h b/include/Xsmp/ComponentHelper.h
index 76538a2..28c94d5 100644
--- a/include/Xsmp/ComponentHelper.h
+++ b/include/Xsmp/ComponentHelper.h
@@ -40,7 +40,7 @@ public:
       }
       static_assert(std::is_invocable_v<decltype(&T::DoPublish), T *,
                                         ::Smp::IPublication *> ||
-                        std::is_invocable_v<decltype(&T::DoConnect), T *>,
+                        std::is_invocable_v<decltype(&T::DoPublish), T *>,
                     "DoPublish has an invalid signature. Expecting 'void "
                     "DoPublish(Smp::IPublication*)' or 'void DoPublish()'.");
     }
@@ -50,8 +50,6 @@ public:
                         ::Smp::Services::ILinkRegistry *linkRegistry) {
     static_assert(std::is_base_of_v<U, T>);
     if constexpr (hasDoConfigure<T>::value) {
-      static_cast<T *>(cmp)->DoConfigure(logger, linkRegistry);
-
       if constexpr (std::is_invocable_v<decltype(&T::DoConfigure), T *,
                                         ::Smp::Services::ILogger *,
                                         ::Smp::Services::ILinkRegistry *>) {
-- 
2.43.0


From 9de5d52d277026ce957be05531c4878733546947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:46 +0000
Subject: [PATCH 17/38] fix: RemoveLinks disconnects all input fields, also
 those of single items

---
 src/Xsmp/Component.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/Component.cpp b/src/Xsmp/Component.cpp
index 5957815..4639b84 100644
--- a/src/Xsmp/Component.cpp
+++ b/src/Xsmp/Component.cpp
@@ -156,15 +156,18 @@ void Component::RemoveFieldLinks(::Smp::IField *field,
   if (auto *dataflowField =
           dynamic_cast<::Xsmp::detail::IDataflowFieldExtension *>(field)) {
     if (const auto *inputFields = dataflowField->GetInputFields()) {
-      for (const auto *inputField : *inputFields) {
+      // Disconnect removes the field from the collection: start from the end
+      for (auto i = inputFields->size(); i > 0; --i) {
+        const auto *inputField = inputFields->at(i - 1);
         if (::Xsmp::Helper::IsAncestor(target, inputField)) {
           dataflowField->Disconnect(inputField);
         }
       }
     }
   }
-  // recursively disconnect subfields of a structure field
-  else if (const auto *structureField =
+  // recursively disconnect subfields of a structure field: those of a dataflow
+  // field can also be connected on their own
+  if (const auto *structureField =
                dynamic_cast<::Smp::IStructureField *>(field)) {
     if (const auto *fields = structureField->GetFields()) {
       for (auto *subField : *fields) {
-- 
2.43.0


From a6ea7536030efded64b5dcf0772dacdd70bfd26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:46 +0000
Subject: [PATCH 18/38] fix: simple array fields of different item types are
 not equivalent

---
 src/Xsmp/Helper.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Helper.cpp b/src/Xsmp/Helper.cpp
index 8c83c6b..c084e7d 100644
--- a/src/Xsmp/Helper.cpp
+++ b/src/Xsmp/Helper.cpp
@@ -32,6 +32,7 @@
 #include <Smp/ISimulator.h>
 #include <Smp/IStructureField.h>
 #include <Smp/PrimitiveTypes.h>
+#include <Smp/Publication/IArrayType.h>
 #include <Smp/Publication/IType.h>
 #include <Smp/Services/ILogger.h>
 #include <Xsmp/Exception.h>
@@ -249,11 +250,21 @@ inline bool AreEquivalent(const ::Smp::ISimpleField *source,
   return target->GetPrimitiveTypeKind() == source->GetPrimitiveTypeKind();
 }
 
+/// Get the primitive type kind of the items of a simple array field
+inline ::Smp::PrimitiveTypeKind
+GetItemKind(const ::Smp::ISimpleArrayField *field) {
+  const auto *type = field->GetType();
+  if (auto const *arrayType =
+          dynamic_cast<const ::Smp::Publication::IArrayType *>(type)) {
+    type = arrayType->GetItemType();
+  }
+  return type->GetPrimitiveTypeKind();
+}
+
 inline bool AreEquivalent(const ::Smp::ISimpleArrayField *source,
                           const ::Smp::ISimpleArrayField *target) {
   return target->GetSize() == source->GetSize() &&
-         target->GetType()->GetPrimitiveTypeKind() ==
-             source->GetType()->GetPrimitiveTypeKind();
+         GetItemKind(target) == GetItemKind(source);
 }
 inline bool AreEquivalent(const ::Smp::IArrayField *source,
                           const ::Smp::IArrayField *target) {
-- 
2.43.0


From 1571e0a95cf3666b1a4a86520f17d1540a4b8606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:50 +0000
Subject: [PATCH 19/38] fix: scheduler threads no longer wait for each other's
 mutex

---
 src/Xsmp/Services/XsmpScheduler.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 0bf6670..52c0c8c 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -392,6 +392,8 @@ void XsmpScheduler::RemoveEvent(::Smp::Services::EventId event) {
 
 void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
 
+  // always locked before _eventsMutex
+  const std::scoped_lock lck2(_execMutex);
   std::unique_lock lck{_eventsMutex};
 
   auto &event = _events.at(eventId);
@@ -410,7 +412,6 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
   }
 
   if (!skip) {
-    const std::scoped_lock lck2(_execMutex);
     _currentEventId = eventId;
     lck.unlock();
     ::Xsmp::Helper::SafeExecute(GetSimulator(), event.entryPoint);
@@ -438,6 +439,8 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
 
 void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
 
+  // always locked before _eventsMutex
+  const std::scoped_lock lck2(_execMutex);
   std::unique_lock lck(_eventsMutex);
 
   auto &event = _events.at(eventId);
@@ -447,7 +450,6 @@ void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
       state == ::Smp::SimulatorStateKind::SSK_Executing ||
       state == ::Smp::SimulatorStateKind::SSK_Standby) {
 
-    const std::scoped_lock lck2(_execMutex);
     _currentEventId = eventId;
     lck.unlock();
     ::Xsmp::Helper::SafeExecute(GetSimulator(), event.entryPoint);
-- 
2.43.0


From 0151c6463024ba8baa3489f173210944af4fdee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:50 +0000
Subject: [PATCH 20/38] fix: SetEventCycleTime refuses a non-positive cycle for
 endless events

---
 src/Xsmp/Services/XsmpScheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 52c0c8c..94d3cb8 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -321,7 +321,7 @@ void XsmpScheduler::SetEventCycleTime(::Smp::Services::EventId event,
   if (it == _events.end()) {
     ::Xsmp::Exception::throwInvalidEventId(this, event);
   }
-  if (it->second.repeat > 0 && cycleTime <= 0) {
+  if (it->second.repeat != 0 && cycleTime <= 0) {
     ::Xsmp::Exception::throwInvalidCycleTime(this, cycleTime);
   }
   it->second.cycleTime = cycleTime;
-- 
2.43.0


From 07f889790cef120783efdaf158f7d13b84bed6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:59 +0000
Subject: [PATCH 21/38] fix: events can be moved or removed while the scheduler
 executes

---
 src/Xsmp/Services/XsmpScheduler.cpp | 240 ++++++++++++++--------------
 src/Xsmp/Services/XsmpScheduler.h   |  17 +-
 2 files changed, 133 insertions(+), 124 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 94d3cb8..770c467 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -231,6 +231,19 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
   return eventId;
 }
 
+void XsmpScheduler::Unschedule(::Smp::Services::EventId eventId,
+                               const Event &event) {
+  _immediate_events.erase(eventId);
+  auto &table = event.kind == ::Smp::Services::TimeKind::TK_ZuluTime
+                    ? _zulu_events_table
+                    : _events_table;
+  auto it = table.find(event.nextScheduleSimulationTime);
+  if (it != table.end() && it->second.erase(eventId) != 0 &&
+      it->second.empty()) {
+    table.erase(it);
+  }
+}
+
 void XsmpScheduler::SetEventTime(::Smp::Services::EventId eventId,
                                  ::Smp::Duration simulationTime,
                                  ::Smp::Duration time,
@@ -242,13 +255,7 @@ void XsmpScheduler::SetEventTime(::Smp::Services::EventId eventId,
   if (it == _events.end() || it->second.kind != kind) {
     ::Xsmp::Exception::throwInvalidEventId(this, eventId);
   }
-  auto &events = _events_table[it->second.nextScheduleSimulationTime];
-
-  events.erase(eventId);
-
-  if (events.empty()) {
-    _events_table.erase(it->second.nextScheduleSimulationTime);
-  }
+  Unschedule(eventId, it->second);
   if (simulationTime < GetSimulator()->GetTimeKeeper()->GetSimulationTime()) {
     _events.erase(it);
     return;
@@ -297,10 +304,7 @@ void XsmpScheduler::SetEventZuluTime(::Smp::Services::EventId event,
         it->second.kind != ::Smp::Services::TimeKind::TK_ZuluTime) {
       ::Xsmp::Exception::throwInvalidEventId(this, event);
     }
-    auto &events = _zulu_events_table[it->second.nextScheduleSimulationTime];
-
-    events.erase(event);
-
+    Unschedule(event, it->second);
     if (zuluTime < currentZulu) {
       _events.erase(it);
       // TODO log warning
@@ -349,32 +353,17 @@ void XsmpScheduler::RemoveEvent(::Smp::Services::EventId event) {
   if (it == _events.end()) {
     ::Xsmp::Exception::throwInvalidEventId(this, event);
   }
-  if (_currentEventId == event) {
-    it->second.repeat = 0;
-    return;
-  }
-
   if (it->second.kind == ::Smp::Services::TimeKind::TK_ZuluTime) {
     const std::scoped_lock lckZulu{_zuluEventsTableMutex};
-
-    auto &events = _zulu_events_table[it->second.nextScheduleSimulationTime];
-
-    events.erase(event);
-
-    if (events.empty()) {
-      _events_table.erase(it->second.nextScheduleSimulationTime);
-    }
+    Unschedule(event, it->second);
   } else {
-
-    auto &events = _events_table[it->second.nextScheduleSimulationTime];
-
-    events.erase(event);
-
-    if (events.empty()) {
-      _events_table.erase(it->second.nextScheduleSimulationTime);
-    }
+    Unschedule(event, it->second);
+  }
+  if (_currentEventId == event) {
+    it->second.repeat = 0;
+  } else {
+    _events.erase(it);
   }
-  _events.erase(it);
 }
 
 ::Smp::Services::EventId XsmpScheduler::GetCurrentEventId() const {
@@ -396,16 +385,19 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
   const std::scoped_lock lck2(_execMutex);
   std::unique_lock lck{_eventsMutex};
 
-  auto &event = _events.at(eventId);
+  auto it = _events.find(eventId);
+  if (it == _events.end()) {
+    return; // the event has been removed
+  }
 
   // skip event if epoch/mission time has changed and event is in the past
   bool skip = false;
-  switch (event.kind) {
+  switch (it->second.kind) {
   case ::Smp::Services::TimeKind::TK_EpochTime:
-    skip = event.time < GetSimulator()->GetTimeKeeper()->GetEpochTime();
+    skip = it->second.time < GetSimulator()->GetTimeKeeper()->GetEpochTime();
     break;
   case ::Smp::Services::TimeKind::TK_MissionTime:
-    skip = event.time < GetSimulator()->GetTimeKeeper()->GetMissionTime();
+    skip = it->second.time < GetSimulator()->GetTimeKeeper()->GetMissionTime();
     break;
   default:
     break;
@@ -413,28 +405,13 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
 
   if (!skip) {
     _currentEventId = eventId;
+    const auto *entryPoint = it->second.entryPoint;
     lck.unlock();
-    ::Xsmp::Helper::SafeExecute(GetSimulator(), event.entryPoint);
+    ::Xsmp::Helper::SafeExecute(GetSimulator(), entryPoint);
     lck.lock();
     _currentEventId = -1;
   }
-
-  if (event.repeat == 0) {
-    // remove the event
-    _events.erase(_events.find(eventId));
-  } else {
-    // decrement the repeat
-    if (event.repeat > 0) {
-      event.repeat--;
-    }
-    // compute the next time the event will be executed
-    event.nextScheduleSimulationTime += event.cycleTime;
-    event.time += event.cycleTime;
-
-    // post the event in the table
-    _events_table.try_emplace(event.nextScheduleSimulationTime)
-        .first->second.emplace(eventId);
-  }
+  Reschedule(eventId, _events_table);
 }
 
 void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
@@ -443,7 +420,10 @@ void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
   const std::scoped_lock lck2(_execMutex);
   std::unique_lock lck(_eventsMutex);
 
-  auto &event = _events.at(eventId);
+  auto it = _events.find(eventId);
+  if (it == _events.end()) {
+    return; // the event has been removed
+  }
 
   // execute the event only in executing and standby states
   if (auto state = GetSimulator()->GetState();
@@ -451,64 +431,86 @@ void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
       state == ::Smp::SimulatorStateKind::SSK_Standby) {
 
     _currentEventId = eventId;
+    const auto *entryPoint = it->second.entryPoint;
     lck.unlock();
-    ::Xsmp::Helper::SafeExecute(GetSimulator(), event.entryPoint);
+    ::Xsmp::Helper::SafeExecute(GetSimulator(), entryPoint);
     lck.lock();
     _currentEventId = -1;
   }
+  const std::scoped_lock lckZulu{_zuluEventsTableMutex};
+  Reschedule(eventId, _zulu_events_table);
+}
+
+void XsmpScheduler::Reschedule(::Smp::Services::EventId eventId,
+                               std::map<::Smp::Duration, EventList> &table) {
+
+  auto it = _events.find(eventId);
+  if (it == _events.end()) {
+    return; // the event has been removed during its execution
+  }
+  auto &event = it->second;
+  // the event may have been moved during its execution
+  auto list = table.find(event.nextScheduleSimulationTime);
+  const bool moved = list != table.end() && list->second.count(eventId) != 0;
 
   if (event.repeat == 0) {
-    // remove the event
-    _events.erase(_events.find(eventId));
-  } else {
-    // decrement the repeat
-    if (event.repeat > 0) {
-      event.repeat--;
+    if (!moved) {
+      // remove the event
+      _events.erase(it);
     }
+    return;
+  }
+  // decrement the repeat
+  if (event.repeat > 0) {
+    event.repeat--;
+  }
+  if (!moved) {
     // compute the next time the event will be executed
     event.nextScheduleSimulationTime += event.cycleTime;
+    event.time += event.cycleTime;
+
     // post the event in the table
-    const std::scoped_lock lckZulu{_zuluEventsTableMutex};
-    _zulu_events_table.try_emplace(event.nextScheduleSimulationTime)
+    table.try_emplace(event.nextScheduleSimulationTime)
         .first->second.emplace(eventId);
   }
 }
 
-bool XsmpScheduler::ExecuteEvents(EventList &events) {
+bool XsmpScheduler::ExecuteEvents(::Smp::Duration time) {
 
-  // execute all events
-  while (!events.empty()) {
-    // swap the current list of events
-    EventList current;
-    current.swap(events);
-    for (auto it = current.begin(); it != current.end(); ++it) {
-      Execute(*it);
-      // process immediate events posted by this event
-      if (_simulationStatus == Status::Hold || !ExecuteImmediateEvents()) {
-        // store un-executed events and exit
-        events.insert(++it, current.end());
-        return false;
-      }
+  std::unique_lock lck{_eventsMutex};
+  // events may be added or removed by each execution
+  for (auto it = _events_table.find(time); it != _events_table.end();
+       it = _events_table.find(time)) {
+    // un-executed events remain in the table
+    auto eventId = *it->second.begin();
+    it->second.erase(eventId);
+    if (it->second.empty()) {
+      _events_table.erase(it);
+    }
+    lck.unlock();
+    Execute(eventId);
+    // process immediate events posted by this event
+    if (_simulationStatus == Status::Hold || !ExecuteImmediateEvents()) {
+      return false;
     }
+    lck.lock();
   }
   return true;
 }
 bool XsmpScheduler::ExecuteImmediateEvents() {
-  // execute all events
+
+  std::unique_lock lck{_eventsMutex};
+  // events may be added or removed by each execution
   while (!_immediate_events.empty()) {
-    // swap  the current list of events
-    EventList events;
-    events.swap(_immediate_events);
-
-    for (auto it = events.begin(); it != events.end(); ++it) {
-      Execute(*it);
-      // process immediate events posted by this event
-      if (_simulationStatus == Status::Hold) {
-        // store un-executed events and exit
-        _immediate_events.insert(++it, events.end());
-        return false;
-      }
+    // un-executed events remain in the list
+    auto eventId = *_immediate_events.begin();
+    _immediate_events.erase(eventId);
+    lck.unlock();
+    Execute(eventId);
+    if (_simulationStatus == Status::Hold) {
+      return false;
     }
+    lck.lock();
   }
   return true;
 }
@@ -520,31 +522,23 @@ void XsmpScheduler::InternalZuluRun() {
   while (!_terminate) {
 
     // execute all events with time <= current zulu time
-    for (auto it = _zulu_events_table.begin();
-         it != _zulu_events_table.end() &&
-         it->first <= GetSimulator()->GetTimeKeeper()->GetZuluTime();) {
-
-      // execute all events
-      while (!it->second.empty()) {
-        // swap the event list
-        EventList events;
-        events.swap(it->second);
-
-        // if _zulu_events_table is modified while executing the events,
-        // the implementation guarantee that "it" remains valid and only element
-        // after "it" could be appended
-        for (auto eventId : events) {
-          lck.unlock();
-          ExecuteZulu(eventId);
-          lck.lock();
-          // stop here if terminate signal received during event execution
-          if (_terminate) {
-            return;
-          }
-        }
+    // the table may be modified by each execution
+    while (!_zulu_events_table.empty() &&
+           _zulu_events_table.begin()->first <=
+               GetSimulator()->GetTimeKeeper()->GetZuluTime()) {
+      auto it = _zulu_events_table.begin();
+      auto eventId = *it->second.begin();
+      it->second.erase(eventId);
+      if (it->second.empty()) {
+        _zulu_events_table.erase(it);
+      }
+      lck.unlock();
+      ExecuteZulu(eventId);
+      lck.lock();
+      // stop here if terminate signal received during event execution
+      if (_terminate) {
+        return;
       }
-      _zulu_events_table.erase(it);
-      it = _zulu_events_table.begin();
     }
 
     // wait until next event
@@ -611,8 +605,7 @@ void XsmpScheduler::_EnterExecuting() {
 
   std::unique_lock lck(_eventsMutex);
   // execute all events
-  for (auto it = _events_table.begin(); it != _events_table.end();
-       it = _events_table.erase(it)) {
+  while (!_events_table.empty()) {
     lck.unlock();
 
     // notify that simulation time will be changed
@@ -622,7 +615,9 @@ void XsmpScheduler::_EnterExecuting() {
     if (_simulationStatus == Status::Hold) {
       return; // exit immediately if hold is requested
     }
-    auto duration = it->first - timeKeeper->GetSimulationTime();
+    // the handlers of SMP_PreSimTimeChange may have added events
+    auto nextTime = GetNextScheduledEventTime();
+    auto duration = nextTime - timeKeeper->GetSimulationTime();
     delay += static_cast<::Smp::Duration>(static_cast<double>(duration) /
                                           _targetSpeed) -
              (timeKeeper->GetZuluTime() - startZuluTime);
@@ -648,15 +643,18 @@ void XsmpScheduler::_EnterExecuting() {
       }
     }
 
+    // zulu events executed in the meantime may have added events
+    nextTime = std::min(nextTime, GetNextScheduledEventTime());
+
     // change the simulation time
-    timeKeeper->SetSimulationTime(it->first);
+    timeKeeper->SetSimulationTime(nextTime);
 
     // notify that simulation time has changed
     eventManager->Emit(::Smp::Services::IEventManager::SMP_PostSimTimeChangeId);
 
     // process all events (check for eventually events added by
     // SMP_PostSimTimeChangeId )
-    if (!ExecuteImmediateEvents() || !ExecuteEvents(it->second)) {
+    if (!ExecuteImmediateEvents() || !ExecuteEvents(nextTime)) {
       return; // exit immediately in case of hold
     }
     lck.lock();
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index 45db1f6..d150a75 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -460,11 +460,22 @@ private:
   /// @param eventId the event id to execute
   void ExecuteZulu(::Smp::Services::EventId eventId);
 
-  /// Execute a list of events
-  /// @param events the vector of events to execute
+  /// Remove an event from the scheduling tables
+  /// @param eventId the event id
+  /// @param event the event
+  void Unschedule(::Smp::Services::EventId eventId, const Event &event);
+
+  /// Schedule the next execution of a cyclic event, remove it otherwise
+  /// @param eventId the event id that has been executed
+  /// @param table the scheduling table of the event
+  void Reschedule(::Smp::Services::EventId eventId,
+                  std::map<::Smp::Duration, EventList> &table);
+
+  /// Execute all events scheduled at a given time
+  /// @param time the simulation time
   /// @return true if all events have been executed, false if hold immediate is
   /// requested and we have to exit
-  bool ExecuteEvents(EventList &events);
+  bool ExecuteEvents(::Smp::Duration time);
 
   /// Execute all immediate events
   /// @return true if all events have been executed, false if hold immediate is
-- 
2.43.0


From 41d4a122254b87d5a64569a45c2ddf1526857898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:16 +0000
Subject: [PATCH 22/38] fix: waiting times of the scheduler do not overflow at
 low target speeds

---
 src/Xsmp/Services/XsmpScheduler.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 770c467..782aea8 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -618,8 +618,10 @@ void XsmpScheduler::_EnterExecuting() {
     // the handlers of SMP_PreSimTimeChange may have added events
     auto nextTime = GetNextScheduledEventTime();
     auto duration = nextTime - timeKeeper->GetSimulationTime();
-    delay += static_cast<::Smp::Duration>(static_cast<double>(duration) /
-                                          _targetSpeed) -
+    // limit the delay to a duration that can be added to the current time
+    delay += static_cast<::Smp::Duration>(
+                 std::min(static_cast<double>(duration) / _targetSpeed,
+                          static_cast<double>(MaxDuration / 4))) -
              (timeKeeper->GetZuluTime() - startZuluTime);
 
     auto endZuluTime = timeKeeper->GetZuluTime();
-- 
2.43.0


From 029906422f5d3a57813d36a196b4727294ba84cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:35 +0000
Subject: [PATCH 23/38] fix: RemoveLinks survives that sources take their links
 back

---
 src/Xsmp/Services/XsmpLinkRegistry.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/Xsmp/Services/XsmpLinkRegistry.cpp b/src/Xsmp/Services/XsmpLinkRegistry.cpp
index f808d0d..bf8cd9b 100644
--- a/src/Xsmp/Services/XsmpLinkRegistry.cpp
+++ b/src/Xsmp/Services/XsmpLinkRegistry.cpp
@@ -18,6 +18,7 @@
 #include <Xsmp/Services/XsmpLinkRegistry.h>
 #include <mutex>
 #include <utility>
+#include <vector>
 
 namespace Xsmp::Services {
 
@@ -106,15 +107,18 @@ XsmpLinkRegistry::GetLinkSources(const ::Smp::IComponent *target) const {
 }
 
 void XsmpLinkRegistry::RemoveLinks(const ::Smp::IComponent *target) {
-  auto targetAccess = _targets.read();
-  if (auto it = targetAccess.get().find(target);
-      it != targetAccess.get().end()) {
-    for (auto *source : it->second) {
-      if (auto *cmp = dynamic_cast<::Smp::ILinkingComponent *>(source)) {
-        targetAccess.unlock();
-        cmp->RemoveLinks(target);
-        targetAccess.lock();
-      }
+  // removing the links of a source also removes it from the collection
+  std::vector<::Smp::IComponent *> sources;
+  {
+    auto targetAccess = _targets.read();
+    if (auto it = targetAccess.get().find(target);
+        it != targetAccess.get().end()) {
+      sources.assign(it->second.begin(), it->second.end());
+    }
+  }
+  for (auto *source : sources) {
+    if (auto *cmp = dynamic_cast<::Smp::ILinkingComponent *>(source)) {
+      cmp->RemoveLinks(target);
     }
   }
 }
-- 
2.43.0


From 4ab3006479c019e5b5e8c7d405d1f2e26631ad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:32 +0000
Subject: [PATCH 24/38] fix: events are known to all threads once their id is

---
 src/Xsmp/Services/XsmpEventManager.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/Services/XsmpEventManager.cpp b/src/Xsmp/Services/XsmpEventManager.cpp
index e6f8c1d..afcdaff 100644
--- a/src/Xsmp/Services/XsmpEventManager.cpp
+++ b/src/Xsmp/Services/XsmpEventManager.cpp
@@ -107,7 +107,7 @@ XsmpEventManager::QueryEventId(::Smp::String8 eventName) {
 
   const auto &name =
       eventsAccess.get().try_emplace(eventName, eventId).first->first;
-  eventsAccess.unlock();
+  // the identifier must be known before another thread can query it
   _ids.write().get().try_emplace(eventId, name);
   return eventId;
 }
@@ -199,12 +199,14 @@ void XsmpEventManager::Emit(::Smp::Services::EventId event,
 }
 
 void XsmpEventManager::Restore(::Smp::IStorageReader *reader) {
-  ::Xsmp::Persist::Restore(GetSimulator(), this, reader, _events.write().get(),
+  // same locking order as QueryEventId: _events, then _ids
+  auto eventsAccess = _events.write();
+  ::Xsmp::Persist::Restore(GetSimulator(), this, reader, eventsAccess.get(),
                            _subscriptions.write().get());
   // rebuild _ids map from _events
   auto idsAccess = _ids.write();
   idsAccess.get().clear();
-  for (const auto &[name, id] : _events.read().get()) {
+  for (const auto &[name, id] : eventsAccess.get()) {
     idsAccess.get().try_emplace(id, name);
   }
 }
-- 
2.43.0


From 134c463659c558a6e19d07ceea7deabf953a6a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:48 +0000
Subject: [PATCH 25/38] fix: Reconnect emits SMP_LeaveReconnecting

---
 src/Xsmp/Simulator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 550c0aa..34bae72 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -512,6 +512,7 @@ void Simulator::Reconnect(::Smp::IComponent *root) {
       }
     });
   }
+  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveReconnectingId);
   _state = ::Smp::SimulatorStateKind::SSK_Standby;
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
-- 
2.43.0


From 9ef85376d2214c20508fd7ac6f1dcab38f58e95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:58 +0000
Subject: [PATCH 26/38] fix: a simulator can be held twice, and a hold does not
 outlive its execution

---
 src/Xsmp/Simulator.cpp | 30 ++++++++++++++++++++++--------
 src/Xsmp/Simulator.h   |  7 +++++++
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 34bae72..b9f93ce 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -39,6 +39,7 @@
 #include <Xsmp/Simulator.h>
 #include <Xsmp/StorageReader.h>
 #include <Xsmp/StorageWriter.h>
+#include <mutex>
 #include <string>
 #include <type_traits>
 #include <vector>
@@ -66,9 +67,7 @@ Simulator::Simulator(::Smp::String8 name, ::Smp::String8 description)
       _holdImmediately{
           "HoldImmediately", "", this,
           [this] {
-            this->_eventManager->Unsubscribe(
-                ::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
-                &_holdImmediately);
+            this->RequestHold(false);
             this->Hold(true);
           }},
       // initialize the Type Registry
@@ -343,6 +342,8 @@ void Simulator::Hold(::Smp::Bool immediate) {
   }
 
   if (immediate) {
+    // a pending request must not hold the next execution
+    RequestHold(false);
 
     EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveExecutingId);
 
@@ -350,12 +351,25 @@ void Simulator::Hold(::Smp::Bool immediate) {
 
     EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
   } else {
-    if (_eventManager) {
-      _eventManager->Subscribe(
-          ::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
-          &_holdImmediately);
-    }
+    RequestHold(true);
+  }
+}
+
+void Simulator::RequestHold(bool request) {
+  const std::scoped_lock lck{_holdMutex};
+  if (!_eventManager || _holdRequested == request) {
+    return;
+  }
+  if (request) {
+    _eventManager->Subscribe(
+        ::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
+        &_holdImmediately);
+  } else {
+    _eventManager->Unsubscribe(
+        ::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
+        &_holdImmediately);
   }
+  _holdRequested = request;
 }
 
 enum class PersistKind { PERSIST, COMPONENT, COMPOSITE, CONTAINER, FIELD };
diff --git a/src/Xsmp/Simulator.h b/src/Xsmp/Simulator.h
index 689db34..685e5a8 100644
--- a/src/Xsmp/Simulator.h
+++ b/src/Xsmp/Simulator.h
@@ -30,6 +30,7 @@
 #include <Xsmp/Publication/TypeRegistry.h>
 #include <Xsmp/cstring.h>
 #include <list>
+#include <mutex>
 #include <utility>
 #include <vector>
 
@@ -372,6 +373,10 @@ public:
 private:
   void EmitGlobalEvent(::Smp::Services::EventId eventId);
 
+  // request to hold before the next change of the simulation time, or cancel
+  // the request
+  void RequestHold(bool request);
+
   [[nodiscard]] ::Xsmp::Publication::Publication *
   CreatePublication(::Smp::IComponent *component);
 
@@ -392,6 +397,8 @@ private:
   FactoryCollection _factories;
 
   ::Xsmp::EntryPoint _holdImmediately;
+  bool _holdRequested = false;
+  std::mutex _holdMutex;
 
   // standard services
   ::Smp::Services::ILinkRegistry *_linkRegistry = nullptr;
-- 
2.43.0


From d77e31ce27ec748939b937852b1b00088e84c2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:58 +0000
Subject: [PATCH 27/38] fix: Run for a duration leaves no event behind

---
 src/Xsmp/Simulator.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index b9f93ce..9d0ec2b 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -29,6 +29,7 @@
 #include <Smp/Services/ILogger.h>
 #include <Smp/Services/IResolver.h>
 #include <Smp/Services/IScheduler.h>
+#include <Smp/Services/InvalidEventId.h>
 #include <Smp/SimulatorStateKind.h>
 #include <Smp/Uuid.h>
 #include <Xsmp/EntryPoint.h>
@@ -321,10 +322,18 @@ void Simulator::Run(::Smp::Duration duration) {
   ::Xsmp::EntryPoint hold{"hold",
                           "call simulator hold after the specified duration",
                           this, [this] { this->Hold(false); }};
-  if (_scheduler) {
-    _scheduler->AddSimulationTimeEvent(&hold, duration);
+  if (!_scheduler) {
+    Run();
+    return;
   }
+  const auto event = _scheduler->AddSimulationTimeEvent(&hold, duration);
   Run();
+  try {
+    // the simulation may have been held before
+    _scheduler->RemoveEvent(event);
+  } catch (const ::Smp::Services::InvalidEventId &) {
+    // the event has been executed
+  }
 }
 
 void Simulator::Hold(::Smp::Bool immediate) {
-- 
2.43.0


From 86fb868b54ce07dd5d1e3ee3f9442bff99530ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:20 +0000
Subject: [PATCH 28/38] fix: an aborted simulation stays aborted

---
 src/Xsmp/Simulator.cpp | 75 ++++++++++++++++++++++++++++++++++--------
 src/Xsmp/Simulator.h   |  3 ++
 2 files changed, 64 insertions(+), 14 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 9d0ec2b..52414fb 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -230,22 +230,42 @@ void Simulator::Connect() {
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveConnectingId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Initialising;
+  if (!ChangeState(::Smp::SimulatorStateKind::SSK_Initialising)) {
+    return;
+  }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterInitialisingId);
 
   std::vector<::Smp::IEntryPoint *> entryPoints;
   entryPoints.swap(_initEntryPoints);
   for (auto const *entryPoint : entryPoints) {
+    if (_state == ::Smp::SimulatorStateKind::SSK_Aborting) {
+      return;
+    }
     entryPoint->Execute();
   }
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveInitialisingId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
+  if (!ChangeState(::Smp::SimulatorStateKind::SSK_Standby)) {
+    return;
+  }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
 
+bool Simulator::ChangeState(::Smp::SimulatorStateKind state) {
+  // there is no way back from an abort
+  if (_state == ::Smp::SimulatorStateKind::SSK_Aborting) {
+    return false;
+  }
+  _state = state;
+  return true;
+}
+
 void Simulator::EmitGlobalEvent(::Smp::Services::EventId eventId) {
+  if (_state == ::Smp::SimulatorStateKind::SSK_Aborting &&
+      eventId != ::Smp::Services::IEventManager::SMP_EnterAbortingId) {
+    return;
+  }
   _lastGlobalEventId = eventId;
   if (_eventManager) {
     _eventManager->Emit(eventId);
@@ -268,17 +288,24 @@ void Simulator::Initialise() {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Initialising;
+  if (!ChangeState(::Smp::SimulatorStateKind::SSK_Initialising)) {
+    return;
+  }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterInitialisingId);
 
   std::vector<::Smp::IEntryPoint *> entryPoints;
   entryPoints.swap(_initEntryPoints);
   for (auto const *entryPoint : entryPoints) {
+    if (_state == ::Smp::SimulatorStateKind::SSK_Aborting) {
+      return;
+    }
     entryPoint->Execute();
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveInitialisingId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
+  if (!ChangeState(::Smp::SimulatorStateKind::SSK_Standby)) {
+    return;
+  }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
 void Simulator::Run() {
@@ -298,7 +325,9 @@ void Simulator::Run() {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Executing;
+  if (!ChangeState(::Smp::SimulatorStateKind::SSK_Executing)) {
+    return;
+  }
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterExecutingId);
 }
@@ -356,7 +385,9 @@ void Simulator::Hold(::Smp::Bool immediate) {
 
     EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveExecutingId);
 
-    _state = ::Smp::SimulatorStateKind::SSK_Standby;
+    if (!ChangeState(::Smp::SimulatorStateKind::SSK_Standby)) {
+      return;
+    }
 
     EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
   } else {
@@ -429,7 +460,9 @@ void Simulator::Store(::Smp::String8 filename) {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Storing;
+  if (!ChangeState(::Smp::SimulatorStateKind::SSK_Storing)) {
+    return;
+  }
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStoringId);
 
@@ -438,7 +471,9 @@ void Simulator::Store(::Smp::String8 filename) {
   ::Xsmp::Store(this, &writer);
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStoringId);
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
+  if (!ChangeState(::Smp::SimulatorStateKind::SSK_Standby)) {
+    return;
+  }
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
@@ -493,14 +528,18 @@ void Simulator::Restore(::Smp::String8 filename) {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Restoring;
+  if (!ChangeState(::Smp::SimulatorStateKind::SSK_Restoring)) {
+    return;
+  }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterRestoringId);
   StorageReader reader{filename, PERSIST_FILENAME, this};
 
   ::Xsmp::Restore(this, &reader);
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveRestoringId);
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
+  if (!ChangeState(::Smp::SimulatorStateKind::SSK_Standby)) {
+    return;
+  }
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
@@ -519,7 +558,9 @@ void Simulator::Reconnect(::Smp::IComponent *root) {
     return;
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
-  _state = ::Smp::SimulatorStateKind::SSK_Reconnecting;
+  if (!ChangeState(::Smp::SimulatorStateKind::SSK_Reconnecting)) {
+    return;
+  }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterReconnectingId);
 
   if (auto const *composite = dynamic_cast<::Smp::IComposite *>(root)) {
@@ -536,7 +577,9 @@ void Simulator::Reconnect(::Smp::IComponent *root) {
     });
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveReconnectingId);
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
+  if (!ChangeState(::Smp::SimulatorStateKind::SSK_Standby)) {
+    return;
+  }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
 
@@ -555,7 +598,9 @@ void Simulator::Exit() {
   }
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
-  _state = ::Smp::SimulatorStateKind::SSK_Exiting;
+  if (!ChangeState(::Smp::SimulatorStateKind::SSK_Exiting)) {
+    return;
+  }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterExitingId);
 
   // Disconnect all components properly
@@ -568,8 +613,10 @@ void Simulator::Exit() {
 
 void Simulator::Abort() {
 
+  if (!ChangeState(::Smp::SimulatorStateKind::SSK_Aborting)) {
+    return;
+  }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterAbortingId);
-  _state = ::Smp::SimulatorStateKind::SSK_Aborting;
 }
 
 ::Smp::SimulatorStateKind Simulator::GetState() const { return _state; }
diff --git a/src/Xsmp/Simulator.h b/src/Xsmp/Simulator.h
index 685e5a8..692c028 100644
--- a/src/Xsmp/Simulator.h
+++ b/src/Xsmp/Simulator.h
@@ -371,6 +371,9 @@ public:
   void Run(::Smp::Duration duration);
 
 private:
+  // change the state, unless the simulation has been aborted
+  bool ChangeState(::Smp::SimulatorStateKind state);
+
   void EmitGlobalEvent(::Smp::Services::EventId eventId);
 
   // request to hold before the next change of the simulation time, or cancel
-- 
2.43.0


From 335365af2694a6e1b4d70eb01fe21f82bab7f77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:36 +0000
Subject: [PATCH 29/38] fix: Store reports data that could not be written when
 the file is closed

---
 src/Xsmp/Simulator.cpp     | 1 +
 src/Xsmp/StorageWriter.cpp | 8 ++++++++
 src/Xsmp/StorageWriter.h   | 6 ++++++
 3 files changed, 15 insertions(+)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 52414fb..0182670 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -469,6 +469,7 @@ void Simulator::Store(::Smp::String8 filename) {
   StorageWriter writer{filename, PERSIST_FILENAME, this};
 
   ::Xsmp::Store(this, &writer);
+  writer.Close();
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStoringId);
   if (!ChangeState(::Smp::SimulatorStateKind::SSK_Standby)) {
diff --git a/src/Xsmp/StorageWriter.cpp b/src/Xsmp/StorageWriter.cpp
index ba55a33..381db42 100644
--- a/src/Xsmp/StorageWriter.cpp
+++ b/src/Xsmp/StorageWriter.cpp
@@ -62,6 +62,14 @@ void StorageWriter::Store(void *address, ::Smp::UInt64 size) {
   }
 }
 
+void StorageWriter::Close() {
+  _os.close();
+  if (_os.fail()) {
+    ::Xsmp::Exception::throwCannotStore(_object,
+                                        "Writing error on output operation");
+  }
+}
+
 ::Smp::String8 StorageWriter::GetStateVectorFileName() const {
   return _filename.c_str();
 }
diff --git a/src/Xsmp/StorageWriter.h b/src/Xsmp/StorageWriter.h
index 56358ec..036d3b9 100644
--- a/src/Xsmp/StorageWriter.h
+++ b/src/Xsmp/StorageWriter.h
@@ -42,6 +42,12 @@ public:
   /// @param   size Size of memory block.
   void Store(void *address, ::Smp::UInt64 size) override;
 
+  /// Close the state vector file.
+  /// This method shall be called once all data is stored: data may be
+  /// buffered until then.
+  /// @throws Smp::CannotStore if some data could not be written.
+  void Close();
+
   /// Get the state vector file name.
   /// This method returns a full file name, including the path to the
   /// file.
-- 
2.43.0


From ed1667b70c9ef9610e331ba8c4a865692901095d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:36 +0000
Subject: [PATCH 30/38] fix: Store throws CannotStore if the directory cannot
 be created

---
 src/Xsmp/StorageWriter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/StorageWriter.cpp b/src/Xsmp/StorageWriter.cpp
index 381db42..39e68fd 100644
--- a/src/Xsmp/StorageWriter.cpp
+++ b/src/Xsmp/StorageWriter.cpp
@@ -17,6 +17,7 @@
 #include <Xsmp/StorageWriter.h>
 #include <fstream>
 #include <iostream>
+#include <system_error>
 
 #if !defined(__clang__) && defined(__GNUC__) && __GNUC__ <= 7
 #include <experimental/filesystem>
@@ -31,9 +32,9 @@ namespace Xsmp {
 namespace {
 std::ofstream createOutputStream(::Smp::String8 path, ::Smp::String8 filename,
                                  const ::Smp::IObject *object) {
-  if (!fs::is_directory(path ? path : "")) {
-    fs::create_directories(path ? path : "");
-  }
+  // a directory that cannot be created is noticed when the file is opened
+  std::error_code error;
+  fs::create_directories(path ? path : "", error);
   auto fullPath = fs::path(path ? path : "") / (filename ? filename : "");
   std::ofstream outputStream{fullPath, std::ios::binary};
 
-- 
2.43.0


From 786ae6e95a8161d9d10971978ba33286f5909cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:36 +0000
Subject: [PATCH 31/38] fix: a failing Store or Restore does not leave the
 simulator in its state

---
 src/Xsmp/Simulator.cpp | 46 ++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 0182670..7164dd2 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -466,17 +466,23 @@ void Simulator::Store(::Smp::String8 filename) {
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStoringId);
 
-  StorageWriter writer{filename, PERSIST_FILENAME, this};
-
-  ::Xsmp::Store(this, &writer);
-  writer.Close();
+  auto leave = [this] {
+    EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStoringId);
+    if (!ChangeState(::Smp::SimulatorStateKind::SSK_Standby)) {
+      return;
+    }
+    EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+  };
+  try {
+    StorageWriter writer{filename, PERSIST_FILENAME, this};
 
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStoringId);
-  if (!ChangeState(::Smp::SimulatorStateKind::SSK_Standby)) {
-    return;
+    ::Xsmp::Store(this, &writer);
+    writer.Close();
+  } catch (...) {
+    leave();
+    throw;
   }
-
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+  leave();
 }
 namespace {
 void check(const ::Smp::IObject *obj, ::Smp::IStorageReader *reader,
@@ -533,16 +539,22 @@ void Simulator::Restore(::Smp::String8 filename) {
     return;
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterRestoringId);
-  StorageReader reader{filename, PERSIST_FILENAME, this};
-
-  ::Xsmp::Restore(this, &reader);
+  auto leave = [this] {
+    EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveRestoringId);
+    if (!ChangeState(::Smp::SimulatorStateKind::SSK_Standby)) {
+      return;
+    }
+    EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+  };
+  try {
+    StorageReader reader{filename, PERSIST_FILENAME, this};
 
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveRestoringId);
-  if (!ChangeState(::Smp::SimulatorStateKind::SSK_Standby)) {
-    return;
+    ::Xsmp::Restore(this, &reader);
+  } catch (...) {
+    leave();
+    throw;
   }
-
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+  leave();
 }
 
 void Simulator::Reconnect(::Smp::IComponent *root) {
-- 
2.43.0


From 823bf6926940bc8b358e805426309ce8dbb6b681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:40 +0000
Subject: [PATCH 32/38] fix: Store and Restore visit the components of
 containers

---
 src/Xsmp/Simulator.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 7164dd2..6aab29a 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -439,6 +439,11 @@ void Store(::Smp::IObject *obj, ::Smp::IStorageWriter *writer) {
       for (auto *container : *composite->GetContainers()) {
         writer->Store(&kind, sizeof(PersistKind));
         Store(container, writer);
+        if (const auto *components = container->GetComponents()) {
+          for (auto *child : *components) {
+            Store(child, writer);
+          }
+        }
       }
     }
   }
@@ -515,6 +520,11 @@ void Restore(::Smp::IObject *obj, ::Smp::IStorageReader *reader) {
       for (auto *container : *composite->GetContainers()) {
         check(obj, reader, PersistKind::CONTAINER);
         Restore(container, reader);
+        if (const auto *components = container->GetComponents()) {
+          for (auto *child : *components) {
+            Restore(child, reader);
+          }
+        }
       }
     }
   }
-- 
2.43.0


From 441b5a8e16f932425223f21bb68fd8e4d20e4a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:44 +0000
Subject: [PATCH 33/38] fix: a path that leaves a field no longer loses its
 next name

---
 src/Xsmp/Helper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/Helper.cpp b/src/Xsmp/Helper.cpp
index c084e7d..7a02216 100644
--- a/src/Xsmp/Helper.cpp
+++ b/src/Xsmp/Helper.cpp
@@ -221,9 +221,6 @@ inline ::Smp::IObject *Resolve(::Smp::IObject *object, ::Smp::String8 name,
     }
   }
 
-  if (auto *field = dynamic_cast<::Smp::IField *>(object)) {
-    return ::Xsmp::Helper::Resolve(field, path);
-  }
   return nullptr;
 }
 
@@ -394,6 +391,9 @@ std::string GetPath(const ::Smp::IObject *obj) {
   if (path[0] == '\0' || !parent) {
     return parent;
   }
+  if (auto *field = dynamic_cast<::Smp::IField *>(parent)) {
+    return Resolve(field, path);
+  }
   ::Smp::Char8 separator = '\0';
   auto segment = GetNextSegment(&path, &separator);
 
-- 
2.43.0


From 46843fcc4ab610dab367a3a3ee5263b18d2cd07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:44 +0000
Subject: [PATCH 34/38] fix: resolving a path below a fallible model without
 failures

---
 src/Xsmp/Helper.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Helper.cpp b/src/Xsmp/Helper.cpp
index 7a02216..3ddfa11 100644
--- a/src/Xsmp/Helper.cpp
+++ b/src/Xsmp/Helper.cpp
@@ -209,8 +209,10 @@ inline ::Smp::IObject *Resolve(::Smp::IObject *object, ::Smp::String8 name,
 
   if (auto const *fallibleModel =
           dynamic_cast<const ::Smp::IFallibleModel *>(object)) {
-    if (auto *failure = fallibleModel->GetFailures()->at(name)) {
-      return ::Xsmp::Helper::Resolve(failure, path);
+    if (const auto *failures = fallibleModel->GetFailures()) {
+      if (auto *failure = failures->at(name)) {
+        return ::Xsmp::Helper::Resolve(failure, path);
+      }
     }
   }
   if (auto const *component = dynamic_cast<const ::Smp::IComponent *>(object)) {
-- 
2.43.0


From 6c8e7cd2c3d65ed93ae7c8432a5ca8b96c7269d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:56 +0000
Subject: [PATCH 35/38] fix: InvalidAnyType names the given kind as invalid and
 the wanted one as expected

---
 src/Smp/AnySimple.cpp            | 56 ++++++++++++++++----------------
 src/Xsmp/EventSink.cpp           |  4 +--
 src/Xsmp/Publication/Request.cpp |  4 +--
 3 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/Smp/AnySimple.cpp b/src/Smp/AnySimple.cpp
index a5cbdee..547f7cf 100644
--- a/src/Smp/AnySimple.cpp
+++ b/src/Smp/AnySimple.cpp
@@ -671,23 +671,23 @@ AnySimple::operator ::Smp::Bool() const {
   case PrimitiveTypeKind::PTK_String8:
     return this->value.string8Value;
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Bool);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_Bool,
+                                           type);
   }
 }
 
 AnySimple::operator ::Smp::Char8() const {
   if (type != PrimitiveTypeKind::PTK_Char8) {
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Char8);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr,
+                                           PrimitiveTypeKind::PTK_Char8, type);
   }
   return this->value.char8Value;
 }
 
 AnySimple::operator ::Smp::String8() const {
   if (type != PrimitiveTypeKind::PTK_String8) {
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_String8);
+    ::Xsmp::Exception::throwInvalidAnyType(
+        nullptr, PrimitiveTypeKind::PTK_String8, type);
   }
   return this->value.string8Value;
 }
@@ -724,8 +724,8 @@ AnySimple::operator ::Smp::UInt8() const {
     return convertIntegral<::Smp::UInt8>(value.uInt64Value, type,
                                          PrimitiveTypeKind::PTK_UInt8);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_UInt8);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr,
+                                           PrimitiveTypeKind::PTK_UInt8, type);
   }
 }
 
@@ -760,8 +760,8 @@ AnySimple::operator ::Smp::UInt16() const {
     return convertIntegral<::Smp::UInt16>(value.uInt64Value, type,
                                           PrimitiveTypeKind::PTK_UInt16);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_UInt16);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr,
+                                           PrimitiveTypeKind::PTK_UInt16, type);
   }
 }
 
@@ -795,8 +795,8 @@ AnySimple::operator ::Smp::UInt32() const {
     return convertIntegral<::Smp::UInt32>(value.uInt64Value, type,
                                           PrimitiveTypeKind::PTK_UInt32);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_UInt32);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr,
+                                           PrimitiveTypeKind::PTK_UInt32, type);
   }
 }
 
@@ -829,8 +829,8 @@ AnySimple::operator ::Smp::UInt64() const {
   case PrimitiveTypeKind::PTK_UInt64:
     return this->value.uInt64Value;
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_UInt64);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr,
+                                           PrimitiveTypeKind::PTK_UInt64, type);
   }
 }
 
@@ -866,8 +866,8 @@ AnySimple::operator ::Smp::Int8() const {
     return convertIntegral<::Smp::Int8>(value.uInt64Value, type,
                                         PrimitiveTypeKind::PTK_Int8);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Int8);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_Int8,
+                                           type);
   }
 }
 
@@ -901,8 +901,8 @@ AnySimple::operator ::Smp::Int16() const {
     return convertIntegral<::Smp::Int16>(value.uInt64Value, type,
                                          PrimitiveTypeKind::PTK_Int16);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Int16);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr,
+                                           PrimitiveTypeKind::PTK_Int16, type);
   }
 }
 
@@ -934,8 +934,8 @@ AnySimple::operator ::Smp::Int32() const {
     return convertIntegral<::Smp::Int32>(value.uInt64Value, type,
                                          PrimitiveTypeKind::PTK_Int32);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Int32);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr,
+                                           PrimitiveTypeKind::PTK_Int32, type);
   }
 }
 
@@ -963,8 +963,8 @@ AnySimple::operator ::Smp::Int64() const {
     return convertIntegral<::Smp::Int64>(value.uInt64Value, type,
                                          PrimitiveTypeKind::PTK_Int64);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Int64);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr,
+                                           PrimitiveTypeKind::PTK_Int64, type);
   }
 }
 
@@ -997,8 +997,8 @@ AnySimple::operator ::Smp::Float32() const {
     return convertFloat<::Smp::Float32>(value.float64Value, type,
                                         PrimitiveTypeKind::PTK_Float32);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Float32);
+    ::Xsmp::Exception::throwInvalidAnyType(
+        nullptr, PrimitiveTypeKind::PTK_Float32, type);
   }
 }
 
@@ -1027,8 +1027,8 @@ AnySimple::operator ::Smp::Float64() const {
   case PrimitiveTypeKind::PTK_Float64:
     return this->value.float64Value;
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Float64);
+    ::Xsmp::Exception::throwInvalidAnyType(
+        nullptr, PrimitiveTypeKind::PTK_Float64, type);
   }
 }
 
@@ -1038,8 +1038,8 @@ AnySimple::operator ::Smp::Float64() const {
     this->value.string8Value = nullptr;
     return result;
   }
-  ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                         PrimitiveTypeKind::PTK_String8);
+  ::Xsmp::Exception::throwInvalidAnyType(nullptr,
+                                         PrimitiveTypeKind::PTK_String8, type);
 }
 
 ::Smp::PrimitiveTypeKind AnySimple::GetType() const noexcept { return type; }
diff --git a/src/Xsmp/EventSink.cpp b/src/Xsmp/EventSink.cpp
index 7145388..fe0ac84 100644
--- a/src/Xsmp/EventSink.cpp
+++ b/src/Xsmp/EventSink.cpp
@@ -59,8 +59,8 @@ EventSink<void>::EventSink(::Smp::String8 name, ::Smp::String8 description,
 
 void EventSink<void>::Notify(::Smp::IObject *sender, ::Smp::AnySimple value) {
   if (value.GetType() != GetEventArgType()) {
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, value.GetType(),
-                                           GetEventArgType());
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, GetEventArgType(),
+                                           value.GetType());
   }
   _callback(sender);
 }
diff --git a/src/Xsmp/Publication/Request.cpp b/src/Xsmp/Publication/Request.cpp
index 17f8046..131b0df 100644
--- a/src/Xsmp/Publication/Request.cpp
+++ b/src/Xsmp/Publication/Request.cpp
@@ -35,8 +35,8 @@ bool Request::isValid(const ::Smp::IObject *sender,
                       const ::Smp::Publication::IType *type,
                       const ::Smp::AnySimple &value) {
   if (type->GetPrimitiveTypeKind() != value.type) {
-    ::Xsmp::Exception::throwInvalidAnyType(sender, value.type,
-                                           type->GetPrimitiveTypeKind());
+    ::Xsmp::Exception::throwInvalidAnyType(sender, type->GetPrimitiveTypeKind(),
+                                           value.type);
   }
   // integer types
   if (const auto *integerType = dynamic_cast<const IntegerType *>(type)) {
-- 
2.43.0


From a7bf96497a739f95d0c09beec457e6f9b79f9749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:56 +0000
Subject: [PATCH 36/38] fix: values beyond the range of Int64 or Int32 are
 invalid parameter values

---
 src/Xsmp/Publication/Request.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Publication/Request.cpp b/src/Xsmp/Publication/Request.cpp
index 131b0df..46faaa7 100644
--- a/src/Xsmp/Publication/Request.cpp
+++ b/src/Xsmp/Publication/Request.cpp
@@ -25,6 +25,7 @@
 #include <Xsmp/cstring.h>
 #include <algorithm>
 #include <cstddef>
+#include <limits>
 #include <map>
 #include <string>
 #include <utility>
@@ -40,6 +41,13 @@ bool Request::isValid(const ::Smp::IObject *sender,
   }
   // integer types
   if (const auto *integerType = dynamic_cast<const IntegerType *>(type)) {
+    // no maximum is above the range of Int64
+    if (value.type == ::Smp::PrimitiveTypeKind::PTK_UInt64 &&
+        static_cast<::Smp::UInt64>(value) >
+            static_cast<::Smp::UInt64>(
+                std::numeric_limits<::Smp::Int64>::max())) {
+      return false;
+    }
     auto intValue = static_cast<::Smp::Int64>(value);
     if (intValue < integerType->getMinimum() ||
         intValue > integerType->getMaximum()) {
@@ -68,8 +76,11 @@ bool Request::isValid(const ::Smp::IObject *sender,
   // enumeration types
   else if (const auto *enumType = dynamic_cast<const EnumerationType *>(type)) {
     // check that a literal with the correct value exist
-    if (enumType->GetLiterals().find(static_cast<::Smp::Int32>(value)) ==
-        enumType->GetLiterals().end()) {
+    auto literal = static_cast<::Smp::Int64>(value);
+    if (literal < std::numeric_limits<::Smp::Int32>::min() ||
+        literal > std::numeric_limits<::Smp::Int32>::max() ||
+        enumType->GetLiterals().find(static_cast<::Smp::Int32>(literal)) ==
+            enumType->GetLiterals().end()) {
       return false;
     }
   }
-- 
2.43.0


From 8efd6cdfd157c75ffbf261bb99828d9a04b9350e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:56 +0000
Subject: [PATCH 37/38] fix: a set request has one parameter

---
 src/Xsmp/Publication/Property.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Publication/Property.cpp b/src/Xsmp/Publication/Property.cpp
index e0493d5..280687d 100644
--- a/src/Xsmp/Publication/Property.cpp
+++ b/src/Xsmp/Publication/Property.cpp
@@ -102,7 +102,7 @@ public:
 
   void SetParameterValue(::Smp::Int32 index, ::Smp::AnySimple value) override {
     if (index != 0) {
-      ::Xsmp::Exception::throwInvalidParameterIndex(_property, index, 0);
+      ::Xsmp::Exception::throwInvalidParameterIndex(_property, index, 1);
     }
     if (!::Xsmp::Publication::Request::isValid(_property, _property->GetType(),
                                                value)) {
@@ -115,7 +115,7 @@ public:
   [[nodiscard]] ::Smp::AnySimple
   GetParameterValue(::Smp::Int32 index) const override {
     if (index != 0) {
-      ::Xsmp::Exception::throwInvalidParameterIndex(_property, index, 0);
+      ::Xsmp::Exception::throwInvalidParameterIndex(_property, index, 1);
     }
     return _value;
   }
-- 
2.43.0


From 15a53f3de25b583d511ffebb45d3bb2244b9011d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:56 +0000
Subject: [PATCH 38/38] fix: operations have no parameter without a name

---
 src/Xsmp/Publication/Operation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Publication/Operation.cpp b/src/Xsmp/Publication/Operation.cpp
index ff5cdd4..85bc2f5 100644
--- a/src/Xsmp/Publication/Operation.cpp
+++ b/src/Xsmp/Publication/Operation.cpp
@@ -96,7 +96,7 @@ void Operation::PublishParameter(
         std::make_unique<Parameter>(name, description, this, type, direction);
   } else {
     // check do duplicate parameter name
-    if (_returnParameter &&
+    if (name && _returnParameter &&
         std::strcmp(_returnParameter->GetName(), name) == 0) {
       ::Xsmp::Exception::throwDuplicateName(this, name, &_parameters);
     }
@@ -113,7 +113,8 @@ const ::Smp::ParameterCollection *Operation::GetParameters() const {
   if (auto *parameter = _parameters.at(name)) {
     return parameter;
   }
-  if (_returnParameter && std::strcmp(_returnParameter->GetName(), name) == 0) {
+  if (name && _returnParameter &&
+      std::strcmp(_returnParameter->GetName(), name) == 0) {
     return _returnParameter.get();
   }
   return nullptr;
-- 
2.43.0

