From fda2dad2c276b931ea45484599771242319bec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 01/21] fix: Avoid null dereference on duplicate set elements
 when no error collector is passed

---
 lib/json/reflector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 9aeb899..3d92132 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -729,7 +729,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
         ++index;
         typename Type::value_type itemObj;
         pull(itemObj, item, errors);
-        if (!reflectable.emplace(std::move(itemObj)).second) {
+        if (!reflectable.emplace(std::move(itemObj)).second && errors) {
             errors->reportUnexpectedDuplicate(JsonType::Array);
         }
     }
-- 
2.43.0


From 0345be9a5ade7230215a4f1d042b017825da425e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 02/21] fix: Copy map keys into the JSON document including
 embedded null characters

---
 lib/json/reflector.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 3d92132..f9080f0 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -245,9 +245,12 @@ template <typename Type, Traits::EnableIfAny<IsMapOrHash<Type>> * = nullptr>
 void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)
 {
     value.SetObject();
-    RAPIDJSON_NAMESPACE::Value::Object object(value.GetObject());
     for (const auto &item : reflectable) {
-        push(item.second, item.first.data(), object, allocator);
+        // copy the key so the document does not depend on the lifetime of the reflectable
+        auto memberName = RAPIDJSON_NAMESPACE::Value(item.first.data(), rapidJsonSize(item.first.size()), allocator);
+        auto memberValue = RAPIDJSON_NAMESPACE::Value();
+        push(item.second, memberValue, allocator);
+        value.AddMember(memberName, memberValue, allocator);
     }
 }
 
@@ -259,7 +262,8 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
 {
     value.SetObject();
     for (const auto &item : reflectable) {
-        const auto memberName = RAPIDJSON_NAMESPACE::Value::StringRefType(item.first.data(), rapidJsonSize(item.first.size()));
+        // copy the key so the document does not depend on the lifetime of the reflectable
+        auto memberName = RAPIDJSON_NAMESPACE::Value(item.first.data(), rapidJsonSize(item.first.size()), allocator);
         const auto existingMember = value.FindMember(memberName);
         const auto arrayAlreadyExists
             = existingMember != value.MemberEnd() && existingMember->value.GetType() == RAPIDJSON_NAMESPACE::Type::kArrayType;
-- 
2.43.0


From 008ccf74b89d4c23f952c5abc9b516ea7b14bc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 03/21] fix: Preserve embedded null characters when
 deserializing strings and map keys

---
 lib/json/reflector.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index f9080f0..4303050 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -608,7 +608,7 @@ inline void pull(
         }
         return;
     }
-    reflectable = value.GetString();
+    reflectable.assign(value.GetString(), value.GetStringLength());
 }
 
 /*!
@@ -758,7 +758,7 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
     }
     auto obj = value.GetObject();
     for (auto i = obj.MemberBegin(), end = obj.MemberEnd(); i != end; ++i) {
-        pull(reflectable[i->name.GetString()], i->value, errors);
+        pull(reflectable[typename Type::key_type(i->name.GetString(), i->name.GetStringLength())], i->value, errors);
     }
 }
 
@@ -776,14 +776,15 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
     }
     auto obj = value.GetObject();
     for (auto i = obj.MemberBegin(), end = obj.MemberEnd(); i != end; ++i) {
+        const auto key = typename Type::key_type(i->name.GetString(), i->name.GetStringLength());
         if (i->value.GetType() != RAPIDJSON_NAMESPACE::kArrayType) {
-            auto insertedIterator = reflectable.insert(typename Type::value_type(i->name.GetString(), typename Type::mapped_type()));
+            auto insertedIterator = reflectable.insert(typename Type::value_type(key, typename Type::mapped_type()));
             pull(insertedIterator->second, i->value, errors);
             continue;
         }
         const auto array = i->value.GetArray();
         for (const auto &arrayValue : array) {
-            auto insertedIterator = reflectable.insert(typename Type::value_type(i->name.GetString(), typename Type::mapped_type()));
+            auto insertedIterator = reflectable.insert(typename Type::value_type(key, typename Type::mapped_type()));
             pull(insertedIterator->second, arrayValue, errors);
         }
     }
@@ -1146,7 +1147,7 @@ Type fromJson(const char *json, std::size_t jsonSize, JsonDeserializationErrors
         return Type();
     }
 
-    return doc.GetString();
+    return Type(doc.GetString(), doc.GetStringLength());
 }
 
 /*!
-- 
2.43.0


From 47895eba57a0a0abf5e2286a56e7922b748adbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 04/21] fix: Report numbers exceeding the range of the target
 type instead of invoking undefined behavior or truncating them

---
 lib/json/reflector.h | 61 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 55 insertions(+), 6 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 4303050..97dfbb8 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -16,6 +16,7 @@
 #include <rapidjson/stringbuffer.h>
 #include <rapidjson/writer.h>
 
+#include <cmath>
 #include <limits>
 #include <map>
 #include <memory>
@@ -529,8 +530,28 @@ inline void pull(Type &reflectable, const char *name, const rapidjson::GenericVa
 template <typename Type, Traits::DisableIf<IsBuiltInType<Type>> *>
 void pull(Type &reflectable, const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors);
 
+namespace Detail {
+
+/*!
+ * \brief Returns whether the specified \a number can be stored within \tparam Type (when ignoring decimal places in case \tparam Type is integral).
+ */
+template <typename Type> inline bool isWithinRange(double number)
+{
+    if constexpr (std::is_integral_v<Type>) {
+        number = std::trunc(number);
+        return number >= static_cast<double>(std::numeric_limits<Type>::min())
+            && number < static_cast<double>(std::numeric_limits<Type>::max()) + 1.0;
+    } else {
+        return number >= static_cast<double>(std::numeric_limits<Type>::lowest())
+            && number <= static_cast<double>(std::numeric_limits<Type>::max());
+    }
+}
+
+} // namespace Detail
+
 /*!
  * \brief Pulls the integer or float from the specified value which is supposed and checked to contain the right type.
+ * \remarks Numbers which are not within the range of \tparam Type lead to a conversion error.
  */
 template <typename Type,
     Traits::EnableIf<Traits::Not<std::is_same<Type, bool>>, Traits::Not<std::is_same<Type, std::uint8_t>>,
@@ -544,7 +565,18 @@ inline void pull(
         }
         return;
     }
-    reflectable = value.Is<Type>() ? value.Get<Type>() : static_cast<Type>(value.GetDouble());
+    if (value.Is<Type>()) {
+        reflectable = value.Get<Type>();
+        return;
+    }
+    const auto number = value.GetDouble();
+    if (!Detail::isWithinRange<Type>(number)) {
+        if (errors) {
+            errors->reportConversionError(JsonType::Number);
+        }
+        return;
+    }
+    reflectable = static_cast<Type>(number);
 }
 
 /*!
@@ -554,11 +586,20 @@ template <typename Type, Traits::EnableIfAny<std::is_same<Type, std::uint8_t>, s
 inline void pull(
     Type &reflectable, const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors)
 {
-    int i = 0;
-    pull(i, value, errors);
-    if (value.IsNumber()) {
-        reflectable = static_cast<Type>(i);
+    if (!value.IsNumber()) {
+        if (errors) {
+            errors->reportTypeMismatch<Type>(value.GetType());
+        }
+        return;
     }
+    const auto number = value.GetDouble();
+    if (!Detail::isWithinRange<Type>(number)) {
+        if (errors) {
+            errors->reportConversionError(JsonType::Number);
+        }
+        return;
+    }
+    reflectable = static_cast<Type>(number);
 }
 
 /*!
@@ -592,7 +633,15 @@ inline void pull(
         }
         return;
     }
-    reflectable = static_cast<Type>(value.Get<ExpectedType>());
+    const auto number = value.Get<ExpectedType>();
+    using Limits = std::numeric_limits<typename std::underlying_type<Type>::type>;
+    if (number < Limits::min() || number > Limits::max()) {
+        if (errors) {
+            errors->reportConversionError(JsonType::Number);
+        }
+        return;
+    }
+    reflectable = static_cast<Type>(number);
 }
 
 /*!
-- 
2.43.0


From c3bc277b8230d49cfbf0d4d92c6b0ffb9deb4a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 05/21] fix: Leave DateTime and TimeSpan objects as-is when the
 JSON value is not a string

---
 lib/json/reflector-chronoutilities.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/json/reflector-chronoutilities.h b/lib/json/reflector-chronoutilities.h
index 7acccaf..451d0f2 100644
--- a/lib/json/reflector-chronoutilities.h
+++ b/lib/json/reflector-chronoutilities.h
@@ -43,6 +43,9 @@ inline void pull<CppUtilities::DateTime>(CppUtilities::DateTime &reflectable,
 {
     std::string str;
     pull(str, value, errors);
+    if (!value.IsString()) {
+        return; // type mismatch has already been reported
+    }
     try {
         reflectable = CppUtilities::DateTime::fromIsoStringGmt(str.data());
     } catch (const CppUtilities::ConversionException &) {
@@ -58,6 +61,9 @@ inline void pull<CppUtilities::TimeSpan>(CppUtilities::TimeSpan &reflectable,
 {
     std::string str;
     pull(str, value, errors);
+    if (!value.IsString()) {
+        return; // type mismatch has already been reported
+    }
     try {
         reflectable = CppUtilities::TimeSpan::fromString(str.data());
     } catch (const CppUtilities::ConversionException &) {
-- 
2.43.0


From b707917d8e5fc5ab814854b062c419f7599f0ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 06/21] fix: Consider throwOn for errors about invalid variants

---
 lib/json/errorhandling.h | 22 ++++++++++++++++++++++
 lib/json/reflector.h     |  9 +++------
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/lib/json/errorhandling.h b/lib/json/errorhandling.h
index d363950..93b2fa0 100644
--- a/lib/json/errorhandling.h
+++ b/lib/json/errorhandling.h
@@ -159,6 +159,8 @@ struct JsonDeserializationErrors : public std::vector<JsonDeserializationError>
     void reportArraySizeMismatch();
     void reportConversionError(JsonType jsonType);
     void reportUnexpectedDuplicate(JsonType jsonType);
+    void reportInvalidVariantObject();
+    void reportInvalidVariantIndex(JsonType presentType);
 
     /// \brief The name of the class or struct which is currently being processed.
     const char *currentRecord;
@@ -173,6 +175,8 @@ struct JsonDeserializationErrors : public std::vector<JsonDeserializationError>
         ArraySizeMismatch = 0x2,
         ConversionError = 0x4,
         UnexpectedDuplicate = 0x8,
+        InvalidVariantObject = 0x10,
+        InvalidVariantIndex = 0x20,
         All = 0xFF,
     } throwOn;
 
@@ -264,6 +268,24 @@ inline void JsonDeserializationErrors::reportUnexpectedDuplicate(JsonType jsonTy
     throwMaybe(ThrowOn::UnexpectedDuplicate);
 }
 
+/*!
+ * \brief Reports an invalid variant object. An error of that kind occurs when the index or data member of an object representing a variant is missing.
+ */
+inline void JsonDeserializationErrors::reportInvalidVariantObject()
+{
+    emplace_back(JsonDeserializationErrorKind::InvalidVariantObject, JsonType::Object, JsonType::Object, currentRecord, currentMember, currentIndex);
+    throwMaybe(ThrowOn::InvalidVariantObject);
+}
+
+/*!
+ * \brief Reports an invalid variant index. An error of that kind occurs when the index of a variant is not an unsigned number or out of range.
+ */
+inline void JsonDeserializationErrors::reportInvalidVariantIndex(JsonType presentType)
+{
+    emplace_back(JsonDeserializationErrorKind::InvalidVariantIndex, JsonType::Number, presentType, currentRecord, currentMember, currentIndex);
+    throwMaybe(ThrowOn::InvalidVariantIndex);
+}
+
 } // namespace ReflectiveRapidJSON
 
 #endif // REFLECTIVE_RAPIDJSON_JSON_REFLECTOR_H
diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 97dfbb8..afd585c 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -967,8 +967,7 @@ void assignVariantValueByRuntimeIndex(std::size_t runtimeIndex, Variant &variant
         }
     } else {
         if (errors) {
-            errors->emplace_back(JsonDeserializationErrorKind::InvalidVariantIndex, JsonType::Number, JsonType::Number, errors->currentRecord,
-                errors->currentMember, errors->currentIndex);
+            errors->reportInvalidVariantIndex(JsonType::Number);
         }
     }
 }
@@ -993,16 +992,14 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
     auto dataIterator = obj.FindMember("data");
     if (indexIterator == obj.MemberEnd() || dataIterator == obj.MemberEnd()) {
         if (errors) {
-            errors->emplace_back(JsonDeserializationErrorKind::InvalidVariantObject, JsonType::Object, JsonType::Object, errors->currentRecord,
-                errors->currentMember, errors->currentIndex);
+            errors->reportInvalidVariantObject();
         }
         return;
     }
     const auto &indexValue = indexIterator->value;
     if (!indexValue.IsUint64()) {
         if (errors) {
-            errors->emplace_back(JsonDeserializationErrorKind::InvalidVariantIndex, JsonType::Number, jsonType(indexValue.GetType()),
-                errors->currentRecord, errors->currentMember, errors->currentIndex);
+            errors->reportInvalidVariantIndex(jsonType(indexValue.GetType()));
         }
         return;
     }
-- 
2.43.0


From 14564bb957818f58f231873325112d4a7f2c6097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 07/21] fix: Restore the array index of the error context after
 deserializing a nested array

---
 lib/json/reflector.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index afd585c..94ac651 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -718,6 +718,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
     reflectable.clear();
 
     // pull all array elements of the specified value
+    const auto previousIndex = errors ? errors->currentIndex : JsonDeserializationError::noIndex;
     std::size_t index = 0;
     for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
         // set error context for current index
@@ -729,9 +730,9 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
         pull(reflectable.back(), item, errors);
     }
 
-    // clear error context
+    // restore previous error context
     if (errors) {
-        errors->currentIndex = JsonDeserializationError::noIndex;
+        errors->currentIndex = previousIndex;
     }
 }
 
@@ -745,6 +746,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
     reflectable.clear();
 
     // pull all array elements of the specified value
+    const auto previousIndex = errors ? errors->currentIndex : JsonDeserializationError::noIndex;
     std::size_t index = 0;
     for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
         // set error context for current index
@@ -757,9 +759,9 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
         reflectable.emplace(std::move(itemObj));
     }
 
-    // clear error context
+    // restore previous error context
     if (errors) {
-        errors->currentIndex = JsonDeserializationError::noIndex;
+        errors->currentIndex = previousIndex;
     }
 }
 
@@ -773,6 +775,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
     reflectable.clear();
 
     // pull all array elements of the specified value
+    const auto previousIndex = errors ? errors->currentIndex : JsonDeserializationError::noIndex;
     std::size_t index = 0;
     for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
         // set error context for current index
@@ -787,9 +790,9 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
         }
     }
 
-    // clear error context
+    // restore previous error context
     if (errors) {
-        errors->currentIndex = JsonDeserializationError::noIndex;
+        errors->currentIndex = previousIndex;
     }
 }
 
-- 
2.43.0


From d945e149d42beeec8f237687924851dae3ba072f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 08/21] fix: Replace contents of maps and sets when
 deserializing instead of merging with previous contents

---
 lib/binary/reflector.h | 2 ++
 lib/json/reflector.h   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lib/binary/reflector.h b/lib/binary/reflector.h
index 883d9b7..27d762b 100644
--- a/lib/binary/reflector.h
+++ b/lib/binary/reflector.h
@@ -184,6 +184,7 @@ template <typename Type, Traits::EnableIf<IsArray<Type>, Traits::IsResizable<Typ
 template <typename Type, Traits::EnableIfAny<IsMapOrHash<Type>, IsMultiMapOrHash<Type>> *> void BinaryDeserializer::read(Type &iteratable)
 {
     const auto size = readVariableLengthUIntBE();
+    iteratable.clear();
     for (size_t i = 0; i != size; ++i) {
         std::pair<typename std::remove_const<typename Type::value_type::first_type>::type, typename Type::value_type::second_type> value;
         read(value);
@@ -197,6 +198,7 @@ template <typename Type,
 void BinaryDeserializer::read(Type &iteratable)
 {
     const auto size = readVariableLengthUIntBE();
+    iteratable.clear();
     for (size_t i = 0; i != size; ++i) {
         typename Type::value_type value;
         read(value);
diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 94ac651..3bf52f1 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -808,6 +808,7 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
         }
         return;
     }
+    reflectable.clear();
     auto obj = value.GetObject();
     for (auto i = obj.MemberBegin(), end = obj.MemberEnd(); i != end; ++i) {
         pull(reflectable[typename Type::key_type(i->name.GetString(), i->name.GetStringLength())], i->value, errors);
@@ -826,6 +827,7 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
         }
         return;
     }
+    reflectable.clear();
     auto obj = value.GetObject();
     for (auto i = obj.MemberBegin(), end = obj.MemberEnd(); i != end; ++i) {
         const auto key = typename Type::key_type(i->name.GetString(), i->name.GetStringLength());
-- 
2.43.0


From 47ab2d9d921f355356794f9312da873428ec2212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 09/21] fix: Allow using fromBinary() on versioned types

---
 lib/binary/serializable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/binary/serializable.h b/lib/binary/serializable.h
index 3a87d06..a0b68e8 100644
--- a/lib/binary/serializable.h
+++ b/lib/binary/serializable.h
@@ -46,7 +46,7 @@ template <typename Type, BinaryVersion v> inline BinaryVersion BinarySerializabl
 template <typename Type, BinaryVersion v> Type BinarySerializable<Type, v>::fromBinary(std::istream &inputStream)
 {
     Type object;
-    static_cast<BinarySerializable<Type> &>(object).restoreFromBinary(inputStream);
+    static_cast<BinarySerializable<Type, v> &>(object).restoreFromBinary(inputStream);
     return object;
 }
 
-- 
2.43.0


From f9bd3f8e61d03b169bcc6bc31dc71f6a4dd58748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 10/21] fix: Report correct expected type for multimaps, tuples
 and pairs on type mismatch

---
 lib/json/errorhandling.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/lib/json/errorhandling.h b/lib/json/errorhandling.h
index 93b2fa0..f03ba3a 100644
--- a/lib/json/errorhandling.h
+++ b/lib/json/errorhandling.h
@@ -6,6 +6,8 @@
  * \brief Contains helper for error handling when deserializing JSON files.
  */
 
+#include "../traits.h"
+
 #include <c++utilities/misc/traits.h>
 
 #include <rapidjson/rapidjson.h>
@@ -14,6 +16,8 @@
 #include <limits>
 #include <list>
 #include <string>
+#include <tuple>
+#include <utility>
 #include <vector>
 
 namespace ReflectiveRapidJSON {
@@ -43,6 +47,11 @@ enum class JsonType : std::uint8_t {
     Object,
 };
 
+/// \brief Determines whether \tparam Type is represented as JSON array, so all iteratables except strings and (multi)maps and also tuples and pairs.
+template <typename Type>
+using IsMappedToJsonArray = Traits::Any<Traits::IsSpecializingAnyOf<Type, std::tuple, std::pair>,
+    Traits::All<Traits::IsIteratable<Type>, Traits::Not<Traits::Any<Traits::IsString<Type>, IsMapOrHash<Type>, IsMultiMapOrHash<Type>>>>>;
+
 // define helper functions which return the JsonType for the C++ type specified as template parameter
 
 template <typename Type,
@@ -62,20 +71,14 @@ template <typename Type, Traits::EnableIfAny<Traits::IsString<Type>, Traits::IsC
     return JsonType::String;
 }
 
-template <typename Type,
-    Traits::EnableIf<Traits::IsIteratable<Type>,
-        Traits::Not<Traits::Any<Traits::IsString<Type>, Traits::IsSpecializationOf<Type, std::map>,
-            Traits::IsSpecializationOf<Type, std::unordered_map>>>> * = nullptr>
-constexpr JsonType jsonType()
+template <typename Type, Traits::EnableIfAny<IsMappedToJsonArray<Type>> * = nullptr> constexpr JsonType jsonType()
 {
     return JsonType::Array;
 }
 
 template <typename Type,
     Traits::DisableIfAny<std::is_integral<Type>, std::is_floating_point<Type>, Traits::IsString<Type>, Traits::IsCString<Type>,
-        Traits::All<Traits::IsIteratable<Type>,
-            Traits::Not<Traits::Any<Traits::IsString<Type>, Traits::IsSpecializationOf<Type, std::map>,
-                Traits::IsSpecializationOf<Type, std::unordered_map>>>>> * = nullptr>
+        IsMappedToJsonArray<Type>> * = nullptr>
 constexpr JsonType jsonType()
 {
     return JsonType::Object;
-- 
2.43.0


From 12b99a7e9604f84901e5f68f599906772822f8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 11/21] fix: Make toJson() usable with std::string

---
 lib/json/reflector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 3bf52f1..e848add 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -1142,7 +1142,7 @@ template <typename Type,
         Traits::IsString<Type>, IsArray<Type>> * = nullptr>
 RAPIDJSON_NAMESPACE::StringBuffer toJson(const Type &reflectable)
 {
-    auto document(toJsonDocument(reflectable));
+    auto document(toJsonDocument<Type>(reflectable));
     return serializeJsonDocToString(document);
 }
 
-- 
2.43.0


From ee444df08fbac8181bc6885d5fa88333b426500c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 12/21] fix: Accept the same numbers on top-level which are
 also accepted within arrays and objects

---
 lib/json/reflector.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index e848add..bbb0d74 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -1174,14 +1174,9 @@ template <typename Type, Traits::EnableIfAny<std::is_integral<Type>, std::is_flo
 Type fromJson(const char *json, std::size_t jsonSize, JsonDeserializationErrors *errors = nullptr)
 {
     RAPIDJSON_NAMESPACE::Document doc(parseJsonDocFromString(json, jsonSize));
-    if (!doc.Is<Type>()) {
-        if (errors) {
-            errors->reportTypeMismatch<Type>(doc.GetType());
-        }
-        return Type();
-    }
-
-    return doc.Get<Type>();
+    Type res = Type();
+    pull<Type>(res, doc, errors);
+    return res;
 }
 
 /*!
-- 
2.43.0


From f747ba40721e503c9ec3b82729260f63801a8b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 13/21] fix: Return the assumed version when deserializing via
 Boost.Hana or chrono utilities as documented

---
 lib/binary/reflector-boosthana.h       | 2 +-
 lib/binary/reflector-chronoutilities.h | 6 ++----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/binary/reflector-boosthana.h b/lib/binary/reflector-boosthana.h
index ea64add..2cfabb3 100644
--- a/lib/binary/reflector-boosthana.h
+++ b/lib/binary/reflector-boosthana.h
@@ -28,7 +28,7 @@ template <typename Type, Traits::EnableIf<IsCustomType<Type>> *>
 BinaryVersion readCustomType(BinaryDeserializer &deserializer, Type &customType, BinaryVersion version)
 {
     boost::hana::for_each(boost::hana::keys(customType), [&](auto key) { deserializer.read(boost::hana::at_key(customType, key), version); });
-    return 0;
+    return version;
 }
 
 template <typename Type, Traits::EnableIf<IsCustomType<Type>> *>
diff --git a/lib/binary/reflector-chronoutilities.h b/lib/binary/reflector-chronoutilities.h
index e600ebf..09eae35 100644
--- a/lib/binary/reflector-chronoutilities.h
+++ b/lib/binary/reflector-chronoutilities.h
@@ -19,9 +19,8 @@ namespace BinaryReflector {
 template <>
 inline BinaryVersion readCustomType<CppUtilities::DateTime>(BinaryDeserializer &deserializer, CppUtilities::DateTime &dateTime, BinaryVersion version)
 {
-    CPP_UTILITIES_UNUSED(version)
     deserializer.read(dateTime.ticks());
-    return 0;
+    return version;
 }
 
 template <>
@@ -34,9 +33,8 @@ inline void writeCustomType<CppUtilities::DateTime>(BinarySerializer &serializer
 template <>
 inline BinaryVersion readCustomType<CppUtilities::TimeSpan>(BinaryDeserializer &deserializer, CppUtilities::TimeSpan &timeSpan, BinaryVersion version)
 {
-    CPP_UTILITIES_UNUSED(version)
     deserializer.read(timeSpan.ticks());
-    return 0;
+    return version;
 }
 
 template <>
-- 
2.43.0


From d914c527b3c81cf6d3ce26d66c93790cc80241ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 14/21] fix: Use the application path of the current code
 factory instead of the one of the first factory

---
 generator/codefactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/codefactory.cpp b/generator/codefactory.cpp
index 46f7bf9..6a7c82f 100644
--- a/generator/codefactory.cpp
+++ b/generator/codefactory.cpp
@@ -52,7 +52,7 @@ CodeFactory::~CodeFactory()
  */
 std::vector<string> CodeFactory::makeClangArgs() const
 {
-    static const initializer_list<std::string_view> flags
+    const initializer_list<std::string_view> flags
         = { m_applicationPath, "-x", "c++", "-Wno-pragma-once-outside-header", "-std=c++14", "-fsyntax-only", "-D" PROJECT_VARNAME_UPPER };
     vector<string> clangArgs;
     clangArgs.reserve(flags.size() + m_clangOptions.size() + m_sourceFiles.size());
-- 
2.43.0


From 27f5cf159dbaf418c5bb33f1ef34185610528e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 15/21] fix: Avoid accessing the output file after its lifetime
 ended when handling IO errors

---
 generator/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generator/main.cpp b/generator/main.cpp
index e3aa4b3..861b8b5 100644
--- a/generator/main.cpp
+++ b/generator/main.cpp
@@ -57,9 +57,10 @@ int main(int argc, char *argv[])
     }
 
     // setup output stream
+    // note: The file is declared outside of the try-block because it is still accessed when handling exceptions.
+    ofstream outputFile;
     ostream *os = nullptr;
     try {
-        ofstream outputFile;
         if (outputFileArg.isPresent()) {
             outputFile.exceptions(ios_base::badbit | ios_base::failbit);
             outputFile.open(outputFileArg.values(0).front(), ios_base::out | ios_base::trunc | ios_base::binary);
-- 
2.43.0


From 703463340ea5b10d7654d1bd91cbdbfd1390427e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 16/21] fix: Report IO errors occurring when flushing the
 generated code

---
 generator/main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/generator/main.cpp b/generator/main.cpp
index 861b8b5..5b0b355 100644
--- a/generator/main.cpp
+++ b/generator/main.cpp
@@ -128,6 +128,12 @@ int main(int argc, char *argv[])
             return -2;
         }
 
+        // ensure everything has actually been written
+        os->flush();
+        if (!*os) {
+            throw ios_base::failure("unable to flush output stream");
+        }
+
     } catch (const std::ios_base::failure &failure) {
         const char *errorMessage = failure.what();
         if (os) {
-- 
2.43.0


From a495f1c561dcaedba6055eb008e3b74e492c73d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 17/21] fix: Avoid (de)serializing members of indirect base
 classes multiple times

---
 generator/serializationcodegenerator.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/generator/serializationcodegenerator.cpp b/generator/serializationcodegenerator.cpp
index ae3a774..beca34f 100644
--- a/generator/serializationcodegenerator.cpp
+++ b/generator/serializationcodegenerator.cpp
@@ -126,7 +126,18 @@ std::vector<const SerializationCodeGenerator::RelevantClass *> SerializationCode
 {
     vector<const RelevantClass *> relevantBaseClasses;
     for (const RelevantClass &otherClass : relevantBases) {
-        if (relevantClass.record != otherClass.record && relevantClass.record->isDerivedFrom(otherClass.record)) {
+        if (relevantClass.record == otherClass.record || !relevantClass.record->isDerivedFrom(otherClass.record)) {
+            continue;
+        }
+        // skip indirect bases which are already covered by another relevant base to avoid (de)serializing their members twice
+        bool coveredByAnotherBase = false;
+        for (const RelevantClass &intermediateClass : relevantBases) {
+            if (relevantClass.record->isDerivedFrom(intermediateClass.record) && intermediateClass.record->isDerivedFrom(otherClass.record)) {
+                coveredByAnotherBase = true;
+                break;
+            }
+        }
+        if (!coveredByAnotherBase) {
             relevantBaseClasses.push_back(&otherClass);
         }
     }
-- 
2.43.0


From 8b995c203bdaac72c8f1315882fa1c434a65f4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 18/21] fix: Serialize strings on top-level with their full
 length

---
 lib/json/reflector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index bbb0d74..ee5035f 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -1098,7 +1098,7 @@ template <typename Type, Traits::EnableIf<std::is_same<Type, std::string>> * = n
 RAPIDJSON_NAMESPACE::Document toJsonDocument(const std::string &reflectable)
 {
     RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kStringType);
-    document.SetString(RAPIDJSON_NAMESPACE::StringRef(reflectable.data(), reflectable.size()), document.GetAllocator());
+    push(reflectable, document, document.GetAllocator());
     return document;
 }
 
@@ -1120,7 +1120,7 @@ template <typename Type, Traits::EnableIf<std::is_same<Type, std::string_view>>
 RAPIDJSON_NAMESPACE::Document toJsonDocument(std::string_view reflectable)
 {
     RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kStringType);
-    document.SetString(RAPIDJSON_NAMESPACE::StringRef(reflectable.data(), reflectable.size()), document.GetAllocator());
+    push(reflectable, document, document.GetAllocator());
     return document;
 }
 
-- 
2.43.0


From a28e2588654fede0b0a7bc797ab2f964c44e5471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:55 +0000
Subject: [PATCH 19/21] fix: Serialize absent C-strings on top-level as null
 instead of dereferencing them

---
 lib/json/reflector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index ee5035f..4ec7164 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -1109,7 +1109,7 @@ template <typename Type, Traits::EnableIf<std::is_same<Type, const char *>> * =
 RAPIDJSON_NAMESPACE::Document toJsonDocument(const char *reflectable)
 {
     RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kStringType);
-    document.SetString(RAPIDJSON_NAMESPACE::StringRef(reflectable), document.GetAllocator());
+    push(reflectable, document, document.GetAllocator());
     return document;
 }
 
-- 
2.43.0


From e0216287bafefd95020bfa46f97abb1854319a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:21 +0000
Subject: [PATCH 20/21] fix: do not ignore everything after a null character
 when deserializing DateTime and TimeSpan

---
 lib/json/reflector-chronoutilities.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/json/reflector-chronoutilities.h b/lib/json/reflector-chronoutilities.h
index 451d0f2..fcb5418 100644
--- a/lib/json/reflector-chronoutilities.h
+++ b/lib/json/reflector-chronoutilities.h
@@ -46,6 +46,13 @@ inline void pull<CppUtilities::DateTime>(CppUtilities::DateTime &reflectable,
     if (!value.IsString()) {
         return; // type mismatch has already been reported
     }
+    if (str.find('\0') != std::string::npos) {
+        // treat everything after a null character as invalid as well (and not as end of the string)
+        if (errors) {
+            errors->reportConversionError(JsonType::String);
+        }
+        return;
+    }
     try {
         reflectable = CppUtilities::DateTime::fromIsoStringGmt(str.data());
     } catch (const CppUtilities::ConversionException &) {
@@ -64,6 +71,13 @@ inline void pull<CppUtilities::TimeSpan>(CppUtilities::TimeSpan &reflectable,
     if (!value.IsString()) {
         return; // type mismatch has already been reported
     }
+    if (str.find('\0') != std::string::npos) {
+        // treat everything after a null character as invalid as well (and not as end of the string)
+        if (errors) {
+            errors->reportConversionError(JsonType::String);
+        }
+        return;
+    }
     try {
         reflectable = CppUtilities::TimeSpan::fromString(str.data());
     } catch (const CppUtilities::ConversionException &) {
-- 
2.43.0


From 1b4851f246318e68adadad1b86616884c3e22ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:30 +0000
Subject: [PATCH 21/21] fix: make push() of JsonSerializable usable instead of
 never compiling

---
 lib/json/serializable.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/json/serializable.h b/lib/json/serializable.h
index 079ab00..7321fa1 100644
--- a/lib/json/serializable.h
+++ b/lib/json/serializable.h
@@ -20,8 +20,8 @@ namespace ReflectiveRapidJSON {
  */
 template <typename Type> struct JsonSerializable {
     // RapidJSON-level API
-    void push(RAPIDJSON_NAMESPACE::Value &container);
-    void push(RAPIDJSON_NAMESPACE::Value &container, const char *name);
+    void push(RAPIDJSON_NAMESPACE::Value &container, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator) const;
+    void push(RAPIDJSON_NAMESPACE::Value &container, const char *name, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator) const;
 
     // high-level API
     RAPIDJSON_NAMESPACE::StringBuffer toJson() const;
@@ -40,17 +40,22 @@ template <typename Type> struct JsonSerializable {
 /*!
  * \brief Pushes the object to the specified RapidJSON array.
  */
-template <typename Type> void JsonSerializable<Type>::push(RAPIDJSON_NAMESPACE::Value &container)
+template <typename Type>
+void JsonSerializable<Type>::push(RAPIDJSON_NAMESPACE::Value &container, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator) const
 {
-    return JsonReflector::push<Type>(*this, container);
+    auto array = container.GetArray();
+    JsonReflector::push<Type>(static_cast<const Type &>(*this), array, allocator);
 }
 
 /*!
  * \brief Pushes the object to the specified RapidJSON object as a member with the specified \a name.
  */
-template <typename Type> void JsonSerializable<Type>::push(RAPIDJSON_NAMESPACE::Value &container, const char *name)
+template <typename Type>
+void JsonSerializable<Type>::push(
+    RAPIDJSON_NAMESPACE::Value &container, const char *name, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator) const
 {
-    return JsonReflector::push<Type>(*this, name, container);
+    auto object = container.GetObject();
+    JsonReflector::push<Type>(static_cast<const Type &>(*this), name, object, allocator);
 }
 
 /*!
-- 
2.43.0

