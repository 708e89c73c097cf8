// Instantiates the library for a catalogue of types. Only parsed (never run): the checks analyse the resulting template instantiations.
// headers sources including the library usually include on their own
#include <algorithm>
#include <array>
#include <cstring>
#include <functional>
#include <iostream>
#include <iterator>
#include <numeric>
#include <sstream>

#include <reflective_rapidjson/json/reflector-boosthana.h>
#include <reflective_rapidjson/json/reflector-chronoutilities.h>
#include <reflective_rapidjson/json/serializable.h>
#include <reflective_rapidjson/json/errorformatting.h>
#include <reflective_rapidjson/binary/reflector-boosthana.h>
#include <reflective_rapidjson/binary/reflector-chronoutilities.h>
#include <reflective_rapidjson/binary/serializable.h>

#include <deque>
#include <forward_list>
#include <list>
#include <string_view>
#include <vector>

using namespace std;
using namespace ReflectiveRapidJSON;

namespace rrjv {

enum class EU8 : std::uint8_t { a, b };
enum class ES8 : std::int8_t { a, b };
enum class EU16 : std::uint16_t { a, b };
enum class ES32 : int { a, b };
enum class EU32 : std::uint32_t { a, b };
enum class ES64 : std::int64_t { a, b };
enum class EU64 : std::uint64_t { a, b };
enum EPlain { e1, e2 };

struct Leaf : public JsonSerializable<Leaf>, public BinarySerializable<Leaf> {
    BOOST_HANA_DEFINE_STRUCT(Leaf, (int, leafNumber), (std::string, leafText), (std::vector<int>, leafList));
};
struct Outer : public JsonSerializable<Outer>, public BinarySerializable<Outer, 3> {
    BOOST_HANA_DEFINE_STRUCT(Outer, (Leaf, leaf), (double, real), (bool, flag), (std::shared_ptr<Leaf>, shared));
};
// custom containers treated as the ones of the standard library
struct LikeMap : public std::map<std::string, int> {};
struct LikeMultiMap : public std::unordered_multimap<std::string, std::string> {};
struct LikeSet : public std::set<int> {};
struct LikeMultiSet : public std::multiset<std::string> {};
// a custom type which is only declared to be serializable; the specializations would be in generated code
struct Opaque : public JsonSerializable<Opaque>, public BinarySerializable<Opaque> {
    int x = 0;
};
// a 3rd party type adapted via macro
struct Adapted {
    BOOST_HANA_DEFINE_STRUCT(Adapted, (int, value));
};
struct Unversioned {
    int x = 0;
};
} // namespace rrjv

REFLECTIVE_RAPIDJSON_MAKE_JSON_SERIALIZABLE(rrjv::Adapted);
REFLECTIVE_RAPIDJSON_MAKE_BINARY_SERIALIZABLE(rrjv::Adapted);

namespace ReflectiveRapidJSON {
REFLECTIVE_RAPIDJSON_TREAT_AS_MAP_OR_HASH(rrjv::LikeMap);
REFLECTIVE_RAPIDJSON_TREAT_AS_MULTI_MAP_OR_HASH(rrjv::LikeMultiMap);
REFLECTIVE_RAPIDJSON_TREAT_AS_SET(rrjv::LikeSet);
REFLECTIVE_RAPIDJSON_TREAT_AS_MULTI_SET(rrjv::LikeMultiSet);
namespace JsonReflector {
template <>
void push<rrjv::Opaque>(
    const rrjv::Opaque &reflectable, RAPIDJSON_NAMESPACE::Value::Object &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator);
template <>
void pull<rrjv::Opaque>(rrjv::Opaque &reflectable, const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>>::ConstObject &value,
    JsonDeserializationErrors *errors);
} // namespace JsonReflector
namespace BinaryReflector {
template <> BinaryVersion readCustomType<rrjv::Opaque>(BinaryDeserializer &deserializer, rrjv::Opaque &customType, BinaryVersion version);
template <> void writeCustomType<rrjv::Opaque>(BinarySerializer &serializer, const rrjv::Opaque &customType, BinaryVersion version);
} // namespace BinaryReflector
} // namespace ReflectiveRapidJSON

namespace rrjv {

using V = RAPIDJSON_NAMESPACE::Value;
using A = RAPIDJSON_NAMESPACE::Document::AllocatorType;
using CV = RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>>;

// both directions via JSON
template <typename T> void json(T &target, const CV &in, JsonDeserializationErrors *errors, V &out, A &alloc)
{
    JsonReflector::pull(target, in, errors);
    JsonReflector::push<T>(target, out, alloc);
    V::Array arr(out.GetArray());
    JsonReflector::push<T>(target, arr, alloc);
    V::Object obj(out.GetObject());
    JsonReflector::push<T>(target, "member", obj, alloc);
    JsonReflector::pull<T>(target, "member", in.GetObject(), errors);
}
template <typename T> void jsonPull(T &target, const CV &in, JsonDeserializationErrors *errors)
{
    JsonReflector::pull(target, in, errors);
}
template <typename T> void jsonPush(const T &source, V &out, A &alloc)
{
    JsonReflector::push(source, out, alloc);
}
template <typename T> void top(const T &source, JsonDeserializationErrors *errors)
{
    JsonReflector::toJson<T>(source);
    JsonReflector::fromJson<T>("{}", 2, errors);
    JsonReflector::fromJson<T>("{}", errors);
    JsonReflector::fromJson<T>(std::string("{}"), errors);
}
template <typename T> auto serializablePush(const T &source, V &array, V &object, A &alloc, int) -> decltype(source.push(array, alloc), source.push(object, "x", alloc))
{
    source.push(array, alloc);
    source.push(object, "x", alloc);
}
template <typename T> void serializablePush(const T &, V &, V &, A &, long)
{
}
template <typename T> void serializable(const T &source, JsonDeserializationErrors *errors)
{
    V v;
    A alloc;
    serializablePush(source, v, v, alloc, 0);
    source.toJson();
    source.toJsonDocument();
    T::fromJson("{}", 2, errors);
    T::fromJson("{}", errors);
    T::fromJson(std::string("{}"), errors);
}
template <typename T> void bin(T &x, BinaryReflector::BinarySerializer &w, BinaryReflector::BinaryDeserializer &r)
{
    w.write(x);
    r.read(x);
}
template <typename T> void binv(T &x, BinaryReflector::BinarySerializer &w, BinaryReflector::BinaryDeserializer &r, BinaryVersion v)
{
    w.write(x, v);
    r.read(x, v);
}
template <typename T> void binser(T &x, std::istream &is, std::ostream &os)
{
    x.toBinary(os, 0);
    x.restoreFromBinary(is);
    T::fromBinary(is);
}

void useJson(const CV &in, JsonDeserializationErrors *errors, V &out, A &alloc)
{
#define RRJV_JSON(...)                                                                                                                               \
    {                                                                                                                                                \
        auto *x = static_cast<__VA_ARGS__ *>(nullptr);                                                                                               \
        json<__VA_ARGS__>(*x, in, errors, out, alloc);                                                                                               \
    }
    RRJV_JSON(std::int8_t)
    RRJV_JSON(std::uint8_t)
    RRJV_JSON(std::int32_t)
    RRJV_JSON(std::uint32_t)
    RRJV_JSON(std::int64_t)
    RRJV_JSON(std::uint64_t)
    RRJV_JSON(float)
    RRJV_JSON(double)
    RRJV_JSON(bool)
    RRJV_JSON(EU8)
    RRJV_JSON(ES8)
    RRJV_JSON(EU16)
    RRJV_JSON(ES32)
    RRJV_JSON(EU32)
    RRJV_JSON(ES64)
    RRJV_JSON(EU64)
    RRJV_JSON(EPlain)
    RRJV_JSON(std::string)
    RRJV_JSON(std::string_view)
    RRJV_JSON(const char *)
    RRJV_JSON(std::vector<int>)
    RRJV_JSON(std::vector<std::string>)
    RRJV_JSON(std::vector<std::vector<int>>)
    RRJV_JSON(std::vector<Leaf>)
    RRJV_JSON(std::list<std::string>)
    RRJV_JSON(std::deque<double>)
    jsonPush(*static_cast<std::forward_list<int> *>(nullptr), out, alloc);
    jsonPush(*static_cast<std::forward_list<std::string> *>(nullptr), out, alloc);
    RRJV_JSON(std::set<int>)
    RRJV_JSON(std::unordered_set<std::string>)
    RRJV_JSON(std::multiset<int>)
    RRJV_JSON(std::unordered_multiset<std::string>)
    RRJV_JSON(std::map<std::string, int>)
    RRJV_JSON(std::map<std::string, std::vector<int>>)
    RRJV_JSON(std::map<std::string, Leaf>)
    RRJV_JSON(std::unordered_map<std::string, bool>)
    RRJV_JSON(std::multimap<std::string, int>)
    RRJV_JSON(std::multimap<std::string, Leaf>)
    RRJV_JSON(std::unordered_multimap<std::string, std::string>)
    RRJV_JSON(std::tuple<int>)
    RRJV_JSON(std::tuple<int, std::string, double>)
    RRJV_JSON(std::pair<int, std::string>)
    RRJV_JSON(std::pair<std::string, std::vector<int>>)
    RRJV_JSON(std::unique_ptr<int>)
    RRJV_JSON(std::unique_ptr<std::string>)
    RRJV_JSON(std::unique_ptr<Leaf>)
    RRJV_JSON(std::shared_ptr<std::vector<int>>)
    RRJV_JSON(std::shared_ptr<Leaf>)
    RRJV_JSON(std::optional<int>)
    RRJV_JSON(std::optional<bool>)
    RRJV_JSON(std::optional<std::map<std::string, int>>)
    RRJV_JSON(std::variant<int, std::string>)
    RRJV_JSON(std::variant<std::monostate, std::string, double, Leaf>)
    RRJV_JSON(CppUtilities::DateTime)
    RRJV_JSON(CppUtilities::TimeSpan)
    RRJV_JSON(Leaf)
    RRJV_JSON(Outer)
    RRJV_JSON(Adapted)
    RRJV_JSON(Opaque)
    RRJV_JSON(LikeMap)
    RRJV_JSON(LikeMultiMap)
    RRJV_JSON(LikeSet)
    RRJV_JSON(LikeMultiSet)
    RRJV_JSON(std::vector<std::optional<int>>)
    RRJV_JSON(std::vector<std::shared_ptr<Leaf>>)
    RRJV_JSON(std::vector<std::variant<int, std::string>>)
    RRJV_JSON(std::vector<std::map<std::string, std::string>>)
    RRJV_JSON(std::vector<EU16>)
    RRJV_JSON(std::vector<std::uint8_t>)
    RRJV_JSON(std::list<Outer>)
    RRJV_JSON(std::map<std::string, std::map<std::string, double>>)
    RRJV_JSON(std::multimap<std::string, std::vector<int>>)
    RRJV_JSON(std::set<std::string>)
    RRJV_JSON(std::set<std::vector<int>>)
    RRJV_JSON(std::multiset<double>)
    RRJV_JSON(std::tuple<Leaf, std::vector<int>, std::optional<bool>, EU8>)
    RRJV_JSON(std::pair<Leaf, std::map<std::string, int>>)
    RRJV_JSON(std::optional<std::string>)
    RRJV_JSON(std::optional<std::unique_ptr<int>>)
    RRJV_JSON(std::shared_ptr<CppUtilities::DateTime>)
    RRJV_JSON(std::variant<std::vector<int>, std::map<std::string, Leaf>, std::optional<int>>)
    RRJV_JSON(std::variant<bool>)

#define RRJV_TOP(...)                                                                                                                                \
    {                                                                                                                                                \
        auto *x = static_cast<__VA_ARGS__ *>(nullptr);                                                                                               \
        top<__VA_ARGS__>(*x, errors);                                                                                                                \
    }
    RRJV_TOP(int)
    RRJV_TOP(std::uint64_t)
    RRJV_TOP(float)
    RRJV_TOP(double)
    RRJV_TOP(bool)
    RRJV_TOP(std::string)
    RRJV_TOP(std::vector<int>)
    RRJV_TOP(std::list<std::string>)
    RRJV_TOP(std::map<std::string, int>)
    RRJV_TOP(std::multimap<std::string, int>)
    RRJV_TOP(Leaf)
    RRJV_TOP(Adapted)
    JsonReflector::toJsonDocument<const char *>("x");
    JsonReflector::toJsonDocument<std::string_view>(std::string_view("x"));
    serializable(*static_cast<Leaf *>(nullptr), errors);
    serializable(*static_cast<Outer *>(nullptr), errors);
    as(*static_cast<Leaf *>(nullptr)).toJson();
    V::ValueIterator it = out.GetArray().Begin();
    JsonReflector::pull(*static_cast<int *>(nullptr), it, errors);
    JsonReflector::pull(*static_cast<std::string *>(nullptr), it, errors);
    errors->reportTypeMismatch<RAPIDJSON_NAMESPACE::kNumberType>(in.GetType());
}

std::string useFormatting(const JsonDeserializationError &error)
{
    return formatJsonDeserializationError(error);
}

void useBinary(std::istream &is, std::ostream &os, BinaryReflector::BinarySerializer &w, BinaryReflector::BinaryDeserializer &r, BinaryVersion v)
{
#define RRJV_BIN(...)                                                                                                                                \
    {                                                                                                                                                \
        auto *x = static_cast<__VA_ARGS__ *>(nullptr);                                                                                               \
        bin<__VA_ARGS__>(*x, w, r);                                                                                                                  \
        binv<__VA_ARGS__>(*x, w, r, v);                                                                                                              \
    }
    RRJV_BIN(char)
    RRJV_BIN(std::uint8_t)
    RRJV_BIN(bool)
    RRJV_BIN(std::int16_t)
    RRJV_BIN(std::uint16_t)
    RRJV_BIN(std::int32_t)
    RRJV_BIN(std::uint32_t)
    RRJV_BIN(std::int64_t)
    RRJV_BIN(std::uint64_t)
    RRJV_BIN(float)
    RRJV_BIN(double)
    RRJV_BIN(std::string)
    RRJV_BIN(EU8)
    RRJV_BIN(EU16)
    RRJV_BIN(ES32)
    RRJV_BIN(EU32)
    RRJV_BIN(ES64)
    RRJV_BIN(EU64)
    RRJV_BIN(EPlain)
    RRJV_BIN(std::vector<int>)
    RRJV_BIN(std::vector<std::string>)
    RRJV_BIN(std::vector<std::vector<std::uint16_t>>)
    RRJV_BIN(std::vector<Leaf>)
    RRJV_BIN(std::list<std::string>)
    RRJV_BIN(std::deque<double>)
    RRJV_BIN(std::set<int>)
    RRJV_BIN(std::unordered_set<std::string>)
    RRJV_BIN(std::multiset<int>)
    RRJV_BIN(std::unordered_multiset<std::string>)
    RRJV_BIN(std::map<std::string, int>)
    RRJV_BIN(std::map<int, Leaf>)
    RRJV_BIN(std::unordered_map<std::string, bool>)
    RRJV_BIN(std::multimap<std::string, int>)
    RRJV_BIN(std::unordered_multimap<std::string, std::string>)
    RRJV_BIN(std::pair<int, std::string>)
    RRJV_BIN(std::unique_ptr<int>)
    RRJV_BIN(std::unique_ptr<Leaf>)
    RRJV_BIN(std::shared_ptr<int>)
    RRJV_BIN(std::shared_ptr<std::string>)
    RRJV_BIN(std::shared_ptr<Leaf>)
    RRJV_BIN(std::optional<int>)
    RRJV_BIN(std::optional<bool>)
    RRJV_BIN(std::optional<std::vector<int>>)
    RRJV_BIN(std::variant<int, std::string>)
    RRJV_BIN(std::variant<std::monostate, std::string, double, Leaf>)
    RRJV_BIN(CppUtilities::DateTime)
    RRJV_BIN(CppUtilities::TimeSpan)
    RRJV_BIN(Leaf)
    RRJV_BIN(Outer)
    RRJV_BIN(Adapted)
    RRJV_BIN(Opaque)
    RRJV_BIN(LikeMap)
    RRJV_BIN(LikeMultiMap)
    RRJV_BIN(LikeSet)
    RRJV_BIN(LikeMultiSet)
    RRJV_BIN(std::vector<std::optional<int>>)
    RRJV_BIN(std::vector<std::shared_ptr<Leaf>>)
    RRJV_BIN(std::vector<std::variant<int, std::string>>)
    RRJV_BIN(std::vector<EU16>)
    RRJV_BIN(std::vector<std::uint8_t>)
    RRJV_BIN(std::map<std::string, std::unique_ptr<Leaf>>)
    RRJV_BIN(std::map<std::uint64_t, std::map<std::string, double>>)
    RRJV_BIN(std::map<EU8, std::shared_ptr<int>>)
    RRJV_BIN(std::multimap<std::string, std::vector<int>>)
    RRJV_BIN(std::unordered_map<int, Outer>)
    RRJV_BIN(std::set<std::string>)
    RRJV_BIN(std::set<std::vector<int>>)
    RRJV_BIN(std::multiset<double>)
    RRJV_BIN(std::pair<Leaf, std::map<std::string, int>>)
    RRJV_BIN(std::optional<std::string>)
    RRJV_BIN(std::optional<std::unique_ptr<int>>)
    RRJV_BIN(std::unique_ptr<std::variant<int, double>>)
    RRJV_BIN(std::unique_ptr<std::shared_ptr<Leaf>>)
    RRJV_BIN(std::shared_ptr<CppUtilities::DateTime>)
    RRJV_BIN(std::shared_ptr<std::vector<std::shared_ptr<int>>>)
    RRJV_BIN(std::variant<std::vector<int>, std::map<std::string, Leaf>, std::optional<int>>)
    RRJV_BIN(std::variant<bool>)
    binser(*static_cast<Leaf *>(nullptr), is, os);
    binser(*static_cast<Outer *>(nullptr), is, os);
    binser(*static_cast<Opaque *>(nullptr), is, os);
}

// invocations without specifying the version/record
void defaultVersion(Outer &x, Opaque &y, std::ostream &os, BinaryReflector::BinarySerializer &w, BinaryReflector::BinaryDeserializer &r)
{
    x.toBinary(os);
    y.toBinary(os);
    w.write(x);
    w.write(y);
    r.read(x);
    r.read(y);
    BinaryReflector::writeCustomType(w, x);
    BinaryReflector::readCustomType(r, x);
}
void defaultRecord(BinaryVersion v)
{
    Versioning<BinarySerializable<Outer, 3>>::assertVersion(v);
}

void useVersioning(BinaryVersion &v)
{
    using V3 = Versioning<BinarySerializable<Outer, 3>>;
    V3::applyDefault(v);
    V3::applyDefaultValue(v);
    V3::isSupported(v);
    V3::assertVersion(v, "record");
}

} // namespace rrjv
