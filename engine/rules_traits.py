"""Classification of types: a translation unit stating the expected classification of each type via static assertions is type-checked against the sources."""
import os
import re
import subprocess
import tempfile

from ir import REPO, AnalysisBroken, lib_args

CXX = next((x for x in ("/usr/bin/clang++-18", "/usr/bin/clang++") if os.path.exists(x)), "clang++")

PRELUDE = r"""
#include <algorithm>
#include <array>
#include <cstring>
#include <functional>
#include <iostream>
#include <iterator>
#include <numeric>
#include <sstream>
#include <reflective_rapidjson/json/reflector-boosthana.h>
#include <reflective_rapidjson/json/reflector-chronoutilities.h>
#include <reflective_rapidjson/json/serializable.h>
#include <reflective_rapidjson/binary/reflector-boosthana.h>
#include <reflective_rapidjson/binary/reflector-chronoutilities.h>
#include <reflective_rapidjson/binary/serializable.h>
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <string_view>
#include <vector>

namespace rrjv {
enum class Scoped : unsigned char { a };
enum Plain { b };
struct Custom { int x; };
struct Serial : public ReflectiveRapidJSON::JsonSerializable<Serial>, public ReflectiveRapidJSON::BinarySerializable<Serial> {};
struct Versioned : public ReflectiveRapidJSON::BinarySerializable<Versioned, 7> {};
struct VersionedJson : public ReflectiveRapidJSON::JsonSerializable<VersionedJson>, public ReflectiveRapidJSON::BinarySerializable<VersionedJson, 2> {};
struct Derived : public Versioned {};
struct First : public ReflectiveRapidJSON::BinarySerializable<First, 1> {};
struct Huge : public ReflectiveRapidJSON::BinarySerializable<Huge, 0xFFFFFFFFFFFFFFFFu> {};
struct Wide : public ReflectiveRapidJSON::BinarySerializable<Wide, 0x100000000u> {};
struct Adapted { int x; };
struct LikeMap : public std::map<std::string, int> {};
struct LikeMultiMap : public std::multimap<std::string, int> {};
struct LikeSet : public std::set<int> {};
struct LikeMultiSet : public std::multiset<int> {};
struct LikeVector : public std::vector<int> {};
struct NotTreated : public std::map<std::string, int> {};
} // namespace rrjv

REFLECTIVE_RAPIDJSON_MAKE_JSON_SERIALIZABLE(rrjv::Adapted);
REFLECTIVE_RAPIDJSON_MAKE_BINARY_SERIALIZABLE(rrjv::Adapted);
namespace ReflectiveRapidJSON {
REFLECTIVE_RAPIDJSON_TREAT_AS_MAP_OR_HASH(rrjv::LikeMap);
REFLECTIVE_RAPIDJSON_TREAT_AS_MULTI_MAP_OR_HASH(rrjv::LikeMultiMap);
REFLECTIVE_RAPIDJSON_TREAT_AS_SET(rrjv::LikeSet);
REFLECTIVE_RAPIDJSON_TREAT_AS_MULTI_SET(rrjv::LikeMultiSet);
} // namespace ReflectiveRapidJSON

namespace rrjv {
using namespace ReflectiveRapidJSON;
using V = RAPIDJSON_NAMESPACE::Value;
using Al = RAPIDJSON_NAMESPACE::Document::AllocatorType;
using CV = RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>>;
#define RRJV_DETECT(name, ...) \
    template <typename T, typename = void> struct name : std::false_type {}; \
    template <typename T> struct name<T, std::void_t<decltype(__VA_ARGS__)>> : std::true_type {};
RRJV_DETECT(CanPush, JsonReflector::push(std::declval<const T &>(), std::declval<V &>(), std::declval<Al &>()))
RRJV_DETECT(CanPull, JsonReflector::pull(std::declval<T &>(), std::declval<const CV &>(), std::declval<JsonDeserializationErrors *>()))
RRJV_DETECT(CanToJson, JsonReflector::toJson(std::declval<const T &>()))
RRJV_DETECT(CanToDocument, JsonReflector::toJsonDocument(std::declval<const T &>()))
RRJV_DETECT(CanFromJson, JsonReflector::fromJson<T>(std::declval<const char *>(), std::size_t(), std::declval<JsonDeserializationErrors *>()))
RRJV_DETECT(CanWrite, std::declval<BinaryReflector::BinarySerializer &>().write(std::declval<const T &>()))
RRJV_DETECT(CanRead, std::declval<BinaryReflector::BinaryDeserializer &>().read(std::declval<T &>()))
} // namespace rrjv
using namespace rrjv;
"""

# type -> category
ARRAY, SET, MULTISET, MAP, MULTIMAP, TUPLE, STRING, VIEW, CSTRING, NUMBER, BOOL, ENUM, POINTER, VARIANT, RECORD, OTHER, RAW = range(17)
TYPES = [
    ("std::vector<int>", ARRAY), ("std::vector<bool>", ARRAY), ("std::list<std::string>", ARRAY), ("std::deque<double>", ARRAY), ("std::vector<std::set<int>>", ARRAY),
    ("std::vector<std::map<std::string, int>>", ARRAY), ("std::list<rrjv::Serial>", ARRAY), ("rrjv::LikeVector", ARRAY), ("std::vector<std::string>", ARRAY),
    ("std::set<int>", SET), ("std::unordered_set<std::string>", SET), ("std::set<std::string>", SET), ("rrjv::LikeSet", SET),
    ("std::multiset<int>", MULTISET), ("std::unordered_multiset<std::string>", MULTISET), ("rrjv::LikeMultiSet", MULTISET),
    ("std::map<std::string, int>", MAP), ("std::unordered_map<std::string, rrjv::Serial>", MAP), ("std::map<std::string, std::vector<int>>", MAP), ("rrjv::LikeMap", MAP),
    ("std::multimap<std::string, int>", MULTIMAP), ("std::unordered_multimap<std::string, bool>", MULTIMAP), ("rrjv::LikeMultiMap", MULTIMAP),
    ("std::tuple<int, bool>", TUPLE), ("std::pair<int, std::string>", TUPLE), ("std::tuple<std::string>", TUPLE),
    ("std::string", STRING), ("std::string_view", VIEW), ("const char *", CSTRING),
    ("int", NUMBER), ("unsigned int", NUMBER), ("short", NUMBER), ("unsigned short", NUMBER), ("std::int64_t", NUMBER), ("std::uint64_t", NUMBER), ("char", NUMBER),
    ("std::int8_t", NUMBER), ("std::uint8_t", NUMBER), ("float", NUMBER), ("double", NUMBER), ("bool", BOOL),
    ("rrjv::Scoped", ENUM), ("rrjv::Plain", ENUM),
    ("std::unique_ptr<int>", POINTER), ("std::shared_ptr<std::string>", POINTER), ("std::optional<rrjv::Serial>", POINTER), ("std::unique_ptr<rrjv::Serial>", POINTER),
    ("std::variant<int, std::string>", VARIANT), ("std::variant<std::monostate, rrjv::Serial>", VARIANT),
    ("rrjv::Serial", RECORD), ("rrjv::Adapted", RECORD), ("rrjv::VersionedJson", RECORD), ("rrjv::Custom", OTHER),
    ("int *", RAW), ("rrjv::Serial *", RAW), ("const std::string *", RAW),
]
# categories of types for which the trait holds
TRAITS = {
    "IsMapOrHash": (MAP,), "IsMultiMapOrHash": (MULTIMAP,), "IsSet": (SET,), "IsMultiSet": (MULTISET,), "IsArrayOrSet": (ARRAY, SET, MULTISET), "IsArray": (ARRAY, ),
    "IsIteratableExceptString": (ARRAY, SET, MULTISET, MAP, MULTIMAP), "IsVariant": (VARIANT,), "IsMappedToJsonArray": (ARRAY, SET, MULTISET, TUPLE),
    "JsonReflector::IsBuiltInType": tuple(c for c in range(17) if c not in (RECORD, OTHER)), "JsonReflector::IsCustomType": (RECORD, OTHER),
    "JsonReflector::IsJsonSerializable": (RECORD,),
    "BinaryReflector::IsCustomType": (RECORD, OTHER), "BinaryReflector::IsBuiltInType": tuple(c for c in range(17) if c not in (RECORD, OTHER)),
}
# string views only occur when serializing; raw pointers and tuples are not covered by the traits for binary data
EXEMPT = {("IsArray", VIEW), ("IsIteratableExceptString", VIEW), ("BinaryReflector::IsBuiltInType", TUPLE), ("BinaryReflector::IsCustomType", TUPLE),
          ("BinaryReflector::IsBuiltInType", CSTRING), ("BinaryReflector::IsCustomType", CSTRING), ("BinaryReflector::IsBuiltInType", RAW),
          ("BinaryReflector::IsCustomType", RAW)}
JSONTYPE = {ARRAY: "Array", SET: "Array", MULTISET: "Array", TUPLE: "Array", MAP: "Object", MULTIMAP: "Object", STRING: "String", VIEW: "String", CSTRING: "String",
            NUMBER: "Number", BOOL: "Bool", RECORD: "Object", VARIANT: "Object"}
# what needs to be possible and what must be rejected when compiling
OPERATIONS = {
    "CanPush": {c: c != RAW for c in range(17)},
    "CanPull": {c: c != RAW for c in range(17) if c not in (VIEW, CSTRING)},
    "CanToJson": {ARRAY: True, MAP: True, MULTIMAP: True, STRING: True, NUMBER: True, BOOL: True, RECORD: True, OTHER: False, RAW: False},
    "CanFromJson": {ARRAY: True, MAP: True, MULTIMAP: True, STRING: True, NUMBER: True, BOOL: True, RECORD: True, OTHER: False, RAW: False},
    "CanWrite": {c: True for c in range(17) if c not in (TUPLE, VIEW, CSTRING, RAW)},
    "CanRead": {c: True for c in range(17) if c not in (TUPLE, VIEW, CSTRING, RAW)},
}
EXTRA = [
    ("version", "Versioning<rrjv::Versioned>::enabled", "versioning is enabled for a type with a version"),
    ("version", "Versioning<rrjv::Versioned>::maxSupported == 7", "the maximum supported version is the one of the type"),
    ("version", "Versioning<rrjv::Versioned>::serializationDefault == 7", "the version of the type is the default"),
    ("version", "Versioning<rrjv::First>::enabled && Versioning<rrjv::First>::maxSupported == 1", "the version 1 is a version like any other"),
    ("version", "Versioning<rrjv::Wide>::enabled && Versioning<rrjv::Wide>::maxSupported == 0x100000000u", "versions exceeding 32 bits are versions like any other"),
    ("version", "Versioning<rrjv::Huge>::enabled && Versioning<rrjv::Huge>::maxSupported == 0xFFFFFFFFFFFFFFFFu && Versioning<rrjv::Huge>::serializationDefault == 0xFFFFFFFFFFFFFFFFu", "the highest version is a version like any other"),
    ("version", "Versioning<BinarySerializable<rrjv::Versioned, 7>>::enabled", "versioning is enabled for the base of a type with a version"),
    ("version", "!Versioning<rrjv::Serial>::enabled", "versioning is disabled for a type without version"),
    ("version", "!Versioning<BinarySerializable<rrjv::Serial>>::enabled", "versioning is disabled for the base of a type without version"),
    ("version", "Versioning<rrjv::VersionedJson>::enabled", "versioning is enabled for a type with a version which also supports JSON"),
    ("version", "!Versioning<int>::enabled && !Versioning<std::string>::enabled && !Versioning<rrjv::Custom>::enabled", "versioning is disabled for types without version"),
    ("adapted", "AdaptedJsonSerializable<rrjv::Adapted>::value", "the adapted type is considered serializable (JSON)"),
    ("adapted", "AdaptedBinarySerializable<rrjv::Adapted>::value", "the adapted type is considered serializable (binary)"),
    ("adapted", "!AdaptedJsonSerializable<rrjv::Custom>::value && !AdaptedBinarySerializable<rrjv::Custom>::value", "other types are not considered serializable"),
    ("treat-as", "!IsMapOrHash<rrjv::NotTreated>::value", "types are only treated as map if stated so"),
    ("noindex", "JsonDeserializationError::noIndex == std::numeric_limits<std::size_t>::max()", "the value for no index is not a valid index"),
]
# programs which need to be accepted: (anchor, what needs to be usable, declarations on namespace-level)
GENERATED = """namespace ReflectiveRapidJSON { namespace JsonReflector {
template <> void push<%(t)s>(const %(t)s &r, RAPIDJSON_NAMESPACE::Value::Object &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator) { %(push)s }
template <> void pull<%(t)s>(%(t)s &r, const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>>::ConstObject &value, JsonDeserializationErrors *errors) { %(pull)s }
} }"""
GENERATED_BINARY = """namespace ReflectiveRapidJSON { namespace BinaryReflector {
template <> void writeCustomType<%(t)s>(BinarySerializer &serializer, const %(t)s &r, BinaryVersion version) { %(write)s }
template <> BinaryVersion readCustomType<%(t)s>(BinaryDeserializer &deserializer, %(t)s &r, BinaryVersion version) { %(read)s return version; }
} }"""


def generated(t, push="push(r.x, \"x\", value, allocator);", pull="pull(r.x, \"x\", value, errors);"):
    return GENERATED % {"t": t, "push": push, "pull": pull}


def generated_binary(t, write="serializer.write(r.x);", read="deserializer.read(r.x);"):
    return GENERATED_BINARY % {"t": t, "write": write, "read": read}


NS = "namespace rrjvw { %s }"
USES = [
    ("REFLECTIVE_RAPIDJSON_PUSH_PRIVATE_MEMBERS", "private members when serializing",
     NS % "class W1 : public JsonSerializable<W1> { public: REFLECTIVE_RAPIDJSON_PUSH_PRIVATE_MEMBERS(W1); private: int x = 0; public: int y = 0; };" +
     generated("rrjvw::W1", pull="pull(r.y, \"y\", value, errors);")),
    ("REFLECTIVE_RAPIDJSON_PULL_PRIVATE_MEMBERS", "private members when deserializing",
     NS % "class W2 : public JsonSerializable<W2> { public: REFLECTIVE_RAPIDJSON_PULL_PRIVATE_MEMBERS(W2); private: int x = 0; public: int y = 0; };" +
     generated("rrjvw::W2", push="push(r.y, \"y\", value, allocator);")),
    ("REFLECTIVE_RAPIDJSON_ENABLE_PRIVATE_MEMBERS", "private members when serializing and deserializing",
     NS % "class W3 : public JsonSerializable<W3> { REFLECTIVE_RAPIDJSON_ENABLE_PRIVATE_MEMBERS(W3); int x = 0; };" + generated("rrjvw::W3") +
     NS % "inline void w3(W3 &w) { w.toJson(); w = W3::fromJson(std::string()); }"),
    ("REFLECTIVE_RAPIDJSON_ENABLE_PRIVATE_MEMBERS", "private members of a nested class",
     NS % "struct W4 { struct Nested : public JsonSerializable<Nested> { REFLECTIVE_RAPIDJSON_ENABLE_PRIVATE_MEMBERS(Nested); private: int x = 0; }; };" + generated("rrjvw::W4::Nested")),
]
SERIAL = (NS % "struct W5 : public JsonSerializable<W5> { int x = 0; }; struct W6 : public W5, public JsonSerializable<W6> { int y = 0; };" + generated("rrjvw::W5") +
          generated("rrjvw::W6", "push(static_cast<const rrjvw::W5 &>(r), value, allocator);", "pull(static_cast<rrjvw::W5 &>(r), value, errors);"))
SERIAL_BINARY = (NS % ("struct W7 : public BinarySerializable<W7> { int x = 0; }; struct W8 : public W7, public BinarySerializable<W8, 3> { int y = 0; "
                       "using BinarySerializable<W8, 3>::toBinary; using BinarySerializable<W8, 3>::fromBinary; };") +
                 generated_binary("rrjvw::W7") + generated_binary("rrjvw::W8", "serializer.write(static_cast<const rrjvw::W7 &>(r), version);", "deserializer.read(static_cast<rrjvw::W7 &>(r), version);"))
HANA = NS % "struct W9 { BOOST_HANA_DEFINE_STRUCT(W9, (int, x), (std::string, y), (std::vector<int>, z)); };" + """
REFLECTIVE_RAPIDJSON_MAKE_JSON_SERIALIZABLE(rrjvw::W9);
REFLECTIVE_RAPIDJSON_MAKE_BINARY_SERIALIZABLE(rrjvw::W9);
namespace rrjvw { class W10 : public JsonSerializable<W10>, public BinarySerializable<W10> { REFLECTIVE_RAPIDJSON_ENABLE_PRIVATE_MEMBERS(W10); int x = 0; std::string y;
public: BOOST_HANA_DEFINE_STRUCT(W10, (int, z)); }; }"""
COMMON = [SERIAL, SERIAL_BINARY, HANA]
PARAM = "RAPIDJSON_NAMESPACE::Value &v, RAPIDJSON_NAMESPACE::Document::AllocatorType &a, JsonDeserializationErrors *e, std::iostream &s"


def use(n, args, body):
    return NS % ("inline void u%d(%s%s) { %s (void)v; (void)a; (void)e; (void)s; }" % (n, args + ", " if args else "", PARAM, body))


USES += [(a, m, use(n, args, body)) for n, (a, m, args, body) in enumerate([
    ("toJson", "JsonSerializable::toJson() for constant objects", "const W5 &w", "static_assert(std::is_same<decltype(w.toJson()), RAPIDJSON_NAMESPACE::StringBuffer>::value); w.toJson();"),
    ("toJsonDocument", "JsonSerializable::toJsonDocument() for constant objects", "const W5 &w",
     "static_assert(std::is_same<decltype(w.toJsonDocument()), RAPIDJSON_NAMESPACE::Document>::value); w.toJsonDocument();"),
    ("fromJson", "JsonSerializable::fromJson() for a string", "const std::string &j", "static_assert(std::is_same<decltype(W5::fromJson(j)), W5>::value); W5::fromJson(j); W5::fromJson(j, e);"),
    ("fromJson", "JsonSerializable::fromJson() for a C-string", "const char *j", "W5::fromJson(j); W5::fromJson(j, e);"),
    ("fromJson", "JsonSerializable::fromJson() for a C-string with size", "const char *j, std::size_t n", "W5::fromJson(j, n); W5::fromJson(j, n, e);"),
    ("push", "JsonSerializable::push() for an array", "const W5 &w", "w.push(v, a);"),
    ("push", "JsonSerializable::push() for an object", "const W5 &w", "w.push(v, \"m\", a);"),
    ("as", "as() for a class and its base class being serializable", "W6 &w, const W6 &c",
     "as(w).toJson(); as(c).toJson(); as<W5>(w).toJson(); as<W5>(c).toJsonDocument(); "
     "static_assert(std::is_same<decltype(as(w)), JsonSerializable<W6> &>::value && std::is_same<decltype(as<W5>(c)), const JsonSerializable<W5> &>::value);"),
    ("toBinary", "BinarySerializable::toBinary() for constant objects", "const W7 &w, const W8 &x", "w.toBinary(s); w.toBinary(s, 1); x.toBinary(s); x.toBinary(s, 2);"),
    ("restoreFromBinary", "BinarySerializable::restoreFromBinary()", "W7 &w",
     "static_assert(std::is_same<decltype(w.restoreFromBinary(s)), BinaryVersion>::value); w.restoreFromBinary(s);"),
    ("fromBinary", "BinarySerializable::fromBinary()", "", "static_assert(std::is_same<decltype(W7::fromBinary(s)), W7>::value); W7::fromBinary(s); W8::fromBinary(s);"),
    ("VersionNotSupported", "VersionNotSupported to handle unsupported versions", "",
     "try { W8::fromBinary(s); } catch (const W8::VersionNotSupported &x) { static_assert(std::is_same<decltype(x.maxVersion), BinaryVersion>::value && std::is_same<decltype(x.presentVersion), "
     "BinaryVersion>::value && std::is_same<decltype(x.record), const char *>::value); } static_assert(std::is_same<W8::VersionNotSupported, VersionNotSupported<BinaryVersion>>::value);"),
    ("push", "push() for the members of a structure adapted via Boost.Hana", "const W9 &w, RAPIDJSON_NAMESPACE::Value::Object &o", "JsonReflector::push(w, v, a); JsonReflector::push(w, o, a); JsonReflector::toJson(w);"),
    ("pull", "pull() for the members of a structure adapted via Boost.Hana", "W9 &w", "JsonReflector::pull(w, v, e); JsonReflector::fromJson<W9>(std::string(), e);"),
    ("write", "write() for the members of a structure adapted via Boost.Hana", "const W9 &w", "BinaryReflector::BinarySerializer(&s).write(w);"),
    ("read", "read() for the members of a structure adapted via Boost.Hana", "W9 &w", "BinaryReflector::BinaryDeserializer(&s).read(w);"),
    ("toJson", "private members of a class adapted via Boost.Hana", "W10 &w", "w.toJson(); w = W10::fromJson(std::string()); w.toBinary(s); w.restoreFromBinary(s);"),
    ("push", "push() for times", "CppUtilities::DateTime d, CppUtilities::TimeSpan t", "JsonReflector::push(d, v, a); JsonReflector::push(t, v, a);"),
    ("pull", "pull() for times", "CppUtilities::DateTime d, CppUtilities::TimeSpan t", "JsonReflector::pull(d, v, e); JsonReflector::pull(t, v, e);"),
    ("write", "write() for times", "CppUtilities::DateTime d, CppUtilities::TimeSpan t", "BinaryReflector::BinarySerializer(&s).write(d); BinaryReflector::BinarySerializer(&s).write(t);"),
    ("read", "read() for times", "CppUtilities::DateTime d, CppUtilities::TimeSpan t", "BinaryReflector::BinaryDeserializer(&s).read(d); BinaryReflector::BinaryDeserializer(&s).read(t);"),
    ("push", "members via push() with name", "const W5 &w, RAPIDJSON_NAMESPACE::Value::Object &o", "JsonReflector::push(w, \"x\", o, a); JsonReflector::push(1, \"x\", o, a); JsonReflector::push(std::string(), \"x\", o, a);"),
    ("pull", "members via pull() with name", "W5 &w, int i, const RAPIDJSON_NAMESPACE::Value::ConstObject &o", "JsonReflector::pull(w, \"x\", o, e); JsonReflector::pull(i, \"x\", o, e);"),
])]
CATNAMES = ["array", "set", "multiset", "map", "multimap", "tuple", "string", "string view", "C-string", "number", "bool", "enum", "pointer", "variant", "record",
            "other class", "raw pointer"]


class TraitRules:
    def __init__(self, res):
        self.res = res
        self.assertions = 0

    def statements(self):
        """Yields (rule, anchor, expression, message)."""
        for t, c in TYPES:
            for trait, cats in sorted(TRAITS.items()):
                if (trait, c) in EXEMPT or t == "std::int8_t" and trait.startswith("Binary"):
                    continue
                want = c in cats
                yield ("trait", trait.rsplit("::", 1)[-1], "%s%s<%s>::value" % ("" if want else "!", trait, t),
                       "%s (%s) %s by %s" % (t, CATNAMES[c], "is not recognized" if want else "is wrongly recognized", trait))
            if c in JSONTYPE:
                yield ("json-type", "jsonType", "jsonType<%s>() == JsonType::%s" % (t, JSONTYPE[c]), "%s (%s) is not mapped to %s by jsonType()" % (t, CATNAMES[c], JSONTYPE[c]))
            for op, m in sorted(OPERATIONS.items()):
                if c in m:
                    if op in ("CanWrite", "CanRead") and t == "std::int8_t":
                        continue
                    yield ("supported" if m[c] else "rejected", {"Can": ""}.get(op, op[3:].lower()), "%srrjv::%s<%s>::value" % ("" if m[c] else "!", op, t),
                           "%s (%s) is %s by %s()" % (t, CATNAMES[c], "not supported" if m[c] else "not rejected", {"CanPush": "push", "CanPull": "pull", "CanToJson": "toJson",
                                                      "CanFromJson": "fromJson", "CanWrite": "BinarySerializer::write", "CanRead": "BinaryDeserializer::read"}[op]))
        for rule, expr, msg in EXTRA:
            yield (rule, {"version": "Versioning", "adapted": "AdaptedJsonSerializable", "treat-as": "TreatAsMapOrHash", "noindex": "noIndex"}[rule], expr, "not true: " + msg)

    def run(self):
        stmts = list(self.statements())
        self.assertions = len(stmts)
        errors = self.check(stmts)
        base = len(stmts)
        for n, (anchor, msg, code) in enumerate(USES):
            e = errors.get(base + n)
            if e is None:
                self.res.ok("C24", "usable", msg)
            else:
                self.res.fail("C24", "usable", self.find(anchor), anchor, "not usable: " + msg, e if e != "static" else "a stated type does not match")
        self.assertions += len(USES)
        for n, (rule, anchor, expr, msg) in enumerate(stmts):
            e = errors.get(n)
            props = ("C18", "C24") if rule == "version" else ("C24",)
            if e is None:
                for p in props:
                    self.res.ok(p, rule, expr)
            elif e == "static":
                self.res.fail(props, rule, self.find(anchor), anchor, msg, "static_assert(%s)" % expr)
            else:
                self.res.skip(props, expr, e)

    def check(self, stmts):
        """Type-checks the statements; returns a mapping from the index of the statement to the problem."""
        fd, path = tempfile.mkstemp(prefix="rrjv-traits-", suffix=".cpp")
        try:
            lines = PRELUDE.splitlines()
            first = len(lines) + 1
            for _, _, expr, _ in stmts:
                lines.append("static_assert((%s), \"RRJV\");" % expr)
            for code in COMMON:
                lines.append(" ".join(code.splitlines()))
            for _, _, code in USES:
                lines.append(" ".join(code.splitlines()))
            with os.fdopen(fd, "w") as f:
                f.write("\n".join(lines) + "\n")
            r = subprocess.run([CXX, "-fsyntax-only", "-ferror-limit=0", "-fno-caret-diagnostics", "-w"] + lib_args() + [path], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            errors, other = {}, []
            for l in r.stdout.splitlines():
                m = re.match(r"(.*?):(\d+):\d+: (fatal error|error|note): (.*)", l)
                if not m:
                    continue
                n = int(m.group(2)) - first
                if n >= len(stmts) + len(COMMON):
                    n -= len(COMMON)
                elif n >= len(stmts):
                    n = -1
                mine = m.group(1) == path and 0 <= n < len(stmts) + len(USES)
                if m.group(3) == "note":
                    if mine and other:  # an error in a header caused by a statement
                        errors.setdefault(n, other.pop())
                elif mine and "static assertion failed" in m.group(4):
                    errors[n] = "static"
                elif mine:
                    errors.setdefault(n, m.group(4))
                else:
                    other.append("%s:%s: %s" % (m.group(1), m.group(2), m.group(4)))
            if other:
                raise AnalysisBroken("the statements can not be checked: " + other[0])
            return errors
        finally:
            os.unlink(path)

    def find(self, anchor):
        """Returns where the specified trait or function is defined."""
        for d, pats in ((os.path.join(REPO, "lib"), (r"JsonSerializable<Type> &%s\(", r"using\s+%s\b", r"constexpr\s+JsonType\s+%s\b", r"(?:struct|class)\s+%s\b", r"\b(?:void|BinaryVersion|Document|Type|StringBuffer)\s+(?:\w+::)?%s\(",
                                                   r"\b%s\b")),):
            for pat in pats:
                rx = re.compile(pat % re.escape(anchor))
                for root, dirs, files in sorted(os.walk(d)):
                    if "tests" in root:
                        continue
                    for f in sorted(files):
                        if f.endswith(".h"):
                            with open(os.path.join(root, f)) as fh:
                                for k, line in enumerate(fh, 1):
                                    if rx.search(line):
                                        return "%s:%d" % (os.path.relpath(os.path.join(root, f), REPO), k)
        return "lib/traits.h:1"
