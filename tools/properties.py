# texts of the properties; executed by gen.py
IN = ["inputs"]
TY = ["inputs", "programs"]

prop("C01", "Deserializing without error collector is safe and yields the same values",
     "Deserializing any JSON value or document into any supported type without passing an error collector never accesses a collector and yields exactly the values "
     "which deserializing the same input with a collector that treats no error as fatal yields.",
     TY, "all JSON values (of every kind and nesting), all supported C++ types, collector absent vs. present",
     "Tests pass a collector nearly everywhere; a missing null check on one error path of one type needs a malformed input of exactly that kind without collector.",
     [J, "lib/json/errorhandling.h", "lib/json/reflector-chronoutilities.h", "lib/json/reflector-boosthana.h"],
     [("null checks before each use of the collector", J), ("collector passed down to nested values", J)],
     state=[("errors", "optional collector of deserialization errors", "lib/json/errorhandling.h")], observe=["JsonReflector::fromJson()", "JsonReflector::pull()"])

prop("C02", "JSON values are only accessed as the type they actually have",
     "Whatever JSON text is deserialized into whatever supported type, no value is read as an object, array, string, bool or number (of a certain range) it is not, no "
     "array element or member is accessed which does not exist and no empty pointer/optional is dereferenced.",
     TY, "all JSON documents (truncated arrays, missing members, wrong kinds at any position) and all supported C++ types",
     "A violation is an assertion failure or undefined behaviour for one combination of target type and kind of JSON value; tests try a handful of combinations.",
     [J, "lib/json/reflector-chronoutilities.h", "lib/json/serializable.h"], [("type/size checks before accessors", J)],
     observe=["JsonReflector::fromJson()", "JsonReflector::pull()"])

prop("C03", "Wrong types are reported once and leave the target as-is; others are assigned",
     "A JSON value of a kind the C++ type does not accept leads to exactly one recorded error and leaves the target object untouched; a value of an accepted kind leads to "
     "no error of its own and is assigned completely - all elements, in order.",
     TY, "all kinds of JSON values for all supported C++ types, with and without collector",
     "Needs every pair of JSON kind and C++ type; tests cover a few mismatches and never check for duplicate errors or partial writes systematically.",
     [J, "lib/json/reflector-chronoutilities.h", "lib/json/errorhandling.h"], [("pull() overloads", J), ("reportTypeMismatch()", "lib/json/errorhandling.h")])

prop("C04", "Recorded errors name the right kind, expected type and actual type",
     "Each error recorded during deserialization has the kind matching its cause, the expected JSON type is the one the C++ type is serialized as and the actual JSON type is "
     "the one of the offending value.",
     TY, "all kinds of JSON values for all supported C++ types", "Tests assert these fields for a few types; a wrong mapping for one category of types goes unnoticed.",
     ["lib/json/errorhandling.h", J], [("jsonType(), reportTypeMismatch(), reportArraySizeMismatch(), reportConversionError(), reportUnexpectedDuplicate()", "lib/json/errorhandling.h")])

prop("C05", "Errors configured as fatal are thrown; all others are not",
     "For every kind of error and every combination of flags: when an error is recorded whose kind is configured as fatal, exactly that error is thrown right away; errors of "
     "other kinds are recorded without throwing. The combination of all flags makes every kind fatal, and no flag is set by default.",
     ["inputs", "configurations"], "all kinds of errors at every place they are recorded, all combinations of flags",
     "Tests only try one flag at a time for single kinds.", ["lib/json/errorhandling.h", J], [("throwOn handling in report…() functions", "lib/json/errorhandling.h")],
     state=[("throwOn", "flags for fatal errors", "lib/json/errorhandling.h")])

prop("C06", "Errors carry the record, member and index they occurred in",
     "While a nested value is deserialized the collector's context denotes the record, member and array index of that value, every error is recorded with the context current "
     "at that time, and after any value - valid or not - has been deserialized the context is the one from before.",
     IN, "all nestings of arrays, records, sets, tuples and variants with errors at arbitrary positions",
     "A context which is not restored only shows for an error following a nested value of a particular type; tests have few such sequences.",
     [J, "lib/json/errorhandling.h"], [("currentRecord/currentMember/currentIndex", "lib/json/errorhandling.h"), ("saving/restoring in pull()", J)],
     state=[("currentRecord, currentMember, currentIndex", "context of errors", "lib/json/errorhandling.h")])

prop("C07", "Documents and objects own their strings",
     "A document obtained by serializing an object stays valid after the object is modified or destroyed: all strings and map keys are copied into it. Deserialization never "
     "stores pointers or views into the parsed document within the populated object.",
     TY, "all supported types and values, any order of destruction", "Use-after-free only shows under particular lifetimes (and often not even then); tests serialize and compare immediately.",
     [J, "lib/json/reflector-chronoutilities.h"], [("allocator passed when making strings", J)])

prop("C08", "Strings keep their full length",
     "Strings, map keys and whole JSON texts are passed with their full length in both directions - embedded null characters and texts which are not null-terminated included; "
     "nothing is cut at a null character and nothing beyond the string is read.",
     IN, "all strings with arbitrary contents up to the 32-bit size limit of RapidJSON", "Needs strings containing null characters or views which are not null-terminated at each of the "
     "different places strings are passed on; the tests use plain ones.", [J, "lib/json/reflector-chronoutilities.h"], [("length passed along with pointers", J)])

prop("C09", "Numbers not fitting into the target type are rejected",
     "A JSON number is either converted to the target integer, floating-point or enumeration type without changing its integral value (within the precision of the type) or, if "
     "it lies outside of the range of that type, rejected with one conversion error leaving the target untouched; there is no wrap-around, truncation or undefined conversion.",
     TY, "all JSON numbers including limits of each type, all integer widths and signs, float and double",
     "The quantifier ranges over all numbers; tests use small ones.", [J], [("range check before conversion", J)],
     note=NOTE + " Decided by interval propagation with interval end points split at the limits of each type; rounding of 64-bit integers to floating-point is not decided.")

prop("C10", "What is serialized is accepted when deserializing the same type",
     "For every supported type the JSON produced from a value has the kind and structure which deserializing that type accepts (numbers, strings, arrays in order, objects by "
     "key, one array per key of a multimap, null for absent values including absent C-strings and string views, index and data of variants) and contains the value itself.",
     TY, "all supported types and values", "Requires the two directions to agree for every category of types; tests check single examples.", [J, "lib/json/reflector-boosthana.h",
     "lib/json/reflector-chronoutilities.h"], [("push() overloads", J), ("pull() overloads", J)])

prop("C11", "Containers, pointers and optionals are replaced, not merged",
     "After deserializing into an existing object, containers hold exactly the elements from JSON regardless of their previous contents, null resets pointers and optionals, and "
     "an element occurring twice in JSON for a set is reported as duplicate.",
     ["inputs", "histories"], "all previous contents of the target object and all JSON values", "Tests deserialize into fresh objects.", [J],
     [("clear()/reset() before inserting", J)])

prop("C12", "Invalid JSON is always rejected with the parse error",
     "Passing text which is not exactly one valid JSON document to any of the functions for deserializing from text throws the parse error before anything else is reported or "
     "deserialized; valid JSON never leads to a parse error. The whole passed text is considered.",
     TY, "all texts and all overloads for all supported types", "Tests try one broken document with one overload.", [J, "lib/json/serializable.h"],
     [("parseJsonDocFromString()", J)], observe=["JsonReflector::fromJson()", "JsonSerializable::fromJson()"])

prop("C13", "Members are matched by their own name only",
     "When deserializing an object each member is populated from the JSON member of exactly its own name; members missing in JSON keep their value, unknown JSON members are "
     "ignored, both without error. Serializing puts each member under its own name.",
     IN, "all sets of present, missing and additional JSON members", "Tests use complete objects.", [J, "lib/json/reflector-boosthana.h"], [("FindMember()", J)])

prop("C14", "Malformed dates and time spans are reported as conversion errors",
     "A string which can not be parsed as date or time span leads to exactly one conversion error, no exception of the parser leaves the deserialization and the target is left "
     "untouched; well-formed strings are assigned.",
     IN, "all strings", "Tests try one malformed string.", ["lib/json/reflector-chronoutilities.h"], [("conversion of ConversionException", "lib/json/reflector-chronoutilities.h")])

B = "lib/binary/reflector.h"
BS = "lib/binary/serializable.h"
prop("C15", "What has been written in binary form is read back identically",
     "For every supported type, reading binary data consumes exactly the primitives writing produced, in the same order and with the same types and counts, accepts everything "
     "writing can produce and restores every part of the object (elements in order, pointees, active alternatives, null pointers) in the same place.",
     TY, "all values of all supported types (sizes, null/non-null, each alternative, elements)",
     "Tests round-trip a few objects; a disagreement for one type, a size or an alternative they do not use goes unnoticed.", [B, BS, "lib/binary/reflector-boosthana.h",
     "lib/binary/reflector-chronoutilities.h"], [("BinarySerializer::write() overloads", B), ("BinaryDeserializer::read() overloads", B)],
     observe=["BinarySerializable::toBinary()", "BinarySerializable::restoreFromBinary()", "BinarySerializable::fromBinary()"])

prop("C16", "Shared objects are written once and restored as one shared object",
     "Within one (de)serialization an object referenced by several shared pointers is written once, identified by its full address, and is restored as one object shared by all "
     "of these pointers; distinct objects are restored as distinct objects. This also holds for objects referring to themselves.",
     ["inputs", "histories"], "all graphs of shared objects and all addresses", "Depends on addresses and on the shape of the object graph; tests use two fixed addresses and graphs.",
     [B], [("write()/read() of std::shared_ptr", B)], state=[("m_pointer", "objects seen so far by identity", B)])

prop("C17", "Reading binary data replaces the target; bad data is a ConversionException",
     "Reading binary data into an object which is not empty yields the same value as reading it into a fresh one. A discriminator in the data (pointer mode, identity of a shared object, "
     "index of a variant) which is not valid leads to a ConversionException, and to nothing else but exceptions of the stream.",
     ["inputs", "histories"], "all previous contents of the target and all values of discriminators", "Tests read valid data into fresh objects.", [B],
     [("clear()/resize()/reset() when reading", B), ("readVariantValueByRuntimeIndex()", B)])

prop("C18", "Versions are defaulted, checked, passed on and returned as documented",
     "Version 0 stands for the version declared by the type; versions exceeding the declared one, and only these, are rejected with BinaryVersionNotSupported telling the present and the "
     "supported version; the version passed to toBinary()/write() reaches all nested custom types; reading returns the version of the data.",
     ["inputs", "configurations"], "all versions and all types", "Tests use one or two versions.", ["lib/versioning.h", BS, B, "lib/binary/reflector-boosthana.h",
     "lib/binary/reflector-chronoutilities.h"], [("Versioning", "lib/versioning.h"), ("versioned overloads of read()/write()", B)])

prop("C26", "All members of types adapted via Boost.Hana are covered",
     "For types reflected via Boost.Hana every declared member is serialized and deserialized exactly once, JSON and binary, in the order of declaration and (JSON) under its own name.",
     ["programs"], "all records adapted via Boost.Hana", "Tests use two small structs.", ["lib/json/reflector-boosthana.h", "lib/binary/reflector-boosthana.h"],
     [("for_each over the members", "lib/json/reflector-boosthana.h"), ("for_each over the members", "lib/binary/reflector-boosthana.h")])

prop("C27", "The returned JSON text is the whole document",
     "Serializing to text writes the complete document made from the passed object, and only that, to the returned buffer; when a value can not be represented in JSON no "
     "incomplete text is returned.",
     TY, "all supported types and values", "Tests compare examples.", [J, "lib/json/serializable.h"], [("serializeJsonDocToString()", J), ("toJson()", J)])

GN = "generator/serializationcodegenerator.cpp"
GJ = "generator/jsonserializationcodegenerator.cpp"
GB = "generator/binaryserializationcodegenerator.cpp"
GNOTE = ("Every path through the listed functions is evaluated abstractly; the paths are compared with the specification for a catalogue of abstract declarations which covers all "
         "combinations the conditions distinguish. Nothing is executed and no solver is used. Conditions which depend on something else are listed as undecided in the evidence.")

prop("C19", "The generator covers exactly the members it is supposed to",
     "For each class code is generated for, each direction (de)serializes every non-static, non-const data member (const ones only when serializing to JSON) that is public - or of any access when the "
     "class declares the generated function of that direction as friend - exactly once, in declaration order and under its own name; nothing else is (de)serialized.",
     ["programs"], "all classes: any sequence of members, access levels, const members, static members, nested declarations and friend declarations",
     "Tests run the generator on a few headers; a member skipped for one combination of access, constness, friends or preceding declarations just goes missing in the generated code.",
     [GJ, GB], [("generate()", GJ), ("generate()", GB)], note=GNOTE, observe=["output of reflective_rapidjson_generator"])

prop("C20", "The generator picks exactly the relevant classes of the main file",
     "Code is generated for exactly the defined classes of the main file (macro expansions considered) which inherit directly from the (de)serializable template or are listed on the command-line, and for "
     "classes for which the main file contains a one-argument adaption; all other declarations are ignored and the order is kept.",
     ["programs", "configurations"], "all translation units: any sequence of declarations, includes, forward declarations, template specializations, bases and command-line options",
     "Tests use a few fixed headers.", [GN, GJ, GB, "generator/codegenerator.cpp", "generator/visitor.cpp", "generator/codefactory.cpp"],
     [("addDeclaration(), findRelevantClasses()", GN), ("computeRelevantClass()", GJ), ("isOnlyIncluded(), inheritsFromInstantiationOf()", "generator/codegenerator.cpp")],
     note=GNOTE, state=[("m_records, m_adaptionRecords", "declarations found so far", "generator/serializationcodegenerator.h")])

prop("C21", "Base classes are (de)serialized exactly once",
     "The generated code for a class (de)serializes each relevant base class exactly once and in the same way for both directions: those the class derives from which are not already covered by another "
     "relevant base; members inherited via irrelevant bases are not lost as long as the base they belong to is relevant.",
     ["programs"], "all class hierarchies (direct, indirect, multiple, virtual, via irrelevant classes) in any order of declaration", "Tests contain two hierarchies.",
     [GN, GJ, GB], [("findRelevantBaseClasses()", GN), ("loop over base classes", GJ), ("loop over base classes", GB)], note=GNOTE)

prop("C22", "Generated binary code applies version markers alike in both directions",
     "For each member the condition on the version under which the generated code writes it is the one under which it is read and the one stated by the closest preceding version markers (each as-of/until "
     "marker replacing the previous one and revoking a contradicting one); the version is written/read and checked once before it is used if and only if the class is versioned.",
     ["programs", "configurations"], "all sequences of members and version markers, all versions",
     "Reader and writer are generated by separate code; a disagreement shows only for particular sequences of markers, private members and versions.",
     [GB], [("MemberTracking", GB), ("generate()", GB)], note=GNOTE, state=[("MemberTracking", "markers and block currently in effect", GB)])

prop("C23", "The generator reports every failure and runs what was requested",
     "The exit status of the generator is zero if and only if all requested generators exist, Clang processed the input without (real) errors and the complete output was written; otherwise something is "
     "printed to stderr and no exception escapes. Exactly the requested generators run, in order, once, on the specified input files with the specified options, writing to the specified file (replacing "
     "it) or stdout. Only with --error-resilient, semantic errors - and only those - are turned into warnings.",
     ["inputs", "configurations", "fault_sequences"], "all combinations of arguments, all failing operations (opening, writing, flushing, Clang errors), all diagnostics",
     "IO errors and combinations of diagnostics are not covered by the tests at all; main() is not even linked into them.",
     ["generator/main.cpp", "generator/codefactory.cpp", "generator/frontendaction.cpp", "generator/consumer.cpp"],
     [("main()", "generator/main.cpp"), ("DiagConsumer::HandleDiagnostic()", "generator/consumer.cpp"), ("makeClangArgs(), run()", "generator/codefactory.cpp"),
      ("CreateASTConsumer()", "generator/frontendaction.cpp")], note=GNOTE, state=[("m_realErrorCount", "errors not turned into warnings", "generator/consumer.h")],
     observe=["exit status, output file and standard streams of reflective_rapidjson_generator"])

prop("C28", "The generated code is well-formed and complete",
     "For every class the generator emits a specialization of the function for serializing and - if the class is default-constructible - one for deserializing, with balanced blocks, the requested visibility "
     "and the fully-qualified names of the class and its base classes (denoting the same classes within the library's namespace); for JSON the record context is set and restored. Nothing at all is emitted when no class is relevant.",
     ["programs", "configurations"], "all classes and command-line options", "Tests compare the output for a few headers.", [GJ, GB], [("generate()", GJ), ("generate()", GB)], note=GNOTE)

prop("C24", "Types are classified consistently at compile time",
     "Every supported C++ type belongs to exactly one category (array, set, multiset, map, multimap, tuple, string, number, bool, enum, pointer, variant, record), is mapped to the documented JSON type and "
     "is accepted by the functions for that category; types for which the treat-as/adaption macros are used are classified accordingly and no others; raw pointers are rejected when compiling. Versioning "
     "is enabled exactly for types with a non-zero version and supports versions up to it. The member functions of serializable classes and the macros for private members can be used as documented.",
     ["programs"], "all types built from standard containers, smart pointers, tuples, variants, arithmetic types, enums and (adapted) custom classes",
     "The classification selects the overload; tests instantiate a few types only and a type falling into the wrong category usually still compiles.",
     ["lib/traits.h", "lib/versioning.h", "lib/json/errorhandling.h", J, "lib/binary/reflector.h"], [("type traits", "lib/traits.h"), ("jsonType()", "lib/json/errorhandling.h"),
      ("IsBuiltInType, IsCustomType, IsJsonSerializable", J), ("Versioning", "lib/versioning.h")],
     technique="type-level encoding: static assertions and detection of ill-formed expressions (compile-fail witnesses) type-checked against the headers",
     note="Only type-checked (-fsyntax-only), nothing is executed. Covers the catalogue in engine/rules_traits.py, one type or more per category.")

prop("C25", "Formatted errors tell kind, types and context and never fail",
     "Formatting any error yields a text describing its kind (each kind differently), for type mismatches the expected and then the actual type, and the record and member (or index) the error occurred in "
     "if these are known; it never accesses a name which is not set and ends for every kind without exception.",
     ["inputs"], "all kinds of errors, pairs of types and combinations of present/absent record, member and index",
     "Tests format at most single errors; an absent name is undefined behaviour which only shows for errors outside of records.",
     ["lib/json/errorformatting.h"], [("formatJsonDeserializationError(), jsonTypeToString()", "lib/json/errorformatting.h")],
     note="Every path is evaluated abstractly; nothing is executed and no solver is used. Assumes the model of string concatenation.")

prop("C29", "Numbers and times survive a round trip exactly",
     "Every finite float/double and every DateTime/TimeSpan is restored exactly after serializing it as JSON text and deserializing that text.",
     IN, "all values of these types", "The values are too many to sample.", [J, "lib/json/reflector-chronoutilities.h"], [("push()/pull() of numbers", J)], claim=False,
     reason="Exactness is decided by the digit generation/parsing within RapidJSON and c++utilities (outside of the repository) for concrete values; the static rules only decide that values are passed on "
     "unconverted and with the right type (C09, C10, C14).")

prop("C30", "Resources used for malformed input are bounded",
     "Deserializing any input - JSON nested arbitrarily deep or binary data with arbitrary length prefixes - needs memory and stack proportional to the size of the input.",
     IN, "all inputs, in particular corrupt length prefixes and deep nesting", "Needs huge inputs.", [J, "lib/binary/reflector.h"], [("resize()/reserve() before reading elements", J)], claim=False,
     reason="Recursion depth and allocation sizes are runtime quantities no static rule in reach bounds (and the design indeed allocates what a length prefix states); C02/C17 cover that nothing undefined "
     "happens apart from that.")

prop("C31", "Serializing any object graph terminates",
     "Serializing objects sharing or referring to each other - including cycles of shared pointers - terminates with a finite document or stream.",
     IN, "all object graphs", "Graphs are unbounded.", [J, "lib/binary/reflector.h"], [("push() of pointers", J), ("write() of std::shared_ptr", "lib/binary/reflector.h")], claim=False,
     reason="Whether an object graph is cyclic is a property of runtime data; JSON documents are trees by design and the library documents that shared objects are duplicated. The static part (binary data: an "
     "object is registered before its contents are written/read, hence cycles end) is decided by C16.")
