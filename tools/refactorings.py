"""Edits which keep the behaviour: the checks have to stay quiet (and should still decide everything)."""
R = []
J = "lib/json/reflector.h"
B = "lib/binary/reflector.h"
E = "lib/json/errorhandling.h"
C = "lib/json/reflector-chronoutilities.h"


def ref(name, file, *edits):
    R.append((name, [(file,) + e if len(e) == 2 else e for e in edits]))


GV = "RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>>"

ref("range-ternary", J, ('''        number = std::trunc(number);
        return number >= static_cast<double>(std::numeric_limits<Type>::min())
            && number < static_cast<double>(std::numeric_limits<Type>::max()) + 1.0;''',
'''        const auto truncated = std::trunc(number);
        if (truncated < static_cast<double>(std::numeric_limits<Type>::min())) {
            return false;
        }
        return !(truncated >= static_cast<double>(std::numeric_limits<Type>::max()) + 1.0);'''))

ref("extract-type-mismatch-helper", J, ('''template <typename Type> inline bool isWithinRange(double number)
{''', '''template <typename Type>
inline void reportMismatchIfPossible(const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors)
{
    if (errors != nullptr) {
        errors->reportTypeMismatch<Type>(value.GetType());
    }
}

template <typename Type> inline bool isWithinRange(double number)
{'''), ('''    if (!value.IsBool()) {
        if (errors) {
            errors->reportTypeMismatch<Type>(value.GetType());
        }
        return;
    }
    reflectable = value.GetBool();''', '''    if (!value.IsBool()) {
        Detail::reportMismatchIfPossible<Type>(value, errors);
    } else {
        reflectable = value.GetBool();
    }'''), ('''    if (!value.IsString()) {
        if (errors) {
            errors->reportTypeMismatch<std::string>(value.GetType());
        }
        return;
    }
    reflectable.assign(value.GetString(), value.GetStringLength());''', '''    if (!value.IsString()) {
        Detail::reportMismatchIfPossible<std::string>(value, errors);
        return;
    }
    reflectable = std::string(value.GetString(), value.GetStringLength());'''))

ref("array-helper-index-guard", J, ('''    // clear previous contents of the array
    reflectable.clear();

    // pull all array elements of the specified value
    const auto previousIndex = errors ? errors->currentIndex : JsonDeserializationError::noIndex;
    std::size_t index = 0;
    for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
        // set error context for current index
        if (errors) {
            errors->currentIndex = index;
        }
        ++index;
        reflectable.emplace_back();
        pull(reflectable.back(), item, errors);
    }
''', '''    // pull all array elements of the specified value
    const auto previousIndex = errors ? errors->currentIndex : JsonDeserializationError::noIndex;
    reflectable.clear();
    for (RAPIDJSON_NAMESPACE::SizeType index = 0, size = array.Size(); index < size; ++index) {
        reflectable.emplace_back();
        if (errors) {
            errors->currentIndex = index;
        }
        pull(reflectable.back(), array[index], errors);
    }
'''))

ref("array-iterator-loop", J, ('''    for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
        // set error context for current index
        if (errors) {
            errors->currentIndex = index;
        }
        ++index;
        typename Type::value_type itemObj;
        pull(itemObj, item, errors);
        reflectable.emplace(std::move(itemObj));
    }
''', '''    for (auto i = array.Begin(), end = array.End(); i != end; ++i, ++index) {
        if (errors) {
            errors->currentIndex = index;
        }
        typename Type::value_type itemObj;
        pull(itemObj, *i, errors);
        reflectable.insert(std::move(itemObj));
    }
'''))

ref("set-insert-result", J, ('''        if (!reflectable.emplace(std::move(itemObj)).second && errors) {
            errors->reportUnexpectedDuplicate(JsonType::Array);
        }''', '''        const auto [position, inserted] = reflectable.insert(std::move(itemObj));
        CPP_UTILITIES_UNUSED(position)
        if (inserted) {
            continue;
        }
        if (errors) {
            errors->reportUnexpectedDuplicate(JsonType::Array);
        }'''))

ref("map-range-loop", J, ('''    reflectable.clear();
    auto obj = value.GetObject();
    for (auto i = obj.MemberBegin(), end = obj.MemberEnd(); i != end; ++i) {
        pull(reflectable[typename Type::key_type(i->name.GetString(), i->name.GetStringLength())], i->value, errors);
    }''', '''    reflectable.clear();
    for (const auto &member : value.GetObject()) {
        const auto &name = member.name;
        auto &mapped = reflectable[typename Type::key_type(name.GetString(), name.GetStringLength())];
        pull(mapped, member.value, errors);
    }'''))

ref("map-try-emplace", J, ('''        pull(reflectable[typename Type::key_type(i->name.GetString(), i->name.GetStringLength())], i->value, errors);
''', '''        const auto result = reflectable.try_emplace(typename Type::key_type(i->name.GetString(), i->name.GetStringLength()));
        pull(result.first->second, i->value, errors);
'''))

ref("multimap-lambda", J, ('''        const auto key = typename Type::key_type(i->name.GetString(), i->name.GetStringLength());
        if (i->value.GetType() != RAPIDJSON_NAMESPACE::kArrayType) {
            auto insertedIterator = reflectable.insert(typename Type::value_type(key, typename Type::mapped_type()));
            pull(insertedIterator->second, i->value, errors);
            continue;
        }
        const auto array = i->value.GetArray();
        for (const auto &arrayValue : array) {
            auto insertedIterator = reflectable.insert(typename Type::value_type(key, typename Type::mapped_type()));
            pull(insertedIterator->second, arrayValue, errors);
        }''', '''        const auto key = typename Type::key_type(i->name.GetString(), i->name.GetStringLength());
        const auto add = [&](const auto &mappedValue) {
            auto inserted = reflectable.emplace(key, typename Type::mapped_type());
            pull(inserted->second, mappedValue, errors);
        };
        if (i->value.IsArray()) {
            for (const auto &arrayValue : i->value.GetArray()) {
                add(arrayValue);
            }
        } else {
            add(i->value);
        }'''))

ref("member-context-helper", J, ('''    // set error context for current member
    const char *previousMember = nullptr;
    if (errors) {
        previousMember = errors->currentMember;
        errors->currentMember = name;
    }

    // actually pull value for member
    pull<Type>(reflectable, member->value, errors);

    // restore previous error context
    if (errors) {
        errors->currentMember = previousMember;
    }''', '''    if (!errors) {
        pull<Type>(reflectable, member->value, nullptr);
        return;
    }
    const char *const previousMember = std::exchange(errors->currentMember, name);
    pull<Type>(reflectable, member->value, errors);
    errors->currentMember = previousMember;'''))

ref("variant-early", J, ('''    auto indexIterator = obj.FindMember("index");
    auto dataIterator = obj.FindMember("data");
    if (indexIterator == obj.MemberEnd() || dataIterator == obj.MemberEnd()) {
        if (errors) {
            errors->reportInvalidVariantObject();
        }
        return;
    }''', '''    const auto dataIterator = obj.FindMember("data");
    const auto indexIterator = obj.FindMember("index");
    const bool valid = indexIterator != obj.MemberEnd() && dataIterator != obj.MemberEnd();
    if (!valid) {
        if (errors) {
            errors->reportInvalidVariantObject();
        }
        return;
    }'''))

ref("variant-fold", J, ('''        if (compiletimeIndex == runtimeIndex) {
            if constexpr (std::is_same_v<std::variant_alternative_t<compiletimeIndex, Variant>, std::monostate>) {
                variant = std::monostate{};
            } else {
                pull(variant.template emplace<compiletimeIndex>(), value, errors);
            }
        } else {
            assignVariantValueByRuntimeIndex<Variant, compiletimeIndex + 1>(runtimeIndex, variant, value, errors);
        }''', '''        if (compiletimeIndex != runtimeIndex) {
            return assignVariantValueByRuntimeIndex<Variant, compiletimeIndex + 1>(runtimeIndex, variant, value, errors);
        }
        auto &alternative = variant.template emplace<compiletimeIndex>();
        if constexpr (!std::is_same_v<std::variant_alternative_t<compiletimeIndex, Variant>, std::monostate>) {
            pull(alternative, value, errors);
        }'''))

ref("tuple-index-sequence", J, ('''    Detail::TuplePullHelper<Type, std::tuple_size<Type>::value>::pull(reflectable, array, errors);''',
'''    std::apply(
        [&array, errors](auto &...elements) {
            RAPIDJSON_NAMESPACE::SizeType index = 0;
            (JsonReflector::pull(elements, array[index++], errors), ...);
        },
        reflectable);'''))

ref("unique-ptr-local", J, ('''    reflectable = std::make_unique<typename Type::element_type>();
    pull(*reflectable, value, errors);''', '''    auto newObject = std::make_unique<typename Type::element_type>();
    auto &object = *newObject;
    reflectable = std::move(newObject);
    pull(object, value, errors);'''))

ref("optional-inverted", J, ('''    if (value.IsNull()) {
        reflectable.reset();
    } else {
        pull(reflectable.emplace(), value, errors);
    }''', '''    if (!value.IsNull()) {
        auto &contained = reflectable.emplace();
        pull(contained, value, errors);
        return;
    }
    reflectable = std::nullopt;'''))

ref("enum-within-helper", J, ('''    using Limits = std::numeric_limits<typename std::underlying_type<Type>::type>;
    if (number < Limits::min() || number > Limits::max()) {
        if (errors) {
            errors->reportConversionError(JsonType::Number);
        }
        return;
    }
    reflectable = static_cast<Type>(number);''', '''    using Underlying = typename std::underlying_type<Type>::type;
    constexpr auto lowest = std::numeric_limits<Underlying>::min();
    constexpr auto highest = std::numeric_limits<Underlying>::max();
    if (number >= lowest && number <= highest) {
        reflectable = static_cast<Type>(static_cast<Underlying>(number));
    } else if (errors) {
        errors->reportConversionError(JsonType::Number);
    }'''))

ref("fromjson-pull-value", J, ('''    if (!doc.IsArray()) {
        if (errors) {
            errors->reportTypeMismatch<Type>(doc.GetType());
        }
        return Type();
    }

    Type res;
    pull<Type>(res, doc.GetArray(), errors);
    return res;''', '''    Type res;
    if (doc.IsArray()) {
        pull<Type>(res, doc.GetArray(), errors);
    } else if (errors) {
        errors->reportTypeMismatch<Type>(doc.GetType());
    }
    return res;'''))

ref("parse-haserror", J, ('''    const RAPIDJSON_NAMESPACE::ParseResult parseRes = document.Parse(json, jsonSize);
    if (parseRes.IsError()) {
        throw parseRes;
    }
    return document;''', '''    document.Parse(json, jsonSize);
    if (!document.HasParseError()) {
        return document;
    }
    throw RAPIDJSON_NAMESPACE::ParseResult(document.GetParseError(), document.GetErrorOffset());'''))

ref("parse-operator-bool", J, ('''    const RAPIDJSON_NAMESPACE::ParseResult parseRes = document.Parse(json, jsonSize);
    if (parseRes.IsError()) {
        throw parseRes;
    }''', '''    if (const RAPIDJSON_NAMESPACE::ParseResult parseRes = document.Parse(json, jsonSize); !parseRes) {
        throw parseRes;
    }'''))

ref("push-map-structured", J, ('''    for (const auto &item : reflectable) {
        // copy the key so the document does not depend on the lifetime of the reflectable
        auto memberName = RAPIDJSON_NAMESPACE::Value(item.first.data(), rapidJsonSize(item.first.size()), allocator);
        auto memberValue = RAPIDJSON_NAMESPACE::Value();
        push(item.second, memberValue, allocator);
        value.AddMember(memberName, memberValue, allocator);
    }''', '''    for (const auto &[key, mapped] : reflectable) {
        RAPIDJSON_NAMESPACE::Value memberValue;
        push(mapped, memberValue, allocator);
        RAPIDJSON_NAMESPACE::Value memberName;
        memberName.SetString(key.data(), rapidJsonSize(key.size()), allocator);
        value.AddMember(memberName, memberValue, allocator);
    }'''))

ref("push-multimap-if-else", J, ('''        auto newArrayValue = RAPIDJSON_NAMESPACE::Value{ RAPIDJSON_NAMESPACE::kArrayType };
        RAPIDJSON_NAMESPACE::Value::Array array = arrayAlreadyExists ? existingMember->value.GetArray() : newArrayValue.GetArray();
        push(item.second, array, allocator);
        if (!arrayAlreadyExists) {
            value.AddMember(memberName, newArrayValue, allocator);
        }''', '''        if (arrayAlreadyExists) {
            auto existingArray = existingMember->value.GetArray();
            push(item.second, existingArray, allocator);
            continue;
        }
        auto newArrayValue = RAPIDJSON_NAMESPACE::Value{ RAPIDJSON_NAMESPACE::kArrayType };
        auto array = newArrayValue.GetArray();
        push(item.second, array, allocator);
        value.AddMember(memberName, newArrayValue, allocator);'''))

ref("push-array-iterator", J, ('''    array.Reserve(rapidJsonSize(reflectable.size()), allocator);
    for (const auto &item : reflectable) {
        push(item, array, allocator);
    }''', '''    const auto size = rapidJsonSize(reflectable.size());
    array.Reserve(size, allocator);
    for (auto i = reflectable.begin(), end = reflectable.end(); i != end; ++i) {
        push(*i, array, allocator);
    }'''))

ref("push-ptr-inverted", J, ('''    if (!reflectable) {
        value.SetNull();
        return;
    }
    push(*reflectable, value, allocator);''', '''    if (reflectable) {
        push(*reflectable, value, allocator);
    } else {
        value.SetNull();
    }'''))

ref("push-tuple-apply", J, ('''    Detail::TuplePushHelper<Type, std::tuple_size<Type>::value>::push(reflectable, array, allocator);''',
'''    std::apply([&array, &allocator](const auto &...elements) { (JsonReflector::push(elements, array, allocator), ...); }, reflectable);'''))

ref("push-string-local", J, ('''    value.SetString(reflectable.data(), rapidJsonSize(reflectable.size()), allocator);
}

/*!
 * \\brief Pushes the specified iteratable (eg. std::vector, std::list) to the specified value.''', '''    const auto length = rapidJsonSize(reflectable.size());
    const char *const data = reflectable.c_str();
    value = RAPIDJSON_NAMESPACE::Value(data, length, allocator);
}

/*!
 * \\brief Pushes the specified iteratable (eg. std::vector, std::list) to the specified value.'''))

ref("push-variant-order", J, ('''    RAPIDJSON_NAMESPACE::Value index, data;
    index.SetUint64(reflectable.index());
    std::visit(''', '''    RAPIDJSON_NAMESPACE::Value data;
    RAPIDJSON_NAMESPACE::Value index(static_cast<std::uint64_t>(reflectable.index()));
    std::visit('''))

ref("todoc-helper", J, ('''    auto document(toJsonDocument<Type>(reflectable));
    return serializeJsonDocToString(document);''', '''    RAPIDJSON_NAMESPACE::Document document = toJsonDocument<Type>(reflectable);
    auto buffer = serializeJsonDocToString(document);
    return buffer;'''))

ref("rapidjsonsize-min", J, ('''    return size > std::numeric_limits<RAPIDJSON_NAMESPACE::SizeType>::max() ? std::numeric_limits<RAPIDJSON_NAMESPACE::SizeType>::max()
                                                                            : static_cast<RAPIDJSON_NAMESPACE::SizeType>(size);''',
'''    constexpr auto limit = std::numeric_limits<RAPIDJSON_NAMESPACE::SizeType>::max();
    if (size <= limit) {
        return static_cast<RAPIDJSON_NAMESPACE::SizeType>(size);
    }
    return limit;'''))

ref("errors-report-helper", E, ('''private:
    void throwMaybe(ThrowOn on) const;
''', '''private:
    void throwMaybe(ThrowOn on) const;
    void report(JsonDeserializationErrorKind kind, JsonType expectedType, JsonType actualType, ThrowOn on)
    {
        push_back(JsonDeserializationError(kind, expectedType, actualType, currentRecord, currentMember, currentIndex));
        throwMaybe(on);
    }
'''), ('''    emplace_back(JsonDeserializationErrorKind::ArraySizeMismatch, JsonType::Array, JsonType::Array, currentRecord, currentMember, currentIndex);
    throwMaybe(ThrowOn::ArraySizeMismatch);''', '''    report(JsonDeserializationErrorKind::ArraySizeMismatch, JsonType::Array, JsonType::Array, ThrowOn::ArraySizeMismatch);'''),
('''    emplace_back(JsonDeserializationErrorKind::ConversionError, jsonType, jsonType, currentRecord, currentMember, currentIndex);
    throwMaybe(ThrowOn::ConversionError);''', '''    report(JsonDeserializationErrorKind::ConversionError, jsonType, jsonType, ThrowOn::ConversionError);'''))

ref("errors-throw-early", E, ('''    if (static_cast<std::uint8_t>(throwOn) & static_cast<std::uint8_t>(on)) {
        throw back();
    }''', '''    const auto mask = static_cast<std::uint8_t>(throwOn);
    const auto flag = static_cast<std::uint8_t>(on);
    if ((mask & flag) == 0) {
        return;
    }
    throw back();'''))

ref("errors-jsontype-if", E, ('''    switch (type) {
    case RAPIDJSON_NAMESPACE::kFalseType:
    case RAPIDJSON_NAMESPACE::kTrueType:
        return JsonType::Bool;
    case RAPIDJSON_NAMESPACE::kObjectType:
        return JsonType::Object;
    case RAPIDJSON_NAMESPACE::kArrayType:
        return JsonType::Array;
    case RAPIDJSON_NAMESPACE::kStringType:
        return JsonType::String;
    case RAPIDJSON_NAMESPACE::kNumberType:
        return JsonType::Number;
    default:
        return JsonType::Null;
    }''', '''    auto result = JsonType::Null;
    switch (type) {
    case RAPIDJSON_NAMESPACE::kStringType:
        result = JsonType::String;
        break;
    case RAPIDJSON_NAMESPACE::kArrayType:
        result = JsonType::Array;
        break;
    case RAPIDJSON_NAMESPACE::kNumberType:
        result = JsonType::Number;
        break;
    case RAPIDJSON_NAMESPACE::kObjectType:
        result = JsonType::Object;
        break;
    case RAPIDJSON_NAMESPACE::kTrueType:
    case RAPIDJSON_NAMESPACE::kFalseType:
        result = JsonType::Bool;
        break;
    case RAPIDJSON_NAMESPACE::kNullType:
        break;
    }
    return result;'''))

ref("chrono-check-first", C, ('''    std::string str;
    pull(str, value, errors);
    if (!value.IsString()) {
        return; // type mismatch has already been reported
    }
    if (str.find('\\0') != std::string::npos) {
        // treat everything after a null character as invalid as well (and not as end of the string)
        if (errors) {
            errors->reportConversionError(JsonType::String);
        }
        return;
    }
    try {
        reflectable = CppUtilities::DateTime::fromIsoStringGmt(str.data());
    } catch (const CppUtilities::ConversionException &) {''', '''    if (!value.IsString()) {
        if (errors) {
            errors->reportTypeMismatch<std::string>(value.GetType());
        }
        return;
    }
    const std::string str(value.GetString(), value.GetStringLength());
    if (str.size() != std::strlen(str.c_str())) {
        if (errors != nullptr) {
            errors->reportConversionError(JsonType::String);
        }
        return;
    }
    try {
        const auto parsed = CppUtilities::DateTime::fromIsoStringGmt(str.c_str());
        reflectable = parsed;
    } catch (const CppUtilities::ConversionException &) {'''))

ref("chrono-getstring", C, ('''        reflectable = CppUtilities::TimeSpan::fromString(str.data());''', '''        reflectable = CppUtilities::TimeSpan::fromString(value.GetString());'''))

# --- binary
ref("bin-shared-find", B, ('''    // further occurrences: copy previous pointer
    try {
        pointer = std::any_cast<Type>(m_pointer[id]);
    } catch (const std::bad_any_cast &) {
        throw CppUtilities::ConversionException("Referenced pointer type does not match");
    }''', '''    // further occurrences: copy previous pointer
    const auto existing = m_pointer.find(id);
    const auto *const previous = existing != m_pointer.end() ? std::any_cast<Type>(&existing->second) : nullptr;
    if (!previous) {
        throw CppUtilities::ConversionException("Referenced pointer type does not match");
    }
    pointer = *previous;'''))

ref("bin-shared-any-ptr", B, ('''    try {
        pointer = std::any_cast<Type>(m_pointer[id]);
    } catch (const std::bad_any_cast &) {
        throw CppUtilities::ConversionException("Referenced pointer type does not match");
    }''', '''    if (const auto *const previous = std::any_cast<Type>(&m_pointer[id])) {
        pointer = *previous;
    } else {
        throw CppUtilities::ConversionException("Referenced pointer type does not match");
    }'''))

ref("bin-shared-new-local", B, ('''        m_pointer[id] = pointer = std::make_shared<typename Type::element_type>();
        read(*pointer);
        return;''', '''        pointer = std::make_shared<typename Type::element_type>();
        m_pointer.insert_or_assign(id, pointer);
        read(*pointer);
        return;'''))

ref("bin-shared-write-insert", B, ('''    auto &alreadyWritten = m_pointer[id];
    std::uint8_t mode = alreadyWritten ? 2 : 1;
    if (bigId) {
        mode = mode | 0x4; // "flag" 3rd bit to indicate big ID
    }
    writeByte(mode);''', '''    const auto firstOccurrence = m_pointer.try_emplace(id, true).second;
    const auto alreadyWritten = !firstOccurrence;
    writeByte(static_cast<std::uint8_t>((firstOccurrence ? 1 : 2) | (bigId ? 0x4 : 0)));'''),
    ('''    if (!alreadyWritten) {
        alreadyWritten = true;
        write(*pointer);
    }''', '''    if (!alreadyWritten) {
        write(*pointer);
    }'''))

ref("bin-shared-write-mode", B, ('''    std::uint8_t mode = alreadyWritten ? 2 : 1;
    if (bigId) {
        mode = mode | 0x4; // "flag" 3rd bit to indicate big ID
    }
    writeByte(mode);
    if (bigId) {
        writeUInt64BE(id);
    } else {
        writeVariableLengthUIntBE(id);
    }''', '''    const std::uint8_t mode = alreadyWritten ? 2 : 1;
    if (bigId) {
        writeByte(static_cast<std::uint8_t>(mode + 4));
        writeUInt64BE(id);
    } else {
        writeByte(mode);
        writeVariableLengthUIntBE(id);
    }'''))

ref("bin-map-while", B, ('''    for (size_t i = 0; i != size; ++i) {
        std::pair<typename std::remove_const<typename Type::value_type::first_type>::type, typename Type::value_type::second_type> value;
        read(value);
        iteratable.emplace(std::move(value));
    }''', '''    for (auto remaining = size; remaining; --remaining) {
        typename std::remove_const<typename Type::value_type::first_type>::type key;
        typename Type::value_type::second_type mapped;
        read(key);
        read(mapped);
        iteratable.emplace(std::move(key), std::move(mapped));
    }'''))

ref("bin-set-insert", B, ('''        typename Type::value_type value;
        read(value);
        iteratable.emplace(std::move(value));''', '''        auto value = typename Type::value_type();
        read(value);
        iteratable.insert(std::move(value));'''))

ref("bin-vector-index", B, ('''    iteratable.resize(size);
    for (auto &element : iteratable) {
        read(element);
    }''', '''    iteratable.resize(size);
    for (auto i = iteratable.begin(), end = iteratable.end(); i != end; ++i) {
        read(*i);
    }'''))

ref("bin-optional-local", B, ('''    if (readBool()) {
        read(opt.emplace());
    } else {
        opt.reset();
    }''', '''    const auto present = readBool();
    opt.reset();
    if (!present) {
        return;
    }
    read(opt.emplace());'''))

ref("bin-unique-write", B, ('''    writeBool(static_cast<bool>(opt));
    if (opt) {
        write(*opt);
    }''', '''    if (!opt) {
        writeBool(false);
        return;
    }
    writeBool(true);
    write(*opt);'''))

ref("bin-variant-switch", B, ('''        if (compiletimeIndex == runtimeIndex) {
            if constexpr (std::is_same_v<std::variant_alternative_t<compiletimeIndex, Variant>, std::monostate>) {
                variant = std::monostate{};
            } else {
                deserializer.read(variant.template emplace<compiletimeIndex>());
            }
        } else {
            readVariantValueByRuntimeIndex<Variant, compiletimeIndex + 1>(runtimeIndex, variant, deserializer);
        }''', '''        if (runtimeIndex != compiletimeIndex) {
            readVariantValueByRuntimeIndex<Variant, compiletimeIndex + 1>(runtimeIndex, variant, deserializer);
            return;
        }
        if constexpr (std::is_same_v<std::variant_alternative_t<compiletimeIndex, Variant>, std::monostate>) {
            variant.template emplace<compiletimeIndex>();
        } else {
            auto &alternative = variant.template emplace<compiletimeIndex>();
            deserializer.read(alternative);
        }'''))

ref("bin-enum-cast", B, ('''    write(static_cast<typename std::underlying_type<Type>::type>(enumValue));''', '''    const auto value = static_cast<std::underlying_type_t<Type>>(enumValue);
    write(value);'''))

ref("bin-timespan", "lib/binary/reflector-chronoutilities.h", ('''    serializer.write(timeSpan.totalTicks());''', '''    const std::int64_t ticks = timeSpan.totalTicks();
    serializer.writeInt64BE(ticks);'''))

V = "lib/versioning.h"
ref("versioning-ternary", V, ('''        if (!version) {
            version = serializationDefault;
        }
        return version;''', '''        version = version == 0 ? serializationDefault : version;
        return version;'''), ('''        return version <= maxSupported;''', '''        return !(version > maxSupported);'''))
ref("versioning-assert", V, ('''        if (!isSupported(version)) {
            throw typename Type::VersionNotSupported({ .presentVersion = version, .maxVersion = maxSupported, .record = record });
        }''', '''        if (isSupported(version)) {
            return;
        }
        typename Type::VersionNotSupported error;
        error.presentVersion = version;
        error.maxVersion = maxSupported;
        error.record = record;
        throw error;'''))
S = "lib/binary/serializable.h"
ref("binary-entry-local", S, ('''    BinaryReflector::BinarySerializer(&outputStream).write(static_cast<const Type &>(*this), version);''',
'''    auto serializer = BinaryReflector::BinarySerializer(&outputStream);
    const auto &object = static_cast<const Type &>(*this);
    serializer.write(object, version);'''), ('''    return BinaryReflector::BinaryDeserializer(&inputStream).read(static_cast<Type &>(*this));''',
'''    BinaryReflector::BinaryDeserializer deserializer(&inputStream);
    const auto version = deserializer.read(static_cast<Type &>(*this));
    return version;'''))
F = "lib/json/errorformatting.h"
ref("format-flat", F, ('''    if (error.record && error.member) {
        return errorKind % " within record \\"" % error.record % "\\" and member \\"" % error.member % '\\"' + additionalInfo;
    } else if (error.record && error.index''', '''    if (!error.record) {
        return errorKind % " in document" + additionalInfo;
    }
    if (error.member) {
        return errorKind % " within record \\"" % error.record % "\\" and member \\"" % error.member % '\\"' + additionalInfo;
    } else if (error.record && error.index'''))

# ------------------------------------------------------------------------------------------------ code generator
G = "generator/"
GS, GJ, GB, GC, GF, GM, GN = (G + x + ".cpp" for x in ("serializationcodegenerator", "jsonserializationcodegenerator", "binaryserializationcodegenerator", "codegenerator",
                                                       "codefactory", "main", "consumer"))

ref("gen-relevant-push-back", GS, ('''        auto &relevantClass = relevantClasses.emplace_back(record->getQualifiedNameAsString(), record);
        computeRelevantClass(relevantClass);
        if (relevantClass.isRelevant != IsRelevant::Yes) {
            relevantClasses.pop_back();
        }''', '''        auto relevantClass = RelevantClass(record->getQualifiedNameAsString(), record);
        computeRelevantClass(relevantClass);
        if (relevantClass.isRelevant == IsRelevant::Yes) {
            relevantClasses.push_back(std::move(relevantClass));
        }'''))

ref("gen-additional-any-of", GJ, ('''    for (const char *const className : m_options.additionalClassesArg.values()) {
        if (className == possiblyRelevantClass.qualifiedName) {
            possiblyRelevantClass.isRelevant = IsRelevant::Yes;
            return;
        }
    }''', '''    const auto &classNames = m_options.additionalClassesArg.values();
    if (std::any_of(classNames.begin(), classNames.end(), [&](const char *className) { return possiblyRelevantClass.qualifiedName == className; })) {
        possiblyRelevantClass.isRelevant = IsRelevant::Yes;
    }'''), ('#include <iostream>', '#include <algorithm>\n#include <iostream>'))

ref("gen-additional-find", GB, ('''    for (const char *const className : m_options.additionalClassesArg.values()) {
        if (className == possiblyRelevantClass.qualifiedName) {
            possiblyRelevantClass.isRelevant = IsRelevant::Yes;
            return;
        }
    }''', '''    const auto &classNames = m_options.additionalClassesArg.values();
    if (std::find(classNames.cbegin(), classNames.cend(), possiblyRelevantClass.qualifiedName) != classNames.cend()) {
        possiblyRelevantClass.isRelevant = IsRelevant::Yes;
    }'''), ('#include <iostream>', '#include <algorithm>\n#include <iostream>'))

ref("gen-additional-nested-if", GB, ('''    if (possiblyRelevantClass.isRelevant != IsRelevant::Maybe) {
        return;
    }

    // consider all classes specified via "--additional-classes" argument relevant
    if (!m_options.additionalClassesArg.isPresent()) {
        return;
    }
    for (const char *const className : m_options.additionalClassesArg.values()) {
        if (className == possiblyRelevantClass.qualifiedName) {
            possiblyRelevantClass.isRelevant = IsRelevant::Yes;
            return;
        }
    }''', '''    if (possiblyRelevantClass.isRelevant == IsRelevant::Maybe && m_options.additionalClassesArg.isPresent()) {
        // consider all classes specified via "--additional-classes" argument relevant
        for (std::size_t i = 0; i < m_options.additionalClassesArg.values().size(); ++i) {
            if (possiblyRelevantClass.qualifiedName == m_options.additionalClassesArg.values()[i]) {
                possiblyRelevantClass.isRelevant = IsRelevant::Yes;
                break;
            }
        }
    }'''))

ref("gen-only-included-steps", GC, ('''    return m_sourceManager
        && m_sourceManager->getFileID(m_sourceManager->getExpansionLoc(declaration->getSourceRange().getBegin())) != m_sourceManager->getMainFileID();''',
'''    if (!m_sourceManager) {
        return false;
    }
    const auto location = m_sourceManager->getExpansionLoc(declaration->getSourceRange().getBegin());
    const auto fileId = m_sourceManager->getFileID(location);
    return !(fileId == m_sourceManager->getMainFileID());'''))

ref("gen-only-included-begin-loc", GC, ('declaration->getSourceRange().getBegin()', 'declaration->getBeginLoc()'))

ref("gen-instantiation-continue", GC, ('''        if (baseDecl && baseDecl->getQualifiedNameAsString() == templateClass) {
            return &base;
        }
    }
    return nullptr;''', '''        if (!baseDecl) {
            continue;
        }
        const auto name = baseDecl->getQualifiedNameAsString();
        if (name != templateClass) {
            continue;
        }
        return &base;
    }
    return nullptr;'''))

ref("gen-instantiation-single-exit", GC, ('''    for (clang::CXXBaseSpecifier &base : record->bases()) {
        clang::CXXRecordDecl *const baseDecl = base.getType()->getAsCXXRecordDecl();
        if (baseDecl && baseDecl->getQualifiedNameAsString() == templateClass) {
            return &base;
        }
    }
    return nullptr;''', '''    clang::CXXBaseSpecifier *res = nullptr;
    for (clang::CXXBaseSpecifier &base : record->bases()) {
        clang::CXXRecordDecl *const baseDecl = base.getType()->getAsCXXRecordDecl();
        if (baseDecl && baseDecl->getQualifiedNameAsString() == templateClass) {
            res = &base;
            break;
        }
    }
    return res;'''))

ref("gen-source-manager-local", GC, ('''    if (factory().compilerInstance()) {
        m_sourceManager = &factory().compilerInstance()->getSourceManager();
    }''', '''    auto *const compilerInstance = factory().compilerInstance();
    if (compilerInstance == nullptr) {
        return;
    }
    m_sourceManager = &compilerInstance->getSourceManager();'''))

ref("gen-declarations-if", GS, ('''    switch (decl->getKind()) {
    case clang::Decl::Kind::CXXRecord:
    case clang::Decl::Kind::ClassTemplateSpecialization: {
''', '''    const auto kind = decl->getKind();
    if (kind == clang::Decl::Kind::CXXRecord || kind == clang::Decl::Kind::ClassTemplateSpecialization) {
'''), ('''        m_records.emplace_back(record);
    } break;
    case clang::Decl::Kind::Enum:
        // TODO: add enums
        break;
    default:;
    }''', '''        m_records.push_back(record);
    }'''))

ref("gen-declarations-helper", GS, ('''void SerializationCodeGenerator::addDeclaration(clang::Decl *decl)
{''', '''static clang::CXXRecordDecl *adaptedClass(const clang::TemplateArgumentList &templateArgs)
{
    if (templateArgs.size() != 1) {
        return nullptr;
    }
    const auto &templateArg = templateArgs[0];
    return templateArg.getKind() == clang::TemplateArgument::Type ? templateArg.getAsType()->getAsCXXRecordDecl() : nullptr;
}

void SerializationCodeGenerator::addDeclaration(clang::Decl *decl)
{'''), ('''                const auto &templateArgs = templateSpecializationRecord->getTemplateArgs();
                if (templateArgs.size() != 1 || templateArgs.get(0).getKind() != clang::TemplateArgument::Type) {
                    return; // FIXME: use Clang diagnostics to print warning
                }
                // get the type the template argument refers to (that's the type of the 3rd party class/struct to adapt)
                auto *const templateRecord = templateArgs.get(0).getAsType()->getAsCXXRecordDecl();
                if (!templateRecord) {
                    return; // FIXME: use Clang diagnostics to print warning
                }
                // save the relevant information for the code generation
                m_adaptionRecords.emplace_back(templateRecord->getQualifiedNameAsString(), templateSpecializationRecord);
                return;''', '''                if (auto *const templateRecord = adaptedClass(templateSpecializationRecord->getTemplateArgs())) {
                    m_adaptionRecords.emplace_back(templateRecord->getQualifiedNameAsString(), templateSpecializationRecord);
                }
                return;'''))

ref("gen-declarations-cast", GS, ('''        if (m_qualifiedNameOfAdaptionRecords && decl->getKind() == clang::Decl::Kind::ClassTemplateSpecialization) {
            auto *const templateSpecializationRecord = static_cast<clang::ClassTemplateSpecializationDecl *>(decl);''',
'''        auto *const templateSpecializationRecord
            = m_qualifiedNameOfAdaptionRecords ? llvm::dyn_cast<clang::ClassTemplateSpecializationDecl>(decl) : nullptr;
        if (templateSpecializationRecord) {'''))

ref("gen-relevant-order-of-checks", GS, ('''        // skip all adaption records which are only included
        if (isOnlyIncluded(adaptionRecord.record)) {
            continue;
        }
        if (adaptionRecord.qualifiedName == possiblyRelevantClass.qualifiedName) {''', '''        if (adaptionRecord.qualifiedName == possiblyRelevantClass.qualifiedName && !isOnlyIncluded(adaptionRecord.record)) {'''))

ref("gen-relevant-negated", GS, ('''    if (const auto *const relevantBase = inheritsFromInstantiationOf(possiblyRelevantClass.record, m_qualifiedNameOfRecords)) {
        auto policy''', '''    const auto *const relevantBase = inheritsFromInstantiationOf(possiblyRelevantClass.record, m_qualifiedNameOfRecords);
    if (relevantBase != nullptr) {
        auto policy'''))

ref("gen-bases-any-of", GS, ('''        bool coveredByAnotherBase = false;
        for (const RelevantClass &intermediateClass : relevantBases) {
            if (relevantClass.record->isDerivedFrom(intermediateClass.record) && intermediateClass.record->isDerivedFrom(otherClass.record)) {
                coveredByAnotherBase = true;
                break;
            }
        }
        if (!coveredByAnotherBase) {''', '''        const auto coveredByAnotherBase = std::any_of(relevantBases.begin(), relevantBases.end(), [&](const RelevantClass &intermediateClass) {
            return intermediateClass.record->isDerivedFrom(otherClass.record) && relevantClass.record->isDerivedFrom(intermediateClass.record);
        });
        if (!coveredByAnotherBase) {'''), ('#include <iostream>', '#include <algorithm>\n#include <iostream>'))

FRIENDS = '''        bool pushPrivateMembers = false, pullPrivateMembers = false;
        for (const clang::FriendDecl *const friendDecl : relevantClass.record->friends()) {
            // get the actual declaration which must be a function
            const clang::NamedDecl *const actualFriendDecl = friendDecl->getFriendDecl();
            if (!actualFriendDecl || actualFriendDecl->getKind() != clang::Decl::Kind::Function) {
                continue;
            }
            // check whether the friend function matches the push/pull helper function
            const string friendName(actualFriendDecl->getQualifiedNameAsString());
            if (friendName == "ReflectiveRapidJSON::JsonReflector::push") {
                pushPrivateMembers = true;
            }
            if (friendName == "ReflectiveRapidJSON::JsonReflector::pull") {
                pullPrivateMembers = true;
            }
            if (pushPrivateMembers && pullPrivateMembers) {
                break;
            }
        }
'''
ref("gen-friends-helper", GJ, (FRIENDS, '''        const auto pushPrivateMembers = hasFriend(*relevantClass.record, "ReflectiveRapidJSON::JsonReflector::push");
        const auto pullPrivateMembers = hasFriend(*relevantClass.record, "ReflectiveRapidJSON::JsonReflector::pull");
'''), ('''/*!
 * \\brief Generates pull()''', '''static bool hasFriend(const clang::CXXRecordDecl &record, const char *name)
{
    for (const clang::FriendDecl *const friendDecl : record.friends()) {
        const clang::NamedDecl *const actualFriendDecl = friendDecl->getFriendDecl();
        if (actualFriendDecl && actualFriendDecl->getKind() == clang::Decl::Kind::Function && actualFriendDecl->getQualifiedNameAsString() == name) {
            return true;
        }
    }
    return false;
}

/*!
 * \\brief Generates pull()'''))

ref("gen-friends-else-if", GJ, (FRIENDS, '''        auto pushPrivateMembers = false, pullPrivateMembers = false;
        for (const auto *const friendDecl : relevantClass.record->friends()) {
            const auto *const function = llvm::dyn_cast_or_null<clang::FunctionDecl>(friendDecl->getFriendDecl());
            if (!function || function->getKind() != clang::Decl::Kind::Function) {
                continue;
            }
            const auto friendName = function->getQualifiedNameAsString();
            if (friendName == "ReflectiveRapidJSON::JsonReflector::push") {
                pushPrivateMembers = true;
            } else if (friendName == "ReflectiveRapidJSON::JsonReflector::pull") {
                pullPrivateMembers = true;
            }
        }
'''))

ref("gen-members-early-continue", GJ, ('''            if (pushPrivateMembers || field->getAccess() == clang::AS_public) {
                os << "    push(reflectable." << field->getName() << ", \\"" << field->getName() << "\\", value, allocator);\\n";
                pushWritten = true;
            }''', '''            if (!pushPrivateMembers && field->getAccess() != clang::AS_public) {
                continue;
            }
            const auto fieldName = field->getName();
            os << "    push(reflectable." << fieldName << ", \\"";
            os << fieldName << "\\", value, allocator);" << '\\n';
            pushWritten = true;'''))

ref("gen-members-written-comparison", GJ, ('''            // skip const members
            if (field->getType().isConstant(field->getASTContext())) {
                continue;
            }
            if (pullPrivateMembers || field->getAccess() == clang::AS_public) {''', '''            const auto accessible = field->getAccess() == clang::AS_public || pullPrivateMembers;
            if (accessible && !field->getType().isConstant(field->getASTContext())) {'''))

ref("gen-base-code-helper", GJ, ('''            os << "    push(static_cast<const ::" << baseClass->qualifiedName << " &>(reflectable), value, allocator);\\n";''',
'''            writeBase(os, "push", "const ", *baseClass, "allocator");'''), ('''            os << "    pull(static_cast<::" << baseClass->qualifiedName << " &>(reflectable), value, errors);\\n";''',
'''            writeBase(os, "pull", "", *baseClass, "errors");'''), ('''/*!
 * \\brief Generates pull()''', '''template <typename ClassType> static void writeBase(ostream &os, const char *function, const char *qualifier, const ClassType &baseClass, const char *lastArgument)
{
    os << "    " << function << "(static_cast<" << qualifier << "::" << baseClass.qualifiedName << " &>(reflectable), value, " << lastArgument << ");\\n";
}

/*!
 * \\brief Generates pull()'''))

ref("gen-visibility-ternary", GJ, ('''    const char *visibility = m_options.visibilityArg.firstValue();
    if (!visibility) {
        visibility = "";
    }''', '''    const char *const specifiedVisibility = m_options.visibilityArg.firstValue();
    const char *const visibility = specifiedVisibility ? specifiedVisibility : "";'''))

ref("gen-markers-helper", GB, ('''    const auto declarationName = declarator->getName();
    const auto isAsOfVersion = startsStrRefWith<llvm::StringRef>(declarationName, "rrjAsOfVersion");
    if (isAsOfVersion || startsStrRefWith<llvm::StringRef>(declarationName, "rrjUntilVersion")) {
        auto v = RetrieveIntegerLiteralFromDeclaratorDecl(declarator->getASTContext());
        v.TraverseDecl(declarator);
        if (v.success) {
            if (isAsOfVersion) {
                asOfVersion = v.res;
                if (asOfVersion > untilVersion) {
                    untilVersion = 0;
                }
            } else {
                untilVersion = v.res;
                if (untilVersion < asOfVersion) {
                    asOfVersion = 0;
                }
            }
        }
    }
    return true;''', '''    const auto isAsOfVersion = startsStrRefWith<llvm::StringRef>(declarator->getName(), "rrjAsOfVersion");
    const auto isUntilVersion = startsStrRefWith<llvm::StringRef>(declarator->getName(), "rrjUntilVersion");
    if (!isAsOfVersion && !isUntilVersion) {
        return true;
    }
    auto v = RetrieveIntegerLiteralFromDeclaratorDecl(declarator->getASTContext());
    v.TraverseDecl(declarator);
    if (!v.success) {
        return true;
    }
    if (isAsOfVersion) {
        asOfVersion = v.res;
        untilVersion = untilVersion < asOfVersion ? 0 : untilVersion;
    } else {
        untilVersion = v.res;
        asOfVersion = asOfVersion > untilVersion ? 0 : asOfVersion;
    }
    return true;'''))

ref("gen-version-condition", GB, ('''    if (asOfVersion == lastAsOfVersion && untilVersion == lastUntilVersion) {
        return;
    }
    concludeCondition(os);
    lastAsOfVersion = asOfVersion;
    lastUntilVersion = untilVersion;
    if ((withinCondition = asOfVersion || untilVersion)) {
        os << "    if (";
        if (asOfVersion) {
            os << "version >= " << asOfVersion;
            if (untilVersion) {
                os << " && ";
            }
        }
        if (untilVersion) {
            os << "version <= " << untilVersion;
        }
        os << ") {\\n";
    }''', '''    if (asOfVersion != lastAsOfVersion || untilVersion != lastUntilVersion) {
        concludeCondition(os);
        lastAsOfVersion = asOfVersion;
        lastUntilVersion = untilVersion;
        withinCondition = true;
        if (asOfVersion && untilVersion) {
            os << "    if (version >= " << asOfVersion << " && version <= " << untilVersion << ") {\\n";
        } else if (asOfVersion) {
            os << "    if (version >= " << asOfVersion << ") {\\n";
        } else if (untilVersion) {
            os << "    if (version <= " << untilVersion << ") {\\n";
        } else {
            withinCondition = false;
        }
    }'''))

ref("gen-literal-nested", GB, ('''    if (st->getStmtClass() != clang::Stmt::IntegerLiteralClass) {
        return true;
    }
    const auto *const integerLiteral = static_cast<const clang::IntegerLiteral *>(st);''', '''    const auto isLiteral = st->getStmtClass() == clang::Stmt::IntegerLiteralClass;
    if (!isLiteral) {
        return true;
    }
    const auto *const integerLiteral = static_cast<const clang::IntegerLiteral *>(st);'''), ('''    if (asInt.getActiveBits() > 64) {
        return true;
    }
    res = asInt.getZExtValue();
    success = true;
    return false;''', '''    if (asInt.getActiveBits() <= 64) {
        success = true;
        res = asInt.getZExtValue();
        return false;
    }
    return true;'''))

ref("gen-field-order-of-checks", GB, ('''            // skip const members
            const auto *const field = static_cast<const clang::FieldDecl *>(decl);
            if (field->getType().isConstant(field->getASTContext())) {
                continue;
            }

            // skip private members conditionally
            if (!writePrivateMembers && field->getAccess() != clang::AS_public) {
                continue;
            }
''', '''            // skip private members conditionally and const members
            const auto *const field = static_cast<const clang::FieldDecl *>(decl);
            const auto accessible = writePrivateMembers || field->getAccess() == clang::AS_public;
            if (!accessible || field->getType().isConstant(field->getASTContext())) {
                continue;
            }
'''))

ref("gen-read-private-continue", GB, ('''            if (readPrivateMembers || field->getAccess() == clang::AS_public) {
                os << "    deserializer.read(customObject." << field->getName() << ", version);\\n";
                mt.membersWritten = true;
            }''', '''            if (!readPrivateMembers && field->getAccess() != clang::AS_public) {
                continue;
            }
            os << "    deserializer.read(customObject." << field->getName() << ", version);\\n";
            mt.membersWritten = true;'''))

ref("gen-read-private-before-condition", GB, ('''            // write version markers
            mt.writeVersionCondition(os);
            mt.writeExtraPadding(os);

            if (readPrivateMembers || field->getAccess() == clang::AS_public) {
                os << "    deserializer.read(customObject." << field->getName() << ", version);\\n";
                mt.membersWritten = true;
            }''', '''            if (!readPrivateMembers && field->getAccess() != clang::AS_public) {
                continue;
            }

            // write version markers
            mt.writeVersionCondition(os);
            mt.writeExtraPadding(os);

            os << "    deserializer.read(customObject." << field->getName() << ", version);\\n";
            mt.membersWritten = true;'''))

ref("gen-clang-args-loops", GF, ('''    clangArgs.insert(clangArgs.end(), flags.begin(), flags.end());
    clangArgs.insert(clangArgs.end(), m_clangOptions.cbegin(), m_clangOptions.cend());
    clangArgs.insert(clangArgs.end(), m_sourceFiles.cbegin(), m_sourceFiles.cend());''', '''    for (const auto &flag : flags) {
        clangArgs.emplace_back(flag);
    }
    for (const auto &option : m_clangOptions) {
        clangArgs.emplace_back(option);
    }
    for (const auto *const file : m_sourceFiles) {
        clangArgs.emplace_back(file);
    }'''))

ref("gen-factory-index", GF, ('''    for (const auto &generator : m_generators) {
        generator->generate(m_os);
    }''', '''    for (std::size_t i = 0, end = m_generators.size(); i != end; ++i) {
        m_generators[i]->generate(m_os);
    }'''), ('''    for (const auto &generator : m_generators) {
        generator->addDeclaration(decl);
    }''', '''    std::for_each(m_generators.begin(), m_generators.end(), [decl](const auto &generator) { generator->addDeclaration(decl); });'''),
    ('#include <memory>', '#include <algorithm>\n#include <memory>'))

ref("gen-factory-run", GF, ('''    // run Clang
    return m_toolInvocation->invocation.run();''', '''    // run Clang
    auto &invocation = m_toolInvocation->invocation;
    const auto res = invocation.run();
    return res;'''))

ref("gen-diagnostics-restructured", GN, ('''    bool shouldReset = false;
    if (m_errorResilient) {
        const auto diagId = info.getID();
        const auto category = info.getDiags()->getDiagnosticIDs()->getCategoryNumberForDiag(diagId);

        if (diagLevel >= clang::DiagnosticsEngine::Error) {
            if (category == 2 /* 2 means "Semantic Issue" */) {
                if (!m_realErrorCount) {
                    shouldReset = true;
                }
                diagLevel = clang::DiagnosticsEngine::Warning;
            } else {
                ++m_realErrorCount;
            }
        }
    }''', '''    auto shouldReset = false;
    if (m_errorResilient && diagLevel >= clang::DiagnosticsEngine::Error) {
        constexpr unsigned int semanticIssue = 2;
        const auto category = info.getDiags()->getDiagnosticIDs()->getCategoryNumberForDiag(info.getID());
        const auto isSemanticIssue = category == semanticIssue;
        if (!isSemanticIssue) {
            m_realErrorCount += 1;
        } else {
            shouldReset = m_realErrorCount == 0;
            diagLevel = clang::DiagnosticsEngine::Warning;
        }
    }'''))

ref("gen-main-options-helper", GM, ('''            for (const auto *const value : clangOptionsArg.values(0)) {
                // split options by ";" - not nice but this eases using CMake generator expressions
                const auto splittedValues = splitStringSimple<std::vector<std::string_view>>(value, ";");
                for (const auto &splittedValue : splittedValues) {
                    if (!splittedValue.empty()) {
                        clangOptions.emplace_back(splittedValue);
                    }
                }
            }''', '''            for (const auto *const value : clangOptionsArg.values(0)) {
                addOptions(clangOptions, value);
            }'''), ('''int main(int argc''', '''static void addOptions(std::vector<std::string_view> &clangOptions, const char *value)
{
    // split options by ";" - not nice but this eases using CMake generator expressions
    for (const auto &splittedValue : splitStringSimple<std::vector<std::string_view>>(value, ";")) {
        if (splittedValue.empty()) {
            continue;
        }
        clangOptions.push_back(splittedValue);
    }
}

int main(int argc'''))

ref("gen-main-find-generator", GM, ('''                try {
                    generatorsByName.at(generatorName)();
                } catch (const out_of_range &) {
                    cerr''', '''                const auto generator = generatorsByName.find(generatorName);
                if (generator != generatorsByName.end()) {
                    generator->second();
                } else {
                    cerr'''))

ref("gen-main-result", GM, ('''        if (!factory.run()) {
            cerr << Phrases::Error << "Errors occurred." << Phrases::EndFlush;
            return -2;
        }
''', '''        const auto success = factory.run();
        if (!success) {
            cerr << Phrases::Error << "Errors occurred." << Phrases::EndFlush;
            return -2;
        }
'''))

ref("gen-main-stream-ternary", GM, ('''        if (outputFileArg.isPresent()) {
            outputFile.exceptions(ios_base::badbit | ios_base::failbit);
            outputFile.open(outputFileArg.values(0).front(), ios_base::out | ios_base::trunc | ios_base::binary);
            os = &outputFile;
        } else {
            os = &cout;
        }
''', '''        const auto toFile = outputFileArg.isPresent();
        if (toFile) {
            const char *const path = outputFileArg.values(0)[0];
            outputFile.exceptions(ios_base::failbit | ios_base::badbit);
            outputFile.open(path, ios_base::trunc | ios_base::out | ios_base::binary);
        }
        os = toFile ? static_cast<ostream *>(&outputFile) : &cout;
'''))

# --- more of the library
H = "lib/json/reflector-boosthana.h"
HB = "lib/binary/reflector-boosthana.h"
JS = "lib/json/serializable.h"
T = "lib/traits.h"

ref("hana-accessors", H, ('''    boost::hana::for_each(boost::hana::keys(reflectable), [&reflectable, &value, &allocator](auto key) {
        push(boost::hana::at_key(reflectable, key), boost::hana::to<char const *>(key), value, allocator);
    });''', '''    boost::hana::for_each(boost::hana::keys(reflectable), [&](const auto &key) {
        const auto &member = boost::hana::at_key(reflectable, key);
        const char *const name = boost::hana::to<char const *>(key);
        push(member, name, value, allocator);
    });'''))

ref("hana-pull-local", H, ('''    boost::hana::for_each(boost::hana::keys(reflectable), [&reflectable, &value, &errors](auto key) {
        pull(boost::hana::at_key(reflectable, key), boost::hana::to<char const *>(key), value, errors);
    });''', '''    const auto keys = boost::hana::keys(reflectable);
    boost::hana::for_each(keys, [&reflectable, &value, errors](auto key) {
        auto &member = boost::hana::at_key(reflectable, key);
        pull(member, boost::hana::to<char const *>(key), value, errors);
    });'''))

ref("hana-binary-local", HB, ('''    boost::hana::for_each(boost::hana::keys(customType), [&](auto key) { deserializer.read(boost::hana::at_key(customType, key), version); });
    return version;''', '''    boost::hana::for_each(boost::hana::keys(customType), [&customType, &deserializer, version](auto key) {
        auto &member = boost::hana::at_key(customType, key);
        deserializer.read(member, version);
    });
    return version;'''))

ref("serializable-fromjson-forward", JS, ('''    return JsonReflector::fromJson<Type>(json, std::strlen(json), errors);''', '''    return fromJson(json, std::strlen(json), errors);'''),
    ('''    return JsonReflector::fromJson<Type>(json.data(), json.size(), errors);''', '''    return fromJson(json.c_str(), json.length(), errors);'''))

ref("serializable-tojson-local", JS, ('''    return JsonReflector::toJson<Type>(static_cast<const Type &>(*this));''', '''    const auto &object = static_cast<const Type &>(*this);
    return JsonReflector::toJson<Type>(object);'''))

ref("traits-not-aliases", T, ('''template <typename Type>
using IsIteratableExceptString = Traits::All<Traits::IsIteratable<Type>, Traits::Not<Traits::IsSpecializationOf<Type, std::basic_string>>,
    Traits::Not<Traits::IsSpecializationOf<Type, std::basic_string>>>;''', '''template <typename Type>
using IsIteratableExceptString = Traits::All<Traits::Not<Traits::IsSpecializationOf<Type, std::basic_string>>, Traits::IsIteratable<Type>>;'''))

ref("format-append", F, ('''    if (error.record && error.member) {
        return errorKind % " within record \\"" % error.record % "\\" and member \\"" % error.member % '\\"' + additionalInfo;
    } else if (error.record && error.index != JsonDeserializationError::noIndex) {
        return errorKind % " within record \\"" % error.record % "\\" and index \\"" % error.index % '\\"' + additionalInfo;
    } else if (error.record) {
        return errorKind % " within record \\"" % error.record % '\\"' + additionalInfo;
    } else {
        return errorKind % " in document" + additionalInfo;
    }''', '''    if (!error.record) {
        return errorKind % " in document" + additionalInfo;
    }
    if (error.member) {
        return errorKind % " within record \\"" % error.record % "\\" and member \\"" % error.member % '\\"' + additionalInfo;
    }
    if (error.index == JsonDeserializationError::noIndex) {
        return errorKind % " within record \\"" % error.record % '\\"' + additionalInfo;
    }
    return errorKind % " within record \\"" % error.record % "\\" and index \\"" % error.index % '\\"' + additionalInfo;'''))

ref("format-type-helper", F, ('''inline std::string formatJsonDeserializationError(const JsonDeserializationError &error)
{''', '''inline std::string formatTypes(const JsonDeserializationError &error)
{
    using namespace CppUtilities;
    return ": expected \\"" % jsonTypeToString(error.expectedType) % "\\", got \\"" % jsonTypeToString(error.actualType) + '\\"';
}

inline std::string formatJsonDeserializationError(const JsonDeserializationError &error)
{'''), ('''        additionalInfo = ": expected \\"" % jsonTypeToString(error.expectedType) % "\\", got \\"" % jsonTypeToString(error.actualType) + '\\"';''',
'''        additionalInfo = formatTypes(error);'''))

ref("number-pull-nested", J, ('''    if (value.Is<Type>()) {
        reflectable = value.Get<Type>();
        return;
    }
    const auto number = value.GetDouble();
    if (!Detail::isWithinRange<Type>(number)) {
        if (errors) {
            errors->reportConversionError(JsonType::Number);
        }
        return;
    }
    reflectable = static_cast<Type>(number);''', '''    if (value.Is<Type>()) {
        reflectable = value.Get<Type>();
    } else if (const auto number = value.GetDouble(); Detail::isWithinRange<Type>(number)) {
        reflectable = static_cast<Type>(number);
    } else if (errors) {
        errors->reportConversionError(JsonType::Number);
    }'''))

ref("bool-pull-inverted", J, ('''    if (!value.IsBool()) {
        if (errors) {
            errors->reportTypeMismatch<Type>(value.GetType());
        }
        return;
    }
    reflectable = value.GetBool();''', '''    if (value.IsBool()) {
        reflectable = value.IsTrue();
    } else if (errors) {
        errors->reportTypeMismatch<Type>(value.GetType());
    }'''))

ref("string-pull-construct", J, ('''    reflectable.assign(value.GetString(), value.GetStringLength());''', '''    const char *const begin = value.GetString();
    reflectable = std::string(begin, begin + value.GetStringLength());'''))

ref("member-find-while", J, ('''    const auto member = value.FindMember(name);
    if (member == value.MemberEnd()) {
        return; // TODO: handle member missing
    }
''', '''    if (!value.HasMember(name)) {
        return; // TODO: handle member missing
    }
    const auto member = value.FindMember(name);
'''))

ref("array-previous-index-if", J, ('''    // pull all array elements of the specified value
    const auto previousIndex = errors ? errors->currentIndex : JsonDeserializationError::noIndex;
    std::size_t index = 0;
    for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
        // set error context for current index
        if (errors) {
            errors->currentIndex = index;
        }
        ++index;
        reflectable.emplace_back();
        pull(reflectable.back(), item, errors);
    }''', '''    // pull all array elements of the specified value
    auto previousIndex = JsonDeserializationError::noIndex;
    if (errors) {
        previousIndex = errors->currentIndex;
    }
    for (RAPIDJSON_NAMESPACE::SizeType index = 0, size = array.Size(); index < size; ++index) {
        // set error context for current index
        if (errors) {
            errors->currentIndex = index;
        }
        auto &element = reflectable.emplace_back();
        pull(element, array[index], errors);
    }'''))

ref("multiset-insert", J, ('''        typename Type::value_type itemObj;
        pull(itemObj, item, errors);
        reflectable.emplace(std::move(itemObj));''', '''        auto itemObj = typename Type::value_type();
        pull(itemObj, item, errors);
        reflectable.insert(std::move(itemObj));'''))

ref("pair-bounds", J, ('''    if (array.Size() != 2) {''', '''    constexpr RAPIDJSON_NAMESPACE::SizeType expectedSize = 2;
    if (const auto size = array.Size(); size < expectedSize || size > expectedSize) {'''))

ref("unique-read-member-init", B, ('''    if (!readBool()) {
        pointer.reset();
        return;
    }
    pointer = std::make_unique<typename Type::element_type>();
    read(*pointer);''', '''    const auto present = readBool();
    if (present) {
        auto object = std::make_unique<typename Type::element_type>();
        read(*object);
        pointer = std::move(object);
    } else {
        pointer = nullptr;
    }'''))

ref("bin-enum-local", B, ('''    typename std::underlying_type<Type>::type value;
    read(value);
    enumValue = static_cast<Type>(value);''', '''    auto value = std::underlying_type_t<Type>();
    read(value);
    enumValue = Type(value);'''))

ref("bin-shared-switch", B, ('''    auto mode = readByte();
    if (!mode) {
        // pointer not set
        pointer.reset();
        return;
    }

    const auto id = (mode & 0x4) ? readUInt64BE() : readVariableLengthUIntBE(); // the 3rd bit being flagged indicates a big ID
    if ((mode & 0x3) == 1) {''', '''    const auto mode = readByte();
    if (mode == 0) {
        // pointer not set
        pointer = nullptr;
        return;
    }

    constexpr auto bigIdFlag = 0x4;
    std::uint64_t id;
    if ((mode & bigIdFlag) != 0) {
        id = readUInt64BE(); // the 3rd bit being flagged indicates a big ID
    } else {
        id = readVariableLengthUIntBE();
    }
    const auto firstOccurrence = (mode & 0x3) == 1;
    if (firstOccurrence) {'''))

ref("bin-variant-visit-helper", B, ('''    writeByte(static_cast<std::uint8_t>(variant.index()));
    std::visit(
        [this](const auto &valueOfActualType) {
            if constexpr (!std::is_same_v<std::decay_t<decltype(valueOfActualType)>, std::monostate>) {
                write(valueOfActualType);
            } else {
                CPP_UTILITIES_UNUSED(this)
            }
        },
        variant);''', '''    const auto index = variant.index();
    writeByte(static_cast<std::uint8_t>(index));
    const auto writeAlternative = [this](const auto &valueOfActualType) {
        using Alternative = std::decay_t<decltype(valueOfActualType)>;
        if constexpr (std::is_same_v<Alternative, std::monostate>) {
            CPP_UTILITIES_UNUSED(this)
        } else {
            write(valueOfActualType);
        }
    };
    std::visit(writeAlternative, variant);'''))

ref("versioning-supported-inverted", V, ('''        return version <= maxSupported;''', '''        return !(maxSupported < version);'''))

ref("push-optional-flow", J, ('''    if (!reflectable) {
        value.SetNull();
        return;
    }
''', '''    const bool present = static_cast<bool>(reflectable);
    if (!present) {
        value.SetNull();
        return;
    }
'''))

# --- more of the generator
ref("gen-json-base-index", GJ, ('''        for (const RelevantClass *baseClass : relevantBases) {
            os << "    push(static_cast<const ::" << baseClass->qualifiedName << " &>(reflectable), value, allocator);\\n";
        }''', '''        for (size_t i = 0, count = relevantBases.size(); i != count; ++i) {
            const auto &baseName = relevantBases[i]->qualifiedName;
            os << "    push(static_cast<const ::" << baseName << " &>(reflectable), value, allocator);\\n";
        }'''))

ref("gen-json-member-helper", GJ, ('''/*!
 * \\brief Generates pull() and push() helper functions in the ReflectiveRapidJSON::JsonReflector namespace for the relevant classes.
 */''', '''static void writeMember(std::ostream &os, const char *function, const clang::FieldDecl *field, const char *lastArgument)
{
    const auto name = field->getName();
    os << "    " << function << "(reflectable." << name << ", \\"" << name << "\\", value, " << lastArgument << ");\\n";
}

/*!
 * \\brief Generates pull() and push() helper functions in the ReflectiveRapidJSON::JsonReflector namespace for the relevant classes.
 */'''), ('''                os << "    push(reflectable." << field->getName() << ", \\"" << field->getName() << "\\", value, allocator);\\n";''',
'''                writeMember(os, "push", field, "allocator");'''),
    ('''                os << "    pull(reflectable." << field->getName() << ", \\"" << field->getName() << "\\", value, errors);\\n";''',
'''                writeMember(os, "pull", field, "errors");'''))

ref("gen-json-empty-flag", GJ, ('''        auto pushWritten = false;
        for (const clang::FieldDecl *field : relevantClass.record->fields()) {
            if (pushPrivateMembers || field->getAccess() == clang::AS_public) {
                os << "    push(reflectable." << field->getName() << ", \\"" << field->getName() << "\\", value, allocator);\\n";
                pushWritten = true;
            }
        }
        if (relevantBases.empty() && !pushWritten) {''', '''        auto nothingWritten = relevantBases.empty();
        for (const clang::FieldDecl *field : relevantClass.record->fields()) {
            const auto isPublic = field->getAccess() == clang::AS_public;
            if (!isPublic && !pushPrivateMembers) {
                continue;
            }
            os << "    push(reflectable." << field->getName() << ", \\"" << field->getName() << "\\", value, allocator);\\n";
            nothingWritten = false;
        }
        if (nothingWritten) {'''))

ref("gen-bin-members-helper", GB, ('''            // skip all further declarations but fields
            if (decl->getKind() != clang::Decl::Kind::Field) {
                continue;
            }

            // skip const members
            const auto *const field = static_cast<const clang::FieldDecl *>(decl);
            if (field->getType().isConstant(field->getASTContext())) {
                continue;
            }

            // skip private members conditionally
            if (!writePrivateMembers && field->getAccess() != clang::AS_public) {
                continue;
            }
''', '''            // skip all further declarations but fields, const members and (conditionally) private members
            const auto *const field = llvm::dyn_cast<clang::FieldDecl>(decl);
            if (!field || field->getType().isConstant(field->getASTContext()) || (field->getAccess() != clang::AS_public && !writePrivateMembers)) {
                continue;
            }
'''))

ref("gen-bin-condition-string", GB, ('''        os << "    if (";
        if (asOfVersion) {
            os << "version >= " << asOfVersion;
            if (untilVersion) {
                os << " && ";
            }
        }
        if (untilVersion) {
            os << "version <= " << untilVersion;
        }
        os << ") {\\n";''', '''        os << "    if (";
        if (asOfVersion && untilVersion) {
            os << "version >= " << asOfVersion << " && version <= " << untilVersion;
        } else if (asOfVersion) {
            os << "version >= " << asOfVersion;
        } else {
            os << "version <= " << untilVersion;
        }
        os << ") {\\n";'''))

ref("gen-bin-marker-else", GB, ('''            if (isAsOfVersion) {
                asOfVersion = v.res;
                if (asOfVersion > untilVersion) {
                    untilVersion = 0;
                }
            } else {
                untilVersion = v.res;
                if (untilVersion < asOfVersion) {
                    asOfVersion = 0;
                }
            }''', '''            (isAsOfVersion ? asOfVersion : untilVersion) = v.res;
            if (asOfVersion > untilVersion) {
                (isAsOfVersion ? untilVersion : asOfVersion) = 0;
            }'''))

ref("gen-bases-two-steps", GS, ('''    vector<const RelevantClass *> relevantBaseClasses;
    for (const RelevantClass &otherClass : relevantBases) {
        if (relevantClass.record == otherClass.record || !relevantClass.record->isDerivedFrom(otherClass.record)) {
            continue;
        }''', '''    vector<const RelevantClass *> relevantBaseClasses;
    const auto *const derived = relevantClass.record;
    for (size_t i = 0; i < relevantBases.size(); ++i) {
        const auto &otherClass = relevantBases[i];
        const auto isBase = derived != otherClass.record && derived->isDerivedFrom(otherClass.record);
        if (!isBase) {
            continue;
        }'''))

ref("gen-relevant-helper-adapted", GS, ('''    // consider all classes for which a specialization of the "AdaptedJsonSerializable" struct is available
    for (const auto &adaptionRecord : m_adaptionRecords) {
        // skip all adaption records which are only included
        if (isOnlyIncluded(adaptionRecord.record)) {
            continue;
        }
        if (adaptionRecord.qualifiedName == possiblyRelevantClass.qualifiedName) {
            possiblyRelevantClass.isRelevant = IsRelevant::Yes;
            return;
        }
    }
''', '''    // consider all classes for which a specialization of the "AdaptedJsonSerializable" struct is available (which is not only included)
    const auto isAdapted = [this, &possiblyRelevantClass] {
        for (const auto &adaptionRecord : m_adaptionRecords) {
            if (adaptionRecord.qualifiedName == possiblyRelevantClass.qualifiedName && !isOnlyIncluded(adaptionRecord.record)) {
                return true;
            }
        }
        return false;
    };
    if (isAdapted()) {
        possiblyRelevantClass.isRelevant = IsRelevant::Yes;
        return;
    }
'''))

ref("gen-relevant-classes-local", GS, ('''        auto &relevantClass = relevantClasses.emplace_back(record->getQualifiedNameAsString(), record);
        computeRelevantClass(relevantClass);
        if (relevantClass.isRelevant != IsRelevant::Yes) {
            relevantClasses.pop_back();
        }''', '''        auto relevantClass = RelevantClass(record->getQualifiedNameAsString(), record);
        computeRelevantClass(relevantClass);
        if (relevantClass.isRelevant == IsRelevant::Yes) {
            relevantClasses.emplace_back(std::move(relevantClass));
        }'''))

# ---------------------------------------------------------------------------------------------------------------------- further idioms
BT = "lib/binary/reflector-chronoutilities.h"
GD = "generator/frontendaction.cpp"

ref("reserve-via-value", J, ('''    auto array = value.GetArray();
    reflectable.reserve(array.Size());
    pull(reflectable, array, errors);''', '''    reflectable.reserve(value.Size());
    pull(reflectable, value.GetArray(), errors);'''))

ref("member-context-exchange", J, ('''    const char *previousMember = nullptr;
    if (errors) {
        previousMember = errors->currentMember;
        errors->currentMember = name;
    }

    // actually pull value for member
    pull<Type>(reflectable, member->value, errors);

    // restore previous error context
    if (errors) {
        errors->currentMember = previousMember;
    }''', '''    if (!errors) {
        pull<Type>(reflectable, member->value, errors);
        return;
    }
    const char *const previousMember = std::exchange(errors->currentMember, name);
    pull<Type>(reflectable, member->value, errors);
    errors->currentMember = previousMember;'''))

ref("member-context-scope", J, ('''    const char *previousMember = nullptr;
    if (errors) {
        previousMember = errors->currentMember;
        errors->currentMember = name;
    }

    // actually pull value for member
    pull<Type>(reflectable, member->value, errors);

    // restore previous error context
    if (errors) {
        errors->currentMember = previousMember;
    }''', '''    struct MemberScope {
        MemberScope(JsonDeserializationErrors *errors, const char *member)
            : errors(errors)
            , previousMember(errors ? errors->currentMember : nullptr)
        {
            if (errors) {
                errors->currentMember = member;
            }
        }
        ~MemberScope()
        {
            if (errors) {
                errors->currentMember = previousMember;
            }
        }
        JsonDeserializationErrors *errors;
        const char *previousMember;
    } scope(errors, name);
    pull<Type>(reflectable, member->value, errors);'''))

ref("array-index-assign-increment", J, ('''        // set error context for current index
        if (errors) {
            errors->currentIndex = index;
        }
        ++index;
        reflectable.emplace_back();
        pull(reflectable.back(), item, errors);''', '''        // set error context for current index
        if (errors) {
            errors->currentIndex = index++;
        }
        pull(reflectable.emplace_back(), item, errors);'''))

ref("array-clear-swap", J, ('''    // clear previous contents of the array
    reflectable.clear();

    // pull all array elements of the specified value
    const auto previousIndex = errors ? errors->currentIndex : JsonDeserializationError::noIndex;
    std::size_t index = 0;
    for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
        // set error context for current index
        if (errors) {
            errors->currentIndex = index;
        }
        ++index;
        typename Type::value_type itemObj;
        pull(itemObj, item, errors);
        reflectable.emplace(std::move(itemObj));
    }''', '''    // clear previous contents of the array
    reflectable.erase(reflectable.begin(), reflectable.end());

    // pull all array elements of the specified value
    const auto previousIndex = errors ? errors->currentIndex : JsonDeserializationError::noIndex;
    std::size_t index = 0;
    for (const auto &item : array) {
        // set error context for current index
        if (errors) {
            errors->currentIndex = index;
        }
        auto itemObj = typename Type::value_type();
        pull(itemObj, item, errors);
        reflectable.insert(std::move(itemObj));
        index += 1;
    }'''))

ref("enum-fits-local", J, ('''    if (number < Limits::min() || number > Limits::max()) {
        if (errors) {
            errors->reportConversionError(JsonType::Number);
        }
        return;
    }
    reflectable = static_cast<Type>(number);''', '''    const auto fits = number >= Limits::min() && number <= Limits::max();
    if (fits) {
        reflectable = static_cast<Type>(number);
    } else if (errors) {
        errors->reportConversionError(JsonType::Number);
    }'''))

ref("number-if-constexpr", J, ('''    const auto number = value.GetDouble();
    if (!Detail::isWithinRange<Type>(number)) {
        if (errors) {
            errors->reportConversionError(JsonType::Number);
        }
        return;
    }
    reflectable = static_cast<Type>(number);
}

/*!
 * \\brief Pulls the integer or float from the specified value which is supposed and checked to contain the right type.
 */''', '''    if (const auto number = value.GetDouble(); Detail::isWithinRange<Type>(number)) {
        reflectable = static_cast<Type>(number);
    } else if (errors) {
        errors->reportConversionError(JsonType::Number);
    }
}

/*!
 * \\brief Pulls the integer or float from the specified value which is supposed and checked to contain the right type.
 */'''))

ref("variant-hasmember", J, ('''    auto indexIterator = obj.FindMember("index");
    auto dataIterator = obj.FindMember("data");
    if (indexIterator == obj.MemberEnd() || dataIterator == obj.MemberEnd()) {
        if (errors) {
            errors->reportInvalidVariantObject();
        }
        return;
    }
    const auto &indexValue = indexIterator->value;''', '''    if (!obj.HasMember("index") || !obj.HasMember("data")) {
        if (errors) {
            errors->reportInvalidVariantObject();
        }
        return;
    }
    const auto dataIterator = obj.FindMember("data");
    const auto &indexValue = obj["index"];'''))

ref("push-multimap-hasmember", J, ('''        const auto existingMember = value.FindMember(memberName);
        const auto arrayAlreadyExists
            = existingMember != value.MemberEnd() && existingMember->value.GetType() == RAPIDJSON_NAMESPACE::Type::kArrayType;
        auto newArrayValue = RAPIDJSON_NAMESPACE::Value{ RAPIDJSON_NAMESPACE::kArrayType };
        RAPIDJSON_NAMESPACE::Value::Array array = arrayAlreadyExists ? existingMember->value.GetArray() : newArrayValue.GetArray();
        push(item.second, array, allocator);
        if (!arrayAlreadyExists) {
            value.AddMember(memberName, newArrayValue, allocator);
        }''', '''        const auto existingMember = value.FindMember(memberName);
        if (existingMember != value.MemberEnd() && existingMember->value.IsArray()) {
            auto array = existingMember->value.GetArray();
            push(item.second, array, allocator);
            continue;
        }
        auto newArrayValue = RAPIDJSON_NAMESPACE::Value(RAPIDJSON_NAMESPACE::kArrayType);
        auto array = newArrayValue.GetArray();
        push(item.second, array, allocator);
        value.AddMember(std::move(memberName), std::move(newArrayValue), allocator);'''))

ref("push-serializable-via-value", J, ('''    RAPIDJSON_NAMESPACE::Value objectValue(RAPIDJSON_NAMESPACE::kObjectType);
    RAPIDJSON_NAMESPACE::Value::Object object(objectValue.GetObject());
    push(reflectable, object, allocator);
    value.PushBack(objectValue, allocator);''', '''    auto objectValue = RAPIDJSON_NAMESPACE::Value();
    auto object = objectValue.SetObject().GetObject();
    push(reflectable, object, allocator);
    value.PushBack(std::move(objectValue), allocator);'''))

ref("serialize-writer-auto", J, ('''    RAPIDJSON_NAMESPACE::StringBuffer buffer;
    RAPIDJSON_NAMESPACE::Writer<RAPIDJSON_NAMESPACE::StringBuffer> writer(buffer);
    document.Accept(writer);
    return buffer;''', '''    auto buffer = RAPIDJSON_NAMESPACE::StringBuffer();
    auto writer = RAPIDJSON_NAMESPACE::Writer<RAPIDJSON_NAMESPACE::StringBuffer>(buffer);
    const auto &value = static_cast<const RAPIDJSON_NAMESPACE::Value &>(document);
    value.Accept(writer);
    return buffer;'''))

ref("fromjson-array-inverted", J, ('''    if (!doc.IsArray()) {
        if (errors) {
            errors->reportTypeMismatch<Type>(doc.GetType());
        }
        return Type();
    }

    Type res;
    pull<Type>(res, doc.GetArray(), errors);
    return res;''', '''    auto res = Type();
    if (doc.IsArray()) {
        pull<Type>(res, doc.GetArray(), errors);
    } else if (errors) {
        errors->reportTypeMismatch<Type>(doc.GetType());
    }
    return res;'''))

ref("errors-push-back", E, ('''    emplace_back(JsonDeserializationErrorKind::ArraySizeMismatch, JsonType::Array, JsonType::Array, currentRecord, currentMember, currentIndex);''',
'''    push_back(JsonDeserializationError(
        JsonDeserializationErrorKind::ArraySizeMismatch, JsonType::Array, JsonType::Array, currentRecord, currentMember, currentIndex));'''))

ref("errors-throw-guard", E, ('''    if (static_cast<std::uint8_t>(throwOn) & static_cast<std::uint8_t>(on)) {
        throw back();
    }''', '''    const auto isFatal = (static_cast<std::uint8_t>(throwOn) & static_cast<std::uint8_t>(on)) != 0;
    if (!isFatal) {
        return;
    }
    throw JsonDeserializationError((*this)[size() - 1]);'''))

ref("errors-jsontype-table", E, ('''    switch (type) {
    case RAPIDJSON_NAMESPACE::kFalseType:
    case RAPIDJSON_NAMESPACE::kTrueType:
        return JsonType::Bool;
    case RAPIDJSON_NAMESPACE::kObjectType:
        return JsonType::Object;
    case RAPIDJSON_NAMESPACE::kArrayType:
        return JsonType::Array;
    case RAPIDJSON_NAMESPACE::kStringType:
        return JsonType::String;
    case RAPIDJSON_NAMESPACE::kNumberType:
        return JsonType::Number;
    default:
        return JsonType::Null;
    }''', '''    return type == RAPIDJSON_NAMESPACE::kFalseType || type == RAPIDJSON_NAMESPACE::kTrueType ? JsonType::Bool
        : type == RAPIDJSON_NAMESPACE::kObjectType                                           ? JsonType::Object
        : type == RAPIDJSON_NAMESPACE::kArrayType                                            ? JsonType::Array
        : type == RAPIDJSON_NAMESPACE::kStringType                                           ? JsonType::String
        : type == RAPIDJSON_NAMESPACE::kNumberType                                           ? JsonType::Number
                                                                                             : JsonType::Null;'''))

ref("chrono-catch-guard", C, ('''    } catch (const CppUtilities::ConversionException &) {
        if (errors) {
            errors->reportConversionError(JsonType::String);
        }
    }''', '''    } catch (const CppUtilities::ConversionException &) {
        if (!errors) {
            return;
        }
        errors->reportConversionError(JsonType::String);
    }'''))

ref("chrono-push-via-string", C, ('''    const std::string str(reflectable.toIsoString());
    value.SetString(str.data(), rapidJsonSize(str.size()), allocator);''', '''    push<std::string>(reflectable.toIsoString(), value, allocator);'''))

ref("bin-size-countdown", B, ('''    const auto size = readVariableLengthUIntBE();
    iteratable.clear();
    for (size_t i = 0; i != size; ++i) {
        typename Type::value_type value;''', '''    iteratable.clear();
    for (auto remaining = readVariableLengthUIntBE(); remaining; --remaining) {
        typename Type::value_type value;'''))

ref("bin-shared-emplace-any", B, ('''        m_pointer[id] = pointer = std::make_shared<typename Type::element_type>();
        read(*pointer);
        return;''', '''        pointer = std::make_shared<typename Type::element_type>();
        m_pointer.insert_or_assign(id, std::any(pointer));
        return static_cast<void>(read(*pointer));'''))

ref("bin-shared-mode-local", B, ('''    const auto id = (mode & 0x4) ? readUInt64BE() : readVariableLengthUIntBE(); // the 3rd bit being flagged indicates a big ID
    if ((mode & 0x3) == 1) {''', '''    const bool hasBigId = mode & 0x4, isFirst = (mode & 0x3) == 1;
    std::uint64_t id;
    if (hasBigId) {
        id = readUInt64BE();
    } else {
        id = readVariableLengthUIntBE();
    }
    if (isFirst) {'''))

ref("bin-pair-structured", B, ('''    write(pair.first);
    write(pair.second);''', '''    const auto &[first, second] = pair;
    write(first);
    write(second);'''))

ref("bin-write-for-iterator", B, ('''    writeVariableLengthUIntBE(iteratable.size());
    for (const auto &element : iteratable) {
        write(element);
    }''', '''    const std::uint64_t size = iteratable.size();
    writeVariableLengthUIntBE(size);
    for (auto i = std::cbegin(iteratable), end = std::cend(iteratable); i != end; ++i) {
        write(*i);
    }'''))

ref("bin-optional-has-value", B, ('''    writeBool(static_cast<bool>(opt));
    if (opt) {
        write(*opt);
    }''', '''    if (!opt) {
        writeBool(false);
        return;
    }
    writeBool(true);
    write(*opt);'''))

ref("bin-time-local", BT, ('''    serializer.write(timeSpan.totalTicks());''', '''    const auto ticks = timeSpan.totalTicks();
    serializer.write(ticks);'''))

ref("versioning-default-ternary", V, ('''        if (!version) {
            version = serializationDefault;
        }
        return version;''', '''        return version = version == 0 ? serializationDefault : version;'''))

ref("gen-instantiation-find-if", GC, ('''    for (clang::CXXBaseSpecifier &base : record->bases()) {
        clang::CXXRecordDecl *const baseDecl = base.getType()->getAsCXXRecordDecl();
        if (baseDecl && baseDecl->getQualifiedNameAsString() == templateClass) {
            return &base;
        }
    }
    return nullptr;''', '''    const auto isInstantiation = [templateClass](const clang::CXXBaseSpecifier &base) {
        const auto *const baseDecl = base.getType()->getAsCXXRecordDecl();
        return baseDecl && baseDecl->getQualifiedNameAsString() == templateClass;
    };
    for (auto i = record->bases_begin(), end = record->bases_end(); i != end; ++i) {
        if (isInstantiation(*i)) {
            return i;
        }
    }
    return nullptr;'''))

ref("gen-clang-args-emplace", GF, ('''    clangArgs.insert(clangArgs.end(), m_clangOptions.cbegin(), m_clangOptions.cend());
    clangArgs.insert(clangArgs.end(), m_sourceFiles.cbegin(), m_sourceFiles.cend());''', '''    for (const auto &option : m_clangOptions) {
        clangArgs.emplace_back(option);
    }
    for (const char *const sourceFile : m_sourceFiles) {
        clangArgs.emplace_back(sourceFile);
    }'''))

ref("gen-json-friends-any-of", GJ, ('''        bool pushPrivateMembers = false, pullPrivateMembers = false;
        for (const clang::FriendDecl *const friendDecl : relevantClass.record->friends()) {
            // get the actual declaration which must be a function
            const clang::NamedDecl *const actualFriendDecl = friendDecl->getFriendDecl();
            if (!actualFriendDecl || actualFriendDecl->getKind() != clang::Decl::Kind::Function) {
                continue;
            }
            // check whether the friend function matches the push/pull helper function
            const string friendName(actualFriendDecl->getQualifiedNameAsString());
            if (friendName == "ReflectiveRapidJSON::JsonReflector::push") {
                pushPrivateMembers = true;
            }
            if (friendName == "ReflectiveRapidJSON::JsonReflector::pull") {
                pullPrivateMembers = true;
            }
            if (pushPrivateMembers && pullPrivateMembers) {
                break;
            }
        }
''', '''        const auto hasFriend = [&relevantClass](const char *name) {
            for (const clang::FriendDecl *const friendDecl : relevantClass.record->friends()) {
                const clang::NamedDecl *const actualFriendDecl = friendDecl->getFriendDecl();
                if (actualFriendDecl && actualFriendDecl->getKind() == clang::Decl::Kind::Function
                    && actualFriendDecl->getQualifiedNameAsString() == name) {
                    return true;
                }
            }
            return false;
        };
        const auto pushPrivateMembers = hasFriend("ReflectiveRapidJSON::JsonReflector::push");
        const auto pullPrivateMembers = hasFriend("ReflectiveRapidJSON::JsonReflector::pull");
'''))

ref("gen-json-friends-no-break", GJ, ('''            if (pushPrivateMembers && pullPrivateMembers) {
                break;
            }
''', ''))

ref("gen-bin-friends-string-ref", GB, ('''            if (friendName == "ReflectiveRapidJSON::BinaryReflector::writeCustomType") {
                writePrivateMembers = true;
            }
            if (friendName == "ReflectiveRapidJSON::BinaryReflector::readCustomType") {
                readPrivateMembers = true;
            }''', '''            writePrivateMembers |= friendName == "ReflectiveRapidJSON::BinaryReflector::writeCustomType";
            readPrivateMembers |= friendName == "ReflectiveRapidJSON::BinaryReflector::readCustomType";'''))

ref("gen-bin-marker-max", GB, ('''                asOfVersion = v.res;
                if (asOfVersion > untilVersion) {
                    untilVersion = 0;
                }''', '''                untilVersion = v.res > untilVersion ? 0 : untilVersion;
                asOfVersion = v.res;'''))

ref("gen-bin-visibility-ternary", GB, ('''    const char *visibility = m_options.visibilityArg.firstValue();
    if (!visibility) {
        visibility = "";
    }''', '''    const char *const specifiedVisibility = m_options.visibilityArg.firstValue();
    const std::string_view visibility = specifiedVisibility ? specifiedVisibility : "";'''))

ref("gen-frontend-unique", GD, ('''    compilerInstance.getDiagnostics().setClient(
        new DiagConsumer(std::unique_ptr<clang::DiagnosticConsumer>(compilerInstance.getDiagnostics().takeClient()), m_factory.isErrorResilient()));''',
'''    auto &diagnostics = compilerInstance.getDiagnostics();
    auto previousClient = diagnostics.takeClient();
    diagnostics.setClient(new DiagConsumer(std::move(previousClient), m_factory.isErrorResilient()), true);'''))

ref("gen-diagnostics-flat", GN, ('''    bool shouldReset = false;
    if (m_errorResilient) {
        const auto diagId = info.getID();
        const auto category = info.getDiags()->getDiagnosticIDs()->getCategoryNumberForDiag(diagId);

        if (diagLevel >= clang::DiagnosticsEngine::Error) {
            if (category == 2 /* 2 means "Semantic Issue" */) {
                if (!m_realErrorCount) {
                    shouldReset = true;
                }
                diagLevel = clang::DiagnosticsEngine::Warning;
            } else {
                ++m_realErrorCount;
            }
        }
    }
''', '''    constexpr unsigned int semanticIssue = 2;
    const auto isResilientError = m_errorResilient && diagLevel >= clang::DiagnosticsEngine::Error;
    const auto isSemantic = isResilientError && info.getDiags()->getDiagnosticIDs()->getCategoryNumberForDiag(info.getID()) == semanticIssue;
    const auto shouldReset = isSemantic && m_realErrorCount == 0;
    if (isSemantic) {
        diagLevel = clang::DiagnosticsEngine::Warning;
    } else if (isResilientError) {
        m_realErrorCount += 1;
    }
'''))

ref("gen-main-split-local", GM, ('''                for (const auto &splittedValue : splittedValues) {
                    if (!splittedValue.empty()) {
                        clangOptions.emplace_back(splittedValue);
                    }
                }''', '''                std::copy_if(splittedValues.begin(), splittedValues.end(), std::back_inserter(clangOptions),
                    [](const auto &splittedValue) { return !splittedValue.empty(); });'''))

ref("gen-main-flush-check", GM, ('''        os->flush();
        if (!*os) {
            throw ios_base::failure("unable to flush output stream");
        }
''', '''        if (!os->flush().good()) {
            throw ios_base::failure("unable to flush output stream");
        }
'''))

ref("gen-relevant-any-of", GS, ('''    for (const auto &adaptionRecord : m_adaptionRecords) {
        // skip all adaption records which are only included
        if (isOnlyIncluded(adaptionRecord.record)) {
            continue;
        }
        if (adaptionRecord.qualifiedName == possiblyRelevantClass.qualifiedName) {
            possiblyRelevantClass.isRelevant = IsRelevant::Yes;
            return;
        }
    }
''', '''    if (std::any_of(m_adaptionRecords.begin(), m_adaptionRecords.end(), [&](const auto &adaptionRecord) {
            return !isOnlyIncluded(adaptionRecord.record) && adaptionRecord.qualifiedName == possiblyRelevantClass.qualifiedName;
        })) {
        possiblyRelevantClass.isRelevant = IsRelevant::Yes;
        return;
    }
'''))

ref("gen-bases-count", GS, ('''        bool coveredByAnotherBase = false;
        for (const RelevantClass &intermediateClass : relevantBases) {
            if (relevantClass.record->isDerivedFrom(intermediateClass.record) && intermediateClass.record->isDerivedFrom(otherClass.record)) {
                coveredByAnotherBase = true;
                break;
            }
        }
        if (!coveredByAnotherBase) {
            relevantBaseClasses.push_back(&otherClass);
        }''', '''        std::size_t coveredBy = 0;
        for (const RelevantClass &intermediateClass : relevantBases) {
            if (relevantClass.record->isDerivedFrom(intermediateClass.record) && intermediateClass.record->isDerivedFrom(otherClass.record)) {
                ++coveredBy;
            }
        }
        if (coveredBy == 0) {
            relevantBaseClasses.emplace_back(&otherClass);
        }'''))

ref("format-switch-helper", F, ('''    if (error.record && error.member) {
        return errorKind % " within record \\"" % error.record % "\\" and member \\"" % error.member % '\\"' + additionalInfo;
    } else if (error.record && error.index != JsonDeserializationError::noIndex) {
        return errorKind % " within record \\"" % error.record % "\\" and index \\"" % error.index % '\\"' + additionalInfo;
    } else if (error.record) {
        return errorKind % " within record \\"" % error.record % '\\"' + additionalInfo;
    } else {
        return errorKind % " in document" + additionalInfo;
    }''', '''    if (!error.record) {
        return errorKind % " in document" + additionalInfo;
    }
    if (error.member) {
        return errorKind % " within record \\"" % error.record % "\\" and member \\"" % error.member % '\\"' + additionalInfo;
    }
    return error.index == JsonDeserializationError::noIndex
        ? errorKind % " within record \\"" % error.record % '\\"' + additionalInfo
        : errorKind % " within record \\"" % error.record % "\\" and index \\"" % error.index % '\\"' + additionalInfo;'''))

ref("gen-bases-by-pointer", GC, ('''    for (clang::CXXBaseSpecifier &base : record->bases()) {
        clang::CXXRecordDecl *const baseDecl = base.getType()->getAsCXXRecordDecl();
        if (baseDecl && baseDecl->getQualifiedNameAsString() == templateClass) {
            return &base;
        }
    }''', '''    for (auto base = record->bases_begin(); base != record->bases_end(); ++base) {
        clang::CXXRecordDecl *const baseDecl = base->getType()->getAsCXXRecordDecl();
        if (baseDecl && baseDecl->getQualifiedNameAsString() == templateClass) {
            return base;
        }
    }'''))

ref("member-find-if", J, ('''    const auto member = value.FindMember(name);
    if (member == value.MemberEnd()) {''', '''    const auto member = std::find_if(value.MemberBegin(), value.MemberEnd(), [name](const auto &candidate) { return candidate.name == name; });
    if (member == value.MemberEnd()) {'''), ('''#include <cmath>''', '''#include <algorithm>
#include <cmath>'''))

ref("member-find-if-view", J, ('''    const auto member = value.FindMember(name);
    if (member == value.MemberEnd()) {''', '''    const auto member = std::find_if(value.MemberBegin(), value.MemberEnd(), [key = std::string_view(name)](const auto &candidate) {
        return std::string_view(candidate.name.GetString(), candidate.name.GetStringLength()) == key;
    });
    if (member == value.MemberEnd()) {'''), ('''#include <cmath>''', '''#include <algorithm>
#include <cmath>
#include <string_view>'''))

ARRAYLOOP = '''    for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
        // set error context for current index
        if (errors) {
            errors->currentIndex = index;
        }
        ++index;
        reflectable.emplace_back();
        pull(reflectable.back(), item, errors);
    }
'''
ref("array-foreach-lambda", J, (ARRAYLOOP, '''    std::for_each(array.Begin(), array.End(), [&](const auto &item) {
        if (errors) {
            errors->currentIndex = index;
        }
        ++index;
        reflectable.emplace_back();
        pull(reflectable.back(), item, errors);
    });
'''), ('''#include <cmath>''', '''#include <algorithm>
#include <cmath>'''))

ref("array-index-loop", J, ('''    std::size_t index = 0;
''' + ARRAYLOOP, '''    const auto count = array.Size();
    for (RAPIDJSON_NAMESPACE::SizeType index = 0; index != count; ++index) {
        if (errors) {
            errors->currentIndex = index;
        }
        reflectable.emplace_back();
        pull(reflectable.back(), array[index], errors);
    }
'''))

ref("bool-pull-switch", J, ('''    if (!value.IsBool()) {
        if (errors) {
            errors->reportTypeMismatch<Type>(value.GetType());
        }
        return;
    }
    reflectable = value.GetBool();''', '''    switch (value.GetType()) {
    case RAPIDJSON_NAMESPACE::kTrueType:
        reflectable = true;
        break;
    case RAPIDJSON_NAMESPACE::kFalseType:
        reflectable = false;
        break;
    default:
        if (errors) {
            errors->reportTypeMismatch<Type>(value.GetType());
        }
    }'''))

ref("tuple-pull-apply", J, ('''    Detail::TuplePullHelper<Type, std::tuple_size<Type>::value>::pull(reflectable, array, errors);''',
'''    std::apply(
        [&array, errors](auto &...elements) {
            RAPIDJSON_NAMESPACE::SizeType index = 0;
            (JsonReflector::pull(elements, array[index++], errors), ...);
        },
        reflectable);'''))

ref("set-find-before", J, ('''        if (!reflectable.emplace(std::move(itemObj)).second && errors) {
            errors->reportUnexpectedDuplicate(JsonType::Array);
        }''', '''        const auto inserted = reflectable.emplace(std::move(itemObj)).second;
        if (inserted || !errors) {
            continue;
        }
        errors->reportUnexpectedDuplicate(JsonType::Array);'''))

ref("number-convert-optional", J, ('''    const auto number = value.GetDouble();
    if (!Detail::isWithinRange<Type>(number)) {
        if (errors) {
            errors->reportConversionError(JsonType::Number);
        }
        return;
    }
    reflectable = static_cast<Type>(number);''', '''    if (const auto number = Detail::convertNumber<Type>(value.GetDouble())) {
        reflectable = *number;
    } else if (errors) {
        errors->reportConversionError(JsonType::Number);
    }'''), ('''} // namespace Detail

/*!
 * \\brief Pulls the integer or float from the specified value which is supposed and checked to contain the right type.
 * \\remarks Numbers''', '''template <typename Type> inline std::optional<Type> convertNumber(double number)
{
    return isWithinRange<Type>(number) ? std::make_optional(static_cast<Type>(number)) : std::nullopt;
}

} // namespace Detail

/*!
 * \\brief Pulls the integer or float from the specified value which is supposed and checked to contain the right type.
 * \\remarks Numbers'''))

ref("map-push-move-name", J, ('''        auto memberName = RAPIDJSON_NAMESPACE::Value(item.first.data(), rapidJsonSize(item.first.size()), allocator);
        auto memberValue = RAPIDJSON_NAMESPACE::Value();
        push(item.second, memberValue, allocator);
        value.AddMember(memberName, memberValue, allocator);''', '''        RAPIDJSON_NAMESPACE::Value memberValue;
        push(item.second, memberValue, allocator);
        value.AddMember(RAPIDJSON_NAMESPACE::Value(item.first.data(), rapidJsonSize(item.first.size()), allocator).Move(), memberValue.Move(), allocator);'''))

ref("string-push-construct", J, ('''inline void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)
{
    value.SetString(reflectable.data(), rapidJsonSize(reflectable.size()), allocator);
}''', '''inline void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)
{
    value = RAPIDJSON_NAMESPACE::Value(reflectable.data(), rapidJsonSize(reflectable.size()), allocator);
}'''))

ref("errors-fatal-helper", E, ('''    if (static_cast<std::uint8_t>(throwOn) & static_cast<std::uint8_t>(on)) {
        throw back();
    }''', '''    using Flags = std::underlying_type_t<ThrowOn>;
    const auto isFatal = (static_cast<Flags>(throwOn) & static_cast<Flags>(on)) != 0;
    if (!isFatal) {
        return;
    }
    throw *rbegin();'''))

ref("errors-add-helper", E, ('''    void throwMaybe(ThrowOn on) const;
};''', '''    void throwMaybe(ThrowOn on) const;
    void add(JsonDeserializationErrorKind kind, JsonType expected, JsonType actual, ThrowOn on)
    {
        push_back(JsonDeserializationError(kind, expected, actual, currentRecord, currentMember, currentIndex));
        throwMaybe(on);
    }
};'''), ('''    emplace_back(JsonDeserializationErrorKind::ArraySizeMismatch, JsonType::Array, JsonType::Array, currentRecord, currentMember, currentIndex);
    throwMaybe(ThrowOn::ArraySizeMismatch);''', '''    add(JsonDeserializationErrorKind::ArraySizeMismatch, JsonType::Array, JsonType::Array, ThrowOn::ArraySizeMismatch);'''),
('''    emplace_back(JsonDeserializationErrorKind::ConversionError, jsonType, jsonType, currentRecord, currentMember, currentIndex);
    throwMaybe(ThrowOn::ConversionError);''', '''    add(JsonDeserializationErrorKind::ConversionError, jsonType, jsonType, ThrowOn::ConversionError);'''))

ref("member-with-context-callback", J, ('''    // set error context for current member
    const char *previousMember = nullptr;
    if (errors) {
        previousMember = errors->currentMember;
        errors->currentMember = name;
    }

    // actually pull value for member
    pull<Type>(reflectable, member->value, errors);

    // restore previous error context
    if (errors) {
        errors->currentMember = previousMember;
    }''', '''    Detail::withMember(errors, name, [&reflectable, &member, errors] { pull<Type>(reflectable, member->value, errors); });'''),
('''/*!
 * \\brief Pulls the specified \\a reflectable from the specified value iterator which is checked to contain the right type.
 */
template <typename Type>
inline void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>>::ValueIterator &value, JsonDeserializationErrors *errors)
{''', '''namespace Detail {
template <typename Callback> inline void withMember(JsonDeserializationErrors *errors, const char *name, Callback &&callback)
{
    if (!errors) {
        callback();
        return;
    }
    const auto *const previous = errors->currentMember;
    errors->currentMember = name;
    std::forward<Callback>(callback)();
    errors->currentMember = previous;
}
} // namespace Detail

/*!
 * \\brief Pulls the specified \\a reflectable from the specified value iterator which is checked to contain the right type.
 */
template <typename Type>
inline void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>>::ValueIterator &value, JsonDeserializationErrors *errors)
{'''))

ref("chrono-parse-helper", C, ('''    std::string str;
    pull(str, value, errors);
    if (!value.IsString()) {
        return; // type mismatch has already been reported
    }
    if (str.find('\\0') != std::string::npos) {
        // treat everything after a null character as invalid as well (and not as end of the string)
        if (errors) {
            errors->reportConversionError(JsonType::String);
        }
        return;
    }
    try {
        reflectable = CppUtilities::TimeSpan::fromString(str.data());
    } catch (const CppUtilities::ConversionException &) {
        if (errors) {
            errors->reportConversionError(JsonType::String);
        }
    }''', '''    Detail::pullTime(reflectable, value, errors, [](const char *str) { return CppUtilities::TimeSpan::fromString(str); });'''),
('''    std::string str;
    pull(str, value, errors);
    if (!value.IsString()) {
        return; // type mismatch has already been reported
    }
    if (str.find('\\0') != std::string::npos) {
        // treat everything after a null character as invalid as well (and not as end of the string)
        if (errors) {
            errors->reportConversionError(JsonType::String);
        }
        return;
    }
    try {
        reflectable = CppUtilities::DateTime::fromIsoStringGmt(str.data());
    } catch (const CppUtilities::ConversionException &) {
        if (errors) {
            errors->reportConversionError(JsonType::String);
        }
    }''', '''    Detail::pullTime(reflectable, value, errors, &CppUtilities::DateTime::fromIsoStringGmt);'''),
('''// define functions to "pull" values from a RapidJSON array or object
''', '''namespace Detail {
template <typename Time, typename Parser>
inline void pullTime(
    Time &reflectable, const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors, Parser &&parse)
{
    std::string str;
    JsonReflector::pull(str, value, errors);
    if (!value.IsString()) {
        return;
    }
    auto ok = str.find('\\0') == std::string::npos;
    if (ok) {
        try {
            reflectable = parse(str.data());
        } catch (const CppUtilities::ConversionException &) {
            ok = false;
        }
    }
    if (!ok && errors) {
        errors->reportConversionError(JsonType::String);
    }
}
} // namespace Detail

// define functions to "pull" values from a RapidJSON array or object
'''))

ref("bin-vector-foreach", B, ('''    iteratable.resize(size);
    for (auto &element : iteratable) {
        read(element);
    }''', '''    iteratable.clear();
    iteratable.resize(size);
    std::for_each(iteratable.begin(), iteratable.end(), [this](auto &element) { read(element); });'''), ('''#include <any>''', '''#include <algorithm>
#include <any>'''))

ref("bin-shared-read-id-helper", B, ('''    const auto id = (mode & 0x4) ? readUInt64BE() : readVariableLengthUIntBE(); // the 3rd bit being flagged indicates a big ID
''', '''    const auto readId = [this, mode] {
        if (mode & 0x4) {
            return readUInt64BE();
        }
        return readVariableLengthUIntBE();
    };
    const auto id = readId();
'''))

ref("bin-shared-write-branches", B, ('''    std::uint8_t mode = alreadyWritten ? 2 : 1;
    if (bigId) {
        mode = mode | 0x4; // "flag" 3rd bit to indicate big ID
    }
    writeByte(mode);
    if (bigId) {
        writeUInt64BE(id);
    } else {
        writeVariableLengthUIntBE(id);
    }
    if (!alreadyWritten) {
        alreadyWritten = true;
        write(*pointer);
    }''', '''    const auto writeId = [this, id, bigId](std::uint8_t mode) {
        if (!bigId) {
            writeByte(mode);
            writeVariableLengthUIntBE(id);
            return;
        }
        writeByte(static_cast<std::uint8_t>(mode | 0x4));
        writeUInt64BE(id);
    };
    if (alreadyWritten) {
        writeId(2);
        return;
    }
    writeId(1);
    alreadyWritten = true;
    write(*pointer);'''))

ref("bin-map-insert-hint", B, ('''        std::pair<typename std::remove_const<typename Type::value_type::first_type>::type, typename Type::value_type::second_type> value;
        read(value);
        iteratable.emplace(std::move(value));''', '''        auto key = std::remove_const_t<typename Type::value_type::first_type>();
        auto mapped = typename Type::value_type::second_type();
        read(key);
        read(mapped);
        iteratable.emplace(std::move(key), std::move(mapped));'''))

V = "lib/versioning.h"
ref("versioning-apply-assign", V, ('''        if (!version) {
            version = serializationDefault;
        }
        return version;''', '''        return version = version ? version : serializationDefault;'''))

GJ = "generator/jsonserializationcodegenerator.cpp"
ref("gen-json-writer-lambda", GJ, ('''        for (const clang::FieldDecl *field : relevantClass.record->fields()) {
            if (pushPrivateMembers || field->getAccess() == clang::AS_public) {
                os << "    push(reflectable." << field->getName() << ", \\"" << field->getName() << "\\", value, allocator);\\n";
                pushWritten = true;
            }
        }''', '''        const auto writePush = [&os, &pushWritten](llvm::StringRef memberName) {
            os << "    push(reflectable." << memberName << ", \\"" << memberName << '\\"';
            os << ", value, allocator);\\n";
            pushWritten = true;
        };
        for (const auto *const field : relevantClass.record->fields()) {
            if (!pushPrivateMembers && field->getAccess() != clang::AS_public) {
                continue;
            }
            writePush(field->getName());
        }'''))

ref("gen-json-collect-fields", GJ, ('''        for (const clang::FieldDecl *field : relevantClass.record->fields()) {
            // skip const members
            if (field->getType().isConstant(field->getASTContext())) {
                continue;
            }
            if (pullPrivateMembers || field->getAccess() == clang::AS_public) {
                os << "    pull(reflectable." << field->getName() << ", \\"" << field->getName() << "\\", value, errors);\\n";
                pullWritten = true;
            }
        }''', '''        std::vector<const clang::FieldDecl *> fields;
        for (const clang::FieldDecl *field : relevantClass.record->fields()) {
            const auto accessible = pullPrivateMembers || field->getAccess() == clang::AS_public;
            if (accessible && !field->getType().isConstant(field->getASTContext())) {
                fields.emplace_back(field);
            }
        }
        for (const auto *const field : fields) {
            const auto name = field->getName().str();
            os << "    pull(reflectable." << name << ", \\"" << name << "\\", value, errors);\\n";
        }
        pullWritten = !fields.empty();'''))

GB = "generator/binaryserializationcodegenerator.cpp"
ref("gen-bin-version-range", GB, ('''    if (asOfVersion == lastAsOfVersion && untilVersion == lastUntilVersion) {
        return;
    }
    concludeCondition(os);
    lastAsOfVersion = asOfVersion;
    lastUntilVersion = untilVersion;
    if ((withinCondition = asOfVersion || untilVersion)) {''', '''    const auto previous = std::make_pair(lastAsOfVersion, lastUntilVersion);
    const auto current = std::make_pair(asOfVersion, untilVersion);
    if (previous == current) {
        return;
    }
    concludeCondition(os);
    std::tie(lastAsOfVersion, lastUntilVersion) = current;
    withinCondition = asOfVersion != 0 || untilVersion != 0;
    if (withinCondition) {'''), ('''#include <iostream>''', '''#include <iostream>
#include <tuple>'''))

GM = "generator/main.cpp"
ref("gen-main-add-generators", GM, ('''int main(int argc, char *argv[])
{''', '''static bool handleUnknownGenerator(const std::unordered_map<std::string, std::function<void()>> &generatorsByName, const char *generatorName)
{
    const auto generator = generatorsByName.find(generatorName);
    if (generator != generatorsByName.end()) {
        generator->second();
        return true;
    }
    cerr << Phrases::Error << "The specified generator \\"" << generatorName << "\\" does not exist." << Phrases::End;
    cerr << "Available generators:";
    for (const auto &generators : generatorsByName) {
        cerr << ' ' << generators.first;
    }
    cerr << endl;
    return false;
}

int main(int argc, char *argv[])
{'''), ('''                try {
                    generatorsByName.at(generatorName)();
                } catch (const out_of_range &) {
                    cerr << Phrases::Error << "The specified generator \\"" << generatorName << "\\" does not exist." << Phrases::End;
                    cerr << "Available generators:";
                    for (const auto &generators : generatorsByName) {
                        cerr << ' ' << generators.first;
                    }
                    cerr << endl;
                    return -5;
                }''', '''                if (!handleUnknownGenerator(generatorsByName, generatorName)) {
                    return -5;
                }'''))

ref("gen-clang-args-copy", "generator/codefactory.cpp", ('''    clangArgs.insert(clangArgs.end(), flags.begin(), flags.end());
    clangArgs.insert(clangArgs.end(), m_clangOptions.cbegin(), m_clangOptions.cend());
    clangArgs.insert(clangArgs.end(), m_sourceFiles.cbegin(), m_sourceFiles.cend());''', '''    std::copy(flags.begin(), flags.end(), std::back_inserter(clangArgs));
    std::copy(m_clangOptions.begin(), m_clangOptions.end(), std::back_inserter(clangArgs));
    std::copy(m_sourceFiles.begin(), m_sourceFiles.end(), std::back_inserter(clangArgs));'''), ('''using namespace std;
''', '''#include <algorithm>
#include <iterator>

using namespace std;
'''))

ref("gen-diagnostics-helper", "generator/consumer.cpp", ('''        if (diagLevel >= clang::DiagnosticsEngine::Error) {
            if (category == 2 /* 2 means "Semantic Issue" */) {
                if (!m_realErrorCount) {
                    shouldReset = true;
                }
                diagLevel = clang::DiagnosticsEngine::Warning;
            } else {
                ++m_realErrorCount;
            }
        }''', '''        constexpr auto semanticIssue = 2u;
        const auto isError = diagLevel >= clang::DiagnosticsEngine::Error;
        if (isError && category != semanticIssue) {
            m_realErrorCount += 1;
        }
        if (isError && category == semanticIssue) {
            shouldReset = m_realErrorCount == 0;
            diagLevel = clang::DiagnosticsEngine::Warning;
        }'''))

ref("format-accumulate", F, ('''        return errorKind % " within record \\"" % error.record % "\\" and member \\"" % error.member % '\\"' + additionalInfo;
    }''', '''        std::string text(errorKind);
        text += " within record \\"";
        text += error.record;
        text += "\\" and member \\"";
        text += error.member;
        text += '\\"';
        text += additionalInfo;
        return text;
    }'''))

ref("variant-index-pointer", J, ('''    const auto &indexValue = indexIterator->value;
    if (!indexValue.IsUint64()) {
        if (errors) {
            errors->reportInvalidVariantIndex(jsonType(indexValue.GetType()));
        }
        return;
    }
    Detail::assign''', '''    const auto *const indexValue = &indexIterator->value;
    const auto valid = indexValue->IsUint64();
    if (!valid && errors) {
        errors->reportInvalidVariantIndex(jsonType(indexValue->GetType()));
    }
    if (!valid) {
        return;
    }
    const auto runtimeIndex = static_cast<std::size_t>(indexValue->GetUint64());
    Detail::assign'''), ('''RuntimeIndex(indexValue.GetUint64(), reflectable,''', '''RuntimeIndex(runtimeIndex, reflectable,'''))

ref("variant-two-lookups", J, ('''    if (indexIterator == obj.MemberEnd() || dataIterator == obj.MemberEnd()) {
        if (errors) {
            errors->reportInvalidVariantObject();
        }
        return;
    }''', '''    const auto complete = indexIterator != obj.MemberEnd() && dataIterator != obj.MemberEnd();
    if (!complete && !errors) {
        return;
    } else if (!complete) {
        return errors->reportInvalidVariantObject();
    }'''))

ref("gen-declarations-guard", GS, ('''                if (templateArgs.size() != 1 || templateArgs.get(0).getKind() != clang::TemplateArgument::Type) {
                    return; // FIXME: use Clang diagnostics to print warning
                }
                // get the type the template argument refers to (that's the type of the 3rd party class/struct to adapt)
                auto *const templateRecord = templateArgs.get(0).getAsType()->getAsCXXRecordDecl();
                if (!templateRecord) {
                    return; // FIXME: use Clang diagnostics to print warning
                }
                // save the relevant information for the code generation
                m_adaptionRecords.emplace_back(templateRecord->getQualifiedNameAsString(), templateSpecializationRecord);
                return;''', '''                if (templateArgs.size() == 1) {
                    const auto &templateArg = templateArgs.get(0);
                    if (templateArg.getKind() == clang::TemplateArgument::Type) {
                        if (auto *const templateRecord = templateArg.getAsType()->getAsCXXRecordDecl(); templateRecord != nullptr) {
                            m_adaptionRecords.emplace_back(templateRecord->getQualifiedNameAsString(), templateSpecializationRecord);
                        }
                    }
                }
                return;'''))

PARAMS = "const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors)"
ref("array-errors-split", J, ('''    // pull all array elements of the specified value
    const auto previousIndex = errors ? errors->currentIndex : JsonDeserializationError::noIndex;
    std::size_t index = 0;
    for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
        // set error context for current index
        if (errors) {
            errors->currentIndex = index;
        }
        ++index;
        reflectable.emplace_back();
        pull(reflectable.back(), item, errors);
    }

    // restore previous error context
    if (errors) {
        errors->currentIndex = previousIndex;
    }
''', '''    if (!errors) {
        for (const auto &item : array) {
            reflectable.emplace_back();
            pull(reflectable.back(), item, nullptr);
        }
        return;
    }
    const auto previousIndex = errors->currentIndex;
    errors->currentIndex = 0;
    for (const auto &item : array) {
        reflectable.emplace_back();
        pull(reflectable.back(), item, errors);
        ++errors->currentIndex;
    }
    errors->currentIndex = previousIndex;
'''))

ref("set-dedicated-helper", J, ('''template <typename Type, Traits::EnableIf<IsSet<Type>> *>
void pull(Type &reflectable, rapidjson::GenericValue''', '''namespace Detail {
template <typename Type>
inline bool addToSet(Type &reflectable, const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item, JsonDeserializationErrors *errors)
{
    auto itemObj = typename Type::value_type();
    pull(itemObj, item, errors);
    const auto [iterator, inserted] = reflectable.insert(std::move(itemObj));
    CPP_UTILITIES_UNUSED(iterator)
    return inserted;
}
} // namespace Detail

template <typename Type, Traits::EnableIf<IsSet<Type>> *>
void pull(Type &reflectable, rapidjson::GenericValue'''), ('''        typename Type::value_type itemObj;
        pull(itemObj, item, errors);
        if (!reflectable.emplace(std::move(itemObj)).second && errors) {
            errors->reportUnexpectedDuplicate(JsonType::Array);
        }
''', '''        const auto inserted = Detail::addToSet(reflectable, item, errors);
        if (errors && !inserted) {
            errors->reportUnexpectedDuplicate(JsonType::Array);
        }
'''))

ref("map-pull-value-then-move", J, ('''        pull(reflectable[typename Type::key_type(i->name.GetString(), i->name.GetStringLength())], i->value, errors);
''', '''        const auto &[name, memberValue] = *i;
        auto &mapped = reflectable[typename Type::key_type(name.GetString(), name.GetStringLength())];
        pull(mapped, memberValue, errors);
'''))

ref("multimap-emplace", J, ('''            auto insertedIterator = reflectable.insert(typename Type::value_type(key, typename Type::mapped_type()));
            pull(insertedIterator->second, i->value, errors);
            continue;
        }
        const auto array = i->value.GetArray();
        for (const auto &arrayValue : array) {
            auto insertedIterator = reflectable.insert(typename Type::value_type(key, typename Type::mapped_type()));
            pull(insertedIterator->second, arrayValue, errors);
        }
''', '''            auto insertedIterator = reflectable.emplace(key, typename Type::mapped_type());
            pull(insertedIterator->second, i->value, errors);
        } else {
            const auto array = i->value.GetArray();
            for (auto arrayIterator = array.Begin(), arrayEnd = array.End(); arrayIterator != arrayEnd; ++arrayIterator) {
                pull(reflectable.emplace(key, typename Type::mapped_type())->second, *arrayIterator, errors);
            }
        }
'''))

ref("pair-delegates-to-tuple-helper", J, ('''    pull(reflectable.first, array[0], errors);
    pull(reflectable.second, array[1], errors);
''', '''    auto element = array.Begin();
    pull(reflectable.first, *element, errors);
    ++element;
    pull(reflectable.second, *element, errors);
'''))

ref("pointers-share-helper", J, ('''template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::unique_ptr>> *>
void pull(''', '''namespace Detail {
template <typename Type, typename MakeFunc>
inline void pullPointer(Type &reflectable, const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors, MakeFunc &&make)
{
    if (value.IsNull()) {
        reflectable = nullptr;
        return;
    }
    reflectable = make();
    JsonReflector::pull(*reflectable, value, errors);
}
} // namespace Detail

template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::unique_ptr>> *>
void pull('''), ('''    if (value.IsNull()) {
        reflectable.reset();
        return;
    }
    reflectable = std::make_unique<typename Type::element_type>();
    pull(*reflectable, value, errors);
''', '''    Detail::pullPointer(reflectable, value, errors, [] { return std::make_unique<typename Type::element_type>(); });
'''), ('''    if (value.IsNull()) {
        reflectable.reset();
        return;
    }
    reflectable = std::make_shared<typename Type::element_type>();
    pull(*reflectable, value, errors);
''', '''    Detail::pullPointer(reflectable, value, errors, [] { return std::make_shared<typename Type::element_type>(); });
'''))

ref("optional-emplace-deref", J, ('''    if (value.IsNull()) {
        reflectable.reset();
    } else {
        pull(reflectable.emplace(), value, errors);
    }
''', '''    reflectable.reset();
    if (value.IsNull()) {
        return;
    }
    reflectable.emplace();
    pull(reflectable.value(), value, errors);
'''))

ref("variant-findmember-nested", J, ('''    auto indexIterator = obj.FindMember("index");
    auto dataIterator = obj.FindMember("data");
    if (indexIterator == obj.MemberEnd() || dataIterator == obj.MemberEnd()) {
        if (errors) {
            errors->reportInvalidVariantObject();
        }
        return;
    }
    const auto &indexValue = indexIterator->value;
    if (!indexValue.IsUint64()) {
        if (errors) {
            errors->reportInvalidVariantIndex(jsonType(indexValue.GetType()));
        }
        return;
    }
    Detail::assignVariantValueByRuntimeIndex(indexValue.GetUint64(), reflectable, dataIterator->value, errors);
''', '''    const auto end = obj.MemberEnd();
    if (const auto indexIterator = obj.FindMember("index"); indexIterator != end) {
        if (const auto dataIterator = obj.FindMember("data"); dataIterator != end) {
            if (const auto &indexValue = indexIterator->value; indexValue.IsUint64()) {
                const auto index = static_cast<std::size_t>(indexValue.GetUint64());
                Detail::assignVariantValueByRuntimeIndex(index, reflectable, dataIterator->value, errors);
            } else if (errors) {
                errors->reportInvalidVariantIndex(jsonType(indexValue.GetType()));
            }
            return;
        }
    }
    if (errors) {
        errors->reportInvalidVariantObject();
    }
'''))

ref("enum-limits-locals", J, ('''    using Limits = std::numeric_limits<typename std::underlying_type<Type>::type>;
    if (number < Limits::min() || number > Limits::max()) {
        if (errors) {
            errors->reportConversionError(JsonType::Number);
        }
        return;
    }
    reflectable = static_cast<Type>(number);
''', '''    using UnderlyingType = std::underlying_type_t<Type>;
    constexpr auto lowest = std::numeric_limits<UnderlyingType>::min(), highest = std::numeric_limits<UnderlyingType>::max();
    if (const auto withinRange = !(number < lowest) && !(number > highest); withinRange) {
        reflectable = static_cast<Type>(static_cast<UnderlyingType>(number));
    } else if (errors) {
        errors->reportConversionError(JsonType::Number);
    }
'''))

ref("number-report-lambda", J, ('''    if (!value.IsNumber()) {
        if (errors) {
            errors->reportTypeMismatch<Type>(value.GetType());
        }
        return;
    }
    if (value.Is<Type>()) {
        reflectable = value.Get<Type>();
        return;
    }
    const auto number = value.GetDouble();
    if (!Detail::isWithinRange<Type>(number)) {
        if (errors) {
            errors->reportConversionError(JsonType::Number);
        }
        return;
    }
    reflectable = static_cast<Type>(number);
''', '''    const auto report = [errors](auto &&function) {
        if (errors) {
            function(*errors);
        }
    };
    if (!value.IsNumber()) {
        return report([&value](JsonDeserializationErrors &e) { e.reportTypeMismatch<Type>(value.GetType()); });
    }
    if (value.Is<Type>()) {
        reflectable = value.Get<Type>();
    } else if (const auto number = value.GetDouble(); Detail::isWithinRange<Type>(number)) {
        reflectable = static_cast<Type>(number);
    } else {
        report([](JsonDeserializationErrors &e) { e.reportConversionError(JsonType::Number); });
    }
'''))

ref("push-array-delegating", J, ('''    array.Reserve(rapidJsonSize(reflectable.size()), allocator);
    for (const auto &item : reflectable) {
        push(item, array, allocator);
    }
''', '''    array.Reserve(rapidJsonSize(reflectable.size()), allocator);
    std::for_each(std::begin(reflectable), std::end(reflectable), [&array, &allocator](const auto &item) { push(item, array, allocator); });
'''))

ref("push-multimap-iterator-branches", J, ('''        const auto existingMember = value.FindMember(memberName);
        const auto arrayAlreadyExists
            = existingMember != value.MemberEnd() && existingMember->value.GetType() == RAPIDJSON_NAMESPACE::Type::kArrayType;
        auto newArrayValue = RAPIDJSON_NAMESPACE::Value{ RAPIDJSON_NAMESPACE::kArrayType };
        RAPIDJSON_NAMESPACE::Value::Array array = arrayAlreadyExists ? existingMember->value.GetArray() : newArrayValue.GetArray();
        push(item.second, array, allocator);
        if (!arrayAlreadyExists) {
            value.AddMember(memberName, newArrayValue, allocator);
        }
''', '''        const auto existingMember = value.FindMember(memberName);
        if (existingMember != value.MemberEnd() && existingMember->value.IsArray()) {
            auto existingArray = existingMember->value.GetArray();
            push(item.second, existingArray, allocator);
            continue;
        }
        RAPIDJSON_NAMESPACE::Value newArrayValue(RAPIDJSON_NAMESPACE::kArrayType);
        auto newArray = newArrayValue.GetArray();
        push(item.second, newArray, allocator);
        value.AddMember(memberName, newArrayValue, allocator);
'''))

ref("push-variant-get-if", J, ('''    RAPIDJSON_NAMESPACE::Value index, data;
    index.SetUint64(reflectable.index());
''', '''    RAPIDJSON_NAMESPACE::Value index(static_cast<std::uint64_t>(reflectable.index())), data;
'''))

ref("pull-object-guard-class", J, ('''    // set error context for current member
    const char *previousMember = nullptr;
    if (errors) {
        previousMember = errors->currentMember;
        errors->currentMember = name;
    }

    // actually pull value for member
    pull<Type>(reflectable, member->value, errors);

    // restore previous error context
    if (errors) {
        errors->currentMember = previousMember;
    }
''', '''    if (!errors) {
        pull<Type>(reflectable, member->value, errors);
        return;
    }
    auto *const previousMember = errors->currentMember;
    errors->currentMember = name;
    pull<Type>(reflectable, member->value, errors);
    errors->currentMember = previousMember;
'''))

ref("errors-kind-traits", E, ('''inline void JsonDeserializationErrors::throwMaybe(ThrowOn on) const
{
    if (static_cast<std::uint8_t>(throwOn) & static_cast<std::uint8_t>(on)) {
        throw back();
    }
}''', '''inline void JsonDeserializationErrors::throwMaybe(ThrowOn on) const
{
    using Flags = std::underlying_type_t<ThrowOn>;
    const auto fatal = (static_cast<Flags>(throwOn) & static_cast<Flags>(on)) != 0;
    if (!fatal) {
        return;
    }
    const auto &lastError = back();
    throw lastError;
}'''))

ref("chrono-string-directly", C, ('''    std::string str;
    pull(str, value, errors);
    if (!value.IsString()) {
        return; // type mismatch has already been reported
    }
    if (str.find('\\0') != std::string::npos) {
        // treat everything after a null character as invalid as well (and not as end of the string)
        if (errors) {
            errors->reportConversionError(JsonType::String);
        }
        return;
    }
    try {
        reflectable = CppUtilities::TimeSpan::fromString(str.data());
    } catch (const CppUtilities::ConversionException &) {
        if (errors) {
            errors->reportConversionError(JsonType::String);
        }
    }
''', '''    if (!value.IsString()) {
        if (errors) {
            errors->reportTypeMismatch<std::string>(value.GetType());
        }
        return;
    }
    const std::string str(value.GetString(), value.GetStringLength());
    auto valid = str.find('\\0') == std::string::npos;
    if (valid) {
        try {
            reflectable = CppUtilities::TimeSpan::fromString(str);
        } catch (const CppUtilities::ConversionException &) {
            valid = false;
        }
    }
    if (!valid && errors) {
        errors->reportConversionError(JsonType::String);
    }
'''))

ref("bin-shared-read-switch", B, ('''    const auto id = (mode & 0x4) ? readUInt64BE() : readVariableLengthUIntBE(); // the 3rd bit being flagged indicates a big ID
    if ((mode & 0x3) == 1) {
        // first occurrence: make a new pointer
        m_pointer[id] = pointer = std::make_shared<typename Type::element_type>();
        read(*pointer);
        return;
    }
    // further occurrences: copy previous pointer
    try {
        pointer = std::any_cast<Type>(m_pointer[id]);
    } catch (const std::bad_any_cast &) {
        throw CppUtilities::ConversionException("Referenced pointer type does not match");
    }
''', '''    std::uint64_t id;
    if (mode & 0x4) {
        id = readUInt64BE();
    } else {
        id = readVariableLengthUIntBE();
    }
    auto &entry = m_pointer[id];
    switch (mode & 0x3) {
    case 1:
        pointer = std::make_shared<typename Type::element_type>();
        entry = pointer;
        read(*pointer);
        break;
    default:
        if (const auto *const previous = std::any_cast<Type>(&entry)) {
            pointer = *previous;
        } else {
            throw CppUtilities::ConversionException("Referenced pointer type does not match");
        }
    }
'''))

ref("bin-shared-write-early", B, ('''    auto &alreadyWritten = m_pointer[id];
    std::uint8_t mode = alreadyWritten ? 2 : 1;
    if (bigId) {
        mode = mode | 0x4; // "flag" 3rd bit to indicate big ID
    }
    writeByte(mode);
    if (bigId) {
        writeUInt64BE(id);
    } else {
        writeVariableLengthUIntBE(id);
    }
    if (!alreadyWritten) {
        alreadyWritten = true;
        write(*pointer);
    }
''', '''    const auto [entry, firstOccurrence] = m_pointer.try_emplace(id, true);
    CPP_UTILITIES_UNUSED(entry)
    const auto mode = firstOccurrence ? 1 : 2;
    if (bigId) {
        writeByte(static_cast<std::uint8_t>(mode | 0x4));
        writeUInt64BE(id);
    } else {
        writeByte(static_cast<std::uint8_t>(mode));
        writeVariableLengthUIntBE(id);
    }
    if (firstOccurrence) {
        write(*pointer);
    }
'''))

ref("bin-iteratable-local-function", B, ('''    const auto size = readVariableLengthUIntBE();
    iteratable.clear();
    for (size_t i = 0; i != size; ++i) {
        typename Type::value_type value;
        read(value);
        iteratable.emplace(std::move(value));
    }
''', '''    iteratable.clear();
    for (auto remaining = readVariableLengthUIntBE(); remaining > 0; --remaining) {
        auto value = typename Type::value_type();
        read(value);
        iteratable.insert(std::move(value));
    }
'''))

ref("bin-variant-constexpr-branch", B, ('''        if (compiletimeIndex == runtimeIndex) {
            if constexpr (std::is_same_v<std::variant_alternative_t<compiletimeIndex, Variant>, std::monostate>) {
                variant = std::monostate{};
            } else {
                deserializer.read(variant.template emplace<compiletimeIndex>());
            }
        } else {
            readVariantValueByRuntimeIndex<Variant, compiletimeIndex + 1>(runtimeIndex, variant, deserializer);
        }
''', '''        using Alternative = std::variant_alternative_t<compiletimeIndex, Variant>;
        if (compiletimeIndex != runtimeIndex) {
            return readVariantValueByRuntimeIndex<Variant, compiletimeIndex + 1>(runtimeIndex, variant, deserializer);
        }
        auto &value = variant.template emplace<compiletimeIndex>();
        if constexpr (std::is_same_v<Alternative, std::monostate>) {
            CPP_UTILITIES_UNUSED(value)
            CPP_UTILITIES_UNUSED(deserializer)
        } else {
            deserializer.read(value);
        }
'''))

ref("gen-base-find-if", G + "codegenerator.cpp", ('''    for (clang::CXXBaseSpecifier &base : record->bases()) {
        clang::CXXRecordDecl *const baseDecl = base.getType()->getAsCXXRecordDecl();
        if (baseDecl && baseDecl->getQualifiedNameAsString() == templateClass) {
            return &base;
        }
    }
    return nullptr;
''', '''    const auto bases = record->bases();
    const auto base = std::find_if(bases.begin(), bases.end(), [templateClass](const clang::CXXBaseSpecifier &b) {
        const auto *const baseDecl = b.getType()->getAsCXXRecordDecl();
        return baseDecl && baseDecl->getQualifiedNameAsString() == templateClass;
    });
    return base != bases.end() ? &*base : nullptr;
'''))

ref("gen-only-included-early", G + "codegenerator.cpp", ('''    return m_sourceManager
        && m_sourceManager->getFileID(m_sourceManager->getExpansionLoc(declaration->getSourceRange().getBegin())) != m_sourceManager->getMainFileID();
''', '''    if (!m_sourceManager) {
        return false;
    }
    const auto &sourceManager = *m_sourceManager;
    const auto location = sourceManager.getExpansionLoc(declaration->getSourceRange().getBegin());
    const auto inMainFile = sourceManager.getFileID(location) == sourceManager.getMainFileID();
    return !inMainFile;
'''))

ref("gen-factory-for-each", G + "codefactory.cpp", ('''    for (const auto &generator : m_generators) {
        generator->generate(m_os);
    }
    return true;
''', '''    std::for_each(m_generators.cbegin(), m_generators.cend(), [this](const auto &generator) { generator->generate(m_os); });
    return true;
'''))

ref("gen-clang-args-copy-algorithm", G + "codefactory.cpp", ('''    clangArgs.insert(clangArgs.end(), flags.begin(), flags.end());
    clangArgs.insert(clangArgs.end(), m_clangOptions.cbegin(), m_clangOptions.cend());
    clangArgs.insert(clangArgs.end(), m_sourceFiles.cbegin(), m_sourceFiles.cend());
    return clangArgs;
''', '''    clangArgs.assign(flags.begin(), flags.end());
    for (const auto &option : m_clangOptions) {
        clangArgs.push_back(std::string(option));
    }
    for (const auto *const sourceFile : m_sourceFiles) {
        clangArgs.emplace_back(sourceFile);
    }
    return clangArgs;
'''))

ref("todocument-string-shared", J, ('''    RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kObjectType);
    push(reflectable, document, document.GetAllocator());
    return document;
''', '''    RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kObjectType);
    auto &allocator = document.GetAllocator();
    RAPIDJSON_NAMESPACE::Value &root = document;
    push(reflectable, root, allocator);
    return document;
'''))

ref("parse-doc-parse-result", J, ('''    const RAPIDJSON_NAMESPACE::ParseResult parseRes = document.Parse(json, jsonSize);
    if (parseRes.IsError()) {
        throw parseRes;
    }
    return document;
''', '''    document.Parse(json, jsonSize);
    if (!document.HasParseError()) {
        return document;
    }
    throw RAPIDJSON_NAMESPACE::ParseResult(document.GetParseError(), document.GetErrorOffset());
'''))
