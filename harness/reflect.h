// Values seen through reflection as trees of the same form as objects.h makes of the data.
#ifndef VERIF_REFLECT_H
#define VERIF_REFLECT_H
#include <cstring>
#include <map>

#include "objects.h"
#include "zserio/IReflectableData.h"
#include "zserio/ITypeInfo.h"
#include "zserio/TypeInfoUtil.h"

namespace obj
{
template <typename PTR, typename INFO>
std::string rnode(const PTR& p, const INFO& info);
template <typename PTR>
std::string rscalar(const PTR& p, zserio::CppType type)
{
    switch (type)
    {
    case zserio::CppType::BOOL: return p->getBool() ? "[\"i\",[1]]" : "[\"i\",[0]]";
    case zserio::CppType::INT8: return scalar(p->getInt8());
    case zserio::CppType::INT16: return scalar(p->getInt16());
    case zserio::CppType::INT32: return scalar(p->getInt32());
    case zserio::CppType::INT64: return scalar(p->getInt64());
    case zserio::CppType::UINT8: return scalar(p->getUInt8());
    case zserio::CppType::UINT16: return scalar(p->getUInt16());
    case zserio::CppType::UINT32: return scalar(p->getUInt32());
    case zserio::CppType::UINT64: return scalar(p->getUInt64());
    case zserio::CppType::BYTES: return "[\"y\"," + ints(vt::bytes(p->getBytes())) + "]";
    case zserio::CppType::STRING: return "[\"s\"," + ints(vt::chars(p->getStringView())) + "]";
    case zserio::CppType::BIT_BUFFER: return "[\"x\"," + ints(bufferBits(p->getBitBuffer())) + "]";
    default: return "[\"?\"]";
    }
}
template <typename PTR, typename FIELD>
std::string rfield(const PTR& p, const FIELD& f)
{
    if (!p)
        return "[\"n\"]";
    if (!f.isArray)
        return rnode(p, f.typeInfo);
    std::string s;
    for (size_t i = 0; i < p->size(); ++i)
        s += (s.empty() ? "" : ",") + rnode(p->at(i), f.typeInfo);
    return "[\"a\",[" + s + "]]";
}
template <typename PTR, typename INFO>
std::string rnode(const PTR& p, const INFO& info)
{
    if (!p)
        return "[\"n\"]";
    switch (info.getCppType())
    {
    case zserio::CppType::ENUM:
    case zserio::CppType::BITMASK: return rscalar(p, info.getUnderlyingType().getCppType());
    case zserio::CppType::STRUCT:
    {
        std::string s;
        for (const auto& f : info.getFields())
            s += (s.empty() ? "" : ",") + rfield(p->getField(f.schemaName), f);
        return "[\"o\",[" + s + "]]";
    }
    case zserio::CppType::CHOICE:
    case zserio::CppType::UNION:
    {
        const std::string_view c = p->getChoice();
        size_t k = 0;
        for (const auto& f : info.getFields())
        {
            ++k;
            if (f.schemaName == c)
                return "[\"c\"," + std::to_string(k) + ",[" + rfield(p->getField(c), f) + "]]";
        }
        return "[\"c\",0,[]]";
    }
    default: return rscalar(p, info.getCppType());
    }
}
// the name of a type in the specification
template <typename INFO>
std::string tname(const INFO& info)
{
    const std::string_view n = info.getSchemaName();
    if (n.rfind('.') != std::string_view::npos)
        return std::string(n.substr(n.rfind('.') + 1));
    static const std::map<std::string_view, std::string> builtin = {{"uint8", "u8"}, {"uint16", "u16"}, {"uint32", "u32"}, {"uint64", "u64"},
            {"int8", "i8"}, {"int16", "i16"}, {"int32", "i32"}, {"int64", "i64"}, {"int:31", "i31"}, {"int:8", "i8"}, {"int:16", "i16"}, {"int:32", "i32"}, {"int:64", "i64"}, {"bit:31", "bit31"}, {"bit:8", "u8"}, {"bit:16", "u16"}, {"bit:32", "u32"}, {"bit:64", "u64"}};
    const auto it = builtin.find(n);
    return it == builtin.end() ? std::string(n) : it->second;
}
// calls f(Type<X>) for the type of that name
template <typename F>
bool withNamed(const std::string& n, F&& f)
{
    if (n == "u8") f(Type<zserio::UInt8>());
    else if (n == "u16") f(Type<zserio::UInt16>());
    else if (n == "u32") f(Type<zserio::UInt32>());
    else if (n == "u64") f(Type<zserio::UInt64>());
    else if (n == "i31") f(Type<zserio::Int31>());
    else if (n == "i32") f(Type<zserio::Int32>());
    else if (n == "bit31") f(Type<zserio::UInt31>());
    else if (n == "bool") f(Type<zserio::Bool>());
    else if (n == "string") f(Type<zserio::String>());
    else if (n == "extern") f(Type<zserio::BitBuffer>());
    else if (n == "bytes") f(Type<zserio::Bytes>());
    else if (n == "CreatorEnum") f(Type<CreatorEnum>());
    else if (n == "CreatorBitmask") f(Type<CreatorBitmask>());
    else if (n == "ReflectableEnum") f(Type<ReflectableEnum>());
    else if (n == "ReflectableUtilEnum") f(Type<ReflectableUtilEnum>());
    else if (n == "ReflectableUtilBitmask") f(Type<ReflectableUtilBitmask>());
    else
    {
        bool hit = false;
        for (size_t i = 0; i < NTYPES && !hit; ++i)
            withType(i, [&](auto T) {
                if (n == Shape<typename decltype(T)::type>::name)
                {
                    f(T);
                    hit = true;
                }
            });
        return hit;
    }
    return true;
}
inline const std::vector<std::string> NAMES = {"u8", "u16", "u32", "u64", "bit31", "bool", "string", "extern", "bytes", "CreatorEnum", "CreatorBitmask",
        "ReflectableEnum", "ReflectableUtilEnum", "ReflectableUtilBitmask", "CreatorNested", "WalkerNested", "WalkerUnion", "ReflectableNested", "ReflectableUtilChoice"};

// ---------------------------------------------------------------- what is seen
inline const std::string NAY = "[\"no\",[]]";
template <typename F>
std::string acc(F&& f)
{
    try
    {
        return "[\"v\"," + f() + "]";
    }
    catch (const zserio::CppRuntimeException&)
    {
        return NAY;
    }
}
template <typename V>
std::string raw(V v)
{
    return ints(vt::bits(static_cast<uint64_t>(static_cast<int64_t>(v)), sizeof(V) * 8));
}
inline std::string rawDouble(double d)
{
    uint64_t x;
    memcpy(&x, &d, 8);
    return ints(vt::bits(x, 64));
}
inline std::string rawFloat(float d)
{
    uint32_t x;
    memcpy(&x, &d, 4);
    return ints(vt::bits(x, 32));
}
template <typename P>
std::string accessors(const P& p)
{
    std::string s = "[";
    s += acc([&] { return std::string(p->getBool() ? "[1]" : "[0]"); }) + ",";
    s += acc([&] { return raw(p->getInt8()); }) + ",";
    s += acc([&] { return raw(p->getInt16()); }) + ",";
    s += acc([&] { return raw(p->getInt32()); }) + ",";
    s += acc([&] { return raw(p->getInt64()); }) + ",";
    s += acc([&] { return raw(p->getUInt8()); }) + ",";
    s += acc([&] { return raw(p->getUInt16()); }) + ",";
    s += acc([&] { return raw(p->getUInt32()); }) + ",";
    s += acc([&] { return raw(p->getUInt64()); }) + ",";
    s += acc([&] { return rawFloat(p->getFloat()); }) + ",";
    s += acc([&] { return rawDouble(p->getDouble()); }) + ",";
    s += acc([&] { return ints(vt::bytes(p->getBytes())); }) + ",";
    s += acc([&] { return ints(vt::chars(p->getStringView())); }) + ",";
    s += acc([&] { return ints(bufferBits(p->getBitBuffer())); }) + ",";
    s += acc([&] { return raw(p->toInt()); }) + ",";
    s += acc([&] { return raw(p->toUInt()); }) + ",";
    s += acc([&] { return rawDouble(p->toDouble()); }) + ",";
    s += acc([&] { return ints(vt::chars(p->toString())); }) + "]";
    return s;
}
template <typename P>
std::string rtree(const P& p)
{
    if (!p->isArray())
        return rnode(p, p->getTypeInfo());
    std::string s;
    for (size_t i = 0; i < p->size(); ++i)
        s += (s.empty() ? "" : ",") + rtree((i & 1) ? p->at(i) : (*p)[i]);
    return "[\"a\",[" + s + "]]";
}
template <typename P>
std::string seen(const P& p)
{
    if (!p)
        return "[]";
    int64_t size = -1;
    std::string choice = "-";
    try
    {
        size = static_cast<int64_t>(p->size());
    }
    catch (const zserio::CppRuntimeException&)
    {}
    try
    {
        choice = std::string(p->getChoice());
    }
    catch (const zserio::CppRuntimeException&)
    {}
    return "[{\"arr\":" + std::string(p->isArray() ? "true" : "false") + ",\"t\":\"" + tname(p->getTypeInfo()) + "\",\"tree\":" + rtree(p) +
            ",\"size\":" + std::to_string(size) + ",\"choice\":\"" + choice + "\",\"acc\":" + accessors(p) + "}]";
}
} // namespace obj
#endif
