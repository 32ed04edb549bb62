// What type information tells: categories, built-in types, and hand-made descriptors of all kinds.
#include <memory>
#include <utility>

#include "trace.h"
#include "zserio/ReflectableData.h"
#include "zserio/TypeInfo.h"
#include "zserio/TypeInfoUtil.h"

using namespace zserio;
namespace
{
using vt::Rng;
using Alloc = std::allocator<uint8_t>;

#define INTS(X, P) \
    X(P##1) X(P##2) X(P##3) X(P##4) X(P##5) X(P##6) X(P##7) X(P##8) X(P##9) X(P##10) X(P##11) X(P##12) X(P##13) X(P##14) X(P##15) X(P##16) \
    X(P##17) X(P##18) X(P##19) X(P##20) X(P##21) X(P##22) X(P##23) X(P##24) X(P##25) X(P##26) X(P##27) X(P##28) X(P##29) X(P##30) X(P##31) X(P##32) \
    X(P##33) X(P##34) X(P##35) X(P##36) X(P##37) X(P##38) X(P##39) X(P##40) X(P##41) X(P##42) X(P##43) X(P##44) X(P##45) X(P##46) X(P##47) X(P##48) \
    X(P##49) X(P##50) X(P##51) X(P##52) X(P##53) X(P##54) X(P##55) X(P##56) X(P##57) X(P##58) X(P##59) X(P##60) X(P##61) X(P##62) X(P##63) X(P##64)
#define OTHERS(X) X(BYTES) X(STRING) X(ENUM) X(BITMASK) X(STRUCT) X(CHOICE) X(UNION) X(SQL_TABLE) X(SQL_DATABASE) X(SERVICE) X(PUBSUB)
struct SchemaName
{
    SchemaType t;
    const char* n;
};
struct CppName
{
    CppType t;
    const char* n;
};
const std::vector<SchemaName> SCHEMA = {
#define X(N) {SchemaType::N, #N},
        X(BOOL) INTS(X, INT) INTS(X, UINT) X(VARINT16) X(VARINT32) X(VARINT64) X(VARINT) X(VARUINT16) X(VARUINT32) X(VARUINT64) X(VARUINT) X(VARSIZE)
                X(DYNAMIC_SIGNED_BITFIELD) X(DYNAMIC_UNSIGNED_BITFIELD) X(FLOAT16) X(FLOAT32) X(FLOAT64) X(EXTERN) OTHERS(X)
#undef X
};
const std::vector<CppName> CPP = {
#define X(N) {CppType::N, #N},
        X(BOOL) X(INT8) X(INT16) X(INT32) X(INT64) X(UINT8) X(UINT16) X(UINT32) X(UINT64) X(FLOAT) X(DOUBLE) X(BIT_BUFFER) OTHERS(X)
#undef X
};
std::string quoted(const std::string& s)
{
    return "\"" + s + "\"";
}
std::string strs(const std::vector<std::string>& v)
{
    std::string s;
    for (const auto& x : v)
        s += (s.empty() ? "" : ",") + quoted(x);
    return "[" + s + "]";
}
const char* nameOf(SchemaType t)
{
    for (const auto& x : SCHEMA)
        if (x.t == t)
            return x.n;
    return "?";
}
const char* nameOf(CppType t)
{
    for (const auto& x : CPP)
        if (x.t == t)
            return x.n;
    return "?";
}
// ---- contents as text, the same for what is given and what is told
std::string text(std::string_view s)
{
    return std::string(s);
}
std::string text(bool b)
{
    return b ? "true" : "false";
}
std::string text(const ITypeInfo& t)
{
    char a[32];
    snprintf(a, sizeof a, "@%p", static_cast<const void*>(&t));
    return a;
}
std::string text(Span<const std::string_view> v)
{
    std::string s;
    for (const auto& x : v)
        s += std::string(x) + ";";
    return "(" + s + ")";
}
std::string text(const FieldInfo& f)
{
    return text(f.schemaName) + text(f.typeInfo) + text(f.typeArguments) + text(f.isExtended) + "/" + text(f.alignment) + "/" + text(f.offset) + "/" +
            text(f.initializer) + "/" + text(f.isOptional) + "/" + text(f.optionalCondition) + "/" + text(f.constraint) + "/" + text(f.isArray) + "/" + text(f.arrayLength) + "/" +
            text(f.isPacked) + "/" + text(f.isImplicit);
}
std::string text(const ParameterInfo& f)
{
    return text(f.schemaName) + text(f.typeInfo);
}
std::string text(const FunctionInfo& f)
{
    return text(f.schemaName) + text(f.typeInfo) + text(f.functionResult);
}
std::string text(const CaseInfo& f)
{
    return text(f.caseExpressions) + (f.field ? text(f.field->schemaName) : "none");
}
std::string text(const ItemInfo& f)
{
    return text(f.schemaName) + std::to_string(f.value) + text(f.isDeprecated) + text(f.isRemoved);
}
std::string text(const ColumnInfo& f)
{
    return text(f.schemaName) + text(f.typeInfo) + text(f.typeArguments) + text(f.sqlTypeName) + "/" + text(f.sqlConstraint) + "/" + text(f.isVirtual);
}
std::string text(const TableInfo& f)
{
    return text(f.schemaName) + text(f.typeInfo);
}
std::string text(const TemplateArgumentInfo& f)
{
    return text(f.typeInfo);
}
std::string text(const MessageInfo& f)
{
    return text(f.schemaName) + text(f.typeInfo) + text(f.isPublished) + text(f.isSubscribed) + text(f.topic);
}
std::string text(const MethodInfo& f)
{
    return text(f.schemaName) + text(f.responseTypeInfo) + text(f.requestTypeInfo);
}
template <typename T, std::enable_if_t<!std::is_same_v<T, const std::string_view>, int> = 0>
std::string text(Span<T> v)
{
    std::string s;
    for (const auto& x : v)
        s += text(x) + ";";
    return "(" + s + ")";
}
std::string made(const IReflectableDataPtr& p)
{
    return p ? std::to_string(p->getUInt32()) : "null";
}
template <typename F>
std::string asked(F&& f, bool number = false)
{
    try
    {
        const auto& r = f();
        return number ? "[\"v\"," + r + "]" : "[\"v\"," + quoted(r) + "]";
    }
    catch (const CppRuntimeException&)
    {
        return "[\"no\",[]]";
    }
}
std::string all(const ITypeInfo& t, bool plain)
{
    std::string s = "[" + asked([&] { return std::to_string(t.getBitSize()); }, true);
    auto add = [&](const std::string& x) { s += "," + x; };
    add(asked([&] { return text(t.getFields()); }));
    add(asked([&] { return text(t.getParameters()); }));
    add(asked([&] { return text(t.getFunctions()); }));
    add(asked([&] { return text(t.getSelector()); }));
    add(asked([&] { return text(t.getCases()); }));
    add(asked([&] { return text(t.getUnderlyingType()); }));
    add(asked([&] { return text(t.getEnumItems()); }));
    add(asked([&] { return text(t.getBitmaskValues()); }));
    add(asked([&] { return text(t.getColumns()); }));
    add(asked([&] { return text(t.getSqlConstraint()); }));
    add(asked([&] { return text(t.getVirtualTableUsing()); }));
    add(asked([&] { return text(t.isWithoutRowId()); }));
    add(asked([&] { return text(t.getTables()); }));
    add(asked([&] { return text(t.getTemplateName()); }));
    add(asked([&] { return text(t.getTemplateArguments()); }));
    add(asked([&] { return text(t.getMessages()); }));
    add(asked([&] { return text(t.getMethods()); }));
    add(asked([&] { return made(plain ? t.createInstance() : t.createInstance(Alloc())); }));
    return s + "]";
}

uint32_t g_made = 0;
UInt32 g_value;
IReflectableDataPtr make(const Alloc& a)
{
    g_value = UInt32(g_made);
    return reflectable(g_value, a);
}
const ITypeInfo* g_info = nullptr;
const ITypeInfo& current()
{
    return *g_info;
}

struct Driver
{
    vt::Trace& t;
    Rng& g;
    std::vector<std::unique_ptr<std::string>> kept;
    std::string_view word()
    {
        static const char* const W[] = {"", "a", "value", "Value", "x.y", "name0", "numbers[i]", "test"};
        kept.push_back(std::make_unique<std::string>(W[g.below(8)]));
        return *kept.back();
    }
    const ITypeInfo& some()
    {
        switch (g.below(6))
        {
        case 0: return typeInfo<UInt8>();
        case 1: return typeInfo<Int57>();
        case 2: return typeInfo<String>();
        case 3: return typeInfo<Bool>();
        case 4: return typeInfo<VarSize>();
        default: return typeInfo<Float16>();
        }
    }
    bool flag() { return g.chance(50); }
    void categories()
    {
        for (const auto& x : SCHEMA)
            vt::Ev(t, "Pred").s("schema", x.n).raw("is", bools({TypeInfoUtil::isCompound(x.t), TypeInfoUtil::hasChoice(x.t), TypeInfoUtil::isFixedSize(x.t),
                                                                       TypeInfoUtil::isIntegral(x.t), TypeInfoUtil::isSigned(x.t), TypeInfoUtil::isFloatingPoint(x.t)}));
        for (const auto& x : CPP)
            vt::Ev(t, "PredCpp").s("cpp", x.n).raw("is", bools({TypeInfoUtil::isCompound(x.t), TypeInfoUtil::hasChoice(x.t), TypeInfoUtil::isFixedSize(x.t),
                                                                       TypeInfoUtil::isIntegral(x.t), TypeInfoUtil::isSigned(x.t), TypeInfoUtil::isFloatingPoint(x.t)}));
    }
    static std::string bools(const std::vector<bool>& v)
    {
        std::string s;
        for (const bool x : v)
            s += (s.empty() ? "" : ",") + text(x);
        return "[" + s + "]";
    }
    void builtin(const char* k, size_t w, bool sg, const ITypeInfo& i)
    {
        g_info = &i;
        const detail::RecursiveTypeInfo<Alloc> r(current);
        const bool through = flag();
        const ITypeInfo& x = through ? static_cast<const ITypeInfo&>(r) : i;
        vt::Ev(t, "Builtin").s("k", k).i("w", static_cast<int64_t>(w)).b("sg", sg).s("name", text(x.getSchemaName())).s("schema", nameOf(x.getSchemaType()))
                .s("cpp", nameOf(x.getCppType())).raw("got", all(x, flag()));
    }
    template <size_t... I>
    void fixed(std::index_sequence<I...>)
    {
        (builtin("fix", I + 1, true, typeInfo<detail::FixedIntWrapper<I + 1, true>>()), ...);
        (builtin("fix", I + 1, false, typeInfo<detail::FixedIntWrapper<I + 1, false>>()), ...);
    }
    void builtins()
    {
        fixed(std::make_index_sequence<64>());
        builtin("dyn", 8, true, typeInfo<detail::DynIntWrapper<int8_t>>());
        builtin("dyn", 16, true, typeInfo<detail::DynIntWrapper<int16_t>>());
        builtin("dyn", 32, true, typeInfo<detail::DynIntWrapper<int32_t>>());
        builtin("dyn", 64, true, typeInfo<detail::DynIntWrapper<int64_t>>());
        builtin("dyn", 8, false, typeInfo<detail::DynIntWrapper<uint8_t>>());
        builtin("dyn", 16, false, typeInfo<detail::DynIntWrapper<uint16_t>>());
        builtin("dyn", 32, false, typeInfo<detail::DynIntWrapper<uint32_t>>());
        builtin("dyn", 64, false, typeInfo<detail::DynIntWrapper<uint64_t>>());
        builtin("bool", 0, false, typeInfo<Bool>());
        builtin("f16", 0, false, typeInfo<Float16>());
        builtin("f32", 0, false, typeInfo<Float32>());
        builtin("f64", 0, false, typeInfo<Float64>());
        builtin("v16", 0, false, typeInfo<VarInt16>());
        builtin("v32", 0, false, typeInfo<VarInt32>());
        builtin("v64", 0, false, typeInfo<VarInt64>());
        builtin("v", 0, false, typeInfo<VarInt>());
        builtin("vu16", 0, false, typeInfo<VarUInt16>());
        builtin("vu32", 0, false, typeInfo<VarUInt32>());
        builtin("vu64", 0, false, typeInfo<VarUInt64>());
        builtin("vu", 0, false, typeInfo<VarUInt>());
        builtin("vs", 0, false, typeInfo<VarSize>());
        builtin("bytes", 0, false, typeInfo<Bytes>());
        builtin("string", 0, false, typeInfo<String>());
        builtin("string", 0, false, typeInfo<std::string_view>());
        builtin("extern", 0, false, typeInfo<BitBuffer>());
    }
    void descriptor(const char* kind, std::string_view name, const std::vector<std::pair<size_t, std::string>>& c, const ITypeInfo& i)
    {
        g_info = &i;
        const detail::RecursiveTypeInfo<Alloc> r(current);
        const ITypeInfo& x = flag() ? static_cast<const ITypeInfo&>(r) : i;
        std::vector<std::string> v(19);
        for (const auto& y : c)
            v[y.first - 1] = y.second;
        vt::Ev(t, "Desc").s("kind", kind).s("given", text(name)).s("name", text(x.getSchemaName())).s("schema", nameOf(x.getSchemaType()))
                .s("cpp", nameOf(x.getCppType())).raw("c", strs(v)).raw("got", all(x, flag()));
    }
    void random()
    {
        kept.clear();
        const std::string_view name = word();
        std::vector<std::string_view> w;
        for (size_t n = g.below(4); n > 0; --n)
            w.push_back(word());
        const Span<const std::string_view> words(w);
        std::vector<FieldInfo> fields;
        for (size_t n = g.below(4); n > 0; --n)
            fields.emplace_back(word(), some(), flag() ? words : Span<const std::string_view>(), flag(), word(), word(), word(), flag(), word(), word(), flag(), word(), flag(), flag());
        std::vector<ParameterInfo> params;
        for (size_t n = g.below(3); n > 0; --n)
            params.push_back({word(), some()});
        std::vector<FunctionInfo> functions;
        for (size_t n = g.below(3); n > 0; --n)
            functions.push_back({word(), some(), word()});
        std::vector<CaseInfo> cases;
        for (size_t n = g.below(3); n > 0; --n)
            cases.push_back({words, fields.empty() ? nullptr : &fields[g.below(fields.size())]});
        std::vector<ItemInfo> items;
        for (size_t n = g.below(4); n > 0; --n)
            items.emplace_back(word(), g.magnitude(64), flag(), flag());
        std::vector<ColumnInfo> columns;
        for (size_t n = g.below(3); n > 0; --n)
            columns.emplace_back(word(), some(), words, word(), word(), flag());
        std::vector<TableInfo> tables;
        for (size_t n = g.below(3); n > 0; --n)
            tables.push_back({word(), some()});
        std::vector<TemplateArgumentInfo> targs;
        for (size_t n = g.below(3); n > 0; --n)
            targs.push_back({some()});
        std::vector<MessageInfo> messages;
        for (size_t n = g.below(3); n > 0; --n)
            messages.emplace_back(word(), some(), flag(), flag(), word());
        std::vector<MethodInfo> methods;
        for (size_t n = g.below(3); n > 0; --n)
            methods.push_back({word(), some(), some()});
        const std::string_view tpl = word(), sel = word(), con = word(), use = word();
        const bool norowid = flag();
        const ITypeInfo& under = some();
        g_made = static_cast<uint32_t>(g.magnitude(32));
        const bool can = flag();
        IReflectableDataPtr (*const f)(const Alloc&) = can ? make : nullptr;
        const std::string create = can ? std::to_string(g_made) : "";
        const Span<const FieldInfo> sf(fields);
        const Span<const ParameterInfo> sp(params);
        const Span<const FunctionInfo> su(functions);
        const Span<const CaseInfo> sc(cases);
        const Span<const ItemInfo> si(items);
        const Span<const ColumnInfo> so(columns);
        const Span<const TableInfo> st(tables);
        const Span<const TemplateArgumentInfo> sa(targs);
        const Span<const MessageInfo> sm(messages);
        const Span<const MethodInfo> sd(methods);
        using C = std::vector<std::pair<size_t, std::string>>;
        const C comp = {{2, text(sf)}, {3, text(sp)}, {4, text(su)}, {15, text(tpl)}, {16, text(sa)}, {19, create}};
        switch (g.below(9))
        {
        case 0: descriptor("struct", name, comp, detail::StructTypeInfo<Alloc>(name, f, tpl, sa, sf, sp, su)); break;
        case 1: descriptor("union", name, comp, detail::UnionTypeInfo<Alloc>(name, f, tpl, sa, sf, sp, su)); break;
        case 2:
        {
            C c = comp;
            c.push_back({5, text(sel)});
            c.push_back({6, text(sc)});
            descriptor("choice", name, c, detail::ChoiceTypeInfo<Alloc>(name, f, tpl, sa, sf, sp, su, sel, sc));
            break;
        }
        case 3: descriptor("enum", name, {{7, text(under)}, {8, text(si)}}, detail::EnumTypeInfo<Alloc>(name, under, si)); break;
        case 4: descriptor("mask", name, {{7, text(under)}, {9, text(si)}}, detail::BitmaskTypeInfo<Alloc>(name, under, si)); break;
        case 5:
            descriptor("table", name, {{10, text(so)}, {11, text(con)}, {12, text(use)}, {13, text(norowid)}, {15, text(tpl)}, {16, text(sa)}},
                    detail::SqlTableTypeInfo<Alloc>(name, tpl, sa, so, con, use, norowid));
            break;
        case 6: descriptor("database", name, {{14, text(st)}}, detail::SqlDatabaseTypeInfo<Alloc>(name, st)); break;
        case 7: descriptor("pubsub", name, {{17, text(sm)}}, detail::PubsubTypeInfo<Alloc>(name, sm)); break;
        default: descriptor("service", name, {{18, text(sd)}}, detail::ServiceTypeInfo<Alloc>(name, sd));
        }
    }
    void run()
    {
        categories();
        builtins();
        while (t.size() < 100000000)
        {
            random();
            if (done())
                return;
        }
    }
    size_t most = 0;
    bool done() { return t.size() >= most; }
};
} // namespace
int main(int argc, char** argv)
{
    vt::Args args(argc, argv);
    vt::Trace t(args.out);
    Rng g(args.seed);
    Driver d{t, g, {}};
    d.most = args.n;
    d.run();
    vt::Ev(t, "End");
    return 0;
}
