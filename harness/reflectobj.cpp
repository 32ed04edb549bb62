// Objects seen and changed through reflection.
#include <cstring>
#include "reflect.h"
#include "zserio/ReflectableData.h"
#include "zserio/ReflectableUtil.h"

using namespace obj;
using zserio::Any;
using zserio::IReflectableData;
using zserio::IReflectableDataConstPtr;
using zserio::IReflectableDataPtr;
using zserio::ReflectableUtil;
namespace
{
struct Place
{
    bool field;
    std::string name;
    size_t index;
};
using Path = std::vector<Place>;
std::string json(const std::string& s)
{
    return "\"" + s + "\""; // only plain names
}
size_t shown(size_t i)
{
    return i > 1000000 ? 1000000 : i;
}
std::string json(const Path& p)
{
    std::string s;
    for (const auto& x : p)
        s += (s.empty() ? "" : ",") + (x.field ? "[\"f\"," + json(x.name) + "]" : "[\"e\"," + std::to_string(shown(x.index)) + "]");
    return "[" + s + "]";
}

// the tree of what the any value of a place holds, read as type T
template <typename T, typename P>
std::string anyTree(const P& p, bool util)
{
    constexpr bool mut = std::is_same_v<P, IReflectableDataPtr> && !std::is_same_v<T, zserio::BitBuffer>;
    if constexpr (std::is_same_v<T, zserio::String>)
        return util ? node(ReflectableUtil::getValue<std::string_view>(IReflectableDataConstPtr(p))) : node(p->getAnyValue().template get<std::string_view>());
    else if constexpr (std::is_same_v<T, zserio::Bytes>)
    {
        const zserio::BytesView v = p->getAnyValue().template get<zserio::BytesView>();
        return "[\"y\"," + ints(vt::bytes(v)) + "]";
    }
    else if constexpr (zserio::detail::gets_value_by_value<T>::value)
        return util ? node(ReflectableUtil::getValue<T>(IReflectableDataConstPtr(p))) : node(p->getAnyValue().template get<T>());
    else if constexpr (mut)
        return util ? node(ReflectableUtil::getValue<T>(p)) : node(p->getAnyValue().template get<std::reference_wrapper<T>>().get());
    else
        return util ? node(ReflectableUtil::getValue<T>(p)) : node(p->getAnyValue().template get<std::reference_wrapper<const T>>().get());
}
template <typename P>
std::string anyOf(const P& p, bool util)
{
    std::string r = "[\"?\"]";
    withNamed(tname(p->getTypeInfo()), [&](auto T) {
        using X = typename decltype(T)::type;
        if (!p->isArray())
            r = anyTree<X>(p, util);
        else if constexpr (!std::is_same_v<X, zserio::Bool>)
            r = anyTree<zserio::Vector<X>>(p, util);
    });
    return r;
}
struct Val
{
    Any any;
    std::string j;
};

struct Driver
{
    vt::Trace& t;
    Rng& g;
    Gen gen;
    // the object and how it is reached
    std::shared_ptr<void> keep;
    std::function<std::string()> now;
    IReflectableDataPtr mp;
    IReflectableDataConstPtr cp;
    std::map<std::string, std::pair<Path, IReflectableDataPtr>> held;
    IReflectableDataConstPtr other;
    std::shared_ptr<void> keepOther;
    bool owner = false, ownerAny = false;

    Driver(vt::Trace& tr, Rng& r) : t(tr), g(r), gen{r, 10} {}

    // -------------------------------------------------------- values
    Val exact(const std::string& n, bool arr)
    {
        Val r;
        withNamed(n, [&](auto T) {
            using X = typename decltype(T)::type;
            if (arr)
            {
                if constexpr (!std::is_same_v<X, zserio::Bool>)
                {
                    zserio::Vector<X> v;
                    gen(v);
                    r = {Any(v), "[\"arr\",\"" + n + "\"," + node(v) + "]"};
                    return;
                }
            }
            X v{};
            gen(v);
            r = {Any(v), "[\"obj\",\"" + n + "\"," + node(v) + "]"};
        });
        return r;
    }
    template <typename V>
    Val cppValue(V v)
    {
        return {Any(v), "[\"cpp\"," + std::to_string(std::is_same_v<V, bool> ? 1 : sizeof(V) * 8) + (std::is_signed_v<V> ? ",true," : ",false,") +
                (std::is_same_v<V, bool> ? std::string(v ? "[1]" : "[0]") : raw(v)) + "]"};
    }
    Val cpp(const std::string& n)
    {
        Val r = cppValue(static_cast<int16_t>(g.next()));
        withNamed(n, [&](auto T) {
            using X = typename decltype(T)::type;
            if constexpr (std::is_enum_v<X>)
                r = cppValue(static_cast<std::underlying_type_t<X>>(g.range(-2, 3)));
            else if constexpr (zserio::is_bitmask_v<X>)
                r = cppValue(static_cast<typename X::ZserioType::ValueType>(g.chance(70) ? g.below(9) : g.next()));
            else if constexpr (std::is_same_v<X, zserio::Bool>)
                r = cppValue(g.chance(50));
            else if constexpr (zserio::is_numeric_wrapper_v<X>)
                r = cppValue(static_cast<typename X::ValueType>(g.magnitude(64)));
        });
        return r;
    }
    Val under(const std::string& n)
    {
        Val r = exact("u16", false);
        withNamed(n, [&](auto T) {
            using X = typename decltype(T)::type;
            if constexpr (std::is_enum_v<X>)
            {
                const zserio::Int8 v(static_cast<int8_t>(g.range(-2, 3)));
                r = {Any(v), "[\"obj\",\"i8\"," + node(v) + "]"};
            }
            else if constexpr (zserio::is_bitmask_v<X>)
            {
                const zserio::UInt8 v(static_cast<uint8_t>(g.next()));
                r = {Any(v), "[\"obj\",\"u8\"," + node(v) + "]"};
            }
        });
        return r;
    }
    Val value(const std::string& n, bool arr, unsigned wild = 25)
    {
        if (!g.chance(wild))
            return arr || g.chance(60) ? exact(n, arr) : g.chance(70) ? cpp(n) : under(n);
        switch (g.below(8))
        {
        case 0: case 1: return {Any(nullptr), "[\"null\"]"};
        case 2: return exact(n, !arr);
        case 3: return under(g.pick(NAMES));
        case 4: return cpp(g.pick(NAMES));
        case 5: return {Any(std::string_view("ONE")), "[\"sv\"]"};
        default: return exact(g.pick(NAMES), g.chance(30));
        }
    }
    // -------------------------------------------------------- walking
    template <typename P>
    P one(const P& p, const Place& s, std::string& how)
    {
        try
        {
            P r = s.field ? p->getField(s.name) : g.chance(50) ? p->at(s.index) : (*p)[s.index];
            if (!r)
                how = "null";
            return r;
        }
        catch (const zserio::CppRuntimeException&)
        {
            how = "refused";
            return nullptr;
        }
    }
    template <typename P>
    P walk(P p, const Path& path, size_t from, std::string& how)
    {
        how = "here";
        for (size_t i = from; i < path.size() && how == "here"; ++i)
            p = one(p, path[i], how);
        return how == "here" ? p : nullptr;
    }
    IReflectableDataPtr walkMut(const Path& path, std::string& how)
    {
        // a reflection of a part taken earlier serves as well as a new one
        for (const auto& h : held)
            if (h.second.first.size() <= path.size() && json(Path(path.begin(), path.begin() + static_cast<std::ptrdiff_t>(h.second.first.size()))) == h.first && g.chance(60))
                return walk(h.second.second, path, h.second.first.size(), how);
        return walk(mp, path, 0, how);
    }
    // a path to some place, mostly one which is there
    Path somewhere(IReflectableDataConstPtr p, unsigned wild, size_t most = 6)
    {
        Path path;
        while (p && path.size() < most && !g.chance(path.empty() ? 12 : 28))
        {
            const auto& info = p->getTypeInfo();
            std::string how = "here";
            if (p->isArray())
            {
                const size_t n = p->size();
                path.push_back({false, "", g.chance(wild) ? g.pick<size_t>({n, n + 1, ~size_t(0)}) : n == 0 ? 0 : g.below(n)});
                if (n == 0 && !g.chance(wild))
                {
                    path.pop_back();
                    break;
                }
            }
            else if (zserio::TypeInfoUtil::isCompound(info.getCppType()))
            {
                std::string n;
                if (g.chance(wild))
                    n = g.pick<const char*>({"value", "text", "nested", "", "valu", "nestedArray", "value32", "x", "Value"});
                else if (zserio::TypeInfoUtil::hasChoice(info.getCppType()) && g.chance(80))
                    n = std::string(p->getChoice());
                else
                    n = std::string(info.getFields()[g.below(info.getFields().size())].schemaName);
                path.push_back({true, n, 0});
            }
            else if (g.chance(wild))
                path.push_back({g.chance(50), "value", 0});
            else
                break;
            p = one(p, path.back(), how);
        }
        return path;
    }
    // -------------------------------------------------------- events
    template <typename P, typename F>
    void report(const Path& path, const std::string& op, const std::string& arg, bool forced, const std::string& how0, const P& p, F&& f)
    {
        std::string how = how0, r = "[]";
        if (how == "here")
        {
            try
            {
                f(p, r);
                how = "done";
            }
            catch (const zserio::CppRuntimeException&)
            {
                how = "refused";
            }
        }
        vt::Ev(t, "Call").raw("p", json(path)).s("op", op).raw("a", "{" + arg + "}").b("forced", forced).s("how", how).raw("r", r).raw("now", now());
    }
    template <typename P>
    void look(const Path& path, bool forced, const std::string& how, const P& p, const std::string& op)
    {
        if (op == "get")
        {
            const std::string n = nameAt(p);
            report(path, op, "\"n\":" + json(n), forced, how, p, [&](const P& q, std::string& r) { r = seen(q->getField(n)); });
        }
        else if (op == "at")
        {
            const size_t i = indexAt(p);
            report(path, op, "\"n\":\"\",\"i\":" + std::to_string(shown(i)), forced, how, p,
                    [&](const P& q, std::string& r) { r = seen(g.chance(50) ? q->at(i) : (*q)[i]); });
        }
        else if (op == "find")
        {
            std::string names, dotted;
            Path q = somewhere(p ? IReflectableDataConstPtr(p) : cp, 12, 5);
            size_t k = 0;
            for (const auto& x : q)
            {
                const std::string n = x.field ? x.name : g.chance(50) ? std::to_string(x.index) : "text";
                names += (k ? "," : "") + json(n);
                dotted += (k++ ? "." : "") + n;
            }
            if (q.empty())
                names = "\"\"";
            if (g.chance(8))
            {
                dotted += ".";
                names += ",\"\"";
            }
            report(path, op, "\"n\":\"\",\"names\":[" + names + "]", forced, how, p,
                    [&](const P& x, std::string& r) { r = seen(g.chance(50) ? x->find(dotted) : (*x)[dotted]); });
        }
        else
        {
            const bool util = g.chance(50);
            // what constant access to an owner yields for the whole object is a case of its own (mode owner)
            if (owner && path.empty() && std::is_same_v<P, IReflectableDataConstPtr> && !ownerAny)
                return;
            report(path, "any", "\"n\":\"\"", forced, how, p, [&](const P& x, std::string& r) {
                const std::string a = anyOf(x, util);
                if (a != rtree(x)) // what the any value holds is what there is
                    r = "[\"any value differs\"]";
                else
                    r = seen(x);
            });
        }
    }
    template <typename P>
    std::string nameAt(const P& p)
    {
        if (p && !p->isArray() && zserio::TypeInfoUtil::isCompound(p->getTypeInfo().getCppType()) && g.chance(85))
        {
            const auto f = p->getTypeInfo().getFields();
            return std::string(f[g.below(f.size())].schemaName);
        }
        return g.pick<const char*>({"value", "text", "nested", "", "valu", "array", "unionArray", "Text"});
    }
    template <typename P>
    size_t indexAt(const P& p)
    {
        const size_t n = p && p->isArray() ? p->size() : 0;
        return g.chance(75) && n > 0 ? g.below(n) : g.pick<size_t>({n, n + 1, 0, ~size_t(0)});
    }
    static const zserio::FieldInfo* fieldInfo(const IReflectableDataConstPtr& p, const std::string& n)
    {
        if (p && !p->isArray() && zserio::TypeInfoUtil::isCompound(p->getTypeInfo().getCppType()))
            for (const auto& f : p->getTypeInfo().getFields())
                if (f.schemaName == n)
                    return &f;
        return nullptr;
    }
    void change(const Path& path, bool forced, const std::string& how, const IReflectableDataPtr& p, const std::string& op)
    {
        const IReflectableDataConstPtr c = p;
        using P = IReflectableDataPtr;
        if (op == "set")
        {
            const std::string n = nameAt(p);
            const auto* f = fieldInfo(c, n);
            const Val v = f ? value(tname(f->typeInfo), f->isArray) : value("u32", false);
            setTo(path, forced, how, p, n, v);
        }
        else if (op == "create")
            create(path, forced, how, p, nameAt(p));
        else if (op == "resize")
            resize(path, forced, how, p, g.below(5));
        else if (op == "append")
            append(path, forced, how, p, value(p ? tname(p->getTypeInfo()) : "u32", false));
        else if (op == "setAt")
        {
            const size_t i = indexAt(p);
            const Val v = value(p ? tname(p->getTypeInfo()) : "u32", false);
            report(path, "setAt", "\"n\":\"\",\"i\":" + std::to_string(shown(i)) + ",\"v\":" + v.j, forced, how, p, [&](const P& q, std::string&) { q->setAt(v.any, i); });
        }
        else if (p)
            assign(path, p);
    }
    void setTo(const Path& path, bool forced, const std::string& how, const IReflectableDataPtr& p, const std::string& n, const Val& v)
    {
        report(path, "set", "\"n\":" + json(n) + ",\"v\":" + v.j, forced, how, p, [&](const auto& q, std::string&) { q->setField(n, v.any); });
    }
    void create(const Path& path, bool forced, const std::string& how, const IReflectableDataPtr& p, const std::string& n)
    {
        report(path, "create", "\"n\":" + json(n), forced, how, p, [&](const auto& q, std::string& r) { r = seen(q->createField(n)); });
    }
    void resize(const Path& path, bool forced, const std::string& how, const IReflectableDataPtr& p, size_t n)
    {
        report(path, "resize", "\"n\":\"\",\"i\":" + std::to_string(n), forced, how, p, [&](const auto& q, std::string&) { q->resize(n); });
    }
    void append(const Path& path, bool forced, const std::string& how, const IReflectableDataPtr& p, const Val& v)
    {
        report(path, "append", "\"n\":\"\",\"v\":" + v.j, forced, how, p, [&](const auto& q, std::string&) { q->append(v.any); });
    }
    void assign(const Path& path, const IReflectableDataPtr& p)
    {
        const std::string n = tname(p->getTypeInfo());
        withNamed(n, [&](auto T) {
            using X = typename decltype(T)::type;
            if (p->isArray())
            {
                if constexpr (!std::is_same_v<X, zserio::Bool>)
                    assignAs<zserio::Vector<X>>(path, p, n);
            }
            else if constexpr (Shape<X>::kind != 0)
                assignAs<X>(path, p, n);
        });
    }
    template <typename X>
    void assignAs(const Path& path, const IReflectableDataPtr& p, const std::string& n)
    {
        X v{};
        gen(v);
        report(path, "assign", "\"n\":\"\",\"v\":[\"obj\",\"" + n + "\"," + node(v) + "]", false, "here", p, [&](const auto& q, std::string&) {
            if (g.chance(50))
                ReflectableUtil::getValue<X>(q) = v;
            else
                q->getAnyValue().template get<std::reference_wrapper<X>>().get() = v;
        });
    }
    void see(const Path& path)
    {
        std::string how, r = "[]";
        if (mp && g.chance(60))
        {
            const auto p = walkMut(path, how);
            if (how == "here")
                r = seen(p);
        }
        else
        {
            const auto p = walk(cp, path, 0, how);
            if (how == "here")
                r = seen(p);
        }
        vt::Ev(t, "See").raw("p", json(path)).s("how", how).raw("r", r);
    }
    void equal()
    {
        if (!other)
            return;
        const Path p = somewhere(cp, 0), q = g.chance(70) ? p : somewhere(other, 0);
        std::string hp, hq;
        const auto a = walk(cp, p, 0, hp);
        const auto b = walk(other, q, 0, hq);
        if (hp == "refused" || hq == "refused")
            return;
        const bool res = ReflectableUtil::equal(a, b);
        vt::Ev(t, "Equal").raw("p", json(p)).raw("q", json(q)).b("res", res);
    }
    void hold()
    {
        // parts which stay where they are as long as the object lives
        Path path;
        IReflectableDataPtr p = mp;
        while (p)
        {
            if (!path.empty())
                held[json(path)] = {path, p};
            if (p->isArray() || p->getTypeInfo().getSchemaType() != zserio::SchemaType::STRUCT)
                break;
            std::vector<std::string> n;
            for (const auto& f : p->getTypeInfo().getFields())
                if (!f.isOptional && (f.isArray || zserio::TypeInfoUtil::isCompound(f.typeInfo.getCppType())))
                    n.emplace_back(f.schemaName);
            if (n.empty())
                break;
            path.push_back({true, g.pick(n), 0});
            p = p->getField(path.back().name);
        }
    }
    void step()
    {
        const unsigned wild = 10;
        const unsigned k = static_cast<unsigned>(g.below(100));
        if (k < 18)
            return see(somewhere(cp, wild));
        if (k < 28)
            return equal();
        if (k < 34 && mp)
            return hold();
        const Path path = somewhere(cp, 6);
        std::string how;
        const std::string lookOp = g.pick<const char*>({"get", "at", "find", "find", "any"});
        const std::string changeOp = g.pick<const char*>({"set", "set", "set", "create", "create", "resize", "append", "append", "setAt", "assign"});
        if (k < 52)
        {
            if (mp && g.chance(60))
            {
                const auto p = walkMut(path, how);
                look(path, false, how, p, lookOp);
            }
            else
            {
                const auto p = walk(cp, path, 0, how);
                look(path, false, how, p, lookOp);
            }
        }
        else if (mp)
        {
            const auto p = walkMut(path, how);
            // elements of arrays which are not compounds have nothing to change
            change(path, false, how, p, changeOp);
        }
        else
        {
            const auto p = std::const_pointer_cast<IReflectableData>(walk(cp, path, 0, how));
            if (how != "here")
                return;
            if (g.chance(40))
                look(path, true, how, p, lookOp);
            else if (changeOp != "assign")
                change(path, true, how, p, changeOp);
        }
    }
    // -------------------------------------------------------- objects
    template <typename X>
    void start(unsigned form)
    {
        held.clear();
        mp = nullptr;
        cp = nullptr;
        const std::string n = Shape<X>::name;
        owner = form == 2;
        if (owner)
        {
            auto o = std::make_shared<zserio::detail::ReflectableDataOwner<X>>();
            keep = o;
            mp = o;
            cp = o;
            X* x = &mp->getAnyValue().template get<std::reference_wrapper<X>>().get();
            now = [x] { return node(*x); };
            vt::Ev(t, "Fresh").s("t", n).raw("v", now());
            return;
        }
        auto x = std::make_shared<X>();
        gen(*x);
        keep = x;
        X* raw = x.get();
        now = [raw] { return node(*raw); };
        if (form == 0)
        {
            mp = zserio::reflectable(*x);
            cp = g.chance(50) ? IReflectableDataConstPtr(mp) : zserio::reflectable(static_cast<const X&>(*x));
        }
        else
            cp = zserio::reflectable(static_cast<const X&>(*x));
        vt::Ev(t, "Root").s("t", n).b("cons", form == 1).raw("v", now());
        // something similar to compare with
        auto y = std::make_shared<X>(*x);
        for (size_t k = g.below(3); k > 0; --k)
            gen.mutate(*y);
        keepOther = y;
        other = g.chance(50) ? IReflectableDataConstPtr(zserio::reflectable(*y)) : zserio::reflectable(static_cast<const X&>(*y));
        vt::Ev(t, "Other").s("t", n).raw("v", node(*y));
    }
    // -------------------------------------------------------- single values
    template <typename W>
    void number(W w)
    {
        using V = typename W::ValueType;
        const auto p = zserio::reflectable(w);
        constexpr bool b = std::is_same_v<V, bool>;
        const V a = static_cast<V>(p->getAnyValue().template get<W>());
        const V v = static_cast<V>(w);
        auto bitsOf = [](V x) { return b ? std::string(x ? "[1]" : "[0]") : raw(x); };
        vt::Ev(t, "Scalar").s("k", b ? "bool" : "int").i("sw", b ? 1 : sizeof(V) * 8).b("sg", std::is_signed_v<V>).raw("v", bitsOf(v)).raw("any", bitsOf(a)).raw("acc", accessors(p));
    }
    void blob(const char* k, const std::string& v, const std::string& any, const std::string& a)
    {
        vt::Ev(t, "Scalar").s("k", k).i("sw", 0).b("sg", false).raw("v", v).raw("any", any).raw("acc", a);
    }
    float rndFloat()
    {
        uint32_t x = g.chance(70) ? static_cast<uint32_t>(g.next()) : static_cast<uint32_t>(g.magnitude(32) | (g.below(2) << 31));
        if ((x & 0x7F800000u) == 0x7F800000u)
            x &= 0xFF800000u; // no NaNs: their bits are not kept
        float f;
        memcpy(&f, &x, 4);
        return f;
    }
    double rndDouble()
    {
        uint64_t x = g.chance(70) ? g.next() : g.magnitude(64);
        if (g.chance(20))
            x = (g.pick<uint64_t>({0, 1, 2, 0x3FF, 0x7FE, 0x7FF}) << 52) | g.magnitude(52) | (g.below(2) << 63);
        double d;
        memcpy(&d, &x, 8);
        return d;
    }
    template <typename W>
    void rnd()
    {
        using V = typename W::ValueType;
        if constexpr (std::is_same_v<V, bool>)
            number(W(g.chance(50)));
        else
        {
            const uint64_t m = g.magnitude(64);
            number(W(static_cast<V>(g.chance(50) ? ~m : m)));
        }
    }
    void scalarValue()
    {
        switch (g.below(26))
        {
        case 0: rnd<zserio::Bool>(); break;
        case 1: rnd<zserio::Int7>(); break;
        case 2: rnd<zserio::Int8>(); break;
        case 3: rnd<zserio::Int12>(); break;
        case 4: rnd<zserio::Int32>(); break;
        case 5: rnd<zserio::Int64>(); break;
        case 6: rnd<zserio::Int33>(); break;
        case 7: rnd<zserio::UInt1>(); break;
        case 8: rnd<zserio::UInt16>(); break;
        case 9: rnd<zserio::UInt17>(); break;
        case 10: rnd<zserio::UInt64>(); break;
        case 11: rnd<zserio::UInt57>(); break;
        case 12: rnd<zserio::DynInt8>(); break;
        case 13: rnd<zserio::DynInt64>(); break;
        case 14: rnd<zserio::DynUInt16>(); break;
        case 15: rnd<zserio::DynUInt32>(); break;
        case 16: rnd<zserio::VarInt16>(); rnd<zserio::VarInt32>(); break;
        case 17: rnd<zserio::VarInt64>(); rnd<zserio::VarInt>(); break;
        case 18: rnd<zserio::VarUInt16>(); rnd<zserio::VarUInt32>(); break;
        case 19: rnd<zserio::VarUInt64>(); rnd<zserio::VarUInt>(); rnd<zserio::VarSize>(); break;
        case 20:
        {
            const zserio::Float16 f(rndFloat());
            const auto p = zserio::reflectable(f);
            blob("single", rawFloat(f), rawFloat(p->getAnyValue().get<zserio::Float16>()), accessors(p));
            break;
        }
        case 21:
        {
            const zserio::Float32 f(rndFloat());
            const auto p = zserio::reflectable(f);
            blob("single", rawFloat(f), rawFloat(p->getAnyValue().get<zserio::Float32>()), accessors(p));
            break;
        }
        case 22:
        {
            const zserio::Float64 f(rndDouble());
            const auto p = zserio::reflectable(f);
            blob("double", rawDouble(f), rawDouble(p->getAnyValue().get<zserio::Float64>()), accessors(p));
            break;
        }
        case 23:
        {
            const std::string s = rndText(g);
            const auto p = g.chance(50) ? zserio::reflectable(std::string_view(s)) : zserio::reflectable(s);
            blob("string", ints(vt::chars(s)), ints(vt::chars(p->getAnyValue().get<std::string_view>())), accessors(p));
            break;
        }
        case 24:
        {
            zserio::Bytes v;
            gen(v);
            const auto p = g.chance(50) ? zserio::reflectable(v) : zserio::reflectable(zserio::BytesView(v));
            blob("bytes", ints(vt::bytes(v)), ints(vt::bytes(p->getAnyValue().get<zserio::BytesView>())), accessors(p));
            break;
        }
        default:
        {
            zserio::BitBuffer v;
            gen(v);
            const auto p = zserio::reflectable(v);
            blob("extern", ints(bufferBits(v)), ints(bufferBits(p->getAnyValue().get<std::reference_wrapper<const zserio::BitBuffer>>().get())), accessors(p));
            const auto q = zserio::reflectable(static_cast<const zserio::BitBuffer&>(v));
            blob("extern", ints(bufferBits(v)), ints(bufferBits(q->getAnyValue().get<std::reference_wrapper<const zserio::BitBuffer>>().get())), accessors(q));
        }
        }
    }
    void closeness()
    {
        double a = rndDouble(), b = a;
        uint64_t x;
        memcpy(&x, &a, 8);
        switch (g.below(5))
        {
        case 0: x += g.below(3); break;
        case 1: x -= g.below(12); break;
        case 2: x ^= 1ULL << g.below(64); break;
        case 3: x = 0x7FE0000000000000ULL | g.next() % (1ULL << 52); break;
        default: break;
        }
        memcpy(&b, &x, 8);
        if (g.chance(10))
            b = rndDouble();
        if (g.chance(20))
        {
            const float fa = rndFloat();
            float fb = fa;
            uint32_t y;
            memcpy(&y, &fa, 4);
            y ^= static_cast<uint32_t>(g.chance(50) ? 0 : 1U << g.below(32));
            if ((y & 0x7F800000u) == 0x7F800000u)
                y &= 0xFF800000u;
            memcpy(&fb, &y, 4);
            const bool res = ReflectableUtil::equal(IReflectableDataConstPtr(zserio::reflectable(zserio::Float32(fa))), IReflectableDataConstPtr(zserio::reflectable(zserio::Float32(fb))));
            vt::Ev(t, "Close").raw("x", rawDouble(fa)).raw("y", rawDouble(fb)).b("res", res);
            return;
        }
        const bool res = ReflectableUtil::equal(IReflectableDataConstPtr(zserio::reflectable(zserio::Float64(a))), IReflectableDataConstPtr(zserio::reflectable(zserio::Float64(b))));
        vt::Ev(t, "Close").raw("x", rawDouble(a)).raw("y", rawDouble(b)).b("res", res);
    }
    void run()
    {
        for (size_t k = g.below(8); k > 0; --k)
            scalarValue();
        for (size_t k = g.below(6); k > 0; --k)
            closeness();
        size_t i = g.below(NTYPES);
        if (g.chance(40))
            i = g.pick<size_t>({1, 3, 5, 14});
        const unsigned form = static_cast<unsigned>(g.pick<int>({0, 0, 0, 1, 2}));
        withType(i, [&](auto T) { start<typename decltype(T)::type>(form); });
        for (size_t n = 10 + g.below(40); n > 0; --n)
            step();
    }
    // -------------------------------------------------------- scripts: "OP PATH NAME-OR-INDEX VALUE"
    static Path path(const std::string& s)
    {
        Path p;
        std::istringstream is(s);
        std::string x;
        if (s != "-")
            while (std::getline(is, x, '/'))
                if (isdigit(static_cast<unsigned char>(x[0])))
                    p.push_back({false, "", static_cast<size_t>(std::stoul(x))});
                else
                    p.push_back({true, x, 0});
        return p;
    }
    Val word(const std::string& w)
    {
        if (w == "null")
            return {Any(nullptr), "[\"null\"]"};
        if (w == "u32")
            return {Any(zserio::UInt32(5)), "[\"obj\",\"u32\"," + node(zserio::UInt32(5)) + "]"};
        if (w == "cpp")
            return cppValue(uint32_t(5));
        if (w == "str")
            return {Any(zserio::String("A")), "[\"obj\",\"string\",[\"s\",[65]]]"};
        if (w == "enum")
            return {Any(ReflectableUtilEnum::TWO), "[\"obj\",\"ReflectableUtilEnum\"," + node(ReflectableUtilEnum::TWO) + "]"};
        if (w == "raw8")
            return cppValue(int8_t(1));
        if (w == "raw9")
            return cppValue(int8_t(9));
        if (w == "mask")
            return {Any(zserio::UInt8(6)), "[\"obj\",\"u8\"," + node(zserio::UInt8(6)) + "]"};
        if (w == "nested")
        {
            WalkerNested v;
            v.text = "A";
            return {Any(v), "[\"obj\",\"WalkerNested\"," + node(v) + "]"};
        }
        zserio::Vector<zserio::UInt32> v(1);
        return {Any(v), "[\"arr\",\"u32\"," + node(v) + "]"};
    }
    void exec(const std::vector<std::string>& w)
    {
        const Path p = path(w[1]);
        std::string how;
        const auto q = walkMut(p, how);
        const std::string n = w[2] == "-" ? "" : w[2];
        if (w[0] == "see")
            see(p);
        else if (w[0] == "set")
            setTo(p, false, how, q, n, word(w[3]));
        else if (w[0] == "create")
            create(p, false, how, q, n);
        else if (w[0] == "resize")
            resize(p, false, how, q, std::stoul(n));
        else if (w[0] == "append")
            append(p, false, how, q, word(w[3]));
        else if (w[0] == "setAt")
        {
            const Val v = word(w[3]);
            const size_t i = std::stoul(n);
            report(p, "setAt", "\"n\":\"\",\"i\":" + n + ",\"v\":" + v.j, false, how, q, [&](const auto& x, std::string&) { x->setAt(v.any, i); });
        }
    }
};
} // namespace
int main(int argc, char** argv)
{
    vt::Args args(argc, argv);
    vt::Trace t(args.out);
    Rng g(args.seed);
    Driver d(t, g);
    if (args.script)
    {
        for (const auto& w : vt::readScript(args.script))
        {
            if (w[0] == "Begin")
                for (size_t i = 0; i < NTYPES; ++i)
                    withType(i, [&](auto T) {
                        if (args.mode == Shape<typename decltype(T)::type>::name)
                            d.start<typename decltype(T)::type>(2);
                    });
            else
                d.exec(w);
        }
    }
    else if (args.mode == "owner")
    {
        d.ownerAny = true;
        d.start<CreatorNested>(2);
        d.look(Path(), false, "here", d.cp, "any");
    }
    else
        while (t.size() < args.n)
            d.run();
    vt::Ev(t, "End");
    return 0;
}
