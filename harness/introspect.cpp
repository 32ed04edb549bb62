// Views seen through introspection, and what type information tells.
#include "reflect.h"
#include "zserio/IntrospectableView.h"
#include "zserio/ReflectableData.h"
#include <memory_resource>
#include "zserio/ppmr/PropagatingPolymorphicAllocator.h"

using namespace obj;
using zserio::IIntrospectableViewConstPtr;
using zserio::View;
namespace
{
using Alloc = std::allocator<uint8_t>;
std::string params(const View<CreatorNested>& v) { return nodes(std::make_tuple(v.param())); }
std::string params(const View<DebugStringParamObject>& v) { return nodes(std::make_tuple(v.param())); }
std::string params(const View<WalkerChoice>& v) { return nodes(std::make_tuple(v.selector())); }
std::string params(const View<ReflectableUtilChoice>& v) { return nodes(std::make_tuple(v.param())); }
std::string params(const View<ReflectableChoice>& v) { return nodes(std::make_tuple(v.param())); }
std::string params(const View<ReflectableNested>& v) { return nodes(std::make_tuple(v.dummyParam(), v.stringParam())); }
template <typename T>
std::string params(const View<T>&)
{
    return "[]";
}

// ---------------------------------------------------------------- places
struct Step
{
    std::string k; // f e p u find
    std::vector<std::string> names;
    size_t index = 0;
};
using Path = std::vector<Step>;
std::string quoted(const std::string& s)
{
    return "\"" + s + "\"";
}
std::string json(const Path& p)
{
    std::string s;
    for (const auto& x : p)
    {
        s += (s.empty() ? "" : ",") + std::string("[") + quoted(x.k) + ",";
        if (x.k == "e")
            s += std::to_string(x.index > 1000000 ? 1000000 : x.index);
        else if (x.k == "find")
        {
            std::string n;
            for (const auto& y : x.names)
                n += (n.empty() ? "" : ",") + quoted(y);
            s += "[" + n + "]";
        }
        else
            s += quoted(x.names[0]);
        s += "]";
    }
    return "[" + s + "]";
}

// ---------------------------------------------------------------- any values
template <typename X>
std::string fromAny(const IIntrospectableViewConstPtr& p)
{
    const zserio::Any a = p->getAnyValue();
    if constexpr (Shape<X>::kind != 0)
    {
        const auto& v = a.template get<View<X>>();
        return rtree(zserio::introspectable(v));
    }
    else if constexpr (std::is_same_v<X, zserio::String>)
        return node(a.get<std::string_view>());
    else if constexpr (std::is_same_v<X, zserio::Bytes>)
        return "[\"y\"," + ints(vt::bytes(a.get<zserio::BytesView>())) + "]";
    else if constexpr (std::is_same_v<X, zserio::BitBuffer>)
        return "[\"x\"," + ints(bufferBits(a.get<zserio::BasicBitBufferView<Alloc>>().get())) + "]";
    else
        return node(a.template get<X>());
}
template <typename X>
struct ArrView
{
    using type = zserio::ArrayView<const X>;
};
template <>
struct ArrView<CreatorNested>
{
    using type = decltype(std::declval<View<CreatorObject>>().nestedArray());
};
std::string anyOf(const IIntrospectableViewConstPtr& p)
{
    std::string r = "[\"?\"]";
    withNamed(tname(p->getTypeInfo()), [&](auto T) {
        using X = typename decltype(T)::type;
        if (!p->isArray())
            r = fromAny<X>(p);
        else if constexpr (std::is_same_v<X, zserio::UInt32> || std::is_same_v<X, zserio::String> || std::is_same_v<X, zserio::Bytes> || std::is_same_v<X, zserio::BitBuffer> ||
                std::is_same_v<X, CreatorNested> || std::is_same_v<X, WalkerNested> || std::is_same_v<X, WalkerUnion>)
            r = rtree(zserio::introspectableArray(p->getAnyValue().template get<typename ArrView<X>::type>()));
    });
    return r;
}
std::string bitsOf(const IIntrospectableViewConstPtr& p, bool plain)
{
    return acc([&] { return ints(bufferBits(plain ? p->serialize() : p->serialize(Alloc()))); });
}

struct Driver
{
    vt::Trace& t;
    Rng& g;
    Gen gen;
    std::shared_ptr<void> keep;
    IIntrospectableViewConstPtr view;
    Driver(vt::Trace& t_, Rng& g_) : t(t_), g(g_), gen{g_, 0} {}

    // -------------------------------------------------------- walking
    std::vector<std::string> namesAt(const IIntrospectableViewConstPtr& p, const std::string& k)
    {
        std::vector<std::string> n;
        const auto& info = p->getTypeInfo();
        if (p->isArray() || !zserio::TypeInfoUtil::isCompound(info.getSchemaType()))
            return n;
        if (k == "f" || k == "find")
            for (const auto& f : info.getFields())
                n.emplace_back(f.schemaName);
        if (k == "p" || k == "find")
            for (const auto& f : info.getParameters())
                n.emplace_back(f.schemaName);
        if (k == "u" || k == "find")
            for (const auto& f : info.getFunctions())
                n.emplace_back(f.schemaName);
        return n;
    }
    std::string someName()
    {
        return g.pick<const char*>({"value", "param", "text", "getValue", "nested", "selector", "valueStr", "array", "x", "", "Value", "val", "value8"});
    }
    IIntrospectableViewConstPtr take(const IIntrospectableViewConstPtr& p, const Step& s)
    {
        if (s.k == "f")
            return p->getField(s.names[0]);
        if (s.k == "p")
            return p->getParameter(s.names[0]);
        if (s.k == "u")
            return p->callFunction(s.names[0]);
        if (s.k == "e")
            return g.chance(50) ? p->at(s.index) : (*p)[s.index];
        std::string dotted;
        for (size_t i = 0; i < s.names.size(); ++i)
            dotted += (i ? "." : "") + s.names[i];
        return g.chance(50) ? p->find(dotted) : (*p)[dotted];
    }
    void look()
    {
        Path path;
        IIntrospectableViewConstPtr p = view;
        std::string how = "here";
        const size_t most = g.below(6);
        for (size_t k = 0; k < most && how == "here"; ++k)
        {
            Step s;
            const bool array = p->isArray();
            if (array ? g.chance(85) : g.chance(3))
            {
                s.k = "e";
                const size_t n = array ? p->size() : 2;
                s.index = g.chance(85) ? g.below(n) : g.pick<size_t>({n, n + 1, ~size_t(0), static_cast<size_t>(1) << 32});
            }
            else
            {
                s.k = g.pick<const char*>({"f", "f", "f", "f", "p", "u", "find", "find"});
                auto pick = [&](const std::vector<std::string>& n) { return n.empty() || g.chance(6) ? someName() : g.pick(n); };
                s.names = {pick(namesAt(p, s.k))};
                if (s.k == "find")
                {
                    IIntrospectableViewConstPtr q = p;
                    while (g.chance(60))
                    {
                        IIntrospectableViewConstPtr r;
                        try
                        {
                            r = q->getField(s.names.back());
                        }
                        catch (const zserio::CppRuntimeException&)
                        {}
                        if (r)
                            q = r;
                        s.names.push_back(pick(r ? namesAt(q, "find") : std::vector<std::string>()));
                    }
                }
            }
            path.push_back(s);
            try
            {
                p = take(p, s);
                if (!p)
                    how = "null";
            }
            catch (const zserio::CppRuntimeException&)
            {
                how = "refused";
            }
        }
        std::string r;
        if (how == "here")
        {
            const std::string what = seen(p);
            r = "{\"s\":" + what.substr(1, what.size() - 2) + ",\"any\":" + anyOf(p) + ",\"bits\":" + bitsOf(p, g.chance(50)) + "}";
        }
        vt::Ev(t, "Look").raw("p", json(path)).s("how", how).raw("r", "[" + r + "]");
    }
    template <typename X>
    void start()
    {
        view = nullptr;
        using P = typename Par<X>::type;
        struct Held
        {
            X x;
            P par;
        };
        auto h = std::make_shared<Held>();
        keep = h;
        gen.wrong = g.chance(25) ? 10 : 0;
        gen(h->par);
        gen(h->x);
        if (g.chance(80))
            gen.fix(h->x, h->par);
        std::apply(
                [&](const auto&... a) {
                    const View<X> v(h->x, a...);
                    view = g.chance(50) ? zserio::introspectable(v) : zserio::introspectable(v, Alloc());
                    vt::Ev(t, "Root").s("t", Shape<X>::name).raw("ps", nodes(h->par)).raw("v", node(h->x));
                },
                h->par);
    }
    // -------------------------------------------------------- single values and arrays of them
    template <typename V>
    static std::string shownBits(V x)
    {
        if constexpr (std::is_same_v<V, bool>)
            return x ? "[1]" : "[0]";
        else if constexpr (std::is_same_v<V, float>)
            return rawFloat(x);
        else if constexpr (std::is_same_v<V, double>)
            return rawDouble(x);
        else
            return raw(x);
    }
    void scalar(const char* k, size_t sw, bool sg, const std::string& v, const std::string& any, const std::string& a)
    {
        vt::Ev(t, "Scalar").s("k", k).i("sw", static_cast<int64_t>(sw)).b("sg", sg).raw("v", v).raw("any", any).raw("acc", a);
    }
    template <typename V>
    V rndNumber()
    {
        if constexpr (std::is_same_v<V, bool>)
            return g.chance(50);
        else if constexpr (std::is_same_v<V, float>)
        {
            uint32_t x = static_cast<uint32_t>(g.chance(60) ? g.next() : g.magnitude(32));
            if ((x & 0x7F800000u) == 0x7F800000u)
                x &= 0xFF800000u; // the bits of NaNs are not kept
            float f;
            memcpy(&f, &x, 4);
            return f;
        }
        else if constexpr (std::is_same_v<V, double>)
        {
            uint64_t x = g.chance(60) ? g.next() : g.magnitude(64);
            double f;
            memcpy(&f, &x, 8);
            return f;
        }
        else
        {
            const uint64_t m = g.magnitude(64);
            return static_cast<V>(g.chance(50) ? ~m : m);
        }
    }
    template <typename W, typename H = W>
    void number()
    {
        using V = typename W::ValueType;
        constexpr bool b = std::is_same_v<V, bool>;
        const char* k = b ? "bool" : std::is_same_v<V, float> ? "single" : std::is_same_v<V, double> ? "double" : "int";
        const V v = rndNumber<V>();
        const W w(v);
        const H h(w);
        const auto p = g.chance(50) ? zserio::introspectable(h) : zserio::introspectable(h, Alloc());
        scalar(k, b ? 1 : std::is_floating_point_v<V> ? 0 : sizeof(V) * 8, std::is_signed_v<V> && !std::is_floating_point_v<V>, shownBits(v),
                shownBits(static_cast<V>(p->getAnyValue().template get<H>())), accessors(p));
    }
    template <typename T>
    void dyn()
    {
        using D = zserio::detail::DynIntWrapper<T>;
        const T v = rndNumber<T>();
        const D d(v);
        const View<D> w(d, sizeof(T) * 8);
        const auto p = zserio::introspectable(w, Alloc());
        const std::string any = shownBits(static_cast<T>(p->getAnyValue().template get<View<D>>()));
        scalar("int", sizeof(T) * 8, std::is_signed_v<T>, shownBits(v), any, accessors(p));
    }
    template <typename W, typename GETTER>
    void array(GETTER&& get)
    {
        using V = typename W::ValueType;
        std::vector<W> v;
        std::string s, r;
        for (size_t n = g.below(5); n > 0; --n)
        {
            const V x = rndNumber<V>();
            v.push_back(W(x));
            s += (s.empty() ? "" : ",") + shownBits(x);
        }
        const zserio::ArrayView<const W> a{zserio::Span<const W>(v)};
        const auto p = g.chance(50) ? zserio::introspectableArray(a) : zserio::introspectableArray(a, Alloc());
        for (size_t i = 0; i < v.size(); ++i)
            r += (r.empty() ? "" : ",") + shownBits(get(g.chance(50) ? p->at(i) : (*p)[i]));
        std::string beyond = "given";
        try
        {
            p->at(v.size() + (g.chance(50) ? 0 : 5));
        }
        catch (const zserio::CppRuntimeException&)
        {
            beyond = "refused";
        }
        vt::Ev(t, "Array").raw("v", "[" + s + "]").raw("seen", "[" + r + "]").i("size", static_cast<int64_t>(p->size())).s("beyond", beyond);
    }
    void single()
    {
        using namespace zserio;
        switch (g.below(26))
        {
        case 0: number<Bool>(); array<Bool>([](const auto& p) { return p->getBool(); }); break;
        case 1: number<Int7>(); array<Int8>([](const auto& p) { return p->getInt8(); }); break;
        case 2: number<Int8>(); array<Int12>([](const auto& p) { return p->getInt16(); }); break;
        case 3: number<Int12>(); array<VarInt32>([](const auto& p) { return p->getInt32(); }); break;
        case 4: number<Int32>(); array<Int57>([](const auto& p) { return p->getInt64(); }); break;
        case 5: number<Int64>(); array<UInt3>([](const auto& p) { return p->getUInt8(); }); break;
        case 6: number<Int33>(); array<VarUInt16>([](const auto& p) { return p->getUInt16(); }); break;
        case 7: number<UInt1>(); array<VarSize>([](const auto& p) { return p->getUInt32(); }); break;
        case 8: number<UInt16>(); array<VarUInt>([](const auto& p) { return p->getUInt64(); }); break;
        case 9: number<UInt17>(); array<Float16>([](const auto& p) { return p->getFloat(); }); break;
        case 10: number<UInt64>(); array<Float64>([](const auto& p) { return p->getDouble(); }); break;
        case 11: number<UInt57>(); array<Float32>([](const auto& p) { return p->getFloat(); }); break;
        case 12: dyn<int8_t>(); dyn<uint8_t>(); break;
        case 13: dyn<int16_t>(); dyn<uint16_t>(); break;
        case 14: dyn<int32_t>(); dyn<uint32_t>(); break;
        case 15: dyn<int64_t>(); dyn<uint64_t>(); break;
        case 16: number<VarInt16>(); number<VarInt32>(); break;
        case 17: number<VarInt64>(); number<VarInt>(); break;
        case 18: number<VarUInt16>(); number<VarUInt32>(); break;
        case 19: number<VarUInt64>(); number<VarUInt>(); number<VarSize>(); break;
        case 20: number<Float16>(); break;
        case 21: number<Float32>(); break;
        case 22: number<Float64>(); break;
        case 23:
        {
            const std::string s = rndText(g);
            const auto p = introspectable(std::string_view(s));
            scalar("string", 0, false, ints(vt::chars(s)), ints(vt::chars(p->getAnyValue().get<std::string_view>())), accessors(p));
            break;
        }
        case 24:
        {
            Bytes v;
            gen(v);
            const auto p = introspectable(BytesView(v));
            scalar("bytes", 0, false, ints(vt::bytes(v)), ints(vt::bytes(p->getAnyValue().get<BytesView>())), accessors(p));
            break;
        }
        default:
        {
            BitBuffer v;
            gen(v);
            const auto p = introspectable(BasicBitBufferView<Alloc>(v));
            scalar("extern", 0, false, ints(bufferBits(v)), ints(bufferBits(p->getAnyValue().get<BasicBitBufferView<Alloc>>().get())), accessors(p));
        }
        }
    }
    // -------------------------------------------------------- where introspection allocates
    struct Counting : std::pmr::memory_resource
    {
        int64_t all = 0;
        int64_t alive = 0;
        void* do_allocate(size_t n, size_t) override
        {
            ++all;
            ++alive;
            return ::operator new(n);
        }
        void do_deallocate(void* p, size_t, size_t) override
        {
            --alive;
            ::operator delete(p);
        }
        bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
    };
    template <typename PA>
    void allocations(const char* which)
    {
        Counting own, other;
        std::pmr::memory_resource* old = std::pmr::set_default_resource(&other);
        {
            const PA a(&own);
            const std::vector<zserio::UInt32> v = {zserio::UInt32(1), zserio::UInt32(7)};
            const zserio::ArrayView<const zserio::UInt32> av{zserio::Span<const zserio::UInt32>(v)};
            const auto p = zserio::introspectableArray(av, a);
            for (size_t n = g.below(4); n > 0; --n)
            {
                const auto q = g.chance(50) ? p->at(n % 2) : (*p)[n % 2];
                q->getAnyValue(a);
                q->toString(a);
            }
            const zserio::BasicString<PA> w("a text which does not fit into the object itself", a);
            const auto s = zserio::introspectable(std::string_view(w), a);
            s->toString(a);
            s->getAnyValue(a);
            p->getAnyValue(a);
            std::vector<zserio::UInt32> m = v;
            const auto r = zserio::reflectableArray(m, a);
            for (size_t n = g.below(4); n > 0; --n)
            {
                const auto q = g.chance(50) ? r->at(n % 2) : (*r)[n % 2];
                q->getAnyValue(a);
                q->toString(a);
            }
            r->getAnyValue(a);
        }
        std::pmr::set_default_resource(old);
        vt::Ev(t, "Alloc").s("which", which).i("elsewhere", other.all).i("leaked", own.alive + other.alive).i("own", own.all);
    }
    void run()
    {
        for (size_t k = g.below(6); k > 0; --k)
            single();
        if (g.chance(4))
            allocations<zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>>("propagating");
        if (g.chance(4))
            allocations<std::pmr::polymorphic_allocator<uint8_t>>("polymorphic");
        size_t i = g.below(NTYPES);
        if (g.chance(40))
            i = g.pick<size_t>({1, 3, 5, 4, 10});
        withType(i, [&](auto T) { start<typename decltype(T)::type>(); });
        for (size_t n = 10 + g.below(30); n > 0; --n)
            look();
    }
};
} // namespace
int main(int argc, char** argv)
{
    vt::Args args(argc, argv);
    vt::Trace t(args.out);
    Rng g(args.seed);
    Driver d(t, g);
    while (t.size() < args.n)
        d.run();
    vt::Ev(t, "End");
    return 0;
}
