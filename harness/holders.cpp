// Optional / Variant / Any / UniquePtr under random or scripted operations, with failing objects and allocations.
// mode: <container>-<allocator>, container in optS optB optR optT var any uptr, allocator in cnt pmr ppmr mca mma msw
#include <map>
#include <memory_resource>
#include <set>

#include "trace.h"
#include "zserio/Any.h"
#include "zserio/Optional.h"
#include "zserio/UniquePtr.h"
#include "zserio/Variant.h"
#include "zserio/pmr/Any.h"
#include "zserio/ppmr/PropagatingPolymorphicAllocator.h"

using vt::Ints;

struct Boom : std::exception
{};

static std::set<const void*> g_live;
static long g_bad = 0;
static long g_budget = -1;
static bool g_tripped = false;
static bool g_quiet = false; // observation, nothing may fail

static void hit()
{
    if (g_quiet || g_budget < 0)
        return;
    if (g_budget-- == 0)
    {
        g_tripped = true;
        throw Boom();
    }
}

// ---------------------------------------------------------------- payload
template <int K>
struct Body
{};
template <>
struct Body<2>
{
    char pad[60];
};
template <>
struct Body<4>
{
    alignas(16) char pad[4];
};

template <>
struct Body<5>
{
    using IS_RECURSIVE = void;
};

template <int K, bool NOEX>
struct Obj : Body<K>
{
    int v;
    Obj() : Obj(0) {}
    explicit Obj(int x) : v(x)
    {
        hit();
        reg();
    }
    Obj(const Obj& o) : v(o.get())
    {
        hit();
        reg();
    }
    Obj(Obj&& o) noexcept(NOEX)
    {
        if (!NOEX)
            hit();
        v = o.get();
        if (this != &o)
            o.v = -1;
        reg();
    }
    template <int K2, bool N2, std::enable_if_t<K2 != K>* = nullptr>
    Obj(const Obj<K2, N2>& o) : v(o.get())
    {
        hit();
        reg();
    }
    Obj& operator=(const Obj& o)
    {
        const int x = o.get();
        get();
        hit();
        v = x;
        return *this;
    }
    Obj& operator=(Obj&& o) noexcept(NOEX)
    {
        const int x = o.get();
        get();
        if (!NOEX)
            hit();
        if (this != &o)
        {
            v = x;
            o.v = -1;
        }
        return *this;
    }
    ~Obj()
    {
        if (g_live.erase(this) == 0)
            ++g_bad;
        v = -99;
    }
    int get() const
    {
        if (g_live.count(this) == 0)
        {
            ++g_bad;
            return -98;
        }
        return v;
    }
    bool operator==(const Obj& o) const { return get() == o.get(); }
    bool operator<(const Obj& o) const { return get() < o.get(); }
    bool operator>(const Obj& o) const { return get() > o.get(); }

private:
    void reg()
    {
        if (!g_live.insert(this).second)
            ++g_bad;
    }
};

template <int K, bool N>
uint32_t calcHashCode(uint32_t seed, const Obj<K, N>& o)
{
    return zserio::calcHashCode(seed, static_cast<uint32_t>(o.get()));
}

using O1 = Obj<1, true>;  // small
using O2 = Obj<2, true>;  // big
using O3 = Obj<3, false>; // small, moving throws
using O4 = Obj<4, true>;  // small but over-aligned
using OR = Obj<5, true>;  // recursive: always on heap in optionals

// ---------------------------------------------------------------- resources and allocators
struct Resource : std::pmr::memory_resource
{
    std::map<void*, std::pair<size_t, size_t>> blocks;
    void* do_allocate(size_t n, size_t a) override
    {
        hit();
        void* p = ::operator new(n, std::align_val_t(a));
        memset(p, 0xA5, n);
        blocks[p] = {n, a};
        return p;
    }
    void do_deallocate(void* p, size_t n, size_t a) override
    {
        auto it = blocks.find(p);
        if (it == blocks.end() || it->second != std::make_pair(n, a))
        {
            ++g_bad;
            return; // leaks, but is reported
        }
        a = it->second.second;
        blocks.erase(it);
        ::operator delete(p, std::align_val_t(a));
    }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
static Resource g_res[2];

template <typename T>
struct CntAlloc
{
    using value_type = T;
    CntAlloc() = default;
    template <typename U>
    CntAlloc(const CntAlloc<U>&)
    {}
    T* allocate(size_t n) { return static_cast<T*>(g_res[0].allocate(n * sizeof(T), alignof(T))); }
    void deallocate(T* p, size_t n) { g_res[0].deallocate(p, n * sizeof(T), alignof(T)); }
    bool operator==(const CntAlloc&) const { return true; }
    bool operator!=(const CntAlloc&) const { return false; }
};

template <typename T, bool CA, bool MA, bool SW>
struct MixAlloc
{
    using value_type = T;
    using propagate_on_container_copy_assignment = std::bool_constant<CA>;
    using propagate_on_container_move_assignment = std::bool_constant<MA>;
    using propagate_on_container_swap = std::bool_constant<SW>;
    template <typename U>
    struct rebind
    {
        using other = MixAlloc<U, CA, MA, SW>;
    };
    Resource* res = &g_res[0];
    MixAlloc() = default;
    explicit MixAlloc(Resource* r) : res(r) {}
    template <typename U>
    MixAlloc(const MixAlloc<U, CA, MA, SW>& o) : res(o.res)
    {}
    T* allocate(size_t n) { return static_cast<T*>(res->allocate(n * sizeof(T), alignof(T))); }
    void deallocate(T* p, size_t n) { res->deallocate(p, n * sizeof(T), alignof(T)); }
    MixAlloc select_on_container_copy_construction() const { return MixAlloc(); }
    bool operator==(const MixAlloc& o) const { return res == o.res; }
    bool operator!=(const MixAlloc& o) const { return res != o.res; }
};

template <typename A>
A mk(int r)
{
    if constexpr (std::is_empty_v<A>)
        return A();
    else
        return A(&g_res[r]);
}
template <typename A>
int rid(const A& a)
{
    if constexpr (std::is_empty_v<A>)
        return 0;
    else if constexpr (std::is_constructible_v<A, Resource*> && !std::is_constructible_v<A, std::pmr::memory_resource*>)
        return a.res == &g_res[1] ? 1 : (a.res == &g_res[0] ? 0 : 9);
    else
        return a.resource() == &g_res[1] ? 1 : (a.resource() == &g_res[0] ? 0 : 9);
}
using At = uint8_t;
template <typename A>
using Tr = std::allocator_traits<A>;

// ---------------------------------------------------------------- container adaptors
struct Obs
{
    int r = -1, k = 0, v = 0;
    Ints gets, ifs, more; // per kind
};

static const int NO = -2;

template <typename F>
int val(F&& f)
{
    try
    {
        return f();
    }
    catch (const std::exception&)
    {
        return NO;
    }
}

template <typename A, typename T, int K, typename U>
struct OptAd
{
    using C = zserio::BasicOptional<A, T>;
    using D = zserio::BasicOptional<A, U>;
    static constexpr bool copyable = true, opt = true, cmp = true, hasReset = true;
    static C* makeV(int r, int, int v, int how)
    {
        A a = mk<A>(r);
        switch (how % 4)
        {
        case 0: return new C(std::in_place, a, v);
        case 1: { const T x(v); return new C(x, a); }
        case 2: { T x(v); return new C(std::move(x), a); }
        default:
        {
            D d(std::in_place, a, v);
            if (how % 8 == 3)
                return new C(d, a);
            return new C(std::move(d), a);
        }
        }
    }
    static void setV(C& c, int, int v, int how)
    {
        switch (how % 3)
        {
        case 0: { const T x(v); c = x; break; }
        case 1: { T x(v); c = std::move(x); break; }
        default: { const U x(v); c = x; break; }
        }
    }
    static int emplace(C& c, int, int v) { return c.emplace(v).get(); }
    static void alias(C& c, int how)
    {
        if (!c.has_value())
            return;
        if (how % 2)
            c = *c;
        else
            c = std::move(*c);
    }
    static void reset(C& c, int how)
    {
        if (how % 2)
            c.reset();
        else
            c = std::nullopt;
    }
    static bool conv(C& c, int how, int v, int r)
    {
        A a = mk<A>(r);
        if (how % 2)
        {
            D d(std::nullopt, a);
            if (v >= 0)
                d.emplace(v);
            c = std::move(d);
        }
        else
        {
            D d(std::nullopt, a);
            if (v >= 0)
                d.emplace(v);
            c = d;
        }
        return true;
    }
    static Obs look(const C& c)
    {
        Obs o;
        o.r = rid(c.get_allocator());
        C& m = const_cast<C&>(c);
        const int a = val([&] { return c.value().get(); }), b = val([&] { return (*c).get(); }), d = val([&] { return c->get(); });
        const int e = val([&] { return m.value().get(); }), f = val([&] { return (*m).get(); }), g = val([&] { return m->get(); });
        const T dflt(77);
        const int x = val([&] { return c.value_or(dflt).get(); }), y = val([&] { return m.value_or(dflt).get(); });
        o.k = c.has_value() ? K : 0;
        o.v = c.has_value() ? a : 0;
        o.gets = {a, b, d};
        o.ifs = {e, f, g};
        o.more = {x, y, static_cast<bool>(c) ? 1 : 0};
        return o;
    }
    template <typename X, typename Y>
    static Ints six(const X& x, const Y& y)
    {
        return {x == y, x != y, x < y, x > y, x <= y, x >= y};
    }
    static void compare(vt::Ev& e, const C& a, const C& b, int w)
    {
        const T x(w);
        e.a("c", six(a, b)).a("n", six(a, std::nullopt)).a("nr", six(std::nullopt, a)).a("cv", six(a, x)).a("cvr", six(x, a));
        e.s("h1", std::to_string(std::hash<C>()(a))).s("h2", std::to_string(std::hash<C>()(b)));
    }
    static bool canSwap(const C& a, const C& b) { return Tr<A>::propagate_on_container_swap::value || a.get_allocator() == b.get_allocator(); }
};

enum class Tag : size_t
{
    A,
    B,
    C,
    D
};

template <typename A>
struct VarAd
{
    using C = zserio::BasicVariant<A, Tag, O1, O2, O3, O4>;
    static constexpr bool copyable = true, opt = false, cmp = true, hasReset = false;
    static C* makeV(int r, int k, int v, int how)
    {
        A a = mk<A>(r);
        switch (k)
        {
        case 1: return new C(zserio::in_place_index<Tag::A>, a, v);
        case 2: return new C(zserio::in_place_index<Tag::B>, a, v);
        case 3: { const O3 x(v); return new C(zserio::in_place_index<Tag::C>, a, x); }
        default: { O4 x(v); return new C(zserio::in_place_index<Tag::D>, a, std::move(x)); }
        }
    }
    static void setV(C& c, int k, int v, int how)
    {
        switch (k)
        {
        case 1: { const O1 x(v); c.template emplace<Tag::A>(x); break; }
        case 2: { const O2 x(v); if (how % 2) c.template emplace<Tag::B>(x); else c.template emplace<Tag::B>(O2(v)); break; }
        case 3: { O3 x(v); if (how % 2) c.template emplace<Tag::C>(x); else c.template emplace<Tag::C>(std::move(x)); break; }
        default: { O4 x(v); c.template emplace<Tag::D>(x); break; }
        }
    }
    static int emplace(C& c, int k, int v)
    {
        switch (k)
        {
        case 1: return c.template emplace<Tag::A>(v).get();
        case 2: return c.template emplace<Tag::B>(v).get();
        case 3: return c.template emplace<Tag::C>(v).get();
        default: return c.template emplace<Tag::D>(v).get();
        }
    }
    static void alias(C&, int) {}
    static void reset(C&, int) {}
    static bool conv(C&, int, int, int) { return false; }
    template <Tag I, typename V>
    static int gif(V& c)
    {
        auto* p = zserio::get_if<I>(&c);
        return p ? p->get() : NO;
    }
    static Obs look(const C& c)
    {
        Obs o;
        C& m = const_cast<C&>(c);
        o.gets = {val([&] { return zserio::get<Tag::A>(c).get(); }), val([&] { return zserio::get<Tag::B>(m).get(); }),
                val([&] { return c.template get<Tag::C>().get(); }), val([&] { return m.template get<Tag::D>().get(); })};
        o.ifs = {gif<Tag::A>(m), gif<Tag::B>(c), gif<Tag::C>(m), gif<Tag::D>(c)};
        const size_t i = static_cast<size_t>(c.index());
        o.k = c.valueless_by_exception() ? 0 : static_cast<int>(i) + 1;
        o.v = o.k >= 1 && o.k <= 4 ? o.gets[static_cast<size_t>(o.k - 1)] : 0;
        int calls = 0;
        const int seen = val([&] { return zserio::visit([&](const auto& x) { ++calls; return kind(x) * 1000 + x.get(); }, c); });
        int seen2 = NO;
        const bool ok = vt::tryDo([&] { m.visit([&](auto&& x) { ++calls; seen2 = kind(x) * 1000 + x.get(); }); });
        o.more = {seen, ok ? seen2 : NO, calls, static_cast<int>(i) /* -1 without value */};
        return o;
    }
    template <int K, bool N>
    static int kind(const Obj<K, N>&)
    {
        return K;
    }
    static void compare(vt::Ev& e, const C& a, const C& b, int)
    {
        e.a("c", Ints{a == b, a != b, a < b, a > b, a <= b, a >= b});
        e.s("h1", std::to_string(std::hash<C>()(a))).s("h2", std::to_string(std::hash<C>()(b)));
    }
    static bool canSwap(const C&, const C&) { return true; }
};

template <typename A>
struct AnyAd
{
    using C = zserio::BasicAny<A>;
    static constexpr bool copyable = true, opt = false, cmp = false, hasReset = true;
    template <typename T>
    static C* mkv(A a, int v, int how)
    {
        if (how % 2)
        {
            const T x(v);
            return new C(x, a);
        }
        return new C(T(v), a);
    }
    static C* makeV(int r, int k, int v, int how)
    {
        A a = mk<A>(r);
        switch (k)
        {
        case 1: return mkv<O1>(a, v, how);
        case 2: return mkv<O2>(a, v, how);
        case 3: return mkv<O3>(a, v, how);
        default: return mkv<O4>(a, v, how);
        }
    }
    template <typename T>
    static void sv(C& c, int v, int how)
    {
        const T x(v);
        switch (how % 4)
        {
        case 0: c = x; break;
        case 1: c = T(v); break;
        case 2: c.set(x); break;
        default: c.set(T(v)); break;
        }
    }
    static void setV(C& c, int k, int v, int how)
    {
        switch (k)
        {
        case 1: sv<O1>(c, v, how); break;
        case 2: sv<O2>(c, v, how); break;
        case 3: sv<O3>(c, v, how); break;
        default: sv<O4>(c, v, how); break;
        }
    }
    static int emplace(C& c, int k, int v)
    {
        switch (k)
        {
        case 1: return c.template emplace<O1>(v).get();
        case 2: return c.template emplace<O2>(v).get();
        case 3: return c.template emplace<O3>(v).get();
        default: return c.template emplace<O4>(v).get();
        }
    }
    template <typename T>
    static void al(C& c, int how)
    {
        if (!c.template isType<T>())
            return;
        if (how % 2)
            c.set(c.template get<T>());
        else
            c.set(std::move(c.template get<T>()));
    }
    static void alias(C& c, int how)
    {
        if (c.template isType<O1>()) al<O1>(c, how);
        else if (c.template isType<O2>()) al<O2>(c, how);
        else if (c.template isType<O3>()) al<O3>(c, how);
        else if (c.template isType<O4>()) al<O4>(c, how);
    }
    static void reset(C& c, int) { c.reset(); }
    static bool conv(C&, int, int, int) { return false; }
    template <typename T, typename V>
    static int gif(V& c)
    {
        auto* p = c.template get_if<T>();
        return p ? p->get() : NO;
    }
    static Obs look(const C& c)
    {
        Obs o;
        C& m = const_cast<C&>(c);
        o.r = rid(c.get_allocator());
        o.gets = {val([&] { return c.template get<O1>().get(); }), val([&] { return m.template get<O2>().get(); }),
                val([&] { return c.template get<O3>().get(); }), val([&] { return m.template get<O4>().get(); })};
        o.ifs = {gif<O1>(m), gif<O2>(c), gif<O3>(m), gif<O4>(c)};
        const int t[4] = {c.template isType<O1>(), c.template isType<O2>(), c.template isType<O3>(), c.template isType<O4>()};
        for (int i = 0; i < 4; ++i)
            if (t[i])
            {
                o.k = i + 1;
                o.v = o.gets[static_cast<size_t>(i)];
            }
        const int other = val([&] { return c.template get<int>(); });
        o.more = {c.hasValue() ? 1 : 0, t[0] + t[1] + t[2] + t[3], other, c.template isType<int>() ? 1 : 0};
        return o;
    }
    static void compare(vt::Ev&, const C&, const C&, int) {}
    static bool canSwap(const C&, const C&) { return true; }
};

template <typename A>
struct PtrAd
{
    using B = zserio::RebindAlloc<A, O2>;
    using C = zserio::UniquePtr<O2, B>;
    static constexpr bool copyable = false, opt = false, cmp = false, hasReset = true;
    static C* makeV(int r, int, int v, int)
    {
        C tmp = zserio::allocate_unique<O2, A>(mk<A>(r), v);
        return new C(std::move(tmp));
    }
    static void setV(C&, int, int, int) {}
    static int emplace(C&, int, int) { return 0; }
    static void alias(C&, int) {}
    static void reset(C& c, int how)
    {
        if (how % 2)
            c.reset();
        else
            c = nullptr;
    }
    static bool conv(C&, int, int, int) { return false; }
    static Obs look(const C& c)
    {
        Obs o;
        o.r = rid(c.get_deleter().get_allocator());
        o.k = c ? 2 : 0;
        o.v = c ? c->get() : 0;
        return o;
    }
    static void compare(vt::Ev&, const C&, const C&, int) {}
    static bool canSwap(const C&, const C&) { return true; }
};

// ---------------------------------------------------------------- execution
static const int NS = 3;

template <typename AD, typename A>
struct Run
{
    using C = typename AD::C;
    std::unique_ptr<C> s[NS];
    vt::Trace& t;
    explicit Run(vt::Trace& tr) : t(tr) {}

    C* fresh(int r)
    {
        if constexpr (AD::copyable)
            return new C(mk<A>(r));
        else
            return new C(nullptr, typename C::deleter_type(typename AD::B(mk<A>(r))));
    }
    void start(const std::string& c)
    {
        for (int i = 0; i < NS; ++i)
            s[i].reset(fresh(0));
        vt::Ev e(t, "Cfg");
        e.s("c", c);
        e.b("ca", Tr<A>::propagate_on_container_copy_assignment::value);
        e.b("ma", Tr<A>::propagate_on_container_move_assignment::value);
        e.b("sw", Tr<A>::propagate_on_container_swap::value);
        e.b("st", !std::is_empty_v<A>);
        bool selSelf = std::is_empty_v<A> || rid(Tr<A>::select_on_container_copy_construction(mk<A>(1))) == 1;
        e.b("sel", selSelf);
        show(e);
    }
    void show(vt::Ev& e)
    {
        g_quiet = true;
        std::string j = "[";
        for (int i = 0; i < NS; ++i)
        {
            const Obs o = AD::look(*s[i]);
            auto arr = [](const Ints& v) {
                std::string r = "[";
                for (size_t q = 0; q < v.size(); ++q)
                    r += (q ? "," : "") + std::to_string(v[q]);
                return r + "]";
            };
            j += std::string(i ? "," : "") + "{\"r\":" + std::to_string(o.r) + ",\"k\":" + std::to_string(o.k) + ",\"v\":" +
                    std::to_string(o.v) + ",\"g\":" + arr(o.gets) + ",\"f\":" + arr(o.ifs) + ",\"m\":" + arr(o.more) + "}";
        }
        g_quiet = false;
        e.raw("sl", j + "]").i("live", static_cast<int64_t>(g_live.size())).i("bad", g_bad);
        e.a("blk", Ints{static_cast<int>(g_res[0].blocks.size()), static_cast<int>(g_res[1].blocks.size())});
    }
    // w: op s t r k v how fail
    void exec(const std::vector<std::string>& w)
    {
        const std::string& op = w[0];
        auto arg = [&](size_t i) { return i < w.size() ? atoi(w[i].c_str()) : 0; };
        const int a = arg(1), b = arg(2), r = std::is_empty_v<A> ? 0 : arg(3), k = arg(4), v = arg(5), how = arg(6), fail = arg(7);
        if (!AD::copyable && (op == "CopyC" || op == "CopyCA" || op == "MoveCA" || op == "CopyA" || op == "SetV" || op == "Empl" || op == "Alias"))
            return;
        if (!AD::hasReset && (op == "Reset" || op == "Alias"))
            return;
        if (op == "Conv" && !AD::opt)
            return;
        if (op == "Swap" && !AD::canSwap(*s[a], *s[b]))
            return;
        if (op == "Cmp")
        {
            if constexpr (AD::cmp)
            {
                vt::Ev e(t, "Cmp");
                e.i("s", a).i("t", b).i("w", v);
                AD::compare(e, *s[a], *s[b], v);
                show(e);
            }
            return;
        }
        if (op == "Alias" && AD::look(*s[a]).k == 0)
            return;
        g_tripped = false;
        g_budget = fail - 1;
        int ret = v;
        const bool ok = vt::tryDo([&] {
            if (op == "Ctor")
                s[a].reset(fresh(r));
            else if (op == "CtorV")
                s[a].reset(AD::makeV(r, k, v, how));
            else if (op == "MoveC")
                s[b].reset(new C(std::move(*s[a])));
            else if (op == "MoveA")
                *s[b] = std::move(*s[a]);
            else if (op == "Reset")
                AD::reset(*s[a], how);
            else if (op == "Swap")
                s[a]->swap(*s[b]);
            else if (op == "SetV")
                AD::setV(*s[a], k, v, how);
            else if (op == "Empl")
                ret = AD::emplace(*s[a], k, v);
            else if (op == "Alias")
                AD::alias(*s[a], how);
            else if (op == "Conv")
                AD::conv(*s[a], how, v, r);
            else
            {
                if constexpr (AD::copyable)
                {
                    if (op == "CopyC")
                        s[b].reset(new C(*s[a]));
                    else if (op == "CopyCA")
                        s[b].reset(new C(*s[a], mk<A>(r)));
                    else if (op == "MoveCA")
                        s[b].reset(new C(std::move(*s[a]), mk<A>(r)));
                    else if (op == "CopyA")
                        *s[b] = *static_cast<const C*>(s[a].get());
                    else
                        abort();
                }
            }
        });
        g_budget = -1;
        vt::Ev e(t, op.c_str());
        e.i("s", a).i("t", b).i("r", r).i("k", k).i("v", v).i("how", how).i("ret", ret).b("ok", ok).b("inj", g_tripped);
        show(e);
    }
    void finish()
    {
        for (auto& x : s)
            x.reset();
        vt::Ev e(t, "Gone");
        e.i("live", static_cast<int64_t>(g_live.size())).i("bad", g_bad);
        e.a("blk", Ints{static_cast<int>(g_res[0].blocks.size()), static_cast<int>(g_res[1].blocks.size())});
    }
};

template <typename AD, typename A>
static void go(const vt::Args& args, vt::Trace& t, const std::string& c, std::initializer_list<int> kinds)
{
    std::pmr::set_default_resource(&g_res[0]);
    Run<AD, A> run(t);
    bool on = false;
    if (args.script)
    {
        for (const auto& w : vt::readScript(args.script))
        {
            if (w[0] == "Begin")
            {
                if (on)
                    run.finish();
                run.start(c);
                on = true;
            }
            else
                run.exec(w);
        }
    }
    else
    {
        vt::Rng g(args.seed);
        static const std::vector<std::string> ops = {"Ctor", "CtorV", "CtorV", "CopyC", "CopyCA", "MoveC", "MoveCA", "CopyA", "CopyA",
                "MoveA", "MoveA", "SetV", "SetV", "Empl", "Empl", "Reset", "Alias", "Conv", "Swap", "Swap", "Cmp", "Cmp"};
        while (t.size() < args.n)
        {
            run.start(c);
            const size_t len = 5 + g.below(60);
            const bool failing = g.chance(60);
            for (size_t i = 0; i < len; ++i)
            {
                const int v = g.chance(10) ? -1 : static_cast<int>(g.below(4));
                const std::string& op = g.pick(ops);
                run.exec({op, std::to_string(g.below(NS)), std::to_string(g.below(NS)), std::to_string(g.below(2)),
                        std::to_string(g.pick(kinds)), std::to_string(op == "Conv" ? v : (v < 0 ? 3 : v)), std::to_string(g.below(8)),
                        std::to_string(failing && g.chance(35) ? 1 + g.below(4) : 0)});
            }
            run.finish();
        }
        on = false;
    }
    if (on)
        run.finish();
    vt::Ev(t, "End");
}

template <typename A>
static void container(const vt::Args& args, vt::Trace& t, const std::string& c)
{
    if (c == "optS")
        go<OptAd<A, O1, 1, O2>, A>(args, t, c, {1});
    else if (c == "optB")
        go<OptAd<A, O2, 2, O1>, A>(args, t, c, {2});
    else if (c == "optT")
        go<OptAd<A, O3, 3, O2>, A>(args, t, c, {3});
    else if (c == "optR")
        go<OptAd<A, OR, 5, O2>, A>(args, t, c, {5});
    else if (c == "var")
        go<VarAd<A>, A>(args, t, c, {1, 2, 3, 4});
    else if (c == "any")
        go<AnyAd<A>, A>(args, t, c, {1, 2, 3, 4});
    else if constexpr (std::is_move_assignable_v<A>)
    {
        if (c == "uptr")
            go<PtrAd<A>, A>(args, t, c, {2});
        else
            abort();
    }
}

int main(int argc, char** argv)
{
    vt::Args args(argc, argv);
    const size_t d = args.mode.find('-');
    const std::string c = args.mode.substr(0, d), a = args.mode.substr(d + 1);
    vt::Trace t(args.out);
#if !defined(VT_ALLOC_) || defined(VT_ALLOC_cnt)
    if (a == "cnt")
        container<CntAlloc<At>>(args, t, c);
#endif
#if !defined(VT_ALLOC_) || defined(VT_ALLOC_pmr)
    if (a == "pmr")
        container<std::pmr::polymorphic_allocator<At>>(args, t, c);
#endif
#if !defined(VT_ALLOC_) || defined(VT_ALLOC_ppmr)
    if (a == "ppmr")
        container<zserio::ppmr::PropagatingPolymorphicAllocator<At>>(args, t, c);
#endif
#if !defined(VT_ALLOC_) || defined(VT_ALLOC_mca)
    if (a == "mca")
        container<MixAlloc<At, true, false, false>>(args, t, c);
#endif
#if !defined(VT_ALLOC_) || defined(VT_ALLOC_mma)
    if (a == "mma")
        container<MixAlloc<At, false, true, false>>(args, t, c);
#endif
#if !defined(VT_ALLOC_) || defined(VT_ALLOC_msw)
    if (a == "msw")
        container<MixAlloc<At, false, false, true>>(args, t, c);
#endif
    return 0;
}
