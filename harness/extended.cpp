// Extended fields through histories.  mode: int opt text all
#include <memory_resource>

#include "trace.h"
#include "zserio/Extended.h"
#include "zserio/GenericAccessor.h"
#include "zserio/Optional.h"
#include "zserio/Types.h"
#include "zserio/pmr/String.h"

using namespace zserio;
namespace
{
using vt::Rng;
struct Res : std::pmr::memory_resource
{
    int64_t blocks = 0;
    void* do_allocate(size_t n, size_t) override
    {
        ++blocks;
        return ::operator new(n);
    }
    void do_deallocate(void* p, size_t, size_t) override
    {
        --blocks;
        ::operator delete(p);
    }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
Res g_res[3]; // 0 is the default
using PmrAlloc = std::pmr::polymorphic_allocator<char>;
using Text = BasicString<PmrAlloc>;

template <typename T>
struct Kind;
template <>
struct Kind<Int32>
{
    static constexpr const char* name = "int";
    static Int32 make(int v) { return Int32(v); }
    static std::string show(const Int32& v) { return "[" + std::to_string(static_cast<int32_t>(v)) + "]"; }
    static int64_t from(const Int32&) { return 0; }
    static bool inner(Extended<Int32>& x) { return &genericAccessor(x) == &x.value() && &genericAccessor(static_cast<const Extended<Int32>&>(x)) == &x.value(); }
};
template <>
struct Kind<Optional<Int32>>
{
    static constexpr const char* name = "opt";
    static Optional<Int32> make(int v) { return v < 0 ? Optional<Int32>() : Optional<Int32>(Int32(v)); }
    static std::string show(const Optional<Int32>& v) { return v.has_value() ? Kind<Int32>::show(*v) : "[]"; }
    static int64_t from(const Optional<Int32>&) { return 0; }
    static bool inner(Extended<Optional<Int32>>& x)
    {
        return !x.value().has_value() || (&genericAccessor(x) == &x.value().value() && &genericAccessor(static_cast<const Extended<Optional<Int32>>&>(x)) == &x.value().value());
    }
};
template <>
struct Kind<Text>
{
    static constexpr const char* name = "text";
    static Text make(int v, const PmrAlloc& a = PmrAlloc()) { return v == 0 ? Text(a) : Text("a text which does not fit into the object itself ", a) + static_cast<char>('0' + v); }
    static std::string show(const Text& v) { return v.empty() ? "[0]" : "[" + std::to_string(v.back() - '0') + "]"; }
    static int64_t from(const Text& v)
    {
        for (int i = 0; i < 3; ++i)
            if (v.get_allocator().resource() == &g_res[i])
                return i;
        return -1;
    }
    static bool inner(Extended<Text>& x) { return &genericAccessor(x) == &x.value() && &genericAccessor(static_cast<const Extended<Text>&>(x)) == &x.value(); }
};
std::string num(uint32_t v)
{
    return std::to_string(v);
}
template <typename T>
struct Driver
{
    using X = Extended<T>;
    using K = Kind<T>;
    static constexpr bool alloc = std::is_same_v<T, Text>;
    static constexpr size_t N = 3;
    vt::Trace& t;
    Rng& g;
    alignas(X) unsigned char mem[N][sizeof(X)];
    X& at(size_t i) { return *reinterpret_cast<X*>(mem[i]); }
    template <typename... A>
    void renew(size_t i, A&&... a)
    {
        at(i).~X();
        new (mem[i]) X(std::forward<A>(a)...);
    }
    Driver(vt::Trace& t_, Rng& g_) : t(t_), g(g_)
    {
        for (size_t i = 0; i < N; ++i)
            new (mem[i]) X();
        log("Begin", 0, 0, [](vt::Ev& e) { e.s("k", K::name); });
    }
    ~Driver()
    {
        for (size_t i = 0; i < N; ++i)
            at(i).~X();
    }
    std::string all()
    {
        std::string s;
        for (size_t i = 0; i < N; ++i)
        {
            X& x = at(i);
            const X& c = x;
            const bool same = static_cast<bool>(x) == x.isPresent() && static_cast<bool>(c) == c.isPresent() && &*x == &x.value() && &*c == &c.value() && x.operator->() == &x.value() &&
                    c.operator->() == &c.value() && &c.value() == &x.value() && K::inner(x);
            s += (i ? "," : "") + std::string("{\"p\":") + (c.isPresent() ? "true" : "false") + ",\"v\":" + K::show(c.value()) + ",\"r\":" + std::to_string(K::from(c.value())) +
                    ",\"same\":" + (same ? "true" : "false") + "}";
        }
        return "[" + s + "]";
    }
    template <typename F>
    void log(const char* e, size_t s, size_t o, F&& f)
    {
        const std::string a = all();
        vt::Ev ev(t, e);
        ev.i("s", static_cast<int64_t>(s)).i("t", static_cast<int64_t>(o));
        f(ev);
        ev.raw("all", a);
    }
    std::string val(int v) { return v < 0 ? "[]" : "[" + std::to_string(v) + "]"; }
    void step(const std::string& op, size_t s, size_t o, size_t r, int v)
    {
        auto none = [](vt::Ev&) {};
        if (op == "Make")
        {
            renew(s);
            log("Make", s, 0, none);
        }
        else if (op == "MakeV")
        {
            if constexpr (alloc)
            {
                if (v == 0)
                    renew(s, PmrAlloc(&g_res[r]));
                else
                    renew(s, K::make(v), PmrAlloc(&g_res[r]));
            }
            else if (r == 0 || v < 0)
                renew(s, K::make(v));
            else
                renew(s, static_cast<const T&>(K::make(v)));
            log("MakeV", s, 0, [&](vt::Ev& e) { e.raw("v", val(v)).i("r", static_cast<int64_t>(r)); });
        }
        else if (op == "CopyC" && s != o)
        {
            renew(o, static_cast<const X&>(at(s)));
            log("CopyC", s, o, none);
        }
        else if (op == "MoveC" && s != o)
        {
            renew(o, std::move(at(s)));
            log("MoveC", s, o, none);
        }
        else if (op == "CopyCA" && s != o)
        {
            if constexpr (alloc)
            {
                renew(o, static_cast<const X&>(at(s)), PmrAlloc(&g_res[r]));
                log("CopyCA", s, o, [&](vt::Ev& e) { e.i("r", static_cast<int64_t>(r)); });
            }
            else if constexpr (!std::is_same_v<T, Int32>)
            {
                renew(o, static_cast<const X&>(at(s)), std::allocator<uint8_t>());
                log("CopyCA", s, o, [&](vt::Ev& e) { e.i("r", 0); });
            }
        }
        else if (op == "MoveCA" && s != o)
        {
            if constexpr (alloc)
            {
                renew(o, std::move(at(s)), PmrAlloc(&g_res[r]));
                log("MoveCA", s, o, [&](vt::Ev& e) { e.i("r", static_cast<int64_t>(r)); });
            }
            else if constexpr (!std::is_same_v<T, Int32>)
            {
                renew(o, std::move(at(s)), std::allocator<uint8_t>());
                log("MoveCA", s, o, [&](vt::Ev& e) { e.i("r", 0); });
            }
        }
        else if (op == "CopyA")
        {
            const X& x = at(s);
            at(o) = x;
            log("CopyA", s, o, none);
        }
        else if (op == "MoveA" && s != o)
        {
            at(o) = std::move(at(s));
            log("MoveA", s, o, none);
        }
        else if (op == "Present")
        {
            at(s).setPresent(v == 1);
            log("Present", s, 0, [&](vt::Ev& e) { e.b("b", v == 1); });
        }
        else if (op == "Value")
        {
            if (r == 0)
                at(s).value() = K::make(v);
            else if (r == 1)
                *at(s) = K::make(v);
            else if (r == 2)
                at(s).operator->()->operator=(K::make(v));
            else
                at(s).value() = static_cast<const T&>(K::make(v));
            log("Value", s, 0, [&](vt::Ev& e) { e.raw("v", val(v)); });
        }
        else if (op == "Cmp")
        {
            const X &a = at(s), &b = at(o);
            const uint32_t seed = static_cast<uint32_t>(g.next() & 0xFFFFFF);
            const uint32_t h = calcHashCode(seed, a), hv = calcHashCode(seed, a.value());
            const uint32_t sd = static_cast<uint32_t>(std::hash<X>()(a)), sv = calcHashCode(HASH_SEED, a.value());
            const bool rel[] = {a == b, a != b, a < b, a > b, a <= b, a >= b};
            std::string rs;
            for (const bool x : rel)
                rs += std::string(rs.empty() ? "" : ",") + (x ? "true" : "false");
            log("Cmp", s, o, [&](vt::Ev& e) {
                e.raw("rel", "[" + rs + "]").s("h", num(h)).s("hv", num(hv)).s("seed", num(seed)).s("std", num(sd)).s("stdv", num(sv)).s("stdseed", num(HASH_SEED));
            });
        }
    }
    void random(size_t n)
    {
        for (; n > 0; --n)
        {
            const char* op = g.pick<const char*>({"Make", "MakeV", "MakeV", "CopyC", "CopyCA", "MoveC", "MoveCA", "CopyA", "CopyA", "MoveA", "MoveA", "Present", "Present", "Value", "Value", "Cmp", "Cmp", "Cmp"});
            const int lo = std::is_same_v<T, Optional<Int32>> ? -1 : 0;
            const bool pres = op == std::string("Present");
            step(op, g.below(N), g.below(N), op == std::string("Value") ? g.below(4) : g.below(3), pres ? static_cast<int>(g.below(2)) : lo + static_cast<int>(g.below(4)));
        }
    }
};
template <typename T>
void play(vt::Trace& t, Rng& g, const vt::Args& args, size_t n)
{
    std::unique_ptr<Driver<T>> d;
    if (!args.script)
    {
        d = std::make_unique<Driver<T>>(t, g);
        d->random(n);
        return;
    }
    for (const auto& w : vt::readScript(args.script))
    {
        if (w[0] == "Begin")
        {
            d.reset();
            d = std::make_unique<Driver<T>>(t, g);
        }
        else
            d->step(w[0], static_cast<size_t>(std::stoi(w[1])), static_cast<size_t>(std::stoi(w[2])), static_cast<size_t>(std::stoi(w[3])), std::stoi(w[4]));
    }
}
} // namespace
int main(int argc, char** argv)
{
    std::pmr::set_default_resource(&g_res[0]);
    {
        vt::Args args(argc, argv);
        vt::Trace t(args.out);
        Rng g(args.seed);
        while (t.size() < args.n || args.script)
        {
            if (args.mode == "int" || (args.mode == "all" && g.chance(30)))
                play<Int32>(t, g, args, 40);
            else if (args.mode == "opt" || (args.mode == "all" && g.chance(50)))
                play<Optional<Int32>>(t, g, args, 40);
            else
                play<Text>(t, g, args, 40);
            if (args.script)
                break;
        }
        bool leak = false;
        for (const auto& r : g_res)
            leak = leak || r.blocks != 0;
        if (leak)
            vt::Ev(t, "Leak");
        else
            vt::Ev(t, "End").raw("all", "[]");
    }
    return 0;
}
