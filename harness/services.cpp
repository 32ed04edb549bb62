// Service data: objects to introspect or serialized, bytes held or viewed, through copies and moves.
#include <variant>
#include "reflect.h"
#include "zserio/IService.h"
#include "zserio/IntrospectableView.h"

using namespace obj;
namespace
{
using Alloc = std::allocator<uint8_t>;
Ints byteBits(zserio::Span<const uint8_t> v)
{
    Ints r;
    for (uint8_t b : v)
        for (int i = 7; i >= 0; --i)
            r.push_back((b >> i) & 1);
    return r;
}
template <typename T>
struct Driver
{
    using Intro = zserio::IntrospectableServiceData<T>;
    using Obj = zserio::ObjectServiceData;
    using Hold = zserio::RawServiceDataHolder;
    using Win = zserio::RawServiceDataView;
    template <typename X>
    using P = std::unique_ptr<X>;
    std::variant<std::monostate, P<Intro>, P<Obj>, P<Hold>, P<Win>> sd[3];
    uint8_t area[6] = {};
    vt::Trace& t;
    Rng& g;
    Gen gen;
    Driver(vt::Trace& t_, Rng& g_) : t(t_), g(g_), gen{g_, 0}
    {
        gen.maxArr = 3;
        vt::Ev(t, "Begin");
        change();
    }
    void change()
    {
        for (auto& b : area)
            b = static_cast<uint8_t>(g.next());
        vt::Ev(t, "Change").a("b", byteBits(area));
    }
    std::unique_ptr<T> object()
    {
        gen.wrong = g.chance(25) ? 12 : 0;
        auto x = std::make_unique<T>();
        gen(*x);
        std::tuple<> par;
        if (gen.wrong == 0 || g.chance(40))
            gen.fix(*x, par);
        gen.wrong = 0;
        return x;
    }
    // assigned to what the slot holds if it is of the same kind
    template <typename X, typename Y>
    void put(size_t s, Y&& x)
    {
        if (std::holds_alternative<P<X>>(sd[s]) && g.chance(50))
            *std::get<P<X>>(sd[s]) = std::forward<Y>(x);
        else
            sd[s] = std::make_unique<X>(std::forward<Y>(x));
    }
    void intro(size_t s)
    {
        auto x = object();
        const std::string v = node(*x);
        switch (g.below(4))
        {
        case 0: sd[s] = std::make_unique<Intro>(static_cast<const T&>(*x)); break;
        case 1: sd[s] = std::make_unique<Intro>(std::move(*x), Alloc()); break;
        case 2: put<Intro>(s, Intro(*x)); break;
        default: { const Intro made(std::move(*x)); put<Intro>(s, made); }
        }
        gen(*x);
        x.reset();
        vt::Ev(t, "Intro").i("s", static_cast<int64_t>(s)).s("k", Shape<T>::name).raw("v", v);
    }
    void object(size_t s)
    {
        auto x = object();
        const std::string v = node(*x);
        bool ok = true;
        P<Obj> o;
        try
        {
            if (g.chance(50))
                o = std::make_unique<Obj>(*x);
            else
                o = std::make_unique<Obj>(*x, Alloc());
        }
        catch (const zserio::CppRuntimeException&)
        {
            ok = false;
        }
        if (ok)
            sd[s] = std::move(o);
        else
            sd[s] = std::monostate();
        gen(*x);
        x.reset();
        vt::Ev(t, "Object").i("s", static_cast<int64_t>(s)).s("k", Shape<T>::name).raw("v", v).b("ok", ok);
    }
    void hold(size_t s)
    {
        zserio::Vector<uint8_t> raw(g.below(5));
        for (auto& b : raw)
            b = static_cast<uint8_t>(g.next());
        const Ints b = byteBits(raw);
        if (g.chance(50))
            sd[s] = std::make_unique<Hold>(raw);
        else
            sd[s] = std::make_unique<Hold>(std::move(raw));
        raw.assign(3, 7);
        vt::Ev(t, "Hold").i("s", static_cast<int64_t>(s)).a("b", b);
    }
    void look(size_t s)
    {
        if (std::holds_alternative<std::monostate>(sd[s]))
        {
            vt::Ev(t, "Look").i("s", static_cast<int64_t>(s)).b("there", false);
            return;
        }
        const zserio::IServiceData* d = nullptr;
        std::visit([&](const auto& p) { if constexpr (!std::is_same_v<std::decay_t<decltype(p)>, std::monostate>) d = p.get(); }, sd[s]);
        std::string data;
        auto get = [&] {
            Ints r;
            try
            {
                r = byteBits(d->getData());
            }
            catch (const zserio::CppRuntimeException&)
            {
                r = Ints{2};
            }
            data += (data.empty() ? "[" : ",") + ints(r);
        };
        const bool before = g.chance(50);
        if (before)
            get();
        auto i = d->getIntrospectable();
        const std::string tree = i ? rtree(i) : std::string("[]");
        get();
        if (g.chance(30))
            get();
        vt::Ev(t, "Look").i("s", static_cast<int64_t>(s)).b("there", true).raw("data", data + "]").b("intro", i != nullptr).raw("tree", tree);
    }
    void run(size_t n)
    {
        for (; n > 0; --n)
        {
            const size_t s = g.below(3), o = g.below(3);
            const bool there = !std::holds_alternative<std::monostate>(sd[s]);
            switch (g.below(13))
            {
            case 0:
            case 1: intro(s); break;
            case 2: object(s); break;
            case 3: hold(s); break;
            case 4:
                sd[s] = std::make_unique<Win>(zserio::Span<const uint8_t>(area, sizeof area));
                vt::Ev(t, "View").i("s", static_cast<int64_t>(s));
                break;
            case 5: change(); break;
            case 6:
            case 7:
                if (there)
                {
                    std::visit([&](const auto& p) {
                        using Q = std::decay_t<decltype(p)>;
                        if constexpr (!std::is_same_v<Q, std::monostate>)
                        {
                            using X = typename Q::element_type;
                            if (s == o)
                                *p = static_cast<const X&>(*p); // to itself
                            else
                                put<X>(o, static_cast<const X&>(*p));
                        }
                    }, sd[s]);
                    vt::Ev(t, "Copy").i("s", static_cast<int64_t>(s)).i("t", static_cast<int64_t>(o));
                }
                break;
            case 8:
                if (there && s != o)
                {
                    std::visit([&](const auto& p) {
                        using Q = std::decay_t<decltype(p)>;
                        if constexpr (!std::is_same_v<Q, std::monostate>)
                            put<typename Q::element_type>(o, std::move(*p));
                    }, sd[s]);
                    sd[s] = std::monostate();
                    vt::Ev(t, "Move").i("s", static_cast<int64_t>(s)).i("t", static_cast<int64_t>(o));
                }
                break;
            case 9:
                sd[s] = std::monostate();
                vt::Ev(t, "Drop").i("s", static_cast<int64_t>(s));
                break;
            default: look(s);
            }
        }
        for (size_t s = 0; s < 3; ++s)
            look(s);
    }
};
} // namespace
int main(int argc, char** argv)
{
    vt::Args args(argc, argv);
    vt::Trace t(args.out);
    Rng g(args.seed);
    while (t.size() < args.n)
        withType(g.below(NTYPES), [&](auto tag) {
            using T = typename decltype(tag)::type;
            if constexpr (std::tuple_size_v<typename Par<T>::type> == 0)
                Driver<T>(t, g).run(40);
        });
    vt::Ev(t, "End");
    return 0;
}
