// Views which own their data, through histories of building, reading, copying and moving.
#include <unistd.h>

#include <fstream>
#include <list>

#include "reflect.h"
#include "zserio/IntrospectableView.h"
#include "zserio/SerializeUtil.h"

using namespace obj;
using zserio::DataView;
using zserio::View;
namespace
{
using Alloc = std::allocator<uint8_t>;
std::string g_file;
std::string params(const View<CreatorNested>& v) { return nodes(std::make_tuple(v.param())); }
std::string params(const View<DebugStringParamObject>& v) { return nodes(std::make_tuple(v.param())); }
std::string params(const View<WalkerChoice>& v) { return nodes(std::make_tuple(v.selector())); }
std::string params(const View<ReflectableUtilChoice>& v) { return nodes(std::make_tuple(v.param())); }
std::string params(const View<ReflectableChoice>& v) { return nodes(std::make_tuple(v.param())); }
std::string params(const View<ReflectableNested>& v) { return nodes(std::make_tuple(v.dummyParam(), v.stringParam())); }
template <typename T>
std::string params(const View<T>&)
{
    return "[]";
}
Ints trimmed(Ints b, size_t n)
{
    // whole bytes: the rest of the last one is zero
    for (size_t i = n; i < b.size(); ++i)
        if (b[i] != 0)
            return Ints{3};
    if (b.size() > n + 7)
        return Ints{4};
    b.resize(n);
    return b;
}
Ints byteBits(const std::vector<uint8_t>& v)
{
    Ints r;
    for (uint8_t b : v)
        for (int i = 7; i >= 0; --i)
            r.push_back((b >> i) & 1);
    return r;
}
std::vector<uint8_t> slurp(const std::string& f)
{
    std::ifstream s(f, std::ios::binary);
    return std::vector<uint8_t>(std::istreambuf_iterator<char>(s), {});
}
template <typename T>
struct Driver
{
    using P = typename Par<T>::type;
    vt::Trace& t;
    Rng& g;
    Gen gen;
    std::unique_ptr<DataView<T>> dv[3];
    bool sound[3] = {};
    std::list<P> kept; // views refer to texts given as parameters
    Driver(vt::Trace& t_, Rng& g_) : t(t_), g(g_), gen{g_, 0}
    {
        gen.maxArr = 3;
        vt::Ev(t, "Begin");
    }
    void put(size_t s, std::unique_ptr<DataView<T>> v)
    {
        dv[s] = std::move(v);
    }
    void build(size_t s)
    {
        gen.wrong = g.chance(30) ? 12 : 0;
        auto x = std::make_unique<T>();
        kept.emplace_back();
        P& par = kept.back();
        gen(*x);
        gen(par);
        if (gen.wrong == 0 || g.chance(40))
            gen.fix(*x, par);
        gen.wrong = 0;
        const std::string v = node(*x), ps = nodes(par);
        bool ok = true;
        dv[s].reset();
        try
        {
            std::apply(
                    [&](const auto&... a) {
                        switch (g.below(3))
                        {
                        case 0: dv[s] = std::make_unique<DataView<T>>(static_cast<const T&>(*x), a...); break;
                        case 1: dv[s] = std::make_unique<DataView<T>>(std::move(*x), a...); break;
                        default:
                        {
                            DataView made(T(*x), a...);
                            dv[s] = std::make_unique<DataView<T>>(g.chance(50) ? made : std::move(made));
                        }
                        }
                    },
                    par);
        }
        catch (const zserio::CppRuntimeException&)
        {
            ok = false;
        }
        gen(*x); // the source is something else now
        x.reset();
        sound[s] = ok;
        vt::Ev(t, "Build").i("s", static_cast<int64_t>(s)).s("k", Shape<T>::name).raw("ps", ps).raw("v", v).b("ok", ok);
    }
    void read(size_t s)
    {
        T x;
        kept.emplace_back();
        P& par = kept.back();
        gen(x);
        gen(par);
        gen.fix(x, par);
        zserio::BitBuffer b = std::apply([&](const auto&... a) { return zserio::serialize(View<T>(x, a...), Alloc()); }, par);
        std::vector<uint8_t> raw(b.getBuffer(), b.getBuffer() + b.getByteSize());
        size_t nbits = b.getBitSize();
        const size_t kind = g.below(5);
        if (kind == 0 && nbits > 0)
            nbits = g.below(nbits);
        if (kind == 1)
            for (size_t i = 0; i < 1 + g.below(3) && nbits > 0; ++i)
            {
                const size_t at = g.below(nbits);
                raw[at / 8] = static_cast<uint8_t>(raw[at / 8] ^ (0x80 >> (at % 8)));
            }
        if (kind == 2)
        {
            raw.push_back(static_cast<uint8_t>(g.next()));
            nbits = raw.size() * 8 - g.below(8);
        }
        raw.resize((nbits + 7) / 8);
        if (g.chance(20))
            gen(par);
        const size_t how = g.below(9);
        if (how >= 4 && how < 8)
            nbits = raw.size() * 8;
        const std::string ps = nodes(par);
        Ints bits = byteBits(raw);
        bits.resize(nbits);
        auto buf = std::make_unique<zserio::BitBuffer>(zserio::Span<const uint8_t>(raw.data(), raw.size()), nbits);
        auto exact = std::make_unique<std::vector<uint8_t>>(raw);
        const zserio::Span<const uint8_t> span(*exact);
        const zserio::ArrayPreallocation pre(g.below(64));
        const Alloc al;
        bool ok = true;
        dv[s].reset();
        try
        {
            std::apply(
                    [&](const auto&... a) {
                        auto keep = [&](DataView<T>&& v) { dv[s] = std::make_unique<DataView<T>>(std::move(v)); };
                        switch (how)
                        {
                        case 0: keep(zserio::deserialize<T>(*buf, a...)); break;
                        case 1: keep(zserio::deserialize<T>(*buf, pre, a...)); break;
                        case 2: keep(zserio::deserialize<T>(*buf, al, a...)); break;
                        case 3: keep(zserio::deserialize<T>(*buf, pre, al, a...)); break;
                        case 4: keep(zserio::deserializeFromBytes<T>(span, a...)); break;
                        case 5: keep(zserio::deserializeFromBytes<T>(span, al, a...)); break;
                        case 6: keep(zserio::deserializeFromBytes<T>(span, pre, al, a...)); break;
                        case 7:
                        {
                            std::ofstream f(g_file, std::ios::binary | std::ios::trunc);
                            f.write(reinterpret_cast<const char*>(raw.data()), static_cast<std::streamsize>(raw.size()));
                            f.close();
                            if (g.chance(50))
                                keep(zserio::deserializeFromFile<T>(g_file, a...));
                            else
                                keep(zserio::deserializeFromFile<T>(g_file, pre, a...));
                            break;
                        }
                        default:
                        {
                            zserio::BitStreamReader r(*buf, pre);
                            dv[s] = std::make_unique<DataView<T>>(r, T(), a...);
                        }
                        }
                    },
                    par);
        }
        catch (const zserio::CppRuntimeException&)
        {
            ok = false;
        }
        buf.reset();
        exact.reset();
        sound[s] = false;
        if (ok)
        {
            try
            {
                zserio::detail::validate(*dv[s], "");
                sound[s] = true;
            }
            catch (const zserio::CppRuntimeException&)
            {}
        }
        vt::Ev(t, "Read").i("s", static_cast<int64_t>(s)).s("k", Shape<T>::name).raw("ps", ps).a("bits", bits).b("ok", ok).i("how", static_cast<int64_t>(how));
    }
    std::string written(const DataView<T>& d, bool valid, size_t how)
    {
        Ints r;
        if (!valid)
        {
            // unsound data which was read: only a view checks what it writes
            try
            {
                r = bufferBits(zserio::serialize(static_cast<const View<T>&>(d), Alloc()));
            }
            catch (const zserio::CppRuntimeException&)
            {
                r = Ints{2};
            }
            return ints(r);
        }
        const size_t n = zserio::detail::bitSizeOf(d, 0);
        const View<T>& v = d;
        switch (how)
        {
        case 0: r = bufferBits(zserio::serialize(d)); break;
        case 1: r = bufferBits(zserio::serialize(d, Alloc())); break;
        case 2: r = bufferBits(zserio::serialize(v)); break;
        case 3: r = trimmed(byteBits(zserio::serializeToBytes(d)), n); break;
        case 4: r = trimmed(byteBits(zserio::serializeToBytes(d, Alloc())), n); break;
        case 5: r = trimmed(byteBits(zserio::serializeToBytes(v, Alloc())), n); break;
        case 6:
            zserio::serializeToFile(d, g_file);
            r = trimmed(byteBits(slurp(g_file)), n);
            break;
        default:
            zserio::serializeToFile(v, g_file);
            r = trimmed(byteBits(slurp(g_file)), n);
        }
        return ints(r);
    }
    void look(size_t s)
    {
        if (!dv[s])
        {
            vt::Ev(t, "Look").i("s", static_cast<int64_t>(s)).b("there", false);
            return;
        }
        const DataView<T>& d = *dv[s];
        const std::string bits = "[" + written(d, sound[s], g.below(8)) + "," + written(d, sound[s], g.below(8)) + "]";
        vt::Ev(t, "Look").i("s", static_cast<int64_t>(s)).b("there", true).raw("ps", params(d)).raw("v", node(d.zserioData())).raw("tree", rtree(zserio::introspectable(static_cast<const View<T>&>(d), Alloc()))).raw("bits", bits);
    }
    static std::string rel(const View<T>& a, const View<T>& b)
    {
        std::string s;
        for (const bool x : {a == b, a != b, a < b, a <= b, a > b, a >= b})
            s += std::string(s.empty() ? "" : ",") + (x ? "true" : "false");
        return "[" + s + "]";
    }
    void run(size_t n)
    {
        for (; n > 0; --n)
        {
            const size_t s = g.below(3), o = g.below(3);
            switch (g.below(10))
            {
            case 0:
            case 1: build(s); break;
            case 2:
            case 3: read(s); break;
            case 4:
                if (s != o && dv[s])
                {
                    auto c = std::make_unique<DataView<T>>(g.chance(50) ? static_cast<const DataView<T>&>(*dv[s]) : *dv[s]);
                    dv[o] = std::move(c);
                    sound[o] = sound[s];
                    vt::Ev(t, "Copy").i("s", static_cast<int64_t>(s)).i("t", static_cast<int64_t>(o));
                }
                break;
            case 5:
                if (s != o && dv[s])
                {
                    auto c = std::make_unique<DataView<T>>(std::move(*dv[s]));
                    dv[s].reset();
                    dv[o] = std::move(c);
                    sound[o] = sound[s];
                    vt::Ev(t, "Move").i("s", static_cast<int64_t>(s)).i("t", static_cast<int64_t>(o));
                }
                break;
            case 6:
                dv[s].reset();
                vt::Ev(t, "Drop").i("s", static_cast<int64_t>(s));
                break;
            case 7:
                if (dv[s] && dv[o] && sound[s] && sound[o])
                {
                    const View<T>&a = *dv[s], &b = *dv[o];
                    vt::Ev(t, "Cmp").i("s", static_cast<int64_t>(s)).i("t", static_cast<int64_t>(o)).raw("rel", rel(a, b)).a("hx", vt::limbs(std::hash<View<T>>()(a))).a("hy", vt::limbs(std::hash<View<T>>()(b)));
                }
                break;
            default: look(s);
            }
        }
        for (size_t s = 0; s < 3; ++s)
            look(s);
    }
};
} // namespace
int main(int argc, char** argv)
{
    vt::Args args(argc, argv);
    vt::Trace t(args.out);
    Rng g(args.seed);
    g_file = args.out + std::string(".dat");
    while (t.size() < args.n)
        withType(g.below(NTYPES), [&](auto tag) {
            using T = typename decltype(tag)::type;
            Driver<T>(t, g).run(30);
        });
    unlink(g_file.c_str());
    vt::Ev(t, "End");
    return 0;
}
