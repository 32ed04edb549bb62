// Objects are serialized and deserialized through every entry point (mode ser), compared and hashed (mode cmp).
#include <unistd.h>

#include <fstream>

#include "objects.h"
#include "zserio/ArrayView.h"
#include "zserio/Extended.h"
#include "zserio/FloatUtil.h"
#include "zserio/SerializeUtil.h"

using namespace obj;

namespace
{
std::string g_file;
bool g_stale = false;
// Choices without a branch in the data do not drop the branch of a used object (KNOWN_FINDINGS.md, mode stale).
template <typename T>
void noChoice(T& x)
{
    if constexpr (std::is_same_v<T, WalkerObject>)
        x.choiceField = WalkerChoice();
    else if constexpr (std::is_same_v<T, ReflectableObject>)
        x.reflectableChoice = ReflectableChoice();
    else if constexpr (std::is_same_v<T, ReflectableUtilObject>)
        x.reflectableUtilChoice = ReflectableUtilChoice();
    else if constexpr (Shape<T>::kind == 2)
        x = T();
}

std::string slurp(const std::string& f)
{
    std::ifstream s(f, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(s), {});
}
void spit(const std::string& f, const std::string& c)
{
    std::ofstream s(f, std::ios::binary | std::ios::trunc);
    s << c;
}
Ints byteBits(const std::vector<uint8_t>& v)
{
    Ints r;
    for (uint8_t b : v)
        for (int i = 7; i >= 0; --i)
            r.push_back((b >> i) & 1);
    return r;
}

std::string params(const zserio::View<CreatorNested>& v) { return nodes(std::make_tuple(v.param())); }
std::string params(const zserio::View<DebugStringParamObject>& v) { return nodes(std::make_tuple(v.param())); }
std::string params(const zserio::View<WalkerChoice>& v) { return nodes(std::make_tuple(v.selector())); }
std::string params(const zserio::View<ReflectableUtilChoice>& v) { return nodes(std::make_tuple(v.param())); }
std::string params(const zserio::View<ReflectableChoice>& v) { return nodes(std::make_tuple(v.param())); }
std::string params(const zserio::View<ReflectableNested>& v) { return nodes(std::make_tuple(v.dummyParam(), v.stringParam())); }
template <typename T>
std::string params(const zserio::View<T>&)
{
    return "[]";
}

template <typename T, typename PAR>
void ser(vt::Trace& t, Rng& g, const T& x, const PAR& par, bool mayBeBad)
{
    std::apply(
            [&](const auto&... a) {
                const int k = static_cast<int>(g.below(mayBeBad ? 8 : 10));
                bool ok = true, touched = false;
                std::string how;
                Ints bits;
                size_t size = 0;
                const size_t pos = g.below(20);
                try
                {
                    if (k < 3)
                    {
                        how = "buffer";
                        bits = k == 0 ? bufferBits(zserio::serialize(x, a...))
                                      : k == 1 ? bufferBits(zserio::serialize(zserio::View<T>(x, a...), std::allocator<uint8_t>()))
                                               : bufferBits(zserio::serialize(zserio::DataView<T>(x, a...), std::allocator<uint8_t>()));
                    }
                    else if (k < 6)
                    {
                        how = "bytes";
                        const std::allocator<uint8_t> al;
                        bits = k == 3 ? byteBits(zserio::serializeToBytes(x, al, a...))
                                      : k == 4 ? byteBits(zserio::serializeToBytes(zserio::View<T>(x, a...), al))
                                               : byteBits(zserio::serializeToBytes(zserio::DataView<T>(T(x), a...), al));
                    }
                    else if (k < 8)
                    {
                        how = "file";
                        spit(g_file, "previous content, longer than most of the objects and kept when nothing is written");
                        const std::string before = slurp(g_file);
                        try
                        {
                            if (k == 6)
                                zserio::serializeToFile(x, g_file, a...);
                            else
                                zserio::serializeToFile(zserio::View<T>(x, a...), g_file);
                        }
                        catch (...)
                        {
                            touched = slurp(g_file) != before;
                            throw;
                        }
                        const std::string s = slurp(g_file);
                        bits = byteBits(std::vector<uint8_t>(s.begin(), s.end()));
                    }
                    else
                    {
                        how = "write";
                        const zserio::View<T> v(x, a...);
                        zserio::BitBuffer b(pos + zserio::detail::bitSizeOf(v, pos));
                        zserio::BitStreamWriter w(b);
                        w.setBitPosition(pos);
                        zserio::detail::write(w, v);
                        Ints all = bufferBits(b);
                        if (w.getBitPosition() == b.getBitSize())
                            bits.assign(all.begin() + static_cast<long>(pos), all.end());
                    }
                    size = zserio::detail::bitSizeOf(zserio::View<T>(x, a...), k < 8 ? 0 : pos);
                }
                catch (const std::exception&)
                {
                    ok = false;
                }
                vt::Ev e(t, "Ser");
                e.s("t", Shape<T>::name).raw("a", nodes(par)).raw("v", node(x)).s("how", how).b("ok", ok).b("touched", touched);
                e.i("size", static_cast<int64_t>(size)).a("bits", bits);
            },
            par);
}

template <typename T, typename PAR>
void de(vt::Trace& t, Rng& g, std::vector<uint8_t> raw, size_t nbits, const PAR& par, const T* same)
{
    std::apply(
            [&](const auto&... a) {
                int k = static_cast<int>(g.below(9));
                if (k >= 2 && k < 6) // whole bytes
                    nbits = raw.size() * 8;
                zserio::BitBuffer buf(zserio::Span<const uint8_t>(raw.data(), raw.size()), nbits);
                // an allocation of exactly the bytes given, so that reads outside of them are noticed
                std::unique_ptr<uint8_t[]> exact(new uint8_t[raw.size()]);
                std::copy(raw.begin(), raw.end(), exact.get());
                const zserio::Span<const uint8_t> span(exact.get(), raw.size());
                const zserio::ArrayPreallocation pre(g.below(64));
                bool ok = true;
                std::string v = "[\"n\"]", va = "[]";
                Ints again;
                bool eq = true;
                int64_t p = -1;
                bool reuse = g.chance(50);
                T data;
                if (reuse || g_stale)
                {
                    Gen{g, 0}(data); // an object which is used again
                    if (!g_stale)
                        noChoice(data);
                }
                auto done = [&](const zserio::View<T>& view) {
                    v = node(view.zserioData());
                    va = params(view);
                    eq = same == nullptr || (view.zserioData() == *same && !(view.zserioData() != *same) &&
                            std::hash<T>()(view.zserioData()) == std::hash<T>()(*same) && view == zserio::View<T>(*same, a...));
                    try
                    {
                        zserio::detail::validate(view, "");
                        again = bufferBits(zserio::serialize(view, std::allocator<uint8_t>()));
                    }
                    catch (const std::exception&)
                    {
                        again = Ints{2};
                    }
                };
                try
                {
                    switch (k)
                    {
                    case 0: done(zserio::deserialize(buf, data, a...)); break;
                    case 1: done(zserio::deserialize<T>(buf, a...)); break;
                    case 2: done(zserio::deserializeFromBytes(span, data, a...)); break;
                    case 3: done(zserio::deserializeFromBytes<T>(span, pre, a...)); break;
                    case 4:
                        spit(g_file, std::string(raw.begin(), raw.end()));
                        done(zserio::deserializeFromFile(g_file, data, a...));
                        break;
                    case 5:
                        spit(g_file, std::string(raw.begin(), raw.end()));
                        done(zserio::deserializeFromFile<T>(g_file, a...));
                        break;
                    case 6: {
                        auto dv = zserio::deserialize<T>(buf, pre, a...);
                        auto copy = dv; // the copy owns its data
                        auto moved = std::move(dv);
                        done(g.chance(50) ? copy : moved);
                        break;
                    }
                    default: {
                        zserio::BitStreamReader r(buf, pre);
                        const auto view = zserio::detail::read(r, data, a...);
                        p = static_cast<int64_t>(r.getBitPosition());
                        done(view);
                        break;
                    }
                    }
                }
                catch (const std::exception&)
                {
                    ok = false;
                }
                Ints bits = byteBits(raw);
                bits.resize(nbits);
                vt::Ev e(t, "De");
                e.s("t", Shape<T>::name).raw("a", nodes(par)).a("bits", bits).i("k", k).b("ok", ok).raw("v", v).raw("va", va).a("again", again).b("eq", eq).i("p", p);
            },
            par);
}

void serMode(vt::Trace& t, Rng& g, size_t n)
{
    while (t.size() < n)
        withType(g.below(NTYPES), [&](auto tag) {
            using T = typename decltype(tag)::type;
            const bool bad = g.chance(30);
            Gen gen{g, bad ? 12u : 0u};
            T x;
            typename Par<T>::type par;
            gen(x);
            gen(par);
            if (!bad || g.chance(60))
                gen.fix(x, par);
            ser(t, g, x, par, bad);
            if (!bad)
            {
                std::apply(
                        [&](const auto&... a) {
                            zserio::BitBuffer b = zserio::serialize(zserio::View<T>(x, a...), std::allocator<uint8_t>());
                            std::vector<uint8_t> raw(b.getBuffer(), b.getBuffer() + b.getByteSize());
                            size_t nbits = b.getBitSize();
                            de<T>(t, g, raw, nbits, par, &x);
                            // damaged
                            const int kind = static_cast<int>(g.below(4));
                            if (kind == 0 && nbits > 0)
                                nbits = g.below(nbits);
                            if (kind == 1 || kind == 3)
                                for (int i = 0; i < 1 + static_cast<int>(g.below(3)) && nbits > 0; ++i)
                                {
                                    const size_t at = g.below(g.chance(50) ? std::min<size_t>(nbits, 40) : nbits);
                                    raw[at / 8] = static_cast<uint8_t>(raw[at / 8] ^ (0x80 >> (at % 8)));
                                }
                            if (kind == 2 || kind == 3)
                            {
                                for (int i = 0; i < 3; ++i)
                                    raw.push_back(static_cast<uint8_t>(g.next()));
                                if (kind == 2)
                                    nbits = raw.size() * 8 - g.below(8);
                            }
                            raw.resize((nbits + 7) / 8);
                            typename Par<T>::type par2 = par;
                            if (g.chance(30))
                                gen(par2);
                            de<T>(t, g, raw, nbits, par2, nullptr);
                        },
                        par);
            }
        });
}

template <typename V>
Ints rel(const V& a, const V& b)
{
    return Ints{a == b, a != b, a < b, a <= b, a > b, a >= b};
}
std::string bools(const Ints& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i)
        s += std::string(i ? "," : "") + (v[i] ? "true" : "false");
    return s + "]";
}
void cmpMode(vt::Trace& t, Rng& g, size_t n)
{
    while (t.size() < n)
        withType(g.below(NTYPES), [&](auto tag) {
            using T = typename decltype(tag)::type;
            using PAR = typename Par<T>::type;
            Gen gen{g, 0};
            gen.maxArr = 2;
            T x[4];
            PAR par[4];
            for (int i = 0; i < 4; ++i)
            {
                if (i == 0 || g.chance(15))
                {
                    gen(x[i]);
                    gen(par[i]);
                }
                else
                {
                    const size_t j = g.below(static_cast<uint64_t>(i));
                    x[i] = x[j];
                    par[i] = par[j];
                    if (g.chance(75))
                        gen.mutate(x[i]);
                    if (g.chance(25))
                        gen(par[i]);
                }
                // views are compared for consistent objects only
                if (g.chance(70))
                    gen.fix(x[i], par[i]);
                vt::Ev(t, "Keep").i("s", i).s("t", Shape<T>::name).raw("a", nodes(par[i])).raw("v", node(x[i]));
            }
            for (int i = 0; i < 4; ++i)
                for (int j = 0; j < 4; ++j)
                    std::apply(
                            [&](const auto&... a) {
                                std::apply(
                                        [&](const auto&... b) {
                                            const zserio::View<T> v(x[i], a...);
                                            const zserio::View<T> w(x[j], b...);
                                            vt::Ev e(t, "Cmp");
                                            e.i("x", i).i("y", j).raw("rel", bools(rel(x[i], x[j])));
                                            e.a("hx", vt::limbs(std::hash<T>()(x[i]))).a("hy", vt::limbs(std::hash<T>()(x[j])));
                                            e.b("view", true).raw("vrel", bools(rel(v, w)));
                                            e.a("vhx", vt::limbs(std::hash<zserio::View<T>>()(v))).a("vhy", vt::limbs(std::hash<zserio::View<T>>()(w)));
                                        },
                                        par[j]);
                            },
                            par[i]);
        });
}
// built-in values, optional and extended ones
template <typename T>
std::string pnode(const T& x)
{
    if constexpr (std::is_same_v<T, zserio::Float16> || std::is_same_v<T, zserio::Float32>)
        return "[\"i\"," + ints(vt::bits(zserio::convertFloatToUInt32(x), 32)) + "]";
    else if constexpr (std::is_same_v<T, zserio::Float64>)
        return "[\"i\"," + ints(vt::bits(zserio::convertDoubleToUInt64(x), 64)) + "]";
    else if constexpr (is_opt<T>::value)
        return x.has_value() ? pnode(*x) : std::string("[\"n\"]");
    else
        return node(x);
}
template <typename T>
T prim(Rng& g)
{
    if constexpr (std::is_same_v<T, zserio::Float16> || std::is_same_v<T, zserio::Float32>)
        return T(zserio::convertUInt32ToFloat(g.pick<uint32_t>({0, 0x80000000U, 1, 0x80000001U, 0x3f800000U, 0xbf800000U, 0x7f800000U, 0xff800000U, 0x7fc00000U,
                static_cast<uint32_t>(g.next()), 0x7f7fffffU, 0x00800000U})));
    else if constexpr (std::is_same_v<T, zserio::Float64>)
        return T(zserio::convertUInt64ToDouble(g.pick<uint64_t>({0, 1ULL << 63, 1, 0x3ff0000000000000ULL, 0xbff0000000000000ULL, 0x7ff0000000000000ULL,
                0xfff0000000000000ULL, 0x7ff8000000000001ULL, g.next(), 0x000fffffffffffffULL})));
    else if constexpr (std::is_same_v<T, zserio::String>)
    {
        T x;
        for (size_t i = g.below(6); i > 0; --i)
            x.push_back(static_cast<char>(g.pick<int>({'a', 'b', 0, 127, 128, 255, static_cast<int>(g.below(256))})));
        return x;
    }
    else
    {
        T x;
        Gen{g, 0}(x);
        return x;
    }
}
template <typename T>
T vary(Rng& g, T x)
{
    if (g.chance(30))
        return x;
    if (g.chance(30))
        return prim<T>(g);
    if constexpr (!std::is_same_v<T, zserio::Float16> && !std::is_same_v<T, zserio::Float32> && !std::is_same_v<T, zserio::Float64>)
        Gen{g, 0}.mutate(x);
    else
        return prim<T>(g);
    return x;
}
template <typename T>
void primPair(vt::Trace& t, Rng& g, const char* type)
{
    const T a = prim<T>(g);
    const T b = vary(g, a);
    auto show = [&](const char* form, bool ha, bool hb, Ints r, Ints h1, Ints h2) {
        vt::Ev(t, "Prim").s("t", type).s("form", form).raw("x", ha ? pnode(a) : "[\"n\"]").raw("y", hb ? pnode(b) : "[\"n\"]").raw("rel", bools(r)).a("hx", h1).a("hy", h2);
    };
    auto h = [](const auto& v) { return Ints{static_cast<int>(zserio::calcHashCode(zserio::HASH_SEED, v) >> 16), static_cast<int>(zserio::calcHashCode(zserio::HASH_SEED, v) & 0xffff)}; };
    switch (g.below(6))
    {
    case 0: show("plain", true, true, rel(a, b), h(a), h(b)); break;
    case 5: // owned and viewed
        if constexpr (std::is_same_v<T, zserio::String>)
        {
            const std::string_view vb(b);
            show("view", true, true, rel(std::string_view(a), vb), h(a), h(vb));
        }
        else if constexpr (std::is_same_v<T, zserio::Bytes>)
        {
            const zserio::BytesView va(a), vb(b);
            show("view", true, true, rel(va, vb), h(va), h(vb));
        }
        break;
    case 1: {
        zserio::Optional<T> x, y;
        if (g.chance(60))
            x = a;
        if (g.chance(60))
            y = b;
        show("optional", x.has_value(), y.has_value(), rel(x, y), vt::limbs(std::hash<zserio::Optional<T>>()(x)), vt::limbs(std::hash<zserio::Optional<T>>()(y)));
        break;
    }
    case 2: {
        zserio::Extended<T> x(a), y(b);
        x.setPresent(g.chance(60));
        y.setPresent(g.chance(60));
        show("extended", x.isPresent(), y.isPresent(), rel(x, y), h(x), h(y));
        break;
    }
    case 3: {
        zserio::Vector<T> x, y;
        if (g.chance(80))
            x.push_back(a);
        if (g.chance(80))
            y.push_back(b);
        if constexpr (!std::is_same_v<T, zserio::DynInt64>)
            if (g.chance(50))
            {
                const zserio::ArrayView<const T> vx(x), vy(y);
                show("array", !x.empty(), !y.empty(), rel(vx, vy), h(x), h(vy));
                break;
            }
        show("array", !x.empty(), !y.empty(), rel(x, y), h(x), h(y));
        break;
    }
    default: {
        enum class Idx : size_t { A, B };
        using V = zserio::Variant<Idx, std::monostate, T>;
        V x, y;
        if (g.chance(80))
            x.template emplace<Idx::B>(a);
        if (g.chance(80))
            y.template emplace<Idx::B>(b);
        const bool hx = x.index() == Idx::B, hy = y.index() == Idx::B;
        show("variant", hx, hy, rel(x, y), vt::limbs(std::hash<V>()(x)), vt::limbs(std::hash<V>()(y)));
        break;
    }
    }
}
void primMode(vt::Trace& t, Rng& g, size_t n)
{
    while (t.size() < n)
        switch (g.below(24))
        {
        case 0: primPair<zserio::UInt8>(t, g, "u8"); break;
        case 1: primPair<zserio::UInt16>(t, g, "u16"); break;
        case 2: primPair<zserio::UInt32>(t, g, "u32"); break;
        case 3: primPair<zserio::UInt64>(t, g, "u64"); break;
        case 4: primPair<zserio::Int8>(t, g, "i8"); break;
        case 5: primPair<zserio::Int16>(t, g, "i16"); break;
        case 6: primPair<zserio::Int32>(t, g, "i32"); break;
        case 7: primPair<zserio::Int64>(t, g, "i64"); break;
        case 8: primPair<zserio::Bool>(t, g, "bool"); break;
        case 9: primPair<zserio::VarInt>(t, g, "i64"); break;
        case 10: primPair<zserio::Float16>(t, g, "f32"); break;
        case 11: primPair<zserio::Float32>(t, g, "f32"); break;
        case 12: primPair<zserio::Float64>(t, g, "f64"); break;
        case 13: primPair<zserio::String>(t, g, "string"); break;
        case 14: primPair<zserio::Bytes>(t, g, "bytes"); break;
        case 15: primPair<zserio::BitBuffer>(t, g, "extern"); break;
        case 16: case 17: primPair<zserio::String>(t, g, "string"); break;
        case 18: primPair<zserio::VarUInt16>(t, g, "u16"); break;
        case 19: primPair<zserio::VarSize>(t, g, "u32"); break;
        case 20: primPair<zserio::DynInt64>(t, g, "i64"); break;
        case 21: primPair<CreatorBitmask>(t, g, "CreatorBitmask"); break;
        default: primPair<CreatorEnum>(t, g, "CreatorEnum"); break;
        }
}
} // namespace

int main(int argc, char** argv)
{
    vt::Args args(argc, argv);
    vt::Trace t(args.out);
    Rng g(args.seed);
    g_file = std::string(args.out) + ".blob";
    if (args.mode == "stale")
    {
        g_stale = true;
        ReflectableUtilChoice x;
        for (int i = 0; i < 8; ++i)
            de<ReflectableUtilChoice>(t, g, {}, 0, std::make_tuple(zserio::UInt8(7)), nullptr);
    }
    else if (args.mode == "ser")
        serMode(t, g, args.n);
    else if (args.mode == "prim")
        primMode(t, g, args.n);
    else
        cmpMode(t, g, args.n);
    unlink(g_file.c_str());
    vt::Ev(t, "End");
    return 0;
}
