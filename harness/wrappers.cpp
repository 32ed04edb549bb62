// Numeric wrappers: histories of operations, comparisons, limits, bounds of bit fields, size conversions
#include <limits>
#include "trace.h"
#include "zserio/BitFieldUtil.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/CppRuntimeException.h"
#include "zserio/FloatUtil.h"
#include "zserio/HashCodeUtil.h"
#include "zserio/SizeConvertUtil.h"
#include "zserio/Types.h"
#include "zserio/View.h"

using namespace zserio;
using vt::Ints;
namespace
{
template <typename V>
Ints show(V v)
{
    if constexpr (std::is_same_v<V, bool>)
        return Ints{v ? 1 : 0};
    else
        return vt::bits(static_cast<uint64_t>(v), sizeof(V) * 8);
}
template <typename V>
Ints wide(V v)
{
    if constexpr (std::is_signed_v<V>)
        return vt::bits(static_cast<uint64_t>(static_cast<int64_t>(v)), 64);
    else
        return vt::bits(static_cast<uint64_t>(v), 64);
}
template <typename V>
V rnd(vt::Rng& g)
{
    if (g.chance(15))
        return g.pick<V>({std::numeric_limits<V>::min(), std::numeric_limits<V>::max(), V(0), V(1), static_cast<V>(-1)});
    return static_cast<V>(g.magnitude(sizeof(V) * 8) * (g.chance(50) ? ~0ULL : 1));
}
std::string bools(std::initializer_list<bool> l)
{
    std::string s;
    for (bool b : l)
        s += std::string(s.empty() ? "" : ",") + (b ? "true" : "false");
    return "[" + s + "]";
}
// the operation is defined for built-in integers
template <typename V>
bool defined(int op, V a, V b)
{
    using L = long long;
    if constexpr (!std::is_signed_v<V>)
    {
        if (op == 6 || op == 7)
            return b != 0;
        // unsigned short is promoted to int, whose product may overflow
        if (sizeof(V) == 2 && op == 8)
            return static_cast<uint64_t>(a) * static_cast<uint64_t>(b) <= 0x7fffffffU;
        return true;
    }
    else
    {
        if (op == 6 || op == 7)
            return b != 0 && !(b == static_cast<V>(-1) && a == std::numeric_limits<V>::min());
        if (sizeof(V) < 4)
            return true;
        V r;
        switch (op)
        {
        case 0: case 1: return a != std::numeric_limits<V>::max();
        case 2: case 3: return a != std::numeric_limits<V>::min();
        case 4: return !__builtin_add_overflow(a, b, &r);
        case 5: return !__builtin_sub_overflow(a, b, &r);
        case 8: return !__builtin_mul_overflow(a, b, &r);
        default: return true;
        }
        (void)static_cast<L>(0);
    }
}
template <typename W>
void history(vt::Trace& t, vt::Rng& g)
{
    using V = typename W::ValueType;
    const V v = rnd<V>(g);
    W x(v);
    vt::Ev(t, "Start").a("v", show<V>(v)).b("sg", std::is_signed_v<V>).a("got", show<V>(x));
    for (int i = 0; i < 12; ++i)
    {
        const int op = static_cast<int>(g.below(16));
        V b = rnd<V>(g);
        if (op == 12 || op == 13)
            b = static_cast<V>(g.below(sizeof(V) * 8));
        const V a = x;
        if (op < 15 && !defined<V>(op, a, b))
            continue;
        if (op == 12 && std::is_signed_v<V> && a < 0)
            continue;
        if (op == 12 && std::is_signed_v<V>) // shifting into the sign is not portable
        {
            if ((static_cast<uint64_t>(a) << b) > static_cast<uint64_t>(std::numeric_limits<V>::max()) || (b > 0 && (static_cast<uint64_t>(a) >> (63 - b)) != 0))
                continue;
        }
        if (op == 12 && !std::is_signed_v<V> && sizeof(V) == 2 && (static_cast<uint64_t>(a) << b) > 0x7fffffffU)
            continue;
        static const char* const names[] = {"++", "post++", "--", "post--", "+=", "-=", "/=", "%=", "*=", "&=", "|=", "^=", "<<=", ">>=", "="};
        if (op == 15)
        {
            if (g.chance(40))
                b = a;
            const W y(b);
            vt::Ev(t, "Cmp").a("b", show<V>(b)).raw("rel", bools({x == y, x != y, x < y, x <= y, x > y, x >= y}))
                    .a("hx", vt::limbs(calcHashCode(HASH_SEED, x))).a("hy", vt::limbs(calcHashCode(HASH_SEED, y)));
            continue;
        }
        V ret{};
        bool self = false;
        auto ref = [&](auto& r) { ret = r; self = static_cast<const void*>(&r) == static_cast<const void*>(&x); };
        const bool asWrapper = g.chance(50);
        const W bw(b);
        switch (op)
        {
        case 0: ref(++x); break;
        case 1: ret = x++; break;
        case 2: ref(--x); break;
        case 3: ret = x--; break;
        case 4: asWrapper ? ref(x += bw) : ref(x += b); break;
        case 5: asWrapper ? ref(x -= bw) : ref(x -= b); break;
        case 6: asWrapper ? ref(x /= bw) : ref(x /= b); break;
        case 7: ref(x %= b); break;
        case 8: asWrapper ? ref(x *= bw) : ref(x *= b); break;
        case 9: ref(x &= b); break;
        case 10: ref(x |= b); break;
        case 11: ref(x ^= b); break;
        case 12: ref(x <<= b); break;
        case 13: ref(x >>= b); break;
        default:
            if (asWrapper)
                ref(x = bw);
            else
                ref(x = b);
        }
        vt::Ev(t, "Op").s("op", names[op]).a("b", show<V>(b)).a("r", show<V>(x)).a("ret", show<V>(ret)).b("self", self);
    }
}
void boolHistory(vt::Trace& t, vt::Rng& g)
{
    bool v = g.chance(50);
    Bool x(v);
    vt::Ev(t, "Start").a("v", show<bool>(v)).b("sg", false).a("got", show<bool>(x));
    for (int i = 0; i < 4; ++i)
    {
        const bool b = g.chance(50);
        const int op = static_cast<int>(g.below(4));
        bool ret = false, self = false;
        auto ref = [&](auto& r) { ret = r; self = static_cast<const void*>(&r) == static_cast<const void*>(&x); };
        switch (op)
        {
        case 0: ref(x &= b); break;
        case 1: ref(x |= b); break;
        case 2: ref(x ^= b); break;
        default: ref(x = b); break;
        }
        static const char* const names[] = {"&=", "|=", "^=", "="};
        vt::Ev(t, "Op").s("op", names[op]).a("b", show<bool>(b)).a("r", show<bool>(x)).a("ret", show<bool>(ret)).b("self", self);
    }
}
template <typename W>
void floats(vt::Trace& t, vt::Rng& g, const char* k)
{
    using V = typename W::ValueType;
    int a = static_cast<int>(g.range(-1000, 1000));
    const int b = static_cast<int>(g.range(-60, 60));
    const int op = static_cast<int>(g.below(6));
    if (op == 3)
    {
        if (b == 0)
            return;
        a *= b;
    }
    W x(static_cast<V>(a));
    V ret{};
    bool self = false;
    auto ref = [&](auto& r) { ret = r; self = static_cast<const void*>(&r) == static_cast<const void*>(&x); };
    switch (op)
    {
    case 0: ref(x += static_cast<V>(b)); break;
    case 1: ref(x -= static_cast<V>(b)); break;
    case 2: ref(x *= static_cast<V>(b)); break;
    case 3: ref(x /= static_cast<V>(b)); break;
    case 4: ref(x = static_cast<V>(b)); break;
    default:
    {
        const auto bitsOf = [](auto f) {
            if constexpr (sizeof(f) == 4)
                return vt::bits(convertFloatToUInt32(f), 32);
            else
                return vt::bits(convertDoubleToUInt64(f), 64);
        };
        if (g.chance(50))
            vt::Ev(t, "FLim").s("k", k).a("min", bitsOf(static_cast<V>(NumericLimits<W>::min()))).a("max", bitsOf(static_cast<V>(NumericLimits<W>::max())));
        else
        {
            V v;
            if constexpr (sizeof(V) == 4)
                v = convertUInt32ToFloat(static_cast<uint32_t>(g.next()));
            else
                v = convertUInt64ToDouble(g.next());
            if (v != v)
                return;
            vt::Ev(t, "Same").s("k", k).a("v", bitsOf(v)).a("from", bitsOf(static_cast<V>(fromCheckedValue<W>(v)))).a("to", bitsOf(static_cast<V>(toCheckedValue(W(v)))));
        }
        return;
    }
    }
    static const char* const names[] = {"+=", "-=", "*=", "/=", "="};
    const V r = x;
    vt::Ev(t, "Float").s("k", k).s("op", names[op]).a("a", vt::bits(static_cast<uint64_t>(int64_t{a}), 32)).a("b", vt::bits(static_cast<uint64_t>(int64_t{b}), 32))
            .a("r", vt::bits(static_cast<uint64_t>(static_cast<int64_t>(r)), 32)).a("ret", vt::bits(static_cast<uint64_t>(static_cast<int64_t>(ret)), 32)).b("self", self);
}
void field(vt::Trace& t, int n, bool sg)
{
    int64_t lo = 0;
    uint64_t hi = 0;
    const bool lok = vt::tryDo([&] { lo = getBitFieldLowerBound(static_cast<size_t>(n), sg); });
    const bool hok = vt::tryDo([&] { hi = getBitFieldUpperBound(static_cast<size_t>(n), sg); });
    vt::Ev(t, "Field").i("n", n).b("sg", sg).b("lok", lok).b("hok", hok).a("lo", wide(lo)).a("hi", wide(hi));
}
template <typename W>
void dyn(vt::Trace& t, vt::Rng& g)
{
    using V = typename W::ValueType;
    const int w = sizeof(V) * 8;
    const int n1 = static_cast<int>(g.range(1, w)), n2 = g.chance(60) ? n1 : static_cast<int>(g.range(1, w));
    const V a = g.chance(70) ? static_cast<V>(rnd<V>(g) >> (w - n1)) : rnd<V>(g);
    const V b = g.chance(30) ? a : g.chance(70) ? static_cast<V>(rnd<V>(g) >> (w - n2)) : rnd<V>(g);
    const View<W> x(W(a), static_cast<uint8_t>(n1)), y(W(b), static_cast<uint8_t>(n2));
    uint8_t buf[24] = {};
    const size_t off = g.below(70);
    BitStreamWriter wr(buf, sizeof buf);
    wr.setBitPosition(off);
    const bool wrote = vt::tryDo([&] { detail::write(wr, x); });
    Ints bits;
    for (size_t j = off; j < wr.getBitPosition(); ++j)
        bits.push_back((buf[j / 8] >> (7 - j % 8)) & 1);
    const bool valid = vt::tryDo([&] { detail::validate(x, "field"); });
    vt::Ev(t, "Dyn").b("sg", std::is_signed_v<V>).i("n1", n1).a("a", wide(a)).i("n2", n2).a("b", wide(b))
            .raw("rel", bools({x == y, x != y, x < y, x <= y, x > y, x >= y}))
            .a("hx", vt::limbs(std::hash<View<W>>()(x))).a("hy", vt::limbs(std::hash<View<W>>()(y)))
            .raw("get", "[" + std::to_string(x.numBits()) + "," + [&] { std::string s; for (int c : wide(static_cast<V>(x.value()))) s += (s.empty() ? "" : ",") + std::to_string(c); return "[" + s + "]"; }() + "]")
            .i("size", static_cast<int64_t>(detail::bitSizeOf(x, off))).b("valid", valid).b("wrote", wrote).a("bits", bits);
}
void size(vt::Trace& t, vt::Rng& g)
{
    const uint64_t v = g.chance(30) ? g.pick<uint64_t>({0, 0xffffffffULL, 0x100000000ULL, ~0ULL, 0xfffffffeULL, 0x80000000ULL}) : g.magnitude(64);
    uint32_t r = 0;
    const bool ok = vt::tryDo([&] { r = convertSizeToUInt32(static_cast<size_t>(v)); });
    uint64_t sz = 0;
    vt::tryDo([&] { sz = convertUInt64ToSize(v); });
    vt::Ev(t, "Size").a("v", vt::bits(v, 64)).b("ok32", ok).a("r32", ok ? vt::bits(r, 64) : Ints{}).a("rsz", vt::bits(sz, 64));
}
} // namespace
int main(int argc, char** argv)
{
    vt::Args args(argc, argv);
    vt::Trace t(args.out);
    vt::Rng g(args.seed);
    vt::Ev(t, "BLim").b("min", NumericLimits<Bool>::min()).b("max", NumericLimits<Bool>::max());
    for (int n = 0; n <= 70; ++n)
        for (bool sg : {false, true})
            field(t, n, sg);
    field(t, 256, false);
    field(t, 1 << 30, true);
    while (t.size() < args.n)
        switch (g.below(24))
        {
        case 0: history<Int8>(t, g); break;
        case 1: history<Int16>(t, g); break;
        case 2: history<Int32>(t, g); break;
        case 3: history<Int64>(t, g); break;
        case 4: history<UInt8>(t, g); break;
        case 5: history<UInt16>(t, g); break;
        case 6: history<UInt32>(t, g); break;
        case 7: history<UInt64>(t, g); break;
        case 8: history<Int<5>>(t, g); break;
        case 9: history<UInt<13>>(t, g); break;
        case 10: history<VarInt>(t, g); break;
        case 11: history<VarSize>(t, g); break;
        case 12: history<DynInt16>(t, g); break;
        case 13: history<DynUInt64>(t, g); break;
        case 14: boolHistory(t, g); break;
        case 15: floats<Float16>(t, g, "f16"); floats<Float32>(t, g, "f32"); floats<Float64>(t, g, "f64"); break;
        case 16: dyn<DynInt8>(t, g); break;
        case 17: dyn<DynUInt16>(t, g); break;
        case 18: dyn<DynInt32>(t, g); break;
        case 19: dyn<DynInt64>(t, g); break;
        case 20: dyn<DynUInt64>(t, g); break;
        case 21: dyn<DynUInt8>(t, g); break;
        default: size(t, g);
        }
    vt::Ev(t, "End");
    return 0;
}
