// Enumerations and bitmasks: names, ordinals, values, wire form, operators.
#include <test_object/std_allocator/CreatorBitmask.h>
#include <test_object/std_allocator/CreatorEnum.h>
#include <test_object/std_allocator/CreatorUnsignedEnum.h>
#include <test_object/std_allocator/ReflectableBitmask.h>
#include <test_object/std_allocator/ReflectableEnum.h>
#include <test_object/std_allocator/WalkerBitmask.h>
#include <zserio/BitStreamReader.h>
#include <zserio/BitStreamWriter.h>
#include <zserio/Bitmasks.h>
#include <zserio/BuiltInOperators.h>
#include <zserio/CppRuntimeException.h>
#include <zserio/Enums.h>
#include <zserio/Types.h>

#include "trace.h"

using vt::Ints;

enum class Big : int64_t { Min = INT64_MIN, Minus = -1, Zero = 0, Large = 1LL << 40, Max = INT64_MAX };
enum class Odd : uint16_t { Zero = 0, One = 1, Half = 4096, Max = 8191, Beyond = 8192 }; // Beyond does not fit 13 bits
enum class Var : int16_t { Low = -16383, Mid = -64, Pos = 63, Next = 64, High = 16383 };
namespace zserio
{
#define VT_ENUM(T, Z, N, NAMES, VALUES)                                                                                \
    template <>                                                                                                        \
    struct EnumTraits<T>                                                                                               \
    {                                                                                                                  \
        static constexpr std::array<std::string_view, N> names = NAMES;                                                \
        static constexpr std::array<T, N> values = VALUES;                                                             \
        static constexpr std::string_view enumName = #T;                                                               \
        using ZserioType = Z;                                                                                          \
    };                                                                                                                 \
    template <>                                                                                                        \
    inline size_t enumToOrdinal<T>(T v)                                                                                \
    {                                                                                                                  \
        for (size_t i = 0; i < N; ++i)                                                                                 \
            if (EnumTraits<T>::values[i] == v)                                                                         \
                return i;                                                                                              \
        throw CppRuntimeException("no item");                                                                          \
    }                                                                                                                  \
    template <>                                                                                                        \
    inline T valueToEnum<T>(Z v)                                                                                       \
    {                                                                                                                  \
        const T e = static_cast<T>(static_cast<std::underlying_type_t<T>>(v));                                         \
        (void)enumToOrdinal(e);                                                                                        \
        return e;                                                                                                      \
    }
#define VT_L(...) {{__VA_ARGS__}}
VT_ENUM(Big, Int64, 5, VT_L("A", "AB", "ABC", "a", "Minus"), VT_L(Big::Min, Big::Minus, Big::Zero, Big::Large, Big::Max))
VT_ENUM(Odd, UInt13, 5, VT_L("ZERO", "ZER", "ONE", "MAX", "Beyond"), VT_L(Odd::Zero, Odd::One, Odd::Half, Odd::Max, Odd::Beyond))
VT_ENUM(Var, VarInt16, 5, VT_L("x", "y", "xy", "yx", "xx"), VT_L(Var::Low, Var::Mid, Var::Pos, Var::Next, Var::High))
} // namespace zserio

// a bitmask of five bits
class Five
{
public:
    using ZserioType = zserio::UInt5;
    enum class Values : uint8_t { ONE = 1, FOUR = 4, SIXTEEN = 16 };
    constexpr Five() noexcept : m_v(0) {}
    constexpr Five(Values v) noexcept : m_v(static_cast<uint8_t>(v)) {}
    constexpr explicit Five(ZserioType v) noexcept : m_v(v) {}
    constexpr ZserioType getValue() const { return m_v; }

private:
    ZserioType m_v;
};

namespace
{
using namespace zserio;
template <typename V>
Ints raw(V v)
{
    if constexpr (std::is_signed_v<V>)
        return vt::bits(static_cast<uint64_t>(static_cast<int64_t>(v)), 64);
    else
        return vt::bits(static_cast<uint64_t>(v), 64);
}
std::string ints(const Ints& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i)
        s += (i ? "," : "") + std::to_string(v[i]);
    return s + "]";
}
Ints streamBits(const std::vector<uint8_t>& b, size_t from, size_t to)
{
    Ints r;
    for (size_t i = from; i < to; ++i)
        r.push_back((b[i / 8] >> (7 - i % 8)) & 1);
    return r;
}
std::string col(const char* k, int n, int w, bool sg)
{
    return std::string("{\"k\":\"") + k + "\",\"n\":" + std::to_string(n) + ",\"m\":1,\"w\":" + std::to_string(w) + ",\"sg\":" + (sg ? "1" : "0") + ",\"opt\":false}";
}
void def(vt::Trace& t, const std::string& c, const std::vector<std::string>& names, const std::vector<Ints>& vals)
{
    std::vector<Ints> n;
    for (const auto& s : names)
        n.push_back(vt::chars(s));
    vt::Ev(t, "Def").raw("c", c).aa("names", n).aa("vals", vals);
}
template <typename T, typename F>
void wire(vt::Trace& t, vt::Rng& g, T x, bool mask, F&& value)
{
    {
        const size_t pos = g.below(12);
        std::vector<uint8_t> b(20, 0);
        bool ok = true;
        Ints bits;
        size_t size = 0;
        try
        {
            zserio::detail::validate(x, "field");
            size = zserio::detail::bitSizeOf(x, pos);
            BitStreamWriter w(Span<uint8_t>(b.data(), b.size()));
            w.setBitPosition(pos);
            zserio::detail::write(w, x);
            bits = streamBits(b, pos, w.getBitPosition());
        }
        catch (const std::exception&)
        {
            ok = false;
        }
        vt::Ev(t, "Write").b("mask", mask).a("v", value(x)).b("ok", ok).a("bits", bits).i("size", static_cast<int64_t>(size));
    }
    {
        std::vector<uint8_t> b(g.below(12));
        for (auto& y : b)
            y = g.chance(40) ? g.pick<uint8_t>({0, 1, 2, 255, 0x80, 0x7f}) : static_cast<uint8_t>(g.next());
        const size_t pos = g.below(b.size() * 8 + 1);
        if (g.chance(60) && b.size() >= 10) // bits of an existing item
        {
            try
            {
                BitStreamWriter w(Span<uint8_t>(b.data(), b.size()));
                w.setBitPosition(std::min<size_t>(pos, 8));
                zserio::detail::write(w, x);
            }
            catch (const std::exception&)
            {}
        }
        const size_t at = b.size() >= 10 ? std::min<size_t>(pos, 8) : pos;
        bool ok = true;
        T y{};
        size_t p = 0;
        try
        {
            BitStreamReader r(Span<const uint8_t>(b.data(), b.size()));
            r.setBitPosition(at);
            zserio::detail::read(r, y);
            p = r.getBitPosition();
        }
        catch (const std::exception&)
        {
            ok = false;
        }
        vt::Ev(t, "Read").b("mask", mask).a("bits", streamBits(b, 0, b.size() * 8)).i("pos", static_cast<int64_t>(at)).b("ok", ok).a("v", ok ? value(y) : Ints()).i("p", static_cast<int64_t>(p));
    }
}
template <typename T>
void enumeration(vt::Trace& t, vt::Rng& g, const std::string& c)
{
    using U = std::underlying_type_t<T>;
    std::vector<std::string> names;
    std::vector<Ints> vals;
    for (auto n : EnumTraits<T>::names)
        names.emplace_back(n);
    for (auto v : EnumTraits<T>::values)
        vals.push_back(raw(static_cast<U>(v)));
    def(t, c, names, vals);
    auto value = [](T x) { return raw(static_cast<U>(x)); };
    for (int k = 0; k < 30; ++k)
    {
        std::string n = g.pick(names);
        switch (g.below(8))
        {
        case 0: n += g.pick<char>({'A', ' ', '\0', 'B'}); break;
        case 1: n.pop_back(); break;
        case 2: n.erase(0, 1); break;
        case 3: n[g.below(n.size())] ^= 0x20; break;
        case 4: n = g.pick(names) + g.pick(names); break;
        default: break;
        }
        // the name is a part of a longer text
        const std::string whole = n + "Z_" + n;
        Ints r;
        try
        {
            r = value(stringToEnum<T>(std::string_view(whole.data(), n.size())));
        }
        catch (const std::exception&)
        {}
        vt::Ev(t, "ByName").a("n", vt::chars(n)).a("r", r);

        const U u = sizeof(U) == 1 ? static_cast<U>(g.next()) : g.chance(60) ? static_cast<U>(g.pick(std::vector<T>(EnumTraits<T>::values.begin(), EnumTraits<T>::values.end()))) : static_cast<U>(g.magnitude(sizeof(U) * 8));
        const T x = static_cast<T>(g.chance(40) ? static_cast<U>(EnumTraits<T>::values[g.below(names.size())]) : u);
        int64_t ord = -1;
        Ints name, msg, back, round;
        try
        {
            ord = static_cast<int64_t>(enumToOrdinal(x));
            name = vt::chars(enumToString(x));
            msg = vt::chars((CppRuntimeException("") << x).what());
            round = value(stringToEnum<T>(enumToString(x)));
        }
        catch (const std::exception&)
        {}
        try
        {
            back = value(valueToEnum<T>(typename EnumTraits<T>::ZserioType(static_cast<U>(x))));
        }
        catch (const std::exception&)
        {}
        vt::Ev(t, "Item").a("v", value(x)).i("ord", ord).a("name", name).a("msg", msg).a("back", back).a("round", round).a("val",
                raw(static_cast<typename EnumTraits<T>::ZserioType::ValueType>(g.chance(50) ? enumToValue(x) : zserio::builtin::valueOf(x))));
        wire(t, g, x, false, value);
    }
}
template <typename T, bool FULL>
void bitmask(vt::Trace& t, vt::Rng& g, const std::string& c, const std::vector<std::string>& names, const std::vector<uint64_t>& items)
{
    using Z = typename T::ZserioType;
    using U = typename Z::ValueType;
    std::vector<Ints> vals;
    for (auto v : items)
        vals.push_back(raw(v));
    def(t, c, names, vals);
    auto value = [](T x) { return raw(static_cast<U>(x.getValue())); };
    for (int k = 0; k < 40; ++k)
    {
        const U ua = static_cast<U>(g.chance(50) ? g.below(8) : g.magnitude(sizeof(U) * 8));
        const U ub = static_cast<U>(g.chance(50) ? items[g.below(items.size())] : g.chance(30) ? (ua & static_cast<U>(g.next())) : g.magnitude(sizeof(U) * 8));
        const T a{Z(ua)}, b{Z(ub)};
        if constexpr (FULL)
        {
            T x = a, y = a, z = a;
            x |= b;
            y &= b;
            z ^= b;
            const Ints rel{a == b, a != b, a < b, a <= b, a > b, a >= b};
            std::string rs = "[";
            for (size_t i = 0; i < rel.size(); ++i)
                rs += std::string(i ? "," : "") + (rel[i] ? "true" : "false");
            vt::Ev(t, "Ops").a("a", raw(ua)).a("b", raw(ub)).a("or", value(a | b)).a("and", value(a & b)).a("xor", value(a ^ b)).a("not", value(~a))
                    .a("orEq", value(x)).a("andEq", value(y)).a("xorEq", value(z)).b("set", zserio::builtin::isSet(a, b)).raw("rel", rs + "]")
                    .a("val", raw(static_cast<U>(zserio::builtin::valueOf(a)))).b("hasText", true).a("text", vt::chars(a.toString()));
        }
        wire(t, g, a, true, value);
    }
}
} // namespace

int main(int argc, char** argv)
{
    using namespace test_object::std_allocator;
    vt::Args args(argc, argv);
    vt::Trace t(args.out);
    vt::Rng g(args.seed);
    while (t.size() < args.n)
    {
        enumeration<CreatorEnum>(t, g, col("int", 8, 8, true));
        enumeration<CreatorUnsignedEnum>(t, g, col("int", 8, 8, false));
        enumeration<ReflectableEnum>(t, g, col("int", 8, 8, true));
        enumeration<Big>(t, g, col("int", 64, 64, true));
        enumeration<Odd>(t, g, col("int", 13, 16, false));
        enumeration<Var>(t, g, col("v16", 15, 16, true));
        bitmask<CreatorBitmask, true>(t, g, col("int", 8, 8, false), {"READ", "WRITE"}, {1, 2});
        bitmask<ReflectableBitmask, true>(t, g, col("int", 8, 8, false), {"CREATE", "READ", "WRITE"}, {1, 2, 4});
        bitmask<WalkerBitmask, true>(t, g, col("int", 32, 32, false), {"ZERO"}, {1});
        bitmask<Five, false>(t, g, col("int", 5, 8, false), {"ONE", "FOUR", "SIXTEEN"}, {1, 4, 16});
        for (int i = 0; i < 60; ++i)
        {
            uint64_t v = g.magnitude(64);
            if (g.chance(40))
                v += g.below(3) - 1;
            vt::Ev(t, "NumBits").a("v", raw(v)).i("r", zserio::builtin::numBits(v));
        }
    }
    vt::Ev(t, "End");
    return 0;
}
