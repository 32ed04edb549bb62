// Texts of numbers (mode num) and exception messages (mode exc).
#include <test_object/std_allocator/CreatorEnum.h>
#include <test_object/std_allocator/ReflectableUtilEnum.h>
#include <zserio/ArrayLengthException.h>
#include <zserio/ChoiceCaseException.h>
#include <zserio/ConstraintException.h>
#include <zserio/CppRuntimeException.h>
#include <zserio/Enums.h>
#include <zserio/ExtendedFieldException.h>
#include <zserio/FloatUtil.h>
#include <zserio/MissedOptionalException.h>
#include <zserio/OutOfRangeException.h>
#include <zserio/PubsubException.h>
#include <zserio/ServiceException.h>
#include <zserio/StringConvertUtil.h>
#include <zserio/Types.h>
#include <zserio/UnexpectedOptionalException.h>
#include <zserio/UnionCaseException.h>
#include <zserio/ValidationException.h>
#include <cmath>
#include <memory>
#include <typeinfo>

#include "trace.h"

using namespace zserio;
using vt::Ints;

namespace
{
template <typename V>
Ints raw(V v)
{
    if constexpr (std::is_signed_v<V>)
        return vt::bits(static_cast<uint64_t>(static_cast<int64_t>(v)), 64);
    else
        return vt::bits(static_cast<uint64_t>(v), 64);
}
// the conversion buffer lives in an allocation of its own: the sanitizer guards it
template <typename V, typename W>
void oneInt(vt::Trace& t, V v)
{
    auto buf = std::make_unique<std::array<char, 24>>();
    buf->fill('x');
    const char* p = convertIntToString(*buf, v);
    vt::Ev(t, "Int").a("v", raw(v)).b("sg", std::is_signed_v<V>).a("t", vt::chars(p)).a("str", vt::chars(toString(v)))
            .a("wrap", vt::chars(toString<std::allocator<char>>(W(v))));
}
template <typename V>
V rnd(vt::Rng& r)
{
    const uint64_t m = r.magnitude(sizeof(V) * 8);
    switch (r.below(5))
    {
    case 0: return static_cast<V>(~m);
    case 1: {
        uint64_t p = 1;
        for (uint64_t k = r.below(20); k > 0; --k)
            p *= 10;
        return static_cast<V>(p + r.below(3) - 1);
    }
    default: return static_cast<V>(m);
    }
}
void oneFloat(vt::Trace& t, float f)
{
    auto b1 = std::make_unique<std::array<char, 24>>();
    auto b2 = std::make_unique<std::array<char, 24>>();
    b1->fill('x');
    b2->fill('x');
    const char* i = "?";
    const char* d = "?";
    convertFloatToString(*b1, *b2, f, i, d);
    vt::Ev(t, "Float").a("v", vt::bits(convertFloatToUInt32(f), 32)).a("t", vt::chars(i)).a("fr", d ? vt::chars(d) : Ints());
}
float rndFloat(vt::Rng& r)
{
    switch (r.below(6))
    {
    case 0: return convertUInt32ToFloat(static_cast<uint32_t>(r.next()));
    case 1: return static_cast<float>(static_cast<int64_t>(r.magnitude(30))) / 1000.0F * (r.chance(50) ? -1.0F : 1.0F);
    case 2: return r.pick({0.0F, -0.0F, 1.0F, -1.0F, 0.5F, -0.5F, 0.001F, -0.001F, 0.0009F, 1e10F, 9.2e18F, 9.3e18F, -9.2e18F, -9.4e18F, INFINITY, -INFINITY,
                NAN, 1e-30F, 1e-45F, -1e-45F, 0.99999994F, 3.4e38F, 9223372036854775807.0F, 9223371487098961920.0F, -9223372036854775808.0F});
    case 3: return std::ldexp(static_cast<float>(r.below(1U << 24)), static_cast<int>(r.range(-30, 42))) * (r.chance(50) ? -1.0F : 1.0F);
    default: return static_cast<float>(r.range(-2000, 2000)) + static_cast<float>(r.below(1001)) / 1000.0F;
    }
}

void num(vt::Trace& t, vt::Rng& r, size_t n)
{
    while (t.size() < n)
    {
        switch (r.below(12))
        {
        case 0: oneInt<int8_t, Int8>(t, rnd<int8_t>(r)); break;
        case 1: oneInt<uint8_t, UInt8>(t, rnd<uint8_t>(r)); break;
        case 2: oneInt<int16_t, Int16>(t, rnd<int16_t>(r)); break;
        case 3: oneInt<uint16_t, VarUInt16>(t, rnd<uint16_t>(r)); break;
        case 4: oneInt<int32_t, VarInt32>(t, rnd<int32_t>(r)); break;
        case 5: oneInt<uint32_t, UInt32>(t, rnd<uint32_t>(r)); break;
        case 6: oneInt<int64_t, Int64>(t, rnd<int64_t>(r)); break;
        case 7: oneInt<uint64_t, VarUInt>(t, rnd<uint64_t>(r)); break;
        case 8: {
            const bool b = r.chance(50);
            vt::Ev(t, "Bool").b("v", b).a("t", vt::chars(convertBoolToString(b))).a("str", r.chance(50) ? vt::chars(toString(b)) : vt::chars(toString<std::allocator<char>>(Bool(b))));
            break;
        }
        case 9: {
            std::string s;
            for (size_t k = r.below(40); k > 0; --k)
                s += static_cast<char>(r.next());
            vt::Ev(t, "Text").a("in", vt::chars(s)).a("out", vt::chars(toString<std::allocator<char>>(std::string_view(s))));
            break;
        }
        default: oneFloat(t, rndFloat(r)); break;
        }
    }
}

std::string text(vt::Rng& r, bool nul)
{
    const size_t len = r.chance(15) ? r.range(200, 700) : (r.chance(10) ? r.range(505, 516) : r.below(30));
    std::string s;
    for (size_t k = 0; k < len; ++k)
    {
        char c = static_cast<char>(r.chance(90) ? 'a' + r.below(26) : r.next());
        if (c == 0 && !nul)
            c = 'z';
        s += c;
    }
    if (nul && len > 0 && r.chance(10))
        s[r.below(len)] = 0;
    return s;
}
// a text in an allocation that ends exactly where the text (and its terminator, if any) ends
struct Exact
{
    std::unique_ptr<char[]> p;
    size_t n;
    Exact(const std::string& s, bool term) : p(new char[s.size() + (term ? 1 : 0)]), n(s.size())
    {
        std::copy(s.begin(), s.end(), p.get());
        if (term)
            p[n] = 0;
    }
};
template <typename X>
bool thrown(vt::Trace& t, const std::string& v, size_t cut, const char* name)
{
    std::string got = "none", what;
    try
    {
        throw X(v.substr(0, cut).c_str()) << v.substr(cut);
    }
    catch (const X& e)
    {
        got = typeid(e) == typeid(X) ? name : "other";
        what = e.what();
    }
    catch (const std::exception& e)
    {
        got = "base";
    }
    vt::Ev(t, "Throw").s("type", name).s("caught", got).a("v", vt::chars(v)).a("what", vt::chars(what));
    return true;
}

void exc(vt::Trace& t, vt::Rng& r, size_t n)
{
    std::unique_ptr<CppRuntimeException> x[3];
    for (auto& p : x)
        p = std::make_unique<CppRuntimeException>();
    while (t.size() < n)
    {
        const int s = static_cast<int>(r.below(3)), os = static_cast<int>(r.below(3));
        auto look = [&](vt::Ev& e) {
            e.i("s", s).a("what", vt::chars(x[s]->what())).i("os", os).a("other", vt::chars(x[os]->what()));
        };
        CppRuntimeException& m = *x[s];
        switch (r.below(14))
        {
        case 0: {
            const std::string v = text(r, false);
            Exact p(v, true);
            x[s] = std::make_unique<CppRuntimeException>(p.p.get());
            vt::Ev e(t, "New");
            e.a("v", vt::chars(v));
            look(e);
            break;
        }
        case 1: {
            x[s] = std::make_unique<CppRuntimeException>();
            vt::Ev e(t, "New");
            e.a("v", Ints());
            look(e);
            break;
        }
        case 2:
        case 3: {
            const std::string v = text(r, false);
            Exact p(v, true);
            if (r.chance(50))
                m << static_cast<const char*>(p.p.get());
            else
                m.append(p.p.get());
            vt::Ev e(t, "App");
            e.s("k", "cstr").a("v", vt::chars(v));
            look(e);
            break;
        }
        case 4:
        case 5: {
            const std::string v = text(r, true);
            Exact p(v, false);
            if (r.chance(50))
                m << std::string_view(p.p.get(), p.n);
            else
                m.append(p.p.get(), p.n);
            vt::Ev e(t, "App");
            e.s("k", "sv").a("v", vt::chars(v));
            look(e);
            break;
        }
        case 6: {
            const std::string v = text(r, true);
            m << v;
            vt::Ev e(t, "App");
            e.s("k", "str").a("v", vt::chars(v));
            look(e);
            break;
        }
        case 7: {
            Ints b;
            bool sg = false;
            switch (r.below(8))
            {
            case 0: { auto v = rnd<int8_t>(r); m << v; b = raw(v); sg = true; break; }
            case 1: { auto v = rnd<uint8_t>(r); m << v; b = raw(v); break; }
            case 2: { auto v = rnd<int16_t>(r); m << v; b = raw(v); sg = true; break; }
            case 3: { auto v = rnd<uint16_t>(r); m << v; b = raw(v); break; }
            case 4: { auto v = rnd<int32_t>(r); m << v; b = raw(v); sg = true; break; }
            case 5: { auto v = rnd<uint32_t>(r); m << v; b = raw(v); break; }
            case 6: { auto v = rnd<int64_t>(r); m << v; b = raw(v); sg = true; break; }
            default: { auto v = rnd<uint64_t>(r); m << v; b = raw(v); break; }
            }
            vt::Ev e(t, "App");
            e.s("k", sg ? "int" : "uint").a("v", b);
            look(e);
            break;
        }
        case 8: {
            const bool v = r.chance(50);
            m << v;
            vt::Ev e(t, "App");
            e.s("k", "bool").i("v", v);
            look(e);
            break;
        }
        case 9: {
            const float v = rndFloat(r);
            if (r.chance(50))
                m << v;
            else
                m << static_cast<double>(v);
            vt::Ev e(t, "App");
            e.s("k", "float").a("v", vt::bits(convertFloatToUInt32(v), 32));
            look(e);
            break;
        }
        case 10: {
            using E = test_object::std_allocator::CreatorEnum;
            const E v = r.pick({E::ONE, E::TWO, E::MinusOne});
            m << v;
            vt::Ev e(t, "App");
            e.s("k", "enum").a("v", vt::chars(v == E::ONE ? "ONE" : v == E::TWO ? "TWO" : "MinusOne"));
            look(e);
            break;
        }
        case 11: {
            std::vector<int> v(r.below(200));
            m << v;
            vt::Ev e(t, "App");
            e.s("k", "vec").a("v", raw(static_cast<uint64_t>(v.size())));
            look(e);
            break;
        }
        case 12: {
            const int from = static_cast<int>(r.below(3));
            switch (r.below(4))
            {
            case 0: x[s] = std::make_unique<CppRuntimeException>(*x[from]); break;
            case 1: *x[s] = *x[from]; break;
            case 2: *x[s] = std::move(*std::make_unique<CppRuntimeException>(*x[from])); break;
            default: x[s] = std::make_unique<CppRuntimeException>(CppRuntimeException(*x[from])); break;
            }
            vt::Ev e(t, "Copy");
            e.i("from", from);
            look(e);
            break;
        }
        default: {
            const std::string v = text(r, false);
            const size_t cut = r.below(v.size() + 1);
            switch (r.below(12))
            {
            case 0: thrown<CppRuntimeException>(t, v, cut, "CppRuntimeException"); break;
            case 1: thrown<ValidationException>(t, v, cut, "ValidationException"); break;
            case 2: thrown<OutOfRangeException>(t, v, cut, "OutOfRangeException"); break;
            case 3: thrown<ArrayLengthException>(t, v, cut, "ArrayLengthException"); break;
            case 4: thrown<ChoiceCaseException>(t, v, cut, "ChoiceCaseException"); break;
            case 5: thrown<ConstraintException>(t, v, cut, "ConstraintException"); break;
            case 6: thrown<ExtendedFieldException>(t, v, cut, "ExtendedFieldException"); break;
            case 7: thrown<MissedOptionalException>(t, v, cut, "MissedOptionalException"); break;
            case 8: thrown<UnexpectedOptionalException>(t, v, cut, "UnexpectedOptionalException"); break;
            case 9: thrown<UnionCaseException>(t, v, cut, "UnionCaseException"); break;
            case 10: thrown<PubsubException>(t, v, cut, "PubsubException"); break;
            default: thrown<ServiceException>(t, v, cut, "ServiceException"); break;
            }
        }
        }
    }
}
} // namespace

int main(int argc, char** argv)
{
    const vt::Args a(argc, argv);
    vt::Trace t(a.out);
    vt::Rng r(a.seed);
    if (a.mode == "num")
        num(t, r, a.n);
    else
        exc(t, r, a.n);
    vt::Ev(t, "End");
    return 0;
}
