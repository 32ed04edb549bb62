// JSON texts: tokens, parser events, scalar values (modes tok, parse, dec, enc)
#include <cmath>
#include <istream>
#include <memory>
#include <sstream>
#include <streambuf>
#include "trace.h"
#include "zserio/FloatUtil.h"
#include "zserio/JsonDecoder.h"
#include "zserio/JsonEncoder.h"
#include "zserio/JsonParser.h"
#include "zserio/JsonTokenizer.h"
#include <memory_resource>

using namespace zserio;
namespace
{
// hands out a text in pieces
struct Pieces : std::streambuf
{
    std::string text;
    size_t pos = 0;
    vt::Rng& r;
    unsigned how;
    Pieces(std::string s, vt::Rng& rng) : text(std::move(s)), r(rng), how(static_cast<unsigned>(rng.below(4))) {}
    std::streamsize xsgetn(char* to, std::streamsize n) override
    {
        size_t k = std::min<size_t>(static_cast<size_t>(n), text.size() - pos);
        if (how == 1)
            k = std::min<size_t>(k, 1);
        else if (how == 2)
            k = std::min<size_t>(k, 1 + r.below(4));
        else if (how == 3)
            k = std::min<size_t>(k, 1 + r.below(20));
        std::memcpy(to, text.data() + pos, k);
        pos += k;
        return static_cast<std::streamsize>(k);
    }
};

struct Gen
{
    vt::Rng& r;
    std::string s;
    std::string ws()
    {
        std::string w;
        while (r.chance(30))
            w += r.pick<const char*>({" ", "\t", "\n", "\r", "\r\n", "  "});
        return w;
    }
    std::string digits(unsigned n)
    {
        std::string d;
        for (unsigned i = 0; i < n; ++i)
            d += static_cast<char>('0' + r.below(10));
        return d;
    }
    std::string number()
    {
        switch (r.below(14))
        {
        case 0: return std::to_string(r.magnitude(64));
        case 1: return std::to_string(static_cast<int64_t>(r.next()) >> r.below(64));
        case 2: return r.pick<const char*>({"18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809",
                    "9223372036854775808", "0", "-0", "00", "-01", "36893488147419103232", "184467440737095516150"});
        case 3: return digits(1 + r.below(25));
        case 4: return "-" + digits(1 + r.below(22));
        case 5: return digits(1 + r.below(3)) + "." + digits(1 + r.below(18));
        case 6: return r.pick<const char*>({"-", ""}) + digits(1) + "." + digits(r.below(4)) + r.pick<const char*>({"e", "E", "e+", "E-"}) + digits(1 + r.below(3));
        case 7: return r.pick<const char*>({"1.7976931348623157e308", "1.7976931348623159e308", "4.9e-324", "2.4e-324", "2.5e-324", "1e400", "-1e-400",
                    "9007199254740993.0", "9007199254740992.5", "0.1", "0.30000000000000004", "2.2250738585072011e-308", "1e22", "1e23", "123456789012345678e-10",
                    "1e99999", "0e99999", "1e-99999", "5e-1", "-0.0", "1E+2"});
        case 8: return r.pick<const char*>({".5", "5.", "-.5", "1e", "1e+", "1E-", ".", "-", "e5", "1.e3", "1.2.3", "1e5.5", "+1", "--1", "-e", "-.e1", "1e5e5", "0x10", "1-2"});
        case 9:
        {
            std::ostringstream o;
            o.precision(17);
            o << convertUInt64ToDouble(r.next());
            return o.str();
        }
        default: return std::to_string(r.below(300));
        }
    }
    std::string string()
    {
        std::string v = "\"";
        const unsigned n = static_cast<unsigned>(r.below(8));
        for (unsigned i = 0; i < n; ++i)
        {
            switch (r.below(12))
            {
            case 0: v += r.pick<const char*>({"\\n", "\\t", "\\\"", "\\\\", "\\b", "\\f", "\\r", "\\/"}); break;
            case 1: v += r.pick<const char*>({"\\u0000", "\\u001f", "\\u00Ff", "\\u00e9", "\\u0041", "\\u000a"}); break;
            case 2:
                if (r.chance(30))
                    v += r.pick<const char*>({"\\x", "\\u", "\\u0", "\\u00", "\\u00g0", "\\u0100", "\\u20ac", "\\u000x", "\\ud83d", "\\"});
                break;
            case 3: v += r.pick<const char*>({"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x7f", "\xff"}); break;
            case 4: v += r.pick<const char*>({"{", "}", ",", ":", "[", " ", "\t"}); break;
            default: v += static_cast<char>('a' + r.below(26)); break;
            }
        }
        return r.chance(4) ? v : v + "\"";
    }
    std::string scalar()
    {
        switch (r.below(10))
        {
        case 0: return r.pick<const char*>({"null", "true", "false", "NaN", "Infinity", "-Infinity"});
        case 1:
            if (r.chance(40))
                return r.pick<const char*>({"nul", "nulL", "tru", "trve", "falsch", "Nan", "Inf", "-Inf", "-Ix", "nullx", "truefalse", "N", "I", "x", "'a'", "/", "\x01"});
            return string();
        case 2:
        case 3:
        case 4:
        case 5: return string();
        default: return number();
        }
    }
    std::string element(unsigned depth)
    {
        std::string v = ws();
        const unsigned k = static_cast<unsigned>(r.below(depth == 0 ? 1 : 3));
        if (k == 0)
            return v + scalar() + ws();
        const bool obj = k == 1;
        v += obj ? "{" : "[";
        const unsigned n = static_cast<unsigned>(r.below(4));
        for (unsigned i = 0; i < n; ++i)
        {
            if (i)
                v += ",";
            if (obj)
                v += ws() + (r.chance(95) ? string() : scalar()) + ws() + ":";
            v += element(depth - 1);
        }
        return v + ws() + (obj ? "}" : "]") + ws();
    }
    std::string text()
    {
        std::string v = element(static_cast<unsigned>(r.below(4)));
        if (r.chance(15))
            v += element(1);
        static const std::string alphabet = "{}[]:,\"\\ \n\r\t-0123456789.eEnulltruefalsNI/x+\x01";
        const unsigned edits = r.chance(40) ? static_cast<unsigned>(1 + r.below(3)) : 0;
        for (unsigned i = 0; i < edits; ++i)
        {
            const size_t at = r.below(v.size() + 1);
            switch (r.below(4))
            {
            case 0: v = v.substr(0, at); break;
            case 1:
                if (at < v.size())
                    v.erase(at, 1);
                break;
            case 2: v.insert(at, 1, r.chance(5) ? '\0' : alphabet[r.below(alphabet.size())]); break;
            default:
                if (at < v.size())
                    v[at] = r.chance(5) ? '\0' : alphabet[r.below(alphabet.size())];
            }
        }
        if (r.chance(6))
        {
            v.clear();
            const unsigned n = static_cast<unsigned>(r.below(12));
            for (unsigned i = 0; i < n; ++i)
                v += alphabet[r.below(alphabet.size())];
        }
        return v;
    }
};

const char* tokName(JsonToken t)
{
    switch (t)
    {
    case JsonToken::UNKNOWN: return "UNKNOWN";
    case JsonToken::BEGIN_OF_FILE: return "BEGIN_OF_FILE";
    case JsonToken::END_OF_FILE: return "END_OF_FILE";
    case JsonToken::BEGIN_OBJECT: return "BEGIN_OBJECT";
    case JsonToken::END_OBJECT: return "END_OBJECT";
    case JsonToken::BEGIN_ARRAY: return "BEGIN_ARRAY";
    case JsonToken::END_ARRAY: return "END_ARRAY";
    case JsonToken::KEY_SEPARATOR: return "KEY_SEPARATOR";
    case JsonToken::ITEM_SEPARATOR: return "ITEM_SEPARATOR";
    default: return "VALUE";
    }
}

template <typename A>
void describe(vt::Ev& e, const BasicAny<A>& v)
{
    using S = BasicString<RebindAlloc<A, char>>;
    if (!v.hasValue())
        e.s("k", "none").a("b", {});
    else if (v.template isType<std::nullptr_t>())
        e.s("k", "null").a("b", {});
    else if (v.template isType<bool>())
        e.s("k", "bool").a("b", {v.template get<bool>() ? 1 : 0});
    else if (v.template isType<int64_t>())
        e.s("k", "int").a("b", vt::bits(static_cast<uint64_t>(v.template get<int64_t>()), 64));
    else if (v.template isType<uint64_t>())
        e.s("k", "uint").a("b", vt::bits(v.template get<uint64_t>(), 64));
    else if (v.template isType<double>())
        e.s("k", "dbl").a("b", vt::bits(convertDoubleToUInt64(v.template get<double>()), 64));
    else if (v.template isType<S>())
        e.s("k", "str").a("b", vt::chars(v.template get<S>()));
    else if (v.template isType<char>())
        e.s("k", "char").a("b", {v.template get<char>()});
    else
        e.s("k", "other").a("b", {});
}

// "JsonTokenizer:LINE:COLUMN: ..." or "JsonParser:LINE:COLUMN: ..."
void position(const std::string& what, long& ln, long& col)
{
    ln = col = -1;
    const size_t a = what.find(':');
    if (a != std::string::npos)
        sscanf(what.c_str() + a + 1, "%ld:%ld:", &ln, &col);
}

struct Text
{
    std::string t;
    size_t pad = 0;
    std::unique_ptr<std::streambuf> buf;
    Text(vt::Trace& tr, vt::Rng& r, const std::string* fixed)
    {
        t = fixed ? *fixed : Gen{r, {}}.text();
        if (r.chance(fixed ? 2 : 10))
            pad = 65536 - r.below(t.size() + 2); // the tokenizer's own buffer ends within the text
        else if (r.chance(10))
            pad = r.below(5);
        const std::string all = std::string(pad, ' ') + t;
        if (pad > 5 || r.chance(20))
            buf = std::make_unique<std::stringbuf>(all, std::ios::in);
        else
            buf = std::make_unique<Pieces>(all, r);
        vt::Ev(tr, "Text").a("t", vt::chars(t)).i("pad", pad);
    }
};

template <typename A>
void tokens(vt::Trace& t, vt::Rng& r, const std::string* fixed = nullptr)
{
    Text x(t, r, fixed);
    std::istream in(x.buf.get());
    auto k = std::make_unique<BasicJsonTokenizer<A>>(in, A());
    unsigned last = 0;
    while (last < 2)
    {
        try
        {
            const JsonToken tok = k->next();
            vt::Ev e(t, "Next");
            e.s("tok", tokName(tok)).i("ln", static_cast<int64_t>(k->getLine())).i("col", static_cast<int64_t>(k->getColumn()));
            describe(e, k->getValue());
            e.b("over", false).b("same", tok == k->getToken());
            if (tok == JsonToken::END_OF_FILE)
                ++last;
        }
        catch (const JsonParserException& e)
        {
            long ln = 0;
            long col = 0;
            position(e.what(), ln, col);
            vt::Ev(t, "Next").s("tok", "ERROR").i("ln", ln).i("col", col).s("k", "none").a("b", {})
                    .b("over", std::string(e.what()).find("64-bit") != std::string::npos).b("same", true);
            ++last;
        }
    }
}

template <typename A>
struct Observer : BasicJsonParser<A>::IObserver
{
    vt::Trace& t;
    explicit Observer(vt::Trace& tr) : t(tr) {}
    void ev(const char* n, const char* k = "none", const vt::Ints& b = {}) { vt::Ev(t, "On").s("ev", n).s("k", k).a("b", b); }
    void beginObject() override { ev("beginObject"); }
    void endObject() override { ev("endObject"); }
    void beginArray() override { ev("beginArray"); }
    void endArray() override { ev("endArray"); }
    void visitKey(std::string_view key) override { ev("key", "str", vt::chars(key)); }
    void visitValue(std::nullptr_t) override { ev("value", "null"); }
    void visitValue(bool v) override { ev("value", "bool", {v ? 1 : 0}); }
    void visitValue(int64_t v) override { ev("value", "int", vt::bits(static_cast<uint64_t>(v), 64)); }
    void visitValue(uint64_t v) override { ev("value", "uint", vt::bits(v, 64)); }
    void visitValue(double v) override { ev("value", "dbl", vt::bits(convertDoubleToUInt64(v), 64)); }
    void visitValue(std::string_view v) override { ev("value", "str", vt::chars(v)); }
};

template <typename A>
void parse(vt::Trace& t, vt::Rng& r, const std::string* fixed = nullptr)
{
    Text x(t, r, fixed);
    std::istream in(x.buf.get());
    Observer<A> o(t);
    auto p = std::make_unique<BasicJsonParser<A>>(in, o);
    for (unsigned i = 0; i < 5; ++i)
    {
        try
        {
            const bool end = p->parse();
            vt::Ev(t, "Ret").s("r", end ? "true" : "false").i("ln", static_cast<int64_t>(p->getLine())).i("col", static_cast<int64_t>(p->getColumn()));
            if (end && r.chance(70))
                break;
        }
        catch (const JsonParserException& e)
        {
            long ln = 0;
            long col = 0;
            position(e.what(), ln, col);
            vt::Ev(t, "Ret").s("r", "error").i("ln", ln).i("col", col);
            break;
        }
    }
}

template <typename A>
void decode(vt::Trace& t, vt::Rng& r)
{
    Gen g{r, {}};
    std::string v = r.chance(50) ? g.scalar() : r.chance(50) ? g.number() : g.string();
    if (r.chance(20) && !v.empty())
        v = v.substr(0, r.below(v.size() + 1));
    if (r.chance(20))
        v += r.pick<const char*>({" ", ",", "}", "x", "1", "\"", ".5", "e3"});
    // the value given is a part of a longer text
    const std::string store = "1" + v + r.pick<const char*>({"", "0", "5e2", ".5", "\"", "l", " "});
    BasicJsonDecoder<A> d;
    const auto x = d.decodeValue(std::string_view(store).substr(1, v.size()));
    vt::Ev e(t, "Dec");
    e.a("t", vt::chars(v)).i("n", static_cast<int64_t>(x.numReadChars)).b("over", x.integerOverflow);
    describe(e, x.value);
}

double someDouble(vt::Rng& r)
{
    switch (r.below(8))
    {
    case 0: return convertUInt64ToDouble(r.next());
    case 1: return static_cast<double>(static_cast<int64_t>(r.next()) >> r.below(64));
    case 2: return static_cast<double>(static_cast<int64_t>(r.next()) >> r.below(64)) / 1000.0;
    case 3: return static_cast<double>(r.below(2000)) / 10.0;
    case 4: return r.pick({0.1 + 0.2, 1.0 / 3.0, 1e16, 1e15, 9999999999999998.0, -1e16, 123456789.125, 0.0, -0.0, 5e-324, 1.7976931348623157e308,
                    2.2250738585072014e-308, 1e21, 1e22, 1e23, 4503599627370497.5, 0.001, 1e-5, 123456789012345.6});
    case 5: return static_cast<double>(convertUInt32ToFloat(static_cast<uint32_t>(r.next())));
    case 6: return std::ldexp(1.0, static_cast<int>(r.range(-1074, 1023)));
    default: return static_cast<double>(static_cast<float>(r.below(100000)) / 7.0F);
    }
}

void encode(vt::Trace& t, vt::Rng& r)
{
    std::ostringstream o;
    switch (r.below(5))
    {
    case 0:
    {
        std::string v;
        const unsigned n = static_cast<unsigned>(r.below(12));
        for (unsigned i = 0; i < n; ++i)
            v += static_cast<char>(r.chance(50) ? r.below(256) : r.pick({8, 9, 10, 12, 13, 34, 92, 47, 0, 31, 32, 127, 128, 255}));
        JsonEncoder::encodeString(o, v);
        vt::Ev(t, "EncStr").a("v", vt::chars(v)).a("t", vt::chars(o.str()));
        break;
    }
    case 1:
    {
        const uint64_t v = r.chance(50) ? r.magnitude(64) : ~r.magnitude(64);
        bool sg = true;
        uint64_t w = v;
        switch (r.below(8))
        {
        case 0: JsonEncoder::encodeIntegral(o, static_cast<int8_t>(v)); w = static_cast<uint64_t>(static_cast<int8_t>(v)); break;
        case 1: JsonEncoder::encodeIntegral(o, static_cast<int16_t>(v)); w = static_cast<uint64_t>(static_cast<int16_t>(v)); break;
        case 2: JsonEncoder::encodeIntegral(o, static_cast<int32_t>(v)); w = static_cast<uint64_t>(static_cast<int32_t>(v)); break;
        case 3: JsonEncoder::encodeIntegral(o, static_cast<int64_t>(v)); break;
        case 4: JsonEncoder::encodeIntegral(o, static_cast<uint8_t>(v)); w = static_cast<uint8_t>(v); sg = false; break;
        case 5: JsonEncoder::encodeIntegral(o, static_cast<uint16_t>(v)); w = static_cast<uint16_t>(v); sg = false; break;
        case 6: JsonEncoder::encodeIntegral(o, static_cast<uint32_t>(v)); w = static_cast<uint32_t>(v); sg = false; break;
        default: JsonEncoder::encodeIntegral(o, v); sg = false; break;
        }
        vt::Ev(t, "EncInt").a("v", vt::bits(w, 64)).b("sg", sg).a("t", vt::chars(o.str()));
        break;
    }
    case 2:
    {
        const int w = static_cast<int>(r.range(1, 6));
        switch (w)
        {
        case 1: JsonEncoder::encodeNull(o); break;
        case 2: JsonEncoder::encodeBool(o, true); break;
        case 3: JsonEncoder::encodeBool(o, false); break;
        case 4: JsonEncoder::encodeFloatingPoint(o, static_cast<double>(NAN)); break;
        case 5: JsonEncoder::encodeFloatingPoint(o, static_cast<double>(INFINITY)); break;
        default: JsonEncoder::encodeFloatingPoint(o, -static_cast<double>(INFINITY)); break;
        }
        vt::Ev(t, "EncWord").i("w", w).a("t", vt::chars(o.str()));
        break;
    }
    default:
    {
        const double v = someDouble(r);
        if (r.chance(30))
            JsonEncoder::encodeFloatingPoint(o, 1.5); // the same stream again
        const size_t from = o.str().size();
        JsonEncoder::encodeFloatingPoint(o, v);
        vt::Ev(t, "EncDbl").a("v", vt::bits(convertDoubleToUInt64(v), 64)).a("t", vt::chars(o.str().substr(from)));
    }
    }
}
} // namespace

int main(int argc, char** argv)
{
    const vt::Args a(argc, argv);
    vt::Trace t(a.out);
    vt::Rng r(a.seed);
    using Std = std::allocator<uint8_t>;
    using Pmr = std::pmr::polymorphic_allocator<uint8_t>;
    if (a.mode == "all") // every text up to a length over an alphabet, a part of them for each seed
    {
        static const std::string alphabet = "{}[]:,\"\\1-.en \n\r";
        const size_t k = alphabet.size();
        for (size_t len = 0, count = 1; count <= a.n; ++len, count *= k)
            for (size_t j = a.seed % 8; j < count; j += 8)
            {
                std::string s;
                for (size_t i = 0, x = j; i < len; ++i, x /= k)
                    s += alphabet[x % k];
                r.chance(60) ? tokens<Std>(t, r, &s) : parse<Std>(t, r, &s);
            }
    }
    while (a.mode != "all" && t.size() < a.n)
    {
        const bool std = r.chance(70);
        if (a.mode == "tok")
            std ? tokens<Std>(t, r) : tokens<Pmr>(t, r);
        else if (a.mode == "parse")
            std ? parse<Std>(t, r) : parse<Pmr>(t, r);
        else if (a.mode == "dec")
            std ? decode<Std>(t, r) : decode<Pmr>(t, r);
        else
            encode(t, r);
    }
    vt::Ev(t, "End");
    return 0;
}
