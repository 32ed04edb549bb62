// Ranges, validation, computed sizes and codecs of all numeric wrapper types; modes: fixed, dyn, var
#include <limits>
#include "trace.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/CppRuntimeException.h"
#include "zserio/Types.h"

using namespace zserio;
using vt::Ints;

namespace
{
vt::Trace* t;
vt::Rng* r;

template <typename V>
Ints ext(V v)
{
    if constexpr (std::is_same_v<V, bool>)
        return vt::bits(v ? 1 : 0, 64);
    else if constexpr (std::is_signed_v<V>)
        return vt::bits(static_cast<uint64_t>(static_cast<int64_t>(v)), 64);
    else
        return vt::bits(static_cast<uint64_t>(v), 64);
}

template <typename V>
std::vector<V> candidates(unsigned bits, unsigned extra)
{
    std::vector<V> out;
    auto add = [&](uint64_t u) { out.push_back(static_cast<V>(u)); };
    const unsigned w = sizeof(V) * 8;
    for (unsigned k : {bits, bits - 1})
    {
        const uint64_t p = k >= 64 ? 0 : (1ULL << k);
        for (uint64_t d : {p - 2, p - 1, p, p + 1, -p, -p - 1, -p + 1})
            add(d);
    }
    add(0);
    add(1);
    add(~0ULL);
    add(static_cast<uint64_t>(std::numeric_limits<V>::max()));
    add(static_cast<uint64_t>(std::numeric_limits<V>::min()));
    for (unsigned j = 0; j < extra; ++j)
        add(r->magnitude(w) * (r->chance(50) ? ~0ULL : 1));
    return out;
}

// writes at offset off to a buffer of random content; logs the written bits and re-read value
template <typename W, typename WR, typename RD, typename SZ, typename IN>
void one(const char* kind, int n, typename W::ValueType v, bool from, int fromSame, bool to, bool val, WR wr, RD rd, SZ sz, IN in)
{
    const size_t off = r->below(70);
    uint8_t buf[32];
    const uint8_t fill = r->pick({uint8_t(0), uint8_t(255), uint8_t(0x5A)});
    memset(buf, fill, sizeof buf);
    BitStreamWriter w(buf, sizeof buf);
    w.setBitPosition(off);
    const bool wok = vt::tryDo([&] { wr(w); });
    const size_t len = w.getBitPosition() - off;
    Ints wbits;
    if (wok)
        for (size_t j = 0; j < len; ++j)
            wbits.push_back((buf[(off + j) / 8] >> (7 - (off + j) % 8)) & 1);
    bool others = true; // bits outside stay
    for (size_t j = 0; j < sizeof buf * 8; ++j)
        if (j < off || j >= off + len)
            others = others && ((buf[j / 8] >> (7 - j % 8)) & 1) == ((fill >> (7 - j % 8)) & 1);
    Ints back;
    int rlen = -1;
    if (wok)
    {
        BitStreamReader rr(buf, sizeof buf);
        rr.setBitPosition(off);
        W x{};
        if (vt::tryDo([&] { rd(rr, x); }))
        {
            back = ext(static_cast<typename W::ValueType>(x));
            rlen = static_cast<int>(rr.getBitPosition() - off);
        }
    }
    int size = -2;
    int init = -2;
    const bool so = vt::tryDo([&] { size = static_cast<int>(sz(off)); });
    const bool io = vt::tryDo([&] { init = static_cast<int>(in(off)); });
    if (!so)
        size = -2;
    if (!io)
        init = -2;
    vt::Ev(*t, "Val").s("k", kind).i("n", n).a("v", ext(v)).b("from", from).i("same", fromSame).b("to", to).b("val", val).i("size", size)
            .i("init", init).b("wr", wok).i("len", static_cast<int64_t>(len)).a("bits", wbits).b("others", others).a("back", back).i("rlen", rlen);
}

template <typename W>
void fixedLike(const char* kind, int n, unsigned extra)
{
    using V = typename W::ValueType;
    vt::Ev(*t, "Lim").s("k", kind).i("n", n).b("ok", true).a("min", ext(static_cast<V>(NumericLimits<W>::min()))).a("max", ext(static_cast<V>(NumericLimits<W>::max())));
    for (V v : candidates<V>(static_cast<unsigned>(n), extra))
    {
        W fv{};
        const bool from = vt::tryDo([&] { fv = fromCheckedValue<W>(v); });
        const int same = from ? (static_cast<V>(fv) == v ? 1 : 0) : -1;
        V tv{};
        const bool to = vt::tryDo([&] { tv = toCheckedValue(W(v)); });
        bool val = vt::tryDo([&] { detail::validate(W(v), "field"); });
        if (to && tv != v)
            val = !val; // recorded as a wrong answer
        one<W>(kind, n, v, from, same, to, val, [&](BitStreamWriter& w) { detail::write(w, W(v)); },
                [&](BitStreamReader& rr, W& x) { detail::read(rr, x); }, [&](size_t off) { return detail::bitSizeOf(W(v), off); },
                [&](size_t off) { return detail::initializeOffsets(W(v), off); });
    }
}

template <size_t... N>
void allFixed(std::index_sequence<N...>, unsigned extra)
{
    (fixedLike<Int<N + 1>>("fs", static_cast<int>(N + 1), extra), ...);
    (fixedLike<UInt<N + 1>>("fu", static_cast<int>(N + 1), extra), ...);
}

template <typename W>
void dyn(const char* kind, unsigned extra)
{
    using V = typename W::ValueType;
    const int w = sizeof(V) * 8;
    for (int n : {0, 1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 127, 255})
    {
        if (n > w + 1 && !r->chance(30))
            continue;
        const uint8_t n8 = static_cast<uint8_t>(n);
        Ints mn;
        Ints mx;
        const bool ok = vt::tryDo([&] { mn = ext(static_cast<V>(NumericLimits<W>::min(n8))); mx = ext(static_cast<V>(NumericLimits<W>::max(n8))); });
        if (!ok)
            mn = mx = Ints{};
        vt::Ev(*t, "Lim").s("k", kind).i("n", n).i("w", w).b("ok", ok).a("min", mn).a("max", mx);
        for (V v : candidates<V>(static_cast<unsigned>(n == 0 ? 1 : n), extra))
        {
            W fv{};
            const bool from = vt::tryDo([&] { fv = fromCheckedValue<W>(v, n8); });
            const int same = from ? (static_cast<V>(fv) == v ? 1 : 0) : -1;
            V tv{};
            const bool to = vt::tryDo([&] { tv = toCheckedValue(W(v), n8); });
            bool val = vt::tryDo([&] { detail::validate(W(v), BitSize(n8), "field"); });
            if (to && tv != v)
                val = !val;
            const bool valid = n >= 1 && n <= w;
            one<W>(kind, valid ? n : 0, v, from, same, to, val, [&](BitStreamWriter& wr) { detail::write(wr, W(v), n8); },
                    [&](BitStreamReader& rr, W& x) { detail::read(rr, x, n8); }, [&](size_t) { return valid ? BitSize(n8) : throw std::runtime_error("x"); },
                    [&](size_t) { return valid ? BitSize(n8) : throw std::runtime_error("x"); });
        }
    }
}

template <typename W>
void var(const char* kind, std::initializer_list<unsigned> widths, unsigned extra)
{
    using V = typename W::ValueType;
    vt::Ev(*t, "Lim").s("k", kind).i("n", 0).b("ok", true).a("min", ext(static_cast<V>(NumericLimits<W>::min()))).a("max", ext(static_cast<V>(NumericLimits<W>::max())));
    for (unsigned wd : widths)
        for (V v : candidates<V>(wd, extra))
        {
            W fv{};
            const bool from = vt::tryDo([&] { fv = fromCheckedValue<W>(v); });
            const int same = from ? (static_cast<V>(fv) == v ? 1 : 0) : -1;
            V tv{};
            const bool to = vt::tryDo([&] { tv = toCheckedValue(W(v)); });
            bool val = vt::tryDo([&] { detail::validate(W(v), "field"); });
            if (to && tv != v)
                val = !val;
            one<W>(kind, 0, v, from, same, to, val, [&](BitStreamWriter& w) { detail::write(w, W(v)); },
                    [&](BitStreamReader& rr, W& x) { detail::read(rr, x); }, [&](size_t off) { return detail::bitSizeOf(W(v), off); },
                    [&](size_t off) { return detail::initializeOffsets(W(v), off); });
        }
}
} // namespace

int main(int argc, char** argv)
{
    vt::Args a(argc, argv);
    vt::Trace tr(a.out);
    vt::Rng rng(a.seed);
    t = &tr;
    r = &rng;
    const unsigned extra = static_cast<unsigned>(a.n);
    if (a.mode == "fixed")
        allFixed(std::make_index_sequence<64>(), extra);
    else if (a.mode == "dyn")
    {
        dyn<DynInt8>("ds", extra);
        dyn<DynInt16>("ds", extra);
        dyn<DynInt32>("ds", extra);
        dyn<DynInt64>("ds", extra);
        dyn<DynUInt8>("du", extra);
        dyn<DynUInt16>("du", extra);
        dyn<DynUInt32>("du", extra);
        dyn<DynUInt64>("du", extra);
    }
    else
    {
        var<VarInt16>("v16", {6, 14, 15}, extra);
        var<VarInt32>("v32", {6, 13, 20, 28, 31}, extra);
        var<VarInt64>("v64", {6, 13, 20, 27, 34, 41, 48, 56, 60}, extra);
        var<VarInt>("v", {6, 13, 20, 27, 34, 41, 48, 55, 63}, extra);
        var<VarUInt16>("u16", {7, 15}, extra);
        var<VarUInt32>("u32", {7, 14, 21, 29, 31}, extra);
        var<VarUInt64>("u64", {7, 14, 21, 28, 35, 42, 49, 57, 60}, extra);
        var<VarUInt>("u", {7, 14, 21, 28, 35, 42, 49, 56, 63}, extra);
        var<VarSize>("sz", {7, 14, 21, 28, 31}, extra);
    }
    vt::Ev(tr, "End");
    return 0;
}
