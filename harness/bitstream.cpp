// Drives zserio::BitStreamWriter / BitStreamReader; modes: rt, bounds, var, float, script
#include <memory>
#include "trace.h"
#include "zserio/BitSize.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/CppRuntimeException.h"

using namespace zserio;
using vt::Ints;

namespace
{
struct Op
{
    std::string k;
    int n = 0;
    uint64_t v = 0;                 // integers (two's complement) and raw float bits
    std::vector<uint8_t> blob;      // str, bytes, bb
    size_t bits = 0;                // bb
};

const std::vector<std::string> VARS = {"v16", "v32", "v64", "v", "u16", "u32", "u64", "u", "sz"};

struct Driver
{
    vt::Trace& t;
    vt::Rng& r;
    // exactly sized heap buffers, so that the address sanitizer sees every access outside
    std::unique_ptr<uint8_t[]> wb;
    size_t wbytes = 0;
    std::unique_ptr<BitStreamWriter> w;
    std::unique_ptr<uint8_t[]> rb;
    size_t rbytes = 0;
    std::unique_ptr<BitStreamReader> rd;

    Driver(vt::Trace& tr, vt::Rng& rng) : t(tr), r(rng) {}

    Ints wcontent() const { return wb ? vt::bytes(std::vector<uint8_t>(wb.get(), wb.get() + wbytes)) : Ints{}; }

    void newWriter(size_t cap, bool has, int ctor)
    {
        w.reset();
        wbytes = has ? (cap + 7) / 8 : 0;
        if (ctor == 1 || ctor == 2)
            cap = has ? wbytes * 8 : cap;
        if (ctor == 3 && has)
            wbytes += r.below(3); // span larger than the used bits
        wb.reset(has ? new uint8_t[wbytes] : nullptr);
        for (size_t j = 0; j < wbytes; ++j)
            wb[j] = static_cast<uint8_t>(r.pick({uint64_t(0), uint64_t(255), r.next(), r.next()}));
        const Ints before = wcontent();
        uint8_t* p = wb.get();
        if (!has)
            w = std::make_unique<BitStreamWriter>(static_cast<uint8_t*>(nullptr), cap, BitsTag());
        else if (ctor == 1)
            w = std::make_unique<BitStreamWriter>(p, wbytes);
        else if (ctor == 2)
            w = std::make_unique<BitStreamWriter>(Span<uint8_t>(p, wbytes));
        else if (ctor == 3)
            w = std::make_unique<BitStreamWriter>(Span<uint8_t>(p, wbytes), cap);
        else
            w = std::make_unique<BitStreamWriter>(p, cap, BitsTag());
        vt::Ev(t, "NewW").i("cap", cap).b("has", has).a("buf", before).i("pos", w->getBitPosition());
    }
    void newReader(const std::vector<uint8_t>& data, size_t cap, int ctor)
    {
        rd.reset();
        rbytes = data.size();
        rb.reset(new uint8_t[rbytes]);
        std::copy(data.begin(), data.end(), rb.get());
        if (ctor == 1 || ctor == 2)
            cap = rbytes * 8;
        if (ctor == 1)
            rd = std::make_unique<BitStreamReader>(rb.get(), rbytes);
        else if (ctor == 2)
            rd = std::make_unique<BitStreamReader>(Span<const uint8_t>(rb.get(), rbytes));
        else if (ctor == 3)
            rd = std::make_unique<BitStreamReader>(Span<const uint8_t>(rb.get(), rbytes), cap);
        else
            rd = std::make_unique<BitStreamReader>(rb.get(), cap, BitsTag());
        vt::Ev(t, "NewR").i("cap", rd->getBufferBitSize()).a("buf", vt::bytes(data));
    }

    template <typename F>
    static int size(F&& f)
    {
        int s = -2;
        vt::tryDo([&] { s = static_cast<int>(f()); });
        return s;
    }
    template <typename V>
    int var(const Op& op, void (BitStreamWriter::*f)(V), bool& ok)
    {
        const V v(static_cast<typename V::ValueType>(op.v));
        const int s = size([&] { return detail::bitSizeOf(v); });
        ok = vt::tryDo([&] { (w.get()->*f)(v); });
        return s;
    }

    void write(const Op& op)
    {
        bool ok = false;
        int bs = -1;
        BitStreamWriter& o = *w;
        Ints logged;
        const uint8_t n8 = static_cast<uint8_t>(op.n);
        if (op.k == "U32") { ok = vt::tryDo([&] { o.writeUnsignedBits32(static_cast<uint32_t>(op.v), n8); }); logged = vt::bits(static_cast<uint32_t>(op.v), 64); }
        else if (op.k == "U64") { ok = vt::tryDo([&] { o.writeUnsignedBits64(op.v, n8); }); logged = vt::bits(op.v, 64); }
        else if (op.k == "S32") { ok = vt::tryDo([&] { o.writeSignedBits32(static_cast<int32_t>(op.v), n8); }); logged = vt::bits(static_cast<uint64_t>(static_cast<int64_t>(static_cast<int32_t>(op.v))), 64); }
        else if (op.k == "S64") { ok = vt::tryDo([&] { o.writeSignedBits64(static_cast<int64_t>(op.v), n8); }); logged = vt::bits(op.v, 64); }
        else if (op.k == "bool") { const Bool b((op.v & 1) != 0); bs = size([&] { return detail::bitSizeOf(b); }); ok = vt::tryDo([&] { o.writeBool(b); }); logged = vt::bits(op.v & 1, 1); }
        else if (op.k == "f16" || op.k == "f32")
        {
            float f;
            const uint32_t u = static_cast<uint32_t>(op.v);
            memcpy(&f, &u, 4);
            if (op.k == "f16") { bs = size([&] { return detail::bitSizeOf(Float16(f)); }); ok = vt::tryDo([&] { o.writeFloat16(Float16(f)); }); }
            else { bs = size([&] { return detail::bitSizeOf(Float32(f)); }); ok = vt::tryDo([&] { o.writeFloat32(Float32(f)); }); }
            logged = vt::bits(u, 32);
        }
        else if (op.k == "f64")
        {
            double d;
            memcpy(&d, &op.v, 8);
            bs = size([&] { return detail::bitSizeOf(Float64(d)); });
            ok = vt::tryDo([&] { o.writeFloat64(Float64(d)); });
            logged = vt::bits(op.v, 64);
        }
        else if (op.k == "str")
        {
            const std::string s(op.blob.begin(), op.blob.end());
            bs = size([&] { return detail::bitSizeOf(std::string_view(s)); });
            ok = vt::tryDo([&] { o.writeString(s); });
            logged = vt::bytes(op.blob);
        }
        else if (op.k == "bytes")
        {
            bs = size([&] { return detail::bitSizeOf(BytesView(op.blob)); });
            ok = vt::tryDo([&] { o.writeBytes(op.blob); });
            logged = vt::bytes(op.blob);
        }
        else if (op.k == "bb")
        {
            const BitBuffer b(op.blob, op.bits);
            bs = size([&] { return detail::bitSizeOf(BitBufferView(b)); });
            ok = vt::tryDo([&] { o.writeBitBuffer(b); });
            for (size_t j = 0; j < op.bits; ++j)
                logged.push_back((op.blob[j / 8] >> (7 - j % 8)) & 1);
        }
        else
        {
            int64_t lv = static_cast<int64_t>(op.v);
            if (op.k == "v16") { bs = var<VarInt16>(op, &BitStreamWriter::writeVarInt16, ok); lv = static_cast<int16_t>(op.v); }
            else if (op.k == "v32") { bs = var<VarInt32>(op, &BitStreamWriter::writeVarInt32, ok); lv = static_cast<int32_t>(op.v); }
            else if (op.k == "v64") bs = var<VarInt64>(op, &BitStreamWriter::writeVarInt64, ok);
            else if (op.k == "v") bs = var<VarInt>(op, &BitStreamWriter::writeVarInt, ok);
            else if (op.k == "u16") { bs = var<VarUInt16>(op, &BitStreamWriter::writeVarUInt16, ok); lv = static_cast<uint16_t>(op.v); }
            else if (op.k == "u32") { bs = var<VarUInt32>(op, &BitStreamWriter::writeVarUInt32, ok); lv = static_cast<uint32_t>(op.v); }
            else if (op.k == "u64") bs = var<VarUInt64>(op, &BitStreamWriter::writeVarUInt64, ok);
            else if (op.k == "u") bs = var<VarUInt>(op, &BitStreamWriter::writeVarUInt, ok);
            else { bs = var<VarSize>(op, &BitStreamWriter::writeVarSize, ok); lv = static_cast<uint32_t>(op.v); }
            logged = vt::bits(static_cast<uint64_t>(lv), 64);
        }
        vt::Ev(t, "W").s("k", op.k).i("n", op.n).a("v", logged).i("bs", bs).b("ok", ok).i("pos", o.getBitPosition()).a("buf", wcontent());
    }
    void wAlign(size_t a)
    {
        const bool ok = vt::tryDo([&] { w->alignTo(a); });
        vt::Ev(t, "WA").i("n", a).b("ok", ok).i("pos", w->getBitPosition()).a("buf", wcontent());
    }
    void wSeek(size_t p)
    {
        const bool ok = vt::tryDo([&] { w->setBitPosition(p); });
        vt::Ev(t, "WS").i("n", p).b("ok", ok).i("pos", w->getBitPosition()).a("buf", wcontent());
    }
    void read(const std::string& k, int n)
    {
        BitStreamReader& o = *rd;
        const uint8_t n8 = static_cast<uint8_t>(n);
        Ints v;
        const bool ok = vt::tryDo([&] {
            if (k == "U32") v = vt::bits(o.readUnsignedBits32(n8), 64);
            else if (k == "U64") v = vt::bits(o.readUnsignedBits64(n8), 64);
            else if (k == "S32") v = vt::bits(static_cast<uint64_t>(static_cast<int64_t>(o.readSignedBits32(n8))), 64);
            else if (k == "S64") v = vt::bits(static_cast<uint64_t>(o.readSignedBits64(n8)), 64);
            else if (k == "bool") v = vt::bits(o.readBool() ? 1 : 0, 1);
            else if (k == "f16" || k == "f32")
            {
                const float f = k == "f16" ? static_cast<float>(o.readFloat16()) : static_cast<float>(o.readFloat32());
                uint32_t u;
                memcpy(&u, &f, 4);
                v = vt::bits(u, 32);
            }
            else if (k == "f64")
            {
                const double d = o.readFloat64();
                uint64_t u;
                memcpy(&u, &d, 8);
                v = vt::bits(u, 64);
            }
            else if (k == "str") v = vt::bytes(o.readString());
            else if (k == "bytes") v = vt::bytes(o.readBytes());
            else if (k == "bb")
            {
                const auto b = o.readBitBuffer();
                const auto d = b.getData();
                for (size_t j = 0; j < b.getBitSize(); ++j)
                    v.push_back((d[j / 8] >> (7 - j % 8)) & 1);
            }
            else if (k == "v16") v = vt::bits(static_cast<uint64_t>(static_cast<int64_t>(static_cast<int16_t>(o.readVarInt16()))), 64);
            else if (k == "v32") v = vt::bits(static_cast<uint64_t>(static_cast<int64_t>(static_cast<int32_t>(o.readVarInt32()))), 64);
            else if (k == "v64") v = vt::bits(static_cast<uint64_t>(static_cast<int64_t>(o.readVarInt64())), 64);
            else if (k == "v") v = vt::bits(static_cast<uint64_t>(static_cast<int64_t>(o.readVarInt())), 64);
            else if (k == "u16") v = vt::bits(static_cast<uint16_t>(o.readVarUInt16()), 64);
            else if (k == "u32") v = vt::bits(static_cast<uint32_t>(o.readVarUInt32()), 64);
            else if (k == "u64") v = vt::bits(static_cast<uint64_t>(o.readVarUInt64()), 64);
            else if (k == "u") v = vt::bits(static_cast<uint64_t>(o.readVarUInt()), 64);
            else v = vt::bits(static_cast<uint32_t>(o.readVarSize()), 64);
        });
        if (!ok)
            v.clear();
        vt::Ev(t, "R").s("k", k).i("n", n).a("v", v).b("ok", ok).i("pos", o.getBitPosition());
    }
    void rAlign(size_t a)
    {
        const bool ok = vt::tryDo([&] { rd->alignTo(a); });
        vt::Ev(t, "RA").i("n", a).b("ok", ok).i("pos", rd->getBitPosition());
    }
    void rSeek(size_t p)
    {
        const bool ok = vt::tryDo([&] { rd->setBitPosition(p); });
        vt::Ev(t, "RS").i("n", p).b("ok", ok).i("pos", rd->getBitPosition());
    }

    // ------------------------------------------------------------------ random values
    uint64_t floatBits(unsigned ebits, unsigned mbits)
    {
        const uint64_t emax = (1ULL << ebits) - 1;
        const uint64_t bias = emax >> 1;
        uint64_t e = 0;
        switch (r.below(6))
        {
        case 0: e = 0; break;
        case 1: e = emax; break;
        case 2: e = r.below(emax + 1); break;
        default: // around the range of half precision
            e = static_cast<uint64_t>(static_cast<int64_t>(bias) + r.range(-27, 18));
            break;
        }
        uint64_t m = r.next() & ((1ULL << mbits) - 1);
        switch (r.below(6))
        {
        case 0: m = 0; break;
        case 1: m = (1ULL << mbits) - 1; break;
        case 2: m = 1ULL << r.below(mbits); break;
        case 3: m &= ~((1ULL << r.below(mbits)) - 1); break; // few leading bits: rounding ties
        default: break;
        }
        return (r.below(2) << (ebits + mbits)) | (e << mbits) | m;
    }
    Op value(const std::string& k, bool wild)
    {
        Op op;
        op.k = k;
        if (k == "U32" || k == "U64" || k == "S32" || k == "S64")
        {
            const int mx = (k[1] == '3') ? 32 : 64;
            op.n = static_cast<int>(r.range(1, mx));
            if (r.chance(20))
                op.n = static_cast<int>(r.pick({1, 8, 16, mx, mx - 1, 33 > mx ? mx : 33, 24, 7, 9}));
            if (wild && r.chance(15))
                op.n = static_cast<int>(r.pick({0, mx + 1, 65, 128, 255, 33}));
            const unsigned nb = static_cast<unsigned>(op.n > mx ? mx : op.n);
            if (k[0] == 'U')
                op.v = r.magnitude(wild && r.chance(25) ? mx : nb);
            else
            {
                const uint64_t m = r.magnitude(wild && r.chance(25) ? mx : (nb ? nb - 1 : 0));
                op.v = r.chance(50) ? m : ~m;
                if (wild && r.chance(10) && nb > 0)
                    op.v = r.chance(50) ? (1ULL << (nb - 1)) : ~(1ULL << (nb - 1)); // just outside
            }
        }
        else if (k == "bool") op.v = r.below(2);
        else if (k == "f16" || k == "f32") op.v = floatBits(8, 23);
        else if (k == "f64") op.v = floatBits(11, 52);
        else if (k == "str" || k == "bytes")
        {
            const size_t len = r.chance(70) ? r.below(6) : r.below(20);
            for (size_t j = 0; j < len; ++j)
                op.blob.push_back(static_cast<uint8_t>(r.next()));
        }
        else if (k == "bb")
        {
            op.bits = r.chance(70) ? r.below(30) : r.below(150);
            for (size_t j = 0; j < (op.bits + 7) / 8; ++j)
                op.blob.push_back(static_cast<uint8_t>(r.next()));
        }
        else
        {
            const bool sg = k[0] == 'v';
            static const std::vector<std::pair<std::string, unsigned>> CAPS = {{"v16", 14}, {"v32", 28}, {"v64", 56},
                    {"v", 63}, {"u16", 15}, {"u32", 29}, {"u64", 57}, {"u", 64}, {"sz", 31}};
            unsigned c = 0;
            for (const auto& p : CAPS)
                if (p.first == k)
                    c = p.second;
            if (wild && r.chance(25))
                c = (k == "v16" || k == "u16") ? 16 : ((k == "v32" || k == "u32" || k == "sz") ? 32 : 64);
            uint64_t m = r.magnitude(c);
            if (r.chance(40))
            { // around the length boundaries of the encoding
                const unsigned q = static_cast<unsigned>(7 * (1 + r.below(9)) - (sg ? 1 : 0));
                m = (q < 64 ? (1ULL << q) : 0) - r.below(3);
                if (!wild || r.chance(60))
                    m = c >= 64 ? m : (m & ((1ULL << c) - 1));
            }
            op.v = (sg && r.chance(50)) ? (0 - m) : m;
            if (k == "v" && r.chance(10))
                op.v = 1ULL << 63;
        }
        return op;
    }
    std::string kind(const std::string& mode)
    {
        if (mode == "float")
            return r.pick(std::vector<std::string>{"f16", "f16", "f16", "f32", "f64", "bool", "U32"});
        if (mode == "var")
            return r.chance(70) ? r.pick(VARS) : r.pick(std::vector<std::string>{"str", "bytes", "bb", "bool"});
        static const std::vector<std::string> all = {"U32", "U64", "S32", "S64", "U32", "U64", "S32", "S64", "bool", "f16",
                "f32", "f64", "str", "bytes", "bb", "v16", "v32", "v64", "v", "u16", "u32", "u64", "u", "sz"};
        return r.pick(all);
    }
    size_t alignment() { return r.pick({size_t(1), size_t(2), size_t(4), size_t(8), size_t(8), size_t(16), size_t(32), size_t(64), size_t(3), size_t(65 + r.below(200)), size_t(1 + r.below(600))}); }

    // write a random sequence, read it back in the same shape, with seeks and rejected operations between
    void scenario(const std::string& mode)
    {
        const bool wild = mode == "bounds";
        const bool has = !r.chance(12);
        const size_t cap = wild ? r.pick({r.below(24), r.below(140), 56 + r.below(20), 120 + r.below(20)}) : 200 + r.below(260);
        newWriter(cap, has, static_cast<int>(r.below(5)));
        std::vector<std::pair<std::string, int>> shape; // as written
        if (mode != "var" && r.chance(70))
        {
            Op op = value("U64", false);
            op.n = static_cast<int>(1 + r.below(20));
            op.v &= (1ULL << op.n) - 1;
            write(op); // random start offset
            shape.emplace_back(op.k, op.n);
        }
        const size_t nops = 3 + r.below(wild ? 10 : 8);
        for (size_t j = 0; j < nops; ++j)
        {
            if (r.chance(10))
            {
                const size_t a = alignment();
                wAlign(a);
                shape.emplace_back("align", static_cast<int>(a));
            }
            else if (wild && r.chance(12))
                wSeek(r.chance(50) ? r.below(cap + 20) : (cap + r.below(3)));
            else
            {
                const Op op = value(kind(mode), wild || r.chance(3));
                write(op);
                shape.emplace_back(op.k, op.n);
            }
        }
        if (!has)
            return;
        std::vector<uint8_t> data(wb.get(), wb.get() + wbytes);
        size_t rcap = wild && r.chance(50) ? r.below(data.size() * 8 + 1) : w->getBufferBitSize();
        if (mode == "rt" || r.chance(40))
            ; // as written
        else
            for (auto& b : data)
                if (r.chance(mode == "var" ? 60 : 20))
                    b = static_cast<uint8_t>(r.pick({r.next(), uint64_t(255), uint64_t(128), uint64_t(0x80 | r.next())}));
        data.resize((rcap + 7) / 8);
        newReader(data, rcap, static_cast<int>(r.below(5)));
        for (const auto& s : shape)
        {
            if (s.first == "align")
                rAlign(static_cast<size_t>(s.second));
            else
                read(s.first, s.second);
            if (wild && r.chance(15))
                read(r.pick({"U32", "U64", "S32", "S64"}), static_cast<int>(r.below(70)));
        }
        // jumps forward, back and in place (also inside of the last loaded word and of the tail), each followed by reads
        for (size_t j = mode == "rt" || wild ? 4 + r.below(3) : 0; j > 0; --j)
        {
            const size_t lim = rd->getBufferBitSize();
            const int64_t pos = static_cast<int64_t>(rd->getBitPosition());
            int64_t to = 0;
            switch (r.below(4))
            {
            case 0: to = pos + r.range(-70, 70); break;
            case 1: to = pos - r.range(0, 24); break;
            case 2: to = static_cast<int64_t>(lim) - r.range(0, 80); break;
            default: to = static_cast<int64_t>(r.below(lim + 1)); break;
            }
            if (to < 0 || (to > static_cast<int64_t>(lim) && !wild))
                to = pos;
            rSeek(static_cast<size_t>(to));
            const size_t left = lim - rd->getBitPosition();
            for (size_t q = 1 + r.below(2); q > 0 && left > 0; --q)
                read(r.pick({"U32", "U64", "S32", "U32"}), static_cast<int>(1 + r.below(left < 32 ? left : 32)));
        }
        const size_t extra = mode == "rt" ? 1 : 6;
        for (size_t j = 0; j < extra; ++j)
        {
            switch (r.below(5))
            {
            case 0: rSeek(r.below(rd->getBufferBitSize() + (wild ? 10 : 1))); break;
            case 1: rAlign(alignment()); break;
            default:
            {
                const std::string k = kind(mode);
                int n = 0;
                if (k == "U32" || k == "S32")
                    n = static_cast<int>(1 + r.below(32));
                else if (k == "U64" || k == "S64")
                    n = static_cast<int>(1 + r.below(64));
                read(k, n);
            }
            }
        }
    }
    // arbitrary bytes through all decoders
    void decodeBytes(const std::vector<std::string>& kinds, size_t maxBytes)
    {
        std::vector<uint8_t> data(1 + r.below(maxBytes));
        for (auto& b : data)
        {
            const uint64_t x = r.below(5);
            b = static_cast<uint8_t>(x == 0 ? r.next() : x == 1 ? 0x80 : x == 2 ? 0xFF : x == 3 ? (0x80 | r.next()) : (r.next() & 0x7F));
        }
        newReader(data, data.size() * 8 - r.below(8), 0);
        const std::string k = r.pick(kinds);
        if (r.chance(40))
            read("U32", static_cast<int>(1 + r.below(7)));
        for (int j = 0; j < 3; ++j)
            read(k, 0);
    }
    // every half precision pattern of a block (all of them over 16 shards x 4096)
    void halves(uint32_t from, uint32_t count)
    {
        for (uint32_t h = from; h < from + count; h += 8)
        {
            std::vector<uint8_t> data;
            for (uint32_t j = h; j < h + 8 && j < from + count; ++j)
            {
                data.push_back(static_cast<uint8_t>(j >> 8));
                data.push_back(static_cast<uint8_t>(j));
            }
            newReader(data, data.size() * 8, 0);
            for (size_t j = 0; j < data.size() / 2; ++j)
                read("f16", 0);
        }
    }
    void script(const char* file)
    {
        for (const auto& c : vt::readScript(file))
        {
            auto arg = [&](size_t j) { return static_cast<size_t>(strtoull(c[j].c_str(), nullptr, 10)); };
            if (c[0] == "NewR")
            {
                std::vector<uint8_t> data((arg(1) + 7) / 8);
                for (auto& b : data)
                    b = static_cast<uint8_t>(r.next());
                newReader(data, arg(1), 0);
            }
            else if (c[0] == "NewW") newWriter(arg(1), true, 0);
            else if (c[0] == "R") read(c[1], static_cast<int>(arg(2)));
            else if (c[0] == "RS") rSeek(arg(1));
            else if (c[0] == "RA") rAlign(arg(1));
            else if (c[0] == "WS") wSeek(arg(1));
            else if (c[0] == "WA") wAlign(arg(1));
            else if (c[0] == "W")
            {
                Op op;
                op.k = c[1];
                op.n = static_cast<int>(arg(2));
                op.v = r.next() & (op.n >= 64 ? ~0ULL : ((1ULL << op.n) - 1));
                if (op.k[0] == 'S')
                    op.v = r.chance(50) ? (op.v >> 1) : ~(op.v >> 1);
                write(op);
            }
        }
    }
};
} // namespace

int main(int argc, char** argv)
{
    const vt::Args a(argc, argv);
    vt::Trace t(a.out);
    vt::Rng r(a.seed);
    {
        Driver d(t, r);
        if (a.script)
            d.script(a.script);
        if (a.mode == "float")
        {
            const uint32_t block = static_cast<uint32_t>(a.n);
            d.halves(static_cast<uint32_t>((a.seed % 16) * 4096), block < 4096 ? block : 4096);
        }
        const size_t goal = t.size() + a.n;
        while (t.size() < goal)
        {
            if (a.mode == "var" && r.chance(50))
                d.decodeBytes({"v16", "v32", "v64", "v", "u16", "u32", "u64", "u", "sz", "sz", "str", "bytes", "bb"}, 14);
            else if (a.mode == "float" && r.chance(30))
                d.decodeBytes({"f16", "f32", "f64"}, 30);
            else
                d.scenario(a.mode);
        }
    }
    vt::Ev(t, "End");
    return 0;
}
