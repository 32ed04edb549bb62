// Arrays of all element kinds, layouts, alignments, plain and packed: encoding, round trip, decoding of arbitrary bytes.
#include <new>
#include <test_object/std_allocator/CreatorBitmask.h>
#include <test_object/std_allocator/CreatorEnum.h>
#include <zserio/ArrayView.h>
#include <zserio/BitBuffer.h>
#include <zserio/BitStreamReader.h>
#include <zserio/BitStreamWriter.h>
#include <zserio/Bitmasks.h>
#include <zserio/Bytes.h>
#include <zserio/Enums.h>
#include <zserio/FloatUtil.h>
#include <zserio/Optional.h>
#include <zserio/String.h>
#include <zserio/Types.h>
#include <zserio/Vector.h>
#include <memory>

#include "trace.h"

using namespace zserio;
using vt::Ints;
using E8 = test_object::std_allocator::CreatorEnum;
using M8 = test_object::std_allocator::CreatorBitmask;

namespace mem
{
size_t live, peak, largest;
size_t limit = SIZE_MAX;
void reset() { live = peak = largest = 0; }
} // namespace mem
template <typename T>
struct CountAlloc
{
    using value_type = T;
    CountAlloc() = default;
    template <typename U>
    CountAlloc(const CountAlloc<U>&) {}
    T* allocate(size_t n)
    {
        const size_t s = n * sizeof(T);
        if (s > mem::limit || mem::live + s > mem::limit)
            throw std::bad_alloc();
        mem::live += s;
        mem::peak = std::max(mem::peak, mem::live);
        mem::largest = std::max(mem::largest, s);
        return static_cast<T*>(::operator new(s));
    }
    void deallocate(T* p, size_t n)
    {
        mem::live -= n * sizeof(T);
        ::operator delete(p);
    }
    bool operator==(const CountAlloc&) const { return true; }
    bool operator!=(const CountAlloc&) const { return false; }
};
using Str = BasicString<CountAlloc<char>>;
using Byt = BasicBytes<CountAlloc<uint8_t>>;
using BBuf = BasicBitBuffer<CountAlloc<uint8_t>>;

// a compound with one packing context per packable field, as the generator emits it
struct Rec
{
    Int16 x;
    Bool b;
    VarUInt32 y;
    BasicOptional<CountAlloc<uint8_t>, Int64> z;
    Str s;
    E8 e = E8::ONE;
    M8 m;
};
namespace zserio
{
template <>
class View<Rec>
{
public:
    explicit View(const Rec& d) : m_d(&d) {}
    const Rec& d() const { return *m_d; }
    bool operator==(const View& o) const
    {
        return d().x == o.d().x && d().b == o.d().b && d().y == o.d().y && d().z == o.d().z && d().s == o.d().s && d().e == o.d().e &&
                d().m.getValue() == o.d().m.getValue();
    }
    bool operator!=(const View& o) const { return !(*this == o); }

private:
    const Rec* m_d;
};
namespace detail
{
template <>
struct ObjectTraits<Rec>
{
    struct PackingContext
    {
        DeltaContext x, b, y, z, e, m;
    };
    static void validate(const View<Rec>& v, std::string_view)
    {
        detail::validate(v.d().x, "x");
        detail::validate(v.d().b, "b");
        detail::validate(v.d().y, "y");
        if (v.d().z)
            detail::validate(*v.d().z, "z");
        detail::validate(std::string_view(v.d().s), "s");
        detail::validate(v.d().e, "e");
        detail::validate(v.d().m, "m");
    }
    static BitSize bitSizeOf(const View<Rec>& v, BitSize p)
    {
        BitSize q = p;
        q += detail::bitSizeOf(v.d().x, q);
        q += detail::bitSizeOf(v.d().b, q);
        q += detail::bitSizeOf(v.d().y, q);
        q += 1;
        if (v.d().z)
            q += detail::bitSizeOf(*v.d().z, q);
        q += detail::bitSizeOf(std::string_view(v.d().s), q);
        q += detail::bitSizeOf(v.d().e, q);
        q += detail::bitSizeOf(v.d().m, q);
        return q - p;
    }
    static void write(BitStreamWriter& w, const View<Rec>& v)
    {
        detail::write(w, v.d().x);
        detail::write(w, v.d().b);
        detail::write(w, v.d().y);
        w.writeBool(v.d().z.has_value());
        if (v.d().z)
            detail::write(w, *v.d().z);
        detail::write(w, std::string_view(v.d().s));
        detail::write(w, v.d().e);
        detail::write(w, v.d().m);
    }
    static View<Rec> read(BitStreamReader& r, Rec& d)
    {
        detail::read(r, d.x);
        detail::read(r, d.b);
        detail::read(r, d.y);
        if (r.readBool())
        {
            d.z.emplace();
            detail::read(r, *d.z);
        }
        detail::read(r, d.s);
        detail::read(r, d.e);
        detail::read(r, d.m);
        return View<Rec>(d);
    }
    static void initContext(PackingContext& c, const View<Rec>& v)
    {
        detail::initContext(c.x, v.d().x);
        detail::initContext(c.b, v.d().b);
        detail::initContext(c.y, v.d().y);
        if (v.d().z)
            detail::initContext(c.z, *v.d().z);
        detail::initContext(c.e, v.d().e);
        detail::initContext(c.m, v.d().m);
    }
    static BitSize bitSizeOf(PackingContext& c, const View<Rec>& v, BitSize p)
    {
        BitSize q = p;
        q += detail::bitSizeOf(c.x, v.d().x, q);
        q += detail::bitSizeOf(c.b, v.d().b, q);
        q += detail::bitSizeOf(c.y, v.d().y, q);
        q += 1;
        if (v.d().z)
            q += detail::bitSizeOf(c.z, *v.d().z, q);
        q += detail::bitSizeOf(std::string_view(v.d().s), q);
        q += detail::bitSizeOf(c.e, v.d().e, q);
        q += detail::bitSizeOf(c.m, v.d().m, q);
        return q - p;
    }
    static void write(PackingContext& c, BitStreamWriter& w, const View<Rec>& v)
    {
        detail::write(c.x, w, v.d().x);
        detail::write(c.b, w, v.d().b);
        detail::write(c.y, w, v.d().y);
        w.writeBool(v.d().z.has_value());
        if (v.d().z)
            detail::write(c.z, w, *v.d().z);
        detail::write(w, std::string_view(v.d().s));
        detail::write(c.e, w, v.d().e);
        detail::write(c.m, w, v.d().m);
    }
    static void read(PackingContext& c, BitStreamReader& r, Rec& d)
    {
        detail::read(c.x, r, d.x);
        detail::read(c.b, r, d.b);
        detail::read(c.y, r, d.y);
        if (r.readBool())
        {
            d.z.emplace();
            detail::read(c.z, r, *d.z);
        }
        detail::read(r, d.s);
        detail::read(c.e, r, d.e);
        detail::read(c.m, r, d.m);
    }
};
} // namespace detail
} // namespace zserio

struct DynOwner
{
    uint8_t base = 1;
    uint8_t period = 1;
    uint8_t at(size_t i) const { return static_cast<uint8_t>(base + i % period); }
};
template <typename T>
struct DynTraits
{
    using OwnerType = DynOwner;
    static View<T> at(const DynOwner& o, const T& e, size_t i) { return View<T>(e, o.at(i)); }
    static void read(BitStreamReader& r, const DynOwner& o, T& e, size_t i) { detail::read(r, e, o.at(i)); }
    static void read(detail::DeltaContext& c, BitStreamReader& r, const DynOwner& o, T& e, size_t i) { detail::read(c, r, e, o.at(i)); }
};

// ---------------------------------------------------------------- element codecs
static std::string js(const Ints& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i)
        s += (i ? "," : "") + std::to_string(v[i]);
    return s + "]";
}
static std::string some(const Ints& v) { return "[" + js(v) + "]"; }

template <typename T>
std::enable_if_t<std::is_integral_v<typename T::ValueType>, Ints> raw(const T& v)
{
    return vt::bits(static_cast<uint64_t>(static_cast<typename T::ValueType>(v)), 64);
}
inline Ints raw(E8 v) { return vt::bits(static_cast<uint64_t>(static_cast<int64_t>(v)), 64); }
inline Ints raw(M8 v) { return vt::bits(static_cast<uint64_t>(static_cast<uint8_t>(v.getValue())), 64); }
inline Ints raw(const Str& v) { return vt::bytes(v); }
inline Ints raw(const Byt& v) { return vt::bytes(v); }
inline Ints raw(const BBuf& v)
{
    Ints r;
    for (size_t i = 0; i < v.getBitSize(); ++i)
        r.push_back((v.getData()[i / 8] >> (7 - i % 8)) & 1);
    return r;
}
inline Ints rawf(float f)
{
    if (f != f)
        return vt::bits(0x7FC00000U, 32);
    return vt::bits(convertFloatToUInt32(f), 32);
}
inline Ints raw(Float16 v) { return rawf(v); }
inline Ints raw(Float32 v) { return vt::bits(convertFloatToUInt32(v), 32); }
inline Ints raw(Float64 v) { return vt::bits(convertDoubleToUInt64(v), 64); }

template <typename T>
std::string row(const T& v)
{
    return "[" + some(raw(v)) + "]";
}
template <>
std::string row(const Rec& r)
{
    return "[" + some(raw(r.x)) + "," + some(raw(r.b)) + "," + some(raw(r.y)) + "," + (r.z ? some(raw(*r.z)) : std::string("[]")) + "," +
            some(raw(r.s)) + "," + some(raw(r.e)) + "," + some(raw(r.m)) + "]";
}
template <typename V>
std::string rows(const V& v)
{
    std::string s = "[";
    for (size_t i = 0; i < std::min<size_t>(v.size(), 4000); ++i)
        s += (i ? "," : "") + row(v[i]);
    return s + "]";
}
static std::string col(const char* k, int n, int m, int w, bool sg, bool opt = false, const std::string& dom = "[]", int lim = 0)
{
    return std::string("{\"k\":\"") + k + "\",\"n\":" + std::to_string(n) + ",\"m\":" + std::to_string(m) + ",\"w\":" + std::to_string(w) +
            ",\"sg\":" + (sg ? "1" : "0") + ",\"opt\":" + (opt ? "true" : "false") + ",\"dom\":" + dom + ",\"lim\":" + std::to_string(lim) + "}";
}
static std::string enumDom() { return "[" + js(raw(E8::ONE)) + "," + js(raw(E8::TWO)) + "," + js(raw(E8::MinusOne)) + "]"; }

// how the integers of one array relate to each other
struct Shape
{
    int kind;
    uint64_t base, step;
    unsigned dbits;
};
static Shape shape(vt::Rng& r, unsigned w)
{
    return Shape{static_cast<int>(r.below(7)), r.magnitude(w), r.magnitude(w), static_cast<unsigned>(r.below(w + 1))};
}
// integer of w bits (as 64-bit two's complement), element i of an array of this shape
static uint64_t shaped(vt::Rng& r, Shape& s, size_t i, unsigned w, bool sg)
{
    uint64_t v;
    switch (s.kind)
    {
    case 0: v = s.base; break;                                   // all equal
    case 1: v = s.base + i * (s.step >> (w / 2)); break;         // arithmetic
    case 2: v = s.base + (s.dbits ? r.magnitude(s.dbits) : 0); break; // around a base
    case 3: v = (i % 2) ? s.base : s.step; break;                // alternating
    case 4: v = r.magnitude(w); break;
    case 5: v = r.chance(50) ? (1ULL << (w - 1)) : (1ULL << (w - 1)) - 1; break; // extremes
    default: v = s.base = s.base + (r.chance(50) ? 1 : -1) * (s.dbits ? r.magnitude(s.dbits) : 0); break; // walk
    }
    if (w < 64)
    {
        v &= (1ULL << w) - 1;
        if (sg && ((v >> (w - 1)) & 1))
            v |= ~((1ULL << w) - 1);
    }
    return v;
}

template <typename T>
struct NumCodec
{
    const char* k;
    int n;          // width of the type in bits (magnitude bits for variable-length kinds)
    bool sg;
    using Traits = ArrayTraits<T>;
    DynOwner owner{};
    static constexpr bool packable = true;
    static constexpr bool implicit = true;
    static constexpr bool dyn = false;
    Shape sh{};
    std::string cols() const { return "[" + col(k, n, 1, sizeof(typename T::ValueType) * 8, sg) + "]"; }
    void begin(vt::Rng& r) { sh = shape(r, static_cast<unsigned>(n)); }
    T gen(vt::Rng& r, size_t i, bool) { return T(static_cast<typename T::ValueType>(shaped(r, sh, i, static_cast<unsigned>(n), sg))); }
    // a value outside of the range, if the storage is wide enough
    bool bad(vt::Rng& r, T& v)
    {
        const unsigned w = sizeof(typename T::ValueType) * 8;
        if (static_cast<unsigned>(n) >= w)
            return false;
        uint64_t u = 1ULL << (static_cast<unsigned>(n) - (sg ? 1 : 0));
        if (sg && r.chance(50))
            u = ~u;
        v = T(static_cast<typename T::ValueType>(u));
        return true;
    }
};
template <typename T>
struct VarCodec : NumCodec<T>
{
    static constexpr bool implicit = false;
};
template <typename T>
struct DynCodec : NumCodec<T>
{
    using Traits = DynTraits<T>;
    static constexpr bool implicit = false;
    static constexpr bool dyn = true;
    std::string cols() const { return "[" + col("dyn", this->owner.base, this->owner.period, sizeof(typename T::ValueType) * 8, this->sg) + "]"; }
    void begin(vt::Rng& r)
    {
        const unsigned w = sizeof(typename T::ValueType) * 8;
        this->owner.base = static_cast<uint8_t>(1 + r.below(w));
        this->owner.period = static_cast<uint8_t>(1 + r.below(std::min<unsigned>(3, w - this->owner.base + 1)));
        this->n = this->owner.base;
        this->sh = shape(r, static_cast<unsigned>(this->n));
    }
};
template <typename T>
struct FloatCodec
{
    const char* k;
    int n;
    using Traits = ArrayTraits<T>;
    DynOwner owner{};
    static constexpr bool packable = false;
    static constexpr bool implicit = true;
    static constexpr bool dyn = false;
    std::string cols() const { return "[" + col(k, n, 1, 0, false) + "]"; }
    void begin(vt::Rng&) {}
    T gen(vt::Rng& r, size_t, bool)
    {
        if constexpr (std::is_same_v<T, Float64>)
            return T(convertUInt64ToDouble(r.next()));
        else if constexpr (std::is_same_v<T, Float32>)
            return T(convertUInt32ToFloat(static_cast<uint32_t>(r.next()) & 0xFF7FFFFFU));
        else
            return T(convertUInt16ToFloat(static_cast<uint16_t>(r.next()) & 0xFBFFU));
    }
    bool bad(vt::Rng&, T&) { return false; }
};
template <typename T>
struct BlobCodec
{
    const char* k;
    using Traits = ArrayTraits<T>;
    DynOwner owner{};
    static constexpr bool packable = false;
    static constexpr bool implicit = false;
    static constexpr bool dyn = false;
    std::string cols() const { return "[" + col(k, 0, 1, 0, false) + "]"; }
    void begin(vt::Rng&) {}
    T gen(vt::Rng& r, size_t, bool)
    {
        const size_t n = r.below(r.chance(20) ? 40 : 6);
        if constexpr (std::is_same_v<T, BBuf>)
        {
            std::vector<uint8_t> b(n);
            for (auto& x : b)
                x = static_cast<uint8_t>(r.next());
            const size_t bits = n == 0 ? 0 : 8 * n - r.below(8);
            return BBuf(Span<const uint8_t>(b.data(), b.size()), bits);
        }
        else
        {
            T v;
            for (size_t i = 0; i < n; ++i)
                v.push_back(static_cast<typename T::value_type>(r.next()));
            return v;
        }
    }
    bool bad(vt::Rng&, T&) { return false; }
};
struct EnumCodec
{
    using Traits = ArrayTraits<E8>;
    DynOwner owner{};
    static constexpr bool packable = true;
    static constexpr bool implicit = false;
    static constexpr bool dyn = false;
    bool same = false;
    std::string cols() const { return "[" + col("enum", 8, 1, 8, true, false, enumDom()) + "]"; }
    void begin(vt::Rng& r) { same = r.chance(30); }
    E8 gen(vt::Rng& r, size_t, bool) { return same ? E8::MinusOne : r.pick({E8::ONE, E8::TWO, E8::MinusOne}); }
    bool bad(vt::Rng&, E8&) { return false; }
};
struct MaskCodec
{
    using Traits = ArrayTraits<M8>;
    DynOwner owner{};
    static constexpr bool packable = true;
    static constexpr bool implicit = false;
    static constexpr bool dyn = false;
    std::string cols() const { return "[" + col("mask", 8, 1, 8, false, false, "[]", 8) + "]"; }
    Shape sh{};
    void begin(vt::Rng& r) { sh = shape(r, 8); }
    M8 gen(vt::Rng& r, size_t i, bool) { return M8(UInt8(static_cast<uint8_t>(shaped(r, sh, i, 8, false)))); }
    bool bad(vt::Rng&, M8&) { return false; }
};
struct RecCodec
{
    using Traits = ArrayTraits<Rec>;
    DynOwner owner{};
    static constexpr bool packable = true;
    static constexpr bool implicit = false;
    static constexpr bool dyn = false;
    Shape sx{}, sy{}, sz{};
    unsigned pz = 0;
    bool sb = false;
    EnumCodec ec;
    MaskCodec mc;
    BlobCodec<Str> bc{"str"};
    std::string cols() const
    {
        return "[" + col("int", 16, 1, 16, true) + "," + col("bool", 1, 1, 8, false) + "," + col("u32", 32, 1, 32, false) + "," +
                col("int", 64, 1, 64, true, true) + "," + col("str", 0, 1, 0, false) + "," + col("enum", 8, 1, 8, true, false, enumDom()) + "," +
                col("mask", 8, 1, 8, false, false, "[]", 8) + "]";
    }
    void begin(vt::Rng& r)
    {
        sx = shape(r, 16);
        sy = shape(r, 29);
        sz = shape(r, 64);
        pz = r.pick({0U, 50U, 100U, 80U});
        sb = r.chance(50);
        ec.begin(r);
        mc.begin(r);
    }
    Rec gen(vt::Rng& r, size_t i, bool)
    {
        Rec v;
        v.x = Int16(static_cast<int16_t>(shaped(r, sx, i, 16, true)));
        v.b = Bool(sb || r.chance(50));
        v.y = VarUInt32(static_cast<uint32_t>(shaped(r, sy, i, 29, false)));
        if (r.chance(pz))
            v.z.emplace(static_cast<int64_t>(shaped(r, sz, i, 64, true)));
        v.s = bc.gen(r, i, true);
        v.e = ec.gen(r, i, true);
        v.m = mc.gen(r, i, true);
        return v;
    }
    bool bad(vt::Rng& r, Rec& v)
    {
        v.y = VarUInt32(static_cast<uint32_t>((1U << 29) + r.below(5)));
        return true;
    }
};

// ---------------------------------------------------------------- operations
using detail::ArrayType;
static const char* layName(ArrayType t)
{
    switch (t)
    {
    case ArrayType::NORMAL: return "normal";
    case ArrayType::AUTO: return "auto";
    case ArrayType::ALIGNED: return "aligned";
    case ArrayType::ALIGNED_AUTO: return "alignedauto";
    default: return "implicit";
    }
}

template <ArrayType LAY, bool PACKED, typename T, typename CODEC>
void readArray(BitStreamReader& rd, Vector<T, CountAlloc<T>>& out, CODEC& c, size_t given)
{
    using Tr = typename CODEC::Traits;
    if constexpr (CODEC::dyn)
    {
        if constexpr (PACKED)
            detail::readPackedWithTraits<LAY, Tr>(rd, out, c.owner, given);
        else
            detail::readWithTraits<LAY, Tr>(rd, out, c.owner, given);
    }
    else if constexpr (PACKED)
        detail::readPacked<LAY>(rd, out, given);
    else
        detail::read<LAY>(rd, out, given);
}

struct Offsets
{
    Ints* o;
    void setOffset(size_t i, BitSize v) const
    {
        if (o->size() != i)
            o->push_back(-1);
        o->push_back(static_cast<int>(v));
    }
};

template <ArrayType LAY, bool PACKED, typename T, typename CODEC>
void encode(vt::Trace& t, vt::Rng& r, CODEC& c)
{
    mem::limit = SIZE_MAX;
    const size_t n = r.chance(10) ? r.below(60) : r.below(8);
    Vector<T, CountAlloc<T>> v;
    for (size_t i = 0; i < n; ++i)
        v.push_back(c.gen(r, i, true));
    if (n > 0 && r.chance(6))
        c.bad(r, v[r.below(n)]);
    using View_ = ArrayView<const T, typename CODEC::Traits>;
    auto mk = [&]() {
        if constexpr (CODEC::dyn)
            return View_(v, c.owner);
        else
            return View_(v);
    };
    const View_ view = mk();
    const size_t schema = r.chance(80) ? n : r.below(10);
    const bool val = vt::tryDo([&] { detail::validate<LAY>(view, "f", schema); });
    const bool inRange = vt::tryDo([&] { detail::validate<LAY>(view, "f", n); });
    size_t start = r.below(r.chance(50) ? 9 : 70);
    if (LAY == ArrayType::IMPLICIT && r.chance(50))
        start = 8 * r.below(4);
    Ints offs;
    size_t size = 0, init = 0, pos = 0, rpos = 0;
    bool back = false;
    Ints bits;
    const bool done = inRange && vt::tryDo([&] {
        if constexpr (PACKED)
        {
            size = detail::bitSizeOfPacked<LAY>(view, start);
            init = detail::initializeOffsetsPacked<LAY>(view, start, Offsets{&offs});
        }
        else
        {
            size = detail::bitSizeOf<LAY>(view, start);
            init = detail::initializeOffsets<LAY>(view, start, Offsets{&offs});
        }
        // one bit of slack cannot be written to: the size is exact
        std::vector<uint8_t> buf((start + size + 7) / 8, 0);
        BitStreamWriter w(Span<uint8_t>(buf.data(), buf.size()), start + size);
        w.setBitPosition(start);
        if constexpr (PACKED)
            detail::writePacked<LAY>(w, view);
        else
            detail::write<LAY>(w, view);
        pos = w.getBitPosition();
        for (size_t i = start; i < pos; ++i)
            bits.push_back((buf[i / 8] >> (7 - i % 8)) & 1);
        BitStreamReader rd(Span<const uint8_t>(buf.data(), buf.size()), start + size);
        rd.setBitPosition(start);
        Vector<T, CountAlloc<T>> in;
        if (r.chance(20))
            in.resize(3); // what the vector contained before does not matter
        readArray<LAY, PACKED>(rd, in, c, n);
        rpos = rd.getBitPosition();
        back = rows(in) == rows(v);
    });
    vt::Ev(t, "Enc").s("lay", layName(LAY)).b("packed", PACKED).i("start", static_cast<int64_t>(start)).i("schema", static_cast<int64_t>(schema))
            .raw("rows", rows(v)).b("val", val).b("done", done).i("size", static_cast<int64_t>(size)).i("init", static_cast<int64_t>(init))
            .a("offs", offs).i("pos", static_cast<int64_t>(pos)).a("bits", bits).b("back", back).i("rpos", static_cast<int64_t>(rpos));
}

template <ArrayType LAY, bool PACKED, typename T, typename CODEC>
void decode(vt::Trace& t, vt::Rng& r, CODEC& c, uint64_t shortLen)
{
    std::vector<uint8_t> buf;
    size_t start = r.below(12);
    const size_t n = r.below(7);
    size_t given = n;
    mem::limit = SIZE_MAX;
    // start from a valid encoding or from noise
    {
        std::vector<uint8_t> tmp(4096, 0);
        BitStreamWriter w(Span<uint8_t>(tmp.data(), tmp.size()));
        for (size_t i = 0; i < start; ++i)
            w.writeBool(r.chance(50));
        if (LAY == ArrayType::AUTO || LAY == ArrayType::ALIGNED_AUTO)
        {
            uint64_t len = n;
            if (r.chance(40))
                len = r.pick<uint64_t>({0, 1, shortLen, 100, 1000, 65535, (1ULL << 20) + 3, (1ULL << 31) - 1, r.magnitude(31)});
            w.writeVarSize(static_cast<uint32_t>(len));
        }
        else if (r.chance(40))
            given = r.pick<size_t>({0, 1, 100, 1000, 65535, (size_t(1) << 20) + 3, (size_t(1) << 31) - 1, static_cast<size_t>(r.magnitude(40))});
        const size_t body = w.getBitPosition();
        if (r.chance(60))
        {
            Vector<T, CountAlloc<T>> v;
            for (size_t i = 0; i < n; ++i)
                v.push_back(c.gen(r, i, true));
            using View_ = ArrayView<const T, typename CODEC::Traits>;
            auto mk = [&]() {
                if constexpr (CODEC::dyn)
                    return View_(v, c.owner);
                else
                    return View_(v);
            };
            constexpr ArrayType BODY = (LAY == ArrayType::ALIGNED || LAY == ArrayType::ALIGNED_AUTO) ? ArrayType::ALIGNED : ArrayType::NORMAL;
            try
            {
                if constexpr (PACKED)
                    detail::writePacked<BODY>(w, mk());
                else
                    detail::write<BODY>(w, mk());
            }
            catch (const std::exception&)
            {}
        }
        else if (r.chance(50) && PACKED)
        {
            w.writeBool(true);
            w.writeUnsignedBits32(static_cast<uint32_t>(r.pick<int>({0, 1, 3, 7, 15, 31, 32, 61, 62, 63})), 6);
            for (size_t i = r.below(40); i > 0; --i)
                w.writeUnsignedBits32(static_cast<uint32_t>(r.below(256)), 8);
        }
        else
            for (size_t i = r.below(24); i > 0; --i)
                w.writeUnsignedBits32(static_cast<uint32_t>(r.chance(30) ? r.pick<int>({0, 1, 255, 128, 127}) : static_cast<int>(r.below(256))), 8);
        buf.assign(tmp.data(), tmp.data() + (w.getBitPosition() + 7) / 8);
        for (size_t i = r.chance(50) && !buf.empty() ? r.below(4) : 0; i > 0; --i)
            buf[r.below(buf.size())] ^= static_cast<uint8_t>(1U << r.below(8));
        for (size_t i = r.chance(30) ? r.below(6) : 0; i > 0; --i)
            buf.push_back(static_cast<uint8_t>(r.next()));
        (void)body;
    }
    size_t lim = buf.size() * 8;
    if (r.chance(40))
        lim = r.below(lim + 1);
    else if (r.chance(50))
        lim -= std::min<size_t>(lim, r.below(8));
    start = std::min(start, lim);
    // exactly as many bytes as belong to the stream
    const size_t nb = (lim + 7) / 8;
    std::unique_ptr<uint8_t[]> data(new uint8_t[nb == 0 ? 1 : nb]);
    std::copy(buf.begin(), buf.begin() + static_cast<long>(nb), data.get());
    const size_t prealloc = r.pick<size_t>({0, 16, 100, 1000, 4096, 65536});
    bool ok = false, oom = false;
    size_t pos = 0;
    Vector<T, CountAlloc<T>> out;
    mem::reset();
    mem::limit = 4 << 20;
    try
    {
        BitStreamReader rd(Span<const uint8_t>(data.get(), nb), lim, ArrayPreallocation(prealloc));
        rd.setBitPosition(start);
        readArray<LAY, PACKED>(rd, out, c, given);
        ok = true;
        pos = rd.getBitPosition();
    }
    catch (const std::bad_alloc&)
    {
        oom = true;
    }
    catch (const std::exception&)
    {}
    const size_t cnt = out.size();
    mem::limit = SIZE_MAX;
    vt::Ev(t, "Dec").s("lay", layName(LAY)).b("packed", PACKED).i("start", static_cast<int64_t>(start)).i("lim", static_cast<int64_t>(lim))
            .i("given", given > 2000000000 ? 2000000000 : static_cast<int64_t>(given)).a("bytes", vt::bytes(std::vector<uint8_t>(data.get(), data.get() + nb)))
            .i("prealloc", static_cast<int64_t>(prealloc)).b("ok", ok).b("oom", oom).i("cnt", static_cast<int64_t>(cnt))
            .i("sz", static_cast<int64_t>(sizeof(T))).i("largest", static_cast<int64_t>(mem::largest)).i("peak", static_cast<int64_t>(mem::peak))
            .i("pos", static_cast<int64_t>(pos)).raw("rows", ok ? rows(out) : std::string("[]"));
}

template <bool PACKED, typename T, typename CODEC>
void layouts(vt::Trace& t, vt::Rng& r, CODEC& c, bool dec)
{
    switch (r.below(CODEC::implicit && !PACKED ? 5 : 4))
    {
    case 0: dec ? decode<ArrayType::NORMAL, PACKED, T>(t, r, c, 3) : encode<ArrayType::NORMAL, PACKED, T>(t, r, c); break;
    case 1: dec ? decode<ArrayType::AUTO, PACKED, T>(t, r, c, 9) : encode<ArrayType::AUTO, PACKED, T>(t, r, c); break;
    case 2: dec ? decode<ArrayType::ALIGNED, PACKED, T>(t, r, c, 5) : encode<ArrayType::ALIGNED, PACKED, T>(t, r, c); break;
    case 3: dec ? decode<ArrayType::ALIGNED_AUTO, PACKED, T>(t, r, c, 2) : encode<ArrayType::ALIGNED_AUTO, PACKED, T>(t, r, c); break;
    default:
        if constexpr (CODEC::implicit && !PACKED)
            dec ? decode<ArrayType::IMPLICIT, PACKED, T>(t, r, c, 2) : encode<ArrayType::IMPLICIT, PACKED, T>(t, r, c);
    }
}
template <typename T, typename CODEC>
void run(vt::Trace& t, vt::Rng& r, CODEC c, const std::string& what)
{
    c.begin(r);
    vt::Ev(t, "Cols").raw("cols", c.cols());
    for (int i = 0; i < 3; ++i)
    {
        const bool dec = what == "decode";
        if constexpr (CODEC::packable)
        {
            if (what == "packed" || (dec && r.chance(60)))
            {
                layouts<true, T>(t, r, c, dec);
                continue;
            }
        }
        layouts<false, T>(t, r, c, dec);
    }
}

#define VT_IN(k) (k >= VT_LO && k <= VT_HI)
template <int> // only in templates do discarded branches stay uninstantiated
int work(int argc, char** argv)
{
    const vt::Args a(argc, argv);
    vt::Trace t(a.out);
    vt::Rng r(a.seed);
    using I5 = detail::FixedIntWrapper<5, true>;
    using U3 = detail::FixedIntWrapper<3, false>;
    using U1 = detail::FixedIntWrapper<1, false>;
    using I33 = detail::FixedIntWrapper<33, true>;
    using U63 = detail::FixedIntWrapper<63, false>;
    while (t.size() < a.n)
    {
        const std::string& m = a.mode;
        const int k = static_cast<int>(VT_LO + r.below(VT_HI - VT_LO + 1));
        switch (k)
        {
        case 0:
            if constexpr (VT_IN(0)) { run<Bool>(t, r, NumCodec<Bool>{"bool", 1, false}, m); }
            break;
        case 1:
            if constexpr (VT_IN(1)) { run<Int8>(t, r, NumCodec<Int8>{"int", 8, true}, m); }
            break;
        case 2:
            if constexpr (VT_IN(2)) { run<UInt16>(t, r, NumCodec<UInt16>{"int", 16, false}, m); }
            break;
        case 3:
            if constexpr (VT_IN(3)) { run<Int32>(t, r, NumCodec<Int32>{"int", 32, true}, m); }
            break;
        case 4:
            if constexpr (VT_IN(4)) { run<UInt64>(t, r, NumCodec<UInt64>{"int", 64, false}, m); }
            break;
        case 5:
            if constexpr (VT_IN(5)) { run<Int64>(t, r, NumCodec<Int64>{"int", 64, true}, m); }
            break;
        case 6:
            if constexpr (VT_IN(6)) { run<I5>(t, r, NumCodec<I5>{"int", 5, true}, m); }
            break;
        case 7:
            if constexpr (VT_IN(7)) { run<U3>(t, r, NumCodec<U3>{"int", 3, false}, m); }
            break;
        case 8:
            if constexpr (VT_IN(8)) { run<U1>(t, r, NumCodec<U1>{"int", 1, false}, m); }
            break;
        case 9:
            if constexpr (VT_IN(9)) { run<I33>(t, r, NumCodec<I33>{"int", 33, true}, m); }
            break;
        case 10:
            if constexpr (VT_IN(10)) { run<U63>(t, r, NumCodec<U63>{"int", 63, false}, m); }
            break;
        case 11:
            if constexpr (VT_IN(11)) { run<VarInt16>(t, r, VarCodec<VarInt16>{{"v16", 15, true}}, m); }
            break;
        case 12:
            if constexpr (VT_IN(12)) { run<VarUInt16>(t, r, VarCodec<VarUInt16>{{"u16", 15, false}}, m); }
            break;
        case 13:
            if constexpr (VT_IN(13)) { run<VarInt32>(t, r, VarCodec<VarInt32>{{"v32", 29, true}}, m); }
            break;
        case 14:
            if constexpr (VT_IN(14)) { run<VarUInt32>(t, r, VarCodec<VarUInt32>{{"u32", 29, false}}, m); }
            break;
        case 15:
            if constexpr (VT_IN(15)) { run<VarInt64>(t, r, VarCodec<VarInt64>{{"v64", 57, true}}, m); }
            break;
        case 16:
            if constexpr (VT_IN(16)) { run<VarUInt64>(t, r, VarCodec<VarUInt64>{{"u64", 57, false}}, m); }
            break;
        case 17:
            if constexpr (VT_IN(17)) { run<VarInt>(t, r, VarCodec<VarInt>{{"v", 64, true}}, m); }
            break;
        case 18:
            if constexpr (VT_IN(18)) { run<VarUInt>(t, r, VarCodec<VarUInt>{{"u", 64, false}}, m); }
            break;
        case 19:
            if constexpr (VT_IN(19)) { run<VarSize>(t, r, VarCodec<VarSize>{{"sz", 31, false}}, m); }
            break;
        case 20:
            if constexpr (VT_IN(20)) { run<DynInt16>(t, r, DynCodec<DynInt16>{{"dyn", 16, true}}, m); }
            break;
        case 21:
            if constexpr (VT_IN(21)) { run<DynUInt64>(t, r, DynCodec<DynUInt64>{{"dyn", 64, false}}, m); }
            break;
        case 22:
            if constexpr (VT_IN(22)) { r.chance(50) ? run<E8>(t, r, EnumCodec{}, m) : run<M8>(t, r, MaskCodec{}, m); }
            break;
        case 23:
            if constexpr (VT_IN(23)) { run<Rec>(t, r, RecCodec{}, m); }
            break;
        case 24:
            if constexpr (VT_IN(24)) { run<Float16>(t, r, FloatCodec<Float16>{"f16", 16}, m); }
            break;
        case 25:
            if constexpr (VT_IN(25)) { run<Float32>(t, r, FloatCodec<Float32>{"f32", 32}, m); }
            break;
        case 26:
            if constexpr (VT_IN(26)) { run<Float64>(t, r, FloatCodec<Float64>{"f64", 64}, m); }
            break;
        case 27:
            if constexpr (VT_IN(27)) { run<Str>(t, r, BlobCodec<Str>{"str"}, m); }
            break;
        case 28:
            if constexpr (VT_IN(28)) { run<Byt>(t, r, BlobCodec<Byt>{"bytes"}, m); }
            break;
        case 29:
            if constexpr (VT_IN(29)) { run<BBuf>(t, r, BlobCodec<BBuf>{"bb"}, m); }
            break;
        default: break;
        }
    }
    vt::Ev(t, "End");
    return 0;
}

int main(int argc, char** argv) { return work<0>(argc, argv); }
