// Bit buffers: construction, copies, moves, comparisons and hash codes over a pool of slots
#include <memory>
#include "trace.h"
#include "zserio/BitBuffer.h"
#include "zserio/CppRuntimeException.h"
#include "zserio/pmr/BitBuffer.h"
#include "zserio/ppmr/BitBuffer.h"
#include "zserio/ppmr/PropagatingPolymorphicAllocator.h"
#include <memory_resource>

using namespace zserio;
namespace
{
template <typename A>
A makeAlloc(size_t)
{
    return A();
}
std::pmr::unsynchronized_pool_resource pools[2];
template <>
std::pmr::polymorphic_allocator<uint8_t> makeAlloc<std::pmr::polymorphic_allocator<uint8_t>>(size_t k)
{
    return std::pmr::polymorphic_allocator<uint8_t>(&pools[k % 2]);
}
std::pmr::unsynchronized_pool_resource heaps[2];
template <>
zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t> makeAlloc<zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>>(size_t k)
{
    return zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>(&heaps[k % 2]);
}

template <typename A>
struct Pool
{
    using B = BasicBitBuffer<A>;
    using V = BasicBitBufferView<A>;
    static constexpr size_t N = 6;
    vt::Trace& t;
    vt::Rng& r;
    std::vector<std::unique_ptr<B>> s;
    Pool(vt::Trace& tr, vt::Rng& rng) : t(tr), r(rng)
    {
        for (size_t j = 0; j < N; ++j)
            s.push_back(std::make_unique<B>(makeAlloc<A>(r.below(2))));
    }
    void show(size_t k)
    {
        const B& b = *s[k];
        const auto d = r.chance(50) ? b.getData() : Span<const uint8_t>(b.getBytes());
        if (d.size() > 0 && b.getBuffer() != d.data())
            vt::Ev(t, "BadBuffer");
        vt::Ev(t, "Show").i("s", k).i("size", b.getBitSize()).i("bytes", b.getByteSize()).a("data", vt::bytes(d));
    }
    void cmp(size_t a, size_t b)
    {
        const B& x = *s[a];
        const B& y = *s[b];
        if (r.chance(60))
            vt::Ev(t, "Cmp").i("s", a).i("t", b).b("eq", x == y).b("ne", x != y).b("lt", x < y).b("gt", x > y).b("le", x <= y).b("ge", x >= y);
        else
        {
            const V v(x);
            const V w(y);
            vt::Ev(t, "Cmp").i("s", a).i("t", b).b("eq", v == w).b("ne", v != w).b("lt", v < w).b("gt", v > w).b("le", v <= w).b("ge", v >= w);
        }
    }
    void hash(size_t a)
    {
        uint32_t h = 0;
        switch (r.below(3))
        {
        case 0: h = s[a]->hashCode(); break;
        case 1: h = static_cast<uint32_t>(std::hash<B>{}(*s[a])); break;
        default: h = static_cast<uint32_t>(std::hash<V>{}(V(*s[a]))); break;
        }
        vt::Ev(t, "Hash").i("s", a).a("h", vt::limbs(h));
    }
    // similar contents are frequent: short, low entropy, sharing prefixes with a buffer already there
    std::vector<uint8_t> content(size_t& n)
    {
        std::vector<uint8_t> d;
        if (r.chance(55))
        {
            const B& o = *s[r.below(N)];
            const auto od = o.getData();
            d.assign(od.begin(), od.end());
            n = o.getBitSize();
            if (r.chance(60))
                n = n + 4 - r.below(n < 4 ? 5 : 9);
            d.resize((n + 7) / 8);
            if (n % 8 != 0 && r.chance(70))
                d.back() = static_cast<uint8_t>((d.back() & (0xFF << (8 - n % 8))) | (r.next() & (0xFF >> (n % 8)))); // other unused bits
        }
        else
        {
            n = r.pick({r.below(4), r.below(20), r.below(40), 8 * r.below(4), r.below(100)});
            for (size_t j = 0; j < (n + 7) / 8; ++j)
                d.push_back(static_cast<uint8_t>(r.pick({uint64_t(0), uint64_t(0x80), uint64_t(0xFF), uint64_t(1), r.next()})));
        }
        return d;
    }
    void step()
    {
        const size_t a = r.below(N);
        const size_t b = r.below(N);
        switch (r.below(14))
        {
        case 0:
        case 1:
        case 2:
        {
            size_t n = 0;
            std::vector<uint8_t> d = content(n);
            const size_t extra = r.chance(20) ? r.below(3) : 0;
            for (size_t j = 0; j < extra; ++j)
                d.push_back(static_cast<uint8_t>(r.next()));
            if (r.chance(8))
                n = d.size() * 8 + 1 + r.below(10);
            std::unique_ptr<B> p;
            const A al = makeAlloc<A>(r.below(2));
            const int how = static_cast<int>(r.below(3));
            const bool ok = vt::tryDo([&] {
                if (how == 0)
                    p = std::make_unique<B>(Span<const uint8_t>(d), n, al);
                else if (how == 1)
                    p = std::make_unique<B>(std::vector<uint8_t, A>(d.begin(), d.end(), al), n);
                else
                {
                    if (n == d.size() * 8)
                        p = r.chance(50) ? std::make_unique<B>(Span<const uint8_t>(d), al) : std::make_unique<B>(std::vector<uint8_t, A>(d.begin(), d.end(), al));
                    else
                        p = std::make_unique<B>(Span<const uint8_t>(d), n, al);
                }
            });
            if (ok)
                s[a] = std::move(p);
            vt::Ev(t, "New").i("s", a).i("n", n).a("data", vt::bytes(d)).b("ok", ok);
            break;
        }
        case 3:
        {
            const size_t n = r.below(30);
            s[a] = std::make_unique<B>(n, makeAlloc<A>(r.below(2)));
            vt::Ev(t, "Zero").i("s", a).i("n", n);
            break;
        }
        case 4:
        case 5:
            switch (r.below(3))
            {
            case 0: *s[b] = *s[a]; break;
            case 1: { auto c = std::make_unique<B>(*s[a]); s[b] = std::move(c); break; }
            default: { auto c = std::make_unique<B>(*s[a], makeAlloc<A>(r.below(2))); s[b] = std::move(c); break; }
            }
            vt::Ev(t, "Copy").i("s", a).i("t", b);
            show(a);
            break;
        case 6:
        case 7:
            switch (a == b ? 0 : r.below(3))
            {
            case 0: *s[b] = std::move(*s[a]); break;
            case 1: s[b] = std::make_unique<B>(std::move(*s[a])); break;
            default: s[b] = std::make_unique<B>(std::move(*s[a]), makeAlloc<A>(r.below(2))); break;
            }
            vt::Ev(t, "Move").i("s", a).i("t", b);
            show(a);
            hash(a);
            cmp(a, b);
            break;
        case 8:
            if (s[a]->getBitSize() > 0)
            {
                const size_t i = r.below(s[a]->getBitSize());
                const bool one = r.chance(50);
                uint8_t& x = r.chance(50) ? s[a]->getData()[i / 8] : s[a]->getBuffer()[i / 8];
                const uint8_t m = static_cast<uint8_t>(0x80 >> (i % 8));
                x = static_cast<uint8_t>(one ? (x | m) : (x & ~m));
                vt::Ev(t, "Set").i("s", a).i("i", static_cast<int64_t>(i + 1)).i("b", one);
            }
            break;
        case 9: hash(a); hash(b); break;
        default: break;
        }
        show(b);
        cmp(a, b);
        cmp(b, r.below(N));
        if (r.chance(40))
            hash(b);
    }
};
} // namespace

int main(int argc, char** argv)
{
    vt::Args a(argc, argv);
    vt::Trace tr(a.out);
    vt::Rng r(a.seed);
    auto run = [&](auto& p) {
        while (tr.size() < a.n)
            p.step();
    };
    if (a.mode == "pmr")
    {
        Pool<std::pmr::polymorphic_allocator<uint8_t>> p(tr, r);
        run(p);
    }
    else if (a.mode == "ppmr")
    {
        Pool<zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>> p(tr, r);
        run(p);
    }
    else
    {
        Pool<std::allocator<uint8_t>> p(tr, r);
        run(p);
    }
    vt::Ev(tr, "End");
    return 0;
}
