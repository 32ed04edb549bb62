// Spans and array views: windows over one sequence, iterators over views.
#include <zserio/ArrayView.h>
#include <zserio/Span.h>
#include <zserio/Types.h>
#include <zserio/Vector.h>
#include <memory>
#include <optional>

#include "trace.h"

using namespace zserio;
using vt::Ints;

struct DynOwner
{
    uint8_t base = 1;
    uint8_t period = 1;
};
struct DynTraits
{
    using OwnerType = DynOwner;
    static View<DynInt32> at(const DynOwner& o, const DynInt32& e, size_t i)
    {
        return View<DynInt32>(e, static_cast<uint8_t>(o.base + i % o.period));
    }
};
using AV = ArrayView<const DynInt32, DynTraits>;
using It = AV::ConstIterator;

static Ints elem(const View<DynInt32>& v) { return Ints{static_cast<int>(static_cast<int32_t>(v)), v.numBits()}; }
static int val(const DynInt32& v) { return static_cast<int32_t>(v); }

template <typename S>
void seen(vt::Ev& e, const S& s, const DynInt32* base)
{
    Ints idx, fwd, rev, fb;
    for (size_t i = 0; i < s.size(); ++i)
        idx.push_back(val(s[i]));
    for (auto& x : s)
        fwd.push_back(val(x));
    for (auto i = s.rbegin(); i != s.rend(); ++i)
        rev.push_back(val(*i));
    if (s.size() > 0)
        fb = Ints{val(s.front()), val(s.back())};
    e.i("size", static_cast<int64_t>(s.size())).i("bytes", static_cast<int64_t>(s.size_bytes())).b("empty", s.empty()).i("esz", sizeof(DynInt32))
            .i("off", s.data() - base).a("idx", idx).a("fwd", fwd).a("rev", rev).i("dist", s.end() - s.begin()).a("fb", fb);
}

template <size_t N>
bool fixedKind(vt::Rng& r, Span<DynInt32>& s, Span<DynInt32>& d, std::string& k, int& o, int& n)
{
    if (N > s.size())
        return false;
    switch (r.below(4))
    {
    case 0: { auto x = s.template first<N>(); d = x; k = "first"; n = N; break; }
    case 1: { auto x = s.template last<N>(); d = x; k = "last"; n = N; break; }
    case 2: { auto x = s.template subspan<N>(); d = x; k = "sub"; o = N; n = -1; break; }
    default: {
        // fixed extents nested in each other
        constexpr size_t H = N / 2;
        Span<DynInt32, N> a(s.data(), N);
        auto b = a.template subspan<H>();
        auto c = r.chance(50) ? Span<DynInt32>(b) : Span<DynInt32>(a.template subspan<H, N - H>());
        d = c;
        k = "sub";
        o = H;
        n = N - H;
    }
    }
    return true;
}

int main(int argc, char** argv)
{
    const vt::Args a(argc, argv);
    vt::Trace t(a.out);
    vt::Rng r(a.seed);
    Vector<DynInt32> v;
    Span<DynInt32> w[3];
    DynOwner own;
    std::unique_ptr<AV> av;
    std::vector<It> it;
    size_t pos[3] = {0, 0, 0};
    size_t vn = 0;
    int life = 0;
    while (t.size() < a.n)
    {
        if (life-- <= 0)
        {
            life = 60;
            v.clear();
            for (size_t i = r.below(9); i > 0; --i)
                v.push_back(DynInt32(static_cast<int32_t>(r.range(-1000, 1000))));
            v.shrink_to_fit();
            own = DynOwner{static_cast<uint8_t>(1 + r.below(20)), static_cast<uint8_t>(1 + r.below(5))};
            w[0] = Span<DynInt32>(v);
            w[1] = Span<DynInt32>(v.data(), v.size());
            w[2] = Span<DynInt32>(v.data(), v.data() + v.size());
            Ints b;
            for (auto& x : v)
                b.push_back(val(x));
            {
                vt::Ev e(t, "Base");
                e.a("v", b);
                const Vector<DynInt32>& cv = v;
                Span<const DynInt32> cs(cv);
                Span<const DynInt32> cw(w[r.below(3)]);
                r.chance(50) ? seen(e, cs, v.data()) : seen(e, cw, v.data());
            }
            for (int s = 1; s < 3; ++s)
            {
                vt::Ev e(t, "Derive");
                e.i("s", s).i("d", s).s("k", "copy").i("o", 0).i("n", 0);
                seen(e, w[s], v.data());
            }
            av = std::make_unique<AV>(Span<const DynInt32>(w[0]), own);
            vn = w[0].size();
            it.assign(3, av->begin());
            std::fill(pos, pos + 3, 0);
        }
        const int s = static_cast<int>(r.below(3)), d = static_cast<int>(r.below(3));
        auto atOf = [&](int64_t i) -> Ints {
            try
            {
                return elem(av->at(static_cast<size_t>(i)));
            }
            catch (const std::exception&)
            {
                return {};
            }
        };
        switch (r.below(10))
        {
        case 0:
        case 1: {
            Span<DynInt32> x = w[s];
            std::string k;
            int o = 0, n = 0;
            const int sz = static_cast<int>(x.size());
            switch (r.below(6))
            {
            case 0: k = "copy"; w[d] = x; break;
            case 1: k = "first"; n = static_cast<int>(r.below(sz + 1)); w[d] = x.first(n); break;
            case 2: k = "last"; n = static_cast<int>(r.below(sz + 1)); w[d] = x.last(n); break;
            case 3:
                k = "sub";
                o = static_cast<int>(r.below(sz + 1));
                n = r.chance(30) ? -1 : static_cast<int>(r.below(sz - o + 1));
                w[d] = n == -1 ? x.subspan(o) : x.subspan(o, n);
                break;
            default: {
                Span<DynInt32> y = w[d];
                bool ok = false;
                switch (r.below(5))
                {
                case 0: ok = fixedKind<0>(r, x, y, k, o, n); break;
                case 1: ok = fixedKind<1>(r, x, y, k, o, n); break;
                case 2: ok = fixedKind<2>(r, x, y, k, o, n); break;
                case 3: ok = fixedKind<3>(r, x, y, k, o, n); break;
                default: ok = fixedKind<5>(r, x, y, k, o, n); break;
                }
                if (!ok)
                    continue;
                w[d] = y;
            }
            }
            vt::Ev e(t, "Derive");
            e.i("s", s).i("d", d).s("k", k).i("o", o).i("n", n);
            seen(e, w[d], v.data());
            break;
        }
        case 2: {
            if (w[s].empty())
                continue;
            const size_t i = r.below(w[s].size());
            const int x = static_cast<int>(r.range(-1000, 1000));
            switch (r.below(4))
            {
            case 0: w[s][i] = DynInt32(x); break;
            case 1: *(w[s].begin() + i) = DynInt32(x); break;
            case 2: *(w[s].rbegin() + (w[s].size() - 1 - i)) = DynInt32(x); break;
            default: w[s].data()[i] = DynInt32(x);
            }
            Ints all;
            for (auto& y : v)
                all.push_back(val(y));
            vt::Ev(t, "Assign").i("s", s).i("i", static_cast<int64_t>(i)).i("v", x).a("all", all);
            break;
        }
        case 3: {
            if (!r.chance(40))
                continue;
            av = std::make_unique<AV>(Span<const DynInt32>(w[s]), own);
            vn = w[s].size();
            if (r.chance(50))
            {
                AV copy(*av);
                *av = copy;
            }
            it.assign(3, r.chance(50) ? av->begin() : av->cbegin());
            std::fill(pos, pos + 3, 0);
            vt::Ev(t, "View").i("s", s).i("size", static_cast<int64_t>(av->size())).b("empty", av->empty());
            break;
        }
        case 4: {
            std::vector<Ints> fwd, rev, idx, jump(vn);
            for (auto x : *av)
                fwd.push_back(elem(x));
            for (auto i = av->rbegin(); i != av->rend(); ++i)
                rev.push_back(elem(*i));
            for (size_t i = 0; i < av->size(); ++i)
                idx.push_back(elem((*av)[i]));
            if (vn > 0)
            {
                // jumps by a stride that reaches every element once
                auto i = av->begin();
                size_t p = 0;
                for (size_t k = 0; k < vn; ++k)
                {
                    jump[p] = elem(*i);
                    const size_t q = (p + vn - 1) % vn;
                    i += static_cast<ptrdiff_t>(q) - static_cast<ptrdiff_t>(p);
                    p = q;
                }
            }
            Ints front, back;
            vt::tryDo([&] { front = elem(av->front()); });
            vt::tryDo([&] { back = elem(av->back()); });
            vt::Ev(t, "All").i("pb", own.base).i("pp", own.period).aa("fwd", fwd).aa("rev", rev).aa("idx", idx).aa("jump", jump).a("front", front).a("back", back);
            break;
        }
        case 5: {
            const int64_t i = r.range(0, static_cast<int64_t>(vn) + 2);
            vt::Ev(t, "At").i("pb", own.base).i("pp", own.period).i("i", i).a("r", atOf(i));
            break;
        }
        case 6:
        case 7:
        case 8: {
            static const char* K[] = {"inc", "dec", "pinc", "pdec", "pe", "me", "plus", "rplus", "minus"};
            const std::string k = K[r.below(9)];
            int64_t by = static_cast<int64_t>(r.below(vn + 1)) - static_cast<int64_t>(pos[s]);
            if (k == "inc" || k == "pinc")
                by = 1;
            if (k == "dec" || k == "pdec")
                by = -1;
            const int64_t q = static_cast<int64_t>(pos[s]) + by;
            if (q < 0 || q > static_cast<int64_t>(vn))
                continue;
            It x = it[s];
            It ret = x;
            int dd = d;
            if (k == "inc") { ret = ++x; }
            else if (k == "dec") { ret = --x; }
            else if (k == "pinc") { ret = x++; }
            else if (k == "pdec") { ret = x--; }
            else if (k == "pe") { ret = (x += by); }
            else if (k == "me") { ret = (x -= -by); }
            else if (k == "plus") { x = x + by; ret = x; }
            else if (k == "rplus") { x = by + x; ret = x; }
            else { x = x - (-by); ret = x; }
            it[dd] = x;
            pos[dd] = static_cast<size_t>(q);
            Ints star, arrow, sub;
            vt::tryDo([&] { star = elem(*x); });
            vt::tryDo([&] { arrow = Ints{val(x->value()), x->numBits()}; });
            const int64_t j = r.range(-static_cast<int64_t>(vn) - 1, static_cast<int64_t>(vn) + 1);
            vt::tryDo([&] { sub = elem(x[j]); });
            vt::Ev(t, "Move").i("pb", own.base).i("pp", own.period).i("s", s).i("d", dd).s("k", k).i("by", by).a("star", star).a("arrow", arrow)
                    .i("ret", ret - av->begin()).i("j", j).a("sub", sub);
            break;
        }
        default: {
            const It &x = it[s], &y = it[d];
            std::string rel = "[";
            for (bool b : {x == y, x != y, x < y, x <= y, x > y, x >= y})
                rel += std::string(rel.size() > 1 ? "," : "") + (b ? "true" : "false");
            vt::Ev(t, "Cmp").i("s", s).i("d", d).i("diff", x - y).raw("rel", rel + "]");
        }
        }
    }
    vt::Ev(t, "End");
    return 0;
}
