// Generated objects with polymorphic allocators: which resource does their memory come from, is all of it returned?
// mode: pmr | ppmr
#include <map>
#include <memory_resource>

#include "trace.h"
#include "zserio/SerializeUtil.h"
#include "zserio/JsonReader.h"
#include "test_object/pmr_allocator/CreatorObject.h"
#include "test_object/pmr_allocator/ReflectableObject.h"
#include "test_object/pmr_allocator/ReflectableUtilObject.h"
#include "test_object/pmr_allocator/WalkerObject.h"
#include "test_object/ppmr_allocator/CreatorObject.h"
#include "test_object/ppmr_allocator/ReflectableObject.h"
#include "test_object/ppmr_allocator/ReflectableUtilObject.h"
#include "test_object/ppmr_allocator/WalkerObject.h"
#include "zserio/pmr/BitBuffer.h"
#include "zserio/ppmr/BitBuffer.h"

static long g_bad = 0;
struct Resource : std::pmr::memory_resource
{
    std::map<void*, std::pair<size_t, size_t>> blocks;
    void* do_allocate(size_t n, size_t a) override
    {
        void* p = ::operator new(n, std::align_val_t(a));
        blocks[p] = {n, a};
        return p;
    }
    void do_deallocate(void* p, size_t n, size_t a) override
    {
        auto it = blocks.find(p);
        if (it == blocks.end() || it->second != std::make_pair(n, a))
        {
            ++g_bad;
            return;
        }
        blocks.erase(it);
        ::operator delete(p, std::align_val_t(a));
    }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
static Resource g_res[3]; // 0: default

static std::string longText(vt::Rng& g) { return std::string(20 + g.below(60), static_cast<char>('a' + g.below(26))); }

template <typename A, bool PROP>
struct World
{
    static constexpr int NS = 4;
    vt::Trace& t;
    vt::Rng g;
    explicit World(vt::Trace& tr, uint64_t seed) : t(tr), g(seed) {}

    void show(vt::Ev& e)
    {
        e.a("blk", vt::Ints{static_cast<int>(g_res[0].blocks.size()), static_cast<int>(g_res[1].blocks.size()), static_cast<int>(g_res[2].blocks.size())});
        e.i("bad", g_bad);
    }
    template <typename T, typename FILL, typename GET>
    void life(const char* name, FILL&& fill, GET&& get)
    {
        std::unique_ptr<T> s[NS];
        {
            vt::Ev e(t, "Begin");
            e.s("c", name).b("prop", PROP);
            show(e);
        }
        const size_t len = 6 + g.below(20);
        for (size_t i = 0; i < len; ++i)
        {
            const size_t a = g.below(NS), b = g.below(NS);
            const int r = static_cast<int>(g.below(3));
            const A al(&g_res[r]);
            std::string op = g.pick<std::string>({"New", "New", "Read", "CopyC", "CopyCA", "CopyCA", "MoveC", "MoveCA", "CopyA", "MoveA", "Drop", "Refill"});
            if (op == "New")
            {
                s[a] = std::make_unique<T>(al);
                fill(*s[a]);
            }
            else if (op == "Drop")
                s[a].reset();
            else if (op == "Refill")
            {
                if (!s[a])
                    continue;
                fill(*s[a]);
            }
            else if (!s[a])
                continue;
            else if (op == "Read")
            {
                if (!get(*s[a], al, s[b], a == b))
                    continue;
            }
            else if (op == "CopyC")
                s[b] = std::make_unique<T>(*s[a]);
            else if (op == "CopyCA")
                s[b] = std::make_unique<T>(*s[a], al);
            else if (op == "MoveC")
                s[b] = std::make_unique<T>(std::move(*s[a]));
            else if (op == "MoveCA")
                s[b] = std::make_unique<T>(std::move(*s[a]), al);
            else
            {
                if (!s[b])
                    continue;
                if (op == "CopyA")
                    *s[b] = *s[a];
                else
                    *s[b] = std::move(*s[a]);
            }
            vt::Ev e(t, op.c_str());
            e.i("s", static_cast<int64_t>(a)).i("t", static_cast<int64_t>(b)).i("r", r);
            // a copy made of the same content is the same content
            e.b("eq", (op == "CopyC" || op == "CopyCA" || op == "Read") ? *s[a] == *s[b] : true);
            show(e);
        }
        for (auto& x : s)
            x.reset();
        vt::Ev e(t, "Gone");
        show(e);
    }
};

#define OBJECTS(NS_, STRING)                                                                                              \
    template <typename W, typename A>                                                                                      \
    static void run_##NS_(W& w)                                                                                            \
    {                                                                                                                      \
        using namespace test_object::NS_;                                                                                  \
        vt::Rng& g = w.g;                                                                                                  \
        auto fillUnion = [&](WalkerUnion& u) {                                                                             \
            switch (g.below(4))                                                                                            \
            {                                                                                                              \
            case 0: u.template emplace<WalkerUnion::Tag::value>(zserio::UInt32(7)); break;                                 \
            case 1: u.template emplace<WalkerUnion::Tag::text>(longText(g).c_str()); break;                                \
            case 2: {                                                                                                      \
                auto& v = u.template emplace<WalkerUnion::Tag::nestedArray>();                                             \
                for (size_t i = g.below(4); i > 0; --i)                                                                    \
                {                                                                                                          \
                    v.emplace_back();                                                                                      \
                    v.back().text = longText(g);                                                                           \
                }                                                                                                          \
                break;                                                                                                     \
            }                                                                                                              \
            default: u.template emplace<WalkerUnion::Tag::text>("short"); break;                                           \
            }                                                                                                              \
        };                                                                                                                 \
        auto none = [](auto&, const A&, auto&, bool) { return false; };                                                    \
        w.template life<WalkerUnion>("WalkerUnion", fillUnion, none);                                                      \
        w.template life<WalkerObject>("WalkerObject", [&](WalkerObject& o) {                                               \
            o.identifier = static_cast<uint32_t>(g.below(2));                                                              \
            if (o.identifier != 0)                                                                                         \
                o.nested.emplace().text = longText(g);                                                                     \
            else                                                                                                           \
                o.nested.reset();                                                                                          \
            o.text = longText(g);                                                                                          \
            o.unionArray.clear();                                                                                          \
            for (size_t i = g.below(4); i > 0; --i)                                                                        \
                fillUnion(o.unionArray.emplace_back());                                                                    \
            if (g.chance(50))                                                                                              \
            {                                                                                                              \
                o.optionalUnionArray.emplace();                                                                            \
                for (size_t i = g.below(3); i > 0; --i)                                                                    \
                    fillUnion(o.optionalUnionArray->emplace_back());                                                       \
            }                                                                                                              \
            else                                                                                                           \
                o.optionalUnionArray.reset();                                                                              \
            o.choiceSelector = 8;                                                                                          \
            o.choiceField.template emplace<WalkerChoice::Tag::value8>(zserio::UInt8(1));                                   \
        }, [](const WalkerObject& o, const A& al, std::unique_ptr<WalkerObject>& x, bool) {                                \
            if (o.identifier > 1 || o.text.empty()) /* moved away */                                                       \
                return false;                                                                                              \
            bool valid = true;                                                                                             \
            for (const auto& u : o.unionArray)                                                                             \
                valid = valid && !u.valueless_by_exception() && u.index() != WalkerUnion::Tag::ZSERIO_UNDEFINED;           \
            if (o.optionalUnionArray)                                                                                      \
                for (const auto& u : *o.optionalUnionArray)                                                                \
                    valid = valid && !u.valueless_by_exception() && u.index() != WalkerUnion::Tag::ZSERIO_UNDEFINED;       \
            if (!valid || o.choiceField.valueless_by_exception() || (o.identifier != 0) != o.nested.has_value())           \
                return false;                                                                                              \
            auto buffer = zserio::serialize(o, al);                                                                        \
            auto y = std::make_unique<WalkerObject>(al);                                                                   \
            zserio::deserialize(buffer, *y);                                                                               \
            if (!(*y == o))                                                                                                \
                throw std::runtime_error("not equal");                                                                     \
            x = std::make_unique<WalkerObject>(std::move(*y));                                                             \
            return &o != nullptr;                                                                                          \
        });                                                                                                                \
        auto fillNested = [&](CreatorNested& n) {                                                                          \
            n.value = 3;                                                                                                   \
            n.text = longText(g);                                                                                          \
            n.bytesData.resize(g.below(50));                                                                               \
            n.externData = STRING(40 + g.below(9), n.text.get_allocator());                                                \
        };                                                                                                                 \
        w.template life<CreatorObject>("CreatorObject", [&](CreatorObject& o) {                                            \
            o.value = 5;                                                                                                   \
            fillNested(o.nested);                                                                                          \
            o.text = longText(g);                                                                                          \
            o.nestedArray.clear();                                                                                         \
            o.textArray.clear();                                                                                           \
            for (size_t i = g.below(3); i > 0; --i)                                                                        \
                fillNested(o.nestedArray.emplace_back());                                                                  \
            for (size_t i = g.below(3); i > 0; --i)                                                                        \
                o.textArray.emplace_back(longText(g).c_str());                                                             \
            if (g.chance(50))                                                                                              \
            {                                                                                                              \
                o.externArray.emplace();                                                                                   \
                for (size_t i = g.below(3); i > 0; --i)                                                                    \
                    o.externArray->emplace_back(STRING(40 + g.below(9), o.text.get_allocator()));                          \
                o.bytesArray.emplace().emplace_back().resize(30);                                                          \
            }                                                                                                              \
            else                                                                                                           \
            {                                                                                                              \
                o.externArray.reset();                                                                                     \
                o.bytesArray.reset();                                                                                      \
            }                                                                                                              \
            if (g.chance(50))                                                                                              \
                fillNested(o.optionalNested.emplace());                                                                    \
            else                                                                                                           \
                o.optionalNested.reset();                                                                                  \
        }, none);                                                                                                          \
        w.template life<ReflectableObject>("ReflectableObject", [&](ReflectableObject& o) {                                \
            o.stringField = longText(g);                                                                                   \
            o.reflectableNested.value = 3;                                                                                 \
            o.reflectableEnum = ReflectableEnum::VALUE1;                                                                   \
            o.reflectableChoice.template emplace<ReflectableChoice::Tag::valueStr>(longText(g).c_str());                   \
            if (g.chance(60))                                                                                              \
                o.reflectableUnion.template emplace<ReflectableUnion::Tag::valueStr>(longText(g).c_str());                 \
            else                                                                                                           \
                o.reflectableUnion.template emplace<ReflectableUnion::Tag::value32>(zserio::UInt32(4));                    \
        }, none);                                                                                                          \
    }
OBJECTS(pmr_allocator, zserio::pmr::BitBuffer)
OBJECTS(ppmr_allocator, zserio::ppmr::BitBuffer)

int main(int argc, char** argv)
{
    vt::Args args(argc, argv);
    vt::Trace t(args.out);
    std::pmr::set_default_resource(&g_res[0]);
    if (args.mode == "pmr")
    {
        World<std::pmr::polymorphic_allocator<uint8_t>, false> w(t, args.seed);
        while (t.size() < args.n)
            run_pmr_allocator<decltype(w), std::pmr::polymorphic_allocator<uint8_t>>(w);
    }
    else
    {
        World<zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>, true> w(t, args.seed);
        while (t.size() < args.n)
            run_ppmr_allocator<decltype(w), zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>>(w);
    }
    vt::Ev(t, "End");
    return 0;
}
