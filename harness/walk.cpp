// Walks through generated objects with every kind of filter.
#include "reflect.h"
#include "zserio/Walker.h"
#include "zserio/WalkerConst.h"

using namespace obj;
using zserio::IReflectableDataConstPtr;
namespace
{
vt::Trace* g_t = nullptr;
void call(const char* c, const IReflectableDataConstPtr& p, const zserio::FieldInfo* f, size_t idx, int ans)
{
    vt::Ev e(*g_t, ans < 0 ? "Tell" : "Ask");
    e.s("c", c);
    if (f)
    {
        const bool leaf = !p || (!(f->isArray && std::string_view(c).find("rray") != std::string_view::npos) && !zserio::TypeInfoUtil::isCompound(f->typeInfo.getSchemaType()));
        e.s("f", f->schemaName).i("idx", idx == zserio::WALKER_NOT_ELEMENT ? -1 : static_cast<int64_t>(idx));
        if (!leaf && std::string_view(c).find("rray") != std::string_view::npos)
            e.raw("v", std::to_string(p->isArray() ? static_cast<int>(p->size()) : -1));
        else if (!leaf)
            e.raw("v", std::string("\"") + std::string(p->getTypeInfo().getSchemaName().substr(p->getTypeInfo().getSchemaName().rfind('.') + 1)) + "\"");
        else
            e.raw("v", rnode(p, f->typeInfo));
    }
    if (ans >= 0)
        e.b("ans", ans != 0);
}
struct Observer : zserio::IWalkObserver
{
    void beginRoot(const IReflectableDataConstPtr& p) override { call("beginRoot", p, nullptr, 0, -1); }
    void endRoot(const IReflectableDataConstPtr& p) override { call("endRoot", p, nullptr, 0, -1); }
    void beginArray(const IReflectableDataConstPtr& p, const zserio::FieldInfo& f) override { call("beginArray", p, &f, zserio::WALKER_NOT_ELEMENT, -1); }
    void endArray(const IReflectableDataConstPtr& p, const zserio::FieldInfo& f) override { call("endArray", p, &f, zserio::WALKER_NOT_ELEMENT, -1); }
    void beginCompound(const IReflectableDataConstPtr& p, const zserio::FieldInfo& f, size_t i) override { call("beginCompound", p, &f, i, -1); }
    void endCompound(const IReflectableDataConstPtr& p, const zserio::FieldInfo& f, size_t i) override { call("endCompound", p, &f, i, -1); }
    void visitValue(const IReflectableDataConstPtr& p, const zserio::FieldInfo& f, size_t i) override { call("visitValue", p, &f, i, -1); }
};
// answers at will
struct Script : zserio::IWalkFilter
{
    Rng& g;
    unsigned yes;
    Script(Rng& r, unsigned y) : g(r), yes(y) {}
    bool a() { return g.chance(yes); }
    bool beforeArray(const IReflectableDataConstPtr&, const zserio::FieldInfo&) override { return a(); }
    bool afterArray(const IReflectableDataConstPtr&, const zserio::FieldInfo&) override { return a(); }
    bool beforeCompound(const IReflectableDataConstPtr&, const zserio::FieldInfo&, size_t) override { return a(); }
    bool afterCompound(const IReflectableDataConstPtr&, const zserio::FieldInfo&, size_t) override { return a(); }
    bool beforeValue(const IReflectableDataConstPtr&, const zserio::FieldInfo&, size_t) override { return a(); }
    bool afterValue(const IReflectableDataConstPtr&, const zserio::FieldInfo&, size_t) override { return a(); }
};
// records what the filter inside answers
struct Recorder : zserio::IWalkFilter
{
    zserio::IWalkFilter& in;
    explicit Recorder(zserio::IWalkFilter& f) : in(f) {}
#define VT_CALL(NAME, ARGS, IDX)                                                                                       \
    {                                                                                                                  \
        const bool r = in.NAME ARGS;                                                                                   \
        call(#NAME, p, &f, IDX, r ? 1 : 0);                                                                            \
        return r;                                                                                                      \
    }
    bool beforeArray(const IReflectableDataConstPtr& p, const zserio::FieldInfo& f) override VT_CALL(beforeArray, (p, f), zserio::WALKER_NOT_ELEMENT)
    bool afterArray(const IReflectableDataConstPtr& p, const zserio::FieldInfo& f) override VT_CALL(afterArray, (p, f), zserio::WALKER_NOT_ELEMENT)
    bool beforeCompound(const IReflectableDataConstPtr& p, const zserio::FieldInfo& f, size_t i) override VT_CALL(beforeCompound, (p, f, i), i)
    bool afterCompound(const IReflectableDataConstPtr& p, const zserio::FieldInfo& f, size_t i) override VT_CALL(afterCompound, (p, f, i), i)
    bool beforeValue(const IReflectableDataConstPtr& p, const zserio::FieldInfo& f, size_t i) override VT_CALL(beforeValue, (p, f, i), i)
    bool afterValue(const IReflectableDataConstPtr& p, const zserio::FieldInfo& f, size_t i) override VT_CALL(afterValue, (p, f, i), i)
};

struct Made
{
    std::unique_ptr<zserio::IWalkFilter> f;
    std::string text; // for the specification
    std::vector<Made> parts;
};
std::string quoted(const std::string& s)
{
    std::string q = "\"";
    for (char c : s)
    {
        if (c == '"' || c == '\\')
            q += '\\';
        q += c;
    }
    return q + "\"";
}
Made make(Rng& g, const std::vector<std::string>& paths, int deep = 0)
{
    Made m;
    switch (g.below(deep > 1 ? 5 : 7))
    {
    case 0: m.f = std::make_unique<zserio::DefaultWalkFilter>(); m.text = "[\"all\"]"; break;
    case 1: m.f = std::make_unique<Script>(g, g.pick<unsigned>({50, 80, 95})); m.text = "[\"script\"]"; break;
    case 2:
    {
        const size_t n = g.below(5);
        m.f = std::make_unique<zserio::DepthWalkFilter>(n);
        m.text = "[\"depth\"," + std::to_string(n) + "]";
        break;
    }
    case 3:
    {
        const size_t n = g.below(4);
        m.f = std::make_unique<zserio::ArrayLengthWalkFilter>(n);
        m.text = "[\"len\"," + std::to_string(n) + "]";
        break;
    }
    case 4:
    case 5:
    {
        // a path of the object, parts of which are replaced by patterns
        std::string p = paths.empty() ? "x" : paths[g.below(paths.size())], re, atoms, lit;
        auto flush = [&] {
            if (lit.empty())
                return;
            for (char c : lit)
            {
                if (std::string_view(".[]").find(c) != std::string_view::npos)
                    re += '\\';
                re += c;
            }
            atoms += (atoms.empty() ? "" : ",") + std::string("[\"lit\",") + quoted(lit) + "]";
            lit.clear();
        };
        auto atom = [&](const char* a, const char* r) {
            flush();
            re += r;
            atoms += (atoms.empty() ? "" : ",") + std::string("[\"") + a + "\"]";
        };
        size_t i = 0;
        if (g.chance(25))
        {
            atom("any", ".*");
            i = g.below(p.size());
        }
        const unsigned change = g.pick<unsigned>({0, 10, 30});
        while (i < p.size())
        {
            if (isdigit(static_cast<unsigned char>(p[i])) && g.chance(50))
            {
                atom("num", "[0-9]+");
                ++i;
            }
            else if (p[i] != '.' && g.chance(change))
            {
                atom("seg", "[^.]*");
                while (i < p.size() && p[i] != '.')
                    ++i;
            }
            else
                lit += p[i++];
        }
        if (g.chance(10) && !lit.empty())
            lit += g.pick<char>({'x', ']', '.', '0'});
        flush();
        if (g.chance(20))
            atom("any", ".*");
        m.f = std::make_unique<zserio::RegexWalkFilter>(re.c_str());
        m.text = "[\"re\",[" + atoms + "]]";
        break;
    }
    default:
    {
        zserio::AndWalkFilter::WalkFilters fs;
        std::string s;
        for (size_t n = g.below(4); n > 0; --n)
        {
            m.parts.push_back(make(g, paths, deep + 1));
            s += (s.empty() ? "" : ",") + m.parts.back().text;
        }
        for (auto& p : m.parts)
            fs.push_back(std::ref(*p.f));
        m.f = std::make_unique<zserio::AndWalkFilter>(fs);
        m.text = "[\"and\",[" + s + "]]";
    }
    }
    return m;
}
// the paths of an object, to make patterns of
void pathsOf(const IReflectableDataConstPtr& p, const zserio::ITypeInfo& info, const std::string& at, std::vector<std::string>& out)
{
    if (!p || !zserio::TypeInfoUtil::isCompound(info.getSchemaType()))
        return;
    auto field = [&](const zserio::FieldInfo& f) {
        const std::string name = (at.empty() ? "" : at + ".") + std::string(f.schemaName);
        const auto x = p->getField(f.schemaName);
        out.push_back(name);
        if (x && f.isArray)
            for (size_t i = 0; i < x->size(); ++i)
            {
                out.push_back(name + "[" + std::to_string(i) + "]");
                pathsOf(x->at(i), f.typeInfo, std::string(out.back()), out);
            }
        else
            pathsOf(x, f.typeInfo, name, out);
    };
    const bool choice = zserio::TypeInfoUtil::hasChoice(info.getSchemaType());
    for (const auto& f : info.getFields())
        if (!choice || p->getChoice() == f.schemaName)
            field(f);
}
template <typename T>
void one(vt::Trace& t, Rng& g)
{
    T a;
    Gen gen{g, 0, g.chance(10) ? size_t(12) : size_t(4)};
    gen(a);
    typename Par<T>::type par;
    gen(par);
    if (g.chance(85))
        gen.fix(a, par);
    const IReflectableDataConstPtr root = g.chance(50) ? zserio::reflectable(std::as_const(a)) : IReflectableDataConstPtr(zserio::reflectable(a));
    std::vector<std::string> paths;
    pathsOf(root, root->getTypeInfo(), "", paths);
    Observer ob;
    Made m = make(g, paths);
    Recorder rec(*m.f);
    const bool none = g.chance(8); // a walker without any filter
    zserio::Walker w1(ob);
    zserio::Walker w2(ob, rec);
    zserio::Walker& w = none ? w1 : w2;
    vt::Ev(t, "Filter").raw("f", none ? "[\"none\"]" : m.text);
    for (size_t k = 1 + g.below(2); k > 0; --k)
    {
        vt::Ev(t, "Start").s("t", Shape<T>::name).raw("v", node(a));
        w.walk(root);
    }
    if (g.chance(15))
    {
        int refused = 0;
        try
        {
            w.walk(nullptr);
        }
        catch (const zserio::CppRuntimeException&)
        {
            ++refused;
        }
        try
        {
            w.walk(zserio::reflectable(CreatorEnum::ONE));
        }
        catch (const zserio::CppRuntimeException&)
        {
            ++refused;
        }
        vt::Ev(t, "NoObject").i("refused", refused);
    }
}
} // namespace
int main(int argc, char** argv)
{
    vt::Args args(argc, argv);
    vt::Trace t(args.out);
    g_t = &t;
    Rng g(args.seed);
    while (t.size() < args.n)
    {
        size_t i = g.below(NTYPES);
        if (g.chance(40))
            i = 3;
        else if (g.chance(20))
            i = 1;
        withType(i, [&](auto T) { one<typename decltype(T)::type>(t, g); });
    }
    vt::Ev(t, "End");
    return 0;
}
