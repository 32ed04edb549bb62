// Objects built call by call with the tree creator, legally and illegally.
#include "reflect.h"
#include "zserio/ZserioTreeCreator.h"

using namespace obj;
using zserio::Any;
namespace
{
struct Builder
{
    vt::Trace& t;
    std::unique_ptr<zserio::ZserioTreeCreator> c;
    std::function<std::string(const zserio::IReflectableDataPtr&)> tree;

    explicit Builder(vt::Trace& tr) : t(tr) {}
    template <typename T>
    void start()
    {
        c = std::make_unique<zserio::ZserioTreeCreator>(zserio::typeInfo<T>());
        tree = [](const zserio::IReflectableDataPtr& p) {
            return node(p->getAnyValue().template get<std::reference_wrapper<T>>().get());
        };
        info = &zserio::typeInfo<T>();
        vt::Ev(t, "Root").s("t", Shape<T>::name);
    }
    const zserio::ITypeInfo* info = nullptr;
    // calls f and reports what came out
    template <typename F>
    bool call(const char* op, const std::string& name, const std::string& val, F&& f)
    {
        bool ok = true;
        std::string res = "\"\"", refl = "\"\"";
        try
        {
            f(res, refl);
        }
        catch (const zserio::CppRuntimeException&)
        {
            ok = false;
        }
        vt::Ev(t, "Call").s("op", op).s("n", name).raw("v", val.empty() ? "[]" : val).b("ok", ok).raw("res", res).raw("refl", refl);
        return ok;
    }
    bool beginRoot() { return call("beginRoot", "", "", [&](auto&, auto&) { c->beginRoot(); }); }
    bool endRoot()
    {
        return call("endRoot", "", "", [&](auto& res, auto& refl) {
            auto p = c->endRoot();
            res = tree(p);
            refl = rnode(p, *info);
        });
    }
    bool beginArray(const std::string& n) { return call("beginArray", n, "", [&](auto&, auto&) { c->beginArray(zserio::String(n)); }); }
    bool endArray() { return call("endArray", "", "", [&](auto&, auto&) { c->endArray(); }); }
    bool beginCompound(const std::string& n) { return call("beginCompound", n, "", [&](auto&, auto&) { c->beginCompound(zserio::String(n)); }); }
    bool endCompound() { return call("endCompound", "", "", [&](auto&, auto&) { c->endCompound(); }); }
    bool beginCompoundElement() { return call("beginCompoundElement", "", "", [&](auto&, auto&) { c->beginCompoundElement(); }); }
    bool endCompoundElement() { return call("endCompoundElement", "", "", [&](auto&, auto&) { c->endCompoundElement(); }); }
    bool getFieldType(const std::string& n)
    {
        return call("getFieldType", n, "", [&](auto& r, auto&) { r = "\"" + tname(c->getFieldType(zserio::String(n))) + "\""; });
    }
    bool getElementType()
    {
        return call("getElementType", "", "", [&](auto& r, auto&) { r = "\"" + tname(c->getElementType()) + "\""; });
    }
    template <typename V>
    bool give(bool add, const std::string& n, const std::string& val, V&& v)
    {
        return call(add ? "addValueElement" : "setValue", n, val, [&](auto&, auto&) {
            if (add)
                c->addValueElement(std::forward<V>(v));
            else
                c->setValue(zserio::String(n), std::forward<V>(v));
        });
    }
    static std::string wide(bool neg, uint64_t v) { return std::string("[\"int\",") + (neg ? "true," : "false,") + ints(vt::bits(v, 64)) + "]"; }
    static std::string own(const std::string& type, const std::string& v) { return "[\"obj\",\"" + type + "\"," + v + "]"; }
    bool giveNull(bool add, const std::string& n) { return give(add, n, "[\"null\"]", nullptr); }
    bool giveBool(bool add, const std::string& n, bool v) { return give(add, n, v ? "[\"bool\",true]" : "[\"bool\",false]", v); }
    bool giveStr(bool add, const std::string& n, const std::string& s, unsigned form)
    {
        const std::string val = "[\"str\"," + ints(vt::chars(s)) + "]";
        zserio::String z(s);
        switch (s.find('\0') != std::string::npos ? form % 3 : form % 4)
        {
        case 0: return give(add, n, val, z);
        case 1: return give(add, n, val, std::move(z));
        case 2: return give(add, n, val, std::string_view(s));
        default: return give(add, n, val, s.c_str());
        }
    }
    // an integer in any C++ type which can hold it
    bool giveInt(bool add, const std::string& n, bool neg, uint64_t v, unsigned form)
    {
        const std::string val = wide(neg, v);
        const int64_t s = static_cast<int64_t>(v);
#define VT_AS(T)                                                                                                       \
    {                                                                                                                  \
        const T x = static_cast<T>(v);                                                                                 \
        if (static_cast<uint64_t>(static_cast<int64_t>(x)) == v || (!neg && static_cast<uint64_t>(x) == v))            \
            return give(add, n, val, x);                                                                               \
        break;                                                                                                         \
    }
        if (neg)
        {
            switch (form % 5)
            {
            case 0: if (s >= INT8_MIN) return give(add, n, val, static_cast<int8_t>(s)); break;
            case 1: if (s >= INT16_MIN) return give(add, n, val, static_cast<int16_t>(s)); break;
            case 2: if (s >= INT32_MIN) return give(add, n, val, static_cast<int32_t>(s)); break;
            case 3: if (s >= INT32_MIN) return give(add, n, val, zserio::Int32(static_cast<int32_t>(s))); break;
            }
            return form % 2 ? give(add, n, val, s) : give(add, n, val, zserio::Int64(s));
        }
        switch (form % 8)
        {
        case 0: if (v <= UINT8_MAX) return give(add, n, val, static_cast<uint8_t>(v)); break;
        case 1: if (v <= INT16_MAX) return give(add, n, val, static_cast<int16_t>(v)); break;
        case 2: if (v <= UINT32_MAX) return give(add, n, val, static_cast<uint32_t>(v)); break;
        case 3: if (v <= INT64_MAX) return give(add, n, val, static_cast<int64_t>(v)); break;
        case 4: if (v <= UINT32_MAX) return give(add, n, val, zserio::UInt32(static_cast<uint32_t>(v))); break;
        case 5: if (v <= INT8_MAX) return give(add, n, val, static_cast<int8_t>(v)); break;
        case 6: if (v <= UINT16_MAX) return give(add, n, val, static_cast<uint16_t>(v)); break;
        }
        return form % 3 ? give(add, n, val, v) : give(add, n, val, zserio::UInt64(v));
    }
    bool giveDouble(bool add, const std::string& n, double d, bool single) { return single ? give(add, n, "[\"dbl\"]", static_cast<float>(d)) : give(add, n, "[\"dbl\"]", d); }
    template <typename T>
    bool giveAny(bool add, const std::string& n, const std::string& type, const T& v) { return give(add, n, own(type, node(v)), Any(v)); }
    template <typename T>
    bool giveOwn(bool add, const std::string& n, const std::string& type, const T& v) { return give(add, n, own(type, node(v)), v); }
};

struct Level
{
    const zserio::ITypeInfo* info;
    bool arr;
    bool element;
};
struct Driver
{
    vt::Trace& t;
    Rng& g;
    Builder b;
    std::vector<Level> levels;
    Gen gen;
    Driver(vt::Trace& tr, Rng& r) : t(tr), g(r), b(tr), gen{r, 0} {}

    std::string fieldName(bool good)
    {
        static const std::vector<std::string> other = {"", "value", "text", "nested", "nestedArray", "unionArray", "valu", "values", "choiceField",
                "creatorEnum", "optionalBool", "Value", "externArray", "identifier", "value32", "x.y"};
        if (!good || levels.empty() || !zserio::TypeInfoUtil::isCompound(levels.back().info->getCppType()))
            return g.pick(other);
        const auto f = levels.back().info->getFields();
        return std::string(f[g.below(f.size())].schemaName);
    }
    static const zserio::FieldInfo* field(const zserio::ITypeInfo& info, const std::string& n)
    {
        for (const auto& f : info.getFields())
            if (f.schemaName == n)
                return &f;
        return nullptr;
    }
    std::string maskText()
    {
        static const std::vector<std::string> part = {"READ", "WRITE", "CREATE", "ZERO", " ", "|", " | ", "REA", "READER", "||", "read", "1"};
        std::string s;
        for (size_t k = 1 + g.below(4); k > 0; --k)
            s += (g.chance(60) ? g.pick<const char*>({"READ", "WRITE", "ZERO", "CREATE"}) : g.pick(part).c_str()) + std::string(g.chance(60) && k > 1 ? g.pick<const char*>({" | ", "|", " "}) : "");
        return s;
    }
    std::string numText()
    {
        return std::string(g.chance(20) ? "00" : "") + std::to_string(g.chance(70) ? g.below(10) : g.chance(50) ? g.range(250, 260) : g.magnitude(26)) +
                g.pick<const char*>({"", "", " ", " /* READ */", "x", "."});
    }
    // a value for a type, usually one which is accepted
    void value(bool add, const std::string& n, const zserio::ITypeInfo& want)
    {
        const zserio::CppType ct = want.getCppType();
        const unsigned form = static_cast<unsigned>(g.below(64));
        if (g.chance(75))
        {
            using CT = zserio::CppType;
            if (ct == CT::BOOL)
                return void(b.giveBool(add, n, g.chance(50)));
            if (ct == CT::STRING)
                return void(b.giveStr(add, n, rndText(g), form));
            if (ct == CT::BYTES)
            {
                zserio::Bytes v;
                gen(v);
                return void(g.chance(50) ? b.giveAny(add, n, "bytes", v) : b.giveOwn(add, n, "bytes", v));
            }
            if (ct == CT::BIT_BUFFER)
            {
                zserio::BitBuffer v;
                gen(v);
                return void(g.chance(50) ? b.giveAny(add, n, "extern", v) : b.giveOwn(add, n, "extern", v));
            }
            const std::string name = tname(want);
            if (name == "CreatorEnum")
                return enumeration<CreatorEnum>(add, n, name, form);
            if (name == "ReflectableEnum")
                return enumeration<ReflectableEnum>(add, n, name, form);
            if (name == "ReflectableUtilEnum")
                return enumeration<ReflectableUtilEnum>(add, n, name, form);
            if (name == "CreatorBitmask")
                return mask<CreatorBitmask>(add, n, name, form);
            if (name == "ReflectableUtilBitmask")
                return mask<ReflectableUtilBitmask>(add, n, name, form);
            if (zserio::TypeInfoUtil::isCompound(ct))
            {
                bool done = false;
                for (size_t i = 0; i < NTYPES && g.chance(80); ++i)
                    withType(i, [&](auto T) {
                        using X = typename decltype(T)::type;
                        if (name == Shape<X>::name)
                        {
                            X v;
                            gen(v);
                            b.giveAny(add, n, name, v);
                            done = true;
                        }
                    });
                if (done)
                    return;
            }
            else
            {
                const bool neg = g.chance(20) || (g.chance(50) && zserio::TypeInfoUtil::isSigned(ct));
                const uint64_t m = g.magnitude(g.chance(60) ? 8 : 64);
                if (neg)
                    return void(b.giveInt(add, n, true, ~(m & ~(1ULL << 63)), form));
                return void(b.giveInt(add, n, false, m, form));
            }
        }
        any(add, n, form);
    }
    template <typename E>
    void enumeration(bool add, const std::string& n, const std::string& name, unsigned form)
    {
        E v;
        gen(v);
        switch (g.below(5))
        {
        case 0: b.giveAny(add, n, name, v); break;
        case 1: b.giveOwn(add, n, name, v); break;
        case 2: b.giveStr(add, n, std::string(g.chance(85) ? zserio::enumToString(v) : g.pick<std::string_view>({"ONE", "VALUE1", "one", "", "ON", "ONES", "MinusOne", "TWO ", "1"})), form); break;
        default:
        {
            const int64_t x = g.chance(70) ? static_cast<int64_t>(v) : g.range(-130, 260);
            b.giveInt(add, n, x < 0, static_cast<uint64_t>(x), form);
        }
        }
    }
    template <typename M>
    void mask(bool add, const std::string& n, const std::string& name, unsigned form)
    {
        M v;
        gen(v);
        switch (g.below(6))
        {
        case 0: b.giveAny(add, n, name, v); break;
        case 1: b.giveOwn(add, n, name, v); break;
        case 2: case 3: b.giveStr(add, n, maskText(), form); break;
        case 4: b.giveStr(add, n, numText(), form); break;
        default:
        {
            const int64_t x = g.chance(50) ? static_cast<int64_t>(g.below(8)) : g.range(-130, 300);
            b.giveInt(add, n, x < 0, static_cast<uint64_t>(x), form);
        }
        }
    }
    // a value whether it suits or not
    void any(bool add, const std::string& n, unsigned form)
    {
        switch (g.below(12))
        {
        case 0: case 10: b.giveNull(add, n); break;
        case 1: b.giveBool(add, n, g.chance(50)); break;
        case 2: b.giveStr(add, n, g.chance(50) ? rndText(g) : g.chance(50) ? maskText() : numText(), form); break;
        case 3: b.giveInt(add, n, false, g.magnitude(64), form); break;
        case 4: b.giveInt(add, n, true, ~g.magnitude(63), form); break;
        case 5: b.giveDouble(add, n, g.pick<double>({0, 1, 1.5, 1e300}), g.chance(30)); break;
        case 6: b.giveAny(add, n, "string", zserio::String(rndText(g))); break;
        case 7: b.giveAny(add, n, "u32", zserio::UInt32(static_cast<uint32_t>(g.magnitude(32)))); break;
        case 8: b.giveAny(add, n, "u8", zserio::UInt8(static_cast<uint8_t>(g.magnitude(8)))); break;
        case 9: g.chance(50) ? b.giveAny(add, n, "CreatorEnum", CreatorEnum::TWO) : b.giveAny(add, n, "CreatorBitmask", CreatorBitmask(CreatorBitmask::Values::READ)); break;
        default:
        {
            WalkerNested v;
            gen(v);
            b.giveAny(add, n, "WalkerNested", v);
        }
        }
    }
    // one call: ok says whether it should fit the state, depth is kept in step with what was accepted
    void step(unsigned wild)
    {
        const bool w = g.chance(wild);
        const size_t d = levels.size();
        if (w)
        {
            switch (g.below(13))
            {
            case 0: if (b.beginRoot()) levels.push_back({b.info, false, false}); return;
            case 1: if (b.endRoot()) levels.clear(); return;
            case 2: return arr(fieldName(g.chance(70)));
            case 3: if (b.endArray()) levels.pop_back(); return;
            case 4: return comp(fieldName(g.chance(70)));
            case 5: if (b.endCompound()) levels.pop_back(); return;
            case 6: return elem();
            case 7: if (b.endCompoundElement()) levels.pop_back(); return;
            case 8: any(false, fieldName(g.chance(70)), static_cast<unsigned>(g.below(64))); return;
            case 9: any(true, "", static_cast<unsigned>(g.below(64))); return;
            case 10: b.getFieldType(fieldName(g.chance(70))); return;
            case 11: b.getElementType(); return;
            default:
            {
                const std::string n = fieldName(true);
                const auto* f = d > 0 && !levels.back().arr ? field(*levels.back().info, n) : nullptr;
                if (f)
                    value(false, n, f->typeInfo);
                return;
            }
            }
        }
        if (d == 0)
        {
            if (b.beginRoot())
                levels.push_back({b.info, false, false});
            return;
        }
        const Level top = levels.back();
        const unsigned end = d > 5 ? 70 : top.arr ? 30 : 12;
        if (g.chance(end))
        {
            if (d == 1)
            {
                if (b.endRoot())
                    levels.clear();
            }
            else if (top.arr ? b.endArray() : top.element ? b.endCompoundElement() : b.endCompound())
                levels.pop_back();
            return;
        }
        if (g.chance(4))
            return void(top.arr ? b.getElementType() : b.getFieldType(fieldName(true)));
        if (top.arr)
        {
            if (zserio::TypeInfoUtil::isCompound(top.info->getCppType()) && g.chance(90))
                return elem();
            return value(true, "", *top.info);
        }
        const std::string n = fieldName(true);
        const auto* f = field(*top.info, n);
        if (!f)
            return;
        if (g.chance(8))
            b.giveNull(false, n);
        else if (f->isArray)
            arr(n);
        else if (zserio::TypeInfoUtil::isCompound(f->typeInfo.getCppType()) && g.chance(85))
            comp(n);
        else
            value(false, n, f->typeInfo);
    }
    void arr(const std::string& n)
    {
        if (b.beginArray(n))
            levels.push_back({&field(*levels.back().info, n)->typeInfo, true, false});
    }
    void comp(const std::string& n)
    {
        if (b.beginCompound(n))
            levels.push_back({&field(*levels.back().info, n)->typeInfo, false, false});
    }
    void elem()
    {
        if (b.beginCompoundElement())
            levels.push_back({levels.back().info, false, true});
    }
    void exec(const std::vector<std::string>& w)
    {
        const std::string& op = w[0];
        const std::string n = w[1] == "-" ? "" : w[1];
        const bool add = op == "addValueElement";
        const size_t d = levels.size();
        if (op == "beginRoot") { if (b.beginRoot()) levels.push_back({b.info, false, false}); }
        else if (op == "endRoot") { if (b.endRoot()) levels.clear(); }
        else if (op == "endArray") { if (b.endArray()) levels.pop_back(); }
        else if (op == "endCompound") { if (b.endCompound()) levels.pop_back(); }
        else if (op == "endCompoundElement") { if (b.endCompoundElement()) levels.pop_back(); }
        else if (op == "beginCompoundElement") elem();
        else if (op == "getElementType") b.getElementType();
        else if (op == "getFieldType") b.getFieldType(n);
        else if (op == "beginArray") arr(n);
        else if (op == "beginCompound") comp(n);
        else if (w[2] == "null") b.giveNull(add, n);
        else if (w[2] == "yes") b.giveBool(add, n, true);
        else if (w[2] == "five") b.giveInt(add, n, false, 5, static_cast<unsigned>(d));
        else if (w[2] == "big") b.giveInt(add, n, false, 0x1FFFFFFFFULL, static_cast<unsigned>(d));
        else if (w[2] == "minus") b.giveInt(add, n, true, ~0ULL, static_cast<unsigned>(d));
        else if (w[2] == "dbl") b.giveDouble(add, n, 1.5, d % 2 != 0);
        else if (w[2] == "two") b.giveStr(add, n, "TWO", static_cast<unsigned>(d));
        else if (w[2] == "read") b.giveStr(add, n, "READ", static_cast<unsigned>(d));
        else if (w[2] == "u32") b.giveAny(add, n, "u32", zserio::UInt32(0));
        else if (w[2] == "bits") b.giveAny(add, n, "extern", zserio::BitBuffer(std::vector<uint8_t>{0xA0}, 3));
        else if (w[2] == "bytes") b.giveAny(add, n, "bytes", zserio::Bytes{7});
        else
        {
            WalkerNested v;
            v.text = "A";
            b.giveAny(add, n, "WalkerNested", v);
        }
    }
    void finish()
    {
        while (!levels.empty())
        {
            if (levels.size() == 1)
            {
                b.endRoot();
                levels.clear();
            }
            else
            {
                levels.back().arr ? b.endArray() : levels.back().element ? b.endCompoundElement() : b.endCompound();
                levels.pop_back();
            }
        }
    }
    void run()
    {
        size_t i = g.below(NTYPES);
        if (g.chance(50))
            i = g.chance(60) ? 1 : 3;
        withType(i, [&](auto T) { b.start<typename decltype(T)::type>(); });
        levels.clear();
        const unsigned wild = static_cast<unsigned>(g.pick<int>({0, 5, 20, 60}));
        for (size_t n = 10 + g.below(60); n > 0; --n)
            step(wild);
        if (g.chance(95))
            finish();
    }
};
} // namespace
int main(int argc, char** argv)
{
    vt::Args args(argc, argv);
    vt::Trace t(args.out);
    Rng g(args.seed);
    Driver d(t, g);
    if (args.script)
    {
        for (const auto& w : vt::readScript(args.script))
        {
            if (w[0] == "Begin")
            {
                d.finish();
                for (size_t i = 0; i < NTYPES; ++i)
                    withType(i, [&](auto T) {
                        if (args.mode == Shape<typename decltype(T)::type>::name)
                            d.b.start<typename decltype(T)::type>();
                    });
            }
            else
                d.exec(w);
        }
        d.finish();
    }
    else
        while (t.size() < args.n)
            d.run();
    vt::Ev(t, "End");
    return 0;
}
