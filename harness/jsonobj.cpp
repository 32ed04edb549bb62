// Objects written as JSON and JSON read as objects, mutated texts and several objects on a stream included.
#include <sstream>
#include <unistd.h>

#include "reflect.h"
#include "zserio/DebugStringUtil.h"
#include "zserio/JsonReader.h"
#include "zserio/JsonWriter.h"
#include "zserio/Walker.h"

using namespace obj;
namespace
{
using Tokens = std::vector<std::string>;
Tokens split(const std::string& s)
{
    Tokens r;
    for (size_t i = 0; i < s.size();)
    {
        size_t j = i + 1;
        if (s[i] == '"')
        {
            while (j < s.size() && s[j] != '"')
                j += s[j] == '\\' ? 2 : 1;
            j = std::min(j + 1, s.size());
        }
        else if (std::isalnum(static_cast<unsigned char>(s[i])) || s[i] == '-')
            while (j < s.size() && std::isalnum(static_cast<unsigned char>(s[j])))
                ++j;
        r.push_back(s.substr(i, j - i));
        i = j;
    }
    return r;
}
std::string mutate(Rng& g, const std::string& s)
{
    static const std::vector<std::string> pool = {"null", "true", "false", "0", "1", "-1", "-0", "255", "256", "300", "1.5", "1e2", "NaN", "4294967295",
            "4294967296", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "\"\"", "\"x\"", "\"ONE\"", "\"READ\"", "\"READ | WRITE\"",
            "\"VALUE1\"", "\"3\"", "\"3 /* no match */\"", "{", "}", "[", "]", ",", ":", "[]", "{}", "[null]", "{\"buffer\": [1, 2], \"bitSize\": 9}",
            "{\"bitSize\": 0, \"buffer\": []}", "{\"buffer\": [256]}", "{\"buffer\": []}", "{\"buffer\": [1], \"bitSize\": 9}", "\"value\"", "\"text\"", "\"nested\"",
            "\"unknown\"", "\"buffer\"", "\"bitSize\"", " ", "\n", "\r", "x", "\"value\": 5, ", "\"text\": null, ", "\"\": 1, ", "\"value\": \"1\","};
    Tokens t = split(s);
    for (size_t n = 1 + g.below(2); n > 0 && !t.empty(); --n)
    {
        // structural places are as frequent as values
        size_t i = g.below(t.size());
        for (int k = 0; k < 4 && (t[i] == " " || t[i] == "\n"); ++k)
            i = g.below(t.size());
        switch (g.below(6))
        {
        case 0: t.erase(t.begin() + static_cast<ptrdiff_t>(i)); break;
        case 1: t.insert(t.begin() + static_cast<ptrdiff_t>(i), g.pick(pool)); break;
        case 2: t[i] = t[g.below(t.size())]; break;
        case 3: std::swap(t[i], t[g.below(t.size())]); break;
        default: t[i] = g.pick(pool);
        }
    }
    std::string r;
    for (const auto& x : t)
        r += x;
    return r;
}

void readAll(vt::Trace& t, Rng& g, std::istream& in, const std::vector<size_t>& types)
{
    zserio::JsonReader reader(in);
    for (size_t n = 0; n < types.size() + 2; ++n)
    {
        const size_t i = n < types.size() && !g.chance(3) ? types[n] : types[g.below(types.size())];
        withType(i, [&](auto X) {
            using T = typename decltype(X)::type;
            std::string v = "\"\"";
            bool ok = true;
            try
            {
                auto p = reader.read(zserio::typeInfo<T>());
                v = node(p->getAnyValue().template get<std::reference_wrapper<T>>().get());
            }
            catch (const zserio::CppRuntimeException&)
            {
                ok = false;
            }
            vt::Ev(t, "Read").s("t", Shape<T>::name).b("ok", ok).raw("v", v);
        });
    }
}
std::string chars(const std::string& s) { return ints(vt::chars(s)); }
void written(vt::Trace& t, const char* type, const std::string& v, int ind, const std::string& item, const std::string& key, bool names, const std::string& out)
{
    vt::Ev(t, "Write").s("t", type).raw("v", v).i("ind", ind).raw("item", chars(item)).raw("key", chars(key)).b("names", names).raw("out", chars(out));
}
} // namespace
int main(int argc, char** argv)
{
    vt::Args args(argc, argv);
    vt::Trace t(args.out);
    Rng g(args.seed);
    Gen gen{g, 0, 2, true};
    const std::string file = "vtjson-" + std::to_string(getpid()) + ".json";
    while (t.size() < args.n)
    {
        // one to three objects on one stream, written by one writer
        std::ostringstream os;
        const int ind = g.pick<int>({-1, -1, 0, 1, 2, 4});
        std::string item = ind < 0 ? ", " : ",", key = ": ";
        const bool names = g.chance(60);
        zserio::JsonWriter plain(os), indented(os, static_cast<uint8_t>(std::max(ind, 0)));
        zserio::JsonWriter& w = ind < 0 ? plain : indented;
        if (g.chance(20))
        {
            item = g.pick<const char*>({",", " , ", ",\t"});
            w.setItemSeparator(zserio::String(item));
        }
        if (g.chance(20))
        {
            key = g.pick<const char*>({":", " :\n", ": "});
            w.setKeySeparator(zserio::String(key));
        }
        if (!names || g.chance(30))
            w.setEnumerableFormat(names ? zserio::JsonWriter::EnumerableFormat::STRING : zserio::JsonWriter::EnumerableFormat::NUMBER);
        std::vector<size_t> types;
        std::string text;
        for (size_t n = 1 + (g.chance(30) ? g.below(3) : 0); n > 0; --n)
        {
            size_t i = g.below(NTYPES);
            if (i <= 1 && g.chance(50))
                i = 3 + g.below(NTYPES - 3);
            types.push_back(i);
            withType(i, [&](auto X) {
                using T = typename decltype(X)::type;
                T x;
                gen(x);
                if (g.chance(10)) // a value which is no item is written as a number with a comment
                {
                    Gen bad{g, 60, 2, true};
                    bad(x);
                }
                os.str("");
                zserio::Walker walker(w);
                walker.walk(zserio::reflectable(static_cast<const T&>(x)));
                const std::string out = os.str();
                written(t, Shape<T>::name, node(x), ind, item, key, names, out);
                text += out + g.pick<const char*>({"", "", "\n", " "});
                if (g.chance(15))
                {
                    // the same through the shortcuts
                    const uint8_t k = static_cast<uint8_t>(g.below(5));
                    const int used = g.chance(50) ? k : 4;
                    std::string o;
                    switch (g.below(3))
                    {
                    case 0: o = used == 4 ? std::string(zserio::toJsonString(x)) : std::string(zserio::toJsonString(x, k)); break;
                    case 1:
                    {
                        std::ostringstream s2;
                        used == 4 ? zserio::toJsonStream(x, s2) : zserio::toJsonStream(x, s2, k);
                        o = s2.str();
                        break;
                    }
                    default:
                    {
                        used == 4 ? zserio::toJsonFile(x, file) : zserio::toJsonFile(x, file, k);
                        std::ifstream f(file);
                        std::ostringstream s2;
                        s2 << f.rdbuf();
                        o = s2.str();
                    }
                    }
                    written(t, Shape<T>::name, node(x), used, ",", ": ", true, o);
                    const std::string m = g.chance(60) ? o : mutate(g, o);
                    std::string v = "\"\"";
                    bool ok = true;
                    vt::Ev(t, "Open").raw("text", chars(m));
                    try
                    {
                        switch (g.below(5))
                        {
                        case 0: v = node(zserio::fromJsonString<T>(zserio::String(m))); break;
                        case 1: v = node(zserio::fromJsonString(zserio::typeInfo<T>(), zserio::String(m))->getAnyValue().template get<std::reference_wrapper<T>>().get()); break;
                        case 2:
                        {
                            std::istringstream is(m);
                            v = node(zserio::fromJsonStream<T>(is));
                            break;
                        }
                        case 3:
                        {
                            std::istringstream is(m);
                            v = node(zserio::fromJsonStream(zserio::typeInfo<T>(), is)->getAnyValue().template get<std::reference_wrapper<T>>().get());
                            break;
                        }
                        default:
                        {
                            std::ofstream(file, std::ios::trunc) << m;
                            v = node(zserio::fromJsonFile<T>(file));
                        }
                        }
                    }
                    catch (const zserio::CppRuntimeException&)
                    {
                        ok = false;
                    }
                    vt::Ev(t, "Read").s("t", Shape<T>::name).b("ok", ok).raw("v", v);
                }
            });
        }
        for (size_t n = 1 + g.below(3); n > 0; --n)
        {
            const std::string m = g.chance(25) ? text : mutate(g, text);
            std::istringstream is(m);
            vt::Ev(t, "Open").raw("text", chars(m));
            readAll(t, g, is, types);
        }
    }
    (void)unlink(file.c_str());
    vt::Ev(t, "End");
    return 0;
}
