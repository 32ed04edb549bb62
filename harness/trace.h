// Recorder of ndjson event traces + deterministic random numbers, shared by all drivers.
#ifndef VERIF_TRACE_H
#define VERIF_TRACE_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <initializer_list>
#include <sstream>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace vt
{

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed ^ 0xD1B54A32D192ED03ULL)
    {
        s = next() ^ (seed << 32); // seeds must not be offsets into one and the same sequence
        s = next();
    }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    // uniform in [0, n)
    uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
    int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo + 1))); }
    bool chance(unsigned percent) { return below(100) < percent; }
    // value with random bit length up to 'bits' (small and boundary values are frequent)
    uint64_t magnitude(unsigned bits)
    {
        const unsigned k = static_cast<unsigned>(below(bits + 1));
        if (k == 0)
            return 0;
        const uint64_t mask = k >= 64 ? ~0ULL : ((1ULL << k) - 1);
        switch (below(6))
        {
        case 0: return mask;                       // all ones
        case 1: return 1ULL << (k - 1);            // power of two
        case 2: return k >= 64 ? 1 : (k < bits ? (1ULL << k) : mask);
        default: return (next() & mask) | (1ULL << (k - 1));
        }
    }
    template <typename T>
    const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <typename T>
    T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
};

using Ints = std::vector<int>;

inline Ints bits(uint64_t v, unsigned n)
{
    Ints r(n);
    for (unsigned i = 0; i < n; ++i)
        r[i] = (n - 1 - i) >= 64 ? 0 : static_cast<int>((v >> (n - 1 - i)) & 1);
    return r;
}
// 64-bit value as four 16-bit limbs, most significant first
inline Ints limbs(uint64_t v)
{
    return Ints{static_cast<int>((v >> 48) & 0xFFFF), static_cast<int>((v >> 32) & 0xFFFF),
            static_cast<int>((v >> 16) & 0xFFFF), static_cast<int>(v & 0xFFFF)};
}
inline Ints chars(std::string_view s)
{
    Ints r;
    for (char c : s)
        r.push_back(static_cast<int>(static_cast<unsigned char>(c)));
    return r;
}
template <typename C>
inline Ints bytes(const C& c)
{
    Ints r;
    for (auto b : c)
        r.push_back(static_cast<int>(static_cast<uint8_t>(b)));
    return r;
}

class Trace;
class Ev
{
public:
    Ev(Trace& t, const char* name);
    ~Ev();
    Ev(const Ev&) = delete;
    Ev& operator=(const Ev&) = delete;
    Ev& i(const char* k, int64_t v) { key(k); m_s += std::to_string(v); return *this; }
    Ev& b(const char* k, bool v) { key(k); m_s += v ? "true" : "false"; return *this; }
    Ev& s(const char* k, std::string_view v) { key(k); str(v); return *this; }
    Ev& a(const char* k, const Ints& v) { key(k); arr(v); return *this; }
    Ev& aa(const char* k, const std::vector<Ints>& v)
    {
        key(k);
        m_s += '[';
        for (size_t j = 0; j < v.size(); ++j)
        {
            if (j)
                m_s += ',';
            arr(v[j]);
        }
        m_s += ']';
        return *this;
    }
    Ev& ss(const char* k, const std::vector<std::string>& v)
    {
        key(k);
        m_s += '[';
        for (size_t j = 0; j < v.size(); ++j)
        {
            if (j)
                m_s += ',';
            str(v[j]);
        }
        m_s += ']';
        return *this;
    }
    Ev& raw(const char* k, const std::string& json) { key(k); m_s += json; return *this; }

private:
    void key(const char* k) { m_s += ",\""; m_s += k; m_s += "\":"; }
    void str(std::string_view v)
    {
        m_s += '"';
        for (char c : v)
        {
            const unsigned char u = static_cast<unsigned char>(c);
            if (c == '"' || c == '\\')
            {
                m_s += '\\';
                m_s += c;
            }
            else if (u < 0x20 || u > 0x7e)
            {
                char t[8];
                snprintf(t, sizeof t, "\\u%04x", u);
                m_s += t;
            }
            else
                m_s += c;
        }
        m_s += '"';
    }
    void arr(const Ints& v)
    {
        m_s += '[';
        for (size_t j = 0; j < v.size(); ++j)
        {
            if (j)
                m_s += ',';
            m_s += std::to_string(v[j]);
        }
        m_s += ']';
    }
    Trace& m_t;
    std::string m_s;
};

class Trace
{
public:
    explicit Trace(const char* file) : m_f(fopen(file, "w"))
    {
        if (!m_f)
        {
            perror(file);
            exit(2);
        }
    }
    ~Trace() { fclose(m_f); }
    void line(const std::string& s)
    {
        fputs(s.c_str(), m_f);
        fputc('\n', m_f);
        fflush(m_f);
        ++m_n;
    }
    size_t size() const { return m_n; }

private:
    FILE* m_f;
    size_t m_n = 0;
};

inline Ev::Ev(Trace& t, const char* name) : m_t(t)
{
    m_s = "{\"e\":\"";
    m_s += name;
    m_s += '"';
}
inline Ev::~Ev()
{
    m_s += '}';
    m_t.line(m_s);
}

// command line: driver OUT SEED N [MODE [SCRIPT]]
struct Args
{
    const char* out;
    uint64_t seed;
    size_t n;
    std::string mode;
    const char* script;
    Args(int argc, char** argv) : out(argv[1]), seed(strtoull(argv[2], nullptr, 10)), n(strtoull(argv[3], nullptr, 10)),
            mode(argc > 4 ? argv[4] : "random"), script(argc > 5 ? argv[5] : nullptr)
    {}
};

inline std::vector<std::vector<std::string>> readScript(const char* file)
{
    std::vector<std::vector<std::string>> r;
    std::ifstream f(file);
    std::string l;
    while (std::getline(f, l))
    {
        std::istringstream is(l);
        std::vector<std::string> w;
        std::string x;
        while (is >> x)
            w.push_back(x);
        if (!w.empty())
            r.push_back(w);
    }
    return r;
}

// runs f, returns true if it did not throw a std::exception
template <typename F>
bool tryDo(F&& f)
{
    try
    {
        f();
        return true;
    }
    catch (const std::exception&)
    {
        return false;
    }
}

} // namespace vt
#endif
