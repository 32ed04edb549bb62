// Files: buffers written to and read from a scratch directory, with faults (no room, size limits, no descriptors,
// directories, names that cannot exist). Everything happens below a directory this driver creates and removes.
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <iterator>
#include "trace.h"
#include "zserio/BitBuffer.h"
#include "zserio/CppRuntimeException.h"
#include "zserio/FileUtil.h"
#include "zserio/SerializeUtil.h"
#include "test_object/std_allocator/CreatorObject.h"
#include "zserio/DebugStringUtil.h"

using namespace zserio;
namespace
{
struct Name
{
    std::string n;
    const char* kind;
};
// plain names are prefixes of each other: a name cut at the wrong place reaches another file
const std::vector<Name> names = {{"a", "absent"}, {"ab", "absent"}, {"abc.bin", "absent"}, {"abc.bin.x", "absent"},
        {"sub/a", "absent"}, {"sub", "refuses"}, {"missing/a", "refuses"}, {std::string(300, 'n'), "refuses"},
        {"", "refuses"}, {"full", "full"}};

struct Limits // makes the system refuse: bytes per file and descriptors
{
    rlimit fs{};
    rlimit fd{};
    Limits(int64_t bytes, bool descriptors)
    {
        getrlimit(RLIMIT_FSIZE, &fs);
        getrlimit(RLIMIT_NOFILE, &fd);
        if (bytes >= 0)
        {
            rlimit x = fs;
            x.rlim_cur = static_cast<rlim_t>(bytes);
            setrlimit(RLIMIT_FSIZE, &x);
        }
        if (!descriptors)
        {
            rlimit x = fd;
            x.rlim_cur = 0;
            setrlimit(RLIMIT_NOFILE, &x);
        }
    }
    ~Limits()
    {
        setrlimit(RLIMIT_FSIZE, &fs);
        setrlimit(RLIMIT_NOFILE, &fd);
    }
};

struct Driver
{
    vt::Trace& t;
    vt::Rng r;
    Driver(vt::Trace& tr, uint64_t seed) : t(tr), r(seed) {}

    std::string store; // the name lies in the middle of a longer text, as views of names may
    std::string_view given(const std::string& n)
    {
        if (r.chance(50))
        {
            store = n;
            return store;
        }
        store = "ab" + n + r.pick<const char*>({"b", "c.bin", ".x", "/", "a"});
        return std::string_view(store).substr(2, n.size());
    }
    bool look(size_t k, vt::Ints& d)
    {
        std::ifstream f(names[k].n, std::ios::binary);
        if (!f)
            return false;
        d = vt::bytes(std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>()));
        return true;
    }
    void seen(size_t k)
    {
        vt::Ints d;
        const bool there = look(k, d);
        vt::Ev(t, "Seen").i("f", k + 1).b("there", there).a("d", d);
    }
    void write(size_t k)
    {
        const size_t bits = r.chance(10) ? 0 : r.chance(20) ? r.below(40000) : r.below(200);
        const size_t bytes = (bits + 7) / 8;
        std::vector<uint8_t> d(bytes);
        for (auto& x : d)
            x = static_cast<uint8_t>(r.next());
        const int64_t limit = r.chance(25) ? static_cast<int64_t>(r.below(bytes + bytes / 4 + 2)) : -1;
        const bool fd = !r.chance(8);
        size_t n = bits;
        const auto nm = given(names[k].n);
        bool ok = false;
        switch (r.below(3))
        {
        case 0:
        {
            Limits lim(limit, fd);
            ok = vt::tryDo([&] { writeBufferToFile(d.data(), bits, BitsTag(), nm); });
            break;
        }
        case 1:
        {
            n = bytes * 8;
            Limits lim(limit, fd);
            ok = vt::tryDo([&] { writeBufferToFile(d.data(), bytes, nm); });
            break;
        }
        default:
        {
            const BitBuffer b(d, bits);
            Limits lim(limit, fd);
            ok = vt::tryDo([&] { writeBufferToFile(b, nm); });
        }
        }
        vt::Ev(t, "Write").i("f", k + 1).a("d", vt::bytes(d)).i("n", n).i("limit", limit).b("fd", fd).b("ok", ok);
    }
    void read(size_t k)
    {
        if (std::string(names[k].kind) == "full")
            return;
        const bool fd = !r.chance(8);
        const auto nm = given(names[k].n);
        BitBuffer b;
        bool ok = false;
        {
            Limits lim(-1, fd);
            ok = vt::tryDo([&] { b = readBufferFromFile(nm); });
        }
        vt::Ev(t, "Read").i("f", k + 1).b("fd", fd).b("ok", ok).a("d", ok ? vt::bytes(b.getBytes()) : vt::Ints()).i("n", b.getBitSize());
    }
    // text files written and read by the debug string functions go through the same names
    void json(size_t k)
    {
        test_object::std_allocator::CreatorNested o;
        o.value = static_cast<uint32_t>(r.below(1000));
        o.text = std::string(r.below(3) == 0 ? 9000 : 5, 'x');
        const auto nm = given(names[k].n);
        const int64_t limit = r.chance(25) ? static_cast<int64_t>(r.below(200)) : -1;
        const bool fd = !r.chance(8);
        o.creatorEnum = test_object::std_allocator::CreatorEnum::ONE;
        const auto text = toJsonString(o, 0);
        bool ok = false;
        {
            Limits lim(limit, fd);
            ok = vt::tryDo([&] { toJsonFile(o, nm, 0); });
        }
        vt::Ev(t, "Write").i("f", k + 1).a("d", vt::bytes(text)).i("n", text.size() * 8).i("limit", limit).b("fd", fd).b("ok", ok);
    }
    void run(size_t n)
    {
        std::vector<std::string> kinds;
        for (const auto& x : names)
            kinds.push_back(x.kind);
        vt::Ev(t, "Dir").ss("kinds", kinds);
        while (t.size() < n)
        {
            const size_t k = r.below(names.size());
            switch (r.below(8))
            {
            case 0:
            case 1:
            case 2: write(k); break;
            case 3:
            case 4: read(k); break;
            case 5: json(k); break;
            case 6:
                if (k < 5 && unlink(names[k].n.c_str()) == 0)
                    vt::Ev(t, "Del").i("f", k + 1);
                break;
            default: break;
            }
            for (size_t j = 0; j < 5; ++j)
                seen(j); // no other file was touched
        }
    }
};
} // namespace

int main(int argc, char** argv)
{
    const vt::Args a(argc, argv);
    vt::Trace t(a.out);
    signal(SIGXFSZ, SIG_IGN);
    char dir[] = "vtfiles-XXXXXX";
    if (!mkdtemp(dir) || chdir(dir) != 0)
        return 2;
    if (mkdir("sub", 0700) != 0 || symlink("/dev/full", "full") != 0)
        return 2;
    Driver(t, a.seed).run(a.n);
    // only files known to this driver are removed, by name
    for (size_t k = 0; k < 5; ++k)
        unlink(names[k].n.c_str());
    unlink("full");
    vt::Ints junk;
    size_t left = 0;
    for (const char* d : {".", "sub"})
    {
        DIR* x = opendir(d);
        while (const dirent* e = readdir(x))
            if (e->d_name[0] != '.' && std::string(e->d_name) != "sub")
                ++left;
        closedir(x);
    }
    rmdir("sub");
    if (chdir("..") != 0)
        return 2;
    rmdir(dir);
    if (left != 0)
        vt::Ev(t, "StrayFiles").i("n", static_cast<int64_t>(left));
    vt::Ev(t, "End");
    return 0;
}
