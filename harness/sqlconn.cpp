// SQLite connections: connection objects, handles, statements and transactions on one database file in a scratch
// directory this driver creates and removes.
#include <dirent.h>
#include <optional>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
#include "trace.h"
#include "zserio/SqliteConnection.h"
#include "zserio/SqliteFinalizer.h"

using namespace zserio;
namespace
{
constexpr int NC = 3, NH = 3, NS = 2;
int g_bad = 0;
std::vector<int> g_closed;
void onLog(void*, int code, const char* msg)
{
    // use of a handle that is closed already (no handle at all is reported to the caller)
    if (code == SQLITE_MISUSE && strstr(msg, "NULL") == nullptr && strstr(msg, "misuse at") == nullptr)
        ++g_bad;
}
void probe(sqlite3_context*, int, sqlite3_value**) {}
void onDestroy(void* p)
{
    g_closed.push_back(static_cast<int>(reinterpret_cast<intptr_t>(p)));
}
const char* const FILE_NAME = "base.db";

std::string outcome(const SqliteException& e)
{
    const std::string w = e.what();
    for (const auto& [code, name] : std::initializer_list<std::pair<int, const char*>>{{SQLITE_ERROR, "error"}, {SQLITE_BUSY, "busy"},
                 {SQLITE_CONSTRAINT, "constraint"}, {SQLITE_MISUSE, "misuse"}, {SQLITE_ROW, "row"}})
        if (w.find(sqlite3_errstr(code)) != std::string::npos)
            return name;
    return "?" + w;
}
template <typename F>
std::string guarded(F&& f)
{
    try
    {
        return f();
    }
    catch (const SqliteException& e)
    {
        return outcome(e);
    }
    catch (const std::exception& e)
    {
        return std::string("other ") + e.what();
    }
}

struct Run
{
    vt::Trace& t;
    vt::Rng r;
    sqlite3* eye = nullptr; // looks at the committed rows
    struct Handle
    {
        sqlite3* p = nullptr;
        bool open = false; // may still be used
    };
    Handle hd[NH + 1];
    std::optional<SqliteConnection> cn[NC];
    int given[NC] = {}; // what each object was given: 0 nothing, -1 closed by somebody else
    bool own[NC] = {};
    std::unique_ptr<sqlite3_stmt, SqliteFinalizer> st[NS];
    int of[NS] = {};
    Run(vt::Trace& tr, uint64_t seed) : t(tr), r(seed)
    {
        eye = connect();
        sqlite3_exec(eye, "CREATE TABLE t(v INTEGER PRIMARY KEY NOT NULL)", nullptr, nullptr, nullptr);
    }
    ~Run()
    {
        clear();
        sqlite3_close(eye);
    }
    sqlite3* connect()
    {
        sqlite3* p = nullptr;
        if (sqlite3_open(FILE_NAME, &p) != SQLITE_OK)
            exit(2);
        if (sqlite3_exec(p, "PRAGMA journal_mode=MEMORY; PRAGMA synchronous=OFF; SELECT count(*) FROM sqlite_master", nullptr, nullptr,
                    nullptr) != SQLITE_OK)
        {
            sqlite3_close(p);
            return nullptr;
        }
        return p;
    }
    void clear()
    {
        for (int s = 0; s < NS; ++s)
        {
            st[s].reset();
            of[s] = 0;
        }
        for (int c = 0; c < NC; ++c)
        {
            if (cn[c])
                released(c);
            cn[c].reset();
            given[c] = 0;
        }
        for (auto& h : hd)
        {
            if (h.open && h.p != nullptr)
                sqlite3_close_v2(h.p);
            h = Handle();
        }
    }
    void begin()
    {
        clear();
        g_closed.clear();
        if (sqlite3_exec(eye, "DELETE FROM t", nullptr, nullptr, nullptr) != SQLITE_OK)
        {
            vt::Ev(t, "Stuck"); // something was left behind that still holds a lock
            vt::Ev(t, "End");
            exit(0);
        }
        vt::Ev(t, "Begin").i("bad", g_bad);
    }
    void gone() // closed handles are forgotten
    {
        for (int h : g_closed)
            hd[h] = Handle();
    }
    void released(int c) // the object let its handle go
    {
        if (own[c] && given[c] > 0)
            closing(given[c], c);
    }
    void closing(int h, int by)
    {
        hd[h].open = false;
        for (int d = 0; d < NC; ++d)
            if (d != by && cn[d] && given[d] == h)
                given[d] = -1;
    }
    void emit(vt::Ev& e)
    {
        e.a("closed", vt::Ints(g_closed.begin(), g_closed.end()));
        gone();
        g_closed.clear();
        std::vector<vt::Ints> hs;
        for (int h = 1; h <= NH; ++h)
        {
            if (hd[h].p == nullptr)
            {
                hs.push_back({0, 1, 0});
                continue;
            }
            int n = 0;
            for (sqlite3_stmt* q = nullptr; (q = sqlite3_next_stmt(hd[h].p, q)) != nullptr;)
                ++n;
            hs.push_back({hd[h].open ? 1 : 2, sqlite3_get_autocommit(hd[h].p), n});
        }
        e.aa("hs", hs);
        std::vector<vt::Ints> cs;
        for (int c = 0; c < NC; ++c)
        {
            if (!cn[c])
            {
                cs.push_back({0, 0, 0});
                continue;
            }
            int h = -2;
            if (given[c] < 0)
                h = -1; // a pointer that may mean anything
            else if (cn[c]->getConnection() == nullptr)
                h = 0;
            else
                for (int k = 1; k <= NH; ++k)
                    if (hd[k].p == cn[c]->getConnection())
                        h = k;
            cs.push_back({1, h, cn[c]->getConnectionType() == SqliteConnection::INTERNAL_CONNECTION ? 1 : 0});
        }
        e.aa("cs", cs);
        vt::Ints rows;
        sqlite3_stmt* q = nullptr;
        sqlite3_prepare_v2(eye, "SELECT v FROM t ORDER BY v", -1, &q, nullptr);
        int x = 0;
        while ((x = sqlite3_step(q)) == SQLITE_ROW)
            rows.push_back(sqlite3_column_int(q, 0));
        sqlite3_finalize(q);
        if (x == SQLITE_BUSY)
            rows = {-1};
        e.a("rows", rows).i("bad", g_bad);
    }
    // the text of a statement, possibly a part of a longer text
    std::string store;
    std::string_view sql(const std::string& q, int v)
    {
        std::string s;
        if (q == "ins")
            s = "INSERT INTO t VALUES (" + std::to_string(v) + ")";
        else if (q == "del")
            s = "DELETE FROM t WHERE v = " + std::to_string(v);
        else if (q == "sel")
            s = "SELECT count(*) FROM t";
        else if (q == "begin")
            s = "BEGIN";
        else if (q == "commit")
            s = "COMMIT";
        else if (q == "rollback")
            s = "ROLLBACK";
        else if (q == "bad")
            s = r.pick<const char*>({"SELEKT 1", "INSERT INTO nowhere VALUES (1)", "INSERT INTO t VALUES (", "SELECT nothing FROM t"});
        else
            s = r.pick<const char*>({"", " ", "-- nothing", "/* */"});
        const size_t n = s.size();
        if (r.chance(60) && q != "empty" && q != "bad")
        {
            store = s + r.pick<const char*>({"0", " garbage", "; DELETE FROM t", "'"});
            if (q == "ins" || q == "del" || r.chance(70))
                return std::string_view(store).substr(0, n);
        }
        store = s + (r.chance(30) && q != "bad" && q != "empty" ? ";" : "");
        return store;
    }
    static bool usableFor(bool on, int g) { return on && g >= 0; }
    void exec(const std::vector<std::string>& w)
    {
        const std::string& op = w[0];
        const auto num = [&](size_t k) { return k < w.size() ? std::atoi(w[k].c_str()) : 0; };
        if (op == "Open" || op == "CloseOwn")
        {
            const int h = num(1);
            if (op == "Open")
            {
                if (hd[h].p != nullptr)
                    return;
                sqlite3* p = connect();
                if (p == nullptr)
                    return;
                hd[h].p = p;
                hd[h].open = true;
                sqlite3_create_function_v2(p, "vt_probe", 0, SQLITE_UTF8, reinterpret_cast<void*>(static_cast<intptr_t>(h)), probe,
                        nullptr, nullptr, onDestroy);
            }
            else
            {
                if (!hd[h].open)
                    return;
                for (int c = 0; c < NC; ++c)
                    if (cn[c] && own[c] && given[c] == h)
                        return;
                closing(h, -1);
                sqlite3_close_v2(hd[h].p);
            }
            vt::Ev e(t, op.c_str());
            e.i("h", h);
            emit(e);
            return;
        }
        if (op == "Make" || op == "Reset")
        {
            const int c = num(1), h = num(2);
            const bool o = num(3) != 0;
            if (cn[c].has_value() == (op == "Make"))
                return;
            if (h > 0)
            {
                if (!hd[h].open || (cn[c] && own[c] && given[c] == h))
                    return;
                for (int d = 0; o && d < NC; ++d)
                    if (d != c && cn[d] && own[d] && given[d] == h)
                        return;
            }
            const auto type = o ? SqliteConnection::INTERNAL_CONNECTION : SqliteConnection::EXTERNAL_CONNECTION;
            sqlite3* p = h > 0 ? hd[h].p : nullptr;
            if (op == "Make")
            {
                if (h == 0 && o && r.chance(50))
                    cn[c].emplace();
                else if (o && r.chance(50))
                    cn[c].emplace(p);
                else
                    cn[c].emplace(p, type);
            }
            else
            {
                released(c);
                if (h == 0 && o && r.chance(50))
                    cn[c]->reset();
                else if (o && r.chance(50))
                    cn[c]->reset(p);
                else
                    cn[c]->reset(p, type);
            }
            given[c] = h;
            own[c] = o;
            vt::Ev e(t, op.c_str());
            e.i("c", c).i("h", h).b("own", o);
            emit(e);
            return;
        }
        if (op == "Step" || op == "Finish")
        {
            const int s = num(1);
            if (!st[s])
                return;
            if (op == "Step")
            {
                if (phase[s] == 2)
                    return;
                const int x = sqlite3_step(st[s].get());
                int n = 0;
                if (x == SQLITE_ROW)
                    n = sqlite3_column_int(st[s].get(), 0);
                if (x == SQLITE_BUSY)
                    sqlite3_reset(st[s].get()); // SQLite counts a busy statement as running until it is reset
                phase[s] = x == SQLITE_ROW ? 1 : x == SQLITE_DONE ? 2 : phase[s];
                vt::Ev e(t, "Step");
                e.i("s", s).s("out", x == SQLITE_ROW ? "row" : x == SQLITE_DONE ? "done" : x == SQLITE_BUSY ? "busy" : "?").i("n", n);
                emit(e);
                return;
            }
            if (r.chance(50))
                st[s].reset();
            else
                SqliteFinalizer()(st[s].release());
            of[s] = 0;
            vt::Ev e(t, "Finish");
            e.i("s", s);
            emit(e);
            return;
        }
        const int c = num(1);
        if (!cn[c])
            return;
        if (op == "Destroy")
        {
            released(c);
            cn[c].reset();
            given[c] = 0;
            vt::Ev e(t, "Destroy");
            e.i("c", c);
            emit(e);
            return;
        }
        if (given[c] < 0)
            return;
        if (op == "Exec")
        {
            const std::string q = w[2];
            const int v = num(3);
            const auto text = sql(q, v);
            const std::string out = guarded([&] {
                cn[c]->executeUpdate(text);
                return std::string("ok");
            });
            vt::Ev e(t, "Exec");
            e.i("c", c).s("q", q).i("v", v).s("out", out);
            emit(e);
        }
        else if (op == "Start")
        {
            bool began = false;
            const std::string out = guarded([&] {
                began = cn[c]->startTransaction();
                return std::string("ok");
            });
            vt::Ev e(t, "Start");
            e.i("c", c).b("began", began).s("out", out);
            emit(e);
        }
        else if (op == "EndT")
        {
            const bool flag = num(2) != 0;
            const std::string out = guarded([&] {
                cn[c]->endTransaction(flag);
                return std::string("ok");
            });
            vt::Ev e(t, "EndT");
            e.i("c", c).b("flag", flag).s("out", out);
            emit(e);
        }
        else if (op == "Prep")
        {
            const int s = num(2);
            const std::string q = w[3];
            if (st[s])
                return;
            const auto text = sql(q, 0);
            const std::string out = guarded([&] {
                st[s].reset(cn[c]->prepareStatement(text));
                return std::string(st[s] ? "ok" : "none");
            });
            of[s] = given[c];
            phase[s] = 0;
            vt::Ev e(t, "Prep");
            e.i("c", c).i("s", s).s("q", q).s("out", out);
            emit(e);
        }
    }
    int phase[NS] = {};
};
} // namespace

int main(int argc, char** argv)
{
    const vt::Args a(argc, argv);
    vt::Trace t(a.out);
    sqlite3_config(SQLITE_CONFIG_LOG, onLog, nullptr);
    char dir[] = "vtsql-XXXXXX";
    if (!mkdtemp(dir) || chdir(dir) != 0)
        return 2;
    {
        Run run(t, a.seed);
        if (a.script)
        {
            for (const auto& w : vt::readScript(a.script))
            {
                if (w[0] == "Begin")
                    run.begin();
                else
                    run.exec(w);
            }
        }
        else
        {
            vt::Rng& g = run.r;
            while (t.size() < a.n)
            {
                run.begin();
                const int nh = 1 + static_cast<int>(g.below(NH)), nc = 1 + static_cast<int>(g.below(NC));
                const size_t len = 10 + g.below(120);
                for (size_t i = 0; i < len; ++i)
                {
                    const auto S = [](uint64_t x) { return std::to_string(x); };
                    const auto c = S(g.below(nc)), s = S(g.below(NS)), h = S(1 + g.below(nh));
                    switch (g.below(16))
                    {
                    case 0: run.exec({"Open", h}); break;
                    case 1: run.exec({g.chance(30) ? "CloseOwn" : "Open", h}); break;
                    case 2:
                    case 3: run.exec({"Make", c, g.chance(10) ? "0" : h, S(g.below(2))}); break;
                    case 4: run.exec({g.chance(50) ? "Reset" : "Destroy", c, g.chance(20) ? "0" : h, S(g.below(2))}); break;
                    case 5: run.exec({"Prep", c, s, g.pick<const char*>({"sel", "sel", "sel", "bad", "empty"})}); break;
                    case 6:
                    case 7: run.exec({"Step", s}); break;
                    case 8: run.exec({"Finish", s}); break;
                    case 9:
                    case 10: run.exec({"Start", c}); break;
                    case 11: run.exec({"EndT", c, S(g.below(3) ? 1 : 0)}); break;
                    default:
                        run.exec({"Exec", c,
                                g.pick<const char*>({"ins", "ins", "ins", "del", "del", "sel", "begin", "commit", "rollback", "bad", "empty"}),
                                S(1 + g.below(4))});
                    }
                }
            }
        }
    }
    unlink(FILE_NAME);
    unlink("base.db-journal");
    if (chdir("..") != 0)
        return 2;
    rmdir(dir);
    vt::Ev(t, "End");
    return 0;
}
