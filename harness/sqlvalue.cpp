// Values of all column types bound to and read from an in-memory database ("val"), and questions about its schema ("schema").
#include <cmath>
#include <map>
#include <memory_resource>
#include "objects.h"
#include "zserio/SqliteConnection.h"
#include "zserio/SqliteUtil.h"
#include "zserio/ValidationSqliteUtil.h"
#include "zserio/pmr/String.h"
#include "zserio/pmr/Optional.h"

using namespace obj;
using vt::Rng;
namespace
{
using Stmt = std::unique_ptr<sqlite3_stmt, zserio::SqliteFinalizer>;
sqlite3* g_db = nullptr;
Stmt prep(const std::string& q)
{
    sqlite3_stmt* s = nullptr;
    if (sqlite3_prepare_v2(g_db, q.c_str(), -1, &s, nullptr) != SQLITE_OK)
    {
        fprintf(stderr, "%s: %s\n", q.c_str(), sqlite3_errmsg(g_db));
        exit(2);
    }
    return Stmt(s);
}
void sql(const std::string& q)
{
    Stmt s = prep(q);
    if (sqlite3_step(s.get()) != SQLITE_DONE)
        exit(2);
}
std::string cellOf(sqlite3_stmt* s, int i)
{
    switch (sqlite3_column_type(s, i))
    {
    case SQLITE_INTEGER: return "[\"int\"," + ints(vt::bits(static_cast<uint64_t>(sqlite3_column_int64(s, i)), 64)) + "]";
    case SQLITE_FLOAT:
    {
        const double d = sqlite3_column_double(s, i);
        uint64_t b = 0;
        memcpy(&b, &d, 8);
        return "[\"real\"," + ints(vt::bits(b, 64)) + "]";
    }
    case SQLITE_TEXT:
    case SQLITE_BLOB:
    {
        const bool text = sqlite3_column_type(s, i) == SQLITE_TEXT;
        const char* p = static_cast<const char*>(sqlite3_column_blob(s, i));
        const auto n = static_cast<size_t>(sqlite3_column_bytes(s, i));
        return std::string(text ? "[\"text\"," : "[\"blob\",") + ints(vt::chars(std::string_view(p == nullptr ? "" : p, n))) + "]";
    }
    default: return "[\"null\"]";
    }
}

// ------------------------------------------------------------------ values
// the text of a value as the specification knows it
template <typename V>
std::string wide(V v)
{
    return "[\"i\"," + ints(vt::bits(static_cast<uint64_t>(static_cast<int64_t>(v)), 64)) + "]";
}
template <typename T>
std::string valueText(const T& x)
{
    if constexpr (std::is_enum_v<T>)
        return wide(static_cast<std::underlying_type_t<T>>(x));
    else if constexpr (zserio::is_bitmask_v<T>)
        return wide(x.getValue());
    else if constexpr (std::is_same_v<T, zserio::Bool>)
        return wide(x ? 1 : 0);
    else if constexpr (std::is_same_v<T, zserio::String> || std::is_same_v<T, zserio::pmr::String>)
        return "[\"s\"," + ints(vt::chars(x)) + "]";
    else if constexpr (zserio::is_numeric_wrapper_v<T>)
    {
        using V = typename T::ValueType;
        if constexpr (std::is_same_v<V, float>)
        {
            const float f = x;
            uint32_t b = 0;
            memcpy(&b, &f, 4);
            return "[\"f\"," + ints(vt::bits(b, 32)) + "]";
        }
        else if constexpr (std::is_same_v<V, double>)
        {
            const double f = x;
            uint64_t b = 0;
            memcpy(&b, &f, 8);
            return "[\"d\"," + ints(vt::bits(b, 64)) + "]";
        }
        else
            return wide(static_cast<V>(x));
    }
    else
        return node(x);
}
template <typename T>
T someNumber(Rng& g)
{
    using V = typename T::ValueType;
    if constexpr (std::is_same_v<V, bool>)
        return T(g.chance(50));
    else if constexpr (std::is_floating_point_v<V>)
    {
        V f = 0;
        switch (g.below(4))
        {
        case 0: f = static_cast<V>(g.range(-1000, 1000)) / V(4); break;
        case 1: f = static_cast<V>(static_cast<int64_t>(g.next())); break;
        default:
        {
            // any bit pattern: small, large, infinite, not a number
            uint64_t b = g.next();
            if (g.chance(40))
                b = g.pick<uint64_t>({0, 1, 0x7ff0000000000000ULL, 0xfff0000000000000ULL, 0x7ff8000000000000ULL, 0x8000000000000000ULL,
                        0x7f8000007fefffffULL, 0xff80000000800000ULL, 0x000fffff7fc00000ULL, 0x7f80000000000001ULL});
            const uint32_t low = static_cast<uint32_t>(g.chance(50) ? b : b >> 32);
            if constexpr (sizeof(V) == 4)
                memcpy(&f, &low, 4);
            else
                memcpy(&f, &b, 8);
        }
        }
        return T(f);
    }
    else
    {
        uint64_t m = g.magnitude(sizeof(V) * 8);
        if (std::is_signed_v<V> && g.chance(50))
            m = ~m;
        return T(static_cast<V>(m));
    }
}

struct Kind
{
    virtual ~Kind() = default;
    virtual bool put(vt::Trace& t, Rng& g, int row) = 0;
    virtual void get(vt::Trace& t, int row) = 0;
};
std::string store() // all cells of the table, as SQLite reports them
{
    std::string r = "[";
    Stmt s = prep("SELECT a, b, c, d FROM t ORDER BY k");
    while (sqlite3_step(s.get()) == SQLITE_ROW)
    {
        r += r.size() > 1 ? ",[" : "[";
        for (int i = 0; i < 4; ++i)
            r += (i ? "," : "") + cellOf(s.get(), i);
        r += "]";
    }
    return r + "]";
}
int columnOf(std::string_view type)
{
    return type == "INTEGER" ? 0 : type == "REAL" ? 1 : type == "TEXT" ? 2 : type == "BLOB" ? 3 : -1;
}
template <typename T, typename OPT>
struct Typed : Kind
{
    std::string name;
    explicit Typed(const char* n) : name(n) {}
    using Traits = zserio::detail::ColumnTraits<T>;
    static constexpr bool OBJECT = Shape<T>::kind != 0;
    std::map<int, typename Par<T>::type> pars;
    T random(Rng& g)
    {
        if constexpr (std::is_same_v<T, zserio::String> || std::is_same_v<T, zserio::pmr::String>)
        {
            std::string s = rndText(g, g.chance(20) ? 40 : 6);
            if (g.chance(30))
                s.insert(g.below(s.size() + 1), 1, '\0');
            return T(s.data(), s.size());
        }
        else if constexpr (zserio::is_numeric_wrapper_v<T>)
            return someNumber<T>(g);
        else
        {
            T x{};
            Gen{g, OBJECT ? 5U : 0U}(x);
            return x;
        }
    }
    bool put(vt::Trace& t, Rng& g, int row) override
    {
        const int col = columnOf(Traits::TYPE_NAME);
        const T x = random(g);
        typename Par<T>::type par;
        std::apply([&](auto&... f) { (Gen{g, 0U}(f), ...); }, par);
        Stmt s = prep(std::string("UPDATE t SET ") + (col < 0 ? "d" : std::string(1, static_cast<char>('a' + col))) + " = ? WHERE k = ?");
        bool ok = false;
        int res = SQLITE_OK;
        const auto alloc = std::allocator<uint8_t>();
        try
        {
            if constexpr (OBJECT)
                std::apply(
                        [&](const auto&... a) {
                            const zserio::View<T> v(x, a...);
                            const auto size = zserio::detail::prepareColumn(v);
                            res = zserio::detail::bindColumn(*s, 1, v, size, alloc);
                        },
                        par);
            else if constexpr (std::is_same_v<T, zserio::String> || std::is_same_v<T, zserio::pmr::String>)
            {
                // the text may be part of a longer one
                const std::string longer = "<" + std::string(x) + "tail";
                const std::string_view v = std::string_view(longer).substr(1, x.size());
                const std::string_view w = x.empty() && g.chance(50) ? std::string_view() : v;
                res = zserio::detail::bindColumn(*s, 1, w, zserio::detail::prepareColumn(w), alloc);
            }
            else
                res = zserio::detail::bindColumn(*s, 1, x, zserio::detail::prepareColumn(x), alloc);
            ok = res == SQLITE_OK;
        }
        catch (const std::exception&)
        {}
        if (ok)
        {
            pars[row] = par;
            sqlite3_bind_int(s.get(), 2, row);
            ok = sqlite3_step(s.get()) == SQLITE_DONE;
        }
        s.reset();
        vt::Ev e(t, "Put");
        e.s("t", name).i("row", row).raw("v", valueText(x)).raw("a", nodes(par)).b("ok", ok).s("type", Traits::TYPE_NAME).i("code", Traits::TYPE);
        e.raw("cells", store());
        return ok;
    }
    void get(vt::Trace& t, int row) override
    {
        const int col = columnOf(Traits::TYPE_NAME);
        Stmt s = prep("SELECT b, a, d, c FROM t WHERE k = " + std::to_string(row));
        static const int place[] = {1, 0, 3, 2};
        if (sqlite3_step(s.get()) != SQLITE_ROW || col < 0)
            exit(2);
        const int i = place[col];
        OPT x;
        bool ok = true;
        std::string v = "[\"n\"]";
        try
        {
            if (sqlite3_column_type(s.get(), i) != SQLITE_NULL)
            {
                if constexpr (OBJECT)
                    std::apply([&](const auto&... a) { zserio::detail::readColumn(x, *s, i, a...); }, pars[row]);
                else
                    zserio::detail::readColumn(x, *s, i);
            }
            if (x.has_value())
                v = valueText(*x);
        }
        catch (const std::exception&)
        {
            ok = false;
        }
        s.reset();
        vt::Ev e(t, "Get");
        e.s("t", name).i("row", row).b("ok", ok).raw("v", v).raw("cells", store());
    }
};
template <typename T>
using Opt = zserio::Optional<T>;

std::vector<std::unique_ptr<Kind>> kinds()
{
    std::vector<std::unique_ptr<Kind>> r;
#define N_(T) r.push_back(std::make_unique<Typed<zserio::T, Opt<zserio::T>>>(#T));
    N_(Bool) N_(Int8) N_(Int16) N_(Int32) N_(Int64) N_(UInt8) N_(UInt16) N_(UInt32) N_(UInt64) N_(Int5) N_(UInt13) N_(Int33) N_(UInt63)
    N_(VarInt16) N_(VarInt32) N_(VarInt64) N_(VarInt) N_(VarUInt16) N_(VarUInt32) N_(VarUInt64) N_(VarUInt) N_(VarSize)
    N_(Float16) N_(Float32) N_(Float64) N_(String)
    N_(Bool) N_(UInt64) N_(String) N_(Float64) N_(Float32)
#undef N_
    r.push_back(std::make_unique<Typed<zserio::pmr::String, zserio::pmr::Optional<zserio::pmr::String>>>("String"));
#define O_(T) r.push_back(std::make_unique<Typed<T, Opt<T>>>(#T));
    O_(CreatorEnum) O_(CreatorUnsignedEnum) O_(ReflectableEnum) O_(ReflectableUtilEnum)
    O_(CreatorBitmask) O_(WalkerBitmask) O_(ReflectableBitmask) O_(ReflectableUtilBitmask)
    O_(CreatorNested) O_(CreatorObject) O_(WalkerNested) O_(WalkerObject) O_(ReflectableUtilChoice) O_(ReflectableUtilUnion) O_(WalkerChoice)
    O_(DebugStringParamObject) O_(ReflectableChoice) O_(WalkerUnion)
#undef O_
    return r;
}
void values(vt::Trace& t, Rng& g, size_t n)
{
    auto ks = kinds();
    while (t.size() < n)
    {
        sql("DROP TABLE IF EXISTS t");
        sql("CREATE TABLE t(k INTEGER PRIMARY KEY, a INTEGER, b REAL, c TEXT, d BLOB)");
        const int rows = 3;
        for (int i = 1; i <= rows; ++i)
            sql("INSERT INTO t(k) VALUES (" + std::to_string(i) + ")");
        vt::Ev(t, "Begin").i("rows", rows);
        std::map<std::pair<int, int>, Kind*> last;
        for (size_t j = 0; j < 12; ++j)
        {
            Kind* k = ks[g.below(ks.size())].get();
            const int row = 1 + static_cast<int>(g.below(rows));
            const std::string before = store();
            if (k->put(t, g, row))
                k->get(t, row);
            if (g.chance(15))
            {
                const int c = static_cast<int>(g.below(4));
                const int r = 1 + static_cast<int>(g.below(rows));
                sql(std::string("UPDATE t SET ") + static_cast<char>('a' + c) + " = NULL WHERE k = " + std::to_string(r));
                vt::Ev(t, "Null").i("row", r).i("c", c + 1).raw("cells", store());
                ks[g.below(ks.size())]->get(t, r); // of whichever type: absent, or a value nobody promised
            }
        }
    }
}

// ------------------------------------------------------------------ schema
struct Schema
{
    vt::Trace& t;
    Rng& g;
    zserio::SqliteConnection con{g_db, zserio::SqliteConnection::EXTERNAL_CONNECTION};
    const std::vector<std::string> tables = {"a", "ab", "abc", "Tab_1"};
    const std::vector<std::string> names = {"x", "xy", "x1", "y", "_z", "ident", "textCol", "name_with_underscores_1"};
    const std::vector<std::string> types = {"INTEGER", "REAL", "TEXT", "BLOB", "", "NUMERIC", "VARCHAR(10)", "INT UNSIGNED"};
    bool attached = false;
    std::string s1, s2, s3;
    std::string_view part(std::string& store, const std::string& s)
    {
        store = s + (g.chance(60) ? g.pick<const char*>({"b", "c", "1", ")", ";", " x"}) : "");
        return std::string_view(store).substr(0, s.size());
    }
    void create(const std::string& db, const std::string& tab)
    {
        std::vector<std::string> ns = names;
        for (size_t i = ns.size(); i > 1; --i)
            std::swap(ns[i - 1], ns[g.below(i)]);
        ns.resize(1 + g.below(5));
        const int kind = static_cast<int>(g.below(8)); // 0: search table with hidden columns, 1: table without row numbers, 2: computed columns
        std::string q, cols = "[", hidden = "[";
        const std::string full = db + "." + tab;
        if (kind == 0)
        {
            for (const auto& x : ns)
            {
                q += (q.empty() ? "" : ", ") + x;
                cols += (cols.size() > 1 ? "," : "") + ("[\"" + x + "\",\"\",0,0]");
            }
            hidden += "\"" + tab + "\",\"rank\"";
            q = "CREATE VIRTUAL TABLE " + full + " USING fts5(" + q + ")";
        }
        else
        {
            // which columns are in the primary key, in any order
            std::vector<size_t> pk;
            for (size_t i = 0; i < ns.size(); ++i)
                if (g.chance(35))
                    pk.insert(pk.begin() + static_cast<long>(g.below(pk.size() + 1)), i);
            if (kind == 1 && pk.empty())
                pk.push_back(g.below(ns.size()));
            const bool inPlace = pk.size() == 1 && g.chance(50);
            for (size_t i = 0; i < ns.size(); ++i)
            {
                const bool key = std::find(pk.begin(), pk.end(), i) != pk.end();
                const bool nn = g.chance(40);
                const std::string ty = g.pick(types);
                q += (i ? ", " : "") + ns[i] + " " + ty + (inPlace && key ? " PRIMARY KEY" : "") + (nn ? " NOT NULL" : "");
                cols += (i ? "," : "") + ("[\"" + ns[i] + "\",\"" + ty + "\"," + (nn || (kind == 1 && key) ? "1" : "0") + "," + (key ? "1" : "0") + "]");
            }
            if (kind == 2)
            {
                q += ", gen AS (" + ns[0] + ")";
                hidden += "\"gen\"";
            }
            if (!pk.empty() && !inPlace)
            {
                q += ", PRIMARY KEY(";
                for (size_t i = 0; i < pk.size(); ++i)
                    q += (i ? ", " : "") + ns[pk[i]];
                q += ")";
            }
            q = "CREATE TABLE " + full + "(" + q + ")" + (kind == 1 ? " WITHOUT ROWID" : "");
        }
        sql(q);
        vt::Ev(t, "Create").s("db", db).s("tab", tab).raw("cols", cols + "]").raw("hidden", hidden + "]");
    }
    bool has(const std::string& db, const std::string& tab)
    {
        if (db == "aux" && !attached)
            return false;
        Stmt s = prep("SELECT count(*) FROM " + db + ".sqlite_master WHERE name = '" + tab + "'");
        sqlite3_step(s.get());
        return sqlite3_column_int(s.get(), 0) != 0;
    }
    void insert(const std::string& db, const std::string& tab)
    {
        // a row with a value for every column
        Stmt s = prep("SELECT * FROM " + db + "." + tab + " LIMIT 0");
        const int n = sqlite3_column_count(s.get());
        std::string q, c;
        int m = 0;
        for (int i = 0; i < n; ++i)
        {
            const std::string name = sqlite3_column_name(s.get(), i);
            if (name == "gen")
                continue;
            c += (m ? "," : "") + name;
            q += (m ? "," : "") + std::to_string(counter);
            ++m;
        }
        ++counter;
        s.reset();
        sql("INSERT INTO " + db + "." + tab + "(" + c + ") VALUES (" + q + ")");
        vt::Ev(t, "Row").s("db", db).s("tab", tab);
    }
    int counter = 1;
    template <typename ALLOC>
    void ask(const std::string& db, const std::string& tab, const std::string& col, const ALLOC& alloc)
    {
        using U = zserio::ValidationSqliteUtil<ALLOC>;
        switch (g.below(3))
        {
        case 0:
        {
            bool ok = true;
            size_t n = 0;
            try
            {
                n = U::getNumberOfTableRows(con, part(s1, db), part(s2, tab), alloc);
            }
            catch (const zserio::SqliteException&)
            {
                ok = false;
            }
            vt::Ev(t, "Count").s("db", db).s("tab", tab).b("ok", ok).i("n", static_cast<int64_t>(n));
            break;
        }
        case 1:
        {
            typename U::TableSchema schema(alloc);
            bool ok = true;
            try
            {
                U::getTableSchema(con, part(s1, db), part(s2, tab), schema, alloc);
            }
            catch (const zserio::SqliteException&)
            {
                ok = false;
            }
            std::string r = "[";
            for (const auto& [name, d] : schema)
                r += (r.size() > 1 ? "," : "") +
                        ("[\"" + std::string(name) + "\",\"" + std::string(d.name) + "\",\"" + std::string(d.type) + "\"," + (d.isNotNull ? "1" : "0") + "," +
                                (d.isPrimaryKey ? "1" : "0") + "]");
            vt::Ev(t, "Columns").s("db", db).s("tab", tab).b("ok", ok).raw("r", r + "]");
            break;
        }
        default:
        {
            bool ok = true, r = false;
            try
            {
                r = U::isColumnInTable(con, part(s1, db), part(s2, tab), part(s3, col), alloc);
            }
            catch (const std::exception&)
            {
                ok = false;
            }
            vt::Ev(t, "Has").s("db", db).s("tab", tab).s("col", col).b("ok", ok).b("r", r);
        }
        }
        int open = 0; // statements left behind
        for (sqlite3_stmt* q = nullptr; (q = sqlite3_next_stmt(g_db, q)) != nullptr;)
        {
            const std::string_view text = sqlite3_sql(q);
            bool inner = false; // kept by the search tables themselves
            for (const char* x : {"_data", "data_version", "_idx", "_content", "_docsize", "_config"})
                inner = inner || text.find(x) != std::string_view::npos;
            open += inner ? 0 : 1;
        }
        if (open != 0)
            vt::Ev(t, "Leak").i("n", open);
    }
    void run(size_t n)
    {
        for (int c = -2; c < 10; ++c)
            vt::Ev(t, "TypeName").i("c", c).s("r", zserio::ValidationSqliteUtil<std::allocator<uint8_t>>::sqliteColumnTypeName(c));
        while (t.size() < n)
        {
            const std::string db = g.pick<const char*>({"main", "aux"}), tab = g.pick(tables);
            const std::string q = g.chance(35) ? "" : db;
            const std::string col = g.chance(20) ? g.pick<const char*>({"rank", "gen", "a", "nothing"}) : g.pick(names);
            switch (g.below(12))
            {
            case 0:
                if (!attached)
                    sql("ATTACH ':memory:' AS aux");
                else if (g.chance(30))
                    sql("DETACH aux");
                else
                    break;
                attached = !attached;
                vt::Ev(t, attached ? "Attach" : "Detach");
                break;
            case 1:
            case 2:
                if ((db == "main" || attached) && !has(db, tab))
                    create(db, tab);
                break;
            case 3:
                if (has(db, tab) && g.chance(40))
                {
                    sql("DROP TABLE " + db + "." + tab);
                    vt::Ev(t, "Drop").s("db", db).s("tab", tab);
                }
                break;
            case 4:
            case 5:
                if (has(db, tab))
                    insert(db, tab);
                break;
            default:
                if (g.chance(50))
                    ask(q, tab, col, std::allocator<uint8_t>());
                else
                    ask(q, tab, col, std::pmr::polymorphic_allocator<uint8_t>());
            }
        }
        // without a database every question about contents is refused
        con.reset();
        vt::Ev(t, "Unlink");
        ask("", "a", "x", std::allocator<uint8_t>());
    }
};
} // namespace

int main(int argc, char** argv)
{
    const vt::Args args(argc, argv);
    vt::Trace t(args.out);
    Rng g(args.seed);
    if (sqlite3_open(":memory:", &g_db) != SQLITE_OK)
        return 2;
    if (args.mode == "schema")
        Schema{t, g}.run(args.n);
    else
        values(t, g, args.n);
    sqlite3_close(g_db);
    vt::Ev(t, "End");
    return 0;
}
