// Selections of rows by SQL against an evaluator that looks at every combination of rows
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <optional>

#include "common.h"
#include "eckit/sql/SQLColumn.h"
#include "eckit/sql/SQLDatabase.h"
#include "eckit/sql/SQLOutput.h"
#include "eckit/sql/SQLParser.h"
#include "eckit/sql/SQLSelect.h"
#include "eckit/sql/SQLSession.h"
#include "eckit/sql/SQLStatement.h"
#include "eckit/sql/SQLTable.h"
#include "eckit/sql/expression/SQLExpressions.h"
#include "eckit/sql/type/SQLBitfield.h"
#include "eckit/sql/type/SQLType.h"

using namespace eckit::sql;

// ------------------------------------------------------------------------------------------ tables

struct Val {
    bool missing = false;
    bool str     = false;
    double num   = 0;
    std::string s;
    Val() {}
    Val(double d) : num(d) {}
    Val(int d) : num(d) {}
    Val(const char* t) : str(true), s(t) {}
    Val(const std::string& t) : str(true), s(t) {}
    bool operator==(const Val& o) const {
        return missing == o.missing && (missing || (str == o.str && (str ? s == o.s : num == o.num)));
    }
    bool operator<(const Val& o) const {
        if (missing != o.missing) {
            return missing;
        }
        if (missing) {
            return false;
        }
        return str ? s < o.s : num < o.num;
    }
    std::string text() const {
        if (missing) {
            return "NULL";
        }
        if (str) {
            return "'" + s + "'";
        }
        char b[40];
        snprintf(b, sizeof(b), "%.10g", num);
        return b;
    }
};
static Val NIL() {
    Val v;
    v.missing = true;
    return v;
}
using Row  = std::vector<Val>;
using Rows = std::vector<Row>;

struct Col {
    std::string name;
    char type;  // i, r, s, b
    double nil;
};

static const double NIL_I = 2147483647, NIL_R = -2147483647;

struct Table {
    std::string name;
    std::vector<Col> cols;
    Rows rows;
    size_t change = 1000;  // from this row on, other numbers stand for missing values
};

class Memory : public SQLTable {
public:
    Memory(SQLDatabase& db, const Table& t) : SQLTable(db, "path/" + t.name, t.name), t_(t) {
        std::vector<std::string> bn{"b1", "b2", "b3"};
        std::vector<int32_t> bs{1, 2, 1};
        int n = 0;
        for (auto& c : t_.cols) {
            if (c.type == 'i') {
                addColumn(c.name, n, type::SQLType::lookup("integer"), true, c.nil);
            }
            else if (c.type == 'r') {
                addColumn(c.name, n, type::SQLType::lookup("real"), true, c.nil);
            }
            else if (c.type == 's') {
                addColumn(c.name, n, type::SQLType::lookup("string", 1), false, 0);
            }
            else {
                std::string b = type::SQLBitfield::make("Bitfield", bn, bs, "dummy");
                addColumn(c.name, n, type::SQLType::lookup(b), false, 0, true, std::make_pair(bn, bs));
            }
            n++;
        }
    }

private:
    struct It : SQLTableIterator {
        const Memory& o;
        std::vector<size_t> index, off, width;
        std::vector<char> hasNil;
        std::vector<double> nils, cells;
        std::vector<size_t> w;  // widths of all columns
        size_t at = 0;
        std::function<void(SQLTableIterator&)> cb;
        It(const Memory& m, const std::vector<std::reference_wrapper<const SQLColumn>>& cs,
           std::function<void(SQLTableIterator&)> f) :
            o(m), cb(f) {
            for (auto& c : cs) {
                index.push_back(c.get().index());
            }
            w.assign(o.t_.cols.size(), 1);
            cells.assign(64, 0);
            layout();
        }
        void layout() {
            off.clear();
            width.clear();
            hasNil.clear();
            nils.clear();
            size_t p = 0;
            for (size_t i : index) {
                off.push_back(p);
                width.push_back(w[i]);
                p += w[i];
                hasNil.push_back(o.t_.cols[i].type == 'i' || o.t_.cols[i].type == 'r');
                nils.push_back(nil(i));
            }
        }
        double nil(size_t i) const { return at > o.t_.change ? -1000 - double(i) : o.t_.cols[i].nil; }
        void rewind() override { at = 0; }
        bool next() override {
            if (at >= o.t_.rows.size()) {
                return false;
            }
            const Row& r = o.t_.rows[at++];
            bool grown   = at == 1 || at == o.t_.change + 1;
            for (size_t i : index) {
                if (o.t_.cols[i].type == 's') {
                    size_t need = r[i].s.empty() ? 1 : (r[i].s.size() + 7) / 8;
                    if (need > w[i]) {
                        w[i]  = need;
                        grown = true;
                    }
                }
            }
            if (grown) {
                layout();
                cb(*this);
            }
            for (size_t k = 0; k < index.size(); k++) {
                size_t i = index[k];
                if (o.t_.cols[i].type == 's') {
                    memset(&cells[off[k]], 0, 8 * w[i]);
                    memcpy(&cells[off[k]], r[i].s.data(), r[i].s.size());
                }
                else {
                    cells[off[k]] = r[i].missing ? nil(i) : r[i].num;
                }
            }
            return true;
        }
        std::vector<size_t> columnOffsets() const override { return off; }
        std::vector<size_t> doublesDataSizes() const override { return width; }
        std::vector<char> columnsHaveMissing() const override { return hasNil; }
        std::vector<double> missingValues() const override { return nils; }
        const double* data() const override { return &cells[0]; }
    };
    SQLTableIterator* iterator(const std::vector<std::reference_wrapper<const SQLColumn>>& cs,
                               std::function<void(SQLTableIterator&)> cb) const override {
        return new It(*this, cs, cb);
    }
    Table t_;
};

class Collect : public SQLOutput {
public:
    Rows rows, done;
    Row cur;
    void cleanup(SQLSelect&) override {}
    void reset() override { rows.clear(); }
    void flush() override { done = rows; }
    bool output(const expression::Expressions& results) override {
        cur.clear();
        for (auto& r : results) {
            r->output(*this);
        }
        rows.push_back(cur);
        return true;
    }
    void prepare(SQLSelect&) override {}
    void num(double d, bool m) { cur.push_back(m ? NIL() : Val(d)); }
    void outputReal(double d, bool m) override { num(d, m); }
    void outputDouble(double d, bool m) override { num(d, m); }
    void outputInt(double d, bool m) override { num(d, m); }
    void outputUnsignedInt(double d, bool m) override { num(d, m); }
    void outputBitfield(double d, bool m) override { num(d, m); }
    void outputString(const char* s, size_t l, bool m) override { cur.push_back(m ? NIL() : Val(std::string(s, l))); }
    unsigned long long count() override { return rows.size(); }
};

static std::string text(const Row& r) {
    std::string s = "(";
    for (auto& v : r) {
        s += (s.size() > 1 ? "," : "") + v.text();
    }
    return s + ")";
}
static std::string text(const Rows& r) {
    std::string s;
    for (auto& x : r) {
        s += text(x);
    }
    return s.empty() ? "nothing" : s;
}

// runs a statement `times` times; the results must be the same
static Rows select(mc::Ctx& c, const std::vector<Table>& tables, const std::string& sql, int times = 1) {
    std::cout.rdbuf(nullptr);
    SQLSession session(std::unique_ptr<SQLOutput>(new Collect));
    SQLDatabase& db(session.currentDatabase());
    for (auto& t : tables) {
        db.addTable(new Memory(db, t));
    }
    Collect& o = static_cast<Collect&>(session.output());
    SQLParser::parseString(session, sql);
    Rows first;
    for (int i = 0; i < times; i++) {
        session.statement().execute();
        if (i == 0) {
            first = o.done;
        }
        else {
            MC_CHECK(c, first == o.done, sql, " gives ", text(first), " and, executed again, ", text(o.done));
        }
    }
    return first;
}

// ------------------------------------------------------------------------------------------ conditions

// an expression over the row, with its text; T: value of a condition is 0, 1 or missing
struct Ex {
    std::string sql;
    std::function<Val(const Row&)> f;
};

static Val b3(int t) {  // 0, 1, -1: not known
    return t < 0 ? NIL() : Val(t);
}
static int t3(const Val& v) {
    return v.missing ? -1 : v.num != 0;
}
static Val and3(const Val& a, const Val& b) {
    int x = t3(a), y = t3(b);
    return b3(x == 0 || y == 0 ? 0 : (x < 0 || y < 0 ? -1 : 1));
}
static Val or3(const Val& a, const Val& b) {
    int x = t3(a), y = t3(b);
    return b3(x == 1 || y == 1 ? 1 : (x < 0 || y < 0 ? -1 : 0));
}
static Val not3(const Val& a) {
    int x = t3(a);
    return b3(x < 0 ? -1 : 1 - x);
}
static std::string trimmed(const std::string& s) {
    size_t a = s.find_first_not_of("\t\n\v\f\r "), b = s.find_last_not_of("\t\n\v\f\r ");
    return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
static Val cmp(const std::string& op, const Val& a, const Val& b) {
    if (a.missing || b.missing) {
        return NIL();
    }
    if (a.str) {
        bool e = trimmed(a.s) == trimmed(b.s);
        return Val(op == "=" ? e : !e);
    }
    double x = a.num, y = b.num;
    return Val(int(op == "=" ? x == y : op == "<>" ? x != y : op == "<" ? x < y : op == ">" ? x > y : op == "<=" ? x <= y : x >= y));
}

static Ex col(const std::string& n, int i) {
    return {n, [i](const Row& r) { return r[i]; }};
}
static Ex num(const std::string& n) {
    double d = atof(n.c_str());
    return {n, [d](const Row&) { return Val(d); }};
}
static Ex str(const std::string& s) {
    return {"'" + s + "'", [s](const Row&) { return Val(s); }};
}
static Ex rel(Ex a, const std::string& op, Ex b) {
    return {a.sql + " " + op + " " + b.sql, [=](const Row& r) { return cmp(op, a.f(r), b.f(r)); }};
}
static Ex And(Ex a, Ex b) {
    return {a.sql + " and " + b.sql, [=](const Row& r) { return and3(a.f(r), b.f(r)); }};
}
static Ex Or(Ex a, Ex b) {
    return {a.sql + " or " + b.sql, [=](const Row& r) { return or3(a.f(r), b.f(r)); }};
}
static Ex Not(Ex a) {
    return {"not " + a.sql, [=](const Row& r) { return not3(a.f(r)); }};
}
static Ex par(Ex a) {
    return {"(" + a.sql + ")", a.f};
}
static Ex isNull(Ex a, bool is = true) {
    return {a.sql + (is ? " is null" : " is not null"), [=](const Row& r) { return Val(int(a.f(r).missing == is)); }};
}
static Ex in(Ex a, std::vector<Ex> l, bool is = true) {
    std::string s = a.sql + (is ? " in (" : " not in (");
    for (size_t i = 0; i < l.size(); i++) {
        s += (i ? ", " : "") + l[i].sql;
    }
    return {s + ")", [=](const Row& r) {
                Val v = Val(0);
                for (auto& e : l) {
                    v = or3(v, cmp("=", a.f(r), e.f(r)));
                }
                return is ? v : not3(v);
            }};
}
static Ex between(Ex a, Ex lo, Ex hi, bool is = true) {
    return {a.sql + (is ? " between " : " not between ") + lo.sql + " and " + hi.sql, [=](const Row& r) {
                Val x = a.f(r), l = lo.f(r), h = hi.f(r);
                if (x.missing || l.missing || h.missing) {
                    return NIL();
                }
                return Val(int((x.num >= l.num && x.num <= h.num) == is));
            }};
}
static Ex like(Ex a, const std::string& re, std::function<bool(const std::string&)> m, const std::string& op = "like") {
    return {a.sql + " " + op + " '" + re + "'", [=](const Row& r) {
                Val x = a.f(r);
                return Val(int(m(trimmed(x.s))));
            }};
}

// columns i, r, s, b of table t
static Table T() {
    return {"t", {{"i", 'i', NIL_I}, {"r", 'r', NIL_R}, {"s", 's', 0}, {"b", 'b', 0}}, {}};
}
static const Ex I = col("i", 0), R = col("r", 1), S = col("s", 2);
static Ex bit(const std::string& n, int sh, int mask) {
    return {"b." + n, [=](const Row& r) { return Val(double((int(r[3].num) >> sh) & mask)); }};
}

static const std::vector<Ex>& atoms() {
    static const std::vector<Ex> v{
        rel(I, "=", num("1")),
        rel(I, "<", R),
        rel(R, ">=", num("1.5")),
        rel(I, "<>", num("0")),
        isNull(I),
        isNull(R, false),
        in(I, {num("0"), num("2")}),
        in(I, {num("1"), R}, false),
        between(I, num("1"), R),
        rel(S, "=", str("ab")),
        rel(bit("b2", 1, 3), ">", num("1")),
        num("1"),
        num("0"),
        I,
        rel(num("1"), "<=", R),
        rel(S, "<>", str("abcdefghij")),
        in(S, {str("ab"), str("abcdefghij")}),
        between(R, num("0"), I, false),
        {"0 < i <= 1", [](const Row& r) { return and3(cmp("<", Val(0), r[0]), cmp("<=", r[0], Val(1))); }},
        rel(I, "=", R),
        like(S, "^a.*j$", [](const std::string& s) { return s.size() > 1 && s[0] == 'a' && s.back() == 'j'; }),
        isNull(par(rel(I, "=", R))),
        rel(I, "=", I),
        rel(S, "=", S),
        like(S, "ghi", [](const std::string& s) { return s.find("ghi") != std::string::npos; }, "rlike"),
        rel(num("2"), ">", num("1")),
    };
    return v;
}

// every combination of values there is, in a table whose strings grow
static Table everything() {
    Table t = T();
    int k   = 0;
    for (const char* s : {"", "ab", " ab ", "abcdefghij", "abcdefgh"}) {
        for (Val i : {NIL(), Val(0), Val(1), Val(2)}) {
            for (Val r : {NIL(), Val(1), Val(1.5)}) {
                t.rows.push_back({i, r, Val(s), Val((k * 5) % 16)});
                k++;
            }
        }
    }
    t.change = t.rows.size() / 2;
    return t;
}

static void checkWhere(mc::Ctx& c, const Ex& e) {
    Table t  = everything();
    auto got = select(c, {t}, "select i, r, s, b from t where " + e.sql + ";", 2);
    Rows want;
    for (auto& r : t.rows) {
        if (t3(e.f(r)) == 1) {
            want.push_back(r);
        }
    }
    c.state(e.sql);
    c.outcome(want.empty() ? "none" : want.size() == t.rows.size() ? "all" : "some");
    if (!want.empty() && want.size() != t.rows.size()) {
        c.nontrivial();
    }
    if (got != want) {
        std::string d;
        Rows g = got;
        for (auto& r : want) {
            auto it = std::find(g.begin(), g.end(), r);
            if (it == g.end()) {
                d += " missing " + text(r);
            }
            else {
                g.erase(it);
            }
        }
        for (auto& r : g) {
            d += " wrong " + text(r);
        }
        c.fail("where " + e.sql + ":" + d.substr(0, 200));
    }
}

MC_SECTION("where", [](mc::Ctx& c) {
    auto& A = atoms();
    int op  = c.choose(8);
    Ex a    = A[c.choose(A.size())];
    if (op == 0) {
        return checkWhere(c, a);
    }
    if (op == 1) {
        return checkWhere(c, Not(a));
    }
    Ex b = A[c.choose(A.size())];
    switch (op) {
        case 2: return checkWhere(c, And(a, b));
        case 3: return checkWhere(c, Or(a, b));
        case 4: return checkWhere(c, Not(par(And(a, b))));
        case 5: return checkWhere(c, Not(par(Or(a, b))));
        case 6: return checkWhere(c, And(Not(a), b));
        default: return checkWhere(c, Or(a, Not(b)));
    }
}, opts(2));

MC_SECTION("where-three", [](mc::Ctx& c) {
    auto& A = atoms();
    size_t n = c.tier() ? A.size() : 8;
    int op  = c.choose(5);
    Ex a = A[c.choose(n)], b = A[c.choose(n)], d = A[c.choose(n)];
    switch (op) {
        // and binds more tightly than or
        case 0: return checkWhere(c, {a.sql + " or " + b.sql + " and " + d.sql, Or(a, And(b, d)).f});
        case 1: return checkWhere(c, {a.sql + " and " + b.sql + " or " + d.sql, Or(And(a, b), d).f});
        case 2: return checkWhere(c, And(par(Or(a, b)), d));
        case 3: return checkWhere(c, And(And(a, b), d));
        default: return checkWhere(c, And(a, Not(par(Or(b, d)))));
    }
}, opts(2));

// ------------------------------------------------------------------------------------------ order and distinct

struct Key {
    Ex e;
    bool desc;
};

static const char* STR[] = {"b", "abcdefghi", "abcdefghj", ""};

MC_SECTION("order-distinct", [](mc::Ctx& c) {
    Table t  = T();
    int n    = c.choose(c.tier() ? 5 : 4);
    for (int k = 0; k < n; k++) {
        int x = c.choose(3), y = c.choose(4);
        t.rows.push_back({x == 0 ? NIL() : Val(x), Val(k * 0.5), Val(STR[y]), Val(x)});
    }
    static const std::vector<std::vector<int>> OUT{{0}, {2}, {0, 2}, {2, 1}};
    bool distinct = c.flag();
    auto out      = OUT[c.choose(OUT.size())];
    static const std::vector<std::vector<std::pair<int, int>>> BY{
        {}, {{0, 0}}, {{2, 1}}, {{2, 0}, {0, 1}}, {{0, 1}, {2, 1}}, {{-1, 0}}, {{-1, 1}}, {{2, 2}}, {{4, 1}},
    };
    auto by         = BY[c.choose(BY.size())];
    std::string sql = std::string("select ") + (distinct ? "distinct " : "");
    for (size_t k = 0; k < out.size(); k++) {
        sql += (k ? ", " : "") + t.cols[out[k]].name;
    }
    sql += " from t";
    for (size_t k = 0; k < by.size(); k++) {
        sql += (k ? ", " : " order by ") +
               (by[k].first < 0 ? std::string("1") : by[k].first == 4 ? "i * 2" : t.cols[by[k].first].name) +
               (by[k].second == 1 ? " desc" : by[k].second == 0 ? " asc" : "");
    }
    t.change = c.tier() ? 2 : 1;
    // reference: the first row of each value, in a stable order by the keys; missing values come first
    std::vector<std::pair<Row, Row>> rows;
    for (auto& r : t.rows) {
        Row o, k;
        for (int x : out) {
            o.push_back(r[x]);
        }
        for (auto& b : by) {
            k.push_back(b.first < 0 ? o[0] : b.first == 4 ? r[0] : r[b.first]);
        }
        bool old = false;
        for (auto& p : rows) {
            old = old || p.first == o;
        }
        if (!distinct || !old) {
            rows.push_back({o, k});
        }
    }
    std::stable_sort(rows.begin(), rows.end(), [&](const std::pair<Row, Row>& a, const std::pair<Row, Row>& b) {
        for (size_t k = 0; k < by.size(); k++) {
            const Val &x = a.second[k], &y = b.second[k];
            if (!(x == y)) {
                return by[k].second == 1 ? y < x : x < y;
            }
        }
        return false;
    });
    Rows want;
    for (auto& p : rows) {
        want.push_back(p.first);
    }
    c.state(sql);
    if (want.size() > 1) {
        c.nontrivial();
    }
    c.outcome(std::to_string(want.size()));
    auto got = select(c, {t}, sql + ";", 2);
    MC_CHECK(c, got == want, sql, " of ", text(t.rows), " gives ", text(got), ", not ", text(want));
}, opts(3));

// ------------------------------------------------------------------------------------------ aggregates

static Val aggregate(const std::string& fn, const std::vector<Val>& all) {
    std::vector<double> v;
    for (auto& x : all) {
        if (!x.missing) {
            v.push_back(x.num);
        }
    }
    if (fn == "count") {
        return Val(double(v.size()));
    }
    if (fn == "first") {
        return all.front();
    }
    if (fn == "last") {
        return all.back();
    }
    if (v.empty()) {
        return NIL();
    }
    double n = v.size(), s = 0, q = 0;
    for (double x : v) {
        s += x;
        q += x * x;
    }
    double var = 0;
    for (double x : v) {
        var += (x - s / n) * (x - s / n) / n;
    }
    if (fn == "sum") {
        return Val(s);
    }
    if (fn == "avg") {
        return Val(s / n);
    }
    if (fn == "min") {
        return Val(*std::min_element(v.begin(), v.end()));
    }
    if (fn == "max") {
        return Val(*std::max_element(v.begin(), v.end()));
    }
    if (fn == "rms") {
        return Val(std::sqrt(q / n));
    }
    return Val(fn == "var" ? var : std::sqrt(var));
}

static bool near(const Val& a, const Val& b) {
    return a == b || (!a.missing && !b.missing && !a.str && !b.str && std::fabs(a.num - b.num) < 1e-9);
}
static bool near(const Row& a, const Row& b) {
    bool ok = a.size() == b.size();
    for (size_t i = 0; ok && i < a.size(); i++) {
        ok = near(a[i], b[i]);
    }
    return ok;
}
static bool near(const Rows& a, const Rows& b) {
    bool ok = a.size() == b.size();
    for (size_t i = 0; ok && i < a.size(); i++) {
        ok = near(a[i], b[i]);
    }
    return ok;
}

MC_SECTION("aggregates", [](mc::Ctx& c) {
    Table t = T();
    int n   = 1 + c.choose(c.tier() ? 5 : 4);
    for (int k = 0; k < n; k++) {
        static const Val V[] = {NIL(), Val(-2), Val(3)};
        int g                = c.choose(n < 4 ? 3 : 2);
        t.rows.push_back({V[c.choose(3)], g == 1 ? NIL() : Val(1.5 * g), Val(STR[g]), Val(k)});
    }
    int q = c.choose(8);
    std::vector<std::string> fns{"count", "sum", "avg", "min", "max", "first", "last", "var", "stdev", "rms"};
    // groups: indices of the columns by which rows are grouped
    std::vector<int> by;
    std::string sql = "select ";
    if (q == 1 || q == 5) {
        by = {1};
    }
    if (q == 2 || q == 6) {
        by = {2};
    }
    if (q == 3) {
        by = {2, 1};
    }
    bool positive = q >= 4 && q < 7;   // only rows with b > 0
    for (int g : by) {
        sql += t.cols[g].name + ", ";
    }
    std::string sep;
    for (auto& f : fns) {
        sql += sep + f + "(" + (q == 7 ? "i + 1" : "i") + ")";
        sep = ", ";
    }
    sql += ", count(*), 2 * sum(b) + count(*) from t";
    if (positive) {
        sql += " where b > 0";
    }
    if (by.size()) {
        sql += " order by " + t.cols[by[0]].name;
        for (size_t k = 1; k < by.size(); k++) {
            sql += ", " + t.cols[by[k]].name;
        }
        sql += positive ? " desc" : "";
    }
    std::map<Row, std::vector<Val>> groups;
    std::map<Row, double> sums;
    for (auto& r : t.rows) {
        if (positive && r[3].num == 0) {
            continue;
        }
        Row k;
        for (int g : by) {
            k.push_back(r[g]);
        }
        Val v = r[0];
        if (q == 7 && !v.missing) {
            v.num += 1;
        }
        groups[k].push_back(v);
        sums[k] += 2 * r[3].num + 1;
    }
    Rows want;
    for (auto& g : groups) {
        Row r = g.first;
        for (auto& f : fns) {
            r.push_back(aggregate(f, g.second));
        }
        r.push_back(Val(double(g.second.size())));
        r.push_back(Val(sums[g.first]));
        want.push_back(r);
    }
    if (positive) {
        std::reverse(want.begin(), want.end());
    }
    c.state(sql);
    if (n > 1) {
        c.nontrivial();
    }
    c.outcome(std::to_string(want.size()));
    auto got = select(c, {t}, sql + ";", 2);
    if (groups.empty()) {
        return;   // whether there is a row about nothing is left open
    }
    MC_CHECK(c, near(got, want), sql, " of ", text(t.rows), " gives ", text(got), ", not ", text(want));
}, opts(3));

// ------------------------------------------------------------------------------------------ several tables

MC_SECTION("joins", [](mc::Ctx& c) {
    int tables = c.tier() && c.flag() ? 3 : 2;
    std::vector<Table> ts{{"ta", {{"a", 'i', NIL_I}, {"x", 'i', NIL_I}}, {}},
                          {"tb", {{"b", 'i', NIL_I}, {"y", 's', 0}}, {}},
                          {"tc", {{"cc", 'i', NIL_I}, {"z", 'i', NIL_I}}, {}}};
    ts.resize(tables);
    static const Val V[] = {Val(1), Val(2), NIL()};
    for (int t = 0; t < tables; t++) {
        int n = c.choose(tables == 3 ? 3 : 4);
        for (int k = 0; k < n; k++) {
            Val v = V[c.choose(tables == 3 ? 2 : 3)];
            Val w = Val(double(10 * t + k));
            if (t == 1) {
                w = Val(k == 2 ? std::string("a long string") : std::string(1, char('p' + k)));
            }
            ts[t].rows.push_back({v, w});
        }
    }
    // a and b are columns 0 and 2; x and y 1 and 3
    Ex A = col("a", 0), X = col("x", 1), B = col("b", 2), Y = col("y", 3), C = col("cc", 4);
    std::vector<Ex> conds{
        {"", [](const Row&) { return Val(1); }},
        rel(A, "=", B),
        rel(A, "<", B),
        And(rel(A, "=", num("2")), rel(B, "=", num("1"))),
        And(rel(A, "=", B), rel(X, ">", num("0"))),
        Or(rel(A, "=", num("2")), rel(B, "=", num("2"))),
        And(rel(B, "=", A), rel(Y, "<>", str("p"))),
        rel(X, ">", num("0")),
    };
    if (tables == 3) {
        conds = {conds[0], And(rel(A, "=", B), rel(B, "=", C)), rel(A, "=", C), And(rel(B, "<", C), rel(A, "=", num("1")))};
    }
    Ex cond  = conds[c.choose(conds.size())];
    int kind = c.choose(4);
    std::string from = tables == 3 ? (c.flag() ? " from tc, ta, tb" : " from ta, tb, tc") : " from ta, tb";
    std::string sql = kind == 1 ? "select distinct a, b" : kind == 3 ? "select count(*), sum(x), max(b)" : "select x, y, a, b";
    if (tables == 3 && kind != 3) {
        sql += ", cc, z";
    }
    if (tables == 3 && kind == 3) {
        sql += ", min(cc)";
    }
    sql += from + (cond.sql.empty() ? "" : " where " + cond.sql) + (kind == 2 ? " order by b desc, x" : "");
    Rows all{{}};
    for (auto& t : ts) {
        Rows next;
        for (auto& r : all) {
            for (auto& s : t.rows) {
                Row u = r;
                u.insert(u.end(), s.begin(), s.end());
                next.push_back(u);
            }
        }
        all = next;
    }
    Rows want;
    double nsum = 0, nmax = -1, nmin = 1e9, cnt = 0;
    for (auto& r : all) {
        if (t3(cond.f(r)) != 1) {
            continue;
        }
        Row o;
        if (kind == 1) {
            o = {r[0], r[2]};
        }
        else {
            o = {r[1], r[3], r[0], r[2]};
        }
        if (tables == 3) {
            o.push_back(r[4]);
            o.push_back(r[5]);
        }
        if (kind != 1 || std::find(want.begin(), want.end(), o) == want.end()) {
            want.push_back(o);
        }
        cnt += 1;
        nsum += r[1].num;
        nmax = r[2].missing ? nmax : std::max(nmax, r[2].num);
        if (tables == 3) {
            nmin = std::min(nmin, r[4].num);
        }
    }
    c.state(sql);
    if (want.size() > 1) {
        c.nontrivial();
    }
    c.outcome(std::to_string(want.size()));
    auto got = select(c, ts, sql + ";", 2);
    std::string what;
    for (auto& t : ts) {
        what += " " + t.name + text(t.rows);
    }
    if (kind == 3) {
        if (cnt) {
            Row w{Val(cnt), Val(nsum), nmax < 0 ? NIL() : Val(nmax)};
            if (tables == 3) {
                w.push_back(Val(nmin));
            }
            MC_CHECK(c, got.size() == 1 && near(got[0], w), sql, " of", what, " gives ", text(got), ", not ", text(w));
        }
        return;
    }
    if (kind == 2) {
        for (size_t k = 1; k < got.size(); k++) {
            const Row &p = got[k - 1], &q = got[k];
            MC_CHECK(c, q[3] < p[3] || (q[3] == p[3] && !(q[0] < p[0])), sql, " of", what, " is out of order: ", text(got));
        }
    }
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    MC_CHECK(c, got == want, sql, " of", what, " gives ", text(got), ", not ", text(want));
}, opts(3));

// ------------------------------------------------------------------------------------------ expressions

static Val arith(char op, const Val& a, const Val& b) {
    if (op == '*') {
        // nothing times anything is nothing
        if ((!a.missing && a.num == 0) || (!b.missing && b.num == 0)) {
            return Val(0);
        }
    }
    if (a.missing || b.missing) {
        return NIL();
    }
    return Val(op == '+' ? a.num + b.num : op == '-' ? a.num - b.num : op == '*' ? a.num * b.num : a.num / b.num);
}
static Ex bin(Ex a, char op, Ex b) {
    return {a.sql + " " + op + " " + b.sql, [=](const Row& r) { return arith(op, a.f(r), b.f(r)); }};
}
static Ex fun(const std::string& n, Ex a, double (*f)(double)) {
    return {n + "(" + a.sql + ")", [=](const Row& r) {
                Val v = a.f(r);
                return v.missing ? v : Val(f(v.num));
            }};
}

MC_SECTION("expressions", [](mc::Ctx& c) {
    Table t = T();
    for (Val i : {NIL(), Val(0), Val(7), Val(-3)}) {
        for (Val r : {NIL(), Val(2.5), Val(-0.5)}) {
            t.rows.push_back({i, r, Val("ab"), Val(11)});
        }
    }
    std::vector<Ex> A{
        I, R, num("4"), num("-2"), par(bin(I, '-', R)),
        fun("abs", R, [](double x) { return std::fabs(x); }),
        fun("floor", R, [](double x) { return std::floor(x); }),
        {"nvl(i, 100)", [](const Row& r) { return r[0].missing ? Val(100) : r[0]; }},
        {"b.b2", [](const Row& r) { return Val(double((int(r[3].num) >> 1) & 3)); }},
        {"- i", [](const Row& r) { return r[0].missing ? NIL() : Val(-r[0].num); }},
        {"pow(r, 2)", [](const Row& r) { return r[1].missing ? NIL() : Val(r[1].num * r[1].num); }},
        {"i between 0 and 7", between(I, num("0"), num("7")).f},
    };
    size_t n = A.size();
    static const char OPS[] = "+-*/";
    Ex a = A[c.choose(n - 1)], b = A[c.choose(n - 1)];
    int form = c.choose(5);
    char o1 = OPS[c.choose(4)];
    Ex e;
    if (form == 0) {
        e = bin(a, o1, b);
    }
    else {
        Ex d    = A[c.choose(c.tier() ? n - 1 : 4)];
        char o2 = OPS[c.choose(4)];
        if (form == 1) {  // precedence
            bool late = (o1 == '+' || o1 == '-') && (o2 == '*' || o2 == '/');
            e.sql     = a.sql + " " + o1 + " " + b.sql + " " + o2 + " " + d.sql;
            e.f       = late ? std::function<Val(const Row&)>([=](const Row& r) { return arith(o1, a.f(r), arith(o2, b.f(r), d.f(r))); })
                             : [=](const Row& r) { return arith(o2, arith(o1, a.f(r), b.f(r)), d.f(r)); };
        }
        else if (form == 2) {
            e = bin(a, o1, par(bin(b, o2, d)));
        }
        else if (form == 3) {
            Ex l = bin(a, o1, b), h = bin(d, o2, a);
            e    = {"(" + l.sql + " < " + h.sql + ")", [=](const Row& r) { return cmp("<", l.f(r), h.f(r)); }};
        }
        else {
            Ex l = par(bin(a, o1, b));
            e    = {"- " + l.sql + " " + o2 + " " + d.sql, [=](const Row& r) {
                     Val v = l.f(r);
                     v.num = -v.num;
                     return arith(o2, v, d.f(r));
                 }};
        }
    }
    auto got = select(c, {t}, "select " + e.sql + " as v, i, r from t;");
    Rows want;
    for (auto& r : t.rows) {
        want.push_back({e.f(r), r[0], r[1]});
    }
    c.state(e.sql);
    if (form != 0) {
        c.nontrivial();
    }
    MC_CHECK(c, got.size() == want.size(), e.sql, " gives ", got.size(), " rows");
    for (size_t k = 0; k < want.size(); k++) {
        bool nan = !want[k][0].missing && !got[k][0].missing && std::isnan(want[k][0].num) && std::isnan(got[k][0].num);
        MC_CHECK(c, nan || near(got[k], want[k]), e.sql, " of ", text(t.rows[k]), " is ", text(got[k]), ", not ", text(want[k]));
    }
}, opts(2));

// ------------------------------------------------------------------------------------------ texts of statements

MC_SECTION("statements", [](mc::Ctx& c) {
    static const char* W[] = {"select", "i", "*", ",", "from", "t", "where", "=", "1", "order by", "(", ")", "'ab'", "sum", "distinct", "and", "s", "$x", "in", ";", "-", "."};
    int n = 1 + c.choose(c.tier() ? 5 : 4);
    std::string sql = "select";
    for (int k = 0; k < n; k++) {
        sql += std::string(" ") + W[c.choose(sizeof(W) / sizeof(*W))];
    }
    Table t = T();
    t.rows  = {{Val(1), Val(2), Val("ab"), Val(3)}, {Val(2), NIL(), Val("a long text"), Val(4)}};
    try {
        auto r = select(c, {t}, sql + ";", 2);
        c.outcome("selected");
        c.nontrivial();
    }
    catch (eckit::Exception&) {
        c.outcome("refused");
    }
}, opts(2));

MC_SECTION("particular", [](mc::Ctx& c) {
    Table t = T();
    t.rows  = {{Val(1), Val(2), Val("ab"), Val(3)}, {Val(2), NIL(), Val("a long text"), Val(4)}, {NIL(), Val(7), Val(""), Val(15)}};
    struct Case {
        const char* sql;
        const char* want;  // null: refused
    };
    static const Case all[] = {
        {"select * from t;", "(1,2,'ab',3)(2,NULL,'a long text',4)(NULL,7,'',15)"},
        {"select *, i from t where i is not null;", "(1,2,'ab',3,1)(2,NULL,'a long text',4,2)"},
        {"select b.* from t;", "(1,1,0)(0,2,0)(1,3,1)"},
        {"select i from t order by 2;", nullptr},
        {"select i, r from t order by 2 desc;", "(NULL,7)(1,2)(2,NULL)"},
        {"select i from t order by 0;", nullptr},
        {"select nothing from t;", nullptr},
        {"select i from nowhere;", nullptr},
        {"select nothing(i) from t;", nullptr},
        {"select sqrt(i, i) from t;", nullptr},
        {"select sum(*) from t;", nullptr},
        {"select count(*) from t;", "(3)"},
        {"select count(*) from t where 2 > 1;", "(3)"},
        {"SELECT Count(I) FROM t WHERE I IS NOT NULL;", "(2)"},
        {"set $x = 2; select i from t where i = $x;", "(2)"},
        {"set $x = 1 + 1; select $x, i * $x from t where i < $x;", "(2,2)"},
        {"select rownumber(), i from t;", "(1,1)(2,2)(3,NULL)"},
        {"select rownumber(), i from t where i >= 2;", "(2,2)"},
        {"select i as j, r as j from t where i = 1;", "(1,2)"},
        {"select i from t -- a comment\n where i = 2;", "(2)"},
        {"select \"x'y\", 'x\"y' from t where i = 1;", "('x'y','x\"y')"},
        {"select 'it\\'s' from t where i = 1;", "('it's')"},
        {"select 12.5, -3, 1 - -1 from t where i = 1;", "(12.5,-3,2)"},
        {"select s from t where s = \"a long text\";", "('a long text')"},
        {"select i from t where s in ('', 'a long text');", "(2)(NULL)"},
        {"select max(b) + min(b), s from t where i > 0 order by s desc;", "(6,'ab')(8,'a long text')"},
        {"select distinct i = 1 from t;", "(1)(0)(NULL)"},
        {"select i from t where not i = 1;", "(2)"},
        {"select i from t where not not i = 1;", "(1)"},
        {"select i from t where i = 1 or i = 2 and r is null;", "(1)(2)"},
        {"select i, i between 1 and 1 from t;", "(1,1)(2,0)(NULL,NULL)"},
        {"select 1 < i < 3 from t;", "(0)(1)(NULL)"},
        {"select i from t where 0;", "nothing"},
        {"select sum(i) from t group by s;", "(3)"},
        {"select first(s) from t;", nullptr},
        {"select year(20240229), month(20240229), day(20240229), floor(-1.5), ceil(-1.5), int(-1.5), nint(-1.5), abs(-2), mod(7, 3) from t where i = 1;",
         "(2024,2,29,-2,-1,-1,-2,2,1)"},
        {"select hour(235901), minute(235901), second(235901), ibits(13, 1, 2), round from t;", nullptr},
        {"select ibits(13, 0, 1), ibits(13, 1, 2), ibits(-1, 3, 8) from t where i = 1;", "(1,2,255)"},
    };
    const Case& k = all[c.choose(sizeof(all) / sizeof(*all))];
    std::string got;
    c.nontrivial();
    try {
        got = text(select(c, {t}, k.sql, std::string(k.sql).find("rownumber") == std::string::npos ? 2 : 1));
    }
    catch (eckit::Exception& e) {
        MC_CHECK(c, !k.want, k.sql, " is refused: ", e.what());
        return;
    }
    MC_CHECK(c, k.want && got == k.want, k.sql, " gives ", got, ", not ", k.want ? k.want : "an error");
}, opts(1));
