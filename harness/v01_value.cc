// V01: eckit::Value
#include "eckit/io/Buffer.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "eckit/types/Date.h"
#include "eckit/types/DateTime.h"
#include "eckit/types/Time.h"
#include "eckit/utils/MD5.h"
#include "eckit/value/Value.h"
#include "common.h"

using namespace eckit;

namespace {
// the model: a tree
struct M {
    enum T { NIL, NUM, STR, LIST, MAP, OMAP } t = NIL;
    long long n = 0;
    std::string s;
    std::vector<M> l;
    std::vector<std::pair<std::string, M>> m;  // MAP sorted, OMAP in order of insertion
    static M num(long long n) { M x; x.t = NUM; x.n = n; return x; }
    static M str(const std::string& s) { M x; x.t = STR; x.s = s; return x; }
    static M of(T t) { M x; x.t = t; return x; }
    bool isMap() const { return t == MAP || t == OMAP; }
    M* find(const std::string& k) {
        for (auto& e : m)
            if (e.first == k) return &e.second;
        return nullptr;
    }
    M& at(const std::string& k) {
        if (M* p = find(k)) return *p;
        auto i = m.end();
        if (t == MAP)
            for (i = m.begin(); i != m.end() && i->first < k;) ++i;
        return m.insert(i, {k, M()})->second;
    }
    void erase(const std::string& k) {
        for (auto i = m.begin(); i != m.end(); ++i)
            if (i->first == k) {
                m.erase(i);
                return;
            }
    }
    std::string str() const {
        switch (t) {
            case NIL: return "~";
            case NUM: return std::to_string(n);
            case STR: return "'" + s + "'";
            case LIST: {
                std::string r = "[";
                for (auto& x : l) r += x.str() + " ";
                return r + "]";
            }
            default: {
                std::string r = t == MAP ? "m{" : "o{";
                for (auto& x : m) r += x.first + ":" + x.second.str() + " ";
                return r + "}";
            }
        }
    }
};
std::string str(const Value& v) {
    if (v.isNil()) return "~";
    if (v.isNumber()) return std::to_string((long long)v);
    if (v.isString()) return "'" + std::string(v) + "'";
    if (v.isList()) {
        ValueList l = v;
        std::string r = "[";
        for (auto& x : l) r += str(x) + " ";
        return r + "]";
    }
    std::string r = v.isOrderedMap() ? "o{" : v.isMap() ? "m{" : "?{";
    Value k = v.keys();
    for (size_t i = 0; i < k.size(); i++) {
        const Value& c = v;
        r += std::string(k[int(i)]) + ":" + str(c[k[int(i)]]) + " ";
    }
    return r + "}";
}

std::vector<Value> universe(bool nested) {
    std::vector<Value> u = {Value(), Value(true), Value(false), Value(0), Value(1), Value(-1), Value(2), Value((long long)1 << 53), Value(((long long)1 << 53) + 1),
                            Value(std::numeric_limits<long long>::max()), Value(std::numeric_limits<long long>::min()), Value(std::numeric_limits<long long>::min() + 1), Value(0.0), Value(1.0), Value(0.5), Value(-0.5),
                            Value(9007199254740992.0), Value(9007199254740994.0), Value(-1e300), Value(1e300), Value(9223372036854775808.0), Value(1e-300), Value(""), Value("a"), Value("A"), Value("b"), Value("ab"), Value("1"), Value("\xc3\xa9"),
                            Value(Date(2020, 1, 1)), Value(Date(2020, 1, 2)), Value(Time(0, 0, 0)), Value(Time(23, 59, 59)), Value(DateTime(Date(2020, 1, 1), Time(1, 2, 3))), Value(DateTime(Date(2019, 12, 31), Time(23, 0, 0)))};
    if (nested) {
        auto list = [](std::vector<Value> v) { return Value::makeList(v); };
        auto om   = [](std::vector<std::pair<const char*, Value>> v) {
            Value m = Value::makeOrderedMap();
            for (auto& x : v) m[x.first] = x.second;
            return m;
        };
        auto mm = [](std::vector<std::pair<const char*, Value>> v) {
            Value m = Value::makeMap();
            for (auto& x : v) m[x.first] = x.second;
            return m;
        };
        std::vector<Value> n = {list({}), list({1}), list({2}), list({1, 2}), list({2, 1}), list({"a"}), list({Value()}), list({list({1})}), om({}), om({{"a", 1}}), om({{"a", 2}}), om({{"b", 1}}), om({{"a", 1}, {"b", 2}}),
                                om({{"b", 2}, {"a", 1}}), om({{"a", 1}, {"b", 1}}), om({{"a", Value()}}), om({{"a", om({{"c", 1}})}}), mm({}), mm({{"a", 1}}), mm({{"a", 2}}), mm({{"b", 1}}), mm({{"a", 1}, {"b", 2}}), mm({{"a", list({1})}})};
        u.insert(u.end(), n.begin(), n.end());
    }
    return u;
}
std::string show(const Value& v) {
    std::ostringstream o;
    o.precision(17);
    o << v.typeName() << " " << v;
    return o.str();
}
int sgn(int x) { return (x > 0) - (x < 0); }
}  // namespace

// values are totally ordered, equality and order agree
MC_SECTION("order", [](mc::Ctx& c) {
    static std::vector<Value> u = universe(true);
    const Value& a = u[c.choose(u.size(), "first")];
    MC_LOG(c, "first ", show(a));
    MC_CHECK(c, a == a && a.compare(a) == 0 && !(a < a), show(a), " differs from itself");
    MC_CHECK(c, a.clone() == a && a.clone().compare(a) == 0, show(a), " differs from its clone");
    for (auto& b : u) {
        int x = sgn(a.compare(b)), y = sgn(b.compare(a));
        MC_CHECK(c, x == -y, show(a), " compared to ", show(b), " gives ", x, ", the other way ", y);
        MC_CHECK(c, (a < b) == (x < 0) && (a > b) == (x > 0) && (a == b) == (x == 0) && (a != b) == (x != 0) && (a <= b) == (x <= 0) && (a >= b) == (x >= 0), "operators and compare() disagree about ", show(a), " and ", show(b));
        if (x > 0) continue;
        for (auto& d : u) {
            int z = sgn(b.compare(d)), w = sgn(a.compare(d));
            if (z > 0) continue;
            MC_CHECK(c, w <= 0 && (w == 0) == (x == 0 && z == 0), show(a), x ? " < " : " == ", show(b), z ? " < " : " == ", show(d), " but the first compared to the last gives ", w);
            c.evals();
        }
    }
    // numbers are ordered by value
    auto num = [](const Value& v, long double& d) {
        if (v.isDouble()) d = (double)v;
        else if (v.isNumber()) d = (long long)v;
        else return false;
        return true;
    };
    long double p, q;
    if (num(a, p))
        for (auto& b : u)
            if (num(b, q)) MC_CHECK(c, sgn(a.compare(b)) == (p > q) - (p < q), show(a), " compared to ", show(b), " gives ", a.compare(b));
    c.nontrivial();
}, opts(1));

// a value which was streamed, cloned or hashed
MC_SECTION("copies", [](mc::Ctx& c) {
    static std::vector<Value> u = universe(true);
    const Value& a = u[c.choose(u.size(), "first")];
    Buffer buffer(10);
    ResizableMemoryStream out(buffer);
    out << a;
    out << 42;
    MemoryStream in(buffer.data(), out.position());
    Value b(in);
    int end;
    in >> end;
    MC_CHECK(c, end == 42, "reading ", show(a), " leaves the stream somewhere else");
    MC_CHECK(c, b == a && b.typeName() == a.typeName() && show(a) == show(b), show(a), " is read as ", show(b));
    MC_CHECK(c, show(a.clone()) == show(a), show(a), " is cloned as ", show(a.clone()));
    eckit::MD5 h, g;
    a.hash(h);
    b.hash(g);
    MC_CHECK(c, h.digest() == g.digest(), "the hash of ", show(a), " changes");
    for (auto& x : u) {
        // as a key
        ValueMap m;
        m[x] = 1;
        m[a] = 2;
        MC_CHECK(c, m.size() == (x == a ? 1u : 2u) && int(m[a]) == 2 && int(m[x]) == (x == a ? 2 : 1), show(a), " and ", show(x), " as keys");
        c.step();
    }
    c.nontrivial();
}, opts(1));

// numbers
MC_SECTION("arithmetic", [](mc::Ctx& c) {
    const long long n[] = {0, 1, -1, 2, 7, -7, 1000, (1LL << 31) - 1, 1LL << 31, 1LL << 32, -(1LL << 33) - 5, 3000000000LL, 1LL << 40, (1LL << 62), std::numeric_limits<long long>::max(), std::numeric_limits<long long>::min()};
    long long a = c.pick(n, "first"), b = c.pick(n, "second");
    int op = c.choose(5, "operation");
    MC_LOG(c, a, " ", "+-*/%"[op], " ", b);
    __int128 want = 0;
    if (op >= 3 && b == 0) {
        try {
            Value x = op == 3 ? Value(a) / Value(b) : Value(a) % Value(b);
            c.fail("dividing by zero gives " + show(x));
        }
        catch (eckit::Exception&) {
        }
        return;
    }
    switch (op) {
        case 0: want = (__int128)a + b; break;
        case 1: want = (__int128)a - b; break;
        case 2: want = (__int128)a * b; break;
        case 3: want = (__int128)a / b; break;
        case 4: want = (__int128)a % b; break;
    }
    if (want > std::numeric_limits<long long>::max() || want < std::numeric_limits<long long>::min()) c.reject();
    Value x(a), y(b), z;
    try {
    switch (op) {
        case 0: z = x + y, x += y; break;
        case 1: z = x - y, x -= y; break;
        case 2: z = x * y, x *= y; break;
        case 3: z = x / y, x /= y; break;
        case 4: z = x % y, x %= y; break;
    }
    }
    catch (eckit::Exception&) {
        if (op == 4 && b == -1) return;  // the processor cannot do it
        throw;
    }
    MC_CHECK(c, z.isNumber() && (long long)z == (long long)want && x == z, a, " ", "+-*/%"[op], " ", b, " is ", show(z), " instead of ", (long long)want);
    c.nontrivial();
}, opts(2));

// conversions give the same value or fail
MC_SECTION("conversions", [](mc::Ctx& c) {
    const double d[] = {0, 1, -1, 0.5, 1e15, 9007199254740993.0, 1e18, 9.3e18, -9.3e18, 1e300, -9223372036854775808.0, 9223372036854774784.0, 2147483648.0, 1.0000001};
    int k = c.choose(2, "kind");
    if (k == 0) {
        double x = c.pick(d, "double");
        Value v(x);
        MC_CHECK(c, v.isDouble() && (double)v == x, "not the same");
        try {
            long long l = v;
            MC_CHECK(c, (long double)l == (long double)x, x, " is converted to ", l);
            c.outcome("converted");
        }
        catch (eckit::Exception&) {
            MC_CHECK(c, x != std::floor(x) || std::fabs(x) >= 9.2e18, x, " is not converted to an integer");
            c.outcome("refused");
        }
    }
    else {
        int bit     = c.choose(64, "bit");
        long long x = (long long)((1ULL << bit) + (long long)c.choose(3, "plus") - 1);
        Value v(x);
        MC_CHECK(c, v.isNumber() && (long long)v == x, "not the same");
        std::string s = v;
        MC_CHECK(c, s == std::to_string(x), x, " is ", s, " as a string");
        MC_CHECK(c, (long long)Value(s) == x, s, " as a string is the number ", (long long)Value(s));
        MC_CHECK(c, (bool)v == (x != 0), x, " is wrong as a boolean");
        MC_CHECK(c, (double)v == (double)x, x, " is wrong as a double");
    }
    c.nontrivial();
}, opts(2));

// arithmetic between any two values has the one possible result or is refused
MC_SECTION("operators", [](mc::Ctx& c) {
    static std::vector<Value> u = universe(true);
    const Value& a = u[c.choose(u.size(), "first")];
    const Value& b = u[c.choose(u.size(), "second")];
    const int op   = c.choose(5, "operation");
    MC_LOG(c, show(a), " ", "+-*/%"[op], " ", show(b));
    const std::string ta = a.typeName(), tb = b.typeName();
    if (ta == "Number" && tb == "Number") c.reject();  // see arithmetic
    Value want, z;
    bool has = false;
    if (a.isDouble() && b.isDouble() && op < 4) {
        double x = a, y = b;
        want = Value(op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y);
        has  = true;
    }
    else if (a.isString() && b.isString() && op == 0) want = Value(std::string(a) + std::string(b)), has = true;
    else if (a.isList() && b.isList() && op == 0) {
        ValueList l = a, m = b;
        l.insert(l.end(), m.begin(), m.end());
        want = Value::makeList(l), has = true;
    }
    else if (ta == "Date" && tb == "Date" && op == 1) want = Value(int(Date(a) - Date(b))), has = true;
    else if (a.isNil() && b.isNil()) has = true;
    const std::string before = show(a) + show(b);
    Value x = a.clone();
    try {
        switch (op) {
            case 0: z = a + b, x += b; break;
            case 1: z = a - b, x -= b; break;
            case 2: z = a * b, x *= b; break;
            case 3: z = a / b, x /= b; break;
            case 4: z = a % b, x %= b; break;
        }
    }
    catch (eckit::Exception& e) {
        MC_CHECK(c, !has, "it is refused: ", e.what());
        MC_CHECK(c, show(a) + show(b) == before, "a refused operation changes its operands");
        c.outcome("refused");
        return;
    }
    MC_CHECK(c, has, "it gives ", show(z));
    if (ta == "Date" && show(z) != show(want) && show(z) == show(x) && show(z) == show(Value(int(Date(b) - Date(a))))) c.fail(mc::cat("it gives ", show(z), " instead of ", show(want)), "date-difference-sign");
    MC_CHECK(c, show(z) == show(want) && show(x) == show(want), "it gives ", show(z), ", in place ", show(x), " instead of ", show(want));
    MC_CHECK(c, show(a) + show(b) == before, "an operation changes its operands");
    c.outcome("result");
    c.nontrivial();
}, opts(1));

// the text of a value has all its parts in order, and so have its first and the others
MC_SECTION("text", [](mc::Ctx& c) {
    static std::vector<Value> u = universe(false);
    auto some = [&]() { return u[c.choose(u.size(), "value")]; };
    const int kind = c.choose(4, "kind");
    const int n    = c.choose(4, "elements");
    auto text = [](const Value& v) {
        std::ostringstream o;
        o << v;
        return o.str();
    };
    auto dump = [](const Value& v, size_t depth, bool indent) {
        std::ostringstream o;
        v.dump(o, depth, indent);
        return o.str();
    };
    // without white space
    auto bare = [](const std::string& s) {
        std::string r;
        for (char ch : s)
            if (!isspace(ch)) r += ch;
        return r;
    };
    std::vector<Value> part;
    for (int i = 0; i < n; ++i) part.push_back(n == 3 && i < 2 ? u[(i + 1) * 7] : some());
    if (kind < 2) {
        Value v = Value::makeList(part);
        if (kind == 1) v = Value::makeList({v});
        std::string want, wantDump;
        for (int i = 0; i < n; ++i) want += (i ? "," : "") + text(part[i]), wantDump += (i ? "," : "") + bare(dump(part[i], 0, false));
        want     = kind ? "((" + want + "))" : "(" + want + ")";
        wantDump = kind ? "[[" + wantDump + "]]" : "[" + wantDump + "]";
        MC_CHECK(c, text(v) == want, "printed as ", text(v), " instead of ", want);
        MC_CHECK(c, bare(dump(v, 3, true)) == wantDump && bare(dump(v, 0, false)) == wantDump, "dumped as ", dump(v, 0, true), " instead of ", wantDump);
        if (kind == 0) {
            MC_CHECK(c, show(v.head()) == show(n ? part[0] : Value()), "the first is ", show(v.head()));
            MC_CHECK(c, show(v.tail()) == show(n > 1 ? Value::makeList(std::vector<Value>(part.begin() + 1, part.end())) : Value()), "the others are ", show(v.tail()));
            // a list of one is converted as its element, others are not
            auto conv = [&](auto t) {
                using T = decltype(t);
                auto get = [](const Value& w) -> std::string {
                    try {
                        T x = w;
                        std::ostringstream o;
                        o.precision(17);
                        o << x;
                        return "=" + o.str();
                    }
                    catch (eckit::Exception&) {
                        return "refused";
                    }
                };
                const std::string want = n == 1 ? get(part[0]) : "refused";
                MC_CHECK(c, get(v) == want, "a list of ", n, " is converted as ", get(v), " instead of ", want);
            };
            conv((long long)0), conv(0.0), conv(false), conv(std::string());
        }
    }
    else {
        const char* keys[] = {"b", "a", "c"};
        Value v            = kind == 2 ? Value::makeMap() : Value::makeOrderedMap();
        for (int i = 0; i < n; ++i) v[keys[i]] = part[i];
        std::vector<int> order;
        if (kind == 2 && n > 1) order.push_back(1);
        if (n) order.push_back(0);
        if (kind == 3 && n > 1) order.push_back(1);
        if (n > 2) order.push_back(2);
        std::string want, wantDump, wantDump1;
        for (int i : order) {
            want += (want.empty() ? "" : " , ") + std::string(keys[i]) + " => " + text(part[i]);
            wantDump += (wantDump.empty() ? "" : ",") + ("\"" + std::string(keys[i])) + "\":" + bare(dump(part[i], 0, false));
        }
        MC_CHECK(c, text(v) == "{" + want + "}", "printed as ", text(v), " instead of {", want, "}");
        MC_CHECK(c, bare(dump(v, 3, true)) == "{" + wantDump + "}" && bare(dump(v, 0, false)) == "{" + wantDump + "}", "dumped as ", dump(v, 0, true), " instead of {", wantDump, "}");
    }
    c.nontrivial();
}, opts(2));

// changing a value changes no other
MC_SECTION("independence", [](mc::Ctx& c) {
    M m[2];
    Value v[2];
    auto make = [](int k, M& mm, Value& vv) {
        if (k == 0) mm = M::num(7), vv = Value(7);
        if (k == 1) {
            mm = M::of(M::LIST), mm.l = {M::num(1), M::num(2)};
            ValueList l = {Value(1), Value(2)};
            vv = Value::makeList(l);
        }
        if (k == 2 || k == 3) {
            mm = M::of(k == 2 ? M::MAP : M::OMAP);
            vv = k == 2 ? Value::makeMap() : Value::makeOrderedMap();
            mm.at("k") = M::num(3);
            vv["k"]    = 3;
        }
        if (k == 4) {
            mm = M::of(M::OMAP);
            mm.at("k") = M::of(M::LIST), mm.at("k").l = {M::num(1)};
            vv      = Value::makeOrderedMap();
            vv["k"] = Value::makeList(Value(1));
        }
    };
    int kind = c.choose(5, "kind");
    make(kind, m[0], v[0]);
    m[1] = m[0], v[1] = v[0];
    int depth = c.tier() ? 5 : 4;
    for (int d = 0; d < depth; d++) {
        int x = c.choose(2, "which"), y = 1 - x;
        int op = c.choose(15, "op");
        int val = 100 + d;
        M &a = m[x], &b = m[y];
        Value &p = v[x], &q = v[y];
        switch (op) {
            case 0: MC_LOG(c, "copy"); a = b, p = q; break;
            case 1:
                if (!a.isMap()) c.reject();
                MC_LOG(c, "set k");
                a.at("k") = M::num(val), p["k"] = val;
                break;
            case 2:
                if (!a.isMap()) c.reject();
                MC_LOG(c, "set a");
                a.at("a") = M::num(val), p[std::string("a")] = val;
                break;
            case 3:
                if (a.t != M::LIST || a.l.empty()) c.reject();
                MC_LOG(c, "set 0");
                a.l[0] = M::num(val), p[0] = val;
                break;
            case 4:
                if (a.t != M::LIST) c.reject();
                MC_LOG(c, "append");
                a.l.push_back(M::num(val)), p.append(val);
                break;
            case 5: {
                if (!a.isMap()) c.reject();
                MC_LOG(c, "set k to the other");
                M t = b;
                a.at("k") = t, p["k"] = Value(q);
                break;
            }
            case 6: {
                if (a.t != M::LIST || a.l.size() > 3) c.reject();
                MC_LOG(c, "append the other");
                M t = b;
                a.l.push_back(t), p.append(Value(q));
                break;
            }
            case 7: {
                if (!a.isMap()) c.reject();
                MC_LOG(c, "remove k");
                M* f    = a.find("k");
                M was   = f ? *f : M();
                Value r = p.remove("k");
                MC_CHECK(c, str(r) == was.str(), "removed ", str(r), " instead of ", was.str());
                a.erase("k");
                break;
            }
            case 8: {
                if (!a.isMap() || !a.find("k")) c.reject();
                MC_LOG(c, "take k");
                const Value& cp = p;
                M t = *a.find("k");
                Value w = cp["k"];
                b = t, q = w;
                break;
            }
            case 9:
                if (!a.isMap() || !a.find("k") || !a.find("k")->isMap()) c.reject();
                MC_LOG(c, "set k.k");
                a.find("k")->at("k") = M::num(val), p["k"]["k"] = val;
                break;
            case 10:
                if (!a.isMap() || !a.find("k") || a.find("k")->t != M::LIST) c.reject();
                MC_LOG(c, "append to k");
                a.find("k")->l.push_back(M::num(val)), p["k"].append(val);
                break;
            case 11: {
                if (a.t != M::LIST) c.reject();
                MC_LOG(c, "list taken out");
                ValueList l = p;
                MC_CHECK(c, l.size() == a.l.size(), "size ", l.size());
                l.push_back(Value(val));
                if (!a.l.empty()) l[0] = val;
                break;
            }
            case 12: {
                if (!a.isMap()) c.reject();
                MC_LOG(c, "map taken out, and made again");
                ValueMap t = p;
                M u = a;
                t["new"] = val;
                q = Value::makeMap(t);
                b = M::of(M::MAP);
                for (auto& e : u.m) b.at(e.first) = e.second;
                b.at("new") = M::num(val);
                break;
            }
            case 13:
                if (a.t != M::LIST || b.t != M::LIST || a.l.size() > 3) c.reject();
                MC_LOG(c, "add lists");
                {
                    M t = b;
                    a.l.insert(a.l.end(), t.l.begin(), t.l.end());
                    p += q;
                }
                break;
            case 14: MC_LOG(c, "clone"); a = b, p = q.clone(); break;
        }
        for (int i = 0; i < 2; i++) {
            MC_CHECK(c, str(v[i]) == m[i].str(), "value ", i, " is ", str(v[i]), " instead of ", m[i].str());
            if (m[i].isMap()) {
                MC_CHECK(c, v[i].contains("k") == (m[i].find("k") != nullptr) && v[i].contains("a") == (m[i].find("a") != nullptr), "contains() is wrong");
                MC_CHECK(c, v[i].keys().size() == m[i].m.size(), "keys() has ", v[i].keys().size());
            }
            if (m[i].t == M::LIST) MC_CHECK(c, v[i].size() == m[i].l.size() && v[i].contains(int(m[i].l.size()) - 1) == !m[i].l.empty() && !v[i].contains(int(m[i].l.size())), "size() is ", v[i].size());
        }
        MC_CHECK(c, (v[0] == v[1]) == (m[0].str() == m[1].str()), "equality is wrong");
        c.step();
    }
    c.nontrivial();
}, opts(4));
