// V02: configurations
#include <cfloat>
#include <climits>
#include <cmath>
#include <limits>
#include <map>
#include "eckit/config/LocalConfiguration.h"
#include "eckit/config/YAMLConfiguration.h"
#include "eckit/io/Buffer.h"
#include "eckit/log/JSON.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "common.h"

using namespace eckit;

namespace {
struct M {
    enum T { INT, DBL, BOOL, STR, INTS, STRS, MAP, MAPS } t = MAP;
    long n   = 0;
    double d = 0;
    std::string s;
    std::vector<M> l;
    std::vector<std::pair<std::string, M>> m;
    static M of(T t) { M x; x.t = t; return x; }
    M* find(const std::string& k) {
        for (auto& e : m)
            if (e.first == k) return &e.second;
        return nullptr;
    }
    M& at(const std::string& k) {
        if (M* p = find(k)) return *p;
        m.emplace_back(k, M());
        return m.back().second;
    }
    static std::vector<std::string> split(const std::string& p, char sep) {
        std::vector<std::string> r;
        std::string t;
        for (char c : p + sep)
            if (c == sep) r.push_back(t), t.clear();
            else t += c;
        return r;
    }
    M* get(const std::string& path, char sep) {
        M* p = this;
        for (auto& k : split(path, sep)) {
            if (p->t != MAP) return nullptr;
            p = p->find(k);
            if (!p) return nullptr;
        }
        return p;
    }
    // false if something which is not a map is on the way
    bool set(const std::string& path, char sep, const M& v) {
        auto ks = split(path, sep);
        M* p    = this;
        for (size_t i = 0; i + 1 < ks.size(); i++) {
            if (p->t != MAP) return false;
            M* f = p->find(ks[i]);
            p    = f ? f : nullptr;
            if (!p) break;
        }
        if (p && p->t != MAP) return false;
        M copy = v;
        p      = this;
        for (auto& k : ks) p = &p->at(k);
        *p = copy;
        return true;
    }
    std::string json() const {
        switch (t) {
            case INT: return std::to_string(n);
            case DBL: return "2.5";
            case BOOL: return n ? "true" : "false";
            case STR: return "\"" + s + "\"";
            case MAP: {
                std::string r = "{";
                for (auto& e : m) r += (r.size() > 1 ? ",\"" : "\"") + e.first + "\":" + e.second.json();
                return r + "}";
            }
            default: {
                std::string r = "[";
                for (auto& e : l) r += (r.size() > 1 ? "," : "") + e.json();
                return r + "]";
            }
        }
    }
};
M num(long n) { M x = M::of(M::INT); x.n = n; return x; }
M str(const std::string& s) { M x = M::of(M::STR); x.s = s; return x; }

std::string json(const Configuration& c) {
    std::ostringstream o;
    {
        JSON j(o);
        j << c;
    }
    return o.str();
}

template <class T>
std::string got(const Configuration& c, const std::string& name, T& v) {
    try {
        return c.get(name, v) ? "yes" : "no";
    }
    catch (eckit::Exception&) {
        return "fails";
    }
}

void compare(mc::Ctx& c, const LocalConfiguration& cfg, M& m, char sep, const char* which) {
    MC_CHECK(c, json(cfg) == m.json(), which, " is ", json(cfg), " instead of ", m.json());
    std::vector<std::string> keys = cfg.keys();
    MC_CHECK(c, keys.size() == m.m.size(), which, ".keys() has ", keys.size());
    for (size_t i = 0; i < keys.size(); i++) MC_CHECK(c, keys[i] == m.m[i].first, which, ".keys()[", i, "] is ", keys[i]);
    MC_CHECK(c, cfg.empty() == m.m.empty(), which, ".empty() is wrong");
    static const char* paths[] = {"a", "b", "z", "a.b", "b.a", "a.b.c", "a.z", "a.b.z"};
    for (std::string path : paths) {
        for (char& x : path)
            if (x == '.') x = sep;
        M* w = m.get(path, sep);
        MC_CHECK(c, cfg.has(path) == (w != nullptr), which, ".has(", path, ") is ", cfg.has(path));
        bool is[]   = {cfg.isIntegral(path), cfg.isFloatingPoint(path), cfg.isBoolean(path), cfg.isString(path), cfg.isIntegralList(path), cfg.isStringList(path), cfg.isSubConfiguration(path), cfg.isSubConfigurationList(path)};
        for (int i = 0; i < 8; i++) {
            bool want = w && w->t == i;
            if (w && w->t >= M::INTS && w->t != M::MAP && w->l.empty() && (i == M::INTS || i == M::STRS || i == M::MAPS)) want = true;
            MC_CHECK(c, is[i] == want, which, ": type question ", i, " about ", path, " in ", m.json(), " is answered ", is[i]);
        }
        long n = -99;
        double d = -99;
        std::string s = "-99";
        bool b = false;
        std::vector<long> vl(1, -99);
        std::vector<std::string> vs(1, "-99");
        std::string rn = got(cfg, path, n), rd = got(cfg, path, d), rs = got(cfg, path, s), rb = got(cfg, path, b), rl = got(cfg, path, vl), rv = got(cfg, path, vs);
        if (!w) {
            MC_CHECK(c, rn == "no" && rd == "no" && rs == "no" && rb == "no" && rl == "no" && rv == "no", which, ": get(", path, ") of what is not there");
            MC_CHECK(c, n == -99 && d == -99 && s == "-99" && vl.size() == 1 && vs.size() == 1, which, ": get(", path, ") of what is not there changes the value");
            MC_CHECK(c, cfg.getLong(path, 7) == 7 && cfg.getString(path, "def") == "def", which, ": default of ", path);
            try {
                cfg.getLong(path);
                c.fail("getLong of what is not there succeeds");
            }
            catch (eckit::Exception&) {
            }
            continue;
        }
        switch (w->t) {
            case M::INT:
                MC_CHECK(c, rn == "yes" && n == w->n && rd == "yes" && d == w->n && cfg.getLong(path) == w->n && cfg.getInt(path, 9) == w->n, which, ": ", path, " is ", rn, " ", n);
                MC_CHECK(c, rl == "fails" && rv == "fails", which, ": a number is taken for a list");
                break;
            case M::DBL: MC_CHECK(c, rd == "yes" && d == 2.5 && rn == "fails", which, ": ", path, " is ", rd, " ", d, ", as integer: ", rn); break;
            case M::BOOL: MC_CHECK(c, rb == "yes" && b == (w->n != 0), which, ": ", path, " is ", rb, " ", b); break;
            case M::STR: MC_CHECK(c, rs == "yes" && s == w->s && cfg.getString(path) == w->s, which, ": ", path, " is ", rs, " ", s); break;
            case M::INTS:
                MC_CHECK(c, rl == "yes" && vl.size() == w->l.size(), which, ": ", path, " is ", rl, ", ", vl.size(), " elements");
                for (size_t i = 0; i < vl.size(); i++) MC_CHECK(c, vl[i] == w->l[i].n, which, ": ", path, "[", i, "] is ", vl[i]);
                break;
            case M::STRS:
                MC_CHECK(c, rv == "yes" && vs.size() == w->l.size(), which, ": ", path, " is ", rv, ", ", vs.size(), " elements");
                for (size_t i = 0; i < vs.size(); i++) MC_CHECK(c, vs[i] == w->l[i].s, which, ": ", path, "[", i, "] is ", vs[i]);
                break;
            case M::MAP: {
                LocalConfiguration sub = cfg.getSubConfiguration(path);
                MC_CHECK(c, json(sub) == w->json() && sub.separator() == sep, which, ": subconfiguration ", path, " is ", json(sub));
                // and is a copy
                sub.set("a", "changed");
                MC_CHECK(c, json(cfg) == m.json(), "changing a subconfiguration changes ", which);
                MC_CHECK(c, rn == "fails" && rs == "fails", which, ": a configuration is taken for a value");
                break;
            }
            case M::MAPS: {
                std::vector<LocalConfiguration> v = cfg.getSubConfigurations(path);
                MC_CHECK(c, v.size() == w->l.size(), which, ": ", v.size(), " subconfigurations");
                for (size_t i = 0; i < v.size(); i++) MC_CHECK(c, json(v[i]) == w->l[i].json(), which, ": subconfiguration ", i, " is ", json(v[i]));
                break;
            }
        }
        c.evals();
    }
}
}  // namespace

MC_SECTION("set and get", [](mc::Ctx& c) {
    char sep = c.pick({'.', '/'}, "separator");
    LocalConfiguration cfg[2] = {LocalConfiguration(sep), LocalConfiguration(sep)};
    M m[2];
    static const char* paths[] = {"a", "b", "a.b", "a.b.c", "b.a"};
    int depth                  = c.tier() ? 4 : 3;
    for (int k = 0; k < depth; k++) {
        int x = k == 0 ? 0 : c.choose(2, "which"), y = 1 - x;
        int op = c.choose(7, "op");
        if (op <= 2) {
            std::string path = c.pick(paths, "path");
            for (char& ch : path)
                if (ch == '.') ch = sep;
            M v;
            bool failed = false;
            auto set    = [&](auto&& value) {
                try {
                    cfg[x].set(path, value);
                }
                catch (eckit::Exception&) {
                    failed = true;
                }
            };
            switch (op == 0 ? (k == 0 || c.tier() ? c.choose(8, "type") : 3 * c.choose(3, "type") + (k & 1)) : op == 1 ? 8 : 9) {
                case 0: v = num(10 + k), set(10 + k); break;
                case 1: v = M::of(M::DBL), set(2.5); break;
                case 2: v = M::of(M::BOOL), v.n = 1, set(true); break;
                case 3: v = str("s" + std::to_string(k)), set("s" + std::to_string(k)); break;
                case 4: v = M::of(M::INTS), v.l = {num(1), num(k)}, set(std::vector<long>{1, k}); break;
                case 5: v = M::of(M::STRS), v.l = {str("x"), str("y")}, set(std::vector<std::string>{"x", "y"}); break;
                case 6: v = M::of(M::INTS), set(std::vector<int>{}); break;
                case 7: {
                    v = M::of(M::MAPS);
                    std::vector<LocalConfiguration> l;
                    for (int i = 0; i < 2; i++) {
                        l.emplace_back(sep);
                        l.back().set("i", i);
                        v.l.push_back(M());
                        v.l.back().at("i") = num(i);
                    }
                    try {
                        cfg[x].set(path, l);
                    }
                    catch (eckit::Exception&) {
                        failed = true;
                    }
                    break;
                }
                case 8: v = m[y], set(cfg[y]); break;
                case 9: v = m[x], set(cfg[x]); break;
            }
            MC_LOG(c, "set ", path, " to ", v.json());
            // below a list an element is reached: not here
            auto parts = M::split(path, sep);
            M* p       = &m[x];
            for (auto& s : parts) {
                if (p && (p->t == M::MAPS || p->t == M::INTS || p->t == M::STRS)) c.reject();
                p = p ? p->find(s) : nullptr;
            }
            bool ok = m[x].set(path, sep, v);
            MC_CHECK(c, ok == !failed, "setting ", path, ok ? " fails" : " succeeds below something which is not a configuration");
        }
        else if (op == 3) {
            MC_LOG(c, "copy");
            m[x] = m[y], cfg[x] = cfg[y];
        }
        else if (op == 4) {
            MC_LOG(c, "merge");
            for (auto& e : std::vector<std::pair<std::string, M>>(m[y].m)) m[x].at(e.first) = e.second;
            cfg[x].set(cfg[y]);
        }
        else if (op == 5) {
            std::string n = c.pick({"a", "b"}, "name");
            MC_LOG(c, "remove ", n);
            for (auto i = m[x].m.begin(); i != m[x].m.end(); ++i)
                if (i->first == n) {
                    m[x].m.erase(i);
                    break;
                }
            cfg[x].remove(n);
        }
        else {
            std::string n = c.pick({"a", "b"}, "name");
            M* p          = m[y].find(n);
            if (!p || p->t != M::MAP) c.reject();
            MC_LOG(c, "become ", n);
            M copy = *p;
            m[x]   = copy;
            cfg[x] = cfg[y].getSubConfiguration(n);
        }
        c.step();
    }
    compare(c, cfg[0], m[0], sep, "the first");
    compare(c, cfg[1], m[1], sep, "the second");
    // written and read
    YAMLConfiguration again(json(cfg[0]), sep);
    MC_CHECK(c, json(again) == m[0].json(), "written and read: ", json(again));
    c.nontrivial();
}, opts(4));

// every type a value can be set from, asked as every type
namespace {
struct Abs {
    enum K { INTEGER, REAL, BOOLEAN, STRING } k = INTEGER;
    bool list = false;
    __int128 i = 0;
    double d   = 0;
    std::string s;
    std::vector<Abs> l;
};
template <class T>
Abs abs1(T v) {
    Abs a;
    if constexpr (std::is_same_v<T, bool>) a.k = Abs::BOOLEAN, a.i = v;
    else if constexpr (std::is_floating_point_v<T>) a.k = Abs::REAL, a.d = v;
    else if constexpr (std::is_integral_v<T>) a.k = Abs::INTEGER, a.i = v;
    else a.k = Abs::STRING, a.s = v;
    return a;
}
template <class T>
std::vector<T> values() {
    if constexpr (std::is_same_v<T, bool>) return {false, true};
    else if constexpr (std::is_floating_point_v<T>) return {T(0), T(1.5), T(-2), T(0.1), std::numeric_limits<T>::max(), std::numeric_limits<T>::min()};
    else if constexpr (std::is_integral_v<T>) return {T(0), T(1), T(77), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), T(std::numeric_limits<T>::max() - 1)};
    else return {"", "text", "1x", "two words", "\"quoted\"\n"};
}
// whether the number is one of the type
template <class T>
bool fits(const Abs& a) {
    if constexpr (std::is_same_v<T, std::string>) return a.k == Abs::STRING;
    else if constexpr (std::is_floating_point_v<T>) return a.k != Abs::STRING && (a.k != Abs::REAL || std::fabs(a.d) <= std::numeric_limits<T>::max());
    else if (a.k == Abs::STRING) return false;
    else if (a.k == Abs::REAL) return false;
    else return a.i >= __int128(std::numeric_limits<T>::min()) && a.i <= __int128(std::numeric_limits<T>::max()) && a.i <= LLONG_MAX;
}
// negative numbers as unsigned ones are left open, as are numbers beyond the largest float
template <class T>
bool beyond(const Abs& a) {
    if constexpr (std::is_same_v<T, float>) return a.k == Abs::REAL && std::fabs(a.d) > FLT_MAX;
    else return std::is_same_v<T, size_t> && (a.i < 0 || a.d < 0);
}
template <class T>
bool equal(const Abs& a, const T& v) {
    if (beyond<T>(a)) return true;
    if constexpr (std::is_same_v<T, std::string>) {
        if (a.k == Abs::STRING) return v == a.s;
        if (a.k == Abs::INTEGER) return v == std::to_string((long long)a.i);
        if (a.k == Abs::BOOLEAN) return v == (a.i ? "true" : "false") || v == (a.i ? "1" : "0");
        return std::strtod(v.c_str(), nullptr) == a.d || std::fabs(std::strtod(v.c_str(), nullptr) - a.d) <= 1e-5 * std::fabs(a.d);
    }
    else {
        if (a.k == Abs::STRING) return true;  // read as a number: see the property about reading them
        if constexpr (std::is_floating_point_v<T>) return v == (a.k == Abs::REAL ? T(a.d) : T((long long)a.i));
        else if constexpr (std::is_same_v<T, bool>) return a.k == Abs::REAL ? bool(v) == (a.d != 0) : bool(v) == (a.i != 0);
        else if (a.k == Abs::REAL) return std::fabs(a.d) < 9e18 && __int128(v) == __int128(a.d) && double(v) == a.d;
        else return __int128(v) == a.i;
    }
}
template <class T>
struct IsList : std::false_type {};
template <class E>
struct IsList<std::vector<E>> : std::true_type {};
// what is in the configuration: one value or a list, under a name
template <class T>
void ask(mc::Ctx& c, const LocalConfiguration& cfg, const Abs* a, const std::string& name, const char* type, T (Configuration::*fast)(const std::string&) const, T (Configuration::*dflt)(const std::string&, const T&) const, const T& other) {
    T v        = other;
    bool found = false, failed = false;
    try { found = cfg.get(name, v); }
    catch (eckit::Exception&) { failed = true; }
    if (!a) {
        MC_CHECK(c, !found && !failed && v == other, "what is not there is found as ", type);
        MC_CHECK(c, !cfg.isConvertible<T>(name), "what is not there can be converted to ", type);
        if (fast) {
            bool threw = false;
            try { (cfg.*fast)(name); }
            catch (eckit::Exception&) { threw = true; }
            MC_CHECK(c, threw, "what is not there is returned as ", type);
            MC_CHECK(c, (cfg.*dflt)(name, other) == other, "the default of ", type);
        }
        return;
    }
    MC_CHECK(c, found || failed, "what is there is not found as ", type);
    bool same = false, can = false;
    if constexpr (IsList<T>::value) {
        using E = typename T::value_type;
        if (a->list) {
            can = cfg.isConvertible<T>(name);
            same = !failed && v.size() == a->l.size();
            for (size_t i = 0; i < a->l.size(); ++i) {
                can  = can && fits<E>(a->l[i]);
                same = same && equal<E>(a->l[i], v[i]);
            }
        }
    }
    else if (!a->list) {
        can  = cfg.isConvertible<T>(name) && fits<T>(*a);
        same = !failed && equal<T>(*a, v);
    }
    else if (a->l.size() == 1) {  // a list of one is that one
        same = !failed && equal<T>(a->l[0], v);
    }
    else {
        MC_CHECK(c, failed, "a list is taken for ", type);
    }
    if (IsList<T>::value && !a->list) same = true;
    if (std::is_same_v<T, bool> && !a->list && a->k == Abs::BOOLEAN) can = true;
    MC_CHECK(c, failed || same, "it is another value as ", type);
    MC_CHECK(c, !failed || !can, "it is not given as ", type, ", although it can be converted");
    if (fast) {
        bool f2 = false, f3 = false;
        T x{}, y{};
        try { x = (cfg.*fast)(name); }
        catch (eckit::Exception&) { f2 = true; }
        try { y = (cfg.*dflt)(name, other); }
        catch (eckit::Exception&) { f3 = true; }
        MC_CHECK(c, f2 == failed && (failed || x == v), "it is returned otherwise as ", type);
        MC_CHECK(c, (f3 && failed) || (!f3 && (failed || y == v)), "it is returned otherwise as ", type, " with a default");
    }
    c.evals();
}
void askAll(mc::Ctx& c, const LocalConfiguration& cfg, const Abs* a, const std::string& name) {
    using S = const std::string&;
#define ASK(T, get, def) ask<T>(c, cfg, a, name, #T, &Configuration::get, &Configuration::get, def)
    ASK(bool, getBool, true);
    ASK(int, getInt, -99);
    ASK(long, getLong, -99);
    ASK(size_t, getUnsigned, 99);
    ASK(float, getFloat, -99.f);
    ASK(double, getDouble, -99.);
    ASK(std::string, getString, std::string("-99"));
    ask<long long>(c, cfg, a, name, "long long", nullptr, nullptr, -99);
    ASK(std::vector<int>, getIntVector, (std::vector<int>{-9, -9, -9}));
    ASK(std::vector<long>, getLongVector, (std::vector<long>{-9, -9, -9}));
    ASK(std::vector<size_t>, getUnsignedVector, (std::vector<size_t>{9, 9, 9}));
    ASK(std::vector<float>, getFloatVector, (std::vector<float>{-9, -9, -9}));
    ASK(std::vector<double>, getDoubleVector, (std::vector<double>{-9, -9, -9}));
    ASK(std::vector<std::string>, getStringVector, (std::vector<std::string>{"-9", "-9", "-9"}));
    ask<std::vector<long long>>(c, cfg, a, name, "vector of long long", nullptr, nullptr, {-9, -9, -9});
#undef ASK
    // what it is
    bool l = a && a->list;
    auto el = [&](Abs::K k) { return l && (a->l.empty() || a->l[0].k == k); };
    auto is = [&](Abs::K k) { return a && !l && a->k == k; };
    MC_CHECK(c, cfg.has(name) == (a != nullptr), "has()");
    MC_CHECK(c, cfg.isIntegral(name) == is(Abs::INTEGER) && cfg.isFloatingPoint(name) == is(Abs::REAL) && cfg.isBoolean(name) == is(Abs::BOOLEAN) && cfg.isString(name) == is(Abs::STRING), "it is said to be of another type");
    MC_CHECK(c, cfg.isList(name) == l && !cfg.isSubConfiguration(name) && cfg.isSubConfigurationList(name) == (l && a->l.empty()) && !cfg.isNull(name), "it is said to be of another kind");
    MC_CHECK(c, cfg.isIntegralList(name) == el(Abs::INTEGER) && cfg.isFloatingPointList(name) == el(Abs::REAL) && cfg.isBooleanList(name) == el(Abs::BOOLEAN) && cfg.isStringList(name) == el(Abs::STRING), "it is said to be a list of another type");
}
template <class T>
void setOne(mc::Ctx& c, LocalConfiguration& cfg, const std::string& name, Abs& a) {
    auto all = values<T>();
    T v      = all[c.choose(int(all.size()), "value")];
    if (std::is_same_v<T, size_t> && __int128(abs1(v).i) > LLONG_MAX) c.reject();  // see what is said about it elsewhere
    a = abs1(v);
    cfg.set(name, v);
}
template <class T>
void setList(mc::Ctx& c, LocalConfiguration& cfg, const std::string& name, Abs& a) {
    int n = c.choose(3, "elements");
    std::vector<T> v;
    a.list = true;
    for (int i = 0; i < n; ++i) {
        auto all = values<T>();
        v.push_back(all[c.choose(int(all.size()), "element")]);
        if (std::is_same_v<T, size_t> && __int128(abs1(v.back()).i) > LLONG_MAX) c.reject();
        a.l.push_back(abs1(T(v.back())));
    }
    cfg.set(name, v);
}
}  // namespace
MC_SECTION("types", [](mc::Ctx& c) {
    LocalConfiguration cfg;
    std::string name = c.pick(std::vector<std::string>{"a", "x.y.z"}, "name");
    if (c.flag("something else was there")) cfg.set(name, "old");
    Abs a;
    switch (c.choose(16, "type")) {
        case 0: setOne<bool>(c, cfg, name, a); break;
        case 1: setOne<int>(c, cfg, name, a); break;
        case 2: setOne<long>(c, cfg, name, a); break;
        case 3: setOne<long long>(c, cfg, name, a); break;
        case 4: setOne<size_t>(c, cfg, name, a); break;
        case 5: setOne<float>(c, cfg, name, a); break;
        case 6: setOne<double>(c, cfg, name, a); break;
        case 7: setOne<std::string>(c, cfg, name, a); break;
        case 8: a = abs1(std::string("text")), cfg.set(name, "text"); break;
        case 9: setList<int>(c, cfg, name, a); break;
        case 10: setList<long>(c, cfg, name, a); break;
        case 11: setList<long long>(c, cfg, name, a); break;
        case 12: setList<size_t>(c, cfg, name, a); break;
        case 13: setList<float>(c, cfg, name, a); break;
        case 14: setList<double>(c, cfg, name, a); break;
        case 15: setList<std::string>(c, cfg, name, a); break;
    }
    MC_LOG(c, json(cfg));
    askAll(c, cfg, &a, name);
    askAll(c, cfg, nullptr, "absent");
    LocalConfiguration copy(cfg);
    copy.set(name, 5);
    askAll(c, cfg, &a, name);
    c.nontrivial();
}, opts(3));
