// V03: command lines give the options and arguments they state; specifications keep what was set, in layers
static void restart(int argc, char** argv);
#define HARNESS_MAIN restart
#include "common.h"

#include <cmath>
#include <functional>
#include <map>
#include <sstream>
#include <variant>

#include "eckit/config/LocalConfiguration.h"
#include "eckit/log/JSON.h"
#include "eckit/option/CmdArgs.h"
#include "eckit/option/FactoryOption.h"
#include "eckit/option/MultiValueOption.h"
#include "eckit/option/Separator.h"
#include "eckit/option/SimpleOption.h"
#include "eckit/option/VectorOption.h"
#include "eckit/parser/JSONParser.h"
#include "eckit/spec/Custom.h"
#include "eckit/spec/Exceptions.h"
#include "eckit/spec/Layered.h"
#include "eckit/value/Value.h"

using namespace eckit;
using namespace eckit::option;

// the process object, with another command line
namespace {
struct Tool : Main {
    Tool(int argc, char** argv) : Main(argc, argv, "MC_HOME") {}
};
}  // namespace
static void restart(int argc, char** argv) {
    static std::unique_ptr<Tool> tool;
    tool.reset();
    tool.reset(new Tool(argc, argv));
}

namespace {

template <typename... A>
std::string fmt(const char* f, A... a) {
    char b[2000];
    snprintf(b, sizeof(b), f, a...);
    return b;
}
inline std::string fmt(const char* f) {
    return f;
}
#define CK(c, cond, ...) MC_CHECK(c, cond, fmt(__VA_ARGS__))

using Strings = std::vector<std::string>;

//---------------------------------------------------------------------------------------------- command lines

struct Things {
    static void list(std::ostream& out) { out << "one, two"; }
};

std::string usageName;
int usages = 0;

// What a value given on a command line is, written so that it can be compared
std::string show(bool v) {
    return v ? "b:1" : "b:0";
}
std::string show(long v) {
    return "l:" + std::to_string(v);
}
std::string show(const std::string& v) {
    return "s:" + v;
}
std::string show(const std::vector<long>& v) {
    std::string r = "L:";
    for (long x : v) {
        r += std::to_string(x) + ",";
    }
    return r;
}
std::string show(const Strings& v) {
    std::string r = "S:";
    for (const auto& x : v) {
        r += x + ",";
    }
    return r;
}
std::string showDouble(double v) {
    return "d:" + std::to_string(v);
}

bool isNumber(const std::string& s, bool real) {
    size_t i = 0;
    if (i < s.size() && s[i] == '-') {
        ++i;
    }
    size_t digits = 0;
    bool dot      = false;
    for (; i < s.size(); ++i) {
        if (s[i] >= '0' && s[i] <= '9') {
            ++digits;
        }
        else if (s[i] == '.' && real && !dot) {
            dot = true;
        }
        else {
            return false;
        }
    }
    return digits > 0;
}

// The reference: what a command line means
struct Meaning {
    std::map<std::string, std::string> values;
    Strings args;
    bool error   = false;
    bool unclear = false;  // a number is not one: what it becomes is left open
};

Strings split(const std::string& s, char sep) {  // without empty parts
    Strings r;
    std::string t;
    for (char ch : s + sep) {
        if (ch != sep) {
            t += ch;
        }
        else if (!t.empty()) {
            r.push_back(t);
            t.clear();
        }
    }
    return r;
}

Meaning meaning(const Strings& argv, bool defaults) {
    Meaning m;
    if (defaults) {
        m.values["flag"]  = show(false);
        m.values["num"]   = show(7L);
        m.values["text"]  = show(std::string("dflt"));
        m.values["pair"]  = show(std::vector<long>{8, 9});
        m.values["multi"] = show(Strings{"m", "n"});
    }
    static const std::map<std::string, char> kinds = {{"flag", 'b'}, {"num", 'l'},  {"real", 'd'}, {"text", 's'}, {"pair", 'p'},
                                                      {"list", 'v'}, {"multi", 'm'}, {"one", 'f'},  {"x.y", 's'}};
    size_t i = 0;
    while (i < argv.size()) {
        const std::string a = argv[i++];
        if (a.compare(0, 2, "--") != 0) {
            m.args.push_back(a);
            continue;
        }
        size_t eq              = a.find('=');
        const bool given       = eq != std::string::npos;
        const std::string name = given ? a.substr(2, eq - 2) : a.substr(2);
        auto k                 = kinds.find(name);
        if (k == kinds.end()) {
            m.error = true;
            continue;
        }
        std::string value = given ? a.substr(eq + 1) : "";
        if (k->second == 'b') {
            if (!given) {
                m.values[name] = show(true);
            }
            else if (value == "no" || value == "0" || value == "OFF") {
                m.values[name] = show(false);
            }
            else if (value == "yes" || value == "1") {
                m.values[name] = show(true);
            }
            else {
                m.unclear = true;
            }
            continue;
        }
        if (k->second == 'm') {  // one value and up to one more that does not look like an option
            Strings v;
            if (given) {
                v.push_back(value);
            }
            else if (i < argv.size()) {
                v.push_back(argv[i++]);
            }
            else {
                m.error = true;
                continue;
            }
            if (i < argv.size() && argv[i].compare(0, 2, "--") != 0) {
                v.push_back(argv[i++]);
            }
            m.values[name] = show(v);
            continue;
        }
        size_t back = i;
        if (!given) {
            if (i >= argv.size()) {
                m.error = true;
                continue;
            }
            value = argv[i++];
        }
        switch (k->second) {
            case 's':
            case 'f':
                m.values[name] = show(value);
                break;
            case 'l':
                if (!isNumber(value, false)) {
                    m.unclear = true;
                }
                else {
                    m.values[name] = show(std::stol(value));
                }
                break;
            case 'd':
                if (!isNumber(value, true)) {
                    m.unclear = true;
                }
                else {
                    m.values[name] = showDouble(std::stod(value));
                }
                break;
            default: {
                std::vector<long> v;
                bool bad = false;
                for (const auto& t : split(value, '/')) {
                    if (!isNumber(t, false)) {
                        bad = true;
                    }
                    else {
                        v.push_back(std::stol(t));
                    }
                }
                if (bad) {
                    m.unclear = true;
                }
                else if (k->second == 'p' && v.size() != 2) {
                    m.error = true;
                    i       = back;
                }
                else {
                    m.values[name] = show(v);
                }
            }
        }
    }
    return m;
}

std::string lookup(const Configuration& cfg, const std::string& name) {
    if (!cfg.has(name)) {
        return "";
    }
    if (name == "flag") {
        return show(cfg.getBool(name));
    }
    if (name == "num") {
        return show(cfg.getLong(name));
    }
    if (name == "real") {
        return showDouble(cfg.getDouble(name));
    }
    if (name == "pair" || name == "list") {
        return show(cfg.getLongVector(name));
    }
    if (name == "multi") {
        return show(cfg.getStringVector(name));
    }
    return show(cfg.getString(name));
}

const char* names[] = {"flag", "num", "real", "text", "pair", "list", "multi", "one", "x.y"};

void commandLine(mc::Ctx& c, const Strings& argv, bool defaults, int count, int minimum) {
    static Strings kept;
    static std::vector<const char*> raw;
    kept = argv;
    raw  = {"tools/exe"};
    for (const auto& a : kept) {
        raw.push_back(a.c_str());
    }
    raw.push_back(nullptr);
    for (const auto& a : argv) {
        MC_LOG(c, "argument '", a, "'");
    }

    Meaning m = meaning(argv, defaults);
    if (m.unclear) {
        c.reject();
        return;
    }
    if ((count >= 0 && m.args.size() != size_t(count)) || (minimum >= 0 && m.args.size() < size_t(minimum))) {
        m.error = true;
    }

    restart(int(raw.size()) - 1, const_cast<char**>(raw.data()));

    std::vector<Option*> o;
    o.push_back(new Separator("First"));
    if (defaults) {
        o.push_back(new SimpleOption<bool>("flag", "", false));
        o.push_back(new SimpleOption<long>("num", "", 7));
        o.push_back(new SimpleOption<std::string>("text", "", "dflt"));
        o.push_back(new VectorOption<long>("pair", "", 2, std::vector<long>{8, 9}));
        o.push_back(new Separator("Second"));
        o.push_back(new MultiValueOption("multi", "", 1, 1, Strings{"m", "n"}));
    }
    else {
        o.push_back(new SimpleOption<bool>("flag", ""));
        o.push_back(new SimpleOption<long>("num", ""));
        o.push_back(new SimpleOption<std::string>("text", ""));
        o.push_back(new VectorOption<long>("pair", "", 2));
        o.push_back(new Separator("Second"));
        o.push_back(new MultiValueOption("multi", "", 1, 1));
    }
    o.push_back(new SimpleOption<double>("real", ""));
    o.push_back(new VectorOption<long>("list", "", 0));
    o.push_back(new FactoryOption<Things>("one", ""));
    o.push_back(new SimpleOption<std::string>("x.y", ""));

    usages = 0;
    usageName.clear();
    std::function<void(const std::string&)> usage = [](const std::string& n) {
        ++usages;
        usageName = n;
    };

    std::unique_ptr<CmdArgs> args;
    try {
        args.reset(new CmdArgs(usage, o, count, minimum, true));
    }
    catch (UserError&) {
        CK(c, m.error, "the command line was refused");
        CK(c, usages == 1 && usageName == "exe", "usage was shown %d times, for '%s'", usages, usageName.c_str());
        c.outcome("refused");
        return;
    }
    CK(c, !m.error, "a wrong command line was accepted");
    CK(c, usages == 0, "usage was shown for a good command line");
    CK(c, args->tool() == "exe", "the tool is '%s'", args->tool().c_str());
    CK(c, o.empty(), "the options were not taken over");
    c.outcome("accepted");
    c.nontrivial();

    Strings got;
    for (size_t i = 0; i < args->count(); ++i) {
        got.push_back((*args)(i));
    }
    CK(c, got == m.args, "the arguments are %s and not %s", show(got).c_str(), show(m.args).c_str());
    CK(c, Strings(args->begin(), args->end()) == m.args, "the iterated arguments are others");

    LocalConfiguration copy;
    copy.set("other", 1L);
    args->configure(copy);
    CK(c, copy.getLong("other") == 1, "configuring changed another value");
    for (const char* n : names) {
        auto it              = m.values.find(n);
        const std::string is = it == m.values.end() ? "" : it->second;
        const std::string g  = lookup(*args, n);
        CK(c, g == is, "option %s is '%s' and not '%s'", n, g.c_str(), is.c_str());
        const std::string h = lookup(copy, n);
        CK(c, h == is, "option %s is configured as '%s' and not '%s'", n, h.c_str(), is.c_str());
    }
    c.evals(18);
}

const char* tokens[] = {"--flag",   "--flag=no", "--num=3",    "--num",     "--text=a=b", "--text=",  "--text",    "--pair=1/2",
                        "--pair",   "--list=5",  "--list=",    "--multi",   "--multi=p",  "--none=1", "--x.y=u",   "4",
                        "6/7",      "",          "--real=1.5", "--flag=OFF", "--one",      "-9",       "--multi=",  "--pair=1/2/3"};

//---------------------------------------------------------------------------------------------- specifications

using spec::Custom;
using spec::Layered;
using spec::Spec;

struct V {  // a value of a specification
    enum K { B, I, L, LL, Z, F, D, S, VI, VL, VLL, VZ, VF, VD, VS, C } k;
    long i             = 0;
    double d           = 0;
    std::string s      = "";
    std::vector<double> v = {};
    Strings vs         = {};
};

bool integral(const V& v) {
    return v.k == V::I || v.k == V::L || v.k == V::LL || v.k == V::Z;
}
bool real(const V& v) {
    return integral(v) || v.k == V::F || v.k == V::D;
}
bool integrals(const V& v) {
    return v.k == V::VI || v.k == V::VL || v.k == V::VLL || v.k == V::VZ;
}
bool reals(const V& v) {
    return integrals(v) || v.k == V::VF || v.k == V::VD;
}
double num(const V& v) {
    return integral(v) ? double(v.i) : v.d;
}

const std::vector<V>& values() {
    static std::vector<V> vs;
    if (vs.empty()) {
        vs.push_back(V{V::B, 1});
        vs.push_back(V{V::B, 0});
        vs.push_back(V{V::I, 0});
        vs.push_back(V{V::L, 3});
        vs.push_back(V{V::Z, 1});
        vs.push_back(V{V::D, 0, 1.5});
        vs.push_back(V{V::S, 0, 0, "3"});
        vs.push_back(V{V::VL, 0, 0, "", {3, 1}});
        vs.push_back(V{V::VD, 0, 0, "", {0.5}});
        vs.push_back(V{V::VS, 0, 0, "", {}, {"3", "1"}});
        vs.push_back(V{V::C, 5});
        vs.push_back(V{V::LL, -3});
        vs.push_back(V{V::F, 0, 3});
        vs.push_back(V{V::VI, 0, 0, "", {3, 1}});
        vs.push_back(V{V::VLL, 0, 0, "", {-1, 2}});
        vs.push_back(V{V::VZ, 0, 0, "", {}});
        vs.push_back(V{V::VF, 0, 0, "", {0.5, 3}});
        vs.push_back(V{V::S, 0, 0, ""});
    }
    return vs;
}

template <typename T>
std::vector<T> cast(const std::vector<double>& v) {
    std::vector<T> r;
    for (double x : v) {
        r.push_back(T(x));
    }
    return r;
}

void put(Custom& t, const std::string& n, const V& v) {
    switch (v.k) {
        case V::B:
            return t.set(n, v.i != 0);
        case V::I:
            return t.set(n, int(v.i));
        case V::L:
            return t.set(n, v.i);
        case V::LL:
            return t.set(n, (long long)(v.i));
        case V::Z:
            return t.set(n, size_t(v.i));
        case V::F:
            return t.set(n, float(v.d));
        case V::D:
            return t.set(n, v.d);
        case V::S:
            return t.set(n, v.s);
        case V::VI:
            return t.set(n, cast<int>(v.v));
        case V::VL:
            return t.set(n, cast<long>(v.v));
        case V::VLL:
            return t.set(n, cast<long long>(v.v));
        case V::VZ:
            return t.set(n, cast<size_t>(v.v));
        case V::VF:
            return t.set(n, cast<float>(v.v));
        case V::VD:
            return t.set(n, v.v);
        case V::VS:
            return t.set(n, v.vs);
        case V::C: {
            Custom inner;
            inner.set("in", v.i);
            t.set(n, inner);
            inner.set("in", 77L);  // a copy was taken
            return;
        }
    }
}

// What a lookup of each type finds: empty for nothing
struct Found {
    std::map<std::string, std::string> r;
};

template <typename T>
std::string text(const T& v) {
    std::ostringstream s;
    s.precision(17);
    s << v;
    return "=" + s.str();
}
template <typename T>
std::string text(const std::vector<T>& v) {
    std::ostringstream s;
    s.precision(17);
    for (const auto& x : v) {
        s << x << ",";
    }
    return "=[" + s.str() + "]";
}

using Model = std::map<std::string, V>;

std::string expected(const V* v, const std::string& type) {
    if (!v) {
        return "";
    }
    if (type == "bool") {
        return v->k == V::B || integral(*v) ? text(int(v->i != 0)) : "";
    }
    if (type == "int" || type == "long" || type == "longlong" || type == "size_t") {
        if (!integral(*v)) {
            return "";
        }
        return type == "size_t" ? text(size_t(v->i)) : text(v->i);
    }
    if (type == "float" || type == "double") {
        return real(*v) ? text(num(*v)) : "";
    }
    if (type == "string") {
        return v->k == V::S    ? text(v->s)
               : integral(*v) ? text(std::to_string(v->i))
               : real(*v)     ? text(std::to_string(v->d))
                              : "";
    }
    if (type == "strings") {
        return v->k == V::VS ? text(v->vs) : "";
    }
    if (type == "ints" || type == "longs" || type == "longlongs") {
        return integrals(*v) ? text(cast<long>(v->v)) : "";
    }
    if (type == "size_ts") {
        return integrals(*v) ? text(cast<size_t>(cast<long>(v->v).empty() ? std::vector<double>() : v->v)) : "";
    }
    return reals(*v) ? text(v->v) : "";
}

const char* types[] = {"bool", "int",  "long",  "longlong",  "size_t",  "float",  "double", "string",
                       "ints", "longs", "longlongs", "size_ts", "floats", "doubles", "strings"};

template <typename T>
std::string ask(const Spec& s, const std::string& n, T init, const T& keep) {
    T v = init;
    if (!s.get(n, v)) {
        return v == keep ? "" : "changed though not found";
    }
    return text(v);
}

std::string actual(const Spec& s, const std::string& n, const std::string& t) {
#define ASK(NAME, TYPE, ...)                        \
    if (t == NAME) {                                \
        const TYPE k __VA_ARGS__;                   \
        return ask<TYPE>(s, n, k, k);               \
    }
    ASK("bool", bool, (true))
    ASK("int", int, (99))
    ASK("long", long, (99))
    ASK("longlong", long long, (99))
    ASK("size_t", size_t, (99))
    ASK("float", float, (99))
    ASK("double", double, (99))
    ASK("string", std::string, ("99"))
    ASK("ints", std::vector<int>, {99})
    ASK("longs", std::vector<long>, {99})
    ASK("longlongs", std::vector<long long>, {99})
    ASK("size_ts", std::vector<size_t>, {99})
    ASK("floats", std::vector<float>, {99})
    ASK("doubles", std::vector<double>, {99})
    ASK("strings", Strings, {"99"})
#undef ASK
    return "?";
}

// a negative number read as unsigned is not compared
bool comparable(const V* v, const std::string& type) {
    if (!v) {
        return true;
    }
    if (type == "size_t") {
        return v->i >= 0;
    }
    if (type == "size_ts") {
        for (double x : v->v) {
            if (x < 0) {
                return false;
            }
        }
    }
    return true;
}

template <typename F>
bool refuses(F f) {
    try {
        f();
    }
    catch (const Exception&) {
        return true;
    }
    return false;
}

void compareKey(mc::Ctx& c, const Spec& s, const std::string& n, const std::function<const V*(const std::string&)>& at) {
    for (const char* t : types) {
        const V* v = at(t);
        if (!comparable(v, t)) {
            continue;
        }
        const std::string e = expected(v, t);
        const std::string a = actual(s, n, t);
        CK(c, e == a, "%s as %s is '%s' and not '%s'", n.c_str(), t, a.c_str(), e.c_str());
        c.evals();
    }
    const V* v = at("long");
    CK(c, refuses([&]() { s.get_long(n); }) == (expected(v, "long") == ""), "get_long of %s", n.c_str());
    CK(c, text(s.get_long(n, 42)) == (expected(v, "long") == "" ? text(42) : expected(v, "long")), "default of %s", n.c_str());
    v = at("string");
    CK(c, text(s.get_string(n, "none")) == (expected(v, "string") == "" ? text("none") : expected(v, "string")), "default of %s",
             n.c_str());
    v = at("doubles");
    CK(c,
             text(s.get_double_vector(n, {42.})) == (expected(v, "doubles") == "" ? text(std::vector<double>{42.}) : expected(v, "doubles")),
             "default of %s", n.c_str());
}

// Known finding: booleans and nested specifications are never equal
bool unequalToCopy(const Model& m) {
    for (const auto& [k, v] : m) {
        if (v.k == V::B || v.k == V::C) {
            return true;
        }
    }
    return false;
}

void compareCustom(mc::Ctx& c, const Custom& t, const Model& m) {
    for (const std::string n : {"a", "b", "A", "z"}) {
        const std::string key = n == "A" ? "a" : n;
        auto it               = m.find(key);
        const V* v            = it == m.end() ? nullptr : &it->second;
        CK(c, t.has(n) == (v != nullptr), "has(%s)", n.c_str());
        compareKey(c, t, n, [&](const std::string&) { return v; });
        const bool nested = v && v->k == V::C;
        CK(c, t.has_custom(n) == nested, "has_custom(%s)", n.c_str());
        CK(c, refuses([&]() { t.custom(n); }) == !nested, "custom(%s)", n.c_str());
        if (nested) {
            CK(c, t.spec(n).get_long("in") == v->i && t.custom(n)->get_long("in") == v->i, "the value inside %s changed", n.c_str());
        }
    }
    CK(c, t.empty() == m.empty(), "empty()");
    CK(c, t.container().size() == m.size(), "there are %zu keys", t.container().size());
    CK(c, t.only("a") == (m.size() == 1 && m.count("a")), "only(a)");

    // written and read
    Value read = JSONParser::decodeString(t.str());
    CK(c, read.isMap(), "written as %s", t.str().c_str());
    ValueMap rm = read;
    CK(c, rm.size() == m.size(), "written as %s", t.str().c_str());
    bool makeable = true;
    for (const auto& [n, v] : m) {
        auto it = rm.find(Value(n));
        CK(c, it != rm.end(), "%s is not written in %s", n.c_str(), t.str().c_str());
        const Value& w = it->second;
        bool ok        = false;
        if (v.k == V::B) {
            ok       = w.isBool() && bool(w) == (v.i != 0);
            makeable = false;  // refused
        }
        else if (integral(v)) {
            ok = w.isNumber() && (long long)(w) == v.i;
        }
        else if (real(v)) {
            ok = double(w) == v.d;
        }
        else if (v.k == V::S) {
            ok = w.isString() && std::string(w) == v.s;
        }
        else if (v.k == V::C) {
            ok = w.isMap() && long(w["in"]) == v.i;
        }
        else {
            ValueList l = w;
            if (v.k == V::VS) {
                ok = l.size() == v.vs.size();
                for (size_t i = 0; ok && i < l.size(); ++i) {
                    ok = std::string(l[i]) == v.vs[i];
                }
            }
            else {
                ok = l.size() == v.v.size();
                for (size_t i = 0; ok && i < l.size(); ++i) {
                    ok = double(l[i]) == v.v[i];
                }
            }
            if (l.empty()) {
                makeable = false;  // refused
            }
        }
        CK(c, ok, "%s is written wrongly in %s", n.c_str(), t.str().c_str());
    }
    if (makeable) {
        std::unique_ptr<Custom> again(Custom::make_from_value(read));
        CK(c, again->str() == t.str(), "%s differs after writing and reading", t.str().c_str());
        if (!unequalToCopy(m)) {
            CK(c, t == *again && *again == t, "%s differs after writing and reading", t.str().c_str());
        }
    }
}

bool sameValue(const V& a, const V& b) {  // as values, whatever their types
    if (a.k == V::C || b.k == V::C) {
        return a.k == b.k && a.i == b.i;
    }
    if (a.k == V::B || b.k == V::B) {
        return a.k == b.k && a.i == b.i;
    }
    for (const char* t : {"long", "longs", "double", "doubles", "strings"}) {
        const std::string x = expected(&a, t), y = expected(&b, t);
        if (!x.empty() && x == y) {
            return true;
        }
    }
    return a.k == V::S && b.k == V::S && a.s == b.s;
}

}  // namespace

// every command line of up to n tokens, with and without defaults
MC_SECTION("cmdline", [](mc::Ctx& c) {
    const bool defaults = c.flag();
    const int maxn      = c.tier() ? 5 : 4;
    const int n         = c.choose(maxn + 1);
    Strings argv;
    for (int i = 0; i < n; ++i) {
        argv.push_back(tokens[c.choose(int(sizeof(tokens) / sizeof(tokens[0])))]);
    }
    commandLine(c, argv, defaults, -1, -1);
}, opts(3, 16));

// longer ones of fewer tokens, where the number of arguments matters
MC_SECTION("cmdline-long", [](mc::Ctx& c) {
    static const char* few[] = {"--flag", "--text", "--text=t", "--multi", "--multi=p", "4", "w"};
    const int maxn           = c.tier() ? 7 : 5;
    const int n              = c.choose(maxn + 1);
    const int count          = c.choose(4) - 1;
    const int minimum        = count < 0 ? c.choose(4) - 1 : -1;
    Strings argv;
    for (int i = 0; i < n; ++i) {
        argv.push_back(few[c.choose(int(sizeof(few) / sizeof(few[0])))]);
    }
    commandLine(c, argv, true, count, minimum);
}, opts(3, 16));

// every sequence of changes of a specification
MC_SECTION("spec", [](mc::Ctx& c) {
    Custom t;
    Model m;
    const int n = c.tier() ? 4 : 3;
    for (int i = 0; i < n; ++i) {
        const int op = c.choose(4);
        if (op == 0) {
            break;
        }
        if (op == 3) {
            const std::string k = c.flag() ? "a" : "b";
            const bool was      = m.erase(k);
            CK(c, t.erase(k) == (was ? 1 : 0), "erase");
            continue;
        }
        static const char* keys[] = {"a", "b", "A"};
        const std::string k       = keys[op == 1 ? c.choose(2) : 2];
        const V& v                = c.pick(values());
        put(t, k, v);
        m.erase(k == "A" ? "a" : k);
        m.emplace(k == "A" ? "a" : k, v);
    }
    compareCustom(c, t, m);
    c.nontrivial();

    // copies are equal and independent
    Custom copy(t.container());
    const bool equal = copy == t && t == copy && !(copy != t) && t == t;
    if (!unequalToCopy(m)) {
        CK(c, equal, "a copy of %s differs from it", t.str().c_str());
    }
    copy.set("b", std::string("changed"));
    copy.erase("a");
    compareCustom(c, t, m);
    copy.clear();
    CK(c, copy.empty() && !copy.has("b"), "clear()");
    if (!equal) {
        c.fail("a copy of " + t.str() + " differs from it", "spec-booleans-and-nested-unequal");
    }
}, opts(4, 16));

// all pairs of specifications: one is equal to another if the other has all its keys with the same values
MC_SECTION("spec-equal", [](mc::Ctx& c) {
    auto build = [&](Custom& t, Model& m) {
        for (const std::string k : {"a", "b"}) {
            const int n = int(values().size());
            const int j = c.choose((k == "a" ? n : 4) + 1);
            if (j) {
                put(t, k, values()[j - 1]);
                m.emplace(k, values()[j - 1]);
            }
        }
    };
    Custom s, t;
    Model ms, mt;
    build(s, ms);
    build(t, mt);
    bool equal = true;
    for (const auto& [k, v] : ms) {
        auto it = mt.find(k);
        // texts and numbers are compared as texts as well: left open here
        if (it != mt.end() && (v.k == V::S) != (it->second.k == V::S)) {
            c.reject();
            return;
        }
        equal = equal && it != mt.end() && sameValue(v, it->second);
    }
    CK(c, (s == t) != (s != t), "== and != of %s and %s", s.str().c_str(), t.str().c_str());
    if (equal && s != t && unequalToCopy(ms)) {
        c.fail(s.str() + " is not equal to " + t.str(), "spec-booleans-and-nested-unequal");
        return;
    }
    CK(c, (s == t) == equal, "%s == %s", s.str().c_str(), t.str().c_str());
    CK(c, (s != t) == !equal, "%s != %s", s.str().c_str(), t.str().c_str());
    c.outcome(equal ? "equal" : "different");
    c.nontrivial();
}, opts(3, 16));

// all stacks of layers
MC_SECTION("spec-layers", [](mc::Ctx& c) {
    static const int vals[] = {3, 5, 6, 10, 7};  // long, double, text, nested, numbers
    auto make = [&](Model& m) {
        auto* t = new Custom;
        for (const std::string k : {"a", "b"}) {
            const int j = c.choose(k == "a" ? 6 : 2);
            if (j) {
                V v = values()[vals[j - 1]];
                if (v.k == V::L || v.k == V::C) {
                    static long unique = 0;
                    v.i += 100 + (++unique);
                }
                put(*t, k, v);
                m.emplace(k, v);
            }
        }
        return t;
    };
    Model base;
    std::unique_ptr<Custom> b(make(base));
    std::unique_ptr<Layered> layered(new Layered(*b));
    std::vector<Model> order{base};  // first has precedence
    std::vector<Model> front, back;  // in the order they were added
    std::map<std::string, bool> hidden;
    const int n = c.tier() ? 4 : 3;
    for (int i = 0; i < n; ++i) {
        const int op = c.choose(5);
        if (op == 0) {
            break;
        }
        if (op == 1 || op == 2) {
            Model m;
            Custom* t = make(m);
            if (op == 1) {
                layered->push_front(t);
                order.insert(order.begin(), m);
                front.push_back(m);
            }
            else {
                layered->push_back(t);
                order.push_back(m);
                back.push_back(m);
            }
        }
        else {
            const std::string k = c.flag() ? "a" : "b";
            hidden[k]           = op == 3;
            op == 3 ? layered->hide(k) : layered->unhide(k);
        }
    }
    for (const std::string k : {"a", "b", "z"}) {
        bool has = false;
        for (const auto& m : order) {
            has = has || m.count(k);
        }
        has = has && !hidden[k];
        CK(c, layered->has(k) == has, "has(%s)", k.c_str());
        compareKey(c, *layered, k, [&](const std::string& t) -> const V* {
            if (hidden[k]) {
                return nullptr;
            }
            for (const auto& m : order) {
                auto it = m.find(k);
                if (it != m.end() && expected(&it->second, t) != "") {
                    return &it->second;
                }
            }
            return nullptr;
        });
    }
    for (const std::string k : {"a", "b", "z"}) {
        const V* first = nullptr;
        for (auto m = order.rbegin(); m != order.rend(); ++m) {
            if (m->count(k)) {
                first = &m->at(k);
            }
        }
        const bool has = first && !hidden[k];
        const Spec& s  = *layered;
        long in        = -1;  // not found
        try {
            in = s.spec(k).get_long("in");
        }
        catch (const Exception&) {
        }
        if (has && first->k != V::C) {
            continue;
        }
        const long want = has ? first->i : -1;
        if (in != want) {
            // Known finding: the layers in front are asked first to last, those behind only for what is hidden, hidden or not
            const V* known = nullptr;
            for (auto m = back.rbegin(); hidden[k] && m != back.rend(); ++m) {
                known = m->count(k) ? &m->at(k) : known;
            }
            for (auto m = front.rbegin(); m != front.rend(); ++m) {
                known = m->count(k) ? &m->at(k) : known;
            }
            const long expect = known && known->k == V::C ? known->i : -1;
            c.fail(mc::cat("the specification ", k, " is ", in, " and not ", want), in == expect ? "layered-spec" : "");
            return;
        }
    }
    c.nontrivial();
}, opts(4, 16));

// a specification made of a value has its numbers and texts
MC_SECTION("spec-value", [](mc::Ctx& c) {
    static const char* scalars[] = {"0", "-1", "2147483647", "-2147483648", "2147483648", "-2147483649", "5000000000", "9223372036854775807",
                                    "0.5", "-1e10", "\"t\"", "\"\""};
    const int shape = c.choose(4);
    const int n     = shape == 0 || shape == 3 ? 1 : c.choose(3) + 1;
    Strings parts;
    int texts = 0;
    for (int i = 0; i < n; ++i) {
        const char* s = scalars[c.choose(12)];
        texts += s[0] == '"';
        parts.push_back(s);
    }
    std::string body;
    for (const auto& p : parts) {
        body += (body.empty() ? "" : ",") + p;
    }
    std::string json = shape == 0   ? "{\"K\":" + body + "}"
                       : shape == 1 ? "{\"K\":[" + body + "]}"
                       : shape == 2 ? "{\"K\":[" + body + "],\"l\":{\"m\":[" + body + "]}}"
                                    : "{\"l\":{\"K\":" + body + "},\"K\":" + body + "}";
    MC_LOG(c, json);
    std::unique_ptr<Custom> t;
    try {
        t.reset(Custom::make_from_value(JSONParser::decodeString(json)));
    }
    catch (const Exception&) {
        CK(c, texts && texts != n, "%s was refused", json.c_str());
        c.outcome("refused");
        return;
    }
    CK(c, texts == 0 || texts == n, "a mixed list was accepted");
    // Known finding: integers are taken as 32 bits
    auto beyond = [&](const std::string& p) { return isNumber(p, false) && (std::stol(p) > 2147483647L || std::stol(p) < -2147483648L); };
    bool allWhole = true, someBeyond = false;
    for (const auto& p : parts) {
        allWhole   = allWhole && isNumber(p, false);
        someBeyond = someBeyond || beyond(p);
    }
    if (someBeyond && allWhole) {
        const std::string k = shape == 0 || shape == 3 ? "K" : "k";
        std::vector<long> l = n == 1 && shape != 1 && shape != 2 ? std::vector<long>{t->get_long(k)} : t->get_long_vector(k);
        bool right = int(l.size()) == n, known = right;
        for (int i = 0; i < n && right; ++i) {
            right = l[i] == std::stol(parts[i]);
        }
        for (int i = 0; i < n && known; ++i) {
            known = l[i] == int(std::stol(parts[i]));
        }
        if (!right) {
            c.fail(json + " has other numbers", known ? "spec-from-value-beyond-32-bits" : "");
            return;
        }
    }
    auto scalar = [&](const Spec& s, const std::string& k) {
        const std::string p = parts[0];
        if (p[0] == '"') {
            CK(c, s.get_string(k) == p.substr(1, p.size() - 2), "text %s", p.c_str());
        }
        else if (isNumber(p, false)) {
            CK(c, s.get_long(k) == std::stol(p), "%s is read as %ld", p.c_str(), s.get_long(k));
            CK(c, s.get_double(k) == std::stod(p), "%s is read as %g", p.c_str(), s.get_double(k));
        }
        else {
            CK(c, s.get_double(k) == std::stod(p), "%s is read as %g", p.c_str(), s.get_double(k));
        }
    };
    auto list = [&](const Spec& s, const std::string& k) {
        if (texts) {
            Strings v;
            CK(c, s.get(k, v) && int(v.size()) == n, "the texts %s", body.c_str());
            for (int i = 0; i < n; ++i) {
                CK(c, "\"" + v[i] + "\"" == parts[i], "text %s", parts[i].c_str());
            }
            return;
        }
        std::vector<double> v = s.get_double_vector(k);
        CK(c, int(v.size()) == n, "the numbers %s", body.c_str());
        bool whole = true;
        for (int i = 0; i < n; ++i) {
            CK(c, v[i] == std::stod(parts[i]), "%s is read as %g", parts[i].c_str(), v[i]);
            whole = whole && isNumber(parts[i], false);
        }
        if (whole) {
            std::vector<long> l = s.get_long_vector(k);
            for (int i = 0; i < n; ++i) {
                CK(c, l[i] == std::stol(parts[i]), "%s is read as %ld", parts[i].c_str(), l[i]);
            }
        }
    };
    if (shape == 0 || shape == 3) {
        scalar(*t, "K");
    }
    else {
        list(*t, "k");
    }
    if (shape == 2) {
        list(t->spec("L"), "M");
    }
    if (shape == 3) {
        scalar(t->spec("L"), "k");
    }
    c.nontrivial();
    if (body.find("-1e10") != std::string::npos) {
        return;  // written as an integer: as above
    }
    // a copy made by writing and reading is the same
    std::unique_ptr<Custom> again(Custom::make_from_value(JSONParser::decodeString(t->str())));
    CK(c, again->str() == t->str(), "%s is written as %s", t->str().c_str(), again->str().c_str());
    c.nontrivial();
}, opts(3, 8));
