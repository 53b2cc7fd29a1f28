// E04: JSON, YAML and CSV text
#include <cmath>
#include <map>
#include "eckit/log/JSON.h"
#include "eckit/parser/CSVParser.h"
#include "eckit/parser/JSONParser.h"
#include "eckit/parser/YAMLParser.h"
#include "eckit/value/Value.h"
#include "common.h"

using namespace eckit;

namespace {
// ---------------------------------------------------------------------------------------------------------------------
// the reference: a tree, and a parser of exactly RFC 8259
struct J {
    enum T { NUL, BOOL, INT, REAL, STR, LIST, MAP } t = NUL;
    bool b       = false;
    long long i  = 0;
    double d     = 0;
    std::string s;
    std::vector<J> l;
    std::vector<std::pair<std::string, J>> m;
    bool range = true;  // a number which fits

    static J boolean(bool b) { J j; j.t = BOOL; j.b = b; return j; }
    static J integer(long long i) { J j; j.t = INT; j.i = i; return j; }
    static J real(double d) { J j; j.t = REAL; j.d = d; return j; }
    static J string(const std::string& s) { J j; j.t = STR; j.s = s; return j; }
    static J list() { J j; j.t = LIST; return j; }
    static J map() { J j; j.t = MAP; return j; }

    bool operator==(const J& o) const {
        if (t == REAL && o.t == INT) return d == (double)o.i;
        if (t == INT && o.t == REAL) return o == *this;
        return t == o.t && b == o.b && i == o.i && d == o.d && s == o.s && l == o.l && m == o.m;
    }
    void put(const std::string& k, const J& v) {
        for (auto& e : m)
            if (e.first == k) {
                e.second = v;
                return;
            }
        m.emplace_back(k, v);
    }
    std::string str() const {
        std::ostringstream o;
        o.precision(17);
        switch (t) {
            case NUL: o << "null"; break;
            case BOOL: o << (b ? "true" : "false"); break;
            case INT: o << i; break;
            case REAL: o << d << "r"; break;
            case STR: o << '<' << s << '>'; break;
            case LIST:
                o << "[";
                for (auto& x : l) o << x.str() << ",";
                o << "]";
                break;
            case MAP:
                o << "{";
                for (auto& x : m) o << '<' << x.first << ">:" << x.second.str() << ",";
                o << "}";
                break;
        }
        return o.str();
    }
};

struct Refused {};

struct Ref {
    const std::string& s;
    size_t p       = 0;
    bool controls  = false;  // accept control characters in strings
    bool escaped16 = false;
    explicit Ref(const std::string& s, bool controls = false) : s(s), controls(controls) {}
    int peek() { return p < s.size() ? (unsigned char)s[p] : -1; }
    void ws() {
        while (peek() == ' ' || peek() == '\n' || peek() == '\t' || peek() == '\r') p++;
    }
    void want(char c) {
        if (peek() != (unsigned char)c) throw Refused();
        p++;
    }
    int hex4() {
        int v = 0;
        for (int k = 0; k < 4; k++) {
            int c = peek();
            if (!(c >= '0' && c <= '9') && !(c >= 'a' && c <= 'f') && !(c >= 'A' && c <= 'F')) throw Refused();
            v = v * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10);
            p++;
        }
        return v;
    }
    std::string string() {
        want('"');
        std::string r;
        for (;;) {
            int c = peek();
            if (c < 0 || (c < 32 && !controls)) throw Refused();
            p++;
            if (c == '"') return r;
            if (c != '\\') {
                r += char(c);
                continue;
            }
            c = peek();
            p++;
            switch (c) {
                case '"': case '\\': case '/': r += char(c); break;
                case 'b': r += '\b'; break;
                case 'f': r += '\f'; break;
                case 'n': r += '\n'; break;
                case 'r': r += '\r'; break;
                case 't': r += '\t'; break;
                case 'u': {
                    uint32_t u = hex4();
                    if (u >= 0xdc00 && u < 0xe000) throw Refused();
                    if (u >= 0xd800 && u < 0xdc00) {
                        want('\\');
                        want('u');
                        uint32_t v = hex4();
                        if (v < 0xdc00 || v >= 0xe000) throw Refused();
                        u = 0x10000 + ((u - 0xd800) << 10) + (v - 0xdc00);
                    }
                    if (u < 0x80) r += char(u);
                    else if (u < 0x800) r += char(0xc0 | u >> 6), r += char(0x80 | (u & 63));
                    else if (u < 0x10000) r += char(0xe0 | u >> 12), r += char(0x80 | (u >> 6 & 63)), r += char(0x80 | (u & 63));
                    else r += char(0xf0 | u >> 18), r += char(0x80 | (u >> 12 & 63)), r += char(0x80 | (u >> 6 & 63)), r += char(0x80 | (u & 63));
                    break;
                }
                default: throw Refused();
            }
        }
    }
    J number() {
        size_t q  = p;
        bool real = false;
        auto digits = [&]() {
            if (!(peek() >= '0' && peek() <= '9')) throw Refused();
            while (peek() >= '0' && peek() <= '9') p++;
        };
        if (peek() == '-') p++;
        if (peek() == '0') p++;
        else digits();
        if (peek() == '.') p++, real = true, digits();
        if (peek() == 'e' || peek() == 'E') {
            p++, real = true;
            if (peek() == '+' || peek() == '-') p++;
            digits();
        }
        std::string t = s.substr(q, p - q);
        errno         = 0;
        double d      = strtod(t.c_str(), nullptr);
        bool range    = errno == 0;
        if (!real) {
            errno       = 0;
            long long i = strtoll(t.c_str(), nullptr, 10);
            if (errno == 0) return J::integer(i);
        }
        J j = J::real(d);
        j.range = range;
        return j;
    }
    J value() {
        ws();
        J r;
        int c = peek();
        if (c == '{') {
            p++, r.t = J::MAP;
            ws();
            if (peek() == '}') p++;
            else
                for (;;) {
                    ws();
                    std::string k = string();
                    ws();
                    want(':');
                    r.put(k, value());
                    if (peek() == '}') {
                        p++;
                        break;
                    }
                    want(',');
                }
        }
        else if (c == '[') {
            p++, r.t = J::LIST;
            ws();
            if (peek() == ']') p++;
            else
                for (;;) {
                    r.l.push_back(value());
                    if (peek() == ']') {
                        p++;
                        break;
                    }
                    want(',');
                }
        }
        else if (c == '"') r = J::string(string());
        else if (c == '-' || (c >= '0' && c <= '9')) r = number();
        else {
            auto word = [&](const char* w) {
                for (; *w; w++) want(*w);
            };
            if (c == 't') word("true"), r = J::boolean(true);
            else if (c == 'f') word("false"), r = J::boolean(false);
            else word("null");
        }
        ws();
        return r;
    }
    static bool parse(const std::string& s, J& j, bool controls = false) {
        Ref r(s, controls);
        try {
            j = r.value();
            return r.p == s.size();
        }
        catch (Refused&) {
            return false;
        }
    }
};
bool ranges(const J& j) {
    for (auto& x : j.l)
        if (!ranges(x)) return false;
    for (auto& x : j.m)
        if (!ranges(x.second)) return false;
    return j.range;
}

// ---------------------------------------------------------------------------------------------------------------------
J tree(const Value& v) {
    if (v.isNil()) return J();
    if (v.isBool()) return J::boolean(v);
    if (v.isDouble()) return J::real(v);
    if (v.isNumber()) return J::integer(v);
    if (v.isString()) return J::string(v);
    J r;
    if (v.isList()) {
        r.t         = J::LIST;
        ValueList l = v;
        for (auto& x : l) r.l.push_back(tree(x));
    }
    else if (v.isOrderedMap() || v.isMap()) {
        r.t     = J::MAP;
        Value k = v.keys();
        for (size_t i = 0; i < k.size(); i++) r.m.emplace_back(std::string(k[int(i)]), tree(v[k[int(i)]]));
    }
    else r = J::string("?" + v.typeName());
    return r;
}
Value value(const J& j) {
    switch (j.t) {
        case J::NUL: return Value();
        case J::BOOL: return Value(j.b);
        case J::INT: return Value(j.i);
        case J::REAL: return Value(j.d);
        case J::STR: return Value(j.s);
        case J::LIST: {
            ValueList l;
            for (auto& x : j.l) l.push_back(value(x));
            return Value::makeList(l);
        }
        case J::MAP: {
            Value m = Value::makeOrderedMap();
            for (auto& x : j.m) m[Value(x.first)] = value(x.second);
            return m;
        }
    }
    return Value();
}
void write(JSON& o, const J& j) {
    switch (j.t) {
        case J::NUL: o.null(); break;
        case J::BOOL: o << j.b; break;
        case J::INT: o << j.i; break;
        case J::REAL: o << j.d; break;
        case J::STR: o << j.s; break;
        case J::LIST:
            o.startList();
            for (auto& x : j.l) write(o, x);
            o.endList();
            break;
        case J::MAP:
            o.startObject();
            for (auto& x : j.m) {
                o << x.first;
                write(o, x.second);
            }
            o.endObject();
            break;
    }
}

// what the parser makes of a text: false if it refuses
bool json(mc::Ctx& c, const std::string& s, J& out) {
    c.evals();
    try {
        out = tree(JSONParser::decodeString(s));
        return true;
    }
    catch (eckit::Exception&) {
        return false;
    }
}
void against(mc::Ctx& c, const std::string& s, bool controls = false) {
    J ref, got;
    bool good = Ref::parse(s, ref, controls);
    if (good && !ranges(ref)) return;  // numbers which a double does not hold may be refused
    bool taken = json(c, s, got);
    MC_CHECK(c, taken == good, "[", s, "] is ", good ? "JSON but refused" : "not JSON but accepted as " + got.str());
    MC_CHECK(c, !good || got == ref, "[", s, "] is read as ", got.str(), " instead of ", ref.str());
    if (good) c.outcome("accepted");
    else c.outcome("refused");
}

J generate(mc::Ctx& c, int& budget, int depth, bool top) {
    budget--;
    int kinds = depth > 0 && budget > 0 ? 7 : depth > 0 ? 7 : 5;
    switch (c.choose(kinds, "kind")) {
        case 0: return J();
        case 1: return J::boolean(true);
        case 2: return J::integer(-7);
        case 3: return J::real(1.5);
        case 4: return J::string("a b");
        case 5: {
            J r = J::list();
            while (budget > 0 && c.flag("another")) r.l.push_back(generate(c, budget, depth - 1, false));
            return r;
        }
        default: {
            J r = J::map();
            static const char* keys[] = {"k", "a key", "", "z"};
            while (budget > 0 && r.m.size() < 4 && c.flag("another")) {
                std::string k = keys[r.m.size()];
                r.m.emplace_back(k, generate(c, budget, depth - 1, false));
            }
            return r;
        }
    }
}
JSON::Formatting formatting(int f) {
    switch (f) {
        case 0: return JSON::Formatting::compact();
        case 1: return JSON::Formatting(JSON::Formatting::INDENT_DICT, 2);
        case 2: return JSON::Formatting(JSON::Formatting::INDENT_LIST, 2);
        case 3: return JSON::Formatting(JSON::Formatting::INDENT_ALL, 3);
        default: return JSON::Formatting::indent(0);
    }
}
}  // namespace

// what is written is JSON, and read back the same
MC_SECTION("trees", [](mc::Ctx& c) {
    int budget = c.tier() ? 6 : 5;
    J j        = generate(c, budget, 3, true);
    MC_LOG(c, "tree ", j.str());
    for (int f = 0; f < 5; f++) {
        std::ostringstream o;
        {
            JSON w(o, formatting(f));
            write(w, j);
        }
        J back;
        MC_CHECK(c, Ref::parse(o.str(), back), "format ", f, ": [", o.str(), "] is not JSON");
        MC_CHECK(c, back == j, "format ", f, ": ", j.str(), " is written as [", o.str(), "]");
        MC_CHECK(c, json(c, o.str(), back), "format ", f, ": [", o.str(), "] is refused");
        MC_CHECK(c, back == j, "format ", f, ": [", o.str(), "] is read as ", back.str());
        // JSON is YAML
        back = tree(YAMLParser::decodeString(o.str()));
        MC_CHECK(c, back == j, "format ", f, ": [", o.str(), "] is read as YAML as ", back.str());
        c.step();
    }
    // a value writes itself
    std::ostringstream o;
    {
        JSON w(o);
        w << value(j);
    }
    J back;
    MC_CHECK(c, Ref::parse(o.str(), back), "the value writes [", o.str(), "], not JSON");
    MC_CHECK(c, back == j, "the value ", j.str(), " writes [", o.str(), "]");
    c.nontrivial();
}, opts(3));

// any character in a string, a key, or on its own
MC_SECTION("strings", [](mc::Ctx& c) {
    const int special[] = {0, 1, 8, 9, 10, 12, 13, 27, 31, 32, '"', '\\', '/', '\'', '#', 'a', 'u', '0', 127, 0x80, 0xff};
    int how             = c.choose(4, "how");
    std::vector<std::string> all;
    if (how == 0)
        for (int i = 0; i < 256; i++) all.push_back(std::string(1, char(i)));
    if (how == 1) {
        char a = char(c.pick(special, "first"));
        for (int b : special) {
            all.push_back(std::string{a, char(b)});
            for (int d : special) all.push_back(std::string{a, char(b), char(d)});
        }
    }
    if (how == 2) all = {"", "\u00e9", "\u20ac uro", "\U0001F600", std::string(300, 'x'), "\\u0041", "a\\", "\r\n", "\n\r", "// #", "{}", "[1]", "null", "12"};
    if (how == 3) {
        for (int i = 0; i < 256; i++) {
            std::ostringstream o;
            {
                JSON w(o);
                if (c.tier() > 9) c.step();
                w.startList();
                w << char(i) << (unsigned char)(i) << std::string(1, char(i)).c_str();
                w.endList();
            }
            J j = J::list(), back;
            j.l = {J::string(std::string(1, char(i))), J::string(std::string(1, char(i))), J::string(i ? std::string(1, char(i)) : "")};
            MC_CHECK(c, Ref::parse(o.str(), back), "the character ", i, " is written as [", o.str(), "], not JSON");
            MC_CHECK(c, back == j, "the character ", i, " is written as [", o.str(), "]");
        }
        return;
    }
    int where = c.choose(3, "where");
    for (auto& s : all) {
        J j;
        if (where == 0) j = J::string(s);
        if (where == 1) j.t = J::MAP, j.put(s, J::integer(1)), j.put("x", J());
        if (where == 2) j.t = J::LIST, j.l = {J::string(s), J::string(s + "!")};
        std::ostringstream o;
        {
            JSON w(o);
            write(w, j);
        }
        J back;
        MC_CHECK(c, Ref::parse(o.str(), back), "[", o.str(), "] is not JSON");
        MC_CHECK(c, back == j, j.str(), " is written as [", o.str(), "]");
        MC_CHECK(c, json(c, o.str(), back) && back == j, "[", o.str(), "] is read as ", back.str());
    }
    c.nontrivial();
}, opts(2));

// numbers keep their value
MC_SECTION("numbers", [](mc::Ctx& c) {
    std::ostringstream o;
    J j, back;
    if (c.flag("real")) {
        const double mant[] = {1, 1.5, 1.0 / 3, 0.1, 9.999999999999999, 1.7976931348623157, 2.2250738585072014, 123456789.123456789};
        int e               = c.choose(615, "exponent") - 307;
        double d            = c.pick(mant, "mantissa") * std::pow(10.0, e);
        if (!std::isnormal(d)) c.reject();
        if (c.flag("negative")) d = -d;
        j = J::real(d);
    }
    else {
        int bit     = c.choose(64, "bit");
        long long v = (long long)((1ULL << bit) + (long long)c.choose(5, "plus") - 2);
        if (c.flag("negative")) v = (long long)(0 - (unsigned long long)v);
        j = J::integer(v);
    }
    {
        JSON w(o);
        w.precision(17);
        write(w, j);
    }
    MC_CHECK(c, Ref::parse(o.str(), back) && back == j, j.str(), " is written as [", o.str(), "]");
    MC_CHECK(c, json(c, o.str(), back) && back == j, "[", o.str(), "] is read as ", back.str());
    Value y = YAMLParser::decodeString(o.str());
    MC_CHECK(c, tree(y) == j, "[", o.str(), "] is read as YAML as ", tree(y).str());
    c.nontrivial();
}, opts(2));

// every short text over an alphabet: accepted if and only if it is JSON, with its value
template <size_t N>
void words(mc::Ctx& c, const char* (&alphabet)[N], int length, const std::string& before = "", const std::string& after = "") {
    int n = c.choose(length + 1, "length");
    std::string s;
    int last = std::min(n, 2);
    for (int i = 0; i < n - last; i++) s += c.pick(alphabet, "token");
    // the last two in a loop
    if (last == 0) against(c, before + s + after);
    if (last == 1)
        for (auto a : alphabet) against(c, before + s + a + after);
    if (last == 2)
        for (auto a : alphabet)
            for (auto b : alphabet) against(c, before + s + a + b + after);
    c.step();
}
MC_SECTION("structure", [](mc::Ctx& c) {
    static const char* a[] = {"{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "1", " ", "null"};
    words(c, a, c.tier() ? 6 : 5);
}, opts(3));
MC_SECTION("number syntax", [](mc::Ctx& c) {
    static const char* a[] = {"0", "1", "9", "-", "+", ".", "e", "E", " "};
    if (c.flag("in a list")) words(c, a, c.tier() ? 6 : 4, "[", ",2]");
    else words(c, a, c.tier() ? 7 : 5);
}, opts(3));
MC_SECTION("literals", [](mc::Ctx& c) {
    const char* words[] = {"true", "false", "null"};
    std::string w       = c.pick(words, "word");
    const std::string alphabet("truefalsn TNF0\n\0\"x", 18);
    bool list           = c.flag("in a list");
    auto test           = [&](const std::string& s) { against(c, list ? "[" + s + "]" : s); };
    size_t i            = c.choose(w.size() + 1, "first edit");
    {
        for (char a : alphabet) {
            std::string s = w;
            s.insert(i, 1, a);
            test(s);
            for (size_t k = 0; k <= s.size(); k++)
                for (char b : alphabet) {
                    std::string t = s;
                    t.insert(k, 1, b);
                    test(t);
                    if (k < s.size()) {
                        t = s;
                        t[k] = b;
                        test(t);
                    }
                }
        }
    }
    if (i < w.size()) {
        std::string s = w;
        s.erase(i, 1);
        test(s);
        for (size_t k = 0; k < s.size(); k++)
            for (char b : alphabet) {
                std::string t = s;
                t[k]          = b;
                test(t);
                t.insert(k, 1, b);
                test(t);
            }
    }
    c.nontrivial();
}, opts(2));

// escapes
MC_SECTION("escapes", [](mc::Ctx& c) {
    int how = c.choose(5, "how");
    if (how == 0)
        for (int i = 0; i < 256; i++)
            if (i >= 32) against(c, std::string("\"a\\") + char(i) + "b\"");
    if (how == 1) {
        static const char* a[] = {"0", "4", "d", "F", "8", "g", " ", "\\", "u", "-"};
        int n                  = c.choose(c.tier() ? 7 : 5, "digits");
        std::string s;
        for (int i = 0; i < n; i++) s += c.pick(a, "digit");
        against(c, "\"\\u" + s + "\"");
        against(c, "\"\\u" + s + " 1\"");
        against(c, "\"\\u" + s + "ab\"");
    }
    char b[32];
    if (how == 2) {
        int hi = c.choose(256, "high byte");
        for (int lo = 0; lo < 256; lo++) {
            snprintf(b, sizeof(b), "\"\\u%02x%02X\"", hi, lo);
            against(c, b);
        }
    }
    if (how == 3) {
        const int us[] = {0xd7ff, 0xd800, 0xd801, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0x0041, 0xffff};
        for (int u : us)
            for (int v : us) {
                snprintf(b, sizeof(b), "\"\\u%04x\\u%04x\"", u, v);
                against(c, b);
                snprintf(b, sizeof(b), "\"\\u%04x%04x\"", u, v);
                against(c, b);
                snprintf(b, sizeof(b), "\"\\u%04x \\u%04x\"", u, v);
                against(c, b);
                snprintf(b, sizeof(b), "\"\\u%04x\\n\"", u);
                against(c, b);
            }
    }
    if (how == 4) {
        // control characters between quotes and elsewhere
        for (int i = 0; i < 256; i++) {
            char ch = char(i);
            if (i != '\r') against(c, std::string("\"a") + ch + "b\"", true);
            against(c, std::string("[1,2]") + (isspace(ch) && ch != ' ' && ch != '\n' && ch != '\r' && ch != '\t' ? ' ' : ch));
            against(c, std::string("1") + (isspace(ch) && ch != ' ' && ch != '\n' && ch != '\r' && ch != '\t' ? ' ' : ch) + "x");
            against(c, std::string("[1") + (isspace(ch) && ch != ' ' && ch != '\n' && ch != '\r' && ch != '\t' ? ' ' : ch) + ",2]");
        }
    }
    c.step();
}, opts(2));

// a text which is cut is refused
MC_SECTION("cuts", [](mc::Ctx& c) {
    int budget = 4;
    J j        = generate(c, budget, 2, true);
    if (j.t != J::LIST && j.t != J::MAP && j.t != J::STR) c.reject();
    std::ostringstream o;
    {
        JSON w(o, formatting(c.choose(2, "format") * 3));
        write(w, j);
    }
    std::string s = o.str();
    J back;
    for (size_t n = 0; n < s.size(); n++) {
        MC_CHECK(c, !json(c, s.substr(0, n), back), "[", s.substr(0, n), "], cut from [", s, "], is read as ", back.str());
        c.step();
    }
}, opts(3));

// block YAML: nested maps and lists by indentation
namespace {
void block(const J& j, int indent, std::string& out, int style) {
    std::string pad(indent, ' ');
    auto scalar = [&](const J& x) -> std::string {
        switch (x.t) {
            case J::NUL: return style & 1 ? "~" : "null";
            case J::BOOL: return x.b ? (style & 1 ? "yes" : "true") : "no";
            case J::INT: return std::to_string(x.i);
            case J::REAL: return "1.5";
            case J::STR: return style & 2 ? "\"" + x.s + "\"" : x.s;
            case J::LIST: return "[]";
            default: return "{}";
        }
    };
    if (j.t == J::LIST)
        for (auto& x : j.l) {
            if (x.m.size() || x.l.size()) {
                out += pad + "-\n";
                block(x, indent + 2, out, style);
            }
            else out += pad + "- " + scalar(x) + "\n";
        }
    else
        for (auto& x : j.m) {
            std::string k = style & 2 ? "\"" + x.first + "\"" : x.first;
            if (x.second.m.size() || x.second.l.size()) {
                out += pad + k + ":" + (style & 4 ? "  # comment\n" : "\n");
                block(x.second, indent + 2, out, style);
            }
            else out += pad + k + ": " + scalar(x.second) + "\n";
        }
}
J blockTree(mc::Ctx& c, int& budget, int depth) {
    budget--;
    static const char* words[] = {"a b", "x"};
    static const char* keys[]  = {"k", "a key", "y", "z"};
    switch (c.choose(depth > 0 ? 8 : 6, "kind")) {
        case 0: return J();
        case 1: return J::boolean(true);
        case 2: return J::integer(-7);
        case 3: return J::real(1.5);
        case 4: return J::string(words[0]);
        case 5: return J::string(words[1]);
        case 6: {
            J r = J::list();
            while (budget > 0 && c.flag("another")) r.l.push_back(blockTree(c, budget, depth - 1));
            return r;
        }
        default: {
            J r = J::map();
            while (budget > 0 && r.m.size() < 4 && c.flag("another")) {
                std::string k = keys[r.m.size()];
                r.m.emplace_back(k, blockTree(c, budget, depth - 1));
            }
            return r;
        }
    }
}
}  // namespace
MC_SECTION("yaml blocks", [](mc::Ctx& c) {
    int budget = c.tier() ? 6 : 5;
    J j        = blockTree(c, budget, 3);
    if (j.l.empty() && j.m.empty()) c.reject();
    for (int style = 0; style < 8; style++) {
        std::string s;
        block(j, 0, s, style);
        c.evals();
        J back = tree(YAMLParser::decodeString(s));
        MC_CHECK(c, back == j, "[", s, "] is read as ", back.str(), " instead of ", j.str());
        back = tree(YAMLParser::decodeString("---\n" + s));
        MC_CHECK(c, back == j, "[---\n", s, "] is read as ", back.str(), " instead of ", j.str());
    }
    c.nontrivial();
}, opts(3));

// tables
MC_SECTION("csv", [](mc::Ctx& c) {
    int rows = c.choose(4, "rows"), cols = 1 + c.choose(3, "columns");
    if (rows * cols > (c.tier() ? 6 : 4)) c.reject();
    static const char* cells[] = {"", "a", " b c ", "1.5", "\"q\"", "x;y"};
    std::vector<std::vector<std::string>> t;
    for (int r = 0; r < rows; r++) {
        t.emplace_back();
        for (int k = 0; k < cols; k++) t.back().push_back(c.pick(cells, "cell"));
    }
    bool header = rows && c.flag("header"), crlf = c.flag("crlf");
    int end     = c.choose(3, "ends of line at the end");
    std::string s;
    for (int r = 0; r < rows; r++) {
        for (int k = 0; k < cols; k++) s += (k ? "," : "") + t[r][k];
        if (end || r + 1 < rows) s += crlf ? "\r\n" : "\n";
    }
    if (end == 2) s += crlf ? "\r\n" : "\n";
    // a line with nothing in it is not a row
    for (auto& r : t)
        if (cols == 1 && r[0].empty()) c.reject();
    if (header) {
        std::set<std::string> names(t[0].begin(), t[0].end());
        if ((int)names.size() != cols) c.reject();
    }
    MC_LOG(c, "text [", s, "]");
    Value v = CSVParser::decodeString(s, header);
    c.evals();
    MC_CHECK(c, v.isList() || rows == 0, "not a list");
    ValueList l = v;
    MC_CHECK(c, (int)l.size() == rows - header, l.size(), " rows instead of ", rows - header, " of [", s, "]");
    for (int r = header; r < rows; r++)
        for (int k = 0; k < cols; k++) {
            std::string got = header ? std::string(l[r - 1][Value(t[0][k])]) : std::string(l[r][k]);
            MC_CHECK(c, got == t[r][k], "row ", r, " column ", k, " is [", got, "] instead of [", t[r][k], "]");
            if (!header) MC_CHECK(c, (int)l[r].size() == cols, l[r].size(), " columns instead of ", cols, " of [", s, "]");
        }
    c.step(rows);
    c.nontrivial();
}, opts(4));
