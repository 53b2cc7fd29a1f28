// U02: splitting, substituting, matching and converting text; ordering nodes by hash; indices of a hypercube
#include <algorithm>
#include <climits>
#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include "eckit/filesystem/LocalPathName.h"
#include "eckit/filesystem/PathExpander.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/log/BigNum.h"
#include "eckit/utils/HyperCube.h"
#include "eckit/utils/Regex.h"
#include "eckit/utils/RendezvousHash.h"
#include "eckit/utils/StringTools.h"
#include "eckit/utils/Tokenizer.h"
#include "eckit/utils/Translator.h"
#include "common.h"

#include <cfloat>
#include <cmath>

using namespace eckit;

namespace {
template <class F>
bool fails(F f) {
    try { f(); }
    catch (std::exception&) { return true; }
    return false;
}
// the texts over an alphabet: the first characters chosen, the others enumerated
void texts(mc::Ctx& c, const std::string& alphabet, int max, int chosen, const std::function<void(const std::string&)>& f) {
    int n = c.choose(max + 1);
    std::string s;
    for (int i = 0; i < n && i < chosen; i++) s += alphabet[c.choose(int(alphabet.size()))];
    uint64_t e = 0;
    std::function<void(int)> go = [&](int k) {
        if (!k) {
            e++;
            f(s);
            return;
        }
        for (char ch : alphabet) {
            s.push_back(ch);
            go(k - 1);
            s.pop_back();
        }
    };
    go(n > chosen ? n - chosen : 0);
    c.evals(e);
    c.nontrivial();
}
}  // namespace

MC_SECTION("split", [](mc::Ctx& c) {
    static const std::vector<std::string> seps = {",", " ", ", ", "", ",,", "a "};
    std::string sep = c.pick(seps);
    bool keep = c.flag();
    Tokenizer t(sep, keep);
    texts(c, "ab, ", c.tier() ? 10 : 8, 3, [&](const std::string& s) {
        std::vector<std::string> want;
        for (size_t i = 0;;) {
            size_t k = s.find_first_of(sep, i);
            std::string w = s.substr(i, k == std::string::npos ? k : k - i);
            if (keep || !w.empty()) want.push_back(w);
            if (k == std::string::npos) break;
            i = k + 1;
        }
        std::vector<std::string> got;
        t(s, got);
        if (got != want) c.fail("'" + s + "' split at '" + sep + "' gives " + std::to_string(got.size()) + " parts");
        if (t.tokenize(s) != want) c.fail("tokenize '" + s + "'");
        std::set<std::string> set, wset(want.begin(), want.end());
        t(s, set);
        if (set != wset) c.fail("the set of '" + s + "'");
        std::vector<std::string> more = {"x"};
        t(s, more);
        if (more.size() != want.size() + 1 || more[0] != "x" || !std::equal(want.begin(), want.end(), more.begin() + 1)) c.fail("parts of '" + s + "' are not appended");
        std::istringstream in(s + "\nnext");
        std::vector<std::string> line, next;
        t(in, line);
        t(in, next);
        if (line != want || next.empty()) c.fail("the first line of '" + s + "'");
        if (!keep && StringTools::split(sep, s) != want) c.fail("StringTools::split '" + s + "'");
        if (sep.size() == 1) {
            auto two = Tokenizer::split_at(s, sep[0]);
            size_t k = s.find(sep[0]);
            if (k == std::string::npos ? two != std::vector<std::string>{s} : two != std::vector<std::string>{s.substr(0, k), s.substr(k + 1)}) c.fail("'" + s + "' split at the first '" + sep + "'");
            Tokenizer one(sep[0], keep);
            if (one.tokenize(s) != want) c.fail("split of '" + s + "' at a character");
            if (keep && StringTools::join(sep, want) != s) c.fail("the parts of '" + s + "' do not join to it");
        }
    });
}, opts(3));

MC_SECTION("strings", [](mc::Ctx& c) {
    static const std::vector<std::string> subs = {"", "a", "A ", "\"", " \t", "a\""};
    std::string sub = c.pick(subs);
    texts(c, std::string("aB \t\n\"'\xe9"), c.tier() ? 6 : 5, 2, [&](const std::string& s) {
        std::string up = s, low = s;
        for (auto& ch : up) if (ch >= 'a' && ch <= 'z') ch = char(ch - 32);
        for (auto& ch : low) if (ch >= 'A' && ch <= 'Z') ch = char(ch + 32);
        if (StringTools::upper(s) != up || StringTools::lower(s) != low) c.fail("case of '" + s + "'");
        auto front = [](std::string x, const std::string& cs) { while (!x.empty() && cs.find(x[0]) != std::string::npos) x.erase(0, 1); return x; };
        auto back = [](std::string x, const std::string& cs) { while (!x.empty() && cs.find(x.back()) != std::string::npos) x.pop_back(); return x; };
        if (StringTools::trim(s) != front(back(s, " \t\n"), " \t\n")) c.fail("trim '" + s + "'");
        if (StringTools::trim(s, sub) != front(back(s, sub), sub)) c.fail("trim '" + s + "' of '" + sub + "'");
        if (StringTools::front_trim(s) != front(s, " \t") || StringTools::front_trim(s, sub) != front(s, sub)) c.fail("front_trim '" + s + "'");
        if (StringTools::back_trim(s) != back(s, " \t") || StringTools::back_trim(s, sub) != back(s, sub)) c.fail("back_trim '" + s + "'");
        bool starts = !sub.empty() && s.compare(0, sub.size(), sub) == 0, ends = !sub.empty() && s.size() >= sub.size() && s.substr(s.size() - sub.size()) == sub;
        if (StringTools::startsWith(s, sub) != starts || StringTools::beginsWith(s, sub) != starts || StringTools::endsWith(s, sub) != ends) c.fail("'" + s + "' starts or ends with '" + sub + "'");
        bool quoted = s.size() > 1 && s[0] == s.back() && (s[0] == '"' || s[0] == '\'');
        if (StringTools::isQuoted(s) != quoted || StringTools::unQuote(s) != (quoted ? s.substr(1, s.size() - 2) : s)) c.fail("quotes of '" + s + "'");
    });
}, opts(2));

MC_SECTION("substitute", [](mc::Ctx& c) {
    std::map<std::string, std::string> m;
    if (c.flag()) m["a"] = "X{a}";
    if (c.flag()) m["ab"] = "";
    if (c.flag()) m[""] = "E";
    texts(c, "ab{}", c.tier() ? 9 : 7, 2, [&](const std::string& s) {
        // text { name } text ...
        bool ok = true, known = true;
        std::string want;
        std::vector<std::string> vars;
        for (size_t i = 0; i < s.size() && ok; i++) {
            if (s[i] == '}') ok = false;
            else if (s[i] == '{') {
                size_t e = s.find_first_of("{}", i + 1);
                if (e == std::string::npos || s[e] == '{') { ok = false; break; }
                std::string v = s.substr(i + 1, e - i - 1);
                vars.push_back(v);
                if (m.count(v)) want += m[v];
                else known = false;
                i = e;
            }
            else want += s[i];
        }
        bool did = true;
        std::string got;
        try { got = StringTools::substitute(s, m); }
        catch (UserError&) { did = false; }
        if (did != (ok && known)) c.fail("'" + s + "' is " + (did ? "accepted" : "refused"));
        if (did && got != want) c.fail("'" + s + "' becomes '" + got + "'");
        did = true;
        std::vector<std::string> v;
        try { v = StringTools::listVariables(s); }
        catch (UserError&) { did = false; }
        if (did != ok || (ok && v != vars)) c.fail("variables of '" + s + "'");
    });
}, opts(2));

// variables of the environment in a path
MC_SECTION("expand", [](mc::Ctx& c) {
    static const std::vector<std::string> values = {"", "v", "a/b", "~", "{ENVVAR?A}"}, parts = {"x", "/", "{ENVVAR?A}", "{ENVVAR?B}", "{ENVVAR}", "{ENVVAR?", "{CWD}", "{NONE}"};
    int a = c.choose(int(values.size()) + 1), b = c.choose(int(values.size()) + 1);
    auto set = [&](const char* n, int k) {
        if (k < int(values.size())) setenv(n, values[size_t(k)].c_str(), 1);
        else unsetenv(n);
        return k < int(values.size()) ? values[size_t(k)] : std::string();
    };
    std::string va = set("A", a), vb = set("B", b), s, want;
    int n = c.choose(4);
    bool ok = true;
    for (int i = 0; i < n; i++) {
        int k = c.choose(int(parts.size()));
        s += parts[size_t(k)];
        if (k < 2) want += parts[size_t(k)];
        else if (k == 2) want += va, ok = ok && a < int(values.size());
        else if (k == 3) want += vb, ok = ok && b < int(values.size());
        else if (k == 6) want += LocalPathName::cwd().path();
        else ok = false;
    }
    std::string got;
    bool did = true;
    try { got = PathExpander::expand(s); }
    catch (eckit::Exception& e) { did = false; }
    if (ok) MC_CHECK(c, did && got == want, "'", s, "' becomes '", got, "'");
    else c.outcome(did ? "accepted" : "refused");
    if (n) c.nontrivial();
}, opts(3));

// --------------------------------------------------------------------------------------------------------------------
namespace {
// the patterns of the shell: ? any character, * any characters, [..] one of the characters or ranges
bool shell(const char* p, const char* s) {
    if (!*p) return !*s;
    if (*p == '*') {
        for (;; s++) {
            if (shell(p + 1, s)) return true;
            if (!*s) return false;
        }
    }
    if (!*s) return false;
    if (*p == '?') return shell(p + 1, s + 1);
    if (*p == '[') {
        const char* e = strchr(p + 1, ']');
        bool in = false;
        for (const char* q = p + 1; q < e; q++) {
            if (q + 2 < e && q[1] == '-') {
                in = in || (*s >= q[0] && *s <= q[2]);
                q += 2;
            }
            else in = in || *s == *q;
        }
        return in && shell(e + 1, s + 1);
    }
    return *p == *s && shell(p + 1, s + 1);
}
std::vector<std::string> allTexts(const std::string& alphabet, int max) {
    std::vector<std::string> r = {""};
    size_t from = 0;
    for (int k = 0; k < max; k++) {
        size_t to = r.size();
        for (size_t i = from; i < to; i++)
            for (char ch : alphabet) r.push_back(r[i] + ch);
        from = to;
    }
    return r;
}
}  // namespace
MC_SECTION("patterns", [](mc::Ctx& c) {
    static const std::vector<std::string> items = {"a", "b", "?", "*", ".", "[ab]", "[a-c]", "[.]", "+", "(", "|", "^", "$", "{", "\\", ")"};
    int n = c.choose(c.tier() ? 6 : 5);
    std::string p;
    for (int i = 0; i < n; i++) p += c.pick(items);
    Regex re(p, true), copy(re), assigned;
    assigned = re;
    static const auto plain = allTexts("abc.", 4), special = allTexts("a+(|^${\\)", 3);
    uint64_t e = 0;
    for (auto* t : {&plain, &special})
        for (auto& s : *t) {
            e++;
            bool want = shell(p.c_str(), s.c_str());
            if (re.match(s) != want) c.fail("the pattern '" + p + "' does " + (want ? "not match" : "match") + " '" + s + "'");
            if (e % 37 == 0 && (copy.match(s) != want || assigned.match(s) != want)) c.fail("a copy of the pattern '" + p + "' differs");
        }
    c.evals(e);
    c.nontrivial();
}, opts(2));
MC_SECTION("escape", [](mc::Ctx& c) {
    static const auto some = allTexts("a.*[\\", 3);
    texts(c, "a.^$*+-?()[]{}\\|", 3, 1, [&](const std::string& s) {
        Regex re("^" + Regex::escape(s) + "$");
        if (!re.match(s)) c.fail("'" + s + "' escaped does not match itself");
        for (auto& o : some)
            if (o != s && re.match(o)) c.fail("'" + s + "' escaped matches '" + o + "'");
    });
}, opts(2));
// files of a directory that match
MC_SECTION("match", [](mc::Ctx& c) {
    static const std::vector<std::string> names = {"a", "b", "a.b", "ab", "a+b", ".a", "A"}, patterns = {"*", "a*", "a?b", "?", "[ab]", "*.b", "a.b", "a+b", "[A-Z]", "", "zz"};
    PathName dir("match");
    if (dir.exists()) for (auto& x : names) (dir / x).unlink(false);
    dir.mkdir();
    int bits = c.choose(1 << names.size());
    for (size_t i = 0; i < names.size(); i++)
        if (bits >> i & 1) putFile("match/" + names[i], "");
    for (auto& p : patterns) {
        if (p.empty()) continue;
        std::vector<PathName> r;
        PathName::match(dir / p, r);
        std::set<std::string> got, want;
        for (auto& x : r) got.insert(x.asString());
        for (size_t i = 0; i < names.size(); i++)
            if ((bits >> i & 1) && shell(p.c_str(), names[i].c_str())) want.insert("match/" + names[i]);
        for (auto x : {"match", "", "match/.", "match/.."})
            if (p == "*" || p == "?") got.erase(x);  // the directory itself
        MC_CHECK(c, got == want && (got.size() == r.size() || p == "*" || p == "?"), "files like ", p, ": ", got.size(), " not ", want.size());
    }
    c.nontrivial();
}, opts(1));

// --------------------------------------------------------------------------------------------------------------------
namespace {
template <class T>
void number(mc::Ctx& c, const char* name) {
    using I = __int128;
    I lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    std::vector<I> base = {0, 1, 7, 9, 10, 99, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647, (I)2147483648LL, (I)4294967295LL, (I)4294967296LL, 9223372036854775807LL, (I)9223372036854775807LL + 1, (I)18446744073709551615ULL, (I)18446744073709551615ULL + 1, (I)1 << 66};
    static const std::vector<std::pair<std::string, int>> units = {{"", 0}, {"kb", 10}, {"KiB", 10}, {"MB", 20}, {" Gb", 30}, {"TiB", 40}, {"PB", 50}, {"EiB", 60}};
    I v = base[size_t(c.choose(int(base.size())))] + c.choose(3) - 1;
    if (c.flag()) v = -v;
    std::string text;
    for (I k = v < 0 ? -v : v; k || text.empty(); k /= 10) text.insert(text.begin(), char('0' + int(k % 10)));
    if (v < 0) text.insert(text.begin(), '-');
    for (auto& u : units) {
        if (v < 0 && lo == 0 && sizeof(T) > 1) break;  // wraps around
        I want = v * ((I)1 << u.second);
        bool fits = want >= lo && want <= hi;
        T got = 0;
        bool did = true;
        try { got = Translator<std::string, T>()(text + u.first); }
        catch (eckit::Exception&) { did = false; }
        if (fits) MC_CHECK(c, did && got == T(want), "'", text, u.first, "' as ", name, " is ", did ? std::to_string(got) : "refused");
        else MC_CHECK(c, !did, "'", text, u.first, "' does not fit ", name, " and is ", std::to_string(got));
    }
    if constexpr (sizeof(T) > 1)
        if (v >= lo && v <= hi) MC_CHECK(c, (Translator<T, std::string>()(T(v))) == text, text, " as text");
    c.nontrivial();
}
}  // namespace
MC_SECTION("numbers", [](mc::Ctx& c) {
    switch (c.choose(8)) {
        case 0: number<int>(c, "int"); break;
        case 1: number<unsigned int>(c, "unsigned int"); break;
        case 2: number<long>(c, "long"); break;
        case 3: number<unsigned long>(c, "unsigned long"); break;
        case 4: number<long long>(c, "long long"); break;
        case 5: number<unsigned long long>(c, "unsigned long long"); break;
        case 6: number<short>(c, "short"); break;
        case 7: number<unsigned char>(c, "unsigned char"); break;
    }
}, opts(2));
// decimal numbers: what is no number is refused
MC_SECTION("decimals", [](mc::Ctx& c) {
    texts(c, "01.e-+ n", c.tier() ? 7 : 6, 2, [&](const std::string& s) {
        // sign digits . digits e sign digits
        size_t i = 0;
        auto digits = [&] { size_t k = i; while (i < s.size() && isdigit(s[i])) i++; return i - k; };
        if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++;
        size_t n = digits();
        if (i < s.size() && s[i] == '.') i++, n += digits();
        bool ok = n > 0;
        if (ok && i < s.size() && s[i] == 'e') {
            i++;
            if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++;
            ok = digits() > 0;
        }
        ok = ok && i == s.size();
        double d = 0;
        bool did = true;
        try { d = Translator<std::string, double>()(s); }
        catch (BadParameter&) { did = false; }
        // the exact value: beyond the range it is refused, below what can be held at full precision it may be
        long double L = 0;
        if (ok) {
            errno = 0;
            L     = fabsl(strtold(s.c_str(), nullptr));
            if (L == 0 && errno == 0) L = 1;  // zero, as it is stated
            else if (L < 1e-307L) L = 0;
        }
        if (!ok && did) c.fail("'" + s + "' is taken");
        if (ok && did && L > DBL_MAX) c.fail("'" + s + "' is taken, as " + std::to_string(d));
        if (ok && !did && L > 0 && L <= DBL_MAX) c.fail("'" + s + "' is refused");
        if (did) {
            std::istringstream in(s[0] == '+' ? s.substr(1) : s);
            double w = 0;
            in >> w;
            if (w != d && std::isfinite(w) && w < 1e300) c.fail("'" + s + "' is " + std::to_string(d));
        }
        did     = true;
        float f = 0;
        try { f = Translator<std::string, float>()(s); }
        catch (BadParameter&) { did = false; }
        if (did && !ok) c.fail("'" + s + "' is taken as float");
        if (ok && did && L > FLT_MAX) c.fail("'" + s + "' is taken as float, as " + std::to_string(f));
        if (ok && !did && L > 1e-37L && L <= FLT_MAX) c.fail("'" + s + "' is refused as float");
        if (did && L > 1e-37L && L < 1e38L && std::fabs(f - d) > std::fabs(d) * 1e-7) c.fail("'" + s + "' is " + std::to_string(f) + " as float");
    });
}, opts(2));
MC_SECTION("lists", [](mc::Ctx& c) {
    static const std::vector<std::string> words = {"a", "b", "ab", "12", "-7"};
    std::vector<std::string> v;
    std::vector<long> l;
    int n = c.choose(5);
    for (int i = 0; i < n; i++) {
        v.push_back(c.pick(words));
        l.push_back(c.pick(std::vector<long>{0, -1, 7, LONG_MAX, LONG_MIN}));
    }
    MC_CHECK(c, (Translator<std::string, std::vector<std::string>>()(Translator<std::vector<std::string>, std::string>()(v))) == v, "a list of texts");
    MC_CHECK(c, (Translator<std::string, std::vector<long>>()(Translator<std::vector<long>, std::string>()(l))) == l, "a list of numbers");
    std::set<std::string> s(v.begin(), v.end());
    MC_CHECK(c, (Translator<std::string, std::set<std::string>>()(Translator<std::set<std::string>, std::string>()(s))) == s, "a set of texts");
    for (auto b : {"yes", "on", "true", "1", "YES", "True"}) MC_CHECK(c, (Translator<std::string, bool>()(b)), b);
    for (auto b : {"no", "off", "false", "0", "NO", "False"}) MC_CHECK(c, !(Translator<std::string, bool>()(b)), b);
    for (long x : l) {
        if (x == LONG_MIN) continue;
        std::ostringstream o;
        o << BigNum(x);
        std::string t = o.str(), w = std::to_string(x);
        for (int k = int(w.size()) - 3; k > (x < 0 ? 1 : 0); k -= 3) w.insert(size_t(k), ",");
        MC_CHECK(c, t == w, x, " with commas is ", t);
    }
    c.nontrivial();
}, opts(2));

// --------------------------------------------------------------------------------------------------------------------
// order of nodes for a key: the same for the same nodes in any order; the loss of a node moves no other
MC_SECTION("rendezvous", [](mc::Ctx& c) {
    static const std::vector<std::string> all = {"n0", "n1", "n2", "n3", "n4"};
    std::vector<std::string> perm;
    std::vector<std::string> rest = all;
    int n = 1 + c.choose(5);
    for (int i = 0; i < n; i++) {
        int k = c.choose(int(rest.size()));
        perm.push_back(rest[size_t(k)]);
        rest.erase(rest.begin() + k);
    }
    RendezvousHash h;
    for (auto& x : perm) MC_CHECK(c, h.addNode(x), "a node is added");
    for (auto& x : perm) MC_CHECK(c, !h.addNode(x), "a node is added twice");
    std::set<std::string> firsts;
    for (int k = 0; k < 12; k++) {
        std::map<std::string, std::string> key = {{"class", std::to_string(k % 4)}, {"date", std::to_string(k / 4)}};
        std::vector<std::string> order, expect = perm;
        h.hashOrder(key, order);
        auto hash = [&](const std::string& node) { return RendezvousHash::md5("/class:" + key["class"] + "/date:" + key["date"] + "+" + node); };
        std::sort(expect.begin(), expect.end(), [&](auto& a, auto& b) { return hash(a) < hash(b); });
        MC_CHECK(c, order == expect, "order of nodes");
        std::vector<size_t> idx;
        h.hashOrder(key, idx);
        for (size_t i = 0; i < idx.size(); i++) MC_CHECK(c, perm[idx[i]] == order[i], "index of a node");
        firsts.insert(order[0]);
        for (auto& gone : perm) {
            RendezvousHash g(perm);
            MC_CHECK(c, g.removeNode(gone) && !g.removeNode(gone), "a node is removed");
            if (perm.size() == 1) continue;
            std::vector<std::string> o;
            g.hashOrder(key, o);
            std::vector<std::string> w = order;
            w.erase(std::find(w.begin(), w.end(), gone));
            MC_CHECK(c, o == w, "the loss of a node moves another");
        }
    }
    c.nontrivial();
    c.evals(12);
}, opts(2));

// index and coordinates in a hypercube; growth of a dimension
MC_SECTION("hypercube", [](mc::Ctx& c) {
    int nd = 1 + c.choose(4);
    HyperCube::Dimensions d;
    size_t total = 1;
    for (int i = 0; i < nd; i++) d.push_back(Ordinal(1 + c.choose(c.tier() ? 5 : 4))), total *= d.back();
    HyperCube h(d);
    MC_CHECK(c, h.count() == total, "number of cells");
    std::vector<bool> seen(total);
    HyperCube::Coordinates k(d.size()), back(d.size());
    for (size_t i = 0; i < total; i++) {
        size_t r = i;
        for (int j = nd - 1; j >= 0; j--) k[size_t(j)] = Ordinal(r % d[size_t(j)]), r /= d[size_t(j)];
        MC_CHECK(c, h.index(k) == i, "index of coordinates");
        h.coordinates(Ordinal(i), back);
        MC_CHECK(c, back == k, "coordinates of an index");
    }
    MC_CHECK(c, fails([&] { h.coordinates(Ordinal(total), back); }), "coordinates outside");
    for (int which = 0; which < nd; which++) {
        auto over = d;
        HyperCube::Coordinates o(d.size());
        o[size_t(which)] = d[size_t(which)];
        MC_CHECK(c, fails([&] { h.index(o); }), "index of coordinates outside");
        for (Ordinal where = 0; where <= d[size_t(which)]; where++)
            for (Ordinal count = 0; count < 3; count++) {
                HyperCube::Remapping remap;
                HyperCube big = h.addToDimension(Ordinal(which), where, count, remap);
                auto nd2 = d;
                nd2[size_t(which)] += count;
                HyperCube want(nd2);
                MC_CHECK(c, big.count() == want.count() && remap.size() == total, "size of the larger cube");
                for (size_t i = 0; i < total; i++) {
                    h.coordinates(Ordinal(i), k);
                    if (k[size_t(which)] >= where) k[size_t(which)] += count;
                    MC_CHECK(c, Ordinal(remap[i]) == want.index(k), "a cell moves to another place");
                }
            }
    }
    c.nontrivial();
}, opts(2));
