// T02: fractions, versions, identifiers, fixed strings and approximate comparison against exact arithmetic
#include <climits>
#include <cmath>
#include <map>
#include <numeric>
#include <sstream>
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/types/FixedString.h"
#include "eckit/types/FloatCompare.h"
#include "eckit/types/Fraction.h"
#include "eckit/types/SemanticVersion.h"
#include "eckit/types/UUID.h"
#include "common.h"

using namespace eckit;
using ll = long long;
typedef __int128 i128;

namespace {
std::string str(i128 v) {
    if (v == 0) return "0";
    std::string s;
    bool neg = v < 0;
    while (v) s.insert(s.begin(), char('0' + int(neg ? -(v % 10) : v % 10))), v /= 10;
    return (neg ? "-" : "") + s;
}
i128 gcd(i128 a, i128 b) {
    if (a < 0) a = -a;
    if (b < 0) b = -b;
    while (b) std::swap(a %= b, b);
    return a;
}
struct Q {
    i128 n, d;
    Q(i128 a, i128 b) : n(a), d(b) {
        i128 g = gcd(a, b);
        if (g) n /= g, d /= g;
        if (d < 0) n = -n, d = -d;
    }
    bool fits() const { return n <= LLONG_MAX && n >= -i128(LLONG_MAX) && d <= LLONG_MAX; }
    std::string s() const { return d == 1 ? str(n) : str(n) + "/" + str(d); }
    bool same(const Fraction& f) const { return f.numerator() == n && f.denominator() == d; }
};
std::string show(const Fraction& f) {
    std::ostringstream s;
    s << f;
    return s.str();
}
const std::vector<ll>& tops() {
    static const std::vector<ll> v = {0, 1, -1, 2, -2, 3, -5, 6, 7, 12, -35, 90, 360, 46341, -1000003, 3037000498LL, 3037000499LL, -3037000501LL, 1LL << 40, (1LL << 52) - 3, -(1LL << 61), (1LL << 62) + 1, LLONG_MAX - 1, LLONG_MAX, -LLONG_MAX};
    return v;
}
const std::vector<ll>& bottoms() {
    static const std::vector<ll> v = {1, -1, 2, 3, -4, 5, 6, 7, 12, 360, -1000, 46349, 3037000499LL, 3037000502LL, 1LL << 41, (1LL << 61) + 1, (1LL << 62), LLONG_MAX - 2, LLONG_MAX, -LLONG_MAX};
    return v;
}
}  // namespace

// every pair of fractions, small and extreme
MC_SECTION("arithmetic", [](mc::Ctx& c) {
    ll a = c.pick(tops()), b = c.pick(bottoms());
    Q x(a, b);
    Fraction f(a, b);
    MC_CHECK(c, x.same(f), a, "/", b, " is ", show(f), ", not ", x.s());
    MC_CHECK(c, show(f) == x.s(), x.s(), " written as ", show(f));
    MC_CHECK(c, Q(-x.n, x.d).same(-f) && Q(x.n < 0 ? -x.n : x.n, x.d).same(Fraction::abs(f)), "negative or absolute value of ", x.s());
    if (x.n) MC_CHECK(c, Q(x.d, x.n).same(f.inverse()), "inverse of ", x.s());
    MC_CHECK(c, f.integer() == (x.d == 1) && f.integralPart() == ll(x.n / x.d), "integral part of ", x.s());
    MC_CHECK(c, Q(x.n % x.d, x.d).same(f.decimalPart()), "decimal part of ", x.s(), " is ", show(f.decimalPart()));
    if (x.d == 1) MC_CHECK(c, ll(f) == ll(x.n), "integer ", x.s());
    {
        char buf[1024];
        MemoryStream out(buf, sizeof(buf));
        out << f;
        MemoryStream in(buf, sizeof(buf));
        Fraction g;
        in >> g;
        MC_CHECK(c, x.same(g), x.s(), " streamed is ", show(g));
    }
    if (x.d != 1) MC_CHECK(c, x.same(Fraction(x.s())), x.s(), " read as ", show(Fraction(x.s())));
    for (ll p : tops())
        for (ll q : bottoms()) {
            Q y(p, q);
            Fraction g(p, q);
            int order = x.n * y.d < y.n * x.d ? -1 : x.n * y.d > y.n * x.d ? 1 : 0;
            if ((f < g) != (order < 0) || (f > g) != (order > 0) || (f == g) != (order == 0) || (f != g) != (order != 0) || (f <= g) != (order <= 0) || (f >= g) != (order >= 0))
                c.fail(x.s() + " and " + y.s() + " are compared wrongly");
            for (int op = 0; op < 4; op++) {
                if (op == 3 && y.n == 0) continue;
                // sums may need more than 127 bits
                if (op < 2 && (std::log2(std::fabs(double(x.n)) + 1) + std::log2(double(y.d)) > 125 || std::log2(std::fabs(double(y.n)) + 1) + std::log2(double(x.d)) > 125)) continue;
                Q w = op == 0 ? Q(x.n * y.d + y.n * x.d, x.d * y.d) : op == 1 ? Q(x.n * y.d - y.n * x.d, x.d * y.d) : op == 2 ? Q(x.n * y.n, x.d * y.d) : Q(x.n * y.d, x.d * y.n);
                static const char* names[] = {" + ", " - ", " * ", " / "};
                try {
                    Fraction r = op == 0 ? f + g : op == 1 ? f - g : op == 2 ? f * g : f / g;
                    Fraction s = f;
                    if (op == 0) s += g;
                    if (op == 1) s -= g;
                    if (op == 2) s *= g;
                    if (op == 3) s /= g;
                    if (s.numerator() != r.numerator() || s.denominator() != r.denominator()) c.fail("in place " + x.s() + names[op] + y.s());
                    if (w.fits() && !w.same(r)) c.fail(x.s() + names[op] + y.s() + " is " + show(r) + ", not " + w.s());
                    double want = double(w.n) / double(w.d), got = double(r);
                    if (!w.fits() && std::fabs(got - want) > 1e-5 * std::fabs(want) + 1e-9) c.fail(x.s() + names[op] + y.s() + " is " + show(r) + ", not near " + w.s());
                    c.outcome(w.fits() ? "exact" : "approximated");
                }
                catch (std::exception& e) {
                    if (w.fits()) c.fail(x.s() + names[op] + y.s() + " is refused: " + e.what());
                    c.outcome("refused");
                }
            }
        }
    // with real numbers: the nearest one, and its neighbours
    {
        const double m = double(f), inf = std::numeric_limits<double>::infinity();
        for (double d : {m, std::nextafter(m, inf), std::nextafter(m, -inf), 0., m * 2, -m}) {
            if ((f == d) != (m == d) || (f != d) != (m != d) || (f < d) != (m < d) || (f > d) != (m > d) || (f <= d) != (m <= d) || (f >= d) != (m >= d) || (d < f) != (d < m) || (d > f) != (d > m) || (d <= f) != (d <= m) || (d >= f) != (d >= m) || (d == f) != (d == m))
                c.fail(x.s() + " and the real number " + std::to_string(d) + " are compared wrongly");
        }
    }
    // with integers on either side
    if (f.denominator() < 1000000 && x.n < 1000000 && x.n > -1000000)
        for (int n : {0, 1, -3, 1000}) {
            MC_CHECK(c, Q(x.n + n * x.d, x.d).same(f + n) && Q(x.n + n * x.d, x.d).same(n + f) && Q(x.n - n * x.d, x.d).same(f - n) && Q(n * x.d - x.n, x.d).same(n - f) && Q(x.n * n, x.d).same(f * n) && Q(x.n * n, x.d).same(n * f), x.s(), " with ", n);
            if (n) MC_CHECK(c, Q(x.n, x.d * n).same(f / n), x.s(), " / ", n);
            if (x.n) MC_CHECK(c, Q(n * x.d, x.n).same(n / f), n, " / ", x.s());
            MC_CHECK(c, (f == n) == (x.n == n * x.d) && (f < n) == (x.n < n * x.d) && (f >= n) == (x.n >= n * x.d), x.s(), " compared to ", n);
        }
    c.evals(6 * tops().size() * bottoms().size());
    c.nontrivial();
}, opts(2));

// from numbers: exactly the fraction when it is a simple one, and always near
MC_SECTION("from-double", [](mc::Ctx& c) {
    ll q = 1 + c.choose(c.tier() ? 4000 : 720);
    for (ll p = -720; p <= 3600; p++) {
        Q w(p, q);
        Fraction f(double(p) / double(q));
        if (!w.same(f)) c.fail("the number " + w.s() + " is the fraction " + show(f));
    }
    c.evals(4321);
    c.nontrivial();
}, opts(1));
MC_SECTION("from-extreme-double", [](mc::Ctx& c) {
    // mantissas and exponents, decimal and binary
    static const std::vector<double> m = {1, 1.5, 1.1, 4.0 / 3, 1.9999999999999998, 1.0000000000000002, 1.25, M_PI / 2, 1.0666666666666667};
    double a = c.pick(m);
    int base = c.choose(2), e = c.choose(base ? 160 : 60) - (base ? 80 : 30);
    double v = a * (base ? std::pow(2.0, e) : std::pow(10.0, e)) * (c.flag() ? 1 : -1);
    try {
        Fraction f(v);
        MC_CHECK(c, f.denominator() > 0 && gcd(f.numerator(), f.denominator()) == 1, "the fraction of ", v, " is ", show(f), ", not in lowest terms");
        double back = double(f);
        // (below the smallest fraction: zero)
        MC_CHECK(c, std::fabs(back - v) <= std::max(1e-6 * std::fabs(v), 1e-9), "the number ", std::setprecision(17), v, " is the fraction ", show(f), " which is ", back);
        c.nontrivial();
        c.outcome("fraction");
    }
    catch (eckit::Exception&) {
        // refused: only what is out of range
        MC_CHECK(c, std::fabs(v) > 1e9, "the number ", v, " is refused");
        c.outcome("refused");
    }
}, opts(2));

// decimal texts: exactly the number, or refused
MC_SECTION("fraction-text", [](mc::Ctx& c) {
    static const std::string alphabet = "0195.-+e/ x";
    int n = 1 + c.choose(c.tier() ? 6 : 5);
    std::string s;
    for (int i = 0; i < n && i < 3; i++) s += alphabet[c.choose(int(alphabet.size()))];
    uint64_t e = 0;
    std::function<void(int)> go = [&](int k) {
        if (k) {
            for (char ch : alphabet) {
                s.push_back(ch);
                go(k - 1);
                s.pop_back();
            }
            return;
        }
        e++;
        // [-]digits[.digits]
        size_t i = s[0] == '-' || s[0] == '+';
        i128 num = 0, den = 1;
        bool dot = false, any = false, valid = true;
        for (; i < s.size(); i++) {
            if (s[i] == '.' && !dot) dot = true;
            else if (isdigit(s[i])) any = true, num = num * 10 + (s[i] - '0'), den *= dot ? 10 : 1;
            else valid = false;
        }
        valid = valid && any;
        bool space = s.find(' ') != std::string::npos;
        if (s[0] == '-') num = -num;
        try {
            Fraction f = Fraction::fromString(s);
            if (valid && !Q(num, den).same(f)) c.fail("'" + s + "' read as " + show(f));
            if (!valid && any && !space) c.fail("'" + s + "' is no decimal number, and is read as " + show(f));
            if (valid) c.nontrivial();
        }
        catch (std::exception&) {
            if (valid && s[0] != '+') c.fail("'" + s + "' is refused");
        }
        // the constructor also takes p/q
        size_t slash = s.find('/');
        bool exponent = s.find('e') != std::string::npos;
        if (exponent || s.find('x') != std::string::npos) return;
        try {
            Fraction f(s);
            if (slash == std::string::npos) {
                if (valid && !Q(num, den).same(f)) c.fail("'" + s + "' constructed as " + show(f));
                if (!valid) c.fail("'" + s + "' is no number, and is constructed as " + show(f));
            }
            else {
                std::string a = s.substr(0, slash), b = s.substr(slash + 1);
                auto integer = [](std::string t) {
                    while (!t.empty() && t[0] == ' ') t.erase(0, 1);
                    while (!t.empty() && t.back() == ' ') t.pop_back();
                    size_t k = !t.empty() && (t[0] == '-' || t[0] == '+');
                    if (k == t.size()) return false;
                    for (; k < t.size(); k++)
                        if (!isdigit(t[k])) return false;
                    return true;
                };
                if (!integer(a) || !integer(b)) c.fail("'" + s + "' is no fraction, and is constructed as " + show(f));
                if (!Q(atoll(a.c_str()), atoll(b.c_str())).same(f)) c.fail("'" + s + "' constructed as " + show(f));
            }
        }
        catch (std::exception&) {
            if (slash == std::string::npos && valid) c.fail("'" + s + "' refused by the constructor");
        }
    };
    go(n > 3 ? n - 3 : 0);
    c.evals(2 * e);
}, opts(3));

// --------------------------------------------------------------------------------------------------------------------
MC_SECTION("versions", [](mc::Ctx& c) {
    static const std::vector<std::string> parts = {"0", "1", "7", "8", "9", "10", "08", "010", "007", "0x1", "12", "100", "2024", "18446744073709551614", "18446744073709551616", "", "-1", "+1", " 1", "a"};
    auto value = [](const std::string& s) -> std::pair<bool, unsigned long> {
        if (s.empty()) return {false, 0};
        for (char ch : s)
            if (!isdigit(ch)) return {false, 0};
        if (s == "18446744073709551616") return {false, 0};
        unsigned long v = 0;
        for (char ch : s) v = v * 10 + (ch - '0');
        return {true, v};
    };
    std::string a = c.pick(parts), b = c.pick(parts), d = c.pick(parts);
    std::string s = a + "." + b + "." + d;
    auto va = value(a), vb = value(b), vd = value(d);
    bool valid = va.first && vb.first && vd.first;
    try {
        SemanticVersion v(s);
        MC_CHECK(c, valid, "'", s, "' is no version, and is read as ", std::string(v));
        std::ostringstream want;
        want << va.second << "." << vb.second << "." << vd.second;
        MC_CHECK(c, std::string(v) == want.str(), "the version ", s, " is ", std::string(v));
        MC_CHECK(c, v == SemanticVersion(va.second, vb.second, vd.second), "the version ", s, " is not equal to itself");
        for (unsigned long x : {0UL, 8UL, 10UL})
            for (unsigned long y : {0UL, 8UL, 10UL})
                for (unsigned long z : {0UL, 8UL, 10UL}) {
                    SemanticVersion w(x, y, z);
                    auto l = std::make_tuple(va.second, vb.second, vd.second), r = std::make_tuple(x, y, z);
                    MC_CHECK(c, (v < w) == (l < r) && (v > w) == (l > r) && (v == w) == (l == r) && (v != w) == (l != r) && (v <= w) == (l <= r) && (v >= w) == (l >= r), s, " and ", std::string(w), " in the wrong order");
                }
        c.evals(27);
        c.nontrivial();
    }
    catch (eckit::Exception& e) { MC_CHECK(c, !valid, "the version '", s, "' is refused: ", e.what()); }
    for (const std::string& t : {a + "." + b, s + ".1", s + ".", "." + s, a + "." + b + "-" + d})
        try {
            SemanticVersion v(t);
            c.fail("'" + t + "' is no version, and is read as " + std::string(v));
        }
        catch (eckit::Exception&) {}
}, opts(2));

MC_SECTION("identifiers", [](mc::Ctx& c) {
    int at = c.choose(32), ch = c.choose(256);
    std::string s = "4b4053dc93e0b52a6f028cb36649d229";
    s[at] = char(ch);
    bool valid = isxdigit(ch);
    UUID before(std::string("00112233445566778899aabbccddeeff"));
    try {
        UUID u(s);
        std::string lower = s;
        for (auto& k : lower) k = char(tolower(k));
        MC_CHECK(c, valid, "'", s, "' is no identifier, and is read as ", u.asString());
        MC_CHECK(c, u.asString() == lower && UUID(u.asString()) == u, s, " is read as ", u.asString());
        MC_CHECK(c, (u == before) == false && (u != before) && ((u < before) == (lower < before.asString())) && ((u > before) == (lower > before.asString())), "identifiers in the wrong order");
        for (size_t i = 0; i < 16; i++) MC_CHECK(c, u.begin()[i] == (unsigned char)strtol(lower.substr(2 * i, 2).c_str(), nullptr, 16), "byte ", i, " of ", s);
        c.nontrivial();
    }
    catch (eckit::Exception&) { MC_CHECK(c, !valid, s, " is refused"); }
    try {
        before.fromString(s);
        MC_CHECK(c, valid, "'", s, "' is no identifier, and is read as ", before.asString());
    }
    catch (eckit::Exception&) { MC_CHECK(c, !valid && before.asString() == "00112233445566778899aabbccddeeff", s, " refused, or the identifier changed to ", before.asString()); }
    for (size_t n : {0UL, 1UL, 31UL, 33UL, 64UL})
        try {
            UUID u(std::string(n, 'a'));
            c.fail("an identifier of a wrong length is accepted");
        }
        catch (eckit::Exception&) {}
}, opts(2));

// all assignments between strings of up to 4 characters
MC_SECTION("fixed-strings", [](mc::Ctx& c) {
    static const std::string alphabet = std::string("ab\xff");
    auto text = [&](int max) {
        std::string s;
        int n = c.choose(max + 1);
        for (int i = 0; i < n; i++) s += alphabet[c.choose(3)];
        return s;
    };
    std::string a = text(5), b = text(5);
    auto tooLong = [](const std::string& s) { return s.size() > 4; };
    bool done = false;
    if (!tooLong(a) && a.find('\0') == std::string::npos) MC_CHECK(c, FixedString<4>(a.c_str()).asString() == a, "'", a, "' is something else");
    try {
        FixedString<4> x(a);
        MC_CHECK(c, !tooLong(a), "a string too long is accepted");
        done = true;
        MC_CHECK(c, x.asString() == a && std::string(x) == a && x.length() == a.size() && x.size() == 4 && x.empty() == a.empty() && FixedString<4>(a.c_str()) == x, "'", a, "' is kept as '", x.asString(), "'");
        std::ostringstream os;
        os << x;
        MC_CHECK(c, os.str() == a, "'", a, "' written as '", os.str(), "'");
        for (size_t i = a.size(); i < 4; i++) MC_CHECK(c, x.data()[i] == 0, "not ended by nulls");
        FixedString<4> y(x), z;
        MC_CHECK(c, z.empty() && y == x, "copy");
        try {
            y = b;
            MC_CHECK(c, !tooLong(b), "a string too long is assigned");
            MC_CHECK(c, y.asString() == b && y.length() == b.size(), "'", a, "' assigned '", b, "' is '", y.asString(), "'");
            MC_CHECK(c, (x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b), "'", a, "' and '", b, "' in the wrong order");
            MC_CHECK(c, y == FixedString<4>(b), "what was there before assigning shows");
            FixedString<8> w{std::string(y)};
            MC_CHECK(c, w.asString() == b && w.length() == b.size(), "in a longer string");
            z = y;
            z = x;
            MC_CHECK(c, z == x, "assigned");
        }
        catch (eckit::Exception&) { MC_CHECK(c, tooLong(b) && y == x, "assigning '", b, "' is refused"); }
        c.nontrivial();
    }
    catch (eckit::Exception&) { MC_CHECK(c, tooLong(a) || done, "'", a, "' is refused"); }
}, opts(3));

// --------------------------------------------------------------------------------------------------------------------
// approximate comparison: numbers around every landmark, by their place in the order of numbers
namespace {
template <class T, class I>
I place(T x) {  // the number of steps from zero; subnormal numbers are zero
    if (std::fpclassify(x) == FP_SUBNORMAL || x == 0) return 0;
    I i, z;
    T a = std::fabs(x), m = std::numeric_limits<T>::min();
    memcpy(&i, &a, sizeof(i));
    memcpy(&z, &m, sizeof(z));
    i = i - z + 1;
    return x < 0 ? -i : i;
}
template <class T, class I>
void compare(mc::Ctx& c, int steps) {
    const T inf = std::numeric_limits<T>::infinity(), mx = std::numeric_limits<T>::max(), mn = std::numeric_limits<T>::min();
    const T nan = std::numeric_limits<T>::quiet_NaN();
    std::vector<T> v = {inf, nan};
    for (T x : {T(0), mn, T(1), T(2), mx, T(0.1), T(1e10), T(1e-10), std::numeric_limits<T>::denorm_min()}) {
        T up = x, down = x;
        for (int i = 0; i < steps; i++) {
            v.push_back(up);
            v.push_back(down);
            up   = std::nextafter(up, inf);
            down = std::nextafter(down, -inf);
        }
    }
    size_t n = v.size();
    for (size_t i = 0; i < n; i++) v.push_back(-v[i]);
    T a = v[c.choose(int(v.size()))];
    static const std::vector<T> eps = {T(0), std::numeric_limits<T>::epsilon(), T(1e-3), std::numeric_limits<T>::min() * 4};
    for (T b : v)
        for (T e : eps)
            for (int ulps : {0, 1, 2, 3, 10, INT_MAX}) {
                bool want;
                if (a == b) want = true;
                else if (std::isnan(a) || std::isnan(b) || std::isinf(a) || std::isinf(b)) want = false;
                else {
                    T x = std::fpclassify(a) == FP_SUBNORMAL ? T(0) : a, y = std::fpclassify(b) == FP_SUBNORMAL ? T(0) : b;
                    __int128 d = __int128(place<T, I>(x)) - place<T, I>(y);
                    if (d < 0) d = -d;
                    want = std::fabs(x - y) <= e || d <= ulps;
                }
                bool got = types::is_approximately_equal(a, b, e, ulps);
                if (got != want) {
                    std::ostringstream s;
                    s << std::setprecision(20) << a << " and " << b << " within " << e << " or " << ulps << " steps: " << got;
                    c.fail(s.str());
                }
                if (types::is_approximately_greater_or_equal(a, b, e, ulps) != (a >= b || want) || types::is_approximately_lesser_or_equal(a, b, e, ulps) != (a <= b || want) || types::is_strictly_greater(a, b, e, ulps) != (a > b && !want))
                    c.fail("approximate order is not that of approximate equality");
            }
    c.evals(v.size() * 24);
    c.nontrivial();
}
}  // namespace
MC_SECTION("approximate-double", [](mc::Ctx& c) { compare<double, int64_t>(c, c.tier() ? 40 : 13); }, opts(1));
MC_SECTION("approximate-float", [](mc::Ctx& c) { compare<float, int32_t>(c, c.tier() ? 40 : 13); }, opts(1));
