// T01: dates and times against a calendar walked day by day
#include <cmath>
#include <ctime>
#include <set>
#include <sstream>
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/types/ClimateDate.h"
#include "eckit/types/Date.h"
#include "eckit/types/DateTime.h"
#include "eckit/types/DayOfYear.h"
#include "eckit/types/Hour.h"
#include "eckit/types/Month.h"
#include "eckit/types/Time.h"
#include "common.h"

using namespace eckit;

namespace {
bool leap(long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
int dim(long y, long m) {
    static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return m == 2 && leap(y) ? 29 : d[m - 1];
}
const long FIRST = 100, LAST = 9999;
// the julian day of 1 January of each year, counted from 2000-01-01 = 2451545
std::vector<long> yearStart() {
    std::vector<long> j(LAST + 2);
    j[2000] = 2451545;
    for (long y = 2000; y <= LAST; y++) j[y + 1] = j[y] + (leap(y) ? 366 : 365);
    for (long y = 1999; y >= 0; y--) j[y] = j[y + 1] - (leap(y) ? 366 : 365);
    return j;
}
const std::vector<long>& starts() {
    static std::vector<long> j = yearStart();
    return j;
}
struct Day {
    long y, m, d, julian;
};
Day dayOf(long julian) {
    Day r;
    r.julian = julian;
    r.y      = 2000 + (julian - 2451545) / 366;
    while (starts()[r.y] > julian) r.y--;
    while (starts()[r.y + 1] <= julian) r.y++;
    long n = julian - starts()[r.y];
    for (r.m = 1; n >= dim(r.y, r.m); r.m++) n -= dim(r.y, r.m);
    r.d = n + 1;
    return r;
}
long julianOf(long y, long m, long d) {
    long j = starts()[y] + d - 1;
    for (long k = 1; k < m; k++) j += dim(y, k);
    return j;
}
std::string str(const char* fmt, long a, long b = 0, long c = 0, long d = 0) {
    char buf[64];
    snprintf(buf, sizeof(buf), fmt, a, b, c, d);
    return buf;
}
template <class F>
bool fails(F f) {
    try { f(); }
    catch (std::exception&) { return true; }
    return false;
}
bool digits(const std::string& s) {
    if (s.empty()) return false;
    for (char ch : s)
        if (ch < '0' || ch > '9') return false;
    return true;
}
}  // namespace

// --------------------------------------------------------------------------------------------------------------------
// every day of every year
MC_SECTION("days", [](mc::Ctx& c) {
    long y   = FIRST + c.choose(LAST - FIRST + 1);
    if (!c.tier() && (y < 1550 || y > 2450) && y % 100 > 4 && y % 100 < 96) c.reject();
    long j   = starts()[y];
    long doy = 1;
    for (long m = 1; m <= 12; m++)
        for (long d = 1; d <= dim(y, m); d++, j++, doy++) {
            long v = y * 10000 + m * 100 + d;
            Date a(y, m, d);
            if (a.julian() != j || a.year() != y || a.month() != m || a.day() != d || a.yyyymmdd() != v || a.dayOfWeek() != (j % 7))
                c.fail(str("Date(%ld,%ld,%ld) does not give its own day", y, m, d));
            if (Date(v).julian() != j) c.fail(str("Date(%ld) is another day", v));
            if (Date(y, doy).julian() != j) c.fail(str("Date(%ld, %ld) is another day", y, doy));
            std::string iso = str("%ld-%02ld-%02ld", y, m, d);
            if (std::string(a) != iso) c.fail("day written as " + std::string(a) + ", not as " + iso);
            if (y >= 1000) {
                if (Date(iso).julian() != j || Date(str("%ld", v)).julian() != j || Date(str("%ld-%03ld", y, doy)).julian() != j) c.fail(iso + " read as another day");
                if (y < 2000 && y >= 1900 && (Date(iso.substr(2)).julian() != j || Date(str("%06ld", v % 1000000)).julian() != j || Date(str("%02ld-%03ld", y % 100, doy)).julian() != j))
                    c.fail(iso + " of two digits read as another day");
            }
            DayOfYear n(a);
            std::ostringstream os;
            os << n;
            if (os.str() != str("%02ld-%02ld", m, d)) c.fail("day of the year of " + iso + " is " + os.str());
            Month mo(a);
            if (mo.year() != y || mo.month() != m || std::string(mo) != str("%ld-%02ld", y, m) || mo != Month(y, m)) c.fail("month of " + iso + " is " + std::string(mo));
        }
    c.evals(doy - 1);
    c.nontrivial();
    c.outcome(leap(y) ? "leap year" : "common year");
    MC_CHECK(c, j == starts()[y + 1], "the days of a year do not reach the next");
}, opts(1));

// any three numbers are a day of the calendar, or an error
MC_SECTION("components", [](mc::Ctx& c) {
    static const std::vector<long> ys = {100, 400, 1582, 1600, 1899, 1900, 1904, 1999, 2000, 2023, 2024, 2100, 9998};
    long y = c.pick(ys), m = c.choose(104) - 2;
    for (long d = -101; d <= 210; d++) {
        bool valid = m >= 1 && m <= 12 && d >= 1 && d <= dim(y, m);
        bool ok    = true;
        try { Date a(y, m, d); MC_CHECK(c, !valid || (a.year() == y && a.month() == m && a.day() == d), str("Date(%ld,%ld,%ld)", y, m, d)); }
        catch (std::exception&) { ok = false; }
        if (ok != valid) c.fail(str(valid ? "Date(%ld,%ld,%ld) refused" : "Date(%ld,%ld,%ld) accepted", y, m, d));
        if (m >= 0 && m < 100 && d >= 0 && d < 100 && ok == fails([&] { Date a(y * 10000 + m * 100 + d); })) c.fail(str("Date of %ld%02ld%02ld accepted is not Date of components accepted", y, m, d));
    }
    for (long n = -3; n <= 370; n++) {
        bool valid = n >= 1 && n <= (leap(y) ? 366 : 365);
        if (valid == fails([&] { Date a(y, n); })) c.fail(str("Date(%ld,%ld) of the day in the year", y, n));
    }
    c.evals(312 + 374);
    c.nontrivial();
}, opts(2));

// reading dates: the accepted forms, and every text one (two) edits away
namespace {
// < 0: must fail; otherwise the julian day
long readDate(const std::string& s) {
    auto day = [](long y, long m, long d, bool zero) -> long {
        if (y < 100) y += 1900;
        if (zero && d == 0) d = 1;  // "monthly means"
        if (m < 1 || m > 12 || d < 1 || d > dim(y, m)) return -1;
        return julianOf(y, m, d);
    };
    static const char* mon[] = {"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"};
    for (int i = 0; i < 12; i++)
        if (s == mon[i]) return julianOf(1900, i + 1, 1);
    std::vector<std::string> p(1);
    for (char ch : s)
        if (ch == '-') p.push_back("");
        else p.back() += ch;
    for (auto& q : p)
        if (!digits(q)) return -1;
    auto n = [&](size_t i) { return atol(p[i].c_str()); };
    if (p.size() == 1 && (s.size() == 6 || s.size() == 8)) return day(n(0) / 10000, n(0) / 100 % 100, n(0) % 100, true);
    if (p.size() == 2 && p[0].size() == 2 && p[1].size() == 2) return day(2004, n(0), n(1), false);
    if (p.size() == 2 && (p[0].size() == 2 || p[0].size() == 4) && p[1].size() == 3) {
        long y = n(0) < 100 ? n(0) + 1900 : n(0);
        return n(1) >= 1 && n(1) <= (leap(y) ? 366 : 365) ? starts()[y] + n(1) - 1 : -1;
    }
    if (p.size() == 3 && (p[0].size() == 2 || p[0].size() == 4) && p[1].size() == 2 && p[2].size() == 2) return day(n(0), n(1), n(2), true);
    return -1;
}
void checkDate(mc::Ctx& c, const std::string& s) {
    long want = readDate(s), got = -1;
    try { got = Date(s).julian(); }
    catch (std::exception&) {}
    if (want != got) {
        if (want < 0) c.fail("'" + s + "' is no date, and is read as " + std::string(Date(s)));
        c.fail("'" + s + "' is " + str("%ld-%02ld-%02ld", dayOf(want).y, dayOf(want).m, dayOf(want).d) + (got < 0 ? ", and is refused" : ", and is read as " + std::string(Date(s))));
    }
    if (want >= 0) c.nontrivial();
}
// all texts at one edit
void edits(const std::string& s, const std::string& alphabet, const std::function<void(const std::string&)>& f) {
    for (size_t i = 0; i <= s.size(); i++) {
        for (char ch : alphabet) {
            f(s.substr(0, i) + ch + s.substr(i));
            if (i < s.size()) f(s.substr(0, i) + ch + s.substr(i + 1));
        }
        if (i < s.size()) f(s.substr(0, i) + s.substr(i + 1));
    }
}
}  // namespace
MC_SECTION("date-text", [](mc::Ctx& c) {
    static const std::vector<std::string> bases = {"20240229", "19991231", "991231", "000101", "000000", "1999-12-31", "2024-02-29", "2023-02-28", "99-01-31", "2000-01-00", "2024-366", "2023-365", "2023-001", "99-100",
                                                   "12-31", "02-29", "feb", "dec", "sep", "", "-", "--", "2100-03-01", "0100-01-01"};
    static const std::string alphabet = "0123456789-+ a.\t";
    std::string s = c.pick(bases);
    std::set<std::string> seen;
    edits(s, alphabet, [&](const std::string& t) { seen.insert(t); });
    seen.insert(s);
    std::vector<std::string> first(seen.begin(), seen.end());
    std::string t = c.pick(first);
    checkDate(c, t);
    uint64_t n = 1;
    edits(t, c.tier() ? alphabet : "0129- a", [&](const std::string& u) { checkDate(c, u), n++; });
    c.evals(n);
}, opts(2));

// every month text one edit away, and the month of a day
MC_SECTION("month-text", [](mc::Ctx& c) {
    static const std::vector<std::string> bases = {"202402", "20240229", "19970900", "970900", "1999-12", "99-12", "2024-02-29", "2024-02-00", "1999", "", "hello"};
    std::string s = c.pick(bases);
    auto check = [&](const std::string& t) {
        std::vector<std::string> p(1);
        for (char ch : t)
            if (ch == '-') p.push_back("");
            else p.back() += ch;
        long want = -1;
        if (p.size() == 2 && digits(p[0]) && digits(p[1]) && (p[0].size() == 2 || p[0].size() == 4) && p[1].size() == 2) want = readDate(t + "-01");
        else if (p.size() == 3 || (p.size() == 1 && (t.size() == 6 || t.size() == 8))) want = readDate(t);
        long y = 0, m = 0;
        bool ok = true, first = true;
        try {
            Month mo(t);
            y = mo.year();
            m = mo.month();
            first = mo == Month(y, m);
        }
        catch (std::exception&) { ok = false; }
        if (want < 0 && ok) c.fail("'" + t + "' is no month, and is read as " + str("%ld-%02ld", y, m));
        if (want >= 0 && (!ok || dayOf(want).y != y || dayOf(want).m != m)) c.fail("'" + t + "' is a month, and is " + (ok ? str("read as %ld-%02ld", y, m) : std::string("refused")));
        if (want >= 0 && !first) c.fail("the month '" + t + "' is not equal to the same month");
        if (want >= 0) c.nontrivial();
    };
    uint64_t n = 1;
    check(s);
    edits(s, "0123456789-+ a", [&](const std::string& u) { check(u), n++; });
    c.evals(n);
}, opts(1));

// moving by days
MC_SECTION("day-arithmetic", [](mc::Ctx& c) {
    static const std::vector<long> from = {julianOf(100, 1, 1), julianOf(1582, 10, 15), julianOf(1899, 12, 31), julianOf(1900, 2, 28), julianOf(2000, 2, 29), julianOf(2023, 12, 31), julianOf(2024, 2, 28), julianOf(9998, 6, 1)};
    long a = c.pick(from);
    int span = c.tier() ? 40000 : 4000;
    Day d0 = dayOf(a);
    Date d(d0.y, d0.m, d0.d);
    for (long n = -span; n <= span; n++) {
        long to = a + n;
        if (to < starts()[FIRST] || to >= starts()[LAST + 1]) continue;
        Day w = dayOf(to);
        long v = w.y * 10000 + w.m * 100 + w.d;
        Date e(w.y, w.m, w.d);
        if ((d + n).yyyymmdd() != v || (n + d).yyyymmdd() != v) c.fail(std::string(d) + str(" + %ld is not %ld", n, v));
        Date f = d;
        f += n;
        Date g = d;
        g -= -n;
        if (f != e || g != e || f.yyyymmdd() != v) c.fail(std::string(d) + str(" += %ld is not %ld", n, v));
        if (e - d != n || d - e != -n) c.fail(std::string(e) + " - " + std::string(d) + str(" is not %ld", n));
        if ((d < e) != (n > 0) || (d > e) != (n < 0) || (d == e) != (n == 0) || (d <= e) != (n >= 0) || (d >= e) != (n <= 0) || (d != e) != (n != 0)) c.fail(std::string(e) + " and " + std::string(d) + " in the wrong order");
        ++f;
        --g;
        if (f.julian() != to + 1 || g.julian() != to - 1) c.fail("the day after or before " + std::string(e));
    }
    c.evals(2 * span + 1);
    c.nontrivial();
}, opts(1));

// --------------------------------------------------------------------------------------------------------------------
// every second of the day
MC_SECTION("seconds", [](mc::Ctx& c) {
    long h = c.choose(24), m = c.choose(60);
    for (long s = 0; s < 60; s++) {
        long n = h * 3600 + m * 60 + s;
        Time t(h, m, s);
        std::string iso = str("%02ld:%02ld:%02ld", h, m, s);
        MC_CHECK(c, t.hours() == h && t.minutes() == m && t.seconds() == s && t.hhmmss() == h * 10000 + m * 100 + s && Second(t) == double(n), iso);
        MC_CHECK(c, std::string(t) == iso, "written as ", std::string(t), " not as ", iso);
        MC_CHECK(c, Time(n) == t && Time(double(n)) == t && Time(int(n)) == t, iso, " from seconds");
        MC_CHECK(c, Time(iso) == t && Time(iso.substr(0, 2) + iso.substr(3, 2) + iso.substr(6)) == t, iso, " read");
        MC_CHECK(c, Time(str("%ldh%ldm%lds", h, m, s)) == t && Time(str("%lds", n)) == t && Time(str("0d%ldm%lds", h * 60 + m, s)) == t, iso, " in units");
        MC_CHECK(c, std::string(Time(str("%ld.%06ld", n / 3600, std::lround((n % 3600) / 3600.0 * 1e6)))) == iso, iso, " as a fraction of hours");
        if (s == 0) MC_CHECK(c, Time(str("%02ld:%02ld", h, m)) == t && Time(str("%02ld%02ld", h, m)) == t, iso, " without seconds");
        if (s == 0 && m == 0) MC_CHECK(c, Time(str("%ld", h)) == t && Time(str("%02ld", h)) == t, iso, " of hours only");
    }
    c.evals(60);
    c.nontrivial();
    // outside: refused unless extended
    for (long s : {-1L, 60L, 61L}) MC_CHECK(c, fails([&] { Time t(h, m, s); }), "Time with seconds ", s);
    MC_CHECK(c, fails([&] { Time t(h, -1 - m, 0); }) && fails([&] { Time t(h, m + 60, 0); }) && fails([&] { Time t(h + 24, m, 0); }) && fails([&] { Time t(-1 - h, m, 0); }), "Time outside of a day");
    for (long d : {1L, 2L, 30L}) {
        long n = d * 86400 + h * 3600 + m * 60;
        MC_CHECK(c, fails([&] { Time t(n); }) && fails([&] { Time t(-n); }), "Time of more than a day");
        Time t(n, true);
        MC_CHECK(c, Second(t) == n && Second(Time(str("%ldd%ldh%ldm", d, h, m), true)) == n && Second(Time(str("-%ldd%ldh%ldm", d, h, m), true)) == -n, "extended time of ", d, "d", h, "h", m, "m");
        MC_CHECK(c, Time(std::string(t), true) == t, "the extended time ", std::string(t), " is not read back");
        MC_CHECK(c, std::string(t) == str("%02ld:%02ld:%02ld", n / 3600, m, 0), "extended time written as ", std::string(t));
        Time u(str("-%lds", n + 7), true);
        MC_CHECK(c, Time(std::string(u), true) == u, "the negative time ", std::string(u), " is not read back");
    }
}, opts(2));

// every short text: a time in one of the accepted forms, or an error
namespace {
struct Parsed {
    bool ok = false, optional = false;  // optional: may be refused too
    long seconds = 0;
};
Parsed readTime(const std::string& s, bool extended) {
    Parsed r;
    size_t i   = 0;
    bool minus = false;
    if (i < s.size() && s[i] == '-') minus = true, i++;
    std::string b = s.substr(i);
    if (b.empty()) {
        r.ok = r.optional = true;  // nothing at all: 0 or an error
        return r;
    }
    long h = 0, m = 0, sec = 0;
    bool split = false;
    if (digits(b)) {
        long v = b.size() > 12 ? 999999999999L : atol(b.c_str());
        if (extended || b.size() <= 2) h = v;
        else if (b.size() <= 4) h = v / 100, m = v % 100, split = true;
        else h = v / 10000, m = v / 100 % 100, sec = v % 100, split = true;
    }
    else if (b.find(':') != std::string::npos) {
        std::vector<std::string> p(1);
        for (char ch : b)
            if (ch == ':') p.push_back("");
            else p.back() += ch;
        if (p.size() > 3) return r;
        for (size_t k = 0; k < p.size(); k++) {
            if (p[k].empty() && k > 0 && k + 1 == p.size()) {  // "12:" leniently
                r.optional = true;
                continue;
            }
            if (!digits(p[k])) return r;
        }
        h = atol(p[0].c_str());
        m = atol(p[1].c_str());
        if (p.size() > 2) sec = atol(p[2].c_str());
        split = true;
    }
    else if (b.find('.') != std::string::npos) {
        size_t dot = b.find('.');
        if ((dot && !digits(b.substr(0, dot))) || !digits(b.substr(dot + 1))) return r;
        sec = std::lround(strtod(b.c_str(), nullptr) * 3600);
    }
    else {
        const std::string units = "dhms";
        static const long mul[] = {86400, 3600, 60, 1};
        size_t next = 0, k = 0;
        while (k < b.size()) {
            size_t e = k;
            while (e < b.size() && isdigit(b[e])) e++;
            if (e == b.size()) return r;
            size_t u = units.find(tolower(b[e]));
            if (u == std::string::npos || u < next) return r;
            if (e == k) r.optional = true;  // a unit of nothing
            sec += atol(b.substr(k, e - k).c_str()) * mul[u];
            next = u + 1;
            k    = e + 1;
        }
    }
    if (split && (m >= 60 || sec >= 60)) return Parsed();
    r.seconds = h * 3600 + m * 60 + sec;
    if (minus) r.seconds = -r.seconds;
    if (!extended && (r.seconds < 0 || r.seconds >= 86400)) return Parsed();
    r.ok = true;
    return r;
}
void checkTime(mc::Ctx& c, const std::string& s) {
    for (bool extended : {false, true}) {
        Parsed want = readTime(s, extended);
        bool ok = true;
        double got = 0;
        try { got = Second(Time(s, extended)); }
        catch (std::exception&) { ok = false; }
        std::string e = extended ? " (extended)" : "";
        if (!want.ok && ok) c.fail("'" + s + "' is no time" + e + ", and is read as " + std::to_string(got) + " s");
        if (want.ok && !ok && !want.optional) c.fail("'" + s + "' is a time" + e + ", and is refused");
        if (want.ok && ok && got != want.seconds) c.fail("'" + s + "'" + e + " is " + std::to_string(want.seconds) + " s, and is read as " + std::to_string(got) + " s");
        if (want.ok && !want.optional) c.nontrivial();
        if (want.ok) c.outcome(extended ? "extended" : "accepted");
    }
}
}  // namespace
MC_SECTION("time-text", [](mc::Ctx& c) {
    static const std::string alphabet = "0162-:.hdms x";
    int n = c.choose(c.tier() ? 8 : 7);
    std::string s;
    for (int i = 0; i < n && i < 3; i++) s += alphabet[c.choose(int(alphabet.size()))];
    int rest = n > 3 ? n - 3 : 0;
    std::function<void(int)> go = [&](int k) {
        if (!k) {
            checkTime(c, s);
            return;
        }
        for (char ch : alphabet) {
            s.push_back(ch);
            go(k - 1);
            s.pop_back();
        }
    };
    go(rest);
    uint64_t e = 1;
    for (int i = 0; i < rest; i++) e *= alphabet.size();
    c.evals(2 * e);
}, opts(3));
MC_SECTION("time-edits", [](mc::Ctx& c) {
    static const std::vector<std::string> bases = {"23:59:59", "-23:59:59", "235959", "2d23h59m59s", "-1d2h3m4s", "12.75", "0h59m59s", "12h30", "23:59", "1:2:3", "99999999999999999999", "9999999999999999999h"};
    static const std::string alphabet = "0596-:.hdmsHDMS +x";
    std::string s = c.pick(bases);
    checkTime(c, s.size() > 18 ? "0" : s);
    if (s.size() > 18) {
        for (bool x : {false, true}) MC_CHECK(c, fails([&] { Time t(s, x); }), "'", s, "' is accepted as a time");
        return;
    }
    std::vector<std::string> first;
    edits(s, alphabet, [&](const std::string& t) { first.push_back(t); });
    std::string t = c.pick(first);
    checkTime(c, t);
    uint64_t n = 1;
    edits(t, c.tier() ? alphabet : "06-:.hs", [&](const std::string& u) { checkTime(c, u), n++; });
    c.evals(2 * n);
}, opts(2));

// --------------------------------------------------------------------------------------------------------------------
MC_SECTION("moments", [](mc::Ctx& c) {
    static const std::vector<long> days = {julianOf(1582, 10, 15), julianOf(1899, 12, 31), julianOf(1969, 12, 31), julianOf(1970, 1, 1), julianOf(2000, 2, 28), julianOf(2023, 12, 31), julianOf(2024, 2, 29), julianOf(2038, 1, 19)};
    static const std::vector<long> secs = {0, 1, 59, 60, 3599, 3600, 43200, 82800, 86340, 86398, 86399};
    static const std::vector<long> by   = {0, 1, 59, 60, 61, 3599, 3600, 3601, 43200, 86399, 86400, 86401, 172799, 172800, 172801, 864000, 31536000, 31622400, 3155760000};
    long j = c.pick(days), s = c.pick(secs);
    Day d = dayOf(j);
    Date day(d.y, d.m, d.d);
    DateTime a(day, Time{s});
    std::string text = str("%ld-%02ld-%02ld", d.y, d.m, d.d) + str(" %02ld:%02ld:%02ld", s / 3600, s / 60 % 60, s % 60);
    MC_CHECK(c, std::string(a) == text, "written as ", std::string(a), " not as ", text);
    MC_CHECK(c, DateTime(text) == a, text, " read as ", std::string(DateTime(text)));
    std::string iso = text;
    iso[text.find(' ')] = 'T';
    MC_CHECK(c, a.iso() == iso + "Z" && a.iso(false) == iso, "iso form of ", text, " is ", a.iso());
    time_t posix = (j - julianOf(1970, 1, 1)) * 86400 + s;
    MC_CHECK(c, DateTime(posix) == a, text, " from the system time is ", std::string(DateTime(posix)));
    MC_CHECK(c, a.format("%Y-%m-%d %H:%M:%S %w") == text + str(" %ld", (j + 1) % 7), text, " formatted as ", a.format("%Y-%m-%d %H:%M:%S %w"));
    auto at = [&](long total) {
        long jj = total / 86400;
        Day e = dayOf(jj);
        return str("%ld-%02ld-%02ld", e.y, e.m, e.d) + str(" %02ld:%02ld:%02ld", total % 86400 / 3600, total % 3600 / 60, total % 60);
    };
    long total = j * 86400 + s;
    for (long n : by)
        for (long sign : {1L, -1L}) {
            std::string want = at(total + sign * n);
            std::string got;
            try {
                DateTime b = a + double(sign * n);
                got = std::string(b);
                MC_CHECK(c, b - a == double(sign * n) && a - b == double(-sign * n), text, " to ", got, " is not ", sign * n);
                MC_CHECK(c, (a < b) == (sign * n > 0) && (b < a) == (sign * n < 0) && (a == b) == (n == 0) && (a <= b) == (sign * n >= 0) && (a != b) == (n != 0) && (a >= b) == (sign * n <= 0) && (a > b) == (sign * n < 0), "order of ", text, " and ", got);
                c.evals(1);
            }
            catch (eckit::Exception& e) {
                got = std::string("refused: ") + e.what();
            }
            MC_CHECK(c, got == want, text, " + ", sign * n, " s is ", got, ", not ", want);
            // parts of seconds
            for (double f : {0.25, 0.5, 0.75}) {
                double x = sign * (n + f);
                try {
                    DateTime b = a + x;
                    MC_CHECK(c, b - a == x, text, " + ", x, " s is ", b - a, " s later");
                    MC_CHECK(c, Second(b.time()) >= 0 && Second(b.time()) < 86400, "time of the day outside of the day");
                }
                catch (eckit::Exception& e) { c.fail(text + " + " + std::to_string(x) + " s refused: " + e.what()); }
            }
        }
    for (long r : {1L, 2L, 7L, 60L, 600L, 3600L, 21600L, 86400L, 604800L}) {
        DateTime b = a.round(double(r));
        MC_CHECK(c, std::string(b) == at(total / r * r), text, " rounded to ", r, " s is ", std::string(b));
    }
    c.nontrivial();
}, opts(2));

// durations of hours
MC_SECTION("hours", [](mc::Ctx& c) {
    static const std::string alphabet = "0159:-. x";
    int n = c.choose(c.tier() ? 8 : 7);
    std::string s;
    for (int i = 0; i < n && i < 3; i++) s += alphabet[c.choose(int(alphabet.size()))];
    uint64_t e = 0;
    std::function<void(int)> go = [&](int k) {
        if (k) {
            for (char ch : alphabet) {
                s.push_back(ch);
                go(k - 1);
                s.pop_back();
            }
            return;
        }
        e++;
        std::vector<std::string> p(1);
        for (char ch : s)
            if (ch == ':') p.push_back("");
            else p.back() += ch;
        bool valid = p.size() <= 3;
        for (size_t i = 0; i < p.size(); i++) valid = valid && digits(p[i]) && (i == 0 || atol(p[i].c_str()) < 60);
        bool ok = true;
        std::string got;
        long total = 0;
        if (valid)
            for (size_t i = 0; i < 3; i++) total = total * 60 + (i < p.size() ? atol(p[i].c_str()) : 0);
        try {
            Hour h(s);
            got = h.asString();
            if (valid) {
                std::string want = total % 60 ? str("%ld:%02ld:%02ld", total / 3600, total / 60 % 60, total % 60) : total % 3600 ? str("%ld:%02ld", total / 3600, total / 60 % 60) : str("%ld", total / 3600);
                if (got != want) c.fail("the duration '" + s + "' is " + got + ", not " + want);
                if (Hour(got) != h || Hour(double(total) / 3600) != h) c.fail("the duration '" + s + "' is not read back");
            }
        }
        catch (std::exception&) { ok = false; }
        if (valid && total > 0 && ok) {
            bool refused = false;
            try { Hour h(-double(total) / 3600); }
            catch (std::exception&) { refused = true; }
            if (!refused) c.fail("a negative duration is accepted");
        }
        if (ok && !valid) c.fail("'" + s + "' is no duration, and is read as " + got);
        if (!ok && valid) c.fail("'" + s + "' is a duration, and is refused");
        if (valid) c.nontrivial();
    };
    go(n > 3 ? n - 3 : 0);
    c.evals(e);
}, opts(3));

// the thirty-day calendar
MC_SECTION("climate", [](mc::Ctx& c) {
    long y = 1999 + c.choose(6), m = c.choose(16) - 1, d = c.choose(34) - 1;
    bool valid = m >= 1 && m <= 12 && d >= 1 && d <= 30;
    try {
        ClimateDate a(y, m, d);
        MC_CHECK(c, valid, "climate date of month ", m, " day ", d, " accepted");
        std::string s = a;
        MC_CHECK(c, s == str("%ld-%03ld", y, (m - 1) * 30 + d), "written as ", s);
        MC_CHECK(c, std::string(ClimateDate(s)) == s, s, " is not read back");
        c.nontrivial();
    }
    catch (eckit::Exception&) { MC_CHECK(c, !valid, "climate date of month ", m, " day ", d, " refused"); }
}, opts(2));
