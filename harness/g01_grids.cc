// G01: grids have the points they describe
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
#include <sstream>
#include "eckit/geo/Exceptions.h"
#include "eckit/geo/Grid.h"
#include "eckit/geo/Iterator.h"
#include "eckit/geo/PointLonLat.h"
#include "eckit/geo/area/BoundingBox.h"
#include "eckit/geo/grid/reduced/HEALPix.h"
#include "eckit/geo/order/HEALPix.h"
#include "eckit/geo/range/Regular.h"
#include "eckit/geo/range/GaussianLatitude.h"
#include "eckit/geo/util.h"
#include "common.h"

using namespace eckit;
using namespace eckit::geo;

namespace {
using LL = std::pair<double, double>;  // longitude, latitude
bool near(double a, double b) { return std::abs(a - b) < 1e-8; }
double lonOf(double x) {
    x = std::fmod(x, 360.);
    if (x < 0) x += 360;
    return near(x, 360) ? 0 : x;
}
bool nearLL(const LL& a, const LL& b) { return near(a.second, b.second) && near(lonOf(a.first - b.first), 0); }
LL ll(const Point& p) {
    auto& q = std::get<PointLonLat>(p);
    return {q.lon(), q.lat()};
}
std::string show(const std::vector<LL>& v) {
    std::ostringstream o;
    o << v.size() << ":";
    for (size_t i = 0; i < v.size() && i < 40; i++) o << " " << v[i].first << "," << v[i].second;
    return o.str();
}
std::string num(double x) {
    std::ostringstream o;
    o.precision(17);
    o << x;
    return o.str();
}
std::unique_ptr<const Grid> make(const std::string& spec) { return std::unique_ptr<const Grid>(GridFactory::make_from_string(spec)); }

// the grid has exactly these points, in this order, whichever way they are asked for
void has(mc::Ctx& c, const Grid& g, const std::vector<LL>& points, const std::string& what) {
    MC_CHECK(c, g.size() == points.size(), what, ": size ", g.size(), ", not of ", show(points));
    MC_CHECK(c, g.empty() == points.empty(), what, ": empty");
    std::vector<LL> v;
    for (auto i = g.begin(), e = g.end(); i != e; ++i) {
        MC_CHECK(c, v.size() < points.size() && i.index() == v.size() && bool(i), what, ": iteration goes on after ", show(v));
        v.push_back(ll(*i));
    }
    MC_CHECK(c, v.size() == points.size(), what, ": iteration gives ", show(v), ", not ", show(points));
    for (size_t i = 0; i < v.size(); i++) MC_CHECK(c, nearLL(v[i], points[i]), what, ": point ", i, " is ", v[i].first, ",", v[i].second, ", not ", points[i].first, ",", points[i].second, " of ", show(points));
    auto p = g.to_points();
    auto l = g.to_latlons();
    MC_CHECK(c, p.size() == v.size() && l.first.size() == v.size() && l.second.size() == v.size(), what, ": lists of points");
    for (size_t i = 0; i < v.size(); i++) {
        MC_CHECK(c, nearLL(ll(p[i]), v[i]), what, ": point ", i, " of the list of points");
        MC_CHECK(c, nearLL(LL(l.second[i], l.first[i]), v[i]), what, ": point ", i, " of the lists of latitudes and longitudes");
    }
    if (!v.empty()) {
        MC_CHECK(c, nearLL(ll(g.first_point()), v.front()), what, ": first point ", show({ll(g.first_point())}), " of ", show(v));
        MC_CHECK(c, nearLL(ll(g.last_point()), v.back()), what, ": last point ", show({ll(g.last_point())}), " of ", show(v));
    }
}

// the latitudes of the points
void latitudes(mc::Ctx& c, const Grid& g, const std::vector<LL>& points, const std::string& what) {
    std::set<double> a, b;
    for (auto& p : points) a.insert(std::round(p.second * 1e7) + 0.);
    auto d = g.distinct_latitudes();
    for (auto y : d) b.insert(std::round(y * 1e7) + 0.);
    MC_CHECK(c, a == b && b.size() == d.size(), what, ": distinct latitudes");
}

// what describes the grid makes the same grid
void again(mc::Ctx& c, const Grid& g, const std::vector<LL>& points, const std::string& what) {
    std::string s = g.spec_str();
    auto h        = make(s);
    MC_CHECK(c, h->spec_str() == s, what, ": grid of ", s, " is described by ", h->spec_str());
    MC_CHECK(c, h->uid() == g.uid() && Grid::is_uid(g.uid()), what, ": identifiers of the same grid");
    MC_CHECK(c, *h == g && !(*h != g), what, ": same grids are equal");
    MC_CHECK(c, h->type() == g.type(), what, ": types of the same grid");
    has(c, *h, points, what + " again from " + s);
}

// all points are in the box of the grid
void boxed(mc::Ctx& c, const Grid& g, const std::vector<LL>& points, const std::string& what) {
    auto& b = g.boundingBox();
    for (auto& p : points) MC_CHECK(c, b.contains(PointLonLat{p.first, p.second}), what, ": ", p.first, ",", p.second, " is not in the box ", b.spec_str());
}

struct Box {
    double n, w, s, e;
    std::string str() const { return "[" + num(n) + ", " + num(w) + ", " + num(s) + ", " + num(e) + "]"; }
    bool global() const { return e - w >= 360; }
};

// values of an arithmetic sequence through ref within [a, b]
std::vector<double> sequence(double inc, double ref, double a, double b) {
    std::vector<double> v;
    for (long k = long(std::floor((a - ref) / inc)) - 2; ref + double(k) * inc <= b + 1e-9; k++)
        if (ref + double(k) * inc >= a - 1e-9) v.push_back(ref + double(k) * inc);
    return v;
}
}  // namespace

// regular grids of latitudes and longitudes
MC_SECTION("regular-ll", [](mc::Ctx& c) {
    static const std::vector<double> dlons{30, 45, 100, 90, 22.5}, dlats{30, 45, 20, 40, 7.5};
    static const std::vector<Box> boxes{{90, 0, -90, 360},   {90, -180, -90, 180}, {90, -180, -90, 179}, {60, 0, -60, 360},  {80, 10, -40, 200},  {90, -90, 0, 90},    {0, -90, -90, 91},
                                        {45, 170, -45, 250}, {61, -40, -31, 40},   {90, 0, -90, 330},    {90, 0, -90, 329},  {75, 5, -75, 365},   {30, -100, -30, -10}, {60, 0, 30, 350},
                                        {90, 100, 89, 300},  {45, 0, -45, 90}};
    double dlon = c.pick(dlons), dlat = c.pick(dlats);
    int area = c.choose(int(boxes.size()) + 1);
    Box b    = area ? boxes[area - 1] : Box{90, 0, -90, 360};
    static const std::vector<LL> refs{{0, 0}, {0, 0}, {10, 5}, {-15, 0}, {0, 15}, {370, -10}};
    int ref  = c.choose(int(refs.size()));  // the first: not given
    int order = c.choose(c.tier() ? 5 : 4);
    std::string spec = "{grid: [" + num(dlon) + ", " + num(dlat) + "]";
    if (area) spec += ", area: " + b.str();
    if (ref) spec += ", reference: [" + num(refs[ref].first) + ", " + num(refs[ref].second) + "]";
    static const char* orders[] = {"i+j-", "i+j+", "i-j-", "i-j+", ""};
    bool ipos = true, jpos = false;
    if (order < 4) {
        spec += std::string(", order: ") + orders[order];
        ipos = orders[order][1] == '+';
        jpos = orders[order][3] == '+';
    }
    spec += "}";
    // normalised as boxes are
    double w = b.w, e = b.e;
    if (area) {
        double span = e - w;
        while (w >= 180) w -= 360;
        e = w + span;
    }
    LL r = ref ? refs[ref] : area ? LL{w, b.s} : LL{0, 0};
    auto lons = sequence(dlon, r.first, w, e);
    auto lats = sequence(dlat, r.second, b.s, b.n);
    // the same meridian is there once
    bool wraps = false;
    while (lons.size() > 1 && lons.back() >= lons.front() + 360 - 1e-9) lons.pop_back();
    if (lons.size() > 1 && lons.back() + dlon >= lons.front() + 360 - 1e-9) wraps = true;
    std::unique_ptr<const Grid> g;
    std::string why;
    try { g = make(spec); }
    catch (std::exception& x) { why = x.what(); }
    if (lons.size() < 2 || lats.size() < 2) {
        if (!g) return;  // may be refused
    }
    MC_CHECK(c, g, spec, " of ", lons.size(), "x", lats.size(), " points is refused: ", why);
    if (!jpos) std::reverse(lats.begin(), lats.end());
    std::vector<LL> points;
    auto from = lons;
    if (!ipos) {
        std::reverse(from.begin(), from.end());
        if (wraps && g->size() == lons.size() * lats.size()) {
            // a grid around the globe starts from the eastern end: rotate to where it starts
            LL f = ll(g->first_point());
            for (size_t i = 0; i < from.size(); i++)
                if (near(lonOf(from[i] - f.first), 0)) {
                    std::rotate(from.begin(), from.begin() + i, from.end());
                    break;
                }
        }
    }
    for (auto y : lats)
        for (auto x : from) points.push_back({x, y});
    has(c, *g, points, spec);
    latitudes(c, *g, points, spec);
    boxed(c, *g, points, spec);
    if (lons.size() > 1 && lats.size() > 1) again(c, *g, points, spec);
    c.nontrivial();
}, opts(4));

namespace {
// roots of Legendre polynomials
std::vector<double> gaussian(size_t N) {
    auto legendre = [](size_t n, double x) {
        double a = 1, b = x;
        if (n == 0) return a;
        for (size_t k = 2; k <= n; k++) {
            double t = ((2. * double(k) - 1) * x * b - (double(k) - 1) * a) / double(k);
            a        = b;
            b        = t;
        }
        return b;
    };
    std::vector<double> lats;
    const int steps = 4000;
    for (int i = 0; i < steps; i++) {
        double l = 90. - 180. * i / steps, r = 90. - 180. * (i + 1) / steps;
        auto f   = [&](double lat) { return legendre(2 * N, std::sin(lat * M_PI / 180)); };
        double fl = f(l), fr = f(r);
        if (fl == 0 || (fl < 0) == (fr < 0)) continue;
        for (int k = 0; k < 200; k++) {
            double m = (l + r) / 2;
            if ((f(m) < 0) == (fl < 0)) l = m;
            else r = m;
        }
        lats.push_back((l + r) / 2);
    }
    return lats;
}

// the normalised box
Box normal(Box b) {
    double span = b.e - b.w;
    while (b.w >= 180) b.w -= 360;
    b.e = b.w + span;
    return b;
}
// multiples of 360/n in the box, once each
std::vector<double> around(size_t n, const Box& b) {
    auto v = sequence(360. / double(n), 0, b.w, b.e);
    while (v.size() > 1 && v.back() >= v.front() + 360 - 1e-9) v.pop_back();
    return v;
}
bool sameSet(std::vector<LL> a, std::vector<LL> b) {
    if (a.size() != b.size()) return false;
    for (auto* v : {&a, &b})
        for (auto& p : *v) p = {std::round(lonOf(p.first) * 1e7), std::round(p.second * 1e7)};
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    return a == b;
}
std::vector<LL> all(const Grid& g) {
    std::vector<LL> v;
    for (auto& p : g.to_points()) v.push_back(ll(p));
    return v;
}
const std::vector<Box>& crops() {
    static const std::vector<Box> b{{90, 0, -90, 360},   {90, -180, -90, 180}, {60, 0, -60, 360},   {80, 10, -40, 200}, {90, -90, 0, 90},  {0, -90, -90, 91},   {45, 170, -45, 250},
                                    {61, -40, -31, 40},  {90, 0, -90, 330},    {75, 5, -75, 365},   {70, -130, -70, -10}, {60, 0, 30, 350}, {45, 0, -45, 90},    {10, -30, -80, 60}};
    return b;
}
}  // namespace

// grids on the latitudes of Gauss, all longitudes or fewer towards the poles
MC_SECTION("gaussian", [](mc::Ctx& c) {
    size_t N = 1 + c.choose(c.tier() ? 5 : 3);
    auto L   = gaussian(N);
    MC_CHECK(c, L.size() == 2 * N, "reference");
    int area = c.choose(int(crops().size()) + 1);
    Box b    = normal(area ? crops()[area - 1] : Box{90, 0, -90, 360});
    int kind = c.choose(7);
    std::string spec;
    std::vector<size_t> pl;
    bool ipos = true, jpos = false;
    if (kind < 4) {
        static const char* orders[] = {"i+j-", "i+j+", "i-j-", "i-j+"};
        spec = "{grid: F" + std::to_string(N);
        if (kind) spec += std::string(", order: ") + orders[kind];
        ipos = kind < 2;
        jpos = kind & 1;
        pl.assign(2 * N, 4 * N);
    }
    else if (kind == 4) {
        spec = "{grid: O" + std::to_string(N);
        for (size_t j = 0; j < 2 * N; j++) pl.push_back(16 + 4 * (1 + std::min(j, 2 * N - 1 - j)));
    }
    else {
        for (size_t j = 0; j < 2 * N; j++) {
            size_t d = std::min(j, 2 * N - 1 - j);
            pl.push_back(kind == 5 ? 6 + 2 * d : 20 - 4 * d);
        }
        spec = "{pl: [";
        for (auto p : pl) spec += (spec.back() == '[' ? "" : ", ") + std::to_string(p);
        spec += "]";
    }
    if (area) spec += ", area: " + b.str();
    spec += "}";
    std::vector<LL> points;
    bool thin = false;  // a row with fewer than two
    size_t rows = 0;
    for (size_t j = 0; j < 2 * N; j++) {
        size_t k = jpos ? 2 * N - 1 - j : j;
        if (L[k] > b.n + 1e-9 || L[k] < b.s - 1e-9) continue;
        auto lons = around(pl[k], b);
        if (!ipos) {
            std::reverse(lons.begin(), lons.end());
            if (lons.size() == pl[k] && near(lonOf(b.e - lons.front() - 360. / double(pl[k])), 0)) std::rotate(lons.begin(), lons.end() - 1, lons.end());
        }
        if (lons.size() < 2) thin = true;
        rows++;
        for (auto x : lons) points.push_back({x, L[k]});
    }
    std::unique_ptr<const Grid> g;
    std::string why;
    try { g = make(spec); }
    catch (std::exception& x) { why = x.what(); }
    if ((thin && kind < 4) || rows < 2 || points.empty()) {
        if (!g) return;  // may be refused
    }
    MC_CHECK(c, g, spec, " of ", points.size(), " points is refused: ", why);
    has(c, *g, points, spec);
    boxed(c, *g, points, spec);
    if (!area) again(c, *g, points, spec);
    c.nontrivial();
}, opts(4));

// the points of a cropped grid are those of the grid in the area
MC_SECTION("crops", [](mc::Ctx& c) {
    static const std::vector<std::string> grids{"{grid: [30, 30]", "{grid: [30, 20], reference: [10, 5]", "{grid: [45, 15], area: [60, -100, -60, 130], reference: [0, 0]", "{grid: [20, 30], order: i-j+", "{grid: F2", "{grid: F3, order: i+j+", "{grid: O2", "{pl: [8, 12, 12, 8]"};
    static const std::vector<std::string> more{"{grid: [30, 30], order: i+j+", "{grid: [30, 30], order: i-j-", "{grid: [22.5, 45], area: [90, 10, -35, 190], reference: [10, 10]", "{grid: F1, order: i-j-", "{grid: O3"};
    int which = c.choose(int(grids.size() + (c.tier() ? more.size() : 0)));
    std::string spec = (which < int(grids.size()) ? grids[which] : more[which - grids.size()]) + "}";
    auto g = make(spec);
    Box b  = c.pick(crops());
    area::BoundingBox box(b.n, b.w, b.s, b.e);
    auto from = all(*g);
    // what is in both is one box
    auto& own   = g->boundingBox();
    int pieces  = 0;
    bool inside = false, first = false;
    for (int i = 0; i < 720; i++) {
        double x = i * 0.5;
        bool in  = lonOf(x - b.w) <= b.e - b.w + 1e-9 && lonOf(x - own.west()) <= own.east() - own.west() + 1e-9;
        if (i == 0) first = in;
        if (in && !inside) pieces++;
        inside = in;
    }
    if (inside && first && pieces > 1) pieces--;
    if (pieces > 1) c.reject();
    std::vector<LL> expect;
    std::map<double, size_t> lons, lats, perRow;
    for (auto& p : from) {
        double x = lonOf(p.first - b.w);
        if (p.second <= b.n + 1e-9 && p.second >= b.s - 1e-9 && x <= b.e - b.w + 1e-9) {
            expect.push_back(p);
            lons[std::round(lonOf(p.first) * 1e7)]++;
            lats[std::round(p.second * 1e7)]++;
        }
    }
    std::unique_ptr<const Grid> q;
    std::string why;
    try { q.reset(g->make_grid_cropped(box)); }
    catch (std::exception& x) { why = x.what(); }
    if (expect.empty() || lons.size() < 2 || lats.size() < 2) {
        if (!q) return;
    }
    MC_CHECK(c, q, spec, " cropped to ", b.str(), " of ", expect.size(), " points is refused: ", why);
    auto to = all(*q);
    MC_CHECK(c, sameSet(to, expect), spec, " cropped to ", b.str(), " has ", show(to), ", not ", show(expect));
    // rows stay in order
    for (size_t i = 1; i < to.size(); i++)
        MC_CHECK(c, near(to[i].second, to[i - 1].second) || (to[i].second < to[i - 1].second) == (from.back().second < from.front().second), spec, " cropped to ", b.str(), ": order of rows in ", show(to));
    for (size_t i = 1; i < to.size(); i++)
        MC_CHECK(c, !near(to[i].second, to[i - 1].second) || (to[i].first > to[i - 1].first) == (from[1].first > from[0].first), spec, " cropped to ", b.str(), ": order in rows of ", show(to));
    boxed(c, *q, to, spec + " cropped to " + b.str());
    has(c, *q, to, spec + " cropped");
    c.nontrivial();
}, opts(3));

namespace {
// centre of a pixel of the nested scheme (Gorski et al., 2005)
LL healpix(int Nside, int n) {
    int f = n / (Nside * Nside), p = n % (Nside * Nside), x = 0, y = 0;
    for (int b = 0; (1 << b) < Nside; b++) {
        x |= ((p >> (2 * b)) & 1) << b;
        y |= ((p >> (2 * b + 1)) & 1) << b;
    }
    // corner of the base pixel is at (frow, fcol) in units of 45 degrees; z from the distance to the poles
    static const int jrll[] = {2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4}, jpll[] = {1, 3, 5, 7, 0, 2, 4, 6, 1, 3, 5, 7};
    int jr = jrll[f] * Nside - x - y - 1, nr;
    double z;
    bool shifted = false;
    if (jr < Nside) nr = jr, z = 1 - double(nr) * nr / (3. * Nside * Nside);
    else if (jr > 3 * Nside) nr = 4 * Nside - jr, z = double(nr) * nr / (3. * Nside * Nside) - 1;
    else nr = Nside, z = (2. * Nside - jr) * 2 / (3. * Nside), shifted = (jr - Nside) & 1;
    double jp = (jpll[f] * nr + x - y) / 2.;  // from the first meridian in units of 90/nr
    (void)shifted;
    return {lonOf(jp * 90. / nr), std::asin(z) * 180 / M_PI};
}
}  // namespace

// grids of equal areas, in rings or nested
MC_SECTION("healpix", [](mc::Ctx& c) {
    int Nside   = 1 + c.choose(c.tier() ? 16 : 8);
    int kind    = c.choose(5);
    bool power  = (Nside & (Nside - 1)) == 0;
    bool nested = kind == 1 || kind == 3;
    std::string name = std::to_string(Nside);
    std::string spec = kind == 0 ? "{grid: H" + name + "}" : kind == 1 ? "{grid: H" + name + ", order: nested}" : kind == 2 ? "{grid: h" + name + ", order: ring}" : kind == 3 ? "{grid: hn" + name + "}" : "{grid: hr" + name + "}";
    auto g = make(spec);
    size_t size = 12 * Nside * Nside;
    auto early = make(spec);
    MC_CHECK(c, g->size() == size, spec, ": size");
    if (nested && !power) {
        bool refused = false;
        try { g->to_points(); }
        catch (std::exception&) { refused = true; }
        MC_CHECK(c, refused, spec, ": nested order of other than a power of two");
        return;
    }
    std::vector<LL> points;
    if (power) {
        for (size_t i = 0; i < size; i++) points.push_back(healpix(Nside, int(i)));
    }
    auto rings = points;
    if (!power) {  // by ring
        for (int r = 1; r < 4 * Nside; r++) {
            int nr = r < Nside ? r : r > 3 * Nside ? 4 * Nside - r : Nside;
            double z = r < Nside ? 1 - double(r) * r / (3. * Nside * Nside) : r > 3 * Nside ? double(nr) * nr / (3. * Nside * Nside) - 1 : 4. / 3 - 2. * r / (3. * Nside);
            double start = r < Nside || r > 3 * Nside || (r - Nside) % 2 == 0 ? 0.5 : 0;
            for (int i = 0; i < 4 * nr; i++) rings.push_back({(start + i) * 90. / nr, std::asin(z) * 180 / M_PI});
        }
    }
    else
        std::sort(rings.begin(), rings.end(), [](const LL& a, const LL& b) { return near(a.second, b.second) ? a.first < b.first : a.second > b.second; });
    auto& here = nested ? points : rings;
    latitudes(c, *early, here, spec);
    has(c, *g, here, spec);
    boxed(c, *g, here, spec);
    again(c, *g, here, spec);
    if (power) {
        for (const char* to : {"ring", "nested"}) {
            auto ren = g->reorder(to);
            auto& there = to[0] == 'n' ? points : rings;
            MC_CHECK(c, ren.size() == size, spec, " reordered to ", to, ": size");
            std::set<size_t> once(ren.begin(), ren.end());
            MC_CHECK(c, once.size() == size && *once.rbegin() == size - 1, spec, " reordered to ", to, ": not one to one");
            for (size_t i = 0; i < size; i++) MC_CHECK(c, nearLL(here[i], there[ren[i]]), spec, " reordered to ", to, ": point ", i, " is not at ", ren[i]);
        }
        // the same object, asked again and in another order
        has(c, *g, here, spec + " again");
    }
    c.nontrivial();
}, opts(3));

// rows of evenly spread longitudes, as many as given
MC_SECTION("reduced-ll", [](mc::Ctx& c) {
    static const std::vector<std::vector<int>> pls{{4, 8, 8, 4}, {2, 3}, {12, 12, 12}, {5, 0, 7}, {0, 6, 4}, {10, 4, 0}, {3, 6, 9, 6, 3}, {36, 20}};
    static const std::vector<Box> boxes{{90, 0, -90, 360}, {90, -180, -90, 180}, {60, 10, -60, 200}, {80, -40, 10, 50}, {30, 100, -20, 250}, {89, 0, -89, 90}};
    auto& pl = c.pick(pls);
    int area = c.choose(int(boxes.size()) + 2);
    int max  = *std::max_element(pl.begin(), pl.end());
    Box b    = area == 0 ? boxes[0] : area <= int(boxes.size()) ? boxes[area - 1] : Box{75, 0, -75, 360 - 360. / max};
    std::string spec = "{type: reduced_ll, pl: [";
    for (auto p : pl) spec += (spec.back() == '[' ? "" : ", ") + std::to_string(p);
    spec += "]" + (area ? ", area: " + b.str() : "") + "}";
    bool around = b.e - b.w + 360. / max >= 360 - 1e-9;
    if (!around && b.e - b.w >= 360. * (max - 2) / (max - 1) - 1e-9) c.reject();  // nearly around the globe
    if (around) b.e = b.w + 360;
    std::vector<LL> points;
    for (size_t j = 0; j < pl.size(); j++)
        for (int i = 0; i < pl[j]; i++) points.push_back({b.w + i * (b.e - b.w) / (around ? pl[j] : pl[j] - 1), b.n + double(j) * (b.s - b.n) / double(pl.size() - 1)});
    auto g = make(spec);
    has(c, *g, points, spec);
    boxed(c, *g, points, spec);
    again(c, *g, points, spec);
    c.nontrivial();
}, opts(2));

// points as given
MC_SECTION("unstructured", [](mc::Ctx& c) {
    static const std::vector<LL> some{{0, 0}, {10.5, -20.25}, {359.5, 90}, {-170, -90}, {1. / 3, 2. / 3}, {180, 45}};
    setenv("ECKIT_GEO_CACHE_PATH", c.scratch().c_str(), 1);
    int n = 1 + c.choose(c.tier() ? 5 : 4);
    std::vector<LL> points;
    for (int i = 0; i < n; i++) points.push_back(some[c.choose(int(some.size()))]);
    std::string lat, lon;
    for (auto& p : points) {
        lat += (lat.empty() ? "" : ", ") + num(p.second);
        lon += (lon.empty() ? "" : ", ") + num(p.first);
    }
    std::string spec = "{latitudes: [" + lat + "], longitudes: [" + lon + "]}";
    auto g = make(spec);
    has(c, *g, points, spec);
    boxed(c, *g, points, spec);
    again(c, *g, points, spec);
    // by identifier
    auto h = make("{uid: " + g->uid() + "}");
    has(c, *h, points, spec + " by identifier");
    MC_CHECK(c, *h == *g, spec, ": by identifier is equal");
    // other points: another identifier
    auto other = points;
    other[c.choose(n)].second -= 1e-3;
    std::string lat2;
    for (auto& p : other) lat2 += (lat2.empty() ? "" : ", ") + num(p.second);
    auto o = make("{latitudes: [" + lat2 + "], longitudes: [" + lon + "]}");
    MC_CHECK(c, o->uid() != g->uid() && *o != *g, spec, ": identifiers of different grids");
    has(c, *o, other, spec + " moved");
    c.nontrivial();
}, opts(3));

// moving over a grid forwards and backwards
MC_SECTION("iterators", [](mc::Ctx& c) {
    static const std::vector<std::string> specs{"{grid: [90, 60]}", "{grid: [30, 45], area: [45, 0, 0, 60], order: i-j+}", "{grid: F1, area: [90, 0, -90, 100]}", "{pl: [2, 3, 3, 2]}", "{pl: [0, 3, 0, 2, 4, 0]}", "{grid: H1}", "{grid: H2, order: nested}", "{type: reduced_ll, pl: [2, 0, 3]}"};
    auto& spec = c.pick(specs);
    static std::map<std::string, std::pair<std::unique_ptr<const Grid>, std::vector<LL>>> made;
    auto& m = made[spec];
    if (!m.first) {
        m.first  = make(spec);
        m.second = all(*m.first);
    }
    auto& g      = m.first;
    auto& points = m.second;
    long size    = long(points.size());
    MC_CHECK(c, size > 3 && g->size() == points.size(), spec, ": size");
    auto it = c.flag() ? g->end() : g->begin();
    long at = it == g->end() ? size : 0;
    std::string trace = spec + (at ? " end" : " begin");
    int depth = c.tier() ? 5 : 4;
    for (int k = 0; k < depth; k++) {
        int op = c.choose(10);
        static const long by[] = {1, -1, 2, -3, 5, 0, 0, 0};
        long d = op < 5 ? by[op] : op == 5 ? size - 1 : op == 6 ? -size : op == 7 ? size : 0;
        bool in;
        if (op < 8) {
            if (op == 0) in = ++it;
            else if (op == 1) in = --it;
            else if (d < 0 && op % 2) in = it -= -d;
            else in = it += d;
            long to = at + d;
            at      = to < 0 || to >= size ? size : to;
            trace += " by " + std::to_string(d);
            MC_CHECK(c, in == (at < size), trace, ": says ", in);
        }
        else if (op == 8) {  // a copy goes its own way
            auto copy = it;
            MC_CHECK(c, copy == it && !(copy != it), trace, ": copy");
            ++copy;
            if (at < size) MC_CHECK(c, copy != it, trace, ": copy after ++");
            trace += " copy";
        }
        else {
            auto other = at < size ? g->begin() : g->end();
            if (at < size) other += at;
            MC_CHECK(c, other == it, trace, ": another iterator at ", at);
            it = other;
            trace += " assign";
        }
        MC_CHECK(c, bool(it) == (at < size), trace, ": valid ", bool(it), " at ", at);
        MC_CHECK(c, (it == g->end()) == (at == size) && (it == g->begin()) == (at == 0), trace, ": begin and end at ", at);
        MC_CHECK(c, it.index() == size_t(at), trace, ": index ", it.index(), " not ", at);
        if (at < size) MC_CHECK(c, nearLL(ll(*it), points[at]), trace, ": point ", at);
    }
    c.nontrivial();
}, opts(3));

// boxes are sets of points
MC_SECTION("boxes", [](mc::Ctx& c) {
    static const std::vector<double> lats{-90, -60, 0, 30, 90}, wests{-180, -90, 0, 60, 170, 300}, widths{30, 90, 180, 270, 330, 360};
    std::vector<Box> boxes;
    for (size_t s = 0; s < lats.size(); s++)
        for (size_t n = s + 1; n < lats.size(); n++)
            for (auto w : wests)
                for (auto d : widths) boxes.push_back({lats[n], w, lats[s], w + d});
    int which = c.choose(int(boxes.size()));
    // points of a sphere between and on the lines
    auto in = [](const Box& b, double lon, double lat) { return b.s <= lat && lat <= b.n && lonOf(lon - b.w) <= b.e - b.w; };
    auto a  = boxes[which];
    area::BoundingBox A(a.n, a.w, a.s, a.e);
    for (double lat = -90; lat <= 90; lat += 15)
        for (double lon = -360; lon < 720; lon += 5) {
            bool is = std::abs(lat) == 90 ? a.s <= lat && lat <= a.n : in(a, lon, lat);
            MC_CHECK(c, A.contains(PointLonLat{lon, lat}) == is, "box ", a.str(), ": contains ", lon, ",", lat);
        }
    auto same = [&](const area::BoundingBox& x) {
        MC_CHECK(c, area::bounding_box_equal(A, x), "box ", a.str(), ": equal to ", x.spec_str());
        for (double lat = -90; lat <= 90; lat += 15)
            for (double lon = 0; lon < 360; lon += 5) MC_CHECK(c, A.contains(PointLonLat{lon, lat}) == x.contains(PointLonLat{lon, lat}), "box ", a.str(), " again: ", x.spec_str());
    };
    same(*area::BoundingBox::make_from_area(a.n, a.w, a.s, a.e));
    same(area::BoundingBox(a.n, a.w + 360, a.s, a.e + 360));
    same(area::BoundingBox(a.n, a.w - 720, a.s, a.e - 720));
    MC_CHECK(c, A.periodic() == (a.e - a.w == 360), "box ", a.str(), ": periodic");
    MC_CHECK(c, A.global() == (a.e - a.w == 360 && a.n == 90 && a.s == -90), "box ", a.str(), ": global");
    double part = (a.e - a.w) / 360 * (std::sin(a.n * M_PI / 180) - std::sin(a.s * M_PI / 180)) / 2;
    MC_CHECK(c, std::abs(A.area() / area::BoundingBox(90, 0, -90, 360).area() - part) < 1e-9, "box ", a.str(), ": area");
    for (auto& b : boxes) {
        area::BoundingBox B(b.n, b.w, b.s, b.e);
        bool contains = a.s <= b.s && b.n <= a.n, meets = false;
        int pieces = 0;
        std::vector<bool> both;
        for (double lon = 0; lon < 360; lon += 5) {
            bool x = lonOf(lon - a.w) <= a.e - a.w, y = lonOf(lon - b.w) <= b.e - b.w;
            if (y && !x) contains = false;
            both.push_back(x && y);
            if (x && y) meets = true;
        }
        for (size_t i = 0; i < both.size(); i++)
            if (both[i] && !both[(i + 1) % both.size()]) pieces++;
        MC_CHECK(c, A.contains(B) == contains, "box ", a.str(), " contains ", b.str(), ": ", A.contains(B));
        double n = std::min(a.n, b.n), s = std::max(a.s, b.s);
        auto C = B;
        bool m = A.intersects(C);
        MC_CHECK(c, m == (meets && s <= n), "box ", a.str(), " meets ", b.str(), ": ", m);
        if (m && pieces < 2)
            for (double lat = -90; lat <= 90; lat += 15)
                for (size_t i = 0; i < both.size(); i++) {
                    bool is = (both[i] || std::abs(lat) == 90) && s <= lat && lat <= n;
                    MC_CHECK(c, C.contains(PointLonLat{double(i) * 5, lat}) == is, "box ", a.str(), " and ", b.str(), " meet in ", C.spec_str(), ": ", double(i) * 5, ",", lat);
                }
        c.evals(1);
    }
    c.nontrivial();
}, opts(3));
