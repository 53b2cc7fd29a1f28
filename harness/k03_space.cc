// K03: what a spatial index answers is what comparing with every point answers.
#include <dirent.h>

#include <algorithm>
#include <cmath>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "common.h"

#include "eckit/container/KDTree.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/geo/Grid.h"
#include "eckit/geo/PointXYZ.h"
#include "eckit/geo/Search.h"
#include "eckit/geo/projection/LonLatToXYZ.h"
#include "eckit/geometry/KPoint.h"
#include "eckit/geometry/Point2.h"
#include "eckit/geometry/Point3.h"
#include "eckit/spec/Custom.h"

using namespace eckit;

namespace {

template <typename P>
struct Traits {
    using Point   = P;
    using Payload = size_t;
};

template <typename P>
struct Item {
    P point;
    size_t payload;
};

template <typename P>
std::string show(const std::vector<Item<P>>& items) {
    std::string s = "{";
    for (auto& i : items) {
        s += "(";
        for (size_t d = 0; d < P::DIMS; ++d) {
            s += (d ? "," : "") + std::to_string(i.point.x(d)).substr(0, 4);
        }
        s += ")";
    }
    return s + "}";
}

template <typename P>
double dist(const P& a, const P& b) {
    double s = 0;
    for (size_t d = 0; d < P::DIMS; ++d) {
        s += (a.x(d) - b.x(d)) * (a.x(d) - b.x(d));
    }
    return std::sqrt(s);
}

template <typename P>
bool same(const P& a, const P& b) {
    for (size_t d = 0; d < P::DIMS; ++d) {
        if (a.x(d) != b.x(d)) {
            return false;
        }
    }
    return true;
}

// one answer of a search: every entry an item of the tree (once), nearest first
template <typename P, typename LIST>
void entries(mc::Ctx& c, const std::vector<Item<P>>& items, const P& q, const LIST& got, const std::string& what) {
    std::set<size_t> ids;
    double last = -1;
    for (auto& e : got) {
        size_t id = e.payload();
        MC_CHECK(c, id < items.size() && same(items[id].point, e.point()), what, ": an entry which was never put in");
        MC_CHECK(c, ids.insert(id).second, what, ": an item is found twice");
        double d = dist(q, e.point());
        MC_CHECK(c, d == e.distance(), what, ": the distance is ", e.distance(), " and not ", d);
        MC_CHECK(c, d >= last, what, ": the nearest items are not first");
        last = d;
    }
}

template <typename P, typename TREE>
void ask(mc::Ctx& c, TREE& tree, const std::vector<Item<P>>& items, const std::vector<P>& queries,
         const std::vector<double>& radii) {
    const size_t n = items.size();
    for (auto& q : queries) {
        std::vector<double> all;
        for (auto& i : items) {
            all.push_back(dist(q, i.point));
        }
        std::sort(all.begin(), all.end());

        auto one = tree.nearestNeighbour(q);
        c.step();
        MC_CHECK(c, one.payload() < n && same(items[one.payload()].point, one.point()),
                 "nearest: an entry which was never put in");
        MC_CHECK(c, one.distance() == all[0] && dist(q, one.point()) == all[0], "nearest of ", show(items),
                 " is at distance ", one.distance(), " and not ", all[0]);
        // the answer can be followed back
        MC_CHECK(c, tree.nodeByID(one.id()).payload() == one.payload(), "nodeByID gives another item");

        for (size_t k = 1; k <= n + 1; ++k) {
            auto got = tree.kNearestNeighbours(q, k);
            c.step();
            const std::string what = "the " + std::to_string(k) + " nearest of " + show(items);
            MC_CHECK(c, got.size() == std::min(k, n), what, " are ", got.size(), " items");
            entries(c, items, q, got, what);
            for (size_t j = 0; j < got.size(); ++j) {
                MC_CHECK(c, got[j].distance() == all[j], what, ": item ", j, " is at distance ", got[j].distance(),
                         " and not ", all[j]);
            }
        }

        for (double r : radii) {
            auto got = tree.findInSphere(q, r);
            c.step();
            const std::string what = "the items of " + show(items) + " within " + std::to_string(r);
            size_t want            = size_t(std::upper_bound(all.begin(), all.end(), r) - all.begin());
            MC_CHECK(c, got.size() == want, what, " are ", got.size(), " and not ", want);
            entries(c, items, q, got, what);
        }
    }
}

// an iteration gives every item once
template <typename P, typename TREE>
void walk(mc::Ctx& c, TREE& tree, const std::vector<Item<P>>& items) {
    std::set<size_t> ids;
    size_t steps = 0;
    for (auto it = tree.begin(), end = tree.end(); it != end; ++it) {
        MC_CHECK(c, ++steps <= items.size(), "iterating over ", items.size(), " items does not end");
        size_t id = it->payload();
        MC_CHECK(c, id < items.size() && same(items[id].point, it->point()), "iterating: an item never put in");
        MC_CHECK(c, ids.insert(id).second, "iterating: an item is given twice");
        MC_CHECK(c, tree.nodeByID(it.nodeID()).payload() == id, "nodeByID gives another item");
    }
    MC_CHECK(c, steps == items.size(), "iterating over ", items.size(), " items gives ", steps);
}

using P2 = geometry::Point2;
using P3 = geometry::Point3;

std::vector<P2> queries2(bool few = false) {
    std::vector<P2> q;
    for (double x : {-0.6, 0., 0.5, 0.9, 1., 1.5, 2.}) {
        for (double y : {-3., 0., 0.4, 1., 1.5, 2.1}) {
            if (!few || (int(x * 10) + int(y * 10)) % 2 == 0) {
                q.emplace_back(x, y);
            }
        }
    }
    return q;
}

const std::vector<double> RADII{0., 0.4, 0.5, 1., std::sqrt(2.), 1.5, 2.9, 10.};

std::vector<Item<P2>> points2(mc::Ctx& c, size_t n) {
    std::vector<Item<P2>> items;
    for (size_t i = 0; i < n; ++i) {
        int k = int(c.choose(9));
        items.push_back({P2(double(k / 3), double(k % 3)), i});
    }
    return items;
}

template <typename TREE, typename P>
std::vector<typename TREE::Value> values(const std::vector<Item<P>>& items, size_t from, size_t to) {
    std::vector<typename TREE::Value> v;
    for (size_t i = from; i < to; ++i) {
        v.emplace_back(items[i].point, items[i].payload);
    }
    return v;
}

}  // namespace

// the tree in memory: all sequences of points on a 3x3 grid, of which a part is built and the rest inserted
MC_SECTION("memory", [](mc::Ctx& c) {
    size_t n   = 1 + c.choose(c.tier() ? 5 : 4);
    auto items = points2(c, n);
    size_t b   = c.choose(n + 1);  // how many are built at once
    using Tree = KDTreeMemory<Traits<P2>>;
    Tree tree;
    MC_CHECK(c, tree.empty() && tree.size() == 0 && !(tree.begin() != tree.end()), "a new tree has items");
    if (b) {
        auto v = values<Tree>(items, 0, b);
        if (b % 2) {
            tree.build(v.begin(), v.end());
        }
        else {
            tree.build(v);
        }
    }
    for (size_t i = b; i < n; ++i) {
        tree.insert(typename Tree::Value(items[i].point, items[i].payload));
    }
    MC_CHECK(c, tree.size() == n && !tree.empty(), "a tree of ", n, " items has ", tree.size());
    static const auto Q = queries2(true);
    ask(c, tree, items, Q, RADII);
    walk(c, tree, items);
    c.nontrivial();
}, opts(3));

// more points, all of them inserted or all built
MC_SECTION("deeper", [](mc::Ctx& c) {
    static const int K[] = {0, 2, 4, 5, 7};  // of the 3x3 grid
    size_t n             = 5 + (c.tier() ? c.choose(2) : 0);
    std::vector<Item<P2>> items;
    for (size_t i = 0; i < n; ++i) {
        int k = K[c.choose(5)];
        items.push_back({P2(double(k / 3), double(k % 3)), i});
    }
    using Tree = KDTreeMemory<Traits<P2>>;
    Tree tree;
    if (c.flag()) {
        auto v = values<Tree>(items, 0, n);
        tree.build(v);
    }
    else {
        for (auto& i : items) {
            tree.insert(typename Tree::Value(i.point, i.payload));
        }
    }
    static const auto Q = queries2(true);
    ask(c, tree, items, Q, RADII);
    c.nontrivial();
}, opts(3));

// three dimensions
MC_SECTION("space", [](mc::Ctx& c) {
    size_t n = 1 + c.choose(c.tier() ? 5 : 4);
    std::vector<Item<P3>> items;
    for (size_t i = 0; i < n; ++i) {
        int k = int(c.choose(8));
        items.push_back({P3(double(k & 1), double((k >> 1) & 1) * 2, double(k >> 2)), i});
    }
    bool build = c.flag();
    using Tree = KDTreeMemory<Traits<P3>>;
    Tree tree;
    if (build) {
        auto v = values<Tree>(items, 0, n);
        tree.build(v);
    }
    else {
        for (auto& i : items) {
            tree.insert(typename Tree::Value(i.point, i.payload));
        }
    }
    std::vector<P3> Q;
    for (double x : {-0.5, 0.3, 1.}) {
        for (double y : {0., 1., 1.4}) {
            for (double z : {0., 0.5, 7.}) {
                Q.emplace_back(x, y, z);
            }
        }
    }
    ask(c, tree, items, Q, {0., 0.5, 1., 1.3, std::sqrt(5.), 8.});
    walk(c, tree, items);
    c.nontrivial();
}, opts(3));

// a tree in which items are put, searched and listed in turns
MC_SECTION("turns", [](mc::Ctx& c) {
    using Tree = KDTreeMemory<Traits<P2>>;
    Tree tree;
    std::vector<Item<P2>> items;
    static const auto Q = queries2(true);
    size_t n            = c.tier() ? 5 : 4;
    size_t b            = c.choose(3);
    if (b) {
        items  = points2(c, b);
        auto v = values<Tree>(items, 0, b);
        tree.build(v);
    }
    while (items.size() < n) {
        int k = int(c.choose(9));
        items.push_back({P2(double(k / 3), double(k % 3)), items.size()});
        tree.insert(Tree::Value(items.back().point, items.back().payload));
        MC_CHECK(c, tree.size() == items.size(), "a tree of ", items.size(), " items has ", tree.size());
        switch (c.choose(3)) {
            case 0:
                break;
            case 1:
                walk(c, tree, items);
                break;
            case 2:
                ask(c, tree, items, {P2(0.4, 1.), P2(1.6, 1.6)}, {1.});
                break;
        }
    }
    walk(c, tree, items);
    walk(c, tree, items);
    c.nontrivial();
}, opts(3));

// the tree in a file, which is opened again later
namespace {
struct Meta {
    P2 offset, scale;
};
}  // namespace

MC_SECTION("file", [](mc::Ctx& c) {
    using Tree = KDTreeMapped<Traits<P2>>;
    size_t n   = 1 + c.choose(c.tier() ? 4 : 3);
    auto items = points2(c, n);
    bool build = c.flag();
    bool meta  = c.flag();
    bool walkf = c.flag();
    const std::string path = c.scratch() + "/tree";
    const size_t metaSize  = meta ? sizeof(typename Tree::Metadata) : 0;
    static const auto Q    = queries2(true);
    const P2 offset(0.25, -7.), scale(2., 3.5);
    {
        Tree tree(path, n, metaSize);
        MC_CHECK(c, tree.empty(), "a new tree in a file has items");
        if (meta) {
            tree.setMetadata(offset, scale);
        }
        if (build) {
            auto v = values<Tree>(items, 0, n);
            tree.build(v);
        }
        else {
            for (auto& i : items) {
                tree.insert(typename Tree::Value(i.point, i.payload));
            }
        }
        MC_CHECK(c, tree.size() == n, "a tree of ", n, " items has ", tree.size());
        if (walkf) {
            walk(c, tree, items);
        }
        ask(c, tree, items, {P2(0.4, 1.), P2(1.6, 1.6)}, {1.});
    }
    for (int again = 0; again < 2; ++again) {
        Tree tree(path, 0, 0);
        MC_CHECK(c, tree.size() == n && !tree.empty(), "a tree of ", n, " items has ", tree.size(), " when read again");
        if (meta) {
            P2 o, s;
            tree.getMetadata(o, s);
            MC_CHECK(c, o == offset && s == scale, "the metadata of a tree is not what was set");
        }
        ask(c, tree, items, Q, RADII);
        walk(c, tree, items);
        bool threw = false;
        try {
            tree.insert(typename Tree::Value(items[0].point, 0));
        }
        catch (std::exception&) {
            threw = true;
        }
        MC_CHECK(c, threw, "a tree which was opened for reading takes an item");
    }
    c.nontrivial();
}, opts(3));

// the points of a grid on the sphere
namespace {
// no tree is in the cache
void forget(const std::string& dir) {
    if (DIR* d = ::opendir(dir.c_str())) {
        while (auto* e = ::readdir(d)) {
            if (e->d_name[0] != '.') {
                ::unlink((dir + "/" + e->d_name).c_str());
            }
        }
        ::closedir(d);
    }
}
}  // namespace

MC_SECTION("grid", [](mc::Ctx& c) {
    static const char* GRIDS[] = {"90/90", "60/90", "45/45", "30/60"};
    static const char* LOADERS[] = {"memory", "mapped-anonymous-memory", "mapped-cache-file"};
    auto g     = GRIDS[c.choose(c.tier() ? 4 : 3)];
    auto l     = LOADERS[c.choose(3)];
    int again  = int(c.choose(2));
    const std::string cache = c.scratch() + "/geo";
    ::mkdir(cache.c_str(), 0777);
    setenv("ECKIT_GEO_CACHE_PATH", cache.c_str(), 1);
    forget(cache + "/eckit/geo/search/2");
    std::unique_ptr<const geo::Grid> grid(geo::GridFactory::build(spec::Custom{{{"grid", std::string(g)}}}));
    using Point = geo::Search::PointType;
    std::vector<Item<Point>> items;
    geo::projection::LonLatToXYZ to_xyz;
    for (const auto& p : *grid) {
        items.push_back({Point(to_xyz.fwd(std::get<geo::PointLonLat>(p))), items.size()});
    }
    for (int i = 0; i <= again; ++i) {
        geo::Search search(*grid, spec::Custom{{{"eckit-geo-search-trees", std::string(l)}}});
        std::vector<Point> Q;
        for (double lon : {0., 10., 45., 100., 180., 359.}) {
            for (double lat : {-90., -44., 0., 1., 45., 90.}) {
                Q.emplace_back(to_xyz.fwd(geo::PointLonLat{lon, lat}));
            }
        }
        for (auto& q : Q) {
            std::vector<double> all;
            for (auto& it : items) {
                all.push_back(dist(q, it.point));
            }
            std::sort(all.begin(), all.end());
            auto ok = [&](const geo::Search::PointValueType& v) {
                return v.payload() < items.size() && same(items[v.payload()].point, v.point());
            };
            auto one = search.closestPoint(q);
            MC_CHECK(c, ok(one) && dist(q, one.point()) == all[0], "the closest point of grid ", g, " by ", l,
                     " is at distance ", dist(q, one.point()), " and not ", all[0]);
            std::vector<geo::Search::PointValueType> got{one, one};
            for (size_t k = 1; k <= items.size() + 1; k += (k < 6 ? 1 : 7)) {
                search.closestNPoints(q, k, got);
                c.step();
                MC_CHECK(c, got.size() == std::min(k, items.size()), "the ", k, " closest points of grid ", g, " by ", l,
                         " are ", got.size());
                std::set<size_t> ids;
                for (size_t j = 0; j < got.size(); ++j) {
                    MC_CHECK(c, ok(got[j]) && ids.insert(got[j].payload()).second, "a closest point which is not in the grid");
                    MC_CHECK(c, dist(q, got[j].point()) == all[j], "closest point ", j, " of ", k, " of grid ", g, " by ", l,
                             " is at distance ", dist(q, got[j].point()), " and not ", all[j]);
                }
            }
            for (double r : {0., 1e3, 3e6, 6.371229e6, 7e6, 2e7}) {
                search.closestWithinRadius(q, r, got);
                c.step();
                size_t want = size_t(std::upper_bound(all.begin(), all.end(), r) - all.begin());
                MC_CHECK(c, got.size() == want, "the points of grid ", g, " within ", r, " by ", l, " are ", got.size(),
                         " and not ", want);
                std::set<size_t> ids;
                for (auto& v : got) {
                    MC_CHECK(c, ok(v) && ids.insert(v.payload()).second && dist(q, v.point()) <= r,
                             "a point within a radius which is not in the grid");
                }
            }
        }
    }
    c.nontrivial();
}, opts(2));
