// G02: what grids share is as good for several threads as for one
#include <thread>
#include "eckit/geo/Grid.h"
#include "eckit/geo/PointLonLat.h"
#include "eckit/geo/cache/MemoryCache.h"
#include "eckit/geo/range/Regular.h"
#include "eckit/geo/util.h"
#include "mc/sched.h"
#include "common.h"

using namespace eckit;
using namespace eckit::geo;

namespace {
enum Op { Linspace, Latitudes, Weights, Classical, Octahedral, Rings, Regular, Reduced, Points, ByUid, Footprint, NOP };
const char* names[] = {"linspace", "gaussian latitudes", "gaussian weights", "classical pl", "octahedral pl", "HEALPix", "regular", "reduced", "unstructured", "unstructured by uid", "footprint"};

std::string list(const std::vector<double>& v) {
    std::string s;
    for (auto x : v) s += mc::cat(x, " ");
    return s;
}
std::string list(const std::vector<long>& v) {
    std::string s;
    for (auto x : v) s += mc::cat(x, " ");
    return s;
}
std::string points(const std::string& spec) {
    std::unique_ptr<const Grid> g(GridFactory::make_from_string(spec));
    std::string s = g->uid() + " ";
    for (auto& p : g->to_points()) s += mc::cat(std::get<PointLonLat>(p).lon(), ",", std::get<PointLonLat>(p).lat(), " ");
    return s;
}
const std::string SPEC = "{latitudes: [10, 20, -30], longitudes: [1, 2, 3]}";
std::string UID;

std::string exec(Op o) {
    switch (o) {
        case Linspace: return list(util::linspace(0, 1, 5));
        case Latitudes: return list(util::gaussian_latitudes(2, false));
        case Weights: return list(util::gaussian_quadrature_weights(2));
        case Classical: return list(util::reduced_classical_pl(16));
        case Octahedral: return list(util::reduced_octahedral_pl(2));
        case Rings: return points("{grid: H1}");
        case Regular: return points("{grid: [90, 90]}");
        case Reduced: return points("{grid: O1}");
        case Points: return points(SPEC);
        case ByUid: return points("{uid: " + UID + "}");
        case Footprint: cache::MemoryCache::total_footprint(); return "";
        default: return "";
    }
}
}  // namespace

MC_SECTION("shared", [](mc::Ctx& c) {
    setenv("ECKIT_GEO_CACHE_PATH", c.scratch().c_str(), 1);
    Op a = Op(c.choose(NOP, "first")), b = Op(c.choose(NOP, "second"));
    if (a > b || (!c.tier() && a != b && !(b == Footprint && a < Rings) && !(a == Points && b == ByUid) && !(a == Linspace && b == Regular))) c.reject();
    // by one thread alone (nothing else may be there the first time)
    static std::vector<std::string> alone;
    if (alone.empty()) {
        UID = points(SPEC).substr(0, 32);
        for (int i = 0; i < NOP; i++) alone.push_back(exec(Op(i)));
    }
    cache::MemoryCache::total_purge();
    MC_LOG(c, names[a], " | ", names[b]);
    mcs::Options o;
    o.preemptions = 1;
    mcs::run(c, o, [&]() {
        std::vector<std::thread> th;
        for (Op op : {a, b})
            th.emplace_back([op]() {
                std::string got;
                try {
                    got = exec(op);
                }
                catch (std::exception& e) {
                    mcs::Book k;
                    MCS_CHECK(false, names[op], " fails: ", e.what());
                }
                mcs::Book k;
                MCS_CHECK(got == alone[op], names[op], " gives ", got, ", not ", alone[op]);
            });
        for (auto& t : th) t.join();
    });
    c.nontrivial();
}, opts(2));
