// D01: the on-disk B+tree is a sorted map, whatever the order of insertion, and after reopening
#include <map>
#include "eckit/container/BTree.h"
#include "eckit/types/FixedString.h"
#include "common.h"

using namespace eckit;

namespace {

template <class K>
struct Conv;
template <>
struct Conv<long long> {
    static long long key(int i) { return i; }
    static int back(long long k) { return int(k); }
};
template <>
struct Conv<FixedString<8>> {
    static FixedString<8> key(int i) {
        char b[16];
        snprintf(b, 9, "k%07d", i);
        return FixedString<8>(std::string(b));
    }
    static int back(const FixedString<8>& k) { return atoi(k.asString().c_str() + 1); }
};

template <class K, class V, int S, class L = BTreeNoLock>
struct Sut {
    using T = BTree<K, V, S, L>;
    std::unique_ptr<T> t;
    std::map<int, int> ref;
    std::string path;
    off_t off;
    mc::Ctx& c;
    Sut(mc::Ctx& c, off_t off) : path("tree"), off(off), c(c) {
        ::unlink(path.c_str());
        if (off) putFile(path, std::string(off, 'x'));
        open(false);
    }
    void open(bool ro) {
        t.reset();
        t.reset(new T(PathName(path), ro, off));
    }
    void set(int k, int v) {
        MC_LOG(c, "set ", k, " = ", v);
        bool r = t->set(Conv<K>::key(k), V(v));
        bool had = ref.count(k);
        ref[k] = v;
        c.step();
        MC_CHECK(c, r == had, "set(", k, ") says ", r ? "replaced" : "new", " but it was ", had ? "there" : "not there");
    }
    void check(int lo, int hi, bool ranges) {
        for (int k = lo; k <= hi; ++k) {
            V v = V(-77);
            bool r = t->get(Conv<K>::key(k), v);
            auto j = ref.find(k);
            MC_CHECK(c, r == (j != ref.end()), "get(", k, ") ", r ? "finds a key that is not there" : "does not find it");
            MC_CHECK(c, r ? int(v) == j->second : int(v) == -77, "get(", k, ") = ", v);
        }
        MC_CHECK(c, t->count() == ref.size(), "count() = ", t->count(), " of ", ref.size());
        c.evals(hi - lo + 2);
        if (!ranges) return;
        for (int a = lo; a <= hi; ++a)
            for (int b = a - 1; b <= hi; ++b) range(a, b);
    }
    void range(int a, int b) {
        std::vector<std::pair<K, V>> out{{Conv<K>::key(1), V(1)}};
        t->range(Conv<K>::key(a), Conv<K>::key(b), out);
        c.evals(1);
        size_t n = 0;
        for (auto i = ref.lower_bound(a); i != ref.end() && i->first <= b; ++i, ++n) {
            MC_CHECK(c, n < out.size(), "range(", a, ",", b, ") ends before ", i->first);
            MC_CHECK(c, Conv<K>::back(out[n].first) == i->first && int(out[n].second) == i->second, "range(", a, ",", b, ") gives ",
                     Conv<K>::back(out[n].first), " where ", i->first, " is expected");
        }
        MC_CHECK(c, n == out.size(), "range(", a, ",", b, ") gives ", out.size() - n, " entries too many");
    }
};

template <class K, class V, int S, class L>
void reopen(Sut<K, V, S, L>& s, int how) {
    switch (how) {
        case 0: return;
        case 1: s.open(false); break;
        case 2: s.open(true); break;
        case 3: s.open(false); s.t->preload(); break;
        case 4: s.t->flush(); s.t->sync(); break;
    }
    MC_LOG(s.c, how == 4 ? "flush" : "reopened", how == 2 ? " read-only" : how == 3 ? " and preloaded" : "");
}

// every order of insertion, by the rank of each new key among those there
template <class K, class V, int S, class L = BTreeNoLock>
void orders(mc::Ctx& c, int n, off_t off) {
    std::vector<int> perm;  // ranks
    for (int i = 0; i < n; ++i) perm.push_back(c.choose(i + 1, "rank"));
    std::vector<int> keys;  // by rank
    std::vector<int> order;
    for (int i = 0; i < n; ++i) keys.insert(keys.begin() + perm[i], i);
    std::vector<int> val(n);
    for (int i = 0; i < n; ++i) val[keys[i]] = 2 * i + 1;  // odd keys; the even ones are absent
    int how = c.choose(2, "reopen");
    Sut<K, V, S, L> s(c, off);
    for (int i = 0; i < n; ++i) s.set(val[i], 100 + i);
    if (how) reopen(s, 1);
    s.check(0, 2 * n, true);
    s.set(val[n / 2], 7);
    s.check(0, 2 * n, false);
    std::ostringstream os;
    if (c.execution() % 64 == 0) s.t->dump(os);
    for (int k : val) c.state(mc::cat(k));
    c.outcome(mc::cat("order ", keys[0], keys[n - 1], " ", s.ref.size()));
}

template <class K, class V, int S, class L = BTreeNoLock>
void deep(mc::Ctx& c, off_t off) {
    int base = c.pick({8, 20, 0, 4, 12, 40}, "base");
    int dir  = c.choose(4, "direction");
    int step = 64;
    Sut<K, V, S, L> s(c, off);
    for (int i = 0; i < base; ++i) {
        int k = dir == 0 ? i : dir == 1 ? base - 1 - i : dir == 2 ? (i % 2 ? base - 1 - i / 2 : i / 2) : (i * 7) % base + 0;
        if (dir == 3 && base % 7 == 0) k = i;
        s.set((k + 1) * step, i);
    }
    int how = c.choose(5, "reopen");
    if (how == 2) {
        reopen(s, 2);
        s.check(0, 0, false);
    }
    reopen(s, how == 2 ? 1 : how);
    int n = base >= 20 ? (c.tier() ? 3 : 2) : (c.tier() ? 4 : 3);
    std::string h;
    for (int i = 0; i < n; ++i) {
        // next to an existing key, on one, or in front / at the end
        std::vector<int> ks;
        for (auto& e : s.ref) ks.push_back(e.first);
        int m = int(ks.size());
        int slots = std::min(m + 1, 12);
        int w = c.choose(slots + 1, "where");
        int k;
        if (w == slots) k = m ? ks[m / 2] : step;  // overwrite
        else {
            int at = m + 1 <= 12 ? w : w * m / 11;
            int lo = at == 0 ? 0 : ks[at - 1], hi = at >= m ? (m ? ks[m - 1] : 0) + 2 * step : ks[at];
            k = (lo + hi) / 2;
            if (k == lo) c.reject();
        }
        s.set(k, 1000 + i);
        h += mc::cat(k, " ");
    }
    reopen(s, how == 1 ? 1 : 0);
    for (auto& e : s.ref) {
        V v;
        MC_CHECK(c, s.t->get(Conv<K>::key(e.first), v) && int(v) == e.second, "get(", e.first, ") is wrong");
        MC_CHECK(c, s.ref.count(e.first + 1) || !s.t->get(Conv<K>::key(e.first + 1), v), "get(", e.first + 1, ") finds something");
    }
    MC_CHECK(c, s.t->count() == s.ref.size(), "count");
    std::vector<int> pts;
    for (auto& e : s.ref) {
        pts.push_back(e.first);
        pts.push_back(e.first + 1);
    }
    pts.push_back(0);
    size_t stepn = pts.size() > 40 ? 3 : 1;
    for (size_t i = 0; i < pts.size(); ++i)
        for (size_t j = i % stepn; j < pts.size(); j += stepn) s.range(pts[i], pts[j]);
    c.state(mc::cat(base, dir, h));
    c.outcome(mc::cat(base, " then ", h));
}

}  // namespace

MC_SECTION("orders", [](mc::Ctx& c) { orders<long long, long long, 40 + 16 * 4>(c, c.tier() ? 9 : 7, 0); }, opts(5));
MC_SECTION("orders-odd-capacity", [](mc::Ctx& c) { orders<long long, long long, 40 + 16 * 5 + 8>(c, c.tier() ? 9 : 7, 100); }, opts(5));
MC_SECTION("uneven-pages", [](mc::Ctx& c) { orders<FixedString<8>, int, 40 + 16 * 4 + 8, BTreeLock>(c, c.tier() ? 8 : 6, 16); }, opts(5));
MC_SECTION("deep", [](mc::Ctx& c) { deep<long long, long long, 40 + 16 * 4>(c, 0); }, opts(4));
MC_SECTION("deep-odd", [](mc::Ctx& c) { deep<FixedString<8>, long long, 40 + 16 * 5>(c, 40); }, opts(4));
