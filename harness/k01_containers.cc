// K01: the in-memory containers behave as the maps, sets and buffers they stand for
#include <algorithm>
#include <list>
#include <map>
#include <set>
#include "eckit/container/BloomFilter.h"
#include "eckit/container/Cache.h"
#include "eckit/container/CacheLRU.h"
#include "eckit/container/DenseMap.h"
#include "eckit/container/DenseSet.h"
#include "eckit/container/Trie.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/BufferCache.h"
#include "eckit/io/BufferList.h"
#include "eckit/io/CircularBuffer.h"
#include "common.h"

using namespace eckit;

namespace {
std::vector<std::pair<int, int>> purged;
void onPurge(int& k, int& v) {
    purged.push_back({k, v});
    v = -999;
}
}  // namespace

MC_SECTION("lru", [](mc::Ctx& c) {
    size_t cap = c.pick({2, 1, 3, 0});
    purged.clear();
    auto cache = std::make_unique<CacheLRU<int, int>>(cap, &onPurge);
    std::list<std::pair<int, int>> m;  // most recent first
    std::vector<std::pair<int, int>> out;
    auto find = [&](int k) { return std::find_if(m.begin(), m.end(), [k](auto& e) { return e.first == k; }); };
    int keys  = 3 + c.tier();
    int depth = 6;
    for (int d = 0; d < depth; d++) {
        std::string canon = mc::cat(cap, ":");
        for (auto& e : m) canon += mc::cat(e.first, ",");
        c.state(canon);
        if (c.seen(canon, depth - d)) break;
        int op = c.choose(4 * keys + 4, "op"), k = op % keys;
        out.clear();
        purged.clear();
        auto i = find(k);
        if (op < keys) {
            MC_LOG(c, "insert ", k);
            bool had = i != m.end();
            if (had) m.erase(i);
            m.push_front({k, 100 * k + d});
            bool r = cache->insert(k, 100 * k + d);
            MC_CHECK(c, r == had, "insert says ", r);
        }
        else if (op < 2 * keys) {
            MC_LOG(c, "access ", k);
            int v = -1;
            bool threw = false;
            try {
                v = cache->access(k);
            }
            catch (OutOfRange&) {
                threw = true;
            }
            MC_CHECK(c, threw == (i == m.end()), threw ? "does not find it" : "finds what is not there");
            if (!threw) {
                MC_CHECK(c, v == i->second, "access gives ", v, " instead of ", i->second);
                m.splice(m.begin(), m, i);
            }
        }
        else if (op < 3 * keys) {
            MC_LOG(c, "extract ", k);
            int v = -1;
            bool threw = false;
            try {
                v = cache->extract(k);
            }
            catch (OutOfRange&) {
                threw = true;
            }
            MC_CHECK(c, threw == (i == m.end()), threw ? "does not find it" : "finds what is not there");
            if (!threw) {
                MC_CHECK(c, v == i->second, "extract gives ", v);
                m.erase(i);
            }
        }
        else if (op < 4 * keys) {
            MC_LOG(c, "remove ", k);
            bool had = i != m.end();
            if (had) {
                out.push_back(*i);
                m.erase(i);
            }
            bool r = cache->remove(k);
            MC_CHECK(c, r == had, "remove says ", r);
        }
        else if (op == 4 * keys) {
            MC_LOG(c, "clear");
            out.assign(m.begin(), m.end());
            m.clear();
            cache->clear();
        }
        else {
            size_t n = op - 4 * keys;
            if (n == cap) c.reject();
            MC_LOG(c, "capacity ", n);
            cache->capacity(cap = n);
        }
        while (m.size() > cap) {
            out.push_back(m.back());
            m.pop_back();
        }
        MC_CHECK(c, purged.size() == out.size(), purged.size(), " entries were purged instead of ", out.size());
        for (auto& e : out) MC_CHECK(c, std::count(purged.begin(), purged.end(), e) == 1, "entry ", e.first, " was not purged once");
        MC_CHECK(c, cache->size() == m.size() && cache->capacity() == cap, "size() is ", cache->size(), " instead of ", m.size());
        for (int q = 0; q < keys; q++) MC_CHECK(c, cache->exists(q) == (find(q) != m.end()), "exists(", q, ") is wrong");
        c.step();
    }
    // what is in it, from the least recently used on: this is also what allows for leaving out the states seen before
    for (size_t n = m.size(); n > 0; n--) {
        purged.clear();
        cache->capacity(n - 1);
        MC_CHECK(c, purged.size() == 1 && purged[0] == m.back(), "the least recently used entry is not the one to leave: ", m.back().first);
        m.pop_back();
    }
    purged.clear();
    cache.reset();
    MC_CHECK(c, purged.size() == m.size(), purged.size(), " entries were purged at the end instead of ", m.size());
}, opts(3));

MC_SECTION("cache", [](mc::Ctx& c) {
    Cache<int, int> cache;
    struct E {
        int v;
        bool expired;
    };
    std::map<int, E> m;
    int depth = c.tier() ? 8 : 6;
    for (int d = 0; d < depth; d++) {
        std::string canon;
        for (auto& e : m) canon += mc::cat(e.first, e.second.expired, ",");
        c.state(canon);
        if (c.seen(canon, depth - d)) break;  // what it has was compared to m below
        int op = c.choose(8, "op"), k = op % 2, v = 10 * d + k;
        auto i = m.find(k);
        if (op < 2) {
            MC_LOG(c, "insert ", k);
            bool e = i == m.end() || i->second.expired;
            if (e) m[k] = {v, false};
            MC_CHECK(c, cache.insert(k, v) == e, "insert says ", !e);
        }
        else if (op < 4) {
            MC_LOG(c, "update ", k);
            bool e = i != m.end();
            m[k]   = {v, false};
            MC_CHECK(c, cache.update(k, v) == e, "update says ", !e);
        }
        else if (op < 6) {
            MC_LOG(c, "expire ", k);
            bool e = i != m.end();
            if (e) i->second.expired = true;
            MC_CHECK(c, cache.expire(k) == e, "expire says ", !e);
        }
        else if (op == 6) {
            MC_LOG(c, "purge");
            cache.purge();
            for (int q = 0; q < 2; q++)
                if (m.count(q) && m[q].expired) m.erase(q);
        }
        else {
            MC_LOG(c, "clear");
            cache.clear();
            m.clear();
        }
        MC_CHECK(c, cache.size() == m.size(), "size() is ", cache.size());
        for (int q = 0; q < 2; q++) {
            bool e = m.count(q) && !m[q].expired;
            int g  = -5;
            MC_CHECK(c, cache.valid(q) == e, "valid(", q, ") says ", !e);
            MC_CHECK(c, cache.fetch(q, g) == e, "fetch(", q, ") says ", !e);
            MC_CHECK(c, g == (e ? m[q].v : -5), "fetch(", q, ") gives ", g);
        }
        c.step();
    }
}, opts(3));

MC_SECTION("dense map", [](mc::Ctx& c) {
    DenseMap<std::string, int> map;
    std::map<std::string, int> m;
    const char* keys[] = {"b", "a", "c", ""};
    int depth = c.tier() ? 7 : 6;
    bool sorted = true;
    for (int d = 0; d < depth; d++) {
        int op = c.choose(10, "op");
        std::string k = keys[op % 4];
        if (op < 4) {
            MC_LOG(c, "insert ", k);
            map.insert(k, d);
            m[k]   = d;
            sorted = false;
        }
        else if (op < 8) {
            if (!sorted) c.reject();
            MC_LOG(c, "replace ", k);
            if (!m.count(k)) sorted = false;
            map.replace(k, d);
            m[k] = d;
        }
        else if (op == 8) {
            if (sorted) c.reject();
            MC_LOG(c, "sort");
            map.sort();
            sorted = true;
        }
        else {
            if (m.empty()) c.reject();
            MC_LOG(c, "clear");
            map.clear();
            m.clear();
            sorted = true;
        }
        MC_CHECK(c, map.empty() == m.empty(), "empty() is wrong");
        MC_CHECK(c, map.sorted() == sorted, "sorted() is wrong");
        std::string canon;
        for (auto& e : m) canon += e.first + ",";
        c.state(canon + char('0' + sorted));
        if (!sorted) continue;
        MC_CHECK(c, map.size() == m.size(), "size() is ", map.size(), " instead of ", m.size());
        auto j = m.begin();
        size_t n = 0;
        for (auto& e : map) {
            MC_CHECK(c, e.first == j->first && e.second == j->second, "entry ", n, " is ", e.first, "=", e.second, " instead of ", j->first, "=", j->second);
            MC_CHECK(c, map.at(n) == j->second, "at(", n, ") is ", map.at(n));
            ++j;
            ++n;
        }
        for (auto q : keys) {
            MC_CHECK(c, map.contains(q) == (m.count(q) > 0), "contains(", q, ") is wrong");
            if (m.count(q)) MC_CHECK(c, map.get(q) == m[q] && map[std::string(q)] == m[q], "get(", q, ") is ", map.get(q));
        }
        c.step();
    }
}, opts(4));

MC_SECTION("dense set", [](mc::Ctx& c) {
    DenseSet<int> set, other;
    std::set<int> m, mo;
    int depth = c.tier() ? 6 : 5;
    std::vector<int> raw;
    for (int d = 0; d < depth; d++) {
        int op = c.choose(11, "op"), k = op % 4;
        if (op < 4) {
            MC_LOG(c, "insert ", k);
            set.insert(k);
            m.insert(k);
        }
        else if (op < 8) {
            MC_LOG(c, "insert ", k, " in the other");
            other.insert(k);
            mo.insert(k);
        }
        else if (op == 8) {
            MC_LOG(c, "sort");
            set.sort();
            other.sort();
        }
        else if (op == 9) {
            MC_LOG(c, "clear");
            set.clear();
            m.clear();
        }
        else {
            if (!set.sorted() || !other.sorted()) c.reject();
            MC_LOG(c, "merge");
            set.merge(other);
            m.insert(mo.begin(), mo.end());
            MC_CHECK(c, set.sorted(), "not sorted after merging");
        }
        MC_CHECK(c, set.empty() == m.empty(), "empty() is wrong");
        auto check = [&](const DenseSet<int>& s, const std::set<int>& m) {
            if (!s.sorted()) return;
            MC_CHECK(c, s.size() == m.size(), "size() is ", s.size(), " instead of ", m.size());
            size_t n = 0;
            for (int x : m) {
                MC_CHECK(c, s.at(n) == x && s[n] == x, "element ", n, " is ", s.at(n), " instead of ", x);
                ++n;
            }
            for (int q = 0; q < 4; q++) {
                MC_CHECK(c, s.contains(q) == (m.count(q) > 0), "contains(", q, ") is wrong");
                auto f = s.find(q);
                MC_CHECK(c, f == s.cend() || *f == q, "find(", q, ") finds ", *f);
            }
        };
        check(set, m);
        check(other, mo);
        if (set.sorted() && other.sorted()) MC_CHECK(c, (set == other) == (m == mo), "comparing the sets is wrong");
        std::string canon;
        for (int x : m) canon += char('0' + x);
        canon += "/";
        for (int x : mo) canon += char('0' + x);
        c.state(canon);
        c.step();
    }
}, opts(4));

MC_SECTION("trie", [](mc::Ctx& c) {
    auto t = std::make_unique<Trie<int>>();
    std::map<std::string, int> m;
    static const std::vector<std::string> keys{"", "b", "ba", "bc", "\xff", std::string("b\0x", 3), "bca", "c", "a", std::string("\0", 1)};
    int n     = c.tier() ? 10 : 8;
    int depth = c.tier() ? 5 : 4;
    for (int d = 0; d < depth; d++) {
        std::string canon;
        for (auto& e : m) canon += mc::quote(e.first) + ",";
        c.state(canon);
        int op = c.choose(2 * n, "op");
        const std::string& k = keys[op % n];
        if (op < n) {
            MC_LOG(c, "insert ", mc::quote(k));
            t->insert(k, d);
            m[k] = d;
        }
        else {
            MC_LOG(c, "remove ", mc::quote(k));
            t->remove(k);
            m.erase(k);
        }
        for (auto& q : keys) {
            int* p = t->find(q);
            MC_CHECK(c, (p != nullptr) == (m.count(q) > 0), p ? "finds " : "does not find ", mc::quote(q));
            MC_CHECK(c, t->contains(q) == (p != nullptr), "contains(", mc::quote(q), ") is wrong");
            if (p) MC_CHECK(c, *p == m[q], "the value of ", mc::quote(q), " is ", *p, " instead of ", m[q]);
        }
        if (m.empty()) continue;
        MC_CHECK(c, !t->empty(), "empty() though it is not");
        c.step();
    }
}, opts(3));

MC_SECTION("bloom filter", [](mc::Ctx& c) {
    size_t bits = 1 + c.choose(c.tier() ? 200 : 70, "bits");
    BloomFilter<std::string> f(bits);
    MC_CHECK(c, f.empty(), "a new filter is not empty");
    for (int i = 0; i < 40; i++) MC_CHECK(c, !f.contains(mc::cat("key", i)), "an empty filter contains something");
    for (int i = 0; i < 40; i++) {
        f.insert(mc::cat("key", i));
        for (int j = 0; j <= i; j++) MC_CHECK(c, f.contains(mc::cat("key", j)), "key ", j, " was lost");
        MC_CHECK(c, !f.empty(), "the filter is empty");
        c.evals(i);
    }
    // it does distinguish
    if (bits >= 64) {
        BloomFilter<std::string> g(bits);
        g.insert("one");
        int hits = 0;
        for (int i = 0; i < 100; i++) hits += g.contains(mc::cat("other", i));
        MC_CHECK(c, hits < 20, hits, " of 100 keys which are not there are found");
    }
    c.state(mc::cat(bits));
}, opts(1));

MC_SECTION("buffer", [](mc::Ctx& c) {
    // sizes are chosen; the content is compared up to what is defined
    std::string m;
    size_t n = c.pick({0, 1, 4});
    std::unique_ptr<Buffer> b;
    switch (c.choose(3, "made from")) {
        case 0: b.reset(new Buffer(n)); m = std::string(n, 'x'); if (n) b->copy(m.data(), n); break;
        case 1: m = std::string("a\0cd", n); b.reset(new Buffer(m.data(), n)); break;
        case 2: m = std::string("a\0cd", n); b.reset(new Buffer(m)); m += '\0'; break;
    }
    int depth = c.tier() ? 4 : 3;
    for (int d = 0; d < depth; d++) {
        MC_CHECK(c, b->size() == m.size() && b->view() == m, "the buffer has ", mc::quote(std::string(b->view())), " instead of ", mc::quote(m));
        c.state(mc::cat(m.size()));
        c.step();
        switch (c.choose(6, "op")) {
            case 0: {
                size_t k = c.pick({0, 2, 5, 9});
                MC_LOG(c, "resize ", k);
                b->resize(k, true);
                if (k > m.size()) {
                    size_t old = m.size();
                    m.resize(k, char('0' + d));
                    b->copy(m.data() + old, k - old, old);
                }
                else m.resize(k);
                break;
            }
            case 1: {
                size_t k = c.pick({0, 2, 5});
                MC_LOG(c, "resize ", k, " discarding");
                b->resize(k);
                m = std::string(k, 'r');
                b->copy(m.data(), k);
                break;
            }
            case 2: {
                size_t at = c.choose(3, "at"), k = 1 + c.choose(2, "len");
                MC_LOG(c, "copy ", k, " at ", at);
                std::string s(k, char('A' + d));
                bool threw = false;
                try {
                    b->copy(s.data(), k, at);
                }
                catch (AssertionFailed&) {
                    threw = true;
                }
                MC_CHECK(c, threw == (at + k > m.size()), "copying ", k, " at ", at, " of ", m.size(), threw ? " fails" : " is accepted");
                if (!threw) m.replace(at, k, s);
                break;
            }
            case 3: b->zero(); m = std::string(m.size(), '\0'); break;
            case 4: {
                Buffer o(std::move(*b));
                MC_CHECK(c, o.size() == m.size() && o.view() == m, "moving changes the content");
                *b = std::move(o);
                break;
            }
            case 5: {
                Buffer o("other", 5);
                o = std::move(*b);
                *b = Buffer(3);
                *b = std::move(o);
                break;
            }
        }
    }
}, opts(3));

MC_SECTION("buffer list", [](mc::Ctx& c) {
    BufferList l;
    std::string m;
    size_t n = 0;
    for (int d = 0; d < 5; d++) {
        int op = c.choose(5, "op");
        if (op < 4) {
            std::string s(op == 3 ? 5 : op, char('a' + d));
            MC_LOG(c, "append ", s);
            l.append(Buffer(s.data(), s.size()));
            m += s;
            n++;
        }
        else {
            Buffer b = l.consolidate();
            MC_LOG(c, "consolidate");
            MC_CHECK(c, std::string(b.view()) == m, "consolidated to ", mc::quote(std::string(b.view())), " instead of ", mc::quote(m));
            m.clear();
            n = 0;
        }
        MC_CHECK(c, l.size() == Length(m.size()) && l.count() == n, "size() is ", l.size(), ", count() ", l.count());
        c.state(mc::cat(n, ":", m.size()));
        c.step();
    }
}, opts(2));

MC_SECTION("buffer cache", [](mc::Ctx& c) {
    size_t size = c.pick({0, 2, 1024});
    BufferCache b(size), other(3);
    std::string m, mo;
    other.add("abc", 3);
    mo = "abc";
    for (int d = 0; d < 4; d++) {
        switch (c.choose(5, "op")) {
            case 0: {
                size_t k = c.pick({1, 3, 0, 1500});
                std::string s(k, char('a' + d));
                b.add(s.data(), k);
                m += s;
                MC_LOG(c, "add ", k);
                break;
            }
            case 1: b.reset(); m.clear(); MC_LOG(c, "reset"); break;
            case 2: other = b; mo = m; MC_LOG(c, "assign"); break;
            case 3: {
                BufferCache x(b);
                x.add("z", 1);
                MC_CHECK(c, x.count() == m.size() + 1 && std::string(static_cast<const char*>(x.buffer()), x.count()) == m + "z", "the copy is different");
                break;
            }
            case 4: b = other; m = mo; MC_LOG(c, "assign back"); break;
        }
        MC_CHECK(c, b.count() == m.size(), "count() is ", b.count(), " instead of ", m.size());
        MC_CHECK(c, std::string(static_cast<const char*>(b.buffer()), b.count()) == m, "the content is ", mc::quote(std::string(static_cast<const char*>(b.buffer()), std::min<size_t>(b.count(), 20))), " instead of ", mc::quote(m.substr(0, 20)));
        bool less = m.size() < mo.size() || (m.size() == mo.size() && m < mo);
        MC_CHECK(c, (b < other) == less, "comparison is wrong");
        c.state(mc::cat(m.size(), ":", mo.size()));
        c.step();
    }
}, opts(3));

MC_SECTION("circular buffer", [](mc::Ctx& c) {
    size_t size = 1 + c.choose(4, "size"), cap = c.pick({size_t(1000), size_t(8), size});
    if (cap < size) c.reject();
    CircularBuffer b(size, cap);
    std::string m;
    char next = 'a';
    int depth = c.tier() ? 6 : 5;
    for (int d = 0; d < depth; d++) {
        int op = c.choose(7, "op");
        if (op < 3) {
            size_t k = op == 2 ? 5 : op + 1;
            std::string s;
            for (size_t i = 0; i < k; i++) s += next = next == 'z' ? 'a' : next + 1;
            MC_LOG(c, "write ", k);
            bool threw = false;
            try {
                MC_CHECK(c, b.write(s.data(), k) == k, "short write");
            }
            catch (SeriousBug&) {
                threw = true;
            }
            if (m.size() + k <= size) MC_CHECK(c, !threw, "does not fit though there is place");
            if (threw) MC_CHECK(c, m.size() + k > cap - std::min(cap, 2 * size + 5), "cannot grow to hold ", m.size() + k, " of ", cap);
            if (!threw) m += s;
        }
        else if (op < 6) {
            size_t k = op == 5 ? 6 : 2 * op - 5;
            std::string r(k + 1, '#');
            size_t n = b.read(&r[0], k);
            MC_LOG(c, "read ", k, " = ", n);
            MC_CHECK(c, n == std::min(k, m.size()), "read(", k, ") of ", m.size(), " gives ", n);
            MC_CHECK(c, r.substr(0, n) == m.substr(0, n), "read ", r.substr(0, n), " instead of ", m.substr(0, n));
            for (size_t i = n; i <= k; i++) MC_CHECK(c, r[i] == '#', "the rest of the buffer is touched");
            m.erase(0, n);
        }
        else {
            if (m.empty()) c.reject();
            b.clear();
            m.clear();
        }
        MC_CHECK(c, b.length() == m.size(), "length() is ", b.length(), " instead of ", m.size());
        MC_CHECK(c, b.size() >= m.size() && b.size() <= cap && b.capacity() == cap, "size() is ", b.size());
        c.state(mc::cat(size, cap, m.size()));
        c.step();
    }
}, opts(3));
