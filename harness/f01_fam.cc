// F01: lists, maps and objects in fabric-attached memory (on the mock of the fabric which the library builds with)
#include <sys/mman.h>

#include <cstring>
#include <deque>
#include <map>
#include <set>
#include <thread>

#include "common.h"

#include "eckit/io/Buffer.h"
#include "eckit/io/DataHandle.h"
#include "eckit/io/Length.h"
#include "eckit/io/fam/FamList.h"
#include "eckit/io/fam/FamMap.h"
#include "eckit/io/fam/FamObject.h"
#include "eckit/io/fam/FamObjectName.h"
#include "eckit/io/fam/FamRegion.h"
#include "eckit/io/fam/FamRegionName.h"
#include "eckit/net/Endpoint.h"
#include "mc/sched.h"

using namespace eckit;

#ifndef F01_SECTION
#define F01_SECTION(...) MC_SECTION(__VA_ARGS__)
#endif

namespace {

std::string endpoint() {
    static const std::string e = []() {
        setenv("ECKIT_FAM_MOCK_SHM_SIZE", "36700160", 1);
        return "mc" + std::to_string(::getpid()) + ":8880";
    }();
    return e;
}

FamRegionName regionName(const std::string& n) {
    FamRegionName name{net::Endpoint(endpoint()), FamPath("")};
    name.withRegion(n);
    return name;
}

FamRegion freshRegion(const std::string& n) {
    auto r = regionName(n).create(1024 * 1024, 0640, true);
    static bool once = []() {
        // nothing stays behind: the mapping keeps the memory
        std::string host = endpoint().substr(0, endpoint().find(':'));
        ::shm_unlink(("/eckit_fam_mock_" + host).c_str());
        return true;
    }();
    (void)once;
    return r;
}

std::string text(const Buffer& b) {
    return std::string(static_cast<const char*>(b.data()), b.size());
}

std::string show(const std::vector<std::string>& v) {
    std::string s = "[";
    for (auto& x : v) {
        s += (s.size() > 1 ? " " : "") + x;
    }
    return s + "]";
}

std::vector<std::string> forward(const FamList& l, size_t limit = 50) {
    std::vector<std::string> v;
    for (auto i = l.begin(); i != l.end(); ++i) {
        v.push_back(text(*i));
        if (v.size() > limit) {
            v.push_back("...");
            break;
        }
    }
    return v;
}

std::vector<std::string> backward(const FamList& l, size_t n) {
    std::vector<std::string> v;
    auto i = l.end();
    while (v.size() < n) {
        --i;
        v.insert(v.begin(), text(*i));
    }
    return v;
}

template <class F>
bool throws(F f) {
    try {
        f();
    }
    catch (std::exception&) {
        return true;
    }
    return false;
}

void checkList(mc::Ctx& c, const FamList& l, const std::deque<std::string>& m) {
    std::vector<std::string> want(m.begin(), m.end());
    auto got = forward(l);
    MC_CHECK(c, got == want, "a list of ", show(want), " is read as ", show(got));
    MC_CHECK(c, l.size() == m.size(), "a list of ", m.size(), " items has ", l.size());
    MC_CHECK(c, l.empty() == m.empty(), "a list is empty: ", l.empty());
    got = backward(l, m.size());
    MC_CHECK(c, got == want, "a list of ", show(want), " is read backwards as ", show(got));
    if (m.empty()) {
        MC_CHECK(c, throws([&] { l.front(); }) && throws([&] { l.back(); }), "an empty list has a front or back");
    }
    else {
        MC_CHECK(c, text(l.front()) == m.front() && text(l.back()) == m.back(), "the ends of a list of ", show(want), " are ",
                 text(l.front()), " and ", text(l.back()));
    }
}

}  // namespace

// every sequence of operations on a list
F01_SECTION("list", [](mc::Ctx& c) {
    auto region = freshRegion("r");
    auto l      = std::make_unique<FamList>(region, "list");
    FamList other(region, "other");
    other.pushBack("of the other");
    std::deque<std::string> m;
    int depth  = c.tier() ? 6 : 5;
    int serial = 0;
    checkList(c, *l, m);
    for (int i = 0; i < depth; ++i) {
        int op           = int(c.choose(8));
        std::string item = (serial % 2) ? std::string(9 + serial, char('a' + serial)) : std::string(1, char('a' + serial));
        c.step();
        switch (op) {
            case 0:
                l->pushFront(item);
                m.push_front(item);
                ++serial;
                break;
            case 1:
                l->pushBack(Buffer(item.data(), item.size()));
                m.push_back(item);
                ++serial;
                break;
            case 2:
                if (m.empty()) {
                    MC_CHECK(c, throws([&] { l->popFront(); }), "popFront of an empty list does not fail");
                }
                else {
                    l->popFront();
                    m.pop_front();
                }
                break;
            case 3:
                if (m.empty()) {
                    MC_CHECK(c, throws([&] { l->popBack(); }), "popBack of an empty list does not fail");
                }
                else {
                    l->popBack();
                    m.pop_back();
                }
                break;
            case 4: {
                size_t at = c.choose(m.size() + 1);
                auto it   = l->begin();
                for (size_t k = 0; k < at; ++k) {
                    ++it;
                }
                if (at == m.size()) {
                    MC_CHECK(c, throws([&] { l->erase(std::move(it)); }), "erasing the end does not fail");
                }
                else {
                    auto next = l->erase(std::move(it));
                    m.erase(m.begin() + long(at));
                    MC_CHECK(c, at == m.size() ? next == l->end() : text(*next) == m[at], "erasing gives another position");
                }
                break;
            }
            case 5:
                l->clear();
                m.clear();
                break;
            case 6:
                l = std::make_unique<FamList>(region, "list");
                break;
            case 7:
                l = std::make_unique<FamList>(regionName("r").lookup(), l->descriptor());
                break;
        }
        checkList(c, *l, m);
    }
    MC_CHECK(c, forward(other) == std::vector<std::string>{"of the other"}, "another list has changed");
    c.nontrivial();
}, opts(3));

// every sequence of operations on a map
namespace {

using Map = FamMap32;
using Key = Map::key_type;

// two keys of one bucket, a key of another, and a key of full length
const std::vector<std::string>& keys() {
    static const std::vector<std::string> k = []() {
        auto bucket = [](const std::string& s) { return FamHash<Key>{}(Key(s)) % Map::bucket_count; };
        std::vector<std::string> v{"a"};
        for (int i = 0; v.size() < 2; ++i) {
            std::string s = "b" + std::to_string(i);
            if (bucket(s) == bucket("a")) {
                v.push_back(s);
            }
        }
        v.push_back(std::string(31, 'k') + "1");
        return v;
    }();
    return k;
}

using Pairs = std::vector<std::pair<std::string, std::string>>;  // latest first

std::string show(const Pairs& p) {
    std::string s = "{";
    for (auto& x : p) {
        s += x.first + ":" + x.second + " ";
    }
    return s + "}";
}

Pairs all(const Map& m, size_t limit = 50) {
    Pairs p;
    for (auto i = m.begin(); i != m.end(); ++i) {
        auto e = *i;
        p.emplace_back(e.key.asString(), text(e.value));
        if (p.size() > limit) {
            break;
        }
    }
    return p;
}

void checkMap(mc::Ctx& c, const Map& map, const Pairs& m) {
    MC_CHECK(c, map.size() == m.size() && map.empty() == m.empty(), "a map of ", m.size(), " entries has ", map.size());
    for (auto& k : keys()) {
        std::vector<std::string> want;
        for (auto& e : m) {
            if (e.first == k) {
                want.push_back(e.second);
            }
        }
        auto it = map.find(Key(k));
        MC_CHECK(c, (it != map.end()) == !want.empty(), "finding ", k, " in ", show(m), ": ", it != map.end());
        MC_CHECK(c, map.contains(Key(k)) == !want.empty(), "contains ", k, " in ", show(m), ": ", map.contains(Key(k)));
        MC_CHECK(c, map.count(Key(k)) == want.size(), "count of ", k, " in ", show(m), " is ", map.count(Key(k)));
        if (!want.empty()) {
            auto e = *it;
            MC_CHECK(c, e.key == Key(k) && text(e.value) == want[0], "the value of ", k, " in ", show(m), " is ", text(e.value));
        }
    }
    auto got = all(map);
    MC_CHECK(c, got.size() == m.size(), "iterating over ", show(m), " gives ", show(got));
    for (auto& k : keys()) {
        std::vector<std::string> a, b;
        for (auto& e : got) {
            if (e.first == k) {
                a.push_back(e.second);
            }
        }
        for (auto& e : m) {
            if (e.first == k) {
                b.push_back(e.second);
            }
        }
        MC_CHECK(c, a == b, "iterating over ", show(m), " gives ", show(got));
    }
}

}  // namespace

F01_SECTION("map", [](mc::Ctx& c) {
    auto region = freshRegion("r");
    auto map    = std::make_unique<Map>("map", region);
    Map other("other", region);
    Pairs m, mo;
    other.insert(Key(keys()[0]), "O0");
    other.forceInsert(Key(keys()[0]), "O1");
    other.insert(Key(keys()[2]), "");
    mo        = {{keys()[2], ""}, {keys()[0], "O1"}, {keys()[0], "O0"}};
    int depth = c.tier() ? 5 : 4;
    auto has  = [&](const std::string& k) {
        for (auto& e : m) {
            if (e.first == k) {
                return true;
            }
        }
        return false;
    };
    for (int i = 0; i < depth; ++i) {
        int op = int(c.choose(7));
        c.step();
        std::string k, v = (i % 2) ? "v" + std::to_string(i) : (i ? std::string("\0x\xff", 3) : std::string());
        if (op < 4) {
            k = keys()[c.choose(keys().size())];
        }
        switch (op) {
            case 0: {
                bool had = has(k);
                auto r   = map->insert(Key(k), v);
                MC_CHECK(c, r.second == !had, "inserting ", k, " which is there: ", had);
                if (!had) {
                    m.insert(m.begin(), {k, v});
                }
                auto e = *r.first;
                MC_CHECK(c, e.key == Key(k) && (had || text(e.value) == v), "inserting gives another entry");
                break;
            }
            case 1: {
                bool had = has(k);
                auto r   = map->insertOrAssign(Key(k), Buffer(v.data(), v.size()));
                MC_CHECK(c, r.second == !had, "assigning to ", k, " which is there: ", had);
                for (auto it = m.begin(); it != m.end(); ++it) {
                    if (it->first == k) {
                        m.erase(it);
                        break;
                    }
                }
                m.insert(m.begin(), {k, v});
                auto e = *r.first;
                MC_CHECK(c, e.key == Key(k) && text(e.value) == v, "assigning gives another entry");
                break;
            }
            case 2: {
                auto e = *map->forceInsert(Key(k), v);
                m.insert(m.begin(), {k, v});
                MC_CHECK(c, e.key == Key(k) && text(e.value) == v, "inserting gives another entry");
                break;
            }
            case 3: {
                size_t n = 0;
                for (auto it = m.begin(); it != m.end();) {
                    if (it->first == k) {
                        it = m.erase(it);
                        ++n;
                    }
                    else {
                        ++it;
                    }
                }
                auto got = map->erase(Key(k));
                MC_CHECK(c, got == n, "erasing ", k, " removes ", got, " entries and not ", n);
                break;
            }
            case 4:
                map->clear();
                m.clear();
                break;
            case 5:
                map = std::make_unique<Map>("map", regionName("r").lookup());
                break;
            case 6:
                map->merge(other);
                for (auto& e : {mo[0], mo[1]}) {
                    if (!has(e.first)) {
                        m.insert(m.begin(), e);
                    }
                }
                break;
        }
        if (i + 1 == depth || op == 6) {
            checkMap(c, *map, m);
        }
    }
    checkMap(c, other, mo);
    c.nontrivial();
}, opts(3));

// the bytes of an object, by handle, by object and by number
F01_SECTION("object", [](mc::Ctx& c) {
    auto region = freshRegion("r");
    auto name   = regionName("r").object("o");
    MC_CHECK(c, !name.exists() && throws([&] { name.lookup(); }), "an object which was not made is there");
    const size_t N = c.flag() ? 5 : 1;
    auto neighbour = region.allocateObject(8, "n");
    neighbour.put(uint64_t(0x1122334455667788), 0);
    name.allocate(N);
    auto after = region.allocateObject(8, "p");
    after.put(uint64_t(0x1122334455667788), 0);
    std::string m(N, '\0');
    name.lookup().put(m.data(), 0, N);
    int depth = c.tier() ? 3 : 2;
    for (int i = 0; i < depth; ++i) {
        c.step();
        const size_t OFF[] = {0, 1, N - 1, N, N + 1}, LEN[] = {1, 2, N, N + 1};
        size_t off = OFF[c.choose(5)], len = LEN[c.choose(4)];
        bool fits  = off + len <= N;
        std::string data(len, char('a' + i));
        switch (c.choose(4)) {
            case 0: {
                auto o     = name.lookup();
                bool threw = throws([&] { o.put(data.data(), off, len); });
                MC_CHECK(c, threw == !fits, "putting ", len, " bytes at ", off, " of ", N, " fails: ", threw);
                if (fits) {
                    m.replace(off, len, data);
                }
                break;
            }
            case 1: {
                auto o = name.lookup();
                std::string got(len, '?');
                bool threw = throws([&] { o.get(&got[0], off, len); });
                MC_CHECK(c, threw == !fits, "getting ", len, " bytes at ", off, " of ", N, " fails: ", threw);
                MC_CHECK(c, !fits || got == m.substr(off, len), "getting bytes which were not put");
                break;
            }
            case 2: {
                std::unique_ptr<DataHandle> h(name.dataHandle());
                h->openForWrite(0);
                if (off > N) {
                    MC_CHECK(c, throws([&] { h->seek(off); }), "seeking beyond the end does not fail");
                    h->close();
                    break;
                }
                h->seek(off);
                bool threw = throws([&] { h->write(data.data(), long(len)); });
                MC_CHECK(c, threw == !fits, "writing ", len, " bytes at ", off, " of ", N, " fails: ", threw);
                if (fits) {
                    m.replace(off, len, data);
                    MC_CHECK(c, h->position() == Offset(off + len), "writing leaves the handle elsewhere");
                }
                h->close();
                break;
            }
            case 3: {
                std::unique_ptr<DataHandle> h(name.dataHandle());
                MC_CHECK(c, h->openForRead() == Length(N), "an object of ", N, " bytes is opened as another length");
                std::string got;
                if (off <= N) {
                    h->seek(off);
                    for (;;) {
                        std::string piece(len, '?');
                        long n = h->read(&piece[0], long(len));
                        if (n <= 0) {
                            MC_CHECK(c, n == 0, "reading at the end gives ", n);
                            break;
                        }
                        got += piece.substr(0, size_t(n));
                        MC_CHECK(c, got.size() <= N, "reading does not end");
                    }
                    MC_CHECK(c, got == m.substr(off), "reading from ", off, " gives other bytes");
                }
                h->close();
                break;
            }
        }
        MC_CHECK(c, text(name.lookup().data()) == m, "the bytes of an object are not those put");
        MC_CHECK(c, neighbour.get<uint64_t>() == 0x1122334455667788 && after.get<uint64_t>() == 0x1122334455667788,
                 "the bytes of another object have changed");
    }
    MC_CHECK(c, name.lookup().size() == N && name.lookup().name() == "o", "an object has another size or name");
    MC_CHECK(c, throws([&] { name.allocate(N); }), "an object is made again");
    name.allocate(N + 1, true);
    MC_CHECK(c, name.lookup().size() == N + 1, "an object made anew has the old size");
    name.lookup().deallocate();
    MC_CHECK(c, !name.exists(), "an object which was deallocated is there");
    region.destroy();
    MC_CHECK(c, !regionName("r").exists(), "a region which was destroyed is there");
    c.nontrivial();
}, opts(3));

F01_SECTION("numbers", [](mc::Ctx& c) {
    auto region = freshRegion("r");
    auto o      = region.allocateObject(24, "o");
    uint64_t m[3] = {0, 0, 0};
    o.put(m, 0, sizeof(m));
    static const uint64_t V[] = {0, 1, 0x100000000ULL, ~0ULL};
    for (int i = 0; i < (c.tier() ? 4 : 3); ++i) {
        size_t k = c.choose(2);
        auto v   = V[c.choose(4)];
        c.step();
        switch (c.choose(5)) {
            case 0:
                o.set(8 * k, v);
                m[k] = v;
                break;
            case 1:
                o.add(8 * k, v);
                m[k] += v;
                break;
            case 2:
                o.subtract(8 * k, v);
                m[k] -= v;
                break;
            case 3: {
                auto old = o.swap(8 * k, v);
                MC_CHECK(c, old == m[k], "swap gives ", old, " and not ", m[k]);
                m[k] = v;
                break;
            }
            case 4: {
                auto want = V[c.choose(4)];
                auto old  = o.compareSwap(8 * k, want, v);
                MC_CHECK(c, old == m[k], "compareSwap gives ", old, " and not ", m[k]);
                if (m[k] == want) {
                    m[k] = v;
                }
                break;
            }
        }
        uint64_t got[3];
        o.get(got, 0, sizeof(got));
        MC_CHECK(c, !std::memcmp(got, m, sizeof(m)), "the numbers of an object are not those put");
        MC_CHECK(c, o.fetch<uint64_t>(8 * k) == m[k], "fetch gives another number");
    }
    c.nontrivial();
}, opts(3));
