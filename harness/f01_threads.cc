// F01: writers and readers of a list or a map at the same time; every operation on the fabric is a step
#include <algorithm>

#define F01_SECTION(...)  // those of f01_fam.cc run elsewhere
#include "f01_fam.cc"

namespace {

struct Options : mcs::Options {
    Options(int p) { preemptions = p; }
};

// the items of one writer, in the order in which they were put (front: reversed)
void inOrder(const std::vector<std::string>& got, const std::vector<std::vector<std::string>>& wrote) {
    size_t total = 0;
    for (auto& w : wrote) {
        std::vector<std::string> mine;
        for (auto& g : got) {
            if (std::find(w.begin(), w.end(), g) != w.end()) {
                mine.push_back(g);
            }
        }
        total += w.size();
        MCS_CHECK(mine == w, "items ", show(w), " are in the list as ", show(mine), " of ", show(got));
    }
    MCS_CHECK(got.size() == total, "a list of ", total, " items is read as ", show(got));
}

}  // namespace

MC_SECTION("writers", [](mc::Ctx& c) {
    auto region  = freshRegion("r");
    int before   = int(c.choose(2));
    bool back[2] = {c.flag(), c.flag()};
    int n[2]     = {1, 1 + int(c.choose(2))};
    mcs::run(c, Options(c.tier() ? 3 : 2), [&] {
        FamList l(region, "list");
        std::vector<std::vector<std::string>> wrote(3);
        for (int i = 0; i < before; ++i) {
            l.pushBack("before");
            wrote[2].push_back("before");
        }
        std::vector<std::thread> ts;
        for (int w = 0; w < 2; ++w) {
            std::vector<std::string> items;
            for (int i = 0; i < n[w]; ++i) {
                items.push_back(mc::cat("w", w, i));
            }
            ts.emplace_back([&, w, items] {
                FamList mine(region, l.descriptor());
                for (auto& i : items) {
                    back[w] ? mine.pushBack(i) : mine.pushFront(i);
                }
            });
            if (!back[w]) {
                std::reverse(items.begin(), items.end());
            }
            wrote[w] = items;
        }
        for (auto& t : ts) {
            t.join();
        }
        auto got = forward(l);
        inOrder(got, wrote);
        MCS_CHECK(l.size() == got.size(), "a list of ", got.size(), " items has size ", l.size());
        if (!back[0] && !back[1]) {
            auto rev = backward(l, got.size());
            MCS_CHECK(rev == got, "a list of ", show(got), " is read backwards as ", show(rev));
        }
    });
    c.nontrivial();
}, opts(4));

MC_SECTION("reader", [](mc::Ctx& c) {
    auto region = freshRegion("r");
    int op      = int(c.choose(5));
    mcs::run(c, Options(c.tier() ? 4 : 3), [&] {
        FamList l(region, "list");
        std::vector<std::string> kept{"aa", "bbbb", "c"};
        for (auto& k : kept) {
            l.pushBack(k);
        }
        std::thread t([&] {
            FamList mine(region, l.descriptor());
            switch (op) {
                case 0:
                    mine.pushFront("new item");
                    break;
                case 1:
                    mine.pushBack("new item");
                    break;
                case 2:
                    mine.popFront();
                    break;
                case 3:
                    mine.popBack();
                    break;
                case 4:
                    { auto it = mine.begin(); ++it; mine.erase(std::move(it)); }
                    break;
            }
        });
        if (op == 2) {
            kept.erase(kept.begin());
        }
        if (op == 3) {
            kept.pop_back();
        }
        if (op == 4) {
            kept.erase(kept.begin() + 1);
        }
        auto got = forward(l);
        std::vector<std::string> seen;
        for (auto& g : got) {
            MCS_CHECK(g == "aa" || g == "bbbb" || g == "c" || (op < 2 && g == "new item"), "a reader reads ", mc::quote(g));
            if (std::find(kept.begin(), kept.end(), g) != kept.end()) {
                seen.push_back(g);
            }
        }
        MCS_CHECK(seen == kept, "a reader of a list reads ", show(got), " while it always has ", show(kept));
        t.join();
        got = forward(l);
        auto want = kept;
        if (op == 0) {
            want.insert(want.begin(), "new item");
        }
        if (op == 1) {
            want.push_back("new item");
        }
        MCS_CHECK(got == want && l.size() == want.size(), "a list of ", show(want), " is read as ", show(got));
    });
    c.nontrivial();
}, opts(2));

MC_SECTION("maps", [](mc::Ctx& c) {
    auto region  = freshRegion("r");
    int what     = int(c.choose(5));
    bool before  = c.flag();
    mcs::run(c, Options(c.tier() ? 3 : 2), [&] {
        Map map("map", region);
        const auto &a = keys()[0], &b = keys()[1], &d = keys()[2];
        if (before) {
            map.insert(Key(a), "A");
        }
        std::thread t([&] {
            Map mine("map", region);
            if (what == 3) {
                mine.insertOrAssign(Key(a), "new");
            }
            else if (what == 4) {
                mine.insert(Key(d), "D");
            }
            else {
                mine.insert(Key(b), "B");
            }
        });
        switch (what) {
            case 0:
            case 4:
                map.insert(Key(before ? d : a), "M");
                break;
            case 1: {
                auto it = map.find(Key(b));
                if (it != map.end()) {
                    auto e = *it;
                    MCS_CHECK(text(e.value) == "B" && e.key == Key(b), "a reader of a map finds ", text(e.value));
                }
                break;
            }
            case 2:
                map.forceInsert(Key(b), "B2");
                break;
            case 3: {
                auto it = map.find(Key(a));
                MCS_CHECK(!before || it != map.end(), "a key being assigned to is not found");
                if (it != map.end()) {
                    auto e = *it;
                    MCS_CHECK(text(e.value) == "new" || (before && text(e.value) == "A"), "a reader of a map finds ", text(e.value));
                }
                break;
            }
        }
        t.join();
        std::multimap<std::string, std::string> want;
        if (before && what != 3) {
            want.insert({a, "A"});
        }
        switch (what) {
            case 0:
            case 4:
                if (what == 0) {
                    want.insert({b, "B"});
                    want.insert({before ? d : a, "M"});
                }
                break;
            case 1:
                want.insert({b, "B"});
                break;
            case 2:
                want.insert({b, "B2"});
                break;
            case 3:
                want.insert({a, "new"});
                break;
        }
        std::multimap<std::string, std::string> got;
        for (auto& k : keys()) {
            auto n = map.count(Key(k));
            auto i = map.find(Key(k));
            MCS_CHECK((n > 0) == (i != map.end()), "a key is found but not counted, or the other way");
            if (n) {
                got.insert({k, text((*i).value)});
            }
            if (what < 2 || what == 3) {
                MCS_CHECK(n <= 1, "a key is there ", n, " times");
            }
        }
        if (what < 4 && what != 2) {
            MCS_CHECK(got == want, "a map has other entries than were put");
            MCS_CHECK(map.size() == want.size(), "a map of ", want.size(), " entries has size ", map.size());
        }
        size_t n = 0;
        for (auto& k : keys()) {
            n += map.count(Key(k));
        }
        MCS_CHECK(map.size() == n, "a map of ", n, " entries has size ", map.size());
    });
    c.nontrivial();
}, opts(3));

namespace {
const char* const WHAT[] = {"pop-front", "pop-back", "erase", "push-front", "push-back"};
}
// two clients, of which at least one removes
MC_SECTION("removers", [](mc::Ctx& c) {
    auto region = freshRegion("r");
    // pop front, pop back, (erase), push front, push back. Those left out do not end when they fail (see DESIGN.md)
    static const int PAIRS[][2] = {{0, 0}, {1, 1}, {3, 0}, {4, 0}, {3, 1}, {4, 1}, {0, 1}};
    int n       = 2 + int(c.choose(2));
    size_t pair = c.choose(7);
    const int a = PAIRS[pair][0], b = PAIRS[pair][1];
    std::string bad, badKey;
    mcs::run(c, Options(c.tier() ? 3 : 2), [&] {
        FamList l(region, "list");
        std::vector<std::string> items;
        for (int i = 0; i < n; ++i) {
            items.push_back(mc::cat("i", i));
            l.pushBack(items.back());
        }
        auto act = [&](FamList& list, int what) {
            switch (what) {
                case 0:
                    list.popFront();
                    break;
                case 1:
                    list.popBack();
                    break;
                case 3:
                    list.pushFront("new");
                    break;
                case 4:
                    list.pushBack("new");
                    break;
            }
        };
        std::thread t([&] {
            FamList mine(region, l.descriptor());
            act(mine, b);
        });
        act(l, a);
        t.join();
        size_t want = size_t(n) - 1 + (a < 3 ? -1 : 1);
        auto got    = forward(l);
        const std::string key = mc::cat("n", n, "-", WHAT[std::min(a, b)], "-with-", WHAT[std::max(a, b)]);
        if (got.size() != want || l.size() != want) {
            bad    = mc::cat(key, ": a list of ", want, " items is read as ", show(got), ", size ", l.size());
            badKey = key;
            return;
        }
        auto rev = backward(l, want);
        if (rev != got) {
            bad    = mc::cat(key, ": a list of ", show(got), " is read backwards as ", show(rev));
            badKey = key + "-backwards";
        }
    });
    if (!bad.empty()) {
        c.fail(bad, badKey);
    }
    c.nontrivial();
}, opts(3));
