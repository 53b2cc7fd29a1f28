// D03: processes that share locks, caches, queues, trees and arrays on disk
#include <sys/ipc.h>
#include <sys/mman.h>
#include <sys/sem.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <filesystem>
#include <map>
#include <set>
#include "eckit/container/BTree.h"
#include "eckit/container/CacheManager.h"
#include "eckit/container/MappedArray.h"
#include "eckit/container/Recycler.h"
#include "eckit/container/SharedMemArray.h"
#include "eckit/io/FileLock.h"
#include "eckit/os/SemLocker.h"
#include "eckit/os/Semaphore.h"
#include "eckit/types/FixedString.h"
#include "mc/procs.h"
#include "common.h"

using namespace eckit;
namespace fs = std::filesystem;

// the time, for who was used last
namespace {
time_t now_ = 0;
}
extern "C" time_t time(time_t* t) {
    time_t r = now_;
    if (!r) {
        timespec s;
        clock_gettime(CLOCK_REALTIME, &s);
        r = s.tv_sec;
    }
    if (t) *t = r;
    return r;
}

namespace {
void fresh() {
    for (auto& e : fs::directory_iterator(".")) fs::remove_all(e.path());
}
void removeSemaphore(const std::string& path) {
    key_t k = ftok(path.c_str(), 1);
    if (k == key_t(-1)) return;
    int s = semget(k, 0, 0);
    if (s >= 0) semctl(s, 0, IPC_RMID);
}
// the section that one process at a time may be in: the flag of a process is lost with it
void critical(int who, int n) {
    volatile int* in = procs::shared();
    for (int i = 0; i < n; i++) PROC_CHECK(i == who || !in[i], "processes ", who, " and ", i, " hold the lock");
    in[who] = 1;
    procs::step();
    for (int i = 0; i < n; i++) PROC_CHECK(i == who || !in[i], "processes ", who, " and ", i, " hold the lock");
    in[who] = 0;
    procs::ack("in");
}
}  // namespace

// --------------------------------------------------------------------------------------------------------------------
MC_SECTION("locks", [](mc::Ctx& c) {
    int kind = c.choose(4);  // lock file kept, removed; semaphore; locker
    int n = 2 + c.choose(2);
    int rounds = n == 2 ? 2 : 1;
    procs::Options o;
    o.preemptions = c.tier() ? 3 : n == 2 ? 2 : 1;
    o.crashes = c.choose(2);
    if (kind == 3 && o.crashes) c.reject();
    fresh();
    putFile("sem", "");
    removeSemaphore("sem");
    if (kind == 3) {  // a semaphore set as the loader of shared memory makes it
        int s = semget(ftok("sem", 1), 1, 0666 | IPC_CREAT);
        if (s < 0) c.fail("HARNESS: no semaphore", "harness");
    }
    std::vector<std::function<void()>> b;
    for (int i = 0; i < n; i++)
        b.push_back([=] {
            for (int r = 0; r < rounds; r++) {
                if (kind < 2) {
                    FileLock l("lock", kind == 1);
                    AutoLock<FileLock> a(l);
                    critical(i, n);
                }
                else if (kind == 2) {
                    Semaphore l("sem");
                    AutoLock<Semaphore> a(l);
                    AutoLock<Semaphore> again(l);
                    critical(i, n);
                }
                else {
                    SemLocker l(semget(ftok("sem", 1), 1, 0666), "sem");
                    critical(i, n);
                }
            }
        });
    auto r = procs::run(c, o, b);
    std::vector<int> in(static_cast<size_t>(n));
    for (auto& a : r.acks) in[size_t(a.proc)]++;
    for (int i = 0; i < n; i++) {
        MC_CHECK(c, r.errors[size_t(i)].empty(), "process ", i, " fails: ", r.errors[size_t(i)]);
        if (!r.crashed[size_t(i)]) MC_CHECK(c, in[size_t(i)] == rounds, "process ", i, " got the lock ", in[size_t(i)], " times");
    }
    removeSemaphore("sem");
    if (kind == 1 && r.allEnded()) c.outcome(fs::exists("lock") ? "lock file left" : "lock file removed");
    c.nontrivial();
}, opts(5));

// --------------------------------------------------------------------------------------------------------------------
// values pushed on a file by processes are popped once
MC_SECTION("recycler", [](mc::Ctx& c) {
    int n = 2 + c.choose(2);
    procs::Options o;
    o.preemptions = c.tier() ? 2 : 1;
    o.crashes = (n == 2 || c.tier()) && c.choose(2);
    fresh();
    int start = c.tier() ? c.choose(3) : c.choose(2) * 2;
    {
        Recycler<long> q("queue");
        for (long i = 0; i < start; i++) q.push(100 + i);
    }
    // the operations of each process
    std::vector<std::vector<int>> todo(static_cast<size_t>(n));
    for (int i = 0; i < n; i++)
        for (int k = 0; k < (n == 2 && !o.crashes && (i == 0 || c.tier()) ? 2 : 1); k++) {
            int op = c.choose(4);
            if (n == 3 && i && op < todo[size_t(i) - 1][0]) c.reject();  // the same, in another order
            todo[size_t(i)].push_back(op);
        }
    std::vector<std::function<void()>> b;
    for (int i = 0; i < n; i++)
        b.push_back([=] {
            Recycler<long> q("queue");
            auto& ops = todo[size_t(i)];
            for (size_t k = 0; k < ops.size(); k++) {
                long id = 10 * (i + 1) + long(k) * 3;
                long two[2] = {id, id + 1}, got[2];
                switch (ops[k]) {
                    case 0:
                        q.push(id);
                        procs::ack("+" + std::to_string(id));
                        break;
                    case 1:
                        q.push(two, two + 2);
                        procs::ack("+" + std::to_string(two[0]));
                        procs::ack("+" + std::to_string(two[1]));
                        break;
                    case 2: {
                        long v = 0;
                        if (q.pop(v)) procs::ack("-" + std::to_string(v));
                        break;
                    }
                    case 3: {
                        auto m = q.pop(got, 2);
                        for (size_t j = 0; j < m; j++) procs::ack("-" + std::to_string(got[j]));
                        break;
                    }
                }
            }
        });
    auto r = procs::run(c, o, b);
    std::multiset<long> pushed, popped, left;
    for (long i = 0; i < start; i++) pushed.insert(100 + i);
    for (auto& a : r.acks) (a.what[0] == '+' ? pushed : popped).insert(std::stol(a.what.substr(1)));
    bool crashed = false;
    for (int i = 0; i < n; i++) {
        MC_CHECK(c, r.errors[size_t(i)].empty(), "process ", i, " fails: ", r.errors[size_t(i)]);
        crashed = crashed || r.crashed[size_t(i)];
    }
    {
        Recycler<long> q("queue");
        long v;
        while (q.pop(v)) left.insert(v);
    }
    std::multiset<long> all = popped;
    all.insert(left.begin(), left.end());
    for (long v : all) MC_CHECK(c, all.count(v) == 1 || crashed, "the value ", v, " is given twice");
    if (!crashed) {
        MC_CHECK(c, all == pushed, pushed.size(), " values pushed, ", popped.size(), " popped and ", left.size(), " left");
        if (n == 1) c.outcome("one");
    }
    else
        for (long v : all) MC_CHECK(c, v >= 10 && v < 110, "a value that nobody pushed: ", v);
    c.nontrivial();
}, opts(5));

// --------------------------------------------------------------------------------------------------------------------
// a cache of files
namespace {
std::string content(const std::string& key, size_t size) {
    std::string s = key + ":";
    while (s.size() < size) s += char('a' + s.size() % 26);
    return s;
}
template <class L>
struct Traits {
    using value_type = std::string;
    using Locker     = L;
    static const char* name() { return "cache"; }
    static const char* extension() { return ".ext"; }
    static int version() { return 3; }
    static void save(const CacheManagerBase&, const value_type& v, const PathName& p) {
        std::ofstream f(p.asString());
        f << v.substr(0, v.size() / 2) << std::flush;
        f << v.substr(v.size() / 2) << std::flush;
    }
    static void load(const CacheManagerBase&, value_type& v, const PathName& p) { v = getFile(p.asString()); }
};
struct NoLock {
    explicit NoLock(const std::string&) {}
    void lock() {}
    void unlock() {}
};
template <class L>
struct Maker : CacheManager<Traits<L>>::CacheContentCreator {
    std::string key;
    size_t size;
    bool saves, fails;
    Maker(const std::string& k, size_t n, bool s, bool f) : key(k), size(n), saves(s), fails(f) {}
    void create(const PathName& p, std::string& v, bool& saved) override {
        procs::ack("make " + key);
        if (fails) throw UserError("cannot make");
        v = content(key, size);
        if (saves) {
            putFile(p.asString(), v.substr(0, 3));
            if (p.asString().empty()) return;
            putFile(p.asString(), v);
            saved = true;
        }
    }
};
template <class L>
void cacheProcesses(mc::Ctx& c, int kind, bool creates) {
    int n = 2 + (c.tier() ? c.choose(2) : 0);
    procs::Options o;
    o.preemptions = c.tier() ? 2 : 1;
    int failing = c.choose(2);  // the first process cannot make
    bool other = !failing && c.flag(), saves = !failing && c.flag();
    o.crashes = !failing && !other && c.flag();
    fresh();
    fs::create_directory("root");
    std::vector<std::function<void()>> b;
    for (int i = 0; i < n; i++)
        b.push_back([=] {
            CacheManager<Traits<L>> m("loader", "root", false, 0);
            std::string key = other && i == 1 ? "k2" : "k1", v;
            Maker<L> maker(key, 20, saves, failing && i == 0);
            PathName p;
            try { p = m.getOrCreate(key, maker, v); }
            catch (UserError&) {
                PROC_CHECK(failing && i == 0, "process ", i, " fails");
                procs::ack("refused");
                return;
            }
            PROC_CHECK(v == content(key, 20), "process ", i, " is given '", v, "'");
            PROC_CHECK(getFile(p.asString()) == v, "the file of process ", i, " is not complete");
            procs::ack("got " + key);
        });
    auto r = procs::run(c, o, b);
    std::map<std::string, int> made;
    bool crashed = false;
    for (auto& a : r.acks) made[a.what]++;
    for (int i = 0; i < n; i++) {
        MC_CHECK(c, r.errors[size_t(i)].empty(), "process ", i, " fails: ", r.errors[size_t(i)]);
        crashed = crashed || r.crashed[size_t(i)];
    }
    // what is made once is not made again
    if (creates && !crashed && !failing)
        for (auto& k : made) MC_CHECK(c, k.first.compare(0, 4, "make") != 0 || k.second == 1, k.first, " ", k.second, " times");
    CacheManager<Traits<L>> m("loader", "root", false, 0);
    for (std::string key : {"k1", "k2"}) {
        bool was = made.count("got " + key);
        Maker<L> maker(key, 20, saves, was);
        std::string v;
        auto p = m.getOrCreate(key, maker, v);
        MC_CHECK(c, v == content(key, 20) && getFile(p.asString()) == v, "the value of ", key, " is '", v, "'");
    }
    removeSemaphore("root/cache/3/k1.ext.lock");
    removeSemaphore("root/cache/3/k2.ext.lock");
    c.outcome(mc::cat("kind ", kind));
    c.nontrivial();
}
}  // namespace
MC_SECTION("cache-processes", [](mc::Ctx& c) {
    int kind = c.choose(3);
    if (kind == 0) cacheProcesses<CacheManagerFileFlock>(c, 0, true);
    if (kind == 1) cacheProcesses<CacheManagerFileSemaphoreLock>(c, 1, true);
    if (kind == 2) cacheProcesses<NoLock>(c, 2, false);
}, opts(5));

// the size of a cache, and what is removed
MC_SECTION("cache-size", [](mc::Ctx& c) {
    static const std::vector<std::pair<std::string, size_t>> keys = {{"a", 30}, {"b", 40}, {"c", 50}, {"d", 60}};
    fresh();
    fs::create_directory("root");
    size_t max = c.pick(std::vector<size_t>{100, 130});
    int depth = c.tier() ? 7 : 6;
    std::map<std::string, time_t> used;
    now_ = 1000000;
    std::unique_ptr<CacheManager<Traits<CacheManagerFileFlock>>> m;
    for (int step = 0; step < depth; step++) {
        int op = c.choose(int(keys.size()) + (step ? 2 : 0));
        now_ += 10;
        if (op == int(keys.size())) break;
        if (op == int(keys.size()) + 1) {
            MC_LOG(c, "reopen");
            m.reset();
            continue;
        }
        if (!m) m.reset(new CacheManager<Traits<CacheManagerFileFlock>>("loader", "root", false, max));
        auto& k = keys[size_t(op)];
        std::string v;
        bool had = fs::exists("root/cache/3/" + k.first + ".ext");
        Maker<CacheManagerFileFlock> maker(k.first, k.second, step % 2, false);
        auto p = m->getOrCreate(k.first, maker, v);
        MC_LOG(c, "get ", k.first, had ? "" : " made");
        MC_CHECK(c, v == content(k.first, k.second) && getFile(p.asString()) == v, "the value of ", k.first);
        MC_CHECK(c, had == (used.count(k.first) > 0), k.first, " was ", had ? "there" : "not there");
        used[k.first] = now_;
        // the last used stay
        size_t total = 0;
        std::set<std::string> want;
        for (auto& u : used) total += keys[size_t(u.first[0] - 'a')].second;
        if (!had)
            while (total > max) {
                auto oldest = used.end();
                for (auto u = used.begin(); u != used.end(); ++u)
                    if (u->first != k.first && (oldest == used.end() || u->second < oldest->second)) oldest = u;
                if (oldest == used.end()) break;
                total -= keys[size_t(oldest->first[0] - 'a')].second;
                used.erase(oldest);
            }
        for (auto& u : used) want.insert(u.first + ".ext");
        std::set<std::string> got;
        for (auto& e : fs::directory_iterator("root/cache/3"))
            if (e.path().extension() == ".ext") got.insert(e.path().filename().string());
        auto show = [](const std::set<std::string>& s) { std::string r; for (auto& x : s) r += x + " "; return r; };
        MC_CHECK(c, got == want, "files ", show(got), "not ", show(want), "after ", k.first);
        c.step();
        c.state(show(got));
    }
    now_ = 0;
    c.nontrivial();
}, opts(3));

// --------------------------------------------------------------------------------------------------------------------
// a tree of keys written by processes, one at a time or not, and read by others
MC_SECTION("btree", [](mc::Ctx& c) {
    using Tree = BTree<FixedString<8>, long, 128, BTreeLock>;
    int mode = c.choose(4);     // keys of their own in order, mixed, the same keys, readers of a tree that is complete
    bool alone = mode == 3 || c.flag();  // a writer has the tree to itself
    procs::Options o;
    o.preemptions = c.tier() && alone ? 3 : 1;
    fresh();
    int n = 2, before = mode == 3 ? 5 : 2 * c.choose(3);
    auto key = [](int i) { char b[16]; snprintf(b, 9, "k%07d", i); return FixedString<8>(std::string(b)); };
    if (before) {
        Tree t("tree");
        for (int i = 0; i < before; i++) t.set(key(1000 + i), i);
    }
    std::vector<std::function<void()>> b;
    for (int i = 0; i < n; i++)
        b.push_back([=] {
            FileLock lock("session");
            if (mode == 3) {
                Tree t("tree", true);
                long v = -1;
                for (int k = 0; k < before; k++) PROC_CHECK(t.get(key(1000 + k), v) && v == k, "the key ", k, " has ", v);
                PROC_CHECK(!t.get(key(1), v) && t.count() == size_t(before), "a key that is not there, or the number of keys");
                return;
            }
            if (alone) lock.lock();
            procs::ack("open");
            {
                Tree t("tree");
                for (int k = 0; k < 4; k++) {
                    int id = mode == 0 ? 10 * (i + 1) + k : mode == 1 ? 10 + 2 * k + i : 10 + k;
                    t.set(key(id), 100 * i + id);
                    procs::ack(std::to_string(id));
                    long v = -1;
                    PROC_CHECK(t.get(key(id), v), "the key ", id, " is not there after it was set");
                    PROC_CHECK(v == 100 * i + id, "the value of ", id, " is ", v);
                }
            }
            procs::ack("closed");
            if (alone) lock.unlock();
        });
    auto r = procs::run(c, o, b);
    for (int i = 0; i < n; i++)
        MC_CHECK(c, r.errors[size_t(i)].empty(), "process ", i, " fails: ", r.errors[size_t(i)]);
    Tree t("tree", true);
    std::map<int, long> want;
    int open = 0;
    bool overlap = false;
    for (auto& a : r.acks) {
        if (a.what == "open") overlap |= ++open > 1;
        else if (a.what == "closed") open--;
        else want[std::stoi(a.what)] = 100 * a.proc + std::stoi(a.what);
    }
    MC_CHECK(c, !alone || !overlap, "two processes have the tree");
    for (int i = 0; i < before; i++) want[1000 + i] = i;
    std::string bad;
    for (auto& k : want) {
        long v = -1;
        if (!t.get(key(k.first), v)) bad += mc::cat("the key ", k.first, " is lost ");
        else if (v != k.second && !overlap) bad += mc::cat("the value of ", k.first, " is ", v);
    }
    if (t.count() != want.size()) bad += mc::cat("number of keys ", t.count());
    if (!bad.empty()) c.fail(bad, overlap ? "btree-sessions-overlap" : "");
    c.outcome(overlap ? "overlap" : "alone");
    c.nontrivial();
}, opts(4));

// --------------------------------------------------------------------------------------------------------------------
// a semaphore whose system calls are interrupted or fail
static std::function<int()> semFault_;
extern "C" int semop(int id, struct sembuf* ops, size_t n) {
    if (semFault_) {
        if (int e = semFault_()) {
            errno = e;
            return -1;
        }
    }
    return int(syscall(SYS_semop, id, ops, n));
}

MC_SECTION("interrupted", [](mc::Ctx& c) {
    int depth = c.tier() ? 7 : 5, budget = 2, level = 0, faults = 0;
    fresh();
    putFile("sem", "");
    removeSemaphore("sem");
    struct Restore { ~Restore() { semFault_ = nullptr; removeSemaphore("sem"); } } restore;
    {
        Semaphore s("sem");
        struct Release {
            Semaphore& s;
            int& level;
            ~Release() { for (semFault_ = nullptr; level > 0; --level) s.unlock(); }
        } release{s, level};
        for (int step = 0; step < depth; ++step) {
            int op = c.choose(level ? 4 : 3, "end/lock/try/unlock");
            if (!op) break;
            int hard = 0, soft = 0;
            semFault_ = [&] {
                if (faults >= budget) return 0;
                static const int errors[] = {0, EINTR, ENOMEM};
                int e = errors[c.chooseNoThrow(3, "call")];
                if (e) faults++;
                if (e == EINTR) soft++;
                if (e == ENOMEM) hard++;
                return e;
            };
            bool ok = true, threw = false;
            try {
                if (op == 1) s.lock();
                if (op == 2) ok = s.tryLock();
                if (op == 3) s.unlock();
            }
            catch (FailedSystemCall&) {
                threw = true;
            }
            semFault_ = nullptr;
            bool must = hard || (op == 2 && soft);
            MC_LOG(c, op == 1 ? "lock" : op == 2 ? "try" : "unlock", " interrupted ", soft, " failing ", hard, threw ? " throws" : "");
            MC_CHECK(c, threw == must, threw ? "an interrupted call fails" : "a failed call is not reported");
            MC_CHECK(c, ok, "the holder of a free semaphore could not lock it");
            if (!threw) level += op == 3 ? -1 : 1;
            // seen from another process
            int st;
            pid_t pid = fork();
            if (!pid) {
                Semaphore other("sem");
                bool got = other.tryLock();
                if (got) other.unlock();
                _exit(got);
            }
            while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            MC_CHECK(c, WIFEXITED(st) && WEXITSTATUS(st) == (level == 0), level ? "another process gets the lock" : "another process cannot get the lock", ", level ", level);
            c.step();
        }
    }
    if (faults) c.nontrivial();
    c.outcome(mc::cat(faults));
}, opts(3));

// --------------------------------------------------------------------------------------------------------------------
// arrays in memory shared by processes: opened together, each element added to under the lock
MC_SECTION("arrays", [](mc::Ctx& c) {
    bool shm = c.flag();
    int n = 2;
    procs::Options o;
    o.preemptions = c.tier() ? 3 : 2;
    o.crashes = c.choose(2);
    fresh();
    putFile("array", "");
    removeSemaphore("array");
    std::string name = mc::cat("/mc-d03-", getpid());
    shm_unlink(name.c_str());
    auto add = [](auto& a, int i) {
        for (int k = 0; k < 2; k++) {
            a.lock();
            PROC_CHECK(a.size() == 5 && a.end() - a.begin() == 5, "size of the array");
            for (auto& x : a) PROC_CHECK(x >= 0 && x <= 4, "an element is ", x);
            long v = a[3];
            procs::step();
            a[3] = v + 1;
            a[i]++;
            a.unlock();
            procs::ack("added");
        }
    };
    std::vector<std::function<void()>> b;
    for (int i = 0; i < n; i++)
        b.push_back([=] {
            if (shm) {
                SharedMemArray<long> a("array", name, 5);
                add(a, i);
            }
            else {
                MappedArray<long> a("array", 5);
                add(a, i);
            }
        });
    auto r = procs::run(c, o, b);
    bool crashed = false;
    for (int i = 0; i < n; i++) {
        MC_CHECK(c, r.errors[size_t(i)].empty(), "process ", i, " fails: ", r.errors[size_t(i)]);
        crashed = crashed || r.crashed[size_t(i)];
    }
    long got[5];
    if (shm) {
        SharedMemArray<long> a("array", name, 5);
        std::copy(a.begin(), a.end(), got);
    }
    else {
        MappedArray<long> a("array", 5);
        std::copy(a.begin(), a.end(), got);
    }
    shm_unlink(name.c_str());
    removeSemaphore("array");
    MC_CHECK(c, got[3] >= long(r.acks.size()) && got[3] <= 4 && got[2] == 0 && got[4] == 0, "the elements are ", got[0], " ", got[1], " ", got[2], " ", got[3], " ", got[4]);
    if (!crashed) MC_CHECK(c, got[3] == 4 && got[0] == 2 && got[1] == 2, "the elements are ", got[0], " ", got[1], " ", got[3]);
    c.nontrivial();
}, opts(4));
