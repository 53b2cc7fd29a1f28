// C06: the pool of open files gives a file to one user at a time, releases waiters, keeps the most recent ones open
#include <dirent.h>
#include <errno.h>
#include <sys/syscall.h>
#include <algorithm>
#include <thread>
#include "eckit/filesystem/PathName.h"
#include "eckit/io/DataHandle.h"
#include "eckit/io/FilePool.h"
#include "mc/sched.h"
#include "common.h"

using namespace eckit;

static bool gFailSync = false;

extern "C" int fsync(int fd) {
    if (gFailSync) {
        gFailSync = false;
        errno     = EIO;
        return -1;
    }
    return 0;
}

namespace {

const char* names[] = {"fA", "fB", "fC"};

std::string path(int i) {
    return mc::ctx().scratch() + "/" + names[i];
}

// how many descriptors of this process are on the file
int openOn(int i) {
    int n   = 0;
    DIR* d  = ::opendir("/proc/self/fd");
    std::string p = path(i);
    while (auto* e = ::readdir(d)) {
        char b[1024];
        ssize_t k = ::readlink((std::string("/proc/self/fd/") + e->d_name).c_str(), b, sizeof(b));
        if (k > 0) {
            std::string l(b, k);
            if (l == p || l == p + " (deleted)") n++;
        }
    }
    ::closedir(d);
    return n;
}

enum Kind { OutA, OutB, OutAB, OutAA, RemoveA, RemoveB, Cap0, Cap2, NKIND };
const char* kinds[] = {"write A", "write B", "write A, B", "write A twice", "remove A", "remove B", "capacity 0", "capacity 2"};

struct World {
    FilePool pool;
    int user[2]   = {-1, -1};  // who has the file
    std::string text[2];
    int waiting[4] = {-1, -1, -1, -1};
    bool done[4]   = {};
    World(size_t n) : pool(n) {}

    void use(int t, int f) {
        {
            mcs::Book b;
            waiting[t] = f;
        }
        DataHandle* h = pool.checkout(PathName(path(f)));
        {
            mcs::Book b;
            waiting[t] = -1;
            MCS_CHECK(user[f] < 0, "file ", names[f], " was given to thread ", t, " while thread ", user[f], " has it");
            user[f] = t;
        }
        char x = 'a' + t;
        MCS_CHECK(h->write(&x, 1) == 1, "cannot write");
        mcs::point("using");
        {
            mcs::Book b;
            text[f] += x;
            user[f] = -1;
        }
        pool.checkin(h);
    }
    void remove(int t, int f) {
        {
            mcs::Book b;
            waiting[t] = f;
        }
        pool.remove(PathName(path(f)));
        mcs::Book b;
        waiting[t] = -1;
    }
    void exec(int t, Kind k) {
        switch (k) {
            case OutA: use(t, 0); break;
            case OutB: use(t, 1); break;
            case OutAB: use(t, 0); use(t, 1); break;
            case OutAA: use(t, 0); use(t, 0); break;
            case RemoveA: remove(t, 0); break;
            case RemoveB: remove(t, 1); break;
            case Cap0: pool.capacity(0); break;
            case Cap2: pool.capacity(2); break;
            default: break;
        }
        mcs::Book b;
        done[t] = true;
    }
};

void clean() {
    for (int i = 0; i < 3; i++) ::unlink(path(i).c_str());
    gFailSync = false;
}

}  // namespace

// the main thread holds one or two files, and returns them one by one
MC_SECTION("threads", [](mc::Ctx& c) {
    clean();
    size_t cap = c.pick({1, 0, 2});
    int held   = c.choose(3, "held");  // none, A, A and B
    Kind a = Kind(c.choose(NKIND, "first")), b = Kind(c.choose(NKIND, "second"));
    if (a > b) c.reject();
    if (!c.tier() && held && (a >= Cap0 || b >= Cap0)) c.reject();
    bool backwards = held == 2 && c.flag("B first");
    MC_LOG(c, "capacity ", cap, ", main has ", held, " files; ", kinds[a], " | ", kinds[b], backwards ? ", B returned first" : "");
    mcs::Options o;
    o.preemptions = c.tier() ? 2 : 1;
    World* w = new World(cap);
    mcs::run(c, o, [&]() {
        DataHandle* h[2] = {nullptr, nullptr};
        for (int i = 0; i < held; i++) {
            h[i]       = w->pool.checkout(PathName(path(i)));
            w->user[i] = 3;
        }
        std::vector<std::thread> th;
        Kind k[2] = {a, b};
        for (int t = 0; t < 2; t++) {
            Kind kk = k[t];
            th.emplace_back([w, t, kk]() { w->exec(t, kk); });
        }
        auto idle = [&]() {
            mcs::waitIdle();
            mcs::Book bk;
            for (int t = 0; t < 2; t++) {
                int f = w->waiting[t];
                MCS_CHECK(w->done[t] || (f >= 0 && w->user[f] >= 0), "thread ", t, " is blocked for ever, though ", f >= 0 ? names[f] : "?", " is free");
            }
        };
        bool early = held && c.flag("wait before returning");
        if (early) idle();
        for (int i = 0; i < held; i++) {
            int f = backwards ? 1 - i : i;
            {
                mcs::Book bk;
                w->user[f] = -1;
            }
            w->pool.checkin(h[f]);
            if (i + 1 < held) idle();
        }
        idle();
        for (auto& t : th) t.join();
    });
    MC_CHECK(c, w->pool.usage() == 0, w->pool.usage(), " files still in use");
    MC_CHECK(c, w->pool.size() <= w->pool.capacity(), w->pool.size(), " files kept, capacity ", w->pool.capacity());
    int open = openOn(0) + openOn(1);
    MC_CHECK(c, open == int(w->pool.size()), open, " files are open, the pool says ", w->pool.size());
    auto is = [&](Kind k) { return a == k || b == k; };
    if (is(RemoveA) && !is(OutA) && !is(OutAB) && !is(OutAA)) MC_CHECK(c, openOn(0) == 0, "file fA is kept open after its removal from the pool");
    if (is(RemoveB) && !is(OutB) && !is(OutAB)) MC_CHECK(c, openOn(1) == 0, "file fB is kept open after its removal from the pool");
    std::string text[2] = {w->text[0], w->text[1]};
    delete w;
    for (int i = 0; i < 2; i++) {
        MC_CHECK(c, openOn(i) == 0, "a file is still open");
        MC_CHECK(c, getFile(path(i)) == text[i], "the file has ", mc::quote(getFile(path(i))), " instead of ", mc::quote(text[i]));
    }
    c.outcome(text[0] + "/" + text[1]);
}, opts(4));

// one user, sequences of operations against a model
namespace {
struct Model {
    size_t cap;
    std::vector<int> cache;  // most recent first
    bool used[3] = {};
    bool inCache(int f) const { return std::find(cache.begin(), cache.end(), f) != cache.end(); }
    void drop(int f) { cache.erase(std::remove(cache.begin(), cache.end(), f), cache.end()); }
    void trim() {
        while (cache.size() > cap) cache.pop_back();
    }
};

void sequence(mc::Ctx& c, int depth, bool faults) {
    clean();
    Model m;
    m.cap = c.pick({1, 2, 0});
    auto pool = std::make_unique<FilePool>(m.cap);
    struct Used {
        DataHandle* h[3] = {};
        DataHandle*& operator[](int i) { return h[i]; }
        ~Used() {
            for (auto x : h)
                if (x) {
                    x->close();
                    delete x;
                }
        }
    } h;
    struct Off {
        ~Off() { gFailSync = false; }
    } off;
    std::string text[3];
    int files = c.tier() ? 3 : 2 + (depth <= 5);
    int fault = faults ? 1 : 0;
    bool unlinked[3] = {};
    bool wrote[3] = {};
    for (int d = 0; d < depth; d++) {
        int op = c.choose(4 * files + 3 + fault, "op");
        std::string err;
        bool failing = false;
        if (op == 4 * files + 3) {
            // the next time a file is closed, it fails
            fault     = 0;
            gFailSync = true;
            MC_LOG(c, "the next close fails");
            continue;
        }
        int f = op / 4;
        try {
            if (op < 4 * files) switch (op % 4) {
                case 0:
                    if (m.used[f]) c.reject();
                    MC_LOG(c, "checkout ", names[f]);
                    h[f] = pool->checkout(PathName(path(f)));
                    m.drop(f);
                    m.used[f] = true;
                    if (unlinked[f]) {
                        text[f].clear();
                        unlinked[f] = false;
                    }
                    {
                        char x = '0' + d;
                        MC_CHECK(c, h[f]->write(&x, 1) == 1, "cannot write");
                        text[f] += x;
                        wrote[f] = true;
                    }
                    break;
                case 1: {
                    if (!m.used[f]) c.reject();
                    MC_LOG(c, "checkin ", names[f]);
                    auto* x = h[f];
                    h[f]    = nullptr;
                    m.used[f] = false;
                    m.cache.insert(m.cache.begin(), f);
                    m.trim();
                    pool->checkin(x);
                    break;
                }
                case 2: {
                    if (m.used[f]) c.reject();
                    MC_LOG(c, "remove ", names[f]);
                    bool e = m.inCache(f);
                    m.drop(f);
                    bool r = pool->remove(PathName(path(f)));
                    MC_CHECK(c, r == e, "remove says ", r);
                    break;
                }
                case 3:
                    if (m.used[f] || unlinked[f] || !fileExists(path(f))) c.reject();
                    MC_LOG(c, "the file ", names[f], " is deleted");
                    ::unlink(path(f).c_str());
                    unlinked[f] = true;
                    break;
            }
            else {
                m.cap = op - 4 * files;
                if (m.cap == pool->capacity()) c.reject();
                MC_LOG(c, "capacity ", m.cap);
                m.trim();
                pool->capacity(m.cap);
            }
        }
        catch (mc::Violation&) {
            throw;
        }
        catch (std::exception& e) {
            MC_LOG(c, "  fails: ", e.what());
            MC_CHECK(c, faults && !gFailSync && !fault, "unexpected failure: ", e.what());
            MC_CHECK(c, !failing, "failed twice");
            failing = true;
            fault   = -1000;
        }
        if (fault > -1000) {
            size_t used = m.used[0] + m.used[1] + m.used[2];
            MC_CHECK(c, pool->usage() == used, "usage() is ", pool->usage(), " instead of ", used);
            MC_CHECK(c, pool->size() == m.cache.size(), "size() is ", pool->size(), " instead of ", m.cache.size());
            for (int i = 0; i < files; i++)
                MC_CHECK(c, openOn(i) == int(m.used[i] || m.inCache(i)), "file ", names[i], " is open ", openOn(i), " times");
        }
        else {
            // the failure was reported; whatever is used is still in use, and the pool goes on
            size_t used = m.used[0] + m.used[1] + m.used[2];
            if (!failing || (op < 4 * files && op % 4 == 1)) MC_CHECK(c, pool->usage() == used, "after the failure, usage() is ", pool->usage(), " instead of ", used);
            if (failing) {
                for (int i = 0; i < files; i++) {
                    if (m.used[i]) continue;
                    DataHandle* x = pool->checkout(PathName(path(i)));
                    char y = 'z';
                    MC_CHECK(c, x->write(&y, 1) == 1, "cannot write");
                    pool->checkin(x);
                    MC_CHECK(c, !getFile(path(i)).empty() && getFile(path(i)).back() == 'z', "file ", names[i], " was not written after the failure");
                }
            }
            break;
        }
        fault = fault ? fault : 0;
        std::string s = mc::cat(m.cap, m.used[0], m.used[1], m.used[2], unlinked[0], unlinked[1], unlinked[2], ":");
        for (int i : m.cache) s += char('0' + i);
        c.state(s);
    }
    bool failed = fault == -1000;
    gFailSync = false;
    for (int i = 0; i < 3; i++)
        if (h[i]) {
            auto x = h[i];
            h[i]   = nullptr;
            pool->checkin(x);
        }
    pool.reset();
    if (failed) {
        // whatever could not be closed properly keeps its descriptor
        for (int i = 0; i < 3; i++) {
            DIR* dd = ::opendir("/proc/self/fd");
            std::vector<int> fds;
            while (auto* e = ::readdir(dd)) {
                char b[1024];
                ssize_t k = ::readlink((std::string("/proc/self/fd/") + e->d_name).c_str(), b, sizeof(b));
                if (k > 0 && std::string(b, k).compare(0, path(i).size(), path(i)) == 0) fds.push_back(atoi(e->d_name));
            }
            ::closedir(dd);
            for (int fd : fds) ::close(fd);
        }
        return;
    }
    for (int i = 0; i < files; i++) {
        MC_CHECK(c, openOn(i) == 0, "a file is still open");
        if (!unlinked[i]) MC_CHECK(c, getFile(path(i)) == text[i], "file ", names[i], " has ", mc::quote(getFile(path(i))), " instead of ", mc::quote(text[i]));
    }
}
}  // namespace

MC_SECTION("sequences", [](mc::Ctx& c) { sequence(c, c.tier() ? 6 : 5, false); }, opts(3));
MC_SECTION("failing close", [](mc::Ctx& c) { sequence(c, c.tier() ? 6 : 5, true); }, opts(3));
