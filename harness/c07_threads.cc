// C07: threads are started, stopped, awaited and deleted as promised; shared objects are deleted once, lazily made ones made once,
// per-thread ones belong to one thread; locks exclude and wake up
#include <array>
#include <memory>
#include "eckit/exception/Exceptions.h"
#include "eckit/memory/Counted.h"
#include "eckit/thread/AutoLock.h"
#include "eckit/thread/Mutex.h"
#include "eckit/thread/MutexCond.h"
#include "eckit/thread/Once.h"
#include "eckit/thread/StaticMutex.h"
#include "eckit/thread/Thread.h"
#include "eckit/thread/ThreadControler.h"
#include "eckit/thread/ThreadSingleton.h"
#include "mc/sched.h"
#include "common.h"

using namespace eckit;

namespace {

// a thread running a closure
struct Body : Thread {
    std::function<void()> f;
    explicit Body(std::function<void()> g) : f(std::move(g)) {}
    void run() override { f(); }
};

struct Crew {
    std::vector<std::unique_ptr<ThreadControler>> t;
    void add(std::function<void()> f) {
        t.emplace_back(new ThreadControler(new Body(std::move(f)), false));
        t.back()->start();
    }
    void wait() {
        for (auto& x : t) x->wait();
    }
};

}  // namespace

//----------------------------------------------------------------------------------------------------------------------

namespace {

struct Shared : Counted {
    int* deleted;
    int* inUse;
    int tag = 42;
    Shared(int* d, int* u) : deleted(d), inUse(u) {}
    ~Shared() override {
        mcs::point("deleting");
        mcs::Book b;
        MCS_CHECK(*inUse == 0, "deleted while another thread is using it");
        MCS_CHECK(++*deleted == 1, "deleted twice");
        tag = 0;
    }
};

}  // namespace

MC_SECTION("counted", [](mc::Ctx& c) {
    // each thread begins with one reference; '+': another, '-': one less (and all are given up in the end)
    int n = 2 + (c.tier() ? c.choose(2, "threads") : 0);
    static const std::vector<std::string> programs = {"", "+", "+-", "u", "+-u", "++"};
    std::vector<std::string> p;
    for (int i = 0; i < n; ++i) p.push_back(programs[c.choose(int(programs.size()), "program")]);
    int owner = c.choose(2, "the maker keeps a reference");
    mcs::Options o;
    o.preemptions = n == 2 && c.tier() ? 3 : 2;
    MC_LOG(c, n, " threads: ", p[0], " / ", p[1], n > 2 ? " / " + p[2] : "");
    mcs::run(c, o, [&]() {
        int deleted = 0, inUse = 0;
        auto* s     = new Shared(&deleted, &inUse);
        for (int i = 0; i < n + owner; ++i) s->attach();
        Crew crew;
        for (int i = 0; i < n; ++i) {
            crew.add([&, i] {
                int held = 1;
                auto use = [&] {
                    { mcs::Book b; MCS_CHECK(deleted == 0, "deleted although thread ", i, " has a reference"); inUse++; }
                    mcs::point("using");
                    { mcs::Book b; MCS_CHECK(s->tag == 42, "used after it was deleted"); inUse--; }
                };
                for (char op : p[i]) {
                    if (op == '+') s->attach(), held++;
                    if (op == '-') s->detach(), held--;
                    use();
                }
                while (held--) s->detach();
            });
        }
        crew.wait();
        mcs::Book b;
        MCS_CHECK(deleted == 1 - owner, owner ? "deleted although its maker has a reference" : "never deleted");
        if (owner) {
            MCS_CHECK(s->count() == 1, "count() is ", s->count());
            s->detach();
            MCS_CHECK(deleted == 1, "never deleted");
        }
    });
    c.nontrivial();
    c.outcome(mc::cat(p[0], "/", p[1]));
}, opts(2));

//----------------------------------------------------------------------------------------------------------------------

namespace {

int made_, failing_;
struct Lazy {
    int value = 0;
    Lazy() {
        {
            mcs::Book b;
            MCS_CHECK(made_ == 0, "made twice");
        }
        mcs::point("making");
        bool fails;
        {
            mcs::Book b;
            fails = failing_ > 0;
            if (fails) failing_--;
        }
        if (fails) throw UserError("cannot be made", Here());
        mcs::point("made");
        mcs::Book b;
        MCS_CHECK(++made_ == 1, "made twice");
        value = 7;
    }
};

}  // namespace

MC_SECTION("once", [](mc::Ctx& c) {
    int n        = 2 + c.choose(2, "threads");
    int uses     = n == 2 ? 2 : 1;
    int failures = c.choose(3, "times it cannot be made");
    mcs::Options o;
    o.preemptions = c.tier() ? 4 : n == 2 ? 3 : 2;
    MC_LOG(c, n, " threads, ", failures, " failures");
    mcs::run(c, o, [&]() {
        made_ = 0, failing_ = failures;
        auto* once = new Once<Lazy>;
        std::vector<Lazy*> got(size_t(n) + 1);
        int failed = 0;
        auto use = [&](size_t i) {
            for (int k = 0; k < uses; ++k) {
                try {
                    Lazy& l = *once;
                    mcs::Book b;
                    MCS_CHECK(l.value == 7, "used before it was made");
                    MCS_CHECK(!got[i] || got[i] == &l, "another object the second time");
                    got[i] = &l;
                }
                catch (UserError&) {
                    mcs::Book b;
                    failed++;
                }
            }
        };
        Crew crew;
        for (int i = 0; i < n; ++i) crew.add([&, i] { use(size_t(i)); });
        crew.wait();
        use(size_t(n));
        mcs::Book b;
        MCS_CHECK(failed == failures, failed, " of ", failures, " failures were reported");
        MCS_CHECK(made_ == 1, "made ", made_, " times");
        for (auto* g : got) MCS_CHECK(!g || g == got.back(), "two threads have different objects");
        delete got.back();
        delete once;
    });
    c.nontrivial();
    c.outcome(mc::cat(n, failures));
}, opts(2));

//----------------------------------------------------------------------------------------------------------------------

namespace {

std::map<void*, int> own_;
int living_, broken_;

template <int K>
struct PerThread {
    int who;
    int uses = 0;
    explicit PerThread(int start = 0) : uses(start) {
        mcs::point("making");
        mcs::Book b;
        if (broken_) {
            broken_--;
            throw UserError("cannot be made", Here());
        }
        who = mcs::self();
        living_++;
    }
    ~PerThread() {
        mcs::Book b;
        MCS_CHECK(who == mcs::self(), "the object of thread ", who, " is deleted by thread ", mcs::self());
        living_--;
    }
};

}  // namespace

MC_SECTION("singleton", [](mc::Ctx& c) {
    int n     = 2 + (c.tier() ? c.choose(2, "threads") : 0);
    int uses  = 1 + c.choose(2, "uses");
    int start = c.choose(2, "with an allocator");
    int fails = c.choose(2, "cannot be made the first time");
    int mine  = c.choose(2, "used by its owner");
    int later = c.choose(2, "used by a second generation");
    mcs::Options o;
    o.preemptions = 2;
    MC_LOG(c, n, " threads, ", uses, " uses, start ", start, fails ? " fails first" : "", mine ? " used by its owner" : "");
    auto body = [&](auto& single) {
        living_ = 0, broken_ = fails;
        int failed = 0;
        auto use = [&] {
            decltype(&single.instance()) p = nullptr;
            int seen = 0;
            for (int k = 0; k < uses + 1; ++k) {
                try {
                    auto& s = single.instance();
                    mcs::Book b;
                    MCS_CHECK(s.who == mcs::self(), "thread ", mcs::self(), " is given the object of thread ", s.who);
                    MCS_CHECK(!p || p == &s, "another object the second time");
                    p = &s;
                    MCS_CHECK(s.uses++ == seen++ + (start ? 5 : 0), "the object was used by another thread");
                }
                catch (UserError&) {
                    mcs::Book b;
                    failed++;
                }
            }
        };
        for (int g = 0; g <= later; ++g) {
            Crew crew;
            for (int i = 0; i < n; ++i) crew.add(use);
            if (mine && !g) use();
            crew.wait();
            mcs::Book b;
            MCS_CHECK(living_ == mine, living_ - mine, " objects of threads which have ended are left");
        }
        MCS_CHECK(failed == fails, "a failure was not reported");
    };
    mcs::run(c, o, [&]() {
        if (start) {
            ThreadSingleton<PerThread<1>, NewAlloc1<PerThread<1>, int>> s(NewAlloc1<PerThread<1>, int>(5));
            body(s);
        }
        else {
            ThreadSingleton<PerThread<0>> s;
            body(s);
        }
        mcs::Book b;
        MCS_CHECK(living_ == 0, living_, " objects are left in the end");
    });
    c.nontrivial();
    c.outcome(mc::cat(n, uses, start, fails, mine, later));
}, opts(2));

//----------------------------------------------------------------------------------------------------------------------

namespace {

struct Life {
    int begun = 0, ended = 0, deleted = 0, stops = 0;
};

struct Worker : Thread {
    Life& life;
    int kind;  // 0 returns, 1 throws, 2 until stopped
    Worker(Life& l, int k, bool autodel) : Thread(autodel), life(l), kind(k) {}
    void run() override {
        { mcs::Book b; MCS_CHECK(++life.begun == 1, "run twice"); MCS_CHECK(!life.deleted, "run after it was deleted"); }
        mcs::point("running");
        if (kind == 2)
            while (!stopped()) mcs::blockUntil([this] { return life.stops > 0; }, "work");
        { mcs::Book b; life.ended++; }
        if (kind == 1) throw UserError("the thread fails", Here());
    }
    ~Worker() override {
        mcs::Book b;
        MCS_CHECK(++life.deleted == 1, "deleted twice");
        MCS_CHECK(life.begun == life.ended, "deleted while it is running");
    }
};

}  // namespace

MC_SECTION("threads", [](mc::Ctx& c) {
    int n = 1 + c.choose(2, "threads");
    struct Plan { int kind, detached, autodel, started, early; };
    std::vector<Plan> plan;
    for (int i = 0; i < n; ++i) {
        Plan p{};
        p.kind     = c.choose(3, "returns/throws/until stopped");
        p.started  = !c.flag("never started");
        p.detached = c.flag("detached");
        p.autodel  = p.detached || !p.started || !c.flag("deleted by its owner");
        p.early    = p.started && c.flag("controller goes first");
        if (p.kind == 2 && (p.detached || p.early)) c.reject();  // cannot be stopped
        if (p.kind == 2 && !p.started) c.reject();
        if (p.early && !p.detached) c.reject();  // nobody would wait for it
        plan.push_back(p);
    }
    mcs::Options o;
    o.preemptions = c.tier() ? 3 : 2;
    mcs::run(c, o, [&]() {
        std::vector<Life> life((size_t(n)));
        std::vector<Worker*> w;
        std::vector<std::unique_ptr<ThreadControler>> t;
        for (size_t i = 0; i < size_t(n); ++i) {
            w.push_back(new Worker(life[i], plan[i].kind, plan[i].autodel));
            t.emplace_back(new ThreadControler(w[i], plan[i].detached));
            { mcs::Book b; MCS_CHECK(!t[i]->active(), "active before it is started"); }
        }
        for (size_t i = 0; i < size_t(n); ++i) {
            if (!plan[i].started) continue;
            t[i]->start();
            if (plan[i].early) t[i].reset();
        }
        for (size_t i = 0; i < size_t(n); ++i) {
            if (plan[i].started && !plan[i].detached) {
                if (plan[i].kind == 2) {
                    { mcs::Book b; MCS_CHECK(!life[i].ended, "ended before it was stopped"); }
                    t[i]->stop();
                    mcs::Book b;
                    life[i].stops++;
                }
                t[i]->wait();
                mcs::Book b;
                MCS_CHECK(life[i].ended == 1, "wait() returned before the thread had ended");
                MCS_CHECK(life[i].deleted == plan[i].autodel, plan[i].autodel ? "not deleted at its end" : "deleted although it belongs to its owner");
            }
            t[i].reset();
            mcs::Book b;
            if (!plan[i].started) MCS_CHECK(life[i].deleted == 1 && !life[i].begun, "a thread never started is deleted ", life[i].deleted, " times and run ", life[i].begun, " times");
            else if (!plan[i].autodel) {
                MCS_CHECK(!life[i].deleted, "deleted although it belongs to its owner");
                delete w[i];
            }
        }
        mcs::waitIdle();
        mcs::Book b;
        for (size_t i = 0; i < size_t(n); ++i) {
            MCS_CHECK(life[i].ended == plan[i].started, "ran to its end ", life[i].ended, " times");
            MCS_CHECK(life[i].deleted == 1, "deleted ", life[i].deleted, " times");
        }
    });
    c.nontrivial();
    c.outcome(mc::cat(n, plan[0].kind, plan[0].detached, plan[0].autodel, plan[0].started));
}, opts(2));

//----------------------------------------------------------------------------------------------------------------------

// Mutex is recursive, tryLock never waits, and locks are given back by whatever way the block is left
template <class M>
static void locks(mc::Ctx& c, const std::vector<std::string>& programs, int kind) {
    int n = 2 + (c.tier() ? c.choose(2, "threads") : 0);
    std::vector<std::string> p;
    for (int i = 0; i < n; ++i) p.push_back(programs[c.choose(int(programs.size()), "program")]);
    mcs::Options o;
    o.preemptions = n == 2 ? 3 : 2;
    MC_LOG(c, n, " threads: ", p[0], " / ", p[1], n > 2 ? " / " + p[2] : "");
    mcs::run(c, o, [&]() {
        static StaticMutex forever;
        std::unique_ptr<M> made;
        M* m;
        if constexpr (std::is_same_v<M, StaticMutex>) m = &forever;
        else made.reset(new M), m = made.get();
        int inside = -1, depth = 0, plain = 0, expect = 0;
        Crew crew;
        for (int i = 0; i < n; ++i) {
            crew.add([&, i] {
                int held  = 0;
                auto enter = [&] {
                    { mcs::Book b; MCS_CHECK(inside < 0 || inside == i, "threads ", inside, " and ", i, " hold the mutex"); inside = i; depth++; held++; expect++; }
                    int v = plain;  // unsynchronised otherwise: the race detector watches
                    mcs::point("inside");
                    plain = v + 1;
                };
                auto leave = [&] { mcs::Book b; MCS_CHECK(inside == i && depth == held, "somebody else came in"); held--; if (!--depth) inside = -1; };
                for (char op : p[i]) {
                    if (op == 'l') m->lock(), enter();
                    if (op == 'u') leave(), m->unlock();
                    if constexpr (std::is_same_v<M, Mutex>) {
                        if (op == 't') {
                            bool mineAlready = held > 0;
                            if (m->tryLock()) {
                                enter();
                                leave();
                                m->unlock();
                            }
                            else MCS_CHECK(!mineAlready, "the holder could not lock it again");
                        }
                    }
                    if (op == 'x') {
                        try {
                            AutoLock<M> a(m);
                            struct Out { std::function<void()> f; ~Out() { f(); } } out{leave};
                            enter();
                            throw UserError("out", Here());
                        }
                        catch (UserError&) {
                        }
                    }
                }
            });
        }
        crew.wait();
        if constexpr (std::is_same_v<M, Mutex>) {
            MCS_CHECK(m->tryLock(), "the mutex is still locked in the end");
            m->unlock();
        }
        mcs::Book b;
        MCS_CHECK(plain == expect, "updates were lost");
    });
    c.nontrivial();
    c.outcome(mc::cat(kind, p[0], "/", p[1]));
}

MC_SECTION("mutex", [](mc::Ctx& c) { locks<Mutex>(c, {"lu", "lluu", "t", "ltu", "x", "lxu", "tlu"}, 0); }, opts(2));
MC_SECTION("static-mutex", [](mc::Ctx& c) { locks<StaticMutex>(c, {"lu", "lluu", "x", "lxu"}, 1); }, opts(2));

//----------------------------------------------------------------------------------------------------------------------

// tokens handed out under a condition: nobody waits while there is a token for them
MC_SECTION("condition", [](mc::Ctx& c) {
    int takers = 1 + c.choose(2, "takers");
    int givers = 1 + c.choose(2, "givers");
    int each   = givers == 1 ? 1 + c.choose(2, "tokens each") : 1;
    int all    = c.flag("broadcast");
    int timed  = c.flag("waits are timed");
    mcs::Options o;
    o.preemptions = c.tier() || takers + givers == 2 ? 2 : 1;
    o.spurious    = takers + givers == 2;
    if (!c.tier() && timed && takers + givers > 3) c.reject();
    MC_LOG(c, takers, " takers, ", givers, " givers of ", each, all ? " broadcast" : " signal", timed ? " timed" : "");
    mcs::run(c, o, [&]() {
        auto m = std::make_unique<MutexCond>();
        int tokens = 0, taken = 0, timeouts = 0;
        bool over = false;
        Crew crew;
        for (int i = 0; i < takers; ++i) {
            crew.add([&] {
                for (;;) {
                    AutoLock<MutexCond> lock(*m);
                    int patience = 2;
                    while (!tokens && !over) {
                        if (timed && patience) {
                            if (m->wait(1)) {
                                patience--;
                                mcs::Book b;
                                timeouts++;
                            }
                        }
                        else m->wait();
                    }
                    if (tokens) tokens--, taken++;
                    else return;
                }
            });
        }
        Crew give;
        for (int i = 0; i < givers; ++i) {
            give.add([&] {
                for (int k = 0; k < each; ++k) {
                    AutoLock<MutexCond> lock(*m);
                    tokens++;
                    if (all) m->broadcast();
                    else m->signal();
                }
            });
        }
        give.wait();
        mcs::waitIdle();
        {
            AutoLock<MutexCond> lock(*m);
            MCS_CHECK(tokens == 0 && taken == givers * each, "everybody waits while there are ", tokens, " tokens");
            over = true;
            m->broadcast();
        }
        crew.wait();
    });
    c.nontrivial();
    c.outcome(mc::cat(takers, givers, each, all, timed));
}, opts(2));

