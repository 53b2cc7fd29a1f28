// C02: thread pool - every task runs exactly once and is deleted exactly once; waits do not return early, never hang
#include <list>
#include <thread>

#include "eckit/thread/ThreadPool.h"
#include "mc/sched.h"
#include "common.h"

using namespace eckit;

namespace {

struct Tally {
    int run = 0, deleted = 0;
    bool fails = false, pushed = false;
};

struct World {
    std::vector<Tally> t;
    ThreadPool* pool = nullptr;
    int add(bool fails) {
        t.push_back(Tally());
        t.back().fails = fails;
        return int(t.size()) - 1;
    }
};

class Task : public ThreadPoolTask {
public:
    Task(World& w, int id, bool fails, bool spawns = false) : w_(w), id_(id), fails_(fails), spawns_(spawns) {}
    ~Task() override {
        mcs::point("deleting a task");
        mcs::Book b;
        w_.t[id_].deleted++;
        MCS_CHECK(w_.t[id_].deleted == 1, "task ", id_, " deleted twice");
    }
    void execute() override {
        {
            mcs::Book b;
            w_.t[id_].run++;
            MCS_CHECK(w_.t[id_].run == 1, "task ", id_, " executed twice");
        }
        mcs::point("in task");
        if (spawns_) {
            Task* t;
            {
                mcs::Book b;
                int id = w_.add(false);
                t      = new Task(w_, id, false);
                w_.t[id].pushed = true;
            }
            pool().push(t);
        }
        if (fails_) {
            throw eckit::UserError(mc::cat("failure-of-", id_, "-"));
        }
    }

private:
    World& w_;
    int id_;
    bool fails_, spawns_;
};

enum Op { P, F, S, L2, W, R1, R2, NOP };
const char* names[] = {"push", "push-failing", "push-spawning", "push-list(2)", "wait", "resize(1)", "resize(2)", ""};

void allDone(World& w, const std::vector<bool>& mustBeDone, const char* after) {
    mcs::Book b;
    for (size_t i = 0; i < mustBeDone.size(); ++i) {
        if (mustBeDone[i]) {
            MCS_CHECK(w.t[i].run == 1, after, " returned although task ", i, " (pushed before) has run ", w.t[i].run, " times");
            MCS_CHECK(w.t[i].deleted == 1, after, " returned although task ", i, " (pushed before) has been deleted ", w.t[i].deleted, " times");
        }
    }
}

std::vector<bool> pushedNow(World& w) {
    mcs::Book b;
    std::vector<bool> v;
    for (auto& t : w.t) v.push_back(t.pushed);
    return v;
}

void doOp(World& w, Op op) {
    switch (op) {
        case P:
        case F:
        case S: {
            int id;
            Task* t;
            {
                mcs::Book b;
                id = w.add(op == F);
                t  = new Task(w, id, op == F, op == S);
            }
            w.pool->push(t);
            mcs::Book b;
            w.t[id].pushed = true;
            break;
        }
        case L2: {
            std::list<ThreadPoolTask*> l;
            int a, b2;
            {
                mcs::Book b;
                a  = w.add(false);
                b2 = w.add(false);
            }
            l.push_back(new Task(w, a, false));
            l.push_back(new Task(w, b2, false));
            w.pool->push(l);
            mcs::Book b;
            MCS_CHECK(l.empty(), "push(list) left tasks in the caller's list");
            w.t[a].pushed = w.t[b2].pushed = true;
            break;
        }
        case W: {
            auto before = pushedNow(w);
            w.pool->wait();
            allDone(w, before, "wait()");
            break;
        }
        case R1: w.pool->resize(1); break;
        case R2: w.pool->resize(2); break;
        default: break;
    }
}

// ending: 0 delete, 1 waitForThreads + delete, 2 wait + delete
void scenario(mc::Ctx& c, int size, const std::vector<Op>& prog, const std::vector<Op>& other, int ending, int preempt) {
    mcs::Options o;
    o.preemptions = preempt;
    if (c.tracing()) {
        std::string s = mc::cat("pool of ", size, "; main:");
        for (auto k : prog) s += mc::cat(" ", names[k]);
        if (!other.empty()) {
            s += "; other producer:";
            for (auto k : other) s += mc::cat(" ", names[k]);
        }
        s += ending == 0 ? "; destroy" : ending == 1 ? "; waitForThreads; destroy" : "; wait; destroy";
        c.log(s);
    }
    World w;
    std::string errors;
    bool threw = false, resized = false;
    for (auto k : prog) resized = resized || k == R1 || k == R2;
    mcs::run(c, o, [&]() {
        w.pool = new ThreadPool("pool", size);
        std::thread th;
        if (!other.empty()) {
            th = std::thread([&]() {
                for (auto k : other) doOp(w, k);
            });
        }
        for (auto k : prog) doOp(w, k);
        if (!other.empty()) th.join();
        auto before = pushedNow(w);
        if (ending == 2) {
            w.pool->wait();
            allDone(w, before, "wait()");
            bool d = w.pool->done();
            MCS_CHECK(d || resized, "done() is false after wait() with no task pushed since");
        }
        if (ending == 1) {
            try {
                w.pool->waitForThreads();
            }
            catch (eckit::Exception& e) {
                threw  = true;
                errors = e.what();
            }
            allDone(w, before, "waitForThreads()");
            // what has been reported is not reported again
            if (threw) {
                try {
                    w.pool->waitForThreads();
                }
                catch (eckit::Exception& e) {
                    MCS_CHECK(false, "waitForThreads() reports a failure again: ", e.what());
                }
            }
        }
        delete w.pool;
        allDone(w, before, "the destructor");
    });
    std::string res;
    for (size_t i = 0; i < w.t.size(); ++i) {
        MC_CHECK(c, w.t[i].run == 1 && w.t[i].deleted == 1, "task ", i, " run ", w.t[i].run, " times, deleted ", w.t[i].deleted, " times in the end");
        if (ending == 1 && w.t[i].fails) {
            MC_CHECK(c, threw, "a task failed but waitForThreads() did not report it");
            MC_CHECK(c, errors.find(mc::cat("failure-of-", i, "-")) != std::string::npos, "the failure of task ", i, " is not in the report: ", errors);
        }
        res += mc::cat(w.t[i].fails ? "f" : "t");
    }
    if (ending == 1 && threw) {
        bool any = false;
        for (auto& t : w.t) any = any || t.fails;
        MC_CHECK(c, any, "waitForThreads() reports an error although no task failed: ", errors);
    }
    c.state(mc::cat(size, res, ending, threw, errors, mcs::points()));
    c.outcome(mc::cat(res, " ", errors));
}

}  // namespace

MC_SECTION("scripts", [](mc::Ctx& c) {
    static const std::vector<Op> all{NOP, P, F, L2, W, R1, R2};
    int size = 1 + c.choose(2, "size");
    std::vector<Op> prog;
    for (int i = 0; i < (c.tier() ? 3 : 2); ++i) {
        Op k = all[c.choose(int(all.size()), "op")];
        if (k == NOP) break;
        prog.push_back(k);
    }
    int e = c.choose(c.tier() ? 3 : 2, "ending");
    scenario(c, size, prog, {}, e, 1);
}, opts(4));

struct Case {
    int size;
    std::vector<Op> main, other;
    int ending, preempt;
};

MC_SECTION("deep", [](mc::Ctx& c) {
    static const std::vector<Case> cases{
        {1, {P}, {P, W}, 0, 1},  {1, {P}, {P, W}, 1, 1}, {1, {P, W}, {P, W}, 0, 1}, {1, {F}, {F}, 1, 1},  {1, {L2}, {P}, 0, 1},
        {1, {P, P}, {}, 0, 2},   {1, {P}, {}, 1, 2},     {1, {P}, {}, 2, 2},        {1, {L2}, {}, 1, 2},  {1, {L2}, {}, 2, 2},
        {1, {S}, {}, 2, 2},      {1, {S, W}, {}, 2, 1},  {1, {P, W, P}, {}, 2, 1},  {2, {P, P}, {}, 0, 1}, {2, {P, P}, {}, 2, 1},
        {2, {L2, W}, {}, 0, 1},  {2, {F, F}, {}, 1, 1},  {2, {P}, {P}, 1, 1},       {2, {S, W}, {}, 2, 1},
    };
    auto& k = cases[c.choose(int(cases.size()), "case")];
    scenario(c, k.size, k.main, k.other, k.ending, k.preempt);
}, opts(8));

MC_SECTION("deeper", [](mc::Ctx& c) {
    static const std::vector<std::vector<Op>> mains{{P}, {P, P}, {L2}, {P, W}, {F, F}, {S}, {P, W, P}, {R2, P}, {L2, W}, {S, W}, {}};
    static const std::vector<std::vector<Op>> others{{}, {P}, {P, W}, {L2}, {F}};
    int size = 1 + c.choose(2, "size");
    auto& m  = mains[c.choose(int(mains.size()), "main")];
    auto& o  = others[c.choose(int(others.size()), "other")];
    int e    = c.choose(3, "ending");
    for (auto k : m) {
        if (k == S && e != 2) c.reject();  // pushed while the pool is being shut down: no guarantee
    }
    if (e == 2 && !o.empty()) c.reject();
    scenario(c, size, m, o, e, 1);
}, thorough(5));
