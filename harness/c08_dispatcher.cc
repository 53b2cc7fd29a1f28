// C08: a dispatcher hands every request to one handler once, never forgets one that could be handled, and stops the threads it should
#include <list>
#include <map>
#include <memory>
#include <sstream>
#define private public  // the number of threads is changed through a reconfiguration
#define protected public
#include "eckit/runtime/Dispatcher.h"
#undef private
#undef protected
#include "mc/sched.h"
#include "common.h"

using namespace eckit;

namespace {

enum Style { First, Pairs, Exclusive, All };
struct World {
    Style style = First;
    int failing = -1;
    std::map<int, int> handled, deleted, failed;
    std::map<int, bool> busy;      // kinds being handled
    std::vector<int> order;        // as picked
    int idles = 0, handlers = 0;
};
World* w_;

struct Req {
    int id, kind;
    Req(int i, int k) : id(i), kind(k) {}
    ~Req() {
        mcs::Book b;
        MCS_CHECK(++w_->deleted[id] == 1, "request ", id, " is deleted twice");
        MCS_CHECK(w_->handled[id] || w_->failed[id] || kind < 0, "request ", id, " is deleted but was not handled");
    }
    void json(JSON&) const {}
};
std::ostream& operator<<(std::ostream& s, const Req& r) { return s << r.id; }

bool pickable(const std::list<Req*>& q) {
    switch (w_->style) {
        case Pairs: return q.size() >= 2;
        case Exclusive:
            for (auto* r : q)
                if (!w_->busy[r->kind]) return true;
            return false;
        default: return !q.empty();
    }
}

struct Hand : DefaultHandler<Req> {
    Hand() { mcs::Book b; w_->handlers++; }
    ~Hand() { mcs::Book b; w_->handlers--; }
    void pick(std::list<Req*>& q, std::vector<Req*>& r) {
        mcs::Book b;
        switch (w_->style) {
            case First: DefaultHandler<Req>::pick(q, r); break;
            case Pairs:
                if (q.size() >= 2)
                    for (int i = 0; i < 2; ++i) DefaultHandler<Req>::pick(q, r);
                break;
            case Exclusive:
                for (auto i = q.begin(); i != q.end(); ++i)
                    if (!w_->busy[(*i)->kind]) {
                        w_->busy[(*i)->kind] = true;
                        r.push_back(*i);
                        q.erase(i);
                        break;
                    }
                break;
            case All:
                while (!q.empty()) DefaultHandler<Req>::pick(q, r);
                break;
        }
        for (auto* x : r) w_->order.push_back(x->id);
    }
    void handle(std::vector<Req*>& v) {
        mcs::point("handling");
        mcs::Book b;
        bool fails = false;
        for (auto* r : v) {
            MCS_CHECK(r && !w_->deleted[r->id], "a deleted request is handled");
            MCS_CHECK(!w_->handled[r->id] && !w_->failed[r->id], "request ", r->id, " is handled twice");
            if (r->id == w_->failing) fails = true;
            w_->busy[r->kind] = false;
        }
        for (auto* r : v) (fails ? w_->failed : w_->handled)[r->id]++;
        if (fails) throw UserError("request refused", Here());
    }
    void idle() { mcs::Book b; w_->idles++; }
};

struct Traits {
    using Request = Req;
    using Handler = Hand;
    static const char* name() { return "mc"; }
};

struct Body : Thread {
    std::function<void()> f;
    explicit Body(std::function<void()> g) : f(std::move(g)) {}
    void run() override { f(); }
};

struct Remove : DequeuePicker<Req> {
    int id;
    bool found = false;
    explicit Remove(int i) : id(i) {}
    void pick(std::list<Req*>& q) override {
        for (auto i = q.begin(); i != q.end(); ++i) {
            if (*i && (*i)->id == id) {
                found = true;
                (*i)->kind = -1;
                delete *i;
                q.erase(i);
                return;
            }
        }
    }
};

}  // namespace

namespace eckit {
template <>
void DispatchInfo<Traits>::run() {}  // only reports, for ever
}  // namespace eckit

static void dispatch(mc::Ctx& c, int nreq, int maxThreads, bool two, int preemptions) {
    bool much   = c.tier() || (maxThreads == 1 && !two);
    Style style = Style(c.choose(4, "style"));
    int threads = c.choose(maxThreads + 1, "threads");  // 0: as many as needed
    int failing = much ? c.choose(3, "failing") - 1 : maxThreads == 2 ? 0 : -1;
    int other   = two ? 1 + (c.tier() ? c.choose(2, "requests of another thread") : 0) : 0;
    int change  = much ? c.choose(4, "then") : maxThreads == 2 ? 2 * c.choose(2, "then") : 0;  // nothing / one thread more / one less / a request is removed
    if (!much && maxThreads == 2 && threads < 2) c.reject();
    if (!c.tier() && two && style > Pairs) c.reject();
    if (failing >= nreq) c.reject();
    if (threads == 0 && (change == 1 || change == 2)) c.reject();
    std::vector<int> kinds;
    for (int i = 0; i < nreq; ++i) kinds.push_back(style == Exclusive ? c.choose(std::min(2, i + 1), "kind") : 0);
    mcs::Options o;
    o.preemptions = preemptions;
    MC_LOG(c, "style ", style, ", ", threads, " threads, ", nreq, " requests, ", other, " by another thread, then ", change);
    std::string outcome;
    mcs::run(c, o, [&]() {
        World world;
        w_            = &world;
        world.style   = style;
        world.failing = failing;
        {
            auto d = std::make_unique<Dispatcher<Traits>>("mc", threads);
            std::unique_ptr<ThreadControler> t;
            auto push = [&](int from, int to) {
                for (int i = from; i < to; ++i) d->push(new Req(i, kinds[size_t(i)]));
            };
            if (other) {
                t.reset(new ThreadControler(new Body([&] { push(nreq - other, nreq); }), false));
                t->start();
            }
            push(0, nreq - other);
            int alive = threads;
            if (change == 1) d->changeThreadCount(1), alive++;
            if (change == 2) d->changeThreadCount(-1), alive--;
            bool removed = false;
            if (change == 3) {
                Remove r(0);
                d->dequeue(r);
                removed = r.found;
            }
            if (t) t->wait();
            mcs::waitIdle();
            {
                mcs::Book b;
                if (threads) MCS_CHECK(world.handlers == alive, world.handlers, " threads are there instead of ", alive);
                if (alive || !threads) {
                    MCS_CHECK(!pickable(d->queue_), d->queue_.size(), " requests which could be handled are left and nobody looks at them");
                    for (int i = 0; i < nreq; ++i) {
                        int n = world.handled[i] + world.failed[i];
                        if (style != Pairs) MCS_CHECK(n == !(removed && i == 0), "request ", i, " was handled ", n, " times");
                        if (style == First) MCS_CHECK(world.failed[i] == (i == failing && !(removed && i == 0)), "a failure of request ", failing, " is one of ", i);
                    }
                    MCS_CHECK(int(d->queue_.size()) == (style == Pairs ? (nreq - removed) % 2 : 0), d->queue_.size(), " requests are left");
                }
                // of one pusher: as pushed, where handlers take the first
                if (style != Exclusive) {
                    std::vector<int> mine;
                    for (int i : world.order)
                        if (i < nreq - other) mine.push_back(i);
                    MCS_CHECK(std::is_sorted(mine.begin(), mine.end()), "requests are picked in another order than they were pushed");
                }
                outcome = mc::cat(world.idles ? "idle " : "", world.failed.size() ? "failed " : "", removed);
            }
            MCS_CHECK(d->size() == int(d->queue_.size()), "size()");
            // one more, to be seen by those asleep
            d->push(new Req(nreq, 5));
            if (style == Pairs && d->queue_.size() % 2) {}
            mcs::waitIdle();
            {
                mcs::Book b;
                if (alive || !threads) {
                    MCS_CHECK(!pickable(d->queue_), "a request pushed later is not looked at");
                    if (style != Pairs) MCS_CHECK(world.handled[nreq] == 1, "a request pushed later is handled ", world.handled[nreq], " times");
                }
            }
            d->changeThreadCount(-int(d->count_));
            mcs::waitIdle();
            mcs::Book b;
            MCS_CHECK(world.handlers == 0, world.handlers, " threads are there which were told to stop");
            for (auto& h : world.handled) MCS_CHECK(world.deleted[h.first] == 1 || !h.second, "request ", h.first, " is not deleted");
            for (auto& h : world.failed) MCS_CHECK(world.deleted[h.first] == 1 || !h.second, "request ", h.first, " is not deleted");
            for (auto* r : d->queue_) r->kind = -1, delete r;
        }
    });
    w_ = nullptr;
    c.nontrivial();
    c.outcome(outcome);
}

MC_SECTION("one", [](mc::Ctx& c) { dispatch(c, 1 + c.choose(c.tier() ? 3 : 2, "requests"), 1, false, c.tier() ? 2 : 1); }, opts(3));
MC_SECTION("several", [](mc::Ctx& c) { dispatch(c, 2, 2, false, c.tier() ? 2 : 1); }, opts(3));
MC_SECTION("pushers", [](mc::Ctx& c) { dispatch(c, 2, c.tier() ? 2 : 1, true, c.tier() ? 1 : 0); }, opts(3));
