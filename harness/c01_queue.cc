// C01: the thread-safe bounded queue is linearizable, never loses a wake-up, releases everybody on close/interrupt
#include <deque>
#include <thread>

#include "eckit/container/Queue.h"
#include "mc/lin.h"
#include "mc/mc.h"
#include "mc/sched.h"

using eckit::Queue;

namespace {

struct S {
    std::deque<int> q;
    size_t max;
    bool closed = false, intr = false;
    std::string key() const {
        std::string s = mc::cat(max, closed, intr, ":");
        for (int x : q) {
            s += mc::cat(x, ",");
        }
        return s;
    }
};

enum Kind { Push, Emplace, Pop, PopV1, PopV2, Close, Interrupt, Resize1, Resize2, Empty, Closed, NKIND };
const char* names[] = {"push", "emplace", "pop", "popv1", "popv2", "close", "interrupt", "resize1", "resize2", "empty", "closed"};

struct Boom : std::runtime_error {
    Boom() : std::runtime_error("boom") {}
};

enum Res { Ok, Asserted, Interrupted, Pending };

struct Rec {
    Kind kind;
    int arg = 0;
    Res res = Pending;
    long ret = 0;
    std::vector<int> got;
    int call = 0, end = -1;
};

struct Run {
    Queue<int> q;
    int clock = 0;
    std::vector<Rec*> recs;
    bool rescue = false;
    explicit Run(size_t n) : q(n) {}
    ~Run() {
        for (auto r : recs) {
            delete r;
        }
    }

    void exec(Kind k, int arg) {
        Rec* r;
        {
            mcs::Book b;
            r = new Rec;
            recs.push_back(r);
            r->kind = k;
            r->arg  = arg;
            r->call = ++clock;
        }
        Res res = Ok;
        long ret = 0;
        std::vector<int> got;
        try {
            switch (k) {
                case Push: ret = long(q.push(arg)); break;
                case Emplace: ret = long(q.emplace(arg)); break;
                case Pop: {
                    int e = -1;
                    ret   = q.pop(e);
                    if (ret >= 0) got.push_back(e);
                    break;
                }
                case PopV1:
                case PopV2: {
                    std::vector<int> v(k == PopV1 ? 1 : 2, -1);
                    ret = q.pop(v);
                    for (long i = 0; i < ret; ++i) got.push_back(v.at(i));
                    break;
                }
                case Close: q.close(); break;
                case Interrupt: q.interrupt(std::make_exception_ptr(Boom())); break;
                case Resize1: q.resize(1); break;
                case Resize2: q.resize(2); break;
                case Empty: ret = q.empty(); break;
                case Closed: ret = q.closed(); break;
                default: break;
            }
        }
        catch (Boom&) {
            res = Interrupted;
        }
        catch (eckit::AssertionFailed&) {
            res = Asserted;
        }
        mcs::Book b;
        if (rescue) {
            return;  // released by the harness
        }
        r->res = res;
        r->ret = ret;
        r->got = got;
        r->end = ++clock;
    }
};

bool blockedIn(const S& s, const Rec& r) {
    if (s.intr) return false;
    switch (r.kind) {
        case Push:
        case Emplace: return s.q.size() >= s.max;
        case Pop:
        case PopV1:
        case PopV2: return s.q.empty() && !s.closed;
        case Resize1: return s.q.size() > 1;
        case Resize2: return s.q.size() > 2;
        default: return false;
    }
}

bool applyTo(S& s, const Rec& r) {
    switch (r.kind) {
        case Close: s.closed = true; return r.res == Ok;
        case Interrupt: s.intr = true; return r.res == Ok;
        case Empty: return r.res == Ok && (r.ret != 0) == s.q.empty();
        case Closed: return r.res == Ok && (r.ret != 0) == (s.closed || s.intr);
        default: break;
    }
    if (s.intr) return r.res == Interrupted;
    if (r.res == Interrupted) return false;
    if (blockedIn(s, r)) return false;
    switch (r.kind) {
        case Push:
        case Emplace:
            if (s.closed) return r.res == Asserted;
            if (r.res != Ok) return false;
            s.q.push_back(r.arg);
            return r.ret == long(s.q.size());
        case Pop:
            if (r.res != Ok) return false;
            if (s.q.empty()) return r.ret == -1;
            if (r.got.size() != 1 || r.got[0] != s.q.front()) return false;
            s.q.pop_front();
            return r.ret == long(s.q.size());
        case PopV1:
        case PopV2: {
            if (r.res != Ok) return false;
            if (s.q.empty()) return r.ret == -1;
            size_t n = std::min<size_t>(r.kind == PopV1 ? 1 : 2, s.q.size());
            if (r.ret != long(n) || r.got.size() != n) return false;
            for (size_t i = 0; i < n; ++i) {
                if (r.got[i] != s.q.front()) return false;
                s.q.pop_front();
            }
            return true;
        }
        case Resize1:
        case Resize2:
            if (s.closed) return r.res == Asserted;
            if (r.res != Ok) return false;
            s.max = r.kind == Resize1 ? 1 : 2;
            return true;
        default: return false;
    }
}

std::string show(const Rec& r) {
    static const char* rs[] = {"ok", "rejected", "interrupted", "still blocked"};
    std::string s = mc::cat(names[r.kind]);
    if (r.kind == Push || r.kind == Emplace) s += mc::cat("(", r.arg, ")");
    s += mc::cat(" [", r.call, "..", r.end, "] ", rs[r.res], " ret=", r.ret);
    for (int g : r.got) s += mc::cat(" got ", g);
    return s;
}

void scenario(mc::Ctx& c, size_t max, int prefill, const std::vector<std::vector<Kind>>& prog, int preempt, int spurious = 0) {
    mcs::Options o;
    o.preemptions = preempt;
    o.spurious    = spurious;
    Run* r        = new Run(max);
    S init;
    init.max = max;
    if (c.tracing()) {
        std::string s = mc::cat("capacity ", max, ", prefilled ", prefill, ";");
        for (auto& t : prog) {
            s += " |";
            for (auto k : t) s += mc::cat(" ", names[k]);
        }
        c.log(s);
    }
    for (int i = 0; i < prefill; ++i) {
        r->q.push(100 + i);
        init.q.push_back(100 + i);
    }
    mcs::run(c, o, [&]() {
        std::vector<std::thread> th;
        int v = 0;
        for (size_t t = 0; t < prog.size(); ++t) {
            auto p = prog[t];
            int base = 10 * int(t + 1);
            (void)v;
            th.emplace_back([r, p, base]() {
                for (size_t i = 0; i < p.size(); ++i) {
                    r->exec(p[i], base + int(i));
                }
            });
        }
        mcs::waitIdle();
        mcs::Book book;
        std::vector<mclin::Op<S>> ops;
        std::string hist;
        for (auto* rec : r->recs) {
            mclin::Op<S> op;
            op.call    = rec->call;
            op.ret     = rec->end;
            op.apply   = [rec](S& s) { return applyTo(s, *rec); };
            op.blocked = [rec](const S& s) { return blockedIn(s, *rec); };
            ops.push_back(op);
            hist += (hist.empty() ? "" : "; ") + show(*rec);
        }
        bool ok = mclin::linearizable(ops, init);
        if (c.tracing()) c.log(hist);
        MCS_CHECK(ok, "no sequential order of a bounded FIFO explains: ", hist);
        c.outcome(hist);
        c.state(hist);
        // whoever is still (rightly) blocked must be released by an interrupt
        r->rescue = true;
        r->q.interrupt(std::make_exception_ptr(Boom()));
        for (auto& t : th) {
            t.join();
        }
    });
    delete r;
}

std::vector<Kind> ops1(mc::Ctx& c, int n, const std::vector<Kind>& alpha) {
    std::vector<Kind> p;
    for (int i = 0; i < n; ++i) p.push_back(alpha[c.choose(int(alpha.size()), "op")]);
    return p;
}

mc::Opts opts(int split) {
    mc::Opts o;
    o.split = split;
    return o;
}

}  // namespace

// two threads, two operations each, every pair of programs
MC_SECTION("2x2", [](mc::Ctx& c) {
    static const std::vector<Kind> all{Push, Pop, PopV2, Close, Interrupt, Resize1, Resize2, Empty};
    static const std::vector<std::pair<int, int>> from{{1, 0}, {2, 1}, {3, 2}, {1, 1}, {2, 0}, {3, 3}};
    auto mp = from[c.choose(c.tier() ? 6 : 3, "capacity, prefill")];
    int max = mp.first, pre = mp.second;
    auto a = ops1(c, 2, all);
    auto b = ops1(c, 2, all);
    if (std::lexicographical_compare(b.begin(), b.end(), a.begin(), a.end())) c.reject();  // symmetric
    scenario(c, max, pre, {a, b}, c.tier() ? 3 : 1);
}, opts(4));

// three threads, one operation each, every triple
MC_SECTION("3x1", [](mc::Ctx& c) {
    std::vector<Kind> all;
    for (int i = 0; i < NKIND; ++i) all.push_back(Kind(i));
    static const std::vector<std::pair<int, int>> from{{1, 0}, {1, 1}, {2, 1}, {3, 2}, {2, 0}, {2, 2}, {3, 0}, {3, 3}};
    auto mp = from[c.choose(c.tier() ? 8 : 4, "capacity, prefill")];
    int max = mp.first, pre = mp.second;
    Kind a = all[c.choose(NKIND, "a")], b = all[c.choose(NKIND, "b")], d = all[c.choose(NKIND, "c")];
    if (a > b || b > d) c.reject();
    scenario(c, max, pre, {{a}, {b}, {d}}, c.tier() ? 2 : 1);
}, opts(4));

// producers and consumers with a small capacity, more operations, more preemptions
MC_SECTION("pc", [](mc::Ctx& c) {
    static const std::vector<std::vector<std::vector<Kind>>> progs{
        {{Push, Push, Push}, {Pop, Pop, Pop}},
        {{Push, Push}, {Push}, {Pop, Pop, Pop}},
        {{Push, Push}, {Pop}, {Pop}},
        {{Push, Push, Close}, {Pop, Pop, Pop}},
        {{Push}, {Push}, {PopV2, PopV2}},
        {{Push, Push, Push}, {PopV2, PopV2}, {Resize2}},
        {{Pop}, {Pop}, {Close}},
        {{Push}, {Push}, {Interrupt}},
        {{Pop}, {Pop}, {Push, Close}},
        {{Resize1}, {Push, Pop}, {Pop}},
    };
    static const std::vector<std::pair<int, int>> from{{1, 0}, {2, 1}, {3, 3}, {1, 1}, {2, 0}, {2, 2}};
    auto mp = from[c.choose(c.tier() ? 6 : 3, "capacity, prefill")];
    int max = mp.first, pre = mp.second;
    auto& p = progs[c.choose(int(progs.size()), "program")];
    scenario(c, max, pre, p, c.tier() ? 3 : 2);
}, opts(5));

// a wait may return without a notification
MC_SECTION("spurious", [](mc::Ctx& c) {
    static const std::vector<Kind> all{Push, Pop, Close, Resize1};
    static const std::vector<std::pair<int, int>> from{{1, 1}, {3, 2}, {1, 0}, {2, 1}};
    auto mp = from[c.choose(c.tier() ? 4 : 2, "capacity, prefill")];
    int max = mp.first, pre = mp.second;
    auto a = ops1(c, 1, all), b = ops1(c, 1, all), d = ops1(c, 1, all);
    if (a > b || b > d) c.reject();
    scenario(c, max, pre, {a, b, d}, 1, c.tier() ? 2 : 1);
}, opts(4));
