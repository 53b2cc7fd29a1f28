// D02: the transaction log: what was begun and not ended is recovered, once, whatever the point at which the process died
#include <dirent.h>
#include <ftw.h>
#include <map>
#include <set>
#include "eckit/container/MappedArray.h"
#include "eckit/container/SharedMemArray.h"
#include "eckit/config/LibEcKit.h"
#include "eckit/config/Resource.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/serialisation/Streamable.h"
#include "eckit/transaction/TxnLog.h"
#ifdef D02_SHARED
static void initialise(int argc, char** argv);
#define HARNESS_MAIN initialise
#endif
#include "common.h"
#include "mc/fault.h"

using namespace eckit;

// the interprocess lock is not what is looked at here (one process at a time), and System V semaphores would pile up
extern "C" {
int semget(key_t, int, int) { return 1; }
int semop(int, void*, size_t) { return 0; }
int semctl(int, int, int, ...) { return 0; }
}

namespace {

class Ev : public TxnEvent {
public:
    std::string what;
    explicit Ev(const std::string& w) : what(w) {}
    explicit Ev(Stream& s) : TxnEvent(s) { s >> what; }
    void encode(Stream& s) const override {
        TxnEvent::encode(s);
        s << what;
    }
    const ReanimatorBase& reanimator() const override { return reanimator_; }
    static const ClassSpec& classSpec() { return classSpec_; }
    void print(std::ostream& s) const override { s << what; }
    static ClassSpec classSpec_;
    static Reanimator<Ev> reanimator_;
};
ClassSpec Ev::classSpec_ = {&TxnEvent::classSpec(), "Ev"};
Reanimator<Ev> Ev::reanimator_;

struct Recover : TxnRecoverer<Ev> {
    std::vector<std::pair<unsigned long long, std::string>> got;
    void push(Ev* e) override {
        got.emplace_back(e->transactionID(), e->what);
        delete e;
    }
};
struct Find : TxnFinder<Ev> {
    bool a, o;
    std::vector<std::pair<unsigned long long, std::string>> got;
    Find(bool a, bool o) : a(a), o(o) {}
    bool found(Ev& e) override {
        got.emplace_back(e.transactionID(), e.what);
        return false;
    }
    bool active() override { return a; }
    bool old() override { return o; }
};

int rmOne(const char* p, const struct stat*, int, struct FTW*) { return ::remove(p); }

void clean() {
#ifdef D02_SHARED
    std::string shared = PathName("~/txn/mc").asString();
    std::replace(shared.begin(), shared.end(), '/', '-');
    ::shm_unlink(shared.c_str());
#endif
    ::nftw("home", rmOne, 16, FTW_DEPTH | FTW_PHYS);
    ::mkdir("home", 0777);
}

using TL = TxnLog<Ev>;

struct Op {
    char op;  // b(egin) u(pdate) e(nd) E(nd with backup) r(eopen)
    int n;    // which transaction
};

// all sensible scripts
std::vector<Op> script(mc::Ctx& c, int len) {
    std::vector<Op> s;
    std::vector<int> st;  // per transaction: 0 ended, 1 active
    for (int i = 0; i < len; ++i) {
        std::vector<Op> can;
        if (st.size() < 3) can.push_back({'b', int(st.size())});
        for (size_t k = 0; k < st.size(); ++k)
            if (st[k]) {
                can.push_back({'u', int(k)});
                can.push_back({'e', int(k)});
                can.push_back({'E', int(k)});
            }
        if (i && s.back().op != 'r') can.push_back({'r', 0});
        int k = c.choose(int(can.size()) + 1, "op");
        if (k == int(can.size())) break;
        s.push_back(can[k]);
        if (can[k].op == 'b') st.push_back(1);
        if (can[k].op == 'e' || can[k].op == 'E') st[can[k].n] = 0;
    }
    return s;
}

const std::string kBig(200, 'x');

std::string payload(int n, int v) { return mc::cat("t", n, "v", v, v % 2 ? kBig : ""); }

// the operations, telling what was begun and what is done
void play(const std::vector<Op>& s) {
    auto log = std::make_unique<TL>("mc");
    std::vector<std::unique_ptr<Ev>> ev(3);
    std::vector<int> ver(3);
    for (auto& o : s) {
        fault::ack(mc::cat("start ", o.op, o.n));
        switch (o.op) {
            case 'b':
                ev[o.n].reset(new Ev(payload(o.n, 0)));
                log->begin(*ev[o.n]);
                fault::ack(mc::cat("id ", o.n, " ", ev[o.n]->transactionID()));
                break;
            case 'u':
                ev[o.n]->what = payload(o.n, ++ver[o.n]);
                log->update(*ev[o.n]);
                break;
            case 'e': log->end(*ev[o.n], false); break;
            case 'E': log->end(*ev[o.n], true); break;
            case 'r': log.reset(new TL("mc")); break;
        }
        fault::ack(mc::cat("done ", o.op, o.n));
    }
}

struct Expect {
    std::map<int, std::set<std::string>> live;  // transaction -> acceptable contents
    std::set<int> maybe;                        // may or may not be there
    std::map<int, unsigned long long> id;
    std::set<int> archived;
    std::set<int> ending;  // being ended and archived: in one place or the other
    bool power = false;
};

Expect expect(const std::vector<std::string>& acks, bool power) {
    Expect e;
    e.power = power;
    std::map<int, int> ver;
    for (auto& a : acks) {
        std::istringstream in(a);
        std::string w, x;
        in >> w >> x;
        if (w == "id") {
            unsigned long long id;
            in >> id;
            e.id[atoi(x.c_str())] = id;
            continue;
        }
        int n = x[1] - '0';
        bool start = w == "start";
        switch (x[0]) {
            case 'b':
                e.live[n] = {payload(n, 0)};
                if (start) e.maybe.insert(n);
                else e.maybe.erase(n);
                break;
            case 'u':
                if (start) e.live[n].insert(payload(n, ++ver[n]));
                else if (!power) e.live[n] = {payload(n, ver[n])};
                break;
            case 'e':
            case 'E':
                if (start || power) e.maybe.insert(n);
                else e.live.erase(n), e.maybe.erase(n);
                if (!start && x[0] == 'E') e.archived.insert(n);
                if (start && x[0] == 'E') e.ending.insert(n);
                break;
        }
    }
    return e;
}

void after(const Expect& e) {
    TL log("mc");
    Ev z("t7v0");
    if (!e.power) {  // life may go on before anything is recovered
        log.begin(z);
        for (auto& i : e.id) FAULT_CHECK(z.transactionID() != i.second, "a transaction id was used twice");
    }
    std::set<int> recovered;
    for (int pass = 0; pass < 2; ++pass) {
        std::vector<std::pair<unsigned long long, std::string>> got;
        if (pass == 0) {
            Recover r;
            log.recover(r, false, -1000);
            got = r.got;
        }
        else {
            Find f(true, false);
            log.find(f);
            got = f.got;
            std::sort(got.begin(), got.end());
        }
        const char* how = pass ? "find" : "recovery";
        std::set<int> seen;
        unsigned long long last = 0;
        for (auto& g : got) {
            fault::note(mc::cat(how, " gives ", g.first, " ", g.second.substr(0, 4)));
            FAULT_CHECK(g.first > last, how, " gives transactions out of order or twice: ", g.first, " after ", last);
            last = g.first;
            int n = g.second[1] - '0';
            if (n == 7 && !e.power) {
                FAULT_CHECK(g.first == z.transactionID(), how, " gives another id");
                seen.insert(n);
                continue;
            }
            auto j = e.live.find(n);
            FAULT_CHECK(j != e.live.end(), how, " gives a transaction that was ended: ", g.second.substr(0, 4));
            FAULT_CHECK(j->second.count(g.second), how, " gives contents never acknowledged or superseded: ", g.second.substr(0, 4));
            FAULT_CHECK(!e.id.count(n) || e.id.at(n) == g.first, how, " gives another id");
            seen.insert(n);
        }
        if (!e.power) FAULT_CHECK(seen.count(7), how, " lost the transaction begun since");
        recovered = seen;
        for (auto& l : e.live) FAULT_CHECK(seen.count(l.first) || e.maybe.count(l.first), how, " lost transaction ", l.first);
    }
    if (e.ending.size()) {
        Find f(false, true);
        log.find(f);
        std::set<int> seen;
        for (auto& g : f.got) seen.insert(g.second[1] - '0');
        for (int n : e.archived) FAULT_CHECK(seen.count(n), "ended transaction ", n, " is not in the archive");
        for (int n : e.ending) FAULT_CHECK(seen.count(n) || recovered.count(n), "transaction ", n, " which was being ended is neither recovered nor in the archive");
    }
    if (!e.power) log.end(z, false);
    // and life goes on
    std::set<unsigned long long> ids;
    for (auto& i : e.id) ids.insert(i.second);
    Ev x("t9v0"), y("t8v0");
    log.begin(x);
    log.begin(y);
    FAULT_CHECK(x.transactionID() != y.transactionID() && (e.power || (!ids.count(x.transactionID()) && !ids.count(y.transactionID()))), "a transaction id was used twice");
    x.what = "t9v1";
    log.update(x);
    log.end(y, true);
    FAULT_CHECK(log.exists(x) && !log.exists(y), "exists");
    Recover r;
    log.recover(r, false, -1000);
    int nx = 0;
    for (auto& g : r.got) {
        nx += g.second == "t9v1";
        FAULT_CHECK(g.second != "t8v0" && g.second != "t9v0", "recovered what was ended or superseded");
    }
    FAULT_CHECK(nx == 1, "a transaction begun after the recovery is not recovered");
}

void scenario(mc::Ctx& c, int len, fault::Options o, bool second) {
    clean();
    auto s = script(c, len);
    std::string t;
    for (auto& x : s) t += mc::cat(x.op, x.n, " ");
    MC_LOG(c, "script ", t);
    auto r = fault::run(c, o, [&]() { play(s); });
    if (r.threw && !r.faulted) c.fail(mc::cat("failed: ", r.error));
    auto e = expect(r.acks, o.power && r.crashed);
    fault::inChild(c, [&]() { after(e); }, "recovery");
    if (second) {}
    c.state(mc::cat(t, r.where, r.acks.size()));
    c.outcome(mc::cat(t, r.crashed ? "killed " + r.where.substr(0, 12) : r.faulted ? "error" : "to the end"));
}


}  // namespace

#ifdef D02_SHARED

// the identifiers are in shared memory
static void initialise(int argc, char** argv) {
    ::mkdir("home/etc", 0777);
    ::mkdir("home/etc/config", 0777);
    putFile("home/etc/config/general", "txnArrayType: SharedMemory\n");
    Main::initialise(argc, argv, "MC_HOME");
}

MC_SECTION("shared", [](mc::Ctx& c) {
    fault::Options o;
    o.also = "/dev/shm/-";
    if (std::string(Resource<std::string>("txnArrayType", "")) != "SharedMemory") c.fail("not shared");
    scenario(c, c.tier() ? 4 : 3, o, false);
    clean();
}, opts(2));

#else

// searching and recovering what is there, from several days
MC_SECTION("search", [](mc::Ctx& c) {
    clean();
    std::unique_ptr<TL> held(new TL("mc"));
    const std::string done = "home/txn/mc/done/";
    struct T {
        unsigned long long id;
        std::string what;
        int day;  // of the archive, -1: active, -2: ended without a trace
    };
    std::vector<T> all;
    const char* days[]  = {"20200101", "20191231", "20200102"};
    const char* order[] = {"20200102", "20200101", "20191231"};
    const int n         = c.choose(5, "transactions");
    std::map<std::string, std::vector<T>> archive;
    for (int i = 0; i < n; ++i) {
        Ev e(payload(i, i));
        held->begin(e);
        T t{e.transactionID(), e.what, c.choose(5, "day") - 2};
        MC_CHECK(c, all.empty() || t.id > all.back().id, "identifiers are not in order");
        if (t.day >= -1) {
            e.what = t.what = payload(i, i + 7);
            held->update(e);
        }
        MC_CHECK(c, held->exists(e), "a transaction begun is not there");
        if (t.day == -2) held->end(e, false);
        if (t.day >= 0) {
            held->end(e, true);
            // another day
            std::vector<PathName> files, dirs;
            PathName(done).children(files, dirs);
            for (auto& f : files) {
                std::string b = f.baseName();
                if (b[0] == '2' && std::find(days, days + 3, b) == days + 3) {
                    putFile(done + days[t.day], getFile(done + days[t.day]) + getFile(done + b));
                    ::unlink((done + b).c_str());
                }
            }
            archive[days[t.day]].push_back(t);
        }
        MC_CHECK(c, held->exists(e) == (t.day == -1), "exists");
        all.push_back(t);
    }
    using L = std::vector<std::pair<unsigned long long, std::string>>;
    L active, old;
    for (auto& t : all)
        if (t.day == -1) active.emplace_back(t.id, t.what);
    for (auto d : order)
        for (auto& t : archive[d]) old.emplace_back(t.id, t.what);
    auto sorted = [](L l) {
        std::sort(l.begin(), l.end());
        return l;
    };
    if (c.flag("reopen")) held.reset(new TL("mc"));
    Find fa(true, false), fo(false, true), fb(true, true), fn(false, false);
    held->find(fa), held->find(fo), held->find(fb), held->find(fn);
    MC_CHECK(c, sorted(fa.got) == active, "searching finds ", fa.got.size(), " active transactions instead of ", active.size());
    MC_CHECK(c, fo.got == old, "searching finds ", fo.got.size(), " transactions in the archive instead of ", old.size(), ", the latest day first");
    MC_CHECK(c, fb.got.size() == active.size() + old.size() && L(fb.got.begin() + active.size(), fb.got.end()) == old && sorted(L(fb.got.begin(), fb.got.begin() + active.size())) == active, "searching everything");
    MC_CHECK(c, fn.got.empty(), "searching nothing");
    // it stops at what was looked for
    struct Stop : Find {
        size_t after;
        Stop(size_t n) : Find(true, true), after(n) {}
        bool found(Ev& e) override {
            Find::found(e);
            return got.size() > after;
        }
    };
    for (size_t k = 0; k < fb.got.size(); ++k) {
        Stop st(k);
        held->find(st);
        MC_CHECK(c, st.got == L(fb.got.begin(), fb.got.begin() + k + 1), "searching goes on after it found");
    }
    Recover young, now;
    held->recover(young, false, 1000);
    held->recover(now, false, -1000);
    MC_CHECK(c, young.got.empty(), "a transaction which is too young is recovered");
    MC_CHECK(c, now.got == active, now.got.size(), " transactions are recovered instead of ", active.size());
    c.nontrivial();
}, opts(2));

MC_SECTION("crash", [](mc::Ctx& c) {
    fault::Options o;
    scenario(c, c.tier() ? 5 : 4, o, false);
}, opts(2));

MC_SECTION("power", [](mc::Ctx& c) {
    fault::Options o;
    o.power = true;
    scenario(c, c.tier() ? 4 : 3, o, false);
}, opts(2));

MC_SECTION("errors", [](mc::Ctx& c) {
    fault::Options o;
    o.crash  = false;
    o.errors = {EIO, ENOSPC};
    scenario(c, c.tier() ? 4 : 3, o, false);
}, opts(2));

#endif
