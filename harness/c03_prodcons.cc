// C03: the producer/consumer pipeline hands every item over exactly once, in order; failures on either side are reported,
// and it always comes back
#include "eckit/runtime/ProducerConsumer.h"
#include "mc/sched.h"
#include "common.h"

using namespace eckit;

namespace {

struct Item {
    long id = -1, copy = -1;
};

struct Boom : eckit::UserError {
    explicit Boom(const std::string& s) : eckit::UserError(s) {}
};

struct P : Producer<Item> {
    int n, failAt, doneFails, made = 0;
    P(int n, int f, int d) : n(n), failAt(f), doneFails(d) {}
    bool done() override {
        if (made == doneFails) throw Boom("done-failed");
        return made == n;
    }
    void produce(Item& i) override {
        if (made == failAt) throw Boom("produce-failed");
        i.id = made;
        mcs::point("producing");
        i.copy = made;
        mcs::Book b;
        made++;
    }
};

struct C : Consumer<Item> {
    int failAt;
    std::vector<long> got;
    bool closed = false;
    explicit C(int f) : failAt(f) {}
    void consume(Item& i) override {
        long id = i.id;
        mcs::point("consuming");
        long copy = i.copy;
        mcs::Book b;
        MCS_CHECK(id == copy && i.id == id, "item changed while it was being consumed: ", id, "/", copy, "/", i.id);
        MCS_CHECK(!closed, "item consumed after execute() had returned");
        if (int(got.size()) == failAt) throw Boom("consume-failed");
        got.push_back(id);
    }
};

void once(mc::Ctx& c, ProducerConsumer<Item>& pc, int n, int pf, int cf, int df) {
    P p(n, pf, df);
    C k(cf);
    bool threw = false;
    std::string what;
    try {
        pc.execute(p, k);
    }
    catch (eckit::Exception& e) {
        mcs::Book b;
        threw = true;
        what  = e.what();
    }
    mcs::Book b;
    k.closed = true;
    for (size_t i = 0; i < k.got.size(); ++i) {
        MCS_CHECK(k.got[i] == long(i), "item ", i, " consumed is ", k.got[i], " (lost, duplicated or reordered)");
    }
    bool pfail = pf >= 0 && pf < n, dfail = df >= 0 && df <= n, cfail = cf >= 0 && cf < n;
    if (!pfail && !cfail && !dfail) {
        MCS_CHECK(!threw, "failure reported although nothing failed: ", what);
        MCS_CHECK(int(k.got.size()) == n, n, " items produced, ", k.got.size(), " consumed");
    }
    else {
        // the consumer's failure may be pre-empted by the producer's, never both unreported
        MCS_CHECK(threw, "a failure was not reported; consumed ", k.got.size(), " of ", n);
        bool named = (pfail && what.find("produce-failed") != std::string::npos) || (cfail && what.find("consume-failed") != std::string::npos) ||
                     (dfail && what.find("done-failed") != std::string::npos);
        MCS_CHECK(named, "the reported failure is not the one that happened: ", what);
    }
    c.state(mc::cat(n, ":", k.got.size(), threw, what.substr(0, 60), p.made));
    c.outcome(mc::cat(k.got.size(), " of ", n, " consumed, ", threw ? what : std::string("no error")));
}

}  // namespace

MC_SECTION("pipeline", [](mc::Ctx& c) {
    int slots = 1 + c.choose(3, "slots");
    int n     = c.choose(c.tier() ? 5 : 4, "items");
    int pf    = -1, cf = -1, df = -1;
    switch (c.choose(5, "failure")) {
        case 1: pf = c.choose(n + 1, "produce fails at"); break;
        case 2: cf = c.choose(n + 1, "consume fails at"); break;
        case 3: df = c.choose(n + 1, "done fails at"); break;
        case 4:
            pf = c.choose(n + 1, "produce fails at");
            cf = c.choose(n + 1, "consume fails at");
            break;
        default: break;
    }
    if (pf == n || cf == n) c.reject();
    mcs::Options o;
    o.preemptions = c.tier() ? 3 : (n >= 3 ? 1 : 2);
    MC_LOG(c, "slots ", slots, ", items ", n, ", produce fails at ", pf, ", consume fails at ", cf, ", done fails at ", df);
    mcs::run(c, o, [&]() {
        ProducerConsumer<Item> pc(slots);
        once(c, pc, n, pf, cf, df);
    });
}, opts(6));

// the same object again, after a failure or a success
MC_SECTION("reuse", [](mc::Ctx& c) {
    int slots = 1 + c.choose(2, "slots");
    int pf = -1, cf = -1;
    switch (c.choose(3, "failure")) {
        case 1: pf = c.choose(2, "produce fails at"); break;
        case 2: cf = c.choose(2, "consume fails at"); break;
        default: break;
    }
    mcs::Options o;
    o.preemptions = c.tier() ? 2 : 1;
    o.spurious    = c.choose(2, "spurious");
    MC_LOG(c, "slots ", slots, ", first run: produce fails at ", pf, ", consume fails at ", cf);
    mcs::run(c, o, [&]() {
        ProducerConsumer<Item> pc(slots);
        once(c, pc, 2, pf, cf, -1);
        once(c, pc, 2, -1, -1, -1);
    });
}, opts(6));
