// I03: transfers between handles are complete, or fail loudly, and close what they opened
#include <deque>
#include "eckit/io/TeeHandle.h"
#include "eckit/io/TransferWatcher.h"
#include "handles.h"

using namespace eckit;

namespace {

struct Boom : std::runtime_error {
    using std::runtime_error::runtime_error;
};

struct World {
    mc::Ctx& c;
    int budget;
    bool bad      = false;  // a failure was raised
    bool restarts = false;  // RestartTransfer may be thrown
    bool raised   = false;  // ... and was
    World(mc::Ctx& c, int b) : c(c), budget(b) {}
    bool event(const char* what) {
        if (budget <= 0) return false;
        if (c.choose(2, what) == 0) return false;
        budget--;
        return true;
    }
};

struct Source : DataHandle {
    World& w;
    std::string content;
    long long est;
    size_t pos = 0;
    int opens = 0, closes = 0;
    bool isOpen = false;
    bool shortReads;
    Source(World& w, const std::string& s, long long est, bool sr) : w(w), content(s), est(est), shortReads(sr) {}
    void print(std::ostream& s) const override { s << "Source"; }
    Length estimate() override { return est; }
    Length openForRead() override {
        if (w.event("open of source fails")) {
            w.bad = true;
            MC_LOG(w.c, "  open of source fails");
            throw Boom("source open");
        }
        opens++;
        isOpen = true;
        pos    = 0;
        return est;
    }
    long read(void* b, long n) override {
        MC_CHECK(w.c, isOpen, "read before open or after close");
        MC_CHECK(w.c, n > 0, "read of ", n, " bytes");
        if (w.budget > 0) {
            switch (w.c.choose(w.restarts ? 4 : 3, "read")) {
                case 0: break;
                case 1: w.budget--; w.bad = true; MC_LOG(w.c, "  read fails with -1"); return -1;
                case 2: w.budget--; w.bad = true; MC_LOG(w.c, "  read throws"); throw Boom("read");
                case 3: {
                    w.budget--;
                    w.raised    = true;
                    size_t from = w.c.choose(int(pos) + 1, "restart from");
                    MC_LOG(w.c, "  read asks for a restart from ", from);
                    throw RestartTransfer(Offset(from));
                }
            }
        }
        long e = std::min<long>(n, content.size() - pos);
        if (shortReads && e > 1) {
            long k = 1 + w.c.choose(int(std::min(e, 3L)), "bytes");
            e      = k == 3 ? e : k;
        }
        ::memcpy(b, content.data() + pos, e);
        pos += e;
        MC_LOG(w.c, "  read(", n, ") = ", e);
        w.c.step();
        return e;
    }
    void restartReadFrom(const Offset& o) override { pos = size_t((long long)o); }
    void close() override {
        MC_CHECK(w.c, isOpen, "the source is closed twice");
        isOpen = false;
        closes++;
        if (w.event("close of source fails")) {
            w.bad = true;
            MC_LOG(w.c, "  close of source fails");
            throw Boom("source close");
        }
    }
    bool doubleBufferOK() const override { return false; }
};

struct Sink : DataHandle {
    World& w;
    std::string content;
    size_t pos = 0;
    bool isOpen = false;
    long long announced = -1;
    Sink(World& w) : w(w) {}
    void print(std::ostream& s) const override { s << "Sink"; }
    void openForWrite(const Length& l) override {
        announced = l;
        if (w.event("open of target fails")) {
            w.bad = true;
            MC_LOG(w.c, "  open of target fails");
            throw Boom("target open");
        }
        isOpen = true;
    }
    long write(const void* b, long n) override {
        MC_CHECK(w.c, isOpen, "write before open or after close");
        if (w.budget > 0) {
            switch (w.c.choose(w.restarts ? 5 : 4, "write")) {
                case 0: break;
                case 1: w.budget--; w.bad = true; MC_LOG(w.c, "  write is short"); return n - 1;
                case 2: w.budget--; w.bad = true; MC_LOG(w.c, "  write throws"); throw Boom("write");
                case 3: w.budget--; w.bad = true; MC_LOG(w.c, "  write returns -1"); return -1;
                case 4: {
                    w.budget--;
                    w.raised    = true;
                    size_t from = w.c.choose(int(pos) + 1, "restart from");
                    MC_LOG(w.c, "  write asks for a restart from ", from);
                    throw RestartTransfer(Offset(from));
                }
            }
        }
        content.resize(pos);
        content.append(static_cast<const char*>(b), n);
        pos += n;
        return n;
    }
    void restartWriteFrom(const Offset& o) override { pos = size_t((long long)o); }
    void close() override {
        MC_CHECK(w.c, isOpen, "the target is closed twice");
        isOpen = false;
        if (w.event("close of target fails")) {
            w.bad = true;
            MC_LOG(w.c, "  close of target fails");
            throw Boom("target close");
        }
    }
    bool doubleBufferOK() const override { return false; }
};

struct Watch : TransferWatcher {
    std::string seen;
    int from = 0, to = 0;
    void watch(const void* p, long n) override {
        if (p) seen.append(static_cast<const char*>(p), n);
    }
    void restartFrom(const Offset& o) override { seen.resize(size_t((long long)o)); }
    void fromHandleOpened() override { from++; }
    void toHandleOpened() override { to++; }
};

std::string text(int n) { return std::string("abcdefghijklmnopqrstuvwxyz").substr(0, n); }

// the result of one transfer
void transfer(mc::Ctx& c, bool save, int budget) {
    World w(c, budget);
    w.restarts = save || budget;
    bool sr    = !budget || c.flag("short reads");
    if (budget > 1 && sr) budget--;
    w.budget   = budget;
    int n      = sr && budget > 1 ? c.pick({0, 1, 4}) : c.pick({0, 1, 4, 7});
    long long est = n;
    bool wrong = false;
    switch (c.choose(4, "estimate")) {
        case 0: break;
        case 1: if (!n) c.reject(); est = 0; break;
        case 2: est = n + 2; wrong = true; break;
        case 3: if (n < 2) c.reject(); est = n - 1; wrong = save; break;
    }
    long long max = save ? -1 : c.pick({-1, 0, 3, 4, 20});
    long buf = save ? 3 : c.pick({1, 3, 64});
    if (budget && !save && buf == 1 && n > 4) c.reject();
    // with failures, the reads are only of one kind
    Source s(w, text(n), est, sr);
    Sink t(w);
    Watch wa;
    bool inCatch = budget && c.flag("while another exception is handled");
    MC_LOG(c, n, " bytes, estimate ", est, ", at most ", max, ", buffer ", buf, inCatch ? ", in a catch block" : "");
    bool threw = false, restart = false;
    Length got = 0;
    std::string err;
    auto go = [&]() {
        try {
            got = save ? s.saveInto(t, wa) : s.copyTo(t, buf, Length(max), wa);
        }
        catch (RestartTransfer&) {
            threw = restart = true;
        }
        catch (mc::Violation&) {
            throw;
        }
        catch (std::exception& e) {
            threw = true;
            err   = e.what();
        }
    };
    if (inCatch) {
        try {
            throw UserError("before", Here());
        }
        catch (std::exception&) {
            go();
        }
    }
    else go();
    MC_LOG(c, threw ? "failed: " + err : mc::cat("returned ", got));
    MC_CHECK(c, !s.isOpen && !t.isOpen, "a handle was left open");
    long long e = n;
    if (!save && est && est < n) e = est;
    if (max >= 0) e = std::min(e, max);
    if (wrong && max >= 0 && max <= n) wrong = false;  // it stops before
    if (!threw) {
        MC_CHECK(c, !w.bad, "a failure was not reported");
        MC_CHECK(c, !wrong, "the estimated ", est, " bytes did not come and nothing was said");
        MC_CHECK(c, save || !w.raised, "a restart was ignored");
        MC_CHECK(c, got == Length(e), "returned ", got, " instead of ", e);
        MC_CHECK(c, t.content == text(int(e)), "the target has ", mc::quote(t.content), " instead of ", mc::quote(text(int(e))));
        MC_CHECK(c, wa.seen == t.content, "the watcher saw ", mc::quote(wa.seen));
        MC_CHECK(c, wa.from == 1 && wa.to == 1, "the watcher was told ", wa.from, ",", wa.to, " times of the opening");
    }
    else {
        MC_CHECK(c, w.bad || wrong || w.raised, "failed for no reason: ", err);
        if (save && w.raised && !w.bad && !wrong) c.fail(mc::cat("failed after a restart: ", err));
    }
    c.state(mc::cat(save, n, est, max, buf, threw, t.content));
    c.outcome(mc::cat(threw ? "failed" : "done", w.bad, w.raised));
}


}  // namespace

static void setup() {
    static bool done = false;
    if (done) return;
    setenv("ECKIT_DATAHANDLE_SAVEINTO_BUFFER_SIZE", "3", 1);
    setenv("ECKIT_DATAHANDLE_COPYTO_BUFFER_SIZE", "3", 1);
    done = true;
}

MC_SECTION("copyTo", [](mc::Ctx& c) {
    setup();
    transfer(c, false, 0);
}, opts(4));

MC_SECTION("copyTo failures", [](mc::Ctx& c) {
    setup();
    transfer(c, false, c.tier() ? 2 : 1);
}, opts(4));

MC_SECTION("saveInto", [](mc::Ctx& c) {
    setup();
    transfer(c, true, 0);
}, opts(4));

MC_SECTION("saveInto failures", [](mc::Ctx& c) {
    setup();
    transfer(c, true, c.tier() ? 3 : 2);
}, opts(4));

// two handles compare equal exactly when their bytes are
MC_SECTION("compare", [](mc::Ctx& c) {
    setup();
    World w(c, 0);
    std::string a = text(c.pick({0, 1, 3, 5}));
    std::string b = a;
    switch (c.choose(4, "other")) {
        case 0: break;
        case 1: if (a.empty()) c.reject(); b[c.choose(int(a.size()), "where")] ^= 1; break;
        case 2: b += 'x'; break;
        case 3: if (a.empty()) c.reject(); b.pop_back(); break;
    }
    bool unknown = c.flag("unknown estimates");
    bool sa = c.flag("short reads a"), sb = c.flag("short reads b");
    Source x(w, a, unknown ? 0 : a.size(), sa), y(w, b, unknown ? 0 : b.size(), sb);
    if (c.flag("half unknown")) {
        if (unknown) c.reject();
        y.est = 0;
    }
    MC_LOG(c, a, " and ", b);
    bool r = x.compare(y);
    MC_CHECK(c, r == (a == b), "compare() of ", mc::quote(a), " and ", mc::quote(b), " says ", r);
    MC_CHECK(c, !x.isOpen && !y.isOpen, "a handle was left open");
}, opts(4));

// the real handles
MC_SECTION("handles", [](mc::Ctx& c) {
    setup();
    hs::makeFiles();
    using namespace hs;
    Src s;
    switch (c.choose(13, "source")) {
        case 0: s = file(0); break;
        case 1: s = file(1); break;
        case 2: s = partFile(0, {{1, 2}, {5, 1}, {0, 1}}); break;
        case 3: s = mem(0); break;
        case 4: s = mmapped(0); break;
        case 5: s = buffered(file(0), 2); break;
        case 6: s = pooled(0); break;
        case 7: s = part(file(0), {{2, 3}, {0, 0}, {0, 1}}); break;
        case 8: s = raw(0); break;
        case 9: s = file(3); break;
        case 10:
        case 11: {
            std::vector<Src> v;
            v.push_back(file(2));
            v.push_back(partFile(0, {{2, 2}, {4, 1}}));
            v.push_back(file(1));
            v.push_back(mem(0));
            s = multi(std::move(v), c.flag("merging"));
            break;
        }
        case 12: s = peek(file(0)); break;
    }
    MC_LOG(c, s.what);
    ::unlink("out");
    ::unlink("out2");
    std::unique_ptr<DataHandle> t;
    int kind = c.choose(6, "target");
    MemoryHandle* m = nullptr;
    auto out = []() -> DataHandle* { return new FileHandle("out"); };
    switch (kind) {
        case 0: t.reset(out()); break;
        case 1: t.reset(new BufferedHandle(out(), 2)); break;
        case 2: t.reset(m = new MemoryHandle(2, true)); break;
        case 3: t.reset(new TeeHandle(out(), new FileHandle("out2"))); break;
        case 4: {
            size_t n = s.content.size(), k = n / 2;
            if (!(s.caps & LEN)) c.reject();
            auto x = new MultiHandle();
            *x += out();
            *x += Length(k);
            *x += new FileHandle("out2");
            *x += Length(n - k);
            t.reset(x);
            break;
        }
        case 5: break;  // a path
    }
    Length got;
    if (kind == 5) got = s.h->saveInto(PathName("out"));
    else if (c.flag("copyTo")) got = s.h->copyTo(*t, c.pick({1, 4, -1}));
    else got = s.h->saveInto(*t);
    MC_CHECK(c, got == Length(s.content.size()), "transferred ", got, " of ", s.content.size(), " bytes");
    std::string g = m ? std::string(static_cast<const char*>(m->data()), s.content.size()) : kind == 4 ? getFile("out") + getFile("out2") : getFile("out");
    MC_CHECK(c, g == s.content, "the target has ", mc::quote(g), " instead of ", mc::quote(s.content));
    if (kind == 3) MC_CHECK(c, getFile("out2") == s.content, "the second target has other bytes");
    // and it compares equal to what it came from
    if (kind == 0 || kind == 5) {
        FileHandle f("out");
        MC_CHECK(c, s.h->compare(f), "the copy does not compare equal");
        putFile("out", g.empty() ? "x" : g.substr(0, g.size() - 1) + char(g.back() ^ 1));
        MC_CHECK(c, !s.h->compare(f), "a changed copy compares equal");
    }
    c.outcome(mc::cat(s.what, kind));
}, opts(3));
