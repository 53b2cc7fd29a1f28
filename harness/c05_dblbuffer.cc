// C05: the double-buffered copy: on success the destination holds the source; any failure is reported; nothing is touched after
// it returned; it always returns
#include "eckit/io/DataHandle.h"
#include "eckit/io/DblBuffer.h"
#include "mc/sched.h"
#include "common.h"

using namespace eckit;

namespace {

enum Fault { NONE, THROWS, SHORT, RESTART };

struct End : DataHandle {
    Fault fault = NONE;
    int at = -1, n = 0;      // operation at which it happens
    bool again = false;      // and once more right after
    long back  = 0;          // restart from this
    bool opened = false, closed = false, failed = false;
    int attempt = 0, failedIn = -1, restartIn = -1;   // of the transfer
    std::vector<int> restarts;
    bool* over;
    explicit End(bool* o) : over(o) {}
    void use(const char* op) {
        mcs::Book b;
        MCS_CHECK(!*over, op, " after the copy had returned");
        MCS_CHECK(opened && !closed, op, " on a handle that is not open");
    }
    void close() override { mcs::Book b; MCS_CHECK(!*over, "close after the copy"); MCS_CHECK(opened, "closed before it was opened"); closed = true; }
    void rewind() override {}
    std::string title() const override { return "end"; }
};

struct Out;
struct In : End {
    std::string data;
    size_t pos = 0;
    int chunk = 0;    // 0: as asked
    bool sized;
    Out* out = nullptr;
    using End::End;
    void print(std::ostream& s) const override { s << "In"; }
    Length openForRead() override { opened = true; return sized ? data.size() : 0; }
    void openForWrite(const Length&) override {}
    void openForAppend(const Length&) override {}
    Length estimate() override { return sized ? data.size() : 0; }
    long write(const void*, long) override { return -1; }
    long read(void* p, long len) override;
    void restartReadFrom(const Offset& o) override { mcs::Book b; use("restart"); attempt++; pos = (long long)o; }
};

struct Out : End {
    std::string data;
    long est = -1;
    using End::End;
    void print(std::ostream& s) const override { s << "Out"; }
    Length openForRead() override { return 0; }
    void openForWrite(const Length& l) override { opened = true; est = (long long)l; }
    void openForAppend(const Length&) override {}
    Length estimate() override { return 0; }
    long read(void*, long) override { return -1; }
    long write(const void* p, long len) override {
        use("write");
        mcs::point("writing");
        int k = n++;
        if (fault != NONE && (k == at || (again && k == at + 1))) {
            mcs::Book b;
            if (fault == RESTART) {
                long from = std::min(back, long(data.size()));
                mcs::log(mc::cat("destination asks to restart from ", from));
                restarts.push_back(attempt);
                throw RestartTransfer(from);
            }
            failed = true;
            failedIn = attempt;
            if (fault == THROWS) throw WriteError("dest-broken", Here());
            if (fault == SHORT) return len - 1;
        }
        std::string d(static_cast<const char*>(p), len);
        mcs::point("written");
        mcs::Book b;
        data += d;
        return len;
    }
    void restartWriteFrom(const Offset& o) override {
        mcs::Book b;
        use("restart");
        attempt++;
        MCS_CHECK((long long)o <= (long long)data.size(), "restarted past what was written");
        data.resize((long long)o);
    }
};

long In::read(void* p, long len) {
    use("read");
    mcs::point("reading");
    int k = n++;
    if (fault != NONE && (k == at || (again && k == at + 1))) {
        mcs::Book b;
        if (fault == RESTART) {
            long from = std::min(back, long(out->data.size()));
            mcs::log(mc::cat("source asks to restart from ", from));
            restarts.push_back(attempt);
            throw RestartTransfer(from);
        }
        failed = true;
        failedIn = attempt;
        if (fault == THROWS) throw ReadError("source-broken", Here());
        if (fault == SHORT) return -1;
    }
    long m = std::min(len, long(data.size() - pos));
    if (chunk && m > chunk) m = chunk;
    ::memcpy(p, data.data() + pos, m);
    pos += m;
    return m;
}

void transfer(mc::Ctx& c, int count, long bufsize, int len, int chunk, bool sized, Fault inF, int inAt, Fault outF, int outAt, long back, bool again) {
    bool over = false;
    In in(&over);
    Out out(&over);
    in.out = &out;
    for (int i = 0; i < len; ++i) in.data += char('a' + i % 26);
    in.chunk = chunk;
    in.sized = sized;
    in.fault = inF;
    in.at = inAt;
    out.fault = outF;
    out.at = outAt;
    in.back = out.back = back;
    in.again = out.again = again;
    bool threw = false;
    std::string what;
    long long r = -1;
    {
        DblBuffer d(count, bufsize);
        try {
            r = d.copy(in, out);
        }
        catch (std::exception& e) {
            mcs::Book b;
            threw = true;
            what = e.what();
        }
        mcs::waitIdle();
    }
    mcs::Book b;
    over = true;
    MCS_CHECK(in.closed && out.closed, "handles left open");
    bool restarts = (inF == RESTART && in.n > inAt) || (outF == RESTART && out.n > outAt);
    // a failure in the same attempt as a request to restart may be overridden by it
    auto overridden = [&](const End& e) {
        for (int a : in.restarts) if (a == e.failedIn) return true;
        for (int a : out.restarts) if (a == e.failedIn) return true;
        return false;
    };
    bool must = (in.failed && !overridden(in)) || (out.failed && !overridden(out));
    if (must || (threw && (in.failed || out.failed))) {
        MCS_CHECK(threw, "a failure was not reported; ", out.data.size(), " of ", len, " bytes copied");
        bool named = (in.failed && (inF == SHORT || what.find("source-broken") != std::string::npos)) ||
                     (out.failed && (outF == SHORT || what.find("dest-broken") != std::string::npos));
        MCS_CHECK(named, "what is reported is not what failed: ", what);
    }
    else {
        MCS_CHECK(!threw, "failed although nothing failed: ", what);
        MCS_CHECK(out.data == in.data, "copied ", out.data.size(), " bytes '", out.data, "' of '", in.data, "'");
        MCS_CHECK(r == len, "returned ", r, " for ", len, " bytes", restarts ? " (after a restart)" : "");
    }
    c.state(mc::cat(len, out.data.size(), threw, what.substr(0, 40), in.n, out.n));
    c.outcome(mc::cat(out.data.size(), "/", len, threw ? " " + what.substr(0, 60) : std::string()));
}

}  // namespace

MC_SECTION("copy", [](mc::Ctx& c) {
    int count = 1 + c.choose(3, "buffers");
    int len   = c.pick({5, 0, 1, 2, 4, 6}, "length");
    int chunk = c.choose(2, "short reads");
    bool sized = c.choose(2, "size unknown") == 0;
    Fault inF = NONE, outF = NONE;
    int inAt = -1, outAt = -1;
    int f = c.choose(4, "fault");
    int blocks = chunk ? len : (len + 1) / 2;
    if (f & 1) { inF = c.choose(2, "how") ? SHORT : THROWS; inAt = c.choose(blocks + 1, "read"); }
    if (f & 2) { outF = c.choose(2, "how") ? SHORT : THROWS; outAt = c.choose(blocks ? blocks : 1, "write"); if (!blocks) c.reject(); }
    mcs::Options o;
    o.preemptions = c.tier() ? 2 : 1;
    MC_LOG(c, count, " buffers of 2, ", len, " bytes, size ", sized ? "known" : "unknown", ", read fault ", int(inF), "@", inAt, " write fault ", int(outF), "@", outAt);
    mcs::run(c, o, [&]() { transfer(c, count, 2, len, chunk, sized, inF, inAt, outF, outAt, 0, false); });
}, opts(6));

MC_SECTION("restart", [](mc::Ctx& c) {
    int count = 1 + c.choose(2, "buffers");
    int len   = c.pick({5, 2, 4}, "length");
    bool sized = c.choose(2, "size unknown") == 0;
    Fault inF = NONE, outF = NONE;
    int inAt = -1, outAt = -1;
    int blocks = (len + 1) / 2;
    int mode = c.choose(4, "fault");
    bool again = false;
    switch (mode) {
        case 0: inF = RESTART; inAt = c.choose(blocks + 1, "read"); again = c.choose(2, "again"); break;
        case 1: outF = RESTART; outAt = c.choose(blocks, "write"); again = c.choose(2, "again"); break;
        case 2: inF = RESTART; inAt = c.choose(blocks + 1, "read"); outF = THROWS; outAt = c.choose(blocks, "write"); break;
        case 3: outF = RESTART; outAt = c.choose(blocks, "write"); inF = THROWS; inAt = c.choose(blocks + 1, "read"); break;
    }
    long back = c.pick({0L, 2L, 100L}, "from");
    mcs::Options o;
    o.preemptions = c.tier() ? 2 : 1;
    MC_LOG(c, count, " buffers of 2, ", len, " bytes, size ", sized ? "known" : "unknown", ", read fault ", int(inF), "@", inAt, " write fault ", int(outF), "@", outAt, again ? " twice" : "", " back to ", back);
    mcs::run(c, o, [&]() { transfer(c, count, 2, len, 0, sized, inF, inAt, outF, outAt, back, again); });
}, opts(6));
