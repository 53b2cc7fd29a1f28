// C04: a background-writing handle delivers what was written, once, in order; a successful flush/close means delivered; a failed
// write is reported by it; it never hangs
#include "eckit/io/AsyncHandle.h"
#include "eckit/io/DataHandle.h"
#include "mc/sched.h"
#include "common.h"

using namespace eckit;

namespace {

struct Target : DataHandle {
    std::string got;
    std::vector<size_t> sizes;   // writes begun
    int n = 0, failAt = -1, shortAt = -1;
    bool failed = false, opened = false, closed = false;
    int flushes = 0;
    std::string flushedAt;
    void print(std::ostream& s) const override { s << "Target"; }
    Length openForRead() override { return 0; }
    void openForWrite(const Length&) override { mcs::Book b; MCS_CHECK(!opened, "target opened twice"); opened = true; }
    void openForAppend(const Length&) override { openForWrite(0); }
    long read(void*, long) override { return 0; }
    long write(const void* p, long len) override {
        int k;
        {
            mcs::Book b;
            MCS_CHECK(opened && !closed, "written after close");
            k = n++;
            sizes.push_back(len);
        }
        mcs::point("target write");
        if (k == failAt) {
            mcs::Book b;
            failed = true;
            throw WriteError("disk-on-fire", Here());
        }
        if (k == shortAt) {
            mcs::Book b;
            failed = true;
            return len - 1;
        }
        std::string d(static_cast<const char*>(p), len);
        mcs::point("target written");
        mcs::Book b;
        got += d;
        return len;
    }
    void flush() override { mcs::Book b; flushes++; flushedAt = got; }
    void close() override { mcs::Book b; MCS_CHECK(!closed, "target closed twice"); closed = true; }
    Length estimate() override { return 0; }
    std::string title() const override { return "target"; }
};

}  // namespace

static const long kSizes[] = {3, 1, 8, 0};

MC_SECTION("async", [](mc::Ctx& c) {
    size_t rounding = 1, maxSize = c.pick({size_t(5), size_t(1), size_t(64)}, "limit");
    if (c.choose(2, "rounding")) rounding = 4;
    int n = c.choose(4, "writes");
    std::vector<long> sizes;
    for (int i = 0; i < n; ++i) sizes.push_back(kSizes[c.choose(i == 0 ? 4 : (c.tier() ? 3 : 2), "size")]);
    int mid  = n > 1 ? c.choose(2, "flush between") : 0;
    int fail = c.choose(n + 1, "write fails") - 1;
    int how  = fail >= 0 ? c.choose(2, "throws/short") : 0;
    int end  = c.choose(3, "end");  // 0 close, 1 flush+close, 2 neither
    if (how && sizes[fail] == 0) c.reject();
    mcs::Options o;
    o.preemptions = c.tier() ? 4 : (n <= 1 ? 2 : 1);
    MC_LOG(c, "limit ", maxSize, " rounding ", rounding, " writes ", n, " failing ", fail, how ? " (short)" : "", " flush between ", mid, " end ", end);
    mcs::run(c, o, [&]() {
        Target t;
        if (fail >= 0) (how ? t.shortAt : t.failAt) = fail;
        std::string sent, what;
        size_t sentRound = 0, accepted = 0;
        std::vector<size_t> rounds;
        bool err = false;
        {
            AsyncHandle h(t, maxSize, rounding);
            h.openForWrite(0);
            auto flushed = [&](bool e, bool failedBefore, const char* op) {
                mcs::Book b;
                if (!e) {
                    MCS_CHECK(!failedBefore && !t.failed, op, " succeeded although a write had failed; written ", sent.size(), ", delivered ", t.got.size());
                    MCS_CHECK(t.got == sent, op, " succeeded with ", t.got.size(), " of ", sent.size(), " bytes delivered");
                    MCS_CHECK(t.flushes > 0 && t.flushedAt == sent, op, " did not flush the target after the last byte");
                }
            };
            for (int i = 0; i < n && !err; ++i) {
                std::string d;
                for (long j = 0; j < sizes[i]; ++j) d += char('a' + (sent.size() + j) % 26);
                long r = 0;
                try {
                    r = h.write(d.data(), d.size());
                }
                catch (WriteError& e) {
                    mcs::Book b;
                    err  = true;
                    what = e.what();
                    MCS_CHECK(t.failed, "write failed although nothing had: ", what);
                }
                {
                    mcs::Book b;
                    d.assign(d.size(), '!');  // the caller's buffer is his again
                    if (!err) {
                        MCS_CHECK(r == sizes[i], "write returned ", r, " for ", sizes[i]);
                        for (long j = 0; j < sizes[i]; ++j) sent += char('a' + (accepted + j) % 26);
                        accepted += sizes[i];
                        rounds.push_back((sizes[i] + rounding - 1) / rounding * rounding);
                        size_t pend = 0;
                        for (size_t k = t.sizes.size(); k < rounds.size(); ++k) pend += rounds[k];
                        MCS_CHECK(pend < maxSize || rounds.size() - t.sizes.size() <= 1, "more than the limit is buffered: ", pend, " of ", maxSize);
                    }
                }
                if (mid && i == 0 && !err) {
                    bool f = fail >= 0 && fail < 1;
                    try {
                        h.flush();
                    }
                    catch (WriteError& e) {
                        mcs::Book b;
                        err = true;
                        what = e.what();
                        MCS_CHECK(t.failed, "flush failed although no write had: ", what);
                    }
                    flushed(err, f, "flush()");
                }
            }
            bool f = fail >= 0 && fail < int(rounds.size());
            if (end == 1) {
                bool e1 = false;
                try {
                    h.flush();
                }
                catch (WriteError& e) {
                    mcs::Book b;
                    e1 = err = true;
                    what = e.what();
                    MCS_CHECK(t.failed, "flush failed although no write had: ", what);
                }
                flushed(e1, f, "flush()");
            }
            if (end != 2) {
                bool e1 = false;
                try {
                    h.close();
                }
                catch (WriteError& e) {
                    mcs::Book b;
                    e1 = err = true;
                    what = e.what();
                    MCS_CHECK(t.failed, "close failed although no write had: ", what);
                }
                flushed(e1, f, "close()");
                mcs::Book b;
                if (!e1) MCS_CHECK(t.closed, "close() did not close the target");
            }
        }
        mcs::Book b;
        if (!t.failed) MCS_CHECK(sent.compare(0, t.got.size(), t.got) == 0, "delivered bytes are not those written, in order");
        MCS_CHECK(t.n <= n, "more writes than there were");
        if (err && !how) MCS_CHECK(what.find("disk-on-fire") != std::string::npos, "the error reported does not say what failed: '", what, "'");
        c.state(mc::cat(t.got.size(), t.failed, err, t.flushes, t.closed, n));
        c.outcome(mc::cat("sent ", sent.size(), " delivered ", t.got.size(), err ? " error" : ""));
    });
}, opts(6));
