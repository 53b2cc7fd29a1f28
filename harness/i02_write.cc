// I02: what is written through a handle arrives, complete and in order, or the failure is reported
#include <fcntl.h>
#include <ostream>
#include "eckit/io/AIOHandle.h"
#include "eckit/io/BufferedHandle.h"
#include "eckit/io/FileBase.h"
#include "eckit/io/FileDescHandle.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/HandleBuf.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/MultiHandle.h"
#include "eckit/io/PooledFileDescriptor.h"
#include "eckit/io/RawFileHandle.h"
#include "eckit/io/StatsHandle.h"
#include "eckit/io/TeeHandle.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "common.h"
#include "mc/fault.h"

using namespace eckit;

// FileHandle waits when the disk is full
extern "C" unsigned int sleep(unsigned int) { return 0; }

namespace {

std::string bytes(int from, int n) {
    std::string s;
    for (int i = 0; i < n; ++i) s += char('a' + (from + i) % 26);
    return s;
}

enum { SEEK = 1, APPEND = 2, FLUSH = 4, POS = 8, REOPEN = 16, RESTART = 32 };

struct Target {
    std::unique_ptr<DataHandle> h;
    std::vector<std::shared_ptr<DataHandle>> keep;
    int caps = 0;
    bool keeps = false;  // opening for writing does not truncate
    std::function<std::string()> get;
    std::vector<std::function<std::string()>> more;  // the same bytes should be there too
    std::string what;
};

Target file(const std::string& p, bool overwrite = false) {
    Target t;
    t.h.reset(new FileHandle(p, overwrite));
    t.caps = SEEK | APPEND | FLUSH | POS | REOPEN | RESTART;
    t.get  = [p]() { return getFile(p); };
    t.what = "File";
    return t;
}
Target memory(size_t capacity) {
    Target t;
    auto m = new MemoryHandle(capacity, true);
    t.h.reset(m);
    t.caps = SEEK | FLUSH | POS;
    t.get  = [m]() { return std::string(static_cast<const char*>(m->data()), static_cast<const char*>(m->data()) + size_t((long long)static_cast<const MemoryHandle*>(m)->size())); };
    t.what = mc::cat("Memory(", capacity, ")");
    return t;
}
Target buffered(Target in, int size) {
    Target t = std::move(in);
    t.h.reset(new BufferedHandle(t.h.release(), size));
    t.caps &= ~(APPEND | RESTART);
    t.what = mc::cat("Buffered(", size, ",", t.what, ")");
    return t;
}

void put(mc::Ctx& c, DataHandle& h, std::string& model, size_t& p, int n, int& from) {
    std::string s = bytes(from, n);
    from += n;
    long r = h.write(s.data(), n);
    MC_LOG(c, "write ", s, " = ", r);
    MC_CHECK(c, r == n, "write of ", n, " bytes at ", p, " returns ", r);
    if (model.size() < p + n) model.resize(p + n);
    model.replace(p, n, s);
    p += n;
    c.step();
}

void same(mc::Ctx& c, Target& t, const std::string& model, const char* when) {
    std::string g = t.get();
    MC_CHECK(c, g == model, when, " there are ", mc::quote(g), " instead of ", mc::quote(model), " [", t.what, "]");
    for (auto& m : t.more) MC_CHECK(c, m() == model, when, " the other target has ", mc::quote(m()), " instead of ", mc::quote(model), " [", t.what, "]");
}

void drive1(mc::Ctx& c, Target& t, int depth, std::string model) {
    MC_LOG(c, t.what);
    size_t p = 0;
    int from = 0;
    bool append = false;
    auto open = [&](bool a) {
        append = a;
        MC_LOG(c, a ? "openForAppend" : "openForWrite");
        if (a) {
            t.h->openForAppend(0);
            p = model.size();
        }
        else {
            t.h->openForWrite(t.keeps ? Length(model.size()) : Length(0));
            if (!t.keeps) model.clear();
            p = 0;
        }
    };
    open((t.caps & APPEND) && c.flag("append"));
    for (int i = 0; i < depth; ++i) {
        switch (c.choose(8, "op")) {
            case 0: put(c, *t.h, model, p, 1, from); break;
            case 1: put(c, *t.h, model, p, 2, from); break;
            case 2: put(c, *t.h, model, p, 5, from); break;
            case 3:
                if (!(t.caps & FLUSH)) c.reject();
                MC_LOG(c, "flush");
                t.h->flush();
                same(c, t, model, "after flush");
                break;
            case 4: {
                if (!(t.caps & SEEK) || append || model.empty()) c.reject();
                size_t to = c.pick({size_t(0), size_t(1), model.size() - 1, model.size()});
                MC_LOG(c, "seek ", to);
                MC_CHECK(c, t.h->seek(Offset(to)) == Offset(to), "seek returns something else");
                p = to;
                break;
            }
            case 5: {
                if (!(t.caps & RESTART) || append || model.empty()) c.reject();
                size_t to = c.pick({size_t(0), model.size() - 1});
                MC_LOG(c, "restartWriteFrom ", to);
                t.h->restartWriteFrom(Offset(to));
                p = to;
                break;
            }
            case 6:
            case 7:
                if (!(t.caps & REOPEN)) c.reject();
                if (i + 1 == depth || i == 0) c.reject();
                MC_LOG(c, "close");
                t.h->close();
                same(c, t, model, "after close");
                // reading in between
                if (c.flag("read")) {
                    char b[8];
                    t.h->openForRead();
                    long n = t.h->read(b, 8);
                    MC_CHECK(c, n == long(std::min<size_t>(8, model.size())) && ::memcmp(b, model.data(), n) == 0, "reading back gives other bytes");
                    if (t.caps & FLUSH && c.flag("flush")) t.h->flush();
                    t.h->close();
                }
                if (c.flag("append")) {
                    if (!(t.caps & APPEND)) c.reject();
                    open(true);
                }
                else open(false);
                break;
        }
        if ((t.caps & POS) && !append) MC_CHECK(c, t.h->position() == Offset(p), "position() is ", t.h->position(), " instead of ", p);
        c.state(mc::cat(t.what, model.size(), " ", p, append, i));
    }
    MC_LOG(c, "close");
    t.h->close();
    same(c, t, model, "after close");
    c.outcome(t.what);
}

void drive(mc::Ctx& c, Target& t, int depth, const std::string& model = "") {
    try {
        drive1(c, t, depth, model);
    }
    catch (...) {
        try {
            t.h->close();
        }
        catch (...) {
        }
        throw;
    }
}

}  // namespace

MC_SECTION("file", [](mc::Ctx& c) {
    ::unlink("t");
    bool old = c.flag("exists");
    std::string model;
    if (old) putFile("t", model = "ABC");
    bool over = old && c.flag("overwrite");
    Target t  = file("t", over);
    t.keeps   = over;
    drive(c, t, c.tier() ? 5 : 4, model);
}, opts(4));

MC_SECTION("memory", [](mc::Ctx& c) {
    Target t = memory(c.pick({1, 4, 16}));
    drive(c, t, c.tier() ? 6 : 5);
}, opts(3));

// memory of a fixed size: what fits is written, and nothing else is
MC_SECTION("fixed", [](mc::Ctx& c) {
    int size = c.choose(c.tier() ? 7 : 5, "size");
    int kind = c.choose(2, "memory: given, a buffer");
    std::string mem(size + 32, '.'), model(size, '.');
    Buffer buffer(reinterpret_cast<const char*>(mem.data()), size);
    std::unique_ptr<MemoryHandle> h(kind == 0 ? new MemoryHandle(static_cast<void*>(&mem[16]), size) : new MemoryHandle(buffer));
    h->openForWrite(0);
    size_t p = 0;
    int from = 0;
    for (int i = 0; i < 3; ++i) {
        switch (c.choose(3, "op")) {
            case 0: {
                int n  = c.choose(size + 3, "bytes");
                std::string s = bytes(from, n);
                from += n;
                long r      = h->write(s.data(), n);
                long expect = std::min<long>(n, size - p);
                MC_CHECK(c, r == expect, "write of ", n, " bytes at ", p, " of ", size, " returns ", r);
                model.replace(p, expect, s.substr(0, expect));
                p += expect;
                break;
            }
            case 1: {
                size_t to = c.choose(size + 1, "to");
                MC_CHECK(c, h->seek(Offset(to)) == Offset(to), "seek returns something else");
                p = to;
                break;
            }
            case 2: {
                h->close();
                std::string got(size + 2, '#');
                MC_CHECK(c, h->openForRead() == Length(size), "the memory has another size");
                long first = c.choose(size + 3, "first bytes read");
                long n     = h->read(&got[0], first);
                MC_CHECK(c, n == std::min<long>(first, size), "reading ", first, " of ", size, " bytes gives ", n);
                long m = h->read(&got[n], size + 2 - n);
                MC_CHECK(c, m == size - n, "reading the rest gives ", m, " after ", n);
                MC_CHECK(c, h->read(&got[0], 0) == 0, "reading nothing at the end");
                MC_CHECK(c, got.substr(0, size) == model, "there are ", mc::quote(got), " instead of ", mc::quote(model));
                h->close();
                h->openForWrite(0);
                p = 0;
                break;
            }
        }
        MC_CHECK(c, h->position() == Offset(p), "position() is ", h->position(), " instead of ", p);
        c.step();
    }
    h->close();
    std::string got = kind == 1 ? std::string(static_cast<const char*>(buffer.data()), size) : mem.substr(16, size);
    MC_CHECK(c, got == model, "the memory has ", mc::quote(got), " instead of ", mc::quote(model));
    if (kind != 1) MC_CHECK(c, mem.substr(0, 16) == std::string(16, '.') && mem.substr(16 + size) == std::string(16, '.'), "bytes outside the memory were written");
    c.nontrivial();
    c.state(mc::cat(size, " ", p, model));
}, opts(3));

MC_SECTION("buffered", [](mc::Ctx& c) {
    ::unlink("t");
    int n    = c.pick({1, 2, 3, 5, 16});
    Target t = buffered(c.flag("memory") ? memory(4) : file("t"), n);
    if (c.flag("twice")) t = buffered(std::move(t), 2);
    drive(c, t, c.tier() ? 5 : 4);
}, opts(4));

MC_SECTION("raw", [](mc::Ctx& c) {
    ::unlink("t");
    Target t;
    std::string model;
    switch (c.choose(5, "handle")) {
        case 0:
            t.h.reset(new RawFileHandle("t"));
            t.caps = SEEK | POS;
            break;
        case 1:
            putFile("t", model = "ABCD");
            t.h.reset(new RawFileHandle("t", true));
            t.caps  = SEEK | POS;
            t.keeps = true;
            break;
        case 2: {
            int fd = ::open("t", O_RDWR | O_CREAT | O_TRUNC, 0666);
            t.h.reset(new FileDescHandle(fd, true));
            t.caps = SEEK | POS;
            break;
        }
        case 3: {
            t.h.reset(new StatsHandle(new FileHandle("t")));
            t.caps = SEEK | POS | FLUSH;
            // its destructor prints
            break;
        }
        case 4:
            t.h.reset(new AIOHandle(PathName("t"), c.pick({1, 2, 3}), 4, c.flag("fsync")));
            t.caps = POS | FLUSH | APPEND;
            putFile("t", model = "AB");
            break;
    }
    t.get  = []() { return getFile("t"); };
    t.what = "raw";
    std::ostringstream sink;
    auto* save = std::cout.rdbuf(sink.rdbuf());
    try {
        drive(c, t, c.tier() ? 5 : 4, model);
        t.h.reset();
    }
    catch (...) {
        t.h.reset();
        std::cout.rdbuf(save);
        throw;
    }
    std::cout.rdbuf(save);
}, opts(3));

MC_SECTION("tee", [](mc::Ctx& c) {
    ::unlink("t");
    ::unlink("u");
    std::vector<DataHandle*> v;
    Target t;
    t.caps = FLUSH;
    Target a = file("t"), b = c.flag("buffered") ? buffered(file("u"), 3) : memory(2), d = buffered(memory(4), 2);
    t.get  = a.get;
    t.more = {b.get, d.get};
    t.h.reset(new TeeHandle({a.h.release(), b.h.release(), d.h.release()}));
    t.what = "tee";
    if (int way = c.choose(4, "as made, through a stream, sent to a local process, made local")) {
        // only handles of files can be sent
        t.h.reset(new TeeHandle(std::vector<DataHandle*>{new FileHandle("t"), new FileHandle("u")}));
        t.more = {[]() { return getFile("u"); }};
        if (way == 3) {
            if (DataHandle* local = t.h->toLocal(); local != t.h.get()) t.h.reset(local);
        }
        else {
            Buffer b(4096);
            ResizableMemoryStream w(b);
            if (way == 2) t.h->toLocal(w);
            else w << *t.h;
            MemoryStream r(b.data(), b.size());
            t.h.reset(Reanimator<DataHandle>::reanimate(r));
            MC_CHECK(c, t.h, "nothing comes out of the stream");
        }
        drive(c, t, c.tier() ? 4 : 3);
        return;
    }
    drive(c, t, c.tier() ? 5 : 4);
}, opts(3));

// a chain of targets of given lengths
MC_SECTION("multi", [](mc::Ctx& c) {
    int n = c.choose(4, "targets");
    int total = 0;
    auto m = std::make_unique<MultiHandle>();
    std::vector<int> len;
    for (int i = 0; i < n; ++i) {
        ::unlink(mc::cat("m", i).c_str());
        int l = c.choose(4, "length");
        len.push_back(l);
        total += l;
        DataHandle* h = new FileHandle(mc::cat("m", i));
        if (c.flag("buffered")) h = new BufferedHandle(h, 2);
        *m += h;
        *m += Length(l);
    }
    struct Closer {
        MultiHandle& m;
        ~Closer() {
            try {
                m.close();
            }
            catch (...) {
            }
        }
    } closer{*m};
    m->openForWrite(Length(total));
    std::string model;
    size_t p = 0;
    int from = 0;
    while (int(p) < total) {
        int left = total - int(p);
        int w = 1 + c.choose(std::min(left, 3) + (left > 3), "write");
        if (w > 3) w = left;
        put(c, *m, model, p, w, from);
        c.state(mc::cat("multi ", p, " of ", total));
    }
    m->close();
    size_t at = 0;
    for (int i = 0; i < n; ++i) {
        std::string g = getFile(mc::cat("m", i));
        MC_CHECK(c, fileExists(mc::cat("m", i)), "target ", i, " was not created");
        MC_CHECK(c, g == model.substr(at, len[i]), "target ", i, " has ", mc::quote(g), " instead of ", mc::quote(model.substr(at, len[i])));
        at += len[i];
    }
}, opts(4));

// through a C or C++ stream
MC_SECTION("stdio", [](mc::Ctx& c) {
    ::unlink("t");
    FileHandle h("t");
    bool cpp = c.flag("c++");
    std::string model;
    size_t p = 0;
    int from = 0;
    if (cpp) {
        h.openForWrite(0);
        {
            HandleBuf b(h);
            std::ostream o(&b);
            for (int i = 0; i < 3; ++i) {
                int n = c.pick({0, 1, 3, 79, 80, 81, 200});
                std::string s = bytes(from, n);
                from += n;
                if (c.flag("char by char")) for (char x : s) o.put(x);
                else o << s;
                if (c.flag("flush")) {
                    o.flush();
                    MC_CHECK(c, getFile("t") == model + s, "after flush the file has ", getFile("t").size(), " bytes instead of ", model.size() + n);
                }
                model += s;
                MC_CHECK(c, o.good(), "the stream failed");
            }
        }
        h.close();
    }
    else {
        FILE* f = h.openf("w");
        for (int i = 0; i < 3; ++i) {
            int op = c.choose(6, "op");
            if (op < 3) {
                int n = op == 0 ? 1 : op == 1 ? 3 : 20000;
                std::string s = bytes(from, n);
                from += n;
                MC_CHECK(c, fwrite(s.data(), 1, n, f) == size_t(n), "fwrite fails");
                if (model.size() < p + n) model.resize(p + n);
                model.replace(p, n, s);
                p += n;
            }
            else if (op == 3) MC_CHECK(c, fseek(f, p = 0, SEEK_SET) == 0, "fseek fails");
            else if (op == 4) {
                if (p < 1) c.reject();
                MC_CHECK(c, fseek(f, -1, SEEK_CUR) == 0, "fseek fails");
                p--;
            }
            else {
                MC_CHECK(c, fflush(f) == 0, "fflush fails");
                MC_CHECK(c, getFile("t") == model, "after fflush other bytes are there");
            }
            MC_CHECK(c, ftell(f) == long(p), "ftell is ", ftell(f), " instead of ", p);
        }
        MC_CHECK(c, fclose(f) == 0, "fclose fails");
    }
    MC_CHECK(c, getFile("t") == model, "the file has ", getFile("t").size(), " bytes, expected ", model.size(), ", or they differ");
}, opts(3));

// a file of records, and a descriptor of the pool
struct Rec {
    int a;
    char b;
};
struct RecFile : FileBase<Rec> {
    RecFile() : FileBase<Rec>(PathName("r")) {}
};

MC_SECTION("records", [](mc::Ctx& c) {
    ::unlink("r");
    std::vector<int> model;
    auto f = std::make_unique<RecFile>();
    for (int i = 0; i < (c.tier() ? 6 : 5); ++i) {
        int r = c.choose(3, "record");
        switch (c.choose(3, "op")) {
            case 0: {
                if (int(model.size()) <= r) model.resize(r + 1, -1);
                model[r] = 100 + i;
                f->write(r, Rec{100 + i, 'x'});
                break;
            }
            case 1: {
                Rec x{-5, 'q'};
                bool ok = f->read(r, x);
                bool e  = r < int(model.size()) && model[r] >= 0;
                MC_CHECK(c, ok == e, "read of record ", r, " says ", ok);
                MC_CHECK(c, !e || (x.a == model[r] && x.b == 'x'), "record ", r, " is ", x.a, " instead of ", model[r]);
                break;
            }
            case 2:
                if (r) c.reject();
                f.reset();
                f.reset(new RecFile());
                break;
        }
    }
}, opts(3));

MC_SECTION("descriptor", [](mc::Ctx& c) {
    ::unlink("t");
    std::string model;
    size_t p = 0;
    int from = 0;
    auto w = std::make_unique<PooledFileDescriptor>(PathName("t"), false);
    w->open();
    std::vector<std::unique_ptr<PooledFileDescriptor>> r;
    size_t q[2] = {0, 0};
    for (int i = 0; i < 2; ++i) {
        r.emplace_back(new PooledFileDescriptor(PathName("t"), true));
        r[i]->open();
    }
    char b[64];
    for (int i = 0; i < (c.tier() ? 5 : 4); ++i) {
        switch (c.choose(10, "op")) {
            case 0:
            case 1: {
                int n = c.pick({1, 3});
                std::string s = bytes(from, n);
                from += n;
                MC_CHECK(c, w->write(s.data(), n) == n, "write");
                if (model.size() < p + n) model.resize(p + n);
                model.replace(p, n, s);
                p += n;
                break;
            }
            case 2: p = c.choose(int(model.size()) + 1, "seek"); MC_CHECK(c, w->seek(p) == off_t(p), "seek"); break;
            case 3: p = model.size(); MC_CHECK(c, w->seekEnd() == off_t(p), "seekEnd"); break;
            case 4: {
                ssize_t n = w->read(b, 2);
                ssize_t e = std::min<ssize_t>(2, model.size() - p);
                MC_CHECK(c, n == e && ::memcmp(b, model.data() + p, e) == 0, "the writer reads other bytes");
                p += e;
                break;
            }
            case 5: w->sync(); break;
            case 6:
            case 7: {
                int k = c.choose(2, "reader");
                q[k]  = c.choose(int(model.size()) + 1, "seek");
                MC_CHECK(c, r[k]->seek(q[k]) == off_t(q[k]), "seek");
                break;
            }
            case 8: {
                int k = c.choose(2, "reader");
                MC_CHECK(c, r[k]->seekEnd() == off_t(model.size()), "seekEnd of a reader");
                q[k] = model.size();
                break;
            }
            case 9: {
                int k = c.choose(2, "reader");
                MC_CHECK(c, r[k]->seek(q[k]) == off_t(q[k]), "seek");
                ssize_t n = r[k]->read(b, 2);
                ssize_t e = std::min<ssize_t>(2, model.size() - q[k]);
                MC_CHECK(c, n == e, "reader ", k, " reads ", n, " bytes instead of ", e);
                MC_CHECK(c, ::memcmp(b, model.data() + q[k], e) == 0, "reader ", k, " reads ", mc::quote(std::string(b, n)), " instead of ", mc::quote(model.substr(q[k], e)));
                q[k] += e;
                break;
            }
        }
    }
}, opts(3));

// failures and crashes
namespace {

std::unique_ptr<DataHandle> make(int kind) {
    switch (kind) {
        case 0: return std::make_unique<FileHandle>("t");
        case 1: return std::make_unique<BufferedHandle>(new FileHandle("t"), 4);
        case 2: return std::make_unique<BufferedHandle>(new BufferedHandle(new FileHandle("t"), 6), 2);
        case 3: return std::unique_ptr<DataHandle>(new TeeHandle(new BufferedHandle(new FileHandle("t"), 4), new FileHandle("u")));
        case 4: {
            auto m = std::make_unique<MultiHandle>();
            *m += new FileHandle("t");
            *m += Length(2);
            *m += new BufferedHandle(new FileHandle("u"), 2);
            *m += Length(4);
            return m;
        }
        case 5: return std::make_unique<RawFileHandle>("t");
        default: {
            return std::unique_ptr<DataHandle>(new FileDescHandle(::open("t", O_WRONLY | O_CREAT | O_TRUNC, 0666), true));
        }
    }
}

std::string contents(int kind) { return kind == 4 ? getFile("t") + getFile("u") : getFile("t"); }

// six bytes, in some writes
void script(int kind, const std::vector<int>& w, bool flush) {
    auto h = make(kind);
    // anything that says it is done should be
    h->openForWrite(Length(6));
    int from = 0;
    for (int n : w) {
        std::string s = bytes(from, n);
        from += n;
        long r = h->write(s.data(), n);
        if (r != n) {
            fault::ack("short");
            try {
                h->close();
            }
            catch (std::exception&) {
            }
            return;
        }
        if (flush && kind < 5) {
            h->flush();
            fault::ack(mc::cat("flushed ", from));
        }
    }
    h->close();
    fault::ack("closed");
}

void faulty(mc::Ctx& c, fault::Options o) {
    ::unlink("t");
    ::unlink("u");
    int kind   = c.choose(o.power ? 5 : 7, "handle");
    static const std::vector<std::vector<int>> ws{{6}, {2, 4}, {3, 3}, {1, 1, 4}};
    auto& w    = c.pick(ws, "writes");
    bool flush = c.flag("flush");
    auto r     = fault::run(c, o, [&]() { script(kind, w, flush); });
    std::string g = contents(kind), all = bytes(0, 6);
    size_t done = 0;
    bool closed = false, isShort = false;
    for (auto& a : r.acks) {
        if (a == "closed") closed = true;
        else if (a == "short") isShort = true;
        else done = size_t(atoi(a.c_str() + 8));
    }
    if (closed) {
        MC_CHECK(c, g == all, "everything was reported written and closed, but there is ", mc::quote(g));
        if (kind == 3) MC_CHECK(c, getFile("u") == all, "everything was reported written and closed, but the other file has ", mc::quote(getFile("u")));
    }
    if (!r.faulted && !r.crashed && kind < 5) MC_CHECK(c, closed, "failed without a fault: ", r.error, isShort ? " short" : "");
    if (done && kind != 4) MC_CHECK(c, g.substr(0, done) == all.substr(0, done), "flushed ", done, " bytes, but there is ", mc::quote(g));
    if (done && kind == 4) MC_CHECK(c, g.size() >= done, "flushed ", done, " bytes, but there is ", mc::quote(g));
    c.state(mc::cat(kind, r.where, r.acks.size()));
    c.outcome(mc::cat(kind, closed, r.faulted, r.crashed, g.size()));
}

}  // namespace

MC_SECTION("errors", [](mc::Ctx& c) {
    fault::Options o;
    o.crash       = false;
    o.errors      = {EIO, ENOSPC};
    o.shortWrites = true;
    o.budget      = c.tier() ? 2 : 1;
    faulty(c, o);
}, opts(3));

MC_SECTION("power", [](mc::Ctx& c) {
    fault::Options o;
    o.power = true;
    faulty(c, o);
}, opts(3));

// appending after reading with the same handle is as safe
MC_SECTION("append power", [](mc::Ctx& c) {
    putFile("t", "AB");
    fault::Options o;
    o.power = true;
    bool read = c.flag("read first");
    auto r = fault::run(c, o, [&]() {
        FileHandle h("t");
        if (read) {
            char b[4];
            h.openForRead();
            h.read(b, 4);
            h.close();
        }
        h.openForAppend(0);
        h.write("cd", 2);
        h.close();
        fault::ack("closed");
    });
    bool closed = !r.acks.empty();
    std::string g = getFile("t");
    if (closed) MC_CHECK(c, g == "ABcd", "appended and closed, but after a power failure there is ", mc::quote(g));
}, opts(2));
