// I01: a handle open for reading is the sequence of bytes it describes
#include <iostream>
#include "eckit/io/HandleBuf.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "handles.h"

using namespace eckit;
using namespace hs;

namespace {



void readCheck(mc::Ctx& c, DataHandle& h, const std::string& content, size_t& p, long n) {
    char buf[80];
    ::memset(buf, '#', sizeof(buf));
    long r = h.read(buf + 8, n);
    long e = std::min<long>(n, long(content.size() - p));
    MC_LOG(c, "read(", n, ") = ", r, r > 0 ? " " + std::string(buf + 8, std::min<long>(r, 64)) : std::string());
    MC_CHECK(c, r == e, "read(", n, ") at ", p, " of ", content.size(), " returns ", r, " instead of ", e);
    MC_CHECK(c, e == 0 || ::memcmp(buf + 8, content.data() + p, e) == 0, "read(", n, ") at ", p, " gives ", mc::quote(std::string(buf + 8, e)), " instead of ",
             mc::quote(content.substr(p, e)));
    for (int i = 0; i < 80; ++i) MC_CHECK(c, (i >= 8 && i < 8 + e) || buf[i] == '#', "read(", n, ") writes outside of the ", e, " bytes it returns");
    p += e;
    c.step();
}

void open(mc::Ctx& c, Src& s) {
    Length l = s.h->openForRead();
    if (s.caps & LEN) MC_CHECK(c, l == Length(s.content.size()), "openForRead() returns ", l, " for ", s.content.size(), " bytes");
}

void inspect(mc::Ctx& c, Src& s, size_t p) {
    if (s.caps & POS) MC_CHECK(c, s.h->position() == Offset(p), "position() is ", s.h->position(), " instead of ", p);
    if (s.caps & SIZE) MC_CHECK(c, s.h->size() == Length(s.content.size()), "size() is ", s.h->size(), " instead of ", s.content.size());
    if (s.caps & EST) MC_CHECK(c, s.h->estimate() == Length(s.content.size()), "estimate() is ", s.h->estimate(), " instead of ", s.content.size());
}

struct Op {
    char k;
    long n;
};

std::vector<Op> ops(const Src& s, bool wide) {
    std::vector<Op> v{{'r', 1}, {'r', 2}, {'r', 60}};
    if (wide) v.push_back({'r', 3});
    size_t n = s.content.size();
    if (s.caps & SEEK)
        for (size_t i = 0; i <= n; ++i)
            if (wide || i < 3 || i + 1 >= n || i % 3 == 0) v.push_back({'s', long(i)});
    if (s.caps & SKIP)
        for (long i = 0; i < 4; ++i) v.push_back({'k', i});
    if (s.caps & REWIND) v.push_back({'w', 0});
    if (s.caps & RESTART)
        for (size_t i = 0; i < n; i += wide ? 1 : 2) v.push_back({'R', long(i)});
    v.push_back({'o', 0});
    return v;
}

void drive1(mc::Ctx& c, Src& s, int depth, bool wide) {
    MC_LOG(c, s.what, " = ", mc::quote(s.content));
    size_t p = 0;
    size_t top = 0;  // the furthest read (for the handles that only seek there)
    open(c, s);
    inspect(c, s, p);
    auto v = ops(s, wide);
    auto sk = dynamic_cast<SeekableHandle*>(s.h.get());
    auto pk = dynamic_cast<PeekHandle*>(s.h.get());
    size_t base = 0;
    if (sk) {
        for (size_t i = 0; i <= s.content.size(); ++i) v.push_back({'s', long(i)});
        for (long i = 1; i < 3; ++i) v.push_back({'k', i});
        v.push_back({'c', 0});
    }
    if (pk)
        for (long i = 0; i < 3; ++i) {
            v.push_back({'p', i});
            v.push_back({'P', i});
        }
    if (pk) v.push_back({'k', 1});
    std::string trail;
    for (int i = 0; i < depth; ++i) {
        Op o = v[c.choose(int(v.size()), "op")];
        size_t n = s.content.size();
        trail += mc::cat(o.k, o.n);
        switch (o.k) {
            case 'r':
                readCheck(c, *s.h, s.content, p, o.n);
                break;
            case 's':
                if (sk && (size_t(o.n) > top || size_t(o.n) < base)) c.reject();
                MC_LOG(c, "seek(", o.n, ")");
                MC_CHECK(c, s.h->seek(Offset(o.n)) == Offset(o.n), "seek(", o.n, ") returns something else");
                p = o.n;
                break;
            case 'k':
                if (p + o.n > n) c.reject();
                if (sk && p + o.n > top) c.reject();
                if (pk && pk->peeked() < size_t(o.n)) c.reject();
                MC_LOG(c, "skip(", o.n, ")");
                s.h->skip(Length(o.n));
                p += o.n;
                break;
            case 'w':
                if (sk && base) c.reject();
                MC_LOG(c, "rewind()");
                s.h->rewind();
                p = 0;
                break;
            case 'R':
                MC_LOG(c, "restartReadFrom(", o.n, ")");
                s.h->restartReadFrom(Offset(o.n));
                p = o.n;
                break;
            case 'o':
                MC_LOG(c, "close, openForRead");
                if (i + 1 == depth) c.reject();
                s.h->close();
                open(c, s);
                p = top = base = 0;
                break;
            case 'c':
                MC_LOG(c, "clear()");
                sk->clear();
                p = base = top;
                break;
            case 'p':
                if (p + o.n >= n) c.reject();
                MC_LOG(c, "peek(", o.n, ")");
                MC_CHECK(c, pk->peek(size_t(o.n)) == (unsigned char)s.content[p + o.n], "peek(", o.n, ") at ", p, " gives another byte");
                break;
            case 'P': {
                char b[16];
                ::memset(b, '#', 16);
                size_t at = std::min<size_t>(o.n, n - p);
                size_t e = std::min<size_t>(3, n - p - at);
                long r = pk->peek(b + 4, 3, at);
                MC_LOG(c, "peek(3 bytes at +", at, ") = ", r);
                MC_CHECK(c, r == long(e), "peek() of 3 bytes at ", p, "+", at, " returns ", r, " instead of ", e);
                MC_CHECK(c, ::memcmp(b + 4, s.content.data() + p + at, e) == 0, "peek() of 3 bytes at ", p, "+", at, " gives other bytes");
                for (int k = 0; k < 16; ++k) MC_CHECK(c, (k >= 4 && k < 7) || b[k] == '#', "peek() writes out of bounds");
                break;
            }
        }
        top = std::max(top, p);
        inspect(c, s, p);
        c.state(mc::cat(s.what, p, top, i));
    }
    // and what is left
    readCheck(c, *s.h, s.content, p, 60);
    readCheck(c, *s.h, s.content, p, 60);
    s.h->close();
    c.outcome(s.what);
}

void drive(mc::Ctx& c, Src& s, int depth, bool wide = false) {
    try {
        drive1(c, s, depth, wide);
    }
    catch (...) {
        // a handle dropped without close() keeps its file open
        try {
            s.h->close();
        }
        catch (...) {
        }
        throw;
    }
}

Src leaf(mc::Ctx& c) {
    int f = c.pick({0, 1, 2});
    switch (c.choose(7, "leaf")) {
        case 0: return file(f);
        case 1: return mem(f);
        case 2: return mem(f, 1);
        case 3: return mmapped(f);
        case 4: return raw(f);
        case 5: return pooled(f);
        default: {
            if (f) c.reject();
            Src s;
            s.h.reset(new EmptyHandle());
            s.caps = POS | REWIND;
            s.what = "Empty";
            return s;
        }
    }
}

std::vector<Part> parts(mc::Ctx& c, int max, const std::vector<Part>& can) {
    std::vector<Part> v;
    int n = c.choose(max + 1, "parts");
    for (int i = 0; i < n; ++i) v.push_back(can[c.choose(int(can.size()), "part")]);
    return v;
}

Src small(mc::Ctx& c, int k) {
    switch (k) {
        case 0: return file(0);
        case 1: return file(1);
        case 2: return file(2);
        case 3: return partFile(0, {{1, 2}, {5, 1}});
        case 4: return partFile(0, {{3, 1}});
        case 5: return mem(2);
        case 6: return partFile(3, {{0, 0}, {4, 2}});
        case 7: return buffered(file(2), 4);
        case 8: return part(file(0), {{2, 3}});
        case 9: return pooled(2);
        case 10: {
            std::vector<Src> v;
            v.push_back(partFile(0, {{6, 1}}));
            v.push_back(file(2));
            return multi(std::move(v), true);
        }
        default: return mmapped(2);
    }
}

}  // namespace

MC_SECTION("leaf", [](mc::Ctx& c) {
    makeFiles();
    Src s = leaf(c);
    drive(c, s, c.tier() ? 5 : 4, true);
}, opts(2));

MC_SECTION("parts", [](mc::Ctx& c) {
    makeFiles();
    static const std::vector<Part> can{{0, 0}, {0, 2}, {2, 1}, {3, 3}, {5, 2}, {7, 0}, {1, 1}};
    auto p = parts(c, 3, can);
    if (c.flag("file")) {
        if (p.empty()) c.reject();
        Src s = partFile(0, p);
        drive(c, s, c.tier() ? 4 : 3);
    }
    else {
        if (p.empty()) c.reject();
        Src s = part(c.flag("memory") ? mem(0) : file(0), p);
        drive(c, s, c.tier() ? 4 : 3);
    }
}, opts(3));

// what is sorted, merged and compressed still stands for the same bytes
MC_SECTION("merge", [](mc::Ctx& c) {
    makeFiles();
    static const std::vector<Part> can{{0, 0}, {0, 2}, {2, 1}, {3, 2}, {4, 2}, {5, 2}};
    auto p = parts(c, 3, can);
    auto q = parts(c, 2, can);
    int how = c.choose(3, "how");
    if (how < 2) {
        if (p.empty() || q.empty()) c.reject();
        Src s = partFile(0, p), t = partFile(0, q);
        if (how == 1) {
            std::unique_ptr<DataHandle> x(s.h->clone()), y(t.h->clone());
            s.h = std::move(x);
            t.h = std::move(y);
        }
        bool ok = s.h->merge(t.h.get());
        MC_CHECK(c, ok, "parts of one file do not merge");
        s.content += t.content;
        drive(c, s, 1);
    }
    else {
        if (q.size()) c.reject();
        OffsetList o;
        LengthList l;
        lists(p, o, l);
        eckit::sort(o, l);
        MC_CHECK(c, o.size() == p.size() && l.size() == p.size(), "sort changes the number of ranges");
        auto e = p;
        std::stable_sort(e.begin(), e.end(), [](const Part& a, const Part& b) { return a.o < b.o; });
        std::multiset<std::pair<long long, long long>> x, y;
        for (size_t i = 0; i < p.size(); ++i) {
            MC_CHECK(c, i == 0 || o[i - 1] <= o[i], "sort does not order the ranges");
            x.insert({(long long)o[i], (long long)l[i]});
            y.insert({e[i].o, e[i].l});
        }
        MC_CHECK(c, x == y, "sort loses or changes a range: ", show(p));
        std::string before, after;
        for (size_t i = 0; i < o.size(); ++i) before += files()[0].substr((long long)o[i], (long long)l[i]);
        if (o.size()) eckit::compress(o, l);
        for (size_t i = 0; i < o.size(); ++i) after += files()[0].substr((long long)o[i], (long long)l[i]);
        MC_CHECK(c, before == after, "compress changes the bytes: ", before, " ", after);
        for (size_t i = 1; i < o.size(); ++i) MC_CHECK(c, o[i - 1] + l[i - 1] != o[i], "compress leaves adjacent ranges");
    }
}, opts(3));

MC_SECTION("multi", [](mc::Ctx& c) {
    makeFiles();
    int n = c.choose(4, "handles");
    std::vector<Src> v;
    for (int i = 0; i < n; ++i) v.push_back(small(c, c.choose(12, "handle")));
    Src s = multi(std::move(v), c.flag("merging"));
    int d = n == 3 ? 1 : 2;
    drive(c, s, c.tier() ? d + 1 : d);
}, opts(3));

MC_SECTION("wrapped", [](mc::Ctx& c) {
    makeFiles();
    Src s;
    switch (c.choose(6, "inner")) {
        case 0: s = file(0); break;
        case 1: s = partFile(0, {{1, 2}, {5, 1}, {0, 1}}); break;
        case 2: s = mem(0); break;
        case 3: {
            std::vector<Src> v;
            v.push_back(file(2));
            v.push_back(file(1));
            v.push_back(partFile(0, {{2, 2}, {4, 1}}));
            s = multi(std::move(v), true);
            break;
        }
        case 4: s = part(mem(0), {{2, 3}, {0, 1}}); break;
        case 5: s = buffered(file(0), 3); break;
    }
    switch (c.choose(9, "outer")) {
        case 0: s = buffered(std::move(s), 1); break;
        case 1: s = buffered(std::move(s), 2); break;
        case 2: s = buffered(std::move(s), 3); break;
        case 3: s = buffered(std::move(s), 16); break;
        case 4: s = peek(std::move(s)); break;
        case 5: s = seekable(std::move(s)); break;
        case 6: s = peek(buffered(std::move(s), 2)); break;
        case 7: s = buffered(peek(std::move(s)), 2); break;
        case 8: s = buffered(buffered(std::move(s), 3), 2); break;
    }
    drive(c, s, c.tier() ? 5 : 4);
}, opts(3));

// three readers of one pooled file, one of them through parts
MC_SECTION("pooled", [](mc::Ctx& c) {
    makeFiles();
    std::vector<Src> v;
    v.push_back(pooled(0));
    v.push_back(pooled(0));
    v.push_back(partFile(0, {{4, 2}, {1, 1}}));
    std::vector<bool> isOpen(3);
    std::vector<size_t> p(3);
    int depth = c.tier() ? 6 : 5;
    for (int i = 0; i < depth; ++i) {
        int k = c.choose(3, "which");
        if (!isOpen[k]) {
            MC_LOG(c, "open ", k);
            open(c, v[k]);
            isOpen[k] = true;
            p[k]      = 0;
        }
        else {
            switch (c.choose(5, "op")) {
                case 0: MC_LOG(c, k, ":"); readCheck(c, *v[k].h, v[k].content, p[k], 2); break;
                case 1: MC_LOG(c, k, ":"); readCheck(c, *v[k].h, v[k].content, p[k], 60); break;
                case 2: MC_LOG(c, "seek ", k); v[k].h->seek(1); p[k] = 1; break;
                case 3: MC_LOG(c, "close ", k); v[k].h->close(); isOpen[k] = false; break;
                case 4: {
                    MC_LOG(c, "delete ", k);
                    v[k].h->close();
                    isOpen[k] = false;
                    v[k]      = k == 2 ? partFile(0, {{4, 2}, {1, 1}}) : pooled(0);
                    break;
                }
            }
        }
        for (int j = 0; j < 3; ++j)
            if (isOpen[j]) MC_CHECK(c, v[j].h->position() == Offset(p[j]), "position() of reader ", j, " is ", v[j].h->position(), " instead of ", p[j]);
    }
    for (int j = 0; j < 3; ++j)
        if (isOpen[j]) {
            readCheck(c, *v[j].h, v[j].content, p[j], 60);
            v[j].h->close();
        }
}, opts(3));

// the C stream and the C++ stream over a handle
MC_SECTION("stdio", [](mc::Ctx& c) {
    makeFiles();
    Src s;
    switch (c.choose(5, "inner")) {
        case 0: s = file(3); break;
        case 1: s = partFile(0, {{1, 2}, {5, 1}, {0, 1}}); break;
        case 2: s = mem(0); break;
        case 3: s = mmapped(0); break;
        case 4: {
            std::vector<Src> v;
            v.push_back(file(0));
            v.push_back(file(2));
            s = multi(std::move(v), false);
            break;
        }
    }
    MC_LOG(c, s.what);
    long n = long(s.content.size()), p = 0;
    bool openMode = c.flag("openf(mode)");
    FILE* f;
    if (openMode) f = s.h->openf("r");
    else {
        s.h->openForRead();
        f = s.h->openf();
    }
    MC_CHECK(c, f, "no FILE");
    for (int i = 0; i < 3; ++i) {
        switch (c.choose(9, "op")) {
            case 0: {
                int x = fgetc(f);
                MC_LOG(c, "fgetc = ", x);
                MC_CHECK(c, x == (p < n ? (unsigned char)s.content[p] : EOF), "fgetc at ", p, " gives ", x);
                if (p < n) p++;
                break;
            }
            case 1: {
                char b[64];
                long r = long(fread(b, 1, 3, f)), e = std::min(3L, n - p);
                MC_LOG(c, "fread(3) = ", r);
                MC_CHECK(c, r == e && ::memcmp(b, s.content.data() + p, e) == 0, "fread(3) at ", p, " gives ", r);
                p += e;
                break;
            }
            case 2: MC_CHECK(c, fseek(f, 2, SEEK_SET) == 0, "fseek(2, SEEK_SET)"); p = 2; break;
            case 3: MC_CHECK(c, fseek(f, n, SEEK_SET) == 0, "fseek(end, SEEK_SET)"); p = n; break;
            case 4:
                if (p + 1 > n) c.reject();
                MC_CHECK(c, fseek(f, 1, SEEK_CUR) == 0, "fseek(1, SEEK_CUR)");
                p += 1;
                break;
            case 5:
                if (p < 1) c.reject();
                MC_CHECK(c, fseek(f, -1, SEEK_CUR) == 0, "fseek(-1, SEEK_CUR)");
                p -= 1;
                break;
            case 6: MC_CHECK(c, fseek(f, 0, SEEK_END) == 0, "fseek(0, SEEK_END)"); p = n; break;
            case 7: MC_CHECK(c, fseek(f, -2, SEEK_END) == 0, "fseek(-2, SEEK_END)"); p = n - 2; break;
            case 8: rewind(f); p = 0; break;
        }
        MC_CHECK(c, ftell(f) == p, "ftell() is ", ftell(f), " instead of ", p);
    }
    std::string rest;
    int x;
    while ((x = fgetc(f)) != EOF) rest += char(x);
    MC_CHECK(c, rest == s.content.substr(p), "the rest is ", mc::quote(rest), " instead of ", mc::quote(s.content.substr(p)));
    MC_CHECK(c, fclose(f) == 0, "fclose fails");
    if (!openMode) s.h->close();
    // C++
    s.h->openForRead();
    {
        HandleBuf b(*s.h);
        std::istream in(&b);
        std::string all;
        char ch;
        while (in.get(ch)) all += ch;
        MC_CHECK(c, all == s.content, "HandleBuf gives ", mc::quote(all));
    }
    s.h->close();
}, opts(3));

// a copy, and what arrives at the other end of a stream, give the same bytes
MC_SECTION("copies", [](mc::Ctx& c) {
    makeFiles();
    Src s;
    bool clone = c.flag("clone");
    switch (c.choose(8, "handle")) {
        case 0: s = file(c.choose(3)); break;
        case 1: s = partFile(0, {{1, 2}, {5, 1}, {0, 1}}); break;
        case 2: s = partFile(0, {{2, 3}}); break;
        case 3: s = mmapped(0); break;
        case 4: if (clone) c.reject(); s = part(file(0), {{2, 3}, {0, 1}}); break;
        case 5: if (!clone) c.reject(); s = mem(0, c.choose(2)); break;
        case 6: if (!clone) c.reject(); s = buffered(file(0), 2); break;
        case 7: {
            std::vector<Src> v;
            int n = c.choose(4);
            for (int i = 0; i < n; ++i) v.push_back(small(c, c.pick({0, 1, 2, 3, 4, 6, 10, 11})));
            s = multi(std::move(v), c.flag("merging"));
            break;
        }
    }
    // possibly already used
    bool open = false;
    if (c.flag("used")) {
        s.h->openForRead();
        char b[2];
        s.h->read(b, 2);
        if (c.flag("closed")) s.h->close();
        else open = true;
    }
    if (clone) s.h.reset(s.h->clone());
    else if (int way = c.choose(3, "as it is, to a local process, made local"); way == 2) {
        if (open) s.h->close();  // it is the same handle
        if (DataHandle* local = s.h->toLocal(); local != s.h.get()) s.h.reset(local);
    }
    else {
        Buffer b(4096);
        ResizableMemoryStream w(b);
        if (way) s.h->toLocal(w);
        else w << *s.h;
        MemoryStream r(b.data(), b.size());
        s.h.reset(Reanimator<DataHandle>::reanimate(r));
        MC_CHECK(c, s.h, "nothing comes out of the stream");
    }
    drive(c, s, 1);
}, opts(3));

// positions beyond 2 and 4 GiB (a sparse file)
MC_SECTION("large", [](mc::Ctx& c) {
    makeFiles();
    static const std::vector<long long> marks{0, (1LL << 31) - 2, (1LL << 31), (1LL << 32) - 1, (1LL << 32) + 1, 5LL << 30};
    static const long long size = (5LL << 30) + 3;
    auto byte = [](long long p) -> char {
        for (size_t i = 0; i < marks.size(); ++i)
            if (marks[i] == p) return char('A' + i);
        return 0;
    };
    static bool made = false;
    if (!made) {
        int fd = ::open("big", O_RDWR | O_CREAT | O_TRUNC, 0666);
        if (::ftruncate(fd, size)) c.fail("HARNESS: sparse file", "harness");
        for (auto m : marks) {
            char b = byte(m);
            if (::pwrite(fd, &b, 1, m) != 1) c.fail("HARNESS: sparse file", "harness");
        }
        ::close(fd);
        made = true;
    }
    struct Big {
        std::unique_ptr<DataHandle> h;
        long long base;  // of its position 0 in the file
        long long len;
        bool seek;
    } b{nullptr, 0, size, true};
    int kind = c.choose(8, "handle");
    struct Closer {
        Big& b;
        ~Closer() {
            try {
                if (b.h) b.h->close();
            }
            catch (...) {
            }
        }
    } closer{b};
    auto pf = [&](DataHandle* in, long long o, long long l, bool asPart) {
        OffsetList ol{Offset(o), Offset(o + l - 5)};
        LengthList ll{Length(l - 5), Length(5)};
        b.base = o;
        b.len = l;
        b.seek = !asPart;
        if (asPart) b.h.reset(new PartHandle(in, ol, ll));
        else b.h.reset(new PartFileHandle(PathName("big"), ol, ll));
    };
    switch (kind) {
        case 0: b.h.reset(new FileHandle("big")); break;
        case 1: b.h.reset(new RawFileHandle("big")); break;
        case 2: b.h.reset(new MMappedFileHandle("big")); break;
        case 3: b.h.reset(new PooledHandle(PathName("big"))); break;
        case 4: pf(nullptr, 1, size - 1, false); break;
        case 5: pf(new FileHandle("big"), (1LL << 31) - 3, (3LL << 30), true); break;
        case 6: b.h.reset(new BufferedHandle(new FileHandle("big"), 4)); break;
        case 7: {
            std::vector<DataHandle*> v{new PartFileHandle(PathName("big"), Offset(0), Length(3LL << 30)), new PartFileHandle(PathName("big"), Offset(3LL << 30), Length(size - (3LL << 30)))};
            b.h.reset(new MultiHandle(v));
            break;
        }
    }
    Length l = b.h->openForRead();
    MC_CHECK(c, l == Length(b.len), "openForRead() returns ", l, " for ", b.len);
    long long p = 0;
    auto rd = [&]() {
        char buf[4] = {9, 9, 9, 9};
        long e = long(std::min<long long>(3, b.len - p));
        long r = b.h->read(buf, 3);
        MC_LOG(c, "read(3) at ", p, " = ", r);
        MC_CHECK(c, r == e, "read(3) at ", p, " returns ", r);
        for (long i = 0; i < e; ++i) MC_CHECK(c, buf[i] == byte(b.base + p + i), "read(3) at ", p, " gives other bytes");
        p += e;
        c.step();
    };
    for (int i = 0; i < 2; ++i) {
        long long to = marks[c.choose(int(marks.size()), "where")] - b.base - c.choose(2, "less");
        if (to < 0 || to > b.len) c.reject();
        switch (c.choose(3, "op")) {
            case 0:
                if (!b.seek) c.reject();
                MC_CHECK(c, b.h->seek(Offset(to)) == Offset(to), "seek(", to, ") returns something else");
                break;
            case 1:
                if (!b.seek || to < p) c.reject();
                b.h->skip(Length(to - p));
                break;
            case 2:
                if (kind != 0 && kind != 4 && kind != 5 && kind != 7) c.reject();
                if (to >= b.len) c.reject();
                b.h->restartReadFrom(Offset(to));
                break;
        }
        p = to;
        if (b.seek) MC_CHECK(c, b.h->position() == Offset(p), "position() is ", b.h->position(), " instead of ", p);
        rd();
        if (b.seek) MC_CHECK(c, b.h->position() == Offset(p), "position() is ", b.h->position(), " instead of ", p);
        c.state(mc::cat(kind, " ", p));
    }
}, opts(2));
