// E03: what is read from a stream is what was written to it, or reading fails
#include <fcntl.h>
#include <fstream>
#include <limits>
#include <map>
#include "eckit/filesystem/PathName.h"
#include "eckit/filesystem/URI.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/Length.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/Offset.h"
#include "eckit/serialisation/BadTag.h"
#include "eckit/serialisation/FileStream.h"
#include "eckit/serialisation/FstreamStream.h"
#include "eckit/serialisation/HandleStream.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/PipeStream.h"
#include "eckit/serialisation/Reanimator.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "eckit/serialisation/Streamable.h"
#include "eckit/types/Fraction.h"
#include "eckit/types/Types.h"
#include "common.h"

using namespace eckit;

// classes of our own that travel: Leaf < Base, Pair holds two objects
struct Base : public Streamable {
    int i;
    Base(int i) : i(i) {}
    Base(Stream& s) : Streamable(s) { s >> i; }
    void encode(Stream& s) const override {
        Streamable::encode(s);
        s << i;
    }
    const ReanimatorBase& reanimator() const override { return reanimator_; }
    static const ClassSpec& classSpec() { return classSpec_; }
    static ClassSpec classSpec_;
    static Reanimator<Base> reanimator_;
    virtual std::string show() const { return mc::cat("Base(", i, ")"); }
};
ClassSpec Base::classSpec_ = {&Streamable::classSpec(), "Base"};
Reanimator<Base> Base::reanimator_;

struct Leaf : public Base {
    std::string t;
    Leaf(int i, const std::string& t) : Base(i), t(t) {}
    Leaf(Stream& s) : Base(s) { s >> t; }
    void encode(Stream& s) const override {
        Base::encode(s);
        s << t;
    }
    const ReanimatorBase& reanimator() const override { return reanimator_; }
    static const ClassSpec& classSpec() { return classSpec_; }
    static ClassSpec classSpec_;
    static Reanimator<Leaf> reanimator_;
    std::string show() const override { return mc::cat("Leaf(", i, ",", mc::quote(t), ")"); }
};
ClassSpec Leaf::classSpec_ = {&Base::classSpec(), "Leaf"};
Reanimator<Leaf> Leaf::reanimator_;

struct Pair : public Base {
    std::unique_ptr<Base> a, b;
    Pair(int i, Base* a, Base* b) : Base(i), a(a), b(b) {}
    Pair(Stream& s) : Base(s) {
        a.reset(Reanimator<Base>::reanimate(s));
        b.reset(Reanimator<Base>::reanimate(s));
        if (!a || !b) throw ReadError("object missing");  // reanimate gives nothing at the end of the stream
    }
    void encode(Stream& s) const override {
        Base::encode(s);
        s << *a << *b;
    }
    const ReanimatorBase& reanimator() const override { return reanimator_; }
    static const ClassSpec& classSpec() { return classSpec_; }
    static ClassSpec classSpec_;
    static Reanimator<Pair> reanimator_;
    std::string show() const override { return mc::cat("Pair(", i, ",", a ? a->show() : "-", ",", b ? b->show() : "-", ")"); }
};
ClassSpec Pair::classSpec_ = {&Base::classSpec(), "Pair"};
Reanimator<Pair> Pair::reanimator_;

struct Alien : public Streamable {
    Alien() {}
    Alien(Stream& s) : Streamable(s) {}
    const ReanimatorBase& reanimator() const override { return reanimator_; }
    static const ClassSpec& classSpec() { return classSpec_; }
    static ClassSpec classSpec_;
    static Reanimator<Alien> reanimator_;
};
ClassSpec Alien::classSpec_ = {&Streamable::classSpec(), "Alien"};
Reanimator<Alien> Alien::reanimator_;

namespace {

// --- values

struct Val {
    virtual ~Val() {}
    virtual void put(Stream&) const = 0;
    virtual std::string get(Stream&) const = 0;  // read one of this type, as text
    virtual std::string text() const = 0;
};

std::string txt(const std::string& s) { return mc::quote(s); }
std::string txt(char c) { return mc::cat("char ", int(c)); }
std::string txt(unsigned char c) { return mc::cat("uchar ", int(c)); }
std::string txt(double d) {
    uint64_t b;
    memcpy(&b, &d, 8);
    return mc::cat("double ", std::hex, b);
}
template <class T>
std::string txt(const T& v) {
    return mc::cat(v);
}
std::string txt(const std::map<std::string, std::string>& m) {
    std::string s = "{";
    for (auto& e : m) s += mc::quote(e.first) + ":" + mc::quote(e.second) + ",";
    return s;
}
template <class T>
std::string txt(const std::vector<T>& v) {
    std::string s = "[";
    for (auto& e : v) s += txt(e) + ",";
    return s;
}

template <class T>
struct V : Val {
    T v;
    V(const T& v) : v(v) {}
    void put(Stream& s) const override { s << v; }
    std::string get(Stream& s) const override {
        T r{};
        s >> r;
        return txt(r);
    }
    std::string text() const override { return txt(v); }
};
struct Blob : Val {
    std::string b;
    bool large;
    Blob(const std::string& b, bool large) : b(b), large(large) {}
    void put(Stream& s) const override { large ? s.writeLargeBlob(b.data(), b.size()) : s.writeBlob(b.data(), b.size()); }
    std::string get(Stream& s) const override {
        std::unique_ptr<char[]> r(new char[b.size()]);
        large ? s.readLargeBlob(r.get(), b.size()) : s.readBlob(r.get(), b.size());
        return txt(std::string(r.get(), b.size()));
    }
    std::string text() const override { return txt(b); }
};
struct Obj : Val {
    std::unique_ptr<Base> o;
    Obj(Base* o) : o(o) {}
    void put(Stream& s) const override { s << *o; }
    std::string get(Stream& s) const override {
        std::unique_ptr<Base> r(Reanimator<Base>::reanimate(s));
        return r ? r->show() : "nothing";
    }
    std::string text() const override { return o->show(); }
};

using Maker = std::function<Val*()>;
template <class T>
Maker mk(const T& v) {
    return [v]() { return new V<T>(v); };
}

std::string bytes(size_t n, unsigned char first) {
    std::string s(n, 0);
    for (auto& c : s) c = char(first++);
    return s;
}

const std::vector<Maker>& makers(int level) {
    // few: one of each kind, for sequences; all: with the extremes of each
    static std::vector<Maker> few = {mk(int(-5)), mk(std::string("")), mk(std::string("x\0y", 3)), mk(-0.0), mk((unsigned long long)0x8123456789abcdefULL),
                                     []() { return new Blob(bytes(3, 15), false); },
                                     []() { return new Obj(new Base(3)); },
                                     []() { return new Obj(new Pair(1, new Leaf(2, "l"), new Base(4))); },
                                     mk(std::vector<std::string>{"a", ""})};
    static std::vector<Maker> all;
    if (all.empty()) {
        all = few;
        auto add = [](auto... v) { (void)std::initializer_list<int>{(all.push_back(mk(v)), 0)...}; };
        add(char(0), char(127), char(-128), char(-1), char(2));
        add((unsigned char)0, (unsigned char)255, (unsigned char)128);
        add(true, false);
        add(int(0), int(1), std::numeric_limits<int>::max(), std::numeric_limits<int>::min(), int(-1));
        add(0u, ~0u, 0x80000000u);
        add(short(0), short(-1), std::numeric_limits<short>::max(), std::numeric_limits<short>::min());
        add((unsigned short)0, (unsigned short)65535, (unsigned short)32768);
        add(0L, -1L, 0x7fffffffL, -0x80000000L, 12L);
        add(0UL, 0x80000000UL, 0xffffffffUL);
        add(0LL, -1LL, std::numeric_limits<long long>::max(), std::numeric_limits<long long>::min(), 0x80000000LL, -0x80000001LL, 0xffffffffLL, 0x100000000LL);
        add(0ULL, ~0ULL, 0x80000000ULL, 0xffffffff00000000ULL);
        add(0.0, 1.5, -1e308, 5e-324, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::quiet_NaN(), 3.141592653589793);
        add(std::string("\2\17\1"), std::string(300, 'z'), std::string(1, char(255)), bytes(256, 0));
        add(Offset(0), Offset(0x123456789aLL), Length(0), Length(0x7fffffffffffffffLL));
        add(Fraction(1, 3), Fraction(-7, 2), Fraction(5000000000LL, 7));
        add(std::vector<int>{}, std::vector<int>{1, -2, 3}, std::vector<double>{0.5, -0.0}, std::vector<long long>{1LL << 40}, std::vector<std::string>{"a", std::string("\0", 1), ""});
        add(std::map<std::string, std::string>{}, std::map<std::string, std::string>{{"k", "v"}, {"", std::string("a\0", 2)}});
        add(URI("file", PathName("/a/b")), URI("http://user@host:80/path?q=1#frag"));
        for (size_t n : {0, 1, 255, 5000})
            for (bool l : {false, true}) all.push_back([n, l]() { return new Blob(bytes(n, 10), l); });
        all.push_back([]() { return new Obj(new Leaf(-1, "")); });
        all.push_back([]() { return new Obj(new Pair(1, new Pair(2, new Leaf(3, "a"), new Leaf(4, "b")), new Pair(5, new Base(6), new Base(7)))); });
    }
    return level ? all : few;
}

// --- streams: written to the end, then read from the start
struct Media {
    virtual ~Media() {}
    virtual Stream& out() = 0;
    virtual Stream& in()  = 0;  // once everything is written
};
struct Resizable : Media {
    Buffer b;
    std::unique_ptr<ResizableMemoryStream> o;
    std::unique_ptr<MemoryStream> i;
    Resizable(size_t n) : b(n), o(new ResizableMemoryStream(b)) {}
    Stream& out() override { return *o; }
    Stream& in() override {
        // only what was written
        std::string d((const char*)b.data(), o->position());
        b = Buffer(d.size());
        b.copy(d.data(), d.size());
        i.reset(new MemoryStream(b));
        return *i;
    }
};
struct Growing : Media {  // the same stream read after rewind
    Buffer b;
    ResizableMemoryStream o;
    Growing() : b(size_t(0)), o(b) {}
    Stream& out() override { return o; }
    Stream& in() override {
        b.resize(o.position(), true);
        o.rewind();
        return o;
    }
};
struct Handle : Media {
    MemoryHandle h{size_t(1), true};
    std::unique_ptr<MemoryHandle> r;
    std::unique_ptr<HandleStream> o, i;
    Handle() {
        h.openForWrite(0);
        o.reset(new HandleStream(h));
    }
    Stream& out() override { return *o; }
    Stream& in() override {
        size_t n = h.position();
        h.close();
        r.reset(new MemoryHandle(h.data(), n));
        r->openForRead();
        i.reset(new HandleStream(*r));
        return *i;
    }
    ~Handle() {
        if (r) r->close();
        else h.close();
    }
};
struct File : Media {
    std::unique_ptr<FileStream> o, i;
    File() : o(new FileStream("stream", "w")) {}
    Stream& out() override { return *o; }
    Stream& in() override {
        o->close();
        o.reset();
        i.reset(new FileStream("stream", "r"));
        return *i;
    }
    ~File() {
        if (o) o->close();
        if (i) i->close();
    }
};
struct FileBoth : Media {
    std::unique_ptr<FileStream> o;
    FileBoth() : o(new FileStream("stream", "w+")) {}
    Stream& out() override { return *o; }
    Stream& in() override {
        o->rewind();
        return *o;
    }
    ~FileBoth() { o->close(); }
};
struct Pipe : Media {
    int fd[2];
    std::unique_ptr<PipeStream> o, i;
    Pipe() {
        if (::pipe(fd)) abort();
        ::fcntl(fd[1], F_SETPIPE_SZ, 1 << 20);
        o.reset(new PipeStream(-1, fd[1]));
    }
    Stream& out() override { return *o; }
    Stream& in() override {
        o.reset();
        i.reset(new PipeStream(fd[0], -1));
        return *i;
    }
    ~Pipe() {
        if (!i) ::close(fd[0]);
    }
};
Media* media(int k) {
    switch (k) {
        case 0: return new Resizable(0);
        case 1: return new Growing();
        case 2: return new Handle();
        case 3: return new File();
        case 4: return new Pipe();
        case 5: return new FileBoth();
        default: return new Resizable(67);
    }
}

std::string written(const std::vector<std::unique_ptr<Val>>& vals) {
    Buffer b(size_t(0));
    ResizableMemoryStream s(b);
    for (auto& v : vals) v->put(s);
    return std::string((const char*)b.data(), s.position());
}

// exactly these bytes, so that reading beyond is noticed
struct Exact {
    std::unique_ptr<char[]> p;
    MemoryStream s;
    Exact(const std::string& d) : p(new char[d.size() ? d.size() : 1]), s((const void*)p.get(), d.size()) { std::copy(d.begin(), d.end(), p.get()); }
};
}  // namespace

// all sequences of values of each kind over every medium
MC_SECTION("sequences", [](mc::Ctx& c) {
    auto& few = makers(0);
    int k     = c.choose(7, "medium");
    int n     = c.choose(c.tier() ? 5 : 4, "values");
    if (!c.tier() && n == 3 && k > 2 && k != 4) c.reject();
    std::vector<std::unique_ptr<Val>> vals;
    for (int i = 0; i < n; i++) vals.emplace_back(few[c.choose(few.size(), "value")]());
    std::unique_ptr<Media> m(media(k));
    Stream& o  = m->out();
    long total = 0;
    for (auto& v : vals) {
        MC_LOG(c, "write ", v->text());
        o.resetBytesWritten();
        v->put(o);
        total += o.bytesWritten();
    }
    MC_CHECK(c, total == (long)written(vals).size(), total, " bytes counted, ", written(vals).size(), " written");
    Stream& s = m->in();
    for (auto& v : vals) {
        std::string r = v->get(s);
        MC_LOG(c, "read ", r);
        MC_CHECK(c, r == v->text(), "read ", r, " instead of ", v->text());
        c.step();
    }
    int x;
    MC_CHECK(c, n == 0 || dynamic_cast<Obj*>(vals.back().get()) || !s.next(x), "there is more than was written");
    if (n && dynamic_cast<Obj*>(vals.back().get())) MC_CHECK(c, !s.next(), "there is another object");
    c.nontrivial();
}, opts(3));

// every value of every type after and before one of another
MC_SECTION("values", [](mc::Ctx& c) {
    auto &all = makers(1), &few = makers(0);
    int n = all.size();
    std::vector<std::unique_ptr<Val>> vals;
    vals.emplace_back(few[c.choose(few.size(), "first")]());
    for (int i = 0; i < n; i++) {
        vals.emplace_back(all[i]());
        vals.emplace_back(few[i % few.size()]());
    }
    int k = c.choose(7, "medium");
    std::unique_ptr<Media> m(media(k));
    for (auto& v : vals) v->put(m->out());
    Stream& s = m->in();
    for (auto& v : vals) {
        std::string r = v->get(s);
        MC_CHECK(c, r == v->text(), "read ", r, " instead of ", v->text());
        c.evals();
    }
    c.nontrivial();
}, opts(1));

// read as another type: it fails, and does not invent a value
MC_SECTION("types", [](mc::Ctx& c) {
    auto& all = makers(1);
    int i = c.choose(all.size(), "written");
    for (size_t j = 0; j < all.size(); j++) {
        std::vector<std::unique_ptr<Val>> vals;
        vals.emplace_back(all[i]());
        std::unique_ptr<Val> other(all[j]());
        // some types are made of others
        auto made = [](const Val& v) {
            std::string d = typeid(v).name();
            for (const char* t : {"Offset", "Length", "vector", "map", "URI", "Fraction"})
                if (d.find(t) != d.npos) return true;
            return false;
        };
        if (typeid(*vals[0]) != typeid(*other) && (made(*vals[0]) || made(*other))) continue;
        Exact e(written(vals));
        std::string r;
        try {
            r = other->get(e.s);
        }
        catch (Exception&) {
            r = "fails";
        }
        if (typeid(*vals[0]) == typeid(*other)) {
            MC_CHECK(c, r == vals[0]->text() || (dynamic_cast<Blob*>(other.get()) && r == "fails"), vals[0]->text(), " read as ", r);
        }
        else {
            // bool and int are one
            std::string a = typeid(*vals[0]).name(), b = typeid(*other).name();
            bool same = (a == typeid(V<bool>).name() && b == typeid(V<int>).name()) || (b == typeid(V<bool>).name() && a == typeid(V<int>).name());
            MC_CHECK(c, same || r == "fails", vals[0]->text(), " (", a, ") read as ", r, " (", b, ")");
        }
        c.evals();
    }
    c.nontrivial();
}, opts(1));

// the stream ends at any byte: the values before are right, and then reading fails
MC_SECTION("cut", [](mc::Ctx& c) {
    auto& few = makers(0);
    std::vector<std::unique_ptr<Val>> vals;
    int n = 1 + c.choose(c.tier() ? 3 : 2, "values");
    for (int i = 0; i < n; i++) vals.emplace_back(few[c.choose(few.size(), "value")]());
    std::string all = written(vals);
    std::vector<size_t> ends;
    for (int i = 1; i <= n; i++) {
        std::vector<std::unique_ptr<Val>> p(std::make_move_iterator(vals.begin()), std::make_move_iterator(vals.begin() + i));
        ends.push_back(written(p).size());
        std::move(p.begin(), p.end(), vals.begin());
    }
    for (size_t cut = 0; cut <= all.size(); cut++) {
        for (int k = 0; k < 2; k++) {
            Exact e(all.substr(0, cut));
            MemoryHandle h(e.p.get(), cut);
            h.openForRead();
            HandleStream hs(h);
            Stream& s = k ? (Stream&)hs : e.s;
            int good  = 0;
            for (auto& v : vals) {
                std::string r;
                try {
                    r = v->get(s);
                }
                catch (Exception&) {
                    break;
                }
                if (r == "nothing") break;
                MC_CHECK(c, r == v->text(), "cut after ", cut, " of ", all.size(), " bytes, ", r, " is read instead of ", v->text());
                good++;
            }
            int whole = 0;
            while (whole < n && ends[whole] <= cut) whole++;
            // the marks at the end of an object may be missing
            MC_CHECK(c, good == whole || (good == whole + 1 && ends[whole] <= cut + 2 && dynamic_cast<Obj*>(vals[whole].get())), "cut after ", cut, " of ", all.size(), " bytes, ", good, " values are read instead of ", whole);
            h.close();
            c.evals();
        }
    }
    c.nontrivial();
}, opts(2));

// not enough room: writing fails, and does not write elsewhere
MC_SECTION("full", [](mc::Ctx& c) {
    auto& few = makers(0);
    std::vector<std::unique_ptr<Val>> vals;
    int n = 1 + c.choose(2, "values");
    for (int i = 0; i < n; i++) vals.emplace_back(few[c.choose(few.size(), "value")]());
    std::string all = written(vals);
    for (size_t room = 0; room <= all.size(); room++) {
        std::unique_ptr<char[]> p(new char[room ? room : 1]);
        MemoryStream s((void*)p.get(), room);
        bool threw = false;
        try {
            for (auto& v : vals) v->put(s);
        }
        catch (WriteError&) {
            threw = true;
        }
        MC_CHECK(c, threw == (room < all.size()), "writing ", all.size(), " bytes in ", room, threw ? " fails" : " passes");
        if (!threw) MC_CHECK(c, std::string(p.get(), room) == all, "other bytes");
        c.evals();
    }
}, opts(2));

// objects: expected class, wrong class, unknown class, an exception in their place
MC_SECTION("objects", [](mc::Ctx& c) {
    Buffer b(size_t(0));
    ResizableMemoryStream o(b);
    std::vector<int> ops;
    int n = 1 + c.choose(4, "things");
    for (int i = 0; i < n; i++) {
        int op = c.choose(7, "thing");
        ops.push_back(op);
        switch (op) {
            case 0: o << Base(i); break;
            case 1: o << Leaf(i, "t"); break;
            case 2: o << Pair(i, new Base(1), new Leaf(2, "u")); break;
            case 3: o << Alien(); break;
            case 4: o.startObject(), o << std::string("NoSuchClass"), o.endObject(); break;
            case 5: o << UserError("what happened"); break;
            case 6: o << i; break;
        }
    }
    b.resize(o.position(), true);
    MemoryStream s(b);
    for (int i = 0; i <= n; i++) {
        std::string r, want;
        try {
            if (i < n && ops[i] == 6) {
                int v;
                s >> v;
                r = mc::cat("int ", v);
            }
            else if (i < n && ops[i] == 5) {
                std::string x;
                s >> x;
                r = x;
            }
            else {
                bool leaf = i < n && ops[i] == 1;
                std::unique_ptr<Base> p(leaf ? Reanimator<Leaf>::reanimate(s) : Reanimator<Base>::reanimate(s));
                r = p ? p->show() : "nothing";
            }
        }
        catch (RemoteException& e) {
            r = std::string(e.what()).find("what happened") != std::string::npos ? "exception" : e.what();
        }
        catch (Exception& e) {
            r = "fails";
        }
        if (i == n) want = "nothing";
        else switch (ops[i]) {
                case 0: want = Base(i).show(); break;
                case 1: want = Leaf(i, "t").show(); break;
                case 2: want = Pair(i, new Base(1), new Leaf(2, "u")).show(); break;
                case 5: want = "exception"; break;
                case 6: want = mc::cat("int ", i); break;
                default: want = "fails";
            }
        MC_LOG(c, "read ", r);
        MC_CHECK(c, r == want, "read ", r, " instead of ", want);
        c.step();
    }
}, opts(3));

// long numbers do not fit on the wire
MC_SECTION("long", [](mc::Ctx& c) {
    const long v[] = {0x80000000L, -0x80000001L, 0x100000000L, 0x7fffffffffffffffL, 5000000000L};
    bool uns       = c.flag("unsigned");
    long x         = c.pick(v, "value");
    if (uns && x < 0x100000000L) c.reject();
    Buffer b(size_t(0));
    ResizableMemoryStream o(b);
    std::string got;
    try {
        if (uns) o << (unsigned long)x;
        else o << x;
        MemoryStream s(b);
        long y;
        unsigned long z;
        uns ? s >> z : s >> y;
        got = uns ? mc::cat(z) : mc::cat(y);
    }
    catch (Exception&) {
        got = "refused";
    }
    if (got != "refused" && got != mc::cat(x)) c.fail(mc::cat(x, " written as a long is read as ", got), "long-beyond-32-bits");
}, opts(1));
