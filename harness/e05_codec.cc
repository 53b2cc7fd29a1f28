// E05: records of items: what is written is read, damage is refused
#include <array>
#include <cmath>
#include <cstring>
#include <filesystem>
#include <limits>
#include <map>
#include "eckit/codec/codec.h"
#include "eckit/codec/RecordItemReader.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/utils/Compressor.h"
#include "common.h"

using namespace eckit;
namespace fs = std::filesystem;

// sizes which are damaged are refused as by a system that has not so much memory
void* operator new(size_t n) {
    void* p = n < (1ul << 28) ? malloc(n) : nullptr;
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

namespace {
void fresh() {
    for (auto& e : fs::directory_iterator(".")) fs::remove_all(e.path());
}
template <class T>
bool same(const T& a, const T& b) { return a == b; }
bool same(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
bool same(float a, float b) { return memcmp(&a, &b, sizeof a) == 0; }
template <class T>
bool same(const std::vector<T>& a, const std::vector<T>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++)
        if (!same(a[i], b[i])) return false;
    return true;
}
LocalConfiguration compression(const std::string& name) {
    LocalConfiguration c;
    c.set("compression", name);
    return c;
}
const std::vector<std::string>& compressors() {
    static const std::vector<std::string> all = [] {
        std::vector<std::string> v = {"none"};
        for (auto n : {"snappy", "lz4", "bzip2", "aec"})
            if (CompressorFactory::instance().has(n)) v.push_back(n);
        return v;
    }();
    return all;
}
// a value of some type, which can be written in a record and looked for there
struct Item {
    virtual ~Item() = default;
    virtual void write(codec::RecordWriter&, const std::string& key, const Configuration&) = 0;
    virtual void ask(codec::RecordReader&, const std::string& key) = 0;
    virtual bool good() const = 0;
    virtual void reset() = 0;
    virtual bool data() const { return false; }
    std::string name;
};
template <class T>
struct ItemOf : Item {
    T v, r;
    ItemOf(const T& x, const T& start, const std::string& n) : v(x), r(start), first(start) { name = n; }
    void write(codec::RecordWriter& w, const std::string& key, const Configuration& c) override { w.set(key, v, c); }
    void ask(codec::RecordReader& rd, const std::string& key) override { rd.read(key, r); }
    bool good() const override { return same(v, r); }
    void reset() override { r = first; }
    T first;
};
template <class T>
struct ArrayOf : ItemOf<T> {
    using ItemOf<T>::ItemOf;
    bool byRef = false;
    void write(codec::RecordWriter& w, const std::string& key, const Configuration& c) override {
        if (byRef) w.set(key, codec::ref(this->v), c);
        else w.set(key, this->v, c);
    }
    bool data() const override { return true; }
};
using Items = std::vector<std::shared_ptr<Item>>;
template <class T>
void scalars(Items& all, const std::vector<T>& vs, T start) {
    for (auto& v : vs) all.push_back(std::make_shared<ItemOf<T>>(v, start, mc::cat("scalar ", v)));
}
template <class T>
void arrays(Items& all, const std::vector<T>& vs) {
    for (size_t n : {size_t(0), size_t(1), size_t(2), size_t(4), size_t(5), size_t(300)}) {
        std::vector<T> v;
        for (size_t i = 0; i < n; i++) v.push_back(vs[i % vs.size()]);
        for (bool ref : {false, true}) {
            auto a = std::make_shared<ArrayOf<std::vector<T>>>(v, std::vector<T>(3), mc::cat("array of ", n, " ", codec::DataType::str<T>(), ref ? " by reference" : ""));
            a->byRef = ref;
            all.push_back(a);
        }
    }
}
const double INF = std::numeric_limits<double>::infinity();
Items& everything() {
    static Items all = [] {
        Items a;
        scalars<int>(a, {0, 1, -1, 255, 65536, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()}, 99);
        scalars<long>(a, {0, -1, 1l << 53, (1l << 53) + 1, std::numeric_limits<long>::max(), std::numeric_limits<long>::min()}, 99);
        scalars<unsigned long>(a, {0, 1, (1ul << 53) + 1, (1ul << 63) - 1}, 99);
        scalars<float>(a, {0.f, -0.f, 1.f / 3.f, -2.5e-38f, 3.4e38f, 1e-45f}, 99);
        scalars<double>(a, {0., -0., 1. / 3., -2.5e-308, 1.7e308, 5e-324, 1e22, 123456789012345678., INF, -INF, std::nan("")}, 99);
        for (const char* s : {"", "a", "a b", " a ", "1", "1.5", "null", "true", "~", "-", "a: b", "# c", "\"q\"", "'q'", "a\nb", "\n", "\t", "a\\b", "\\n", "{a}", "[1]", "caf\xc3\xa9", "%", "a,b", "&x", "*x", "!x", "|", ">", "-1", "1e3", "0x1", "yes", "\r", "\x01", "/"})
            a.push_back(std::make_shared<ItemOf<std::string>>(s, "before", mc::cat("string '", s, "'")));
        arrays<int>(a, {0, -1, 7, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()});
        arrays<long>(a, {-1, 1l << 53, (1l << 62) + 1, 3});
        arrays<unsigned long>(a, {1, (1ul << 53) + 1, 7});
        arrays<float>(a, {1.5f, -0.f, 1e-45f, 1.f / 3.f});
        arrays<double>(a, {1. / 3., -0., 5e-324, 1.7e308});
        {
            std::vector<std::array<double, 3>> v = {{1, 2, 3}, {4, 5, 6}}, z(1);
            a.push_back(std::make_shared<ArrayOf<std::vector<std::array<double, 3>>>>(v, z, "array of triples"));
            std::vector<std::array<int, 2>> w = {{1, 2}, {4, 5}, {6, 7}}, y(1);
            a.push_back(std::make_shared<ArrayOf<std::vector<std::array<int, 2>>>>(w, y, "array of pairs"));
            std::array<float, 4> f = {1, 2, 3, 4}, g{};
            a.push_back(std::make_shared<ArrayOf<std::array<float, 4>>>(f, g, "array of four"));
        }
        return a;
    }();
    return all;
}
// the items of a record, at an offset of a file
struct Rec {
    std::vector<std::string> keys;
    std::vector<Item*> items;
    size_t offset = 0, length = 0;
    void add(const std::string& k, Item* i) { keys.push_back(k); items.push_back(i); }
};
std::string readAll(codec::RecordReader& rd, Rec& r, bool lazily) {
    for (size_t i = 0; i < r.keys.size(); i++) {
        r.items[i]->reset();
        r.items[i]->ask(rd, r.keys[i]);
        if (!lazily) rd.wait(r.keys[i]);
    }
    rd.wait();
    std::string bad;
    for (size_t i = 0; i < r.keys.size(); i++)
        if (!r.items[i]->good()) bad += r.keys[i] + " (" + r.items[i]->name + ") ";
    return bad;
}
}  // namespace

// --------------------------------------------------------------------------------------------------------------------
// every type and value, written to a file, memory or a stream, and read in each way
MC_SECTION("values", [](mc::Ctx& c) {
    fresh();
    Rec r;
    int group = c.choose(int(everything().size() + 4) / 5);
    auto comp = c.pick(compressors());
    int how = c.choose(3);  // file, memory, opened stream
    bool check = c.flag(), lazily = c.flag();
    codec::RecordWriter w;
    w.checksum(check);
    if (how == 1) w.compression(comp);
    size_t end = std::min(everything().size(), size_t(group) * 5 + 5);
    for (size_t i = size_t(group) * 5; i < end; i++) {
        auto* it = everything()[i].get();
        r.add(mc::cat("key", i), it);
        if (how == 1) it->write(w, r.keys.back(), codec::NoConfig());
        else it->write(w, r.keys.back(), compression(comp));
    }
    size_t estimate = w.estimateMaximumSize();
    std::string bad;
    if (how == 0) {
        r.length = w.write("record");
        MC_CHECK(c, getFile("record").size() == r.length, "size of the file");
        codec::RecordReader rd("record");
        bad = readAll(rd, r, lazily);
        codec::RecordReader other("record");
        bad += readAll(other, r, !lazily);
    }
    else if (how == 1) {
        Buffer b(estimate);
        MemoryHandle out(b);
        out.openForWrite(0);
        r.length = w.write(out);
        out.close();
        MemoryHandle in(b.data(), r.length);
        in.openForRead();
        codec::RecordReader rd(in);
        bad = readAll(rd, r, lazily);
        in.close();
    }
    else {
        {
            codec::OutputFileStream s("record");
            s.write("before", 6);
            r.length = w.write(s);
            MC_CHECK(c, s.position() == 6 + r.length, "position after the record");
            s.close();
        }
        codec::InputFileStream s("record");
        codec::RecordReader rd(s, 6);
        bad = readAll(rd, r, lazily);
    }
    MC_CHECK(c, bad.empty(), "not read as written: ", bad);
    bool plain = comp == "none";
    MC_CHECK(c, plain ? estimate == r.length : estimate >= r.length, "the estimate ", estimate, " of ", r.length, " bytes");
    c.evals(int(r.keys.size()));
    c.nontrivial();
}, opts(2));

// --------------------------------------------------------------------------------------------------------------------
// damage of any byte, or a record which is cut, is refused or does no harm
namespace {
Items& few() {
    static Items all = {
        std::make_shared<ItemOf<int>>(42, 9, "scalar"),
        std::make_shared<ArrayOf<std::vector<double>>>(std::vector<double>{1, 2, 3}, std::vector<double>{9}, "array"),
        std::make_shared<ItemOf<std::string>>("text", "before", "string"),
        std::make_shared<ArrayOf<std::vector<int>>>(std::vector<int>{1, 2, 3, 4, 5, 6}, std::vector<int>{9}, "array of int"),
        std::make_shared<ArrayOf<std::vector<int>>>(std::vector<int>{6, 5, 4, 3, 2, 1}, std::vector<int>{9}, "other array of int"),
        std::make_shared<ItemOf<double>>(1. / 3., 9., "scalar"),
    };
    return all;
}
Rec record(codec::RecordWriter& w, const std::string& comp) {
    Rec r;
    static const char* keys[] = {"i", "d", "s", "a", "b", "x"};
    for (size_t i = 0; i < few().size(); i++) {
        r.add(keys[i], few()[i].get());
        few()[i]->write(w, keys[i], compression(comp));
    }
    return r;
}
}  // namespace
MC_SECTION("damage", [](mc::Ctx& c) {
    fresh();
    auto comp = c.pick(compressors());
    codec::RecordWriter w;
    Rec r = record(w, comp);
    r.length = w.write("record");
    std::string good = getFile("record");
    int part = c.choose(64);
    int kind = c.choose(c.tier() ? 7 : 4);  // a bit, all bits, a blank, zero, cut there
    size_t refused = 0, harmless = 0;
    for (size_t at = size_t(part); at < good.size(); at += 64) {
        std::string b = good;
        if (kind == 0) b[at] ^= 1;
        if (kind == 1) b[at] = char(~b[at]);
        if (kind == 2) b[at] = '0';
        if (kind == 3) b.resize(at);
        if (kind == 4) b[at] ^= 16;
        if (kind == 5) b[at] ^= 2;
        if (kind == 6) b[at] ^= char(128);
        if (b == good) continue;
        putFile("record", b);
        c.evals(1);
        // twice with the same session: the second time is not better
        std::string bad, what;
        int failures = 0;
        {
            codec::Session session;
            for (int time = 0; time < 2; time++) {
                Rec one = r;
                if (time) {
                    std::reverse(one.keys.begin(), one.keys.end());
                    std::reverse(one.items.begin(), one.items.end());
                }
                for (size_t i = 0; i < one.keys.size(); i++) {
                    one.items[i]->reset();
                    codec::RecordReader rd("record");
                    try {
                        one.items[i]->ask(rd, one.keys[i]);
                        rd.wait();
                        if (!one.items[i]->good()) bad += one.keys[i] + (time ? " the second time " : " ");
                    }
                    catch (std::exception& e) {
                        failures++;
                        what = e.what();
                    }
                }
            }
        }
        MC_CHECK(c, bad.empty(), "the byte ", at, " is damaged (", kind, ", ", comp, ") and these are read changed: ", bad);
        // a record which is cut is refused when it is read to its end
        if (kind == 3) {
            bool ok = false;
            try {
                codec::InputFileStream in("record");
                codec::Record rec;
                rec.read(in, true);
                ok = true;
            }
            catch (std::exception&) {}
            MC_CHECK(c, !ok, "a record of ", at, " bytes of ", good.size(), " is taken for complete");
        }
        (failures ? refused : harmless)++;
    }
    if (refused) c.outcome("refused");
    if (harmless) c.outcome("harmless");
    c.nontrivial();
}, opts(2));

// --------------------------------------------------------------------------------------------------------------------
// histories of records written to files, each read later at its offset
MC_SECTION("files", [](mc::Ctx& c) {
    fresh();
    int depth = c.tier() ? 4 : 3;
    std::map<std::string, std::vector<Rec>> files;
    for (int step = 0; step < depth; step++) {
        int op = c.choose(5);
        std::string f = op == 4 ? "g" : "f";
        auto& recs = files[f];
        codec::RecordWriter w;
        Rec r;
        static const size_t which[][3] = {{0, 1, 3}, {1, 4, 2}, {5, 3, 0}, {4, 4, 1}};
        for (size_t i = 0; i < 3; i++) {
            auto k = mc::cat("k", i);
            auto* it = few()[which[step][i]].get();
            r.add(k, it);
            it->write(w, k, compression(compressors()[size_t(step) % compressors().size()]));
        }
        if (op == 0) {
            recs.clear();
            r.length = w.write(f, codec::Mode::write);
        }
        else if (op == 2) {  // the last one again, through a stream
            codec::OutputFileStream s(f, codec::Mode::append);
            r.offset = recs.empty() ? 0 : recs.back().offset + recs.back().length;
            MC_CHECK(c, s.position() == r.offset, "position ", s.position(), " of a stream that appends at ", r.offset);
            r.length = w.write(s);
            recs.push_back(r);
            r.offset += r.length;
            r.length = w.write(s);
            s.close();
        }
        else {
            r.offset = recs.empty() ? 0 : recs.back().offset + recs.back().length;
            r.length = w.write(f, codec::Mode::append);
        }
        recs.push_back(r);
        MC_LOG(c, "step ", op, " file ", f, " offset ", r.offset);
        if (op == 3) {  // read one before the next is written
            codec::RecordReader rd(codec::Record::URI(f, recs[0].offset));
            auto bad = readAll(rd, recs[0], true);
            MC_CHECK(c, bad.empty(), "not read as written: ", bad);
        }
    }
    bool session = c.flag();
    std::unique_ptr<codec::Session> s(session ? new codec::Session : nullptr);
    for (auto& f : files) {
        size_t total = 0;
        for (auto& r : f.second) {
            codec::RecordReader rd(codec::Record::URI(f.first, r.offset));
            auto bad = readAll(rd, r, true);
            MC_CHECK(c, bad.empty(), "record of ", f.first, " at ", r.offset, " not read as written: ", bad);
            codec::InputFileStream in(f.first);
            in.seek(r.offset);
            codec::Record rec;
            rec.read(in, true);
            MC_CHECK(c, rec.size() == r.length && rec.keys() == r.keys && in.position() == r.offset + r.length, "the record at ", r.offset, " has ", rec.size(), " bytes of ", r.length);
            MC_CHECK(c, rec.has("k1") && !rec.has("zz") && !rec.empty(), "keys of the record");
            for (size_t i = 0; i < r.keys.size(); i++) {
                codec::RecordItemReader ir(codec::RecordItem::URI(f.first, r.offset, r.keys[i]));
                codec::Metadata m, m2;
                codec::Data d;
                ir.read(m);
                ir.read(m2, d);
                MC_CHECK(c, m.json() == m2.json() && m.data.size() == m2.data.size(), "the description of ", r.keys[i]);
                MC_CHECK(c, r.items[i]->data() == (d.size() > 0), "data of ", r.keys[i]);
            }
            total += r.length;
        }
        MC_CHECK(c, getFile(f.first).size() == total, "size of ", f.first);
    }
    c.nontrivial();
}, opts(3));

// --------------------------------------------------------------------------------------------------------------------
// links from records to items of others, in other directories, and links of links; keys of any kind
MC_SECTION("links", [](mc::Ctx& c) {
    fresh();
    fs::create_directories("a/b");
    fs::create_directories("b");
    fs::create_directories("a/b/b");
    static const std::vector<std::string> dirs = {"", "a/", "a/b/"};
    static const std::vector<std::string> names = {"key", "a.b", "a b", "a&b", "a=b", "a?b", "a#b", "a%20b", "a+b", "a:b", "K", "a/b", "1"};
    auto name = c.pick(names);
    size_t n = size_t(c.choose(int(few().size())));
    int chain = c.choose(3);
    int at = c.choose(3);
    size_t before = size_t(c.choose(2));
    auto* it = few()[n].get();
    std::string base = dirs[size_t(at)];
    // the item itself, after another record perhaps
    {
        codec::RecordWriter w, first;
        first.set(name, std::string("another"));
        it->write(w, name, compression(compressors().back()));
        size_t off = before ? first.write(base + "b/item", codec::Mode::append) : 0;
        w.write(base + "b/item", codec::Mode::append);
        Rec r;
        r.add(name, it);
        codec::RecordReader rd(base + "b/item", off);
        auto bad = readAll(rd, r, true);
        MC_CHECK(c, bad.empty(), "not read as written: ", bad);
        codec::RecordItem::URI u(codec::RecordItem::URI(base + "b/item", off, name).str());
        MC_CHECK(c, u.path == base + "b/item" && u.offset == off && u.key == name, "the URI of an item ", u.str(), " has ", u.path, " ", u.offset, " ", u.key);
        std::string target = codec::RecordItem::URI("b/item", off, name).str();
        for (int k = 0; k < chain; k++) {
            codec::RecordWriter l;
            l.set("link", codec::link(target));
            l.set("plain", 5);
            l.write(base + mc::cat("link", k));
            target = codec::RecordItem::URI(mc::cat("link", k), 0, "link").str();
        }
        if (chain) {
            for (int time = 0; time < 2; time++) {
                it->reset();
                int five = 0;
                codec::RecordReader lr(time ? std::string(fs::current_path()) + "/" + base + mc::cat("link", chain - 1) : base + mc::cat("link", chain - 1));
                it->ask(lr, "link");
                lr.read("plain", five);
                lr.wait();
                MC_CHECK(c, it->good() && five == 5, "a link to ", it->name, " is not read as written");
            }
        }
    }
    c.nontrivial();
}, opts(3));

// a record in which a key is set again, and a key read again
MC_SECTION("again", [](mc::Ctx& c) {
    fresh();
    int n = c.tier() ? 4 : 3;
    codec::RecordWriter w;
    std::map<std::string, Item*> want;
    for (int i = 0; i < n; i++) {
        auto k = mc::cat("k", c.choose(2));
        auto* it = few()[size_t(c.choose(int(few().size())))].get();
        it->write(w, k, compression(compressors()[size_t(i) % compressors().size()]));
        want[k] = it;
        MC_LOG(c, k, " = ", it->name);
    }
    w.write("record");
    codec::InputFileStream in("record");
    codec::Record rec;
    rec.read(in, true);
    MC_CHECK(c, rec.keys().size() == want.size(), "number of keys ", rec.keys().size());
    codec::RecordReader rd("record");
    for (int time = 0; time < 2; time++)
        for (auto& k : want) {
            k.second->reset();
            k.second->ask(rd, k.first);
            rd.wait(k.first);
            MC_CHECK(c, k.second->good(), k.first, " (", k.second->name, ") is not read as written, time ", time);
        }
    c.nontrivial();
}, opts(2));
