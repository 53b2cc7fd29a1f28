// E01: decoding gives back what was encoded; damaged input is refused or harmless
#include <time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "eckit/io/Base64.h"
#include "eckit/io/BitIO.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/Compress.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/utils/Compressor.h"
#include "eckit/utils/RLE.h"
#include "eckit/io/Buffer.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "common.h"

using namespace eckit;

// time as the run-length encoder sees it: the explorer says at which look the deadline has passed
namespace {
int looks    = -1;  // -1: real time
int deadline = 0;
}  // namespace
extern "C" int clock_gettime(clockid_t id, struct timespec* t) {
    int r = ::syscall(SYS_clock_gettime, id, t);
    if (looks >= 0 && id == CLOCK_MONOTONIC) {
        t->tv_sec  = looks++ > deadline ? 2000000 : 1000000;
        t->tv_nsec = 0;
    }
    return r;
}

namespace {
std::string refBase64(const std::string& s, bool url) {
    const char* a = url ? "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_" : "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string o;
    for (size_t i = 0; i < s.size(); i += 3) {
        unsigned v = 0;
        size_t n   = std::min<size_t>(3, s.size() - i);
        for (size_t k = 0; k < 3; k++) v = v << 8 | (k < n ? (unsigned char)s[i + k] : 0);
        for (size_t k = 0; k < 4; k++) o += k <= n ? a[(v >> (18 - 6 * k)) & 63] : '=';
    }
    return o;
}

void base64(mc::Ctx& c, const std::string& s, bool url) {
    Base64 b(url);
    std::string ref = refBase64(s, url), enc, dec;
    {
        MemoryHandle in(s.data(), s.size()), out(16, true);
        size_t n = b.encode(in, out);
        enc      = s.empty() ? "" : out.str();
        MC_CHECK(c, s.empty() || n == enc.size(), "encode says ", n, " bytes and makes ", enc.size());
        MC_CHECK(c, enc == ref, "Base64 of ", mc::quote(s), " is ", mc::quote(enc), " instead of ", mc::quote(ref));
    }
    {
        MemoryHandle in(ref.data(), ref.size()), out(16, true);
        size_t n = Base64(url).decode(in, out);
        dec      = s.empty() ? "" : out.str();
        MC_CHECK(c, s.empty() || n == dec.size(), "decode says ", n, " bytes and makes ", dec.size());
        MC_CHECK(c, dec == s, mc::quote(ref), " is decoded as ", mc::quote(dec), " instead of ", mc::quote(s));
    }
    c.evals();
}
}  // namespace

MC_SECTION("base64", [](mc::Ctx& c) {
    bool url = c.flag("url");
    int kind = c.choose(2, "kind");
    if (kind == 0) {
        // all strings of up to two bytes
        int a = c.choose(32, "first byte");
        if (a == 0) base64(c, "", url);
        for (int i = a * 8; i < a * 8 + 8; i++) {
            base64(c, std::string(1, char(i)), url);
            for (int j = 0; j < 256; j++) base64(c, std::string(1, char(i)) + char(j), url);
        }
    }
    else {
        // longer ones: what counts is the position of each bit
        int len = 3 + c.choose(20, "length");
        std::string zero(len, 0), one(len, char(255));
        base64(c, zero, url);
        base64(c, one, url);
        for (int i = 0; i < 8 * len; i++) {
            std::string a = zero, b = one;
            a[i / 8] ^= 1 << (i % 8);
            b[i / 8] ^= 1 << (i % 8);
            base64(c, a, url);
            base64(c, b, url);
        }
        std::string s(len, 0);
        const char v[] = {0, 1, '=', char(0xfb), char(0xff)};
        if (len <= 5)
            for (int n = 0, e = len == 3 ? 125 : len == 4 ? 625 : 3125; n < e; n++) {
                for (int i = 0, r = n; i < len; i++, r /= 5) s[i] = v[r % 5];
                base64(c, s, url);
            }
    }
    c.nontrivial();
}, opts(2));

// any text: decoded as Base64 when it is Base64, and otherwise refused or decoded to something, twice the same
MC_SECTION("base64-any", [](mc::Ctx& c) {
    const char alpha[] = {'A', '/', '=', '*', '\n'};
    int len = c.choose(c.tier() ? 8 : 7, "length");
    std::string s;
    for (int i = 0; i < len; i++) s += c.pick(alpha, "character");
    MC_LOG(c, mc::quote(s));
    std::string res[2];
    for (int k = 0; k < 2; k++) {
        auto b = std::make_unique<Base64>();
        MemoryHandle in(s.data(), s.size()), out(16, true);
        // something else on the stack and the heap
        volatile char dirty[600];
        for (auto& d : dirty) d = k * 85;
        Base64 other;
        memset((void*)&other, k ? 0xaa : 0x11, sizeof(other));
        new (&other) Base64(false);
        try {
            size_t n = other.decode(in, out);
            res[k]   = mc::cat("ok ", n, " ", n ? out.str() : "");
        }
        catch (Exception& e) {
            res[k] = "refused";
        }
    }
    MC_CHECK(c, res[0] == res[1], mc::quote(s), " is decoded as ", mc::quote(res[0]), " and as ", mc::quote(res[1]));
    c.outcome(res[0].substr(0, 4));
    c.step();
}, opts(3));

MC_SECTION("bits", [](mc::Ctx& c) {
    const size_t widths[] = {1, 3, 8, 13, 32, 64};
    const size_t vals[]   = {0, 1, ~size_t(0), 0x5aa5c33c96690ff0};
    int n = 1 + c.choose(c.tier() ? 5 : 4, "fields");
    std::vector<std::pair<size_t, size_t>> f;
    std::string bits;
    for (int i = 0; i < n; i++) {
        size_t w = c.pick(widths, "width"), v = vals[(i * 7 + w) % 4];
        if (i == n - 1) v = c.pick(vals, "value");
        if (w < 64) v &= (size_t(1) << w) - 1;
        f.push_back({w, v});
        for (size_t k = w; k--;) bits += char('0' + (v >> k & 1));
    }
    std::string padded = bits + std::string((8 - bits.size() % 8) % 8, '0'), bytes;
    for (size_t i = 0; i < padded.size(); i += 8) bytes += char(std::stoi(padded.substr(i, 8), nullptr, 2));
    std::string got;
    {
        MemoryHandle out(16, true);
        {
            BitIO b(out);
            for (auto& e : f) {
                MC_LOG(c, "write ", e.second, " in ", e.first, " bits");
                b.write(e.second, e.first);
            }
            MC_CHECK(c, b.bitCount() == bits.size(), b.bitCount(), " bits written instead of ", bits.size());
            MC_CHECK(c, b.byteCount() == bytes.size(), b.byteCount(), " bytes");
        }
        got = out.str();
    }
    MC_CHECK(c, got == bytes, "bytes are ", mc::hex(got.data(), got.size()), " instead of ", mc::hex(bytes.data(), bytes.size()));
    // read back: as written, then in other widths
    for (int k = 0; k < 4; k++) {
        MemoryHandle in(bytes.data(), bytes.size());
        BitIO b(in, k == 3);
        size_t at = 0, marker = 0x1234567;
        for (size_t i = 0;; i++) {
            size_t w = k == 0 ? (i < f.size() ? f[i].first : 64) : k == 1 ? 5 : k == 2 ? 17 : 6;
            size_t v = b.read(w, marker);
            size_t e = 0;
            if (at + w > padded.size() && !(k == 3 && at < padded.size())) {
                MC_CHECK(c, v == marker, "reading past the end gives ", v);
                v = b.read(w, marker);
                MC_CHECK(c, v == marker, "reading again past the end gives ", v);
                bool threw = false;
                try {
                    b.read(w);
                }
                catch (ReadError&) {
                    threw = true;
                }
                MC_CHECK(c, threw, "reading past the end does not fail");
                break;
            }
            for (size_t j = 0; j < w; j++) e = e << 1 | (at + j < padded.size() && padded[at + j] == '1');
            at += w;
            MC_CHECK(c, v == e, "field ", i, " of width ", w, " read as ", v, " instead of ", e);
        }
    }
    c.step(n);
}, opts(3));

namespace {
std::string pattern(int p, size_t len) {
    std::string s(len, 0);
    uint32_t x = 12345;
    for (size_t i = 0; i < len; i++) {
        switch (p) {
            case 0: s[i] = 'a'; break;
            case 1: s[i] = char(i); break;
            case 2: s[i] = char((i >> 8) + i * (i % 3)); break;
            case 3: x = x * 1664525 + 1013904223, s[i] = char(x >> 24); break;
            case 4: s[i] = "abcdefg"[i % 7]; break;
            default: s[i] = i % 64 == 63 ? char(i / 64) : ' ';
        }
    }
    return s;
}

void lzw(mc::Ctx& c, const std::string& s, size_t maxBits) {
    std::string enc, dec;
    {
        MemoryHandle in(s.data(), s.size()), out(1024, true);
        size_t n = Compress(maxBits).encode(in, out);
        enc      = out.str();
        MC_CHECK(c, n == enc.size(), "encode says ", n, " bytes and makes ", enc.size());
    }
    try {
        MemoryHandle in(enc.data(), enc.size()), out(1024, true);
        size_t n = Compress(maxBits).decode(in, out);
        dec      = s.empty() && !n ? "" : out.str();
        MC_CHECK(c, n == dec.size(), "decode says ", n, " bytes and makes ", dec.size());
    }
    catch (Exception& e) {
        c.fail(mc::cat("what was made of ", s.size(), " bytes with ", maxBits, " bits cannot be decoded: ", e.what()));
    }
    MC_CHECK(c, dec == s, s.size(), " bytes with ", maxBits, " bits come back as ", dec.size(), dec.size() == s.size() ? " other" : "", " bytes");
    c.evals();
}
}  // namespace

// short strings over two and three letters, and lengths around those where the width of the codes changes
MC_SECTION("lzw-short", [](mc::Ctx& c) {
    int len = c.choose(c.tier() ? 13 : 11, "length");
    std::string s;
    for (int i = 0; i < len; i++) s += char('a' + c.choose(2, "letter"));
    MC_LOG(c, mc::quote(s));
    lzw(c, s, 16);
}, opts(5));

MC_SECTION("lzw", [](mc::Ctx& c) {
    int p          = c.choose(6, "pattern");
    size_t maxBits = c.pick({9, 10, 11, 16}, "max bits");
    int block      = c.choose(maxBits == 16 ? 36 : 30, "block of lengths");
    size_t step    = 45;
    size_t lo = block * step, hi = lo + step;
    if (maxBits == 16 && block >= 30) {  // wider codes: the lengths around them
        size_t mid = (size_t(1) << (11 + block - 30)) - 257;
        if (!c.tier() && (block == 33 || block == 34)) c.reject();
        if (p != 1 && p != 3) c.reject();
        lo = mid - (block == 35 ? 2 : 6), hi = mid + (block == 35 ? 3 : 6);
    }
    for (size_t len = lo; len < hi; len++) lzw(c, pattern(p, len), maxBits);
    c.nontrivial();
}, opts(3));

MC_SECTION("rle", [](mc::Ctx& c) {
    int letters = c.pick({2, 3, 4}, "letters");
    int len = c.choose(letters == 2 ? 12 : letters == 3 ? 8 : 7, "length");
    std::vector<long> v;
    for (int i = 0; i < len; i++) {
        // a new letter only after all smaller ones were used
        long m = -1;
        for (long x : v) m = std::max(m, x);
        v.push_back(c.choose(std::min<long>(letters, m + 2), "number"));
    }
    if (letters > 2) {
        long m = -1;
        for (long x : v) m = std::max(m, x);
        if (m + 1 < letters) c.reject();
    }
    std::string show;
    for (long x : v) show += mc::cat(x, " ");
    MC_LOG(c, show);
    auto check = [&](const std::vector<long>& e, long long n, const char* how) {
        MC_CHECK(c, n == (long long)e.size(), how, ": says ", n, " numbers and makes ", e.size());
        std::vector<long> d;
        RLEdecode2(e.begin(), e.end(), std::back_inserter(d));
        if (d != v) {
            std::string s;
            for (long x : e) s += mc::cat(x, " ");
            c.fail(mc::cat(how, ": ", show, "encoded as ", s, "comes back otherwise"));
        }
        c.evals();
    };
    for (long long maxLoop : {1, 2, 100}) {
        // exactly as large as it is, so that reading beyond is noticed
        const std::vector<long> a(v.begin(), v.end());
        std::vector<long> e;
        long long n = RLEencode2(a.begin(), a.end(), std::back_inserter(e), maxLoop);
        check(e, n, "without limit");
        for (long depth : {0L, 1L, 2L}) {
            e.clear();
            n = RLEencode2(v.begin(), v.end(), std::back_inserter(e), maxLoop, std::chrono::hours(10), depth);
            check(e, n, "with a limited depth");
        }
    }
    // through a stream
    {
        char buf[4096];
        MemoryStream out(buf, sizeof(buf));
        RLEwrite(out, v.begin(), v.end(), 100);
        out << 12345L;
        MemoryStream in(buf, sizeof(buf));
        std::vector<long> back;
        long after = 0;
        RLEread(in, std::back_inserter(back), (long*)nullptr);
        in >> after;
        MC_CHECK(c, back == v && after == 12345, show, "through a stream comes back otherwise");
    }
    std::vector<long> d, r;
    bool sorted = std::is_sorted(v.begin(), v.end());
    MC_CHECK(c, DIFFencode(v.begin(), v.end(), std::back_inserter(d)) == sorted, "differences of ", show);
    if (sorted) {
        DIFFdecode(d.begin(), d.end(), std::back_inserter(r));
        MC_CHECK(c, r == v, "differences of ", show, "come back otherwise");
    }
    // on a stream, where numbers which do not increase are written as they are
    for (int kind = 0; kind < 2; ++kind) {
        Buffer b(64);
        ResizableMemoryStream out(b);
        if (kind) RLEDIFFwrite(out, v.begin(), v.end(), 100LL);
        else RLEwrite(out, v.begin(), v.end(), 100LL);
        out << 4711;
        MemoryStream in(b);
        std::vector<long> back;
        int end = 0;
        if (kind) RLEDIFFread(in, std::back_inserter(back), (long*)nullptr);
        else RLEread(in, std::back_inserter(back), (long*)nullptr);
        in >> end;
        MC_CHECK(c, back == v && end == 4711, kind ? "differences" : "runs", " on a stream: ", show, "come back as ", back.size(), " numbers");
        c.evals();
    }
    c.nontrivial();
}, opts(4));

// the time limit passes at any moment
MC_SECTION("rle-time", [](mc::Ctx& c) {
    std::vector<long> v;
    int base = c.choose(5, "shape"), unit = 1 + c.choose(base < 3 ? 6 : 9, "unit"), reps = 1 + c.choose(4, "times"), tail = c.choose(3, "tail");
    for (int r = 0; r < reps; r++)
        for (int i = 0; i < unit; i++) v.push_back(base == 0 ? i : base == 1 ? i / 2 : base == 2 ? i % 2 : base == 3 ? (i < unit - 1 ? i % 2 : 5) : (i < unit - 1 ? i % 3 : 5));
    for (int i = 0; i < tail; i++) v.push_back(i * base);
    for (deadline = 0;; deadline++) {
        std::vector<long> e, d;
        looks       = 0;
        long long n = RLEencode2(v.begin(), v.end(), std::back_inserter(e), 100, std::chrono::seconds(10), 1000L);
        bool over   = looks > deadline;
        looks       = -1;
        RLEdecode2(e.begin(), e.end(), std::back_inserter(d));
        MC_CHECK(c, n == (long long)e.size(), "says ", n, " numbers and makes ", e.size());
        MC_CHECK(c, d == v, "with the time over at look ", deadline, ", ", v.size(), " numbers come back as ", d.size());
        c.evals();
        if (!over) break;
    }
    c.nontrivial();
}, opts(3));

namespace {
const char* compressors[] = {"none", "lz4", "snappy", "bzip2"};
}

MC_SECTION("compressors", [](mc::Ctx& c) {
    const char* name = c.pick(compressors, "compressor");
    int p            = c.choose(6, "pattern");
    int blk          = c.choose(8, "lengths");
    for (size_t i = 0; i < 13; i++) {
        size_t len = blk < 4 ? blk * 13 + i : (size_t(1) << (7 + 2 * (blk - 4))) - 6 + i;
        std::string s = pattern(p, len);
        for (size_t room : {size_t(0), size_t(1), len, 2 * len + 1000}) {
            std::unique_ptr<Compressor> z(CompressorFactory::instance().build(name));
            Buffer enc(room), dec(room);
            size_t n = z->compress(s.data(), s.size(), enc);
            MC_CHECK(c, n <= enc.size(), name, ": ", n, " bytes in a buffer of ", enc.size());
            std::string e((const char*)enc.data(), n);
            std::unique_ptr<Compressor> y(CompressorFactory::instance().build(name));
            y->uncompress(e.data(), n, dec, len);
            MC_CHECK(c, dec.size() >= len && std::string((const char*)dec.data(), len) == s, name, ": ", len, " bytes come back otherwise");
            c.evals();
        }
    }
    c.nontrivial();
}, opts(3));

// damaged: refused or harmless, and a cut stream never passes for the whole
MC_SECTION("damaged", [](mc::Ctx& c) {
    const char* name = c.pick(compressors, "compressor");
    int p            = c.choose(6, "pattern");
    size_t len       = c.pick({1, 7, 40, 300}, "length");
    std::string s    = pattern(p, len);
    std::unique_ptr<Compressor> z(CompressorFactory::instance().build(name));
    Buffer enc(0);
    size_t n = z->compress(s.data(), s.size(), enc);
    std::string e((const char*)enc.data(), n);
    auto attempt = [&](const std::string& d, size_t want) {
        std::unique_ptr<char[]> exact(new char[d.size() + 1]);
        std::unique_ptr<char[]> in(d.empty() ? nullptr : new char[d.size()]);
        std::copy(d.begin(), d.end(), in.get());
        Buffer dec(0);
        c.evals();
        try {
            z->uncompress(d.empty() ? exact.get() : in.get(), d.size(), dec, want);
        }
        catch (Exception&) {
            return std::string("refused");
        }
        MC_CHECK(c, dec.size() >= want, "gives ", dec.size(), " bytes instead of ", want);
        return std::string((const char*)dec.data(), want);
    };
    MC_CHECK(c, attempt(e, len) == s, "comes back otherwise");
    MC_CHECK(c, attempt(e, len + 1) == "refused", name, ": more bytes than there are were asked for, and it did not fail");
    for (size_t i = 0; i < n; i++) {
        std::string r = attempt(e.substr(0, i), len);
        MC_CHECK(c, r == "refused" || r == s, name, ": the first ", i, " bytes of ", n, " pass for the whole");
        for (int k = 0; k < 8; k += (n > 60 && !c.tier()) ? 3 : 1) {
            std::string d = e;
            d[i] ^= 1 << k;
            r = attempt(d, len);
            if (std::string(name) == "bzip2" && i > 10 && r != "refused") c.outcome("not noticed");
        }
    }
    c.nontrivial();
}, opts(3));
