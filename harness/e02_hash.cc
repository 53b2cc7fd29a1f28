// E02: a hash depends on the bytes it was given, and on nothing else
#include <openssl/evp.h>
#include "eckit/utils/Hash.h"
#include "eckit/utils/MD4.h"
#include "eckit/utils/MD5.h"
#include "eckit/utils/SHA1.h"
#include "eckit/utils/xxHashing.h"
#include "common.h"

using namespace eckit;

namespace {
uint64_t rotl(uint64_t x, int r) { return x << r | x >> (64 - r); }
// XXH64 from its specification
std::string xxh64(const std::string& s) {
    const uint64_t P1 = 11400714785074694791ULL, P2 = 14029467366897019727ULL, P3 = 1609587929392839161ULL, P4 = 9650029242287828579ULL, P5 = 2870177450012600261ULL;
    auto r64 = [&](size_t i) { uint64_t v; memcpy(&v, s.data() + i, 8); return v; };
    auto r32 = [&](size_t i) { uint32_t v; memcpy(&v, s.data() + i, 4); return uint64_t(v); };
    auto round = [&](uint64_t a, uint64_t in) { return rotl(a + in * P2, 31) * P1; };
    size_t i = 0;
    uint64_t h;
    if (s.size() >= 32) {
        uint64_t v[4] = {P1 + P2, P2, 0, 0 - P1};
        for (; i + 32 <= s.size(); i += 32)
            for (int k = 0; k < 4; k++) v[k] = round(v[k], r64(i + 8 * k));
        h = rotl(v[0], 1) + rotl(v[1], 7) + rotl(v[2], 12) + rotl(v[3], 18);
        for (int k = 0; k < 4; k++) h = (h ^ round(0, v[k])) * P1 + P4;
    }
    else h = P5;
    h += s.size();
    for (; i + 8 <= s.size(); i += 8) h = rotl(h ^ round(0, r64(i)), 27) * P1 + P4;
    if (i + 4 <= s.size()) h = rotl(h ^ r32(i) * P1, 23) * P2 + P3, i += 4;
    for (; i < s.size(); i++) h = rotl(h ^ (unsigned char)s[i] * P5, 11) * P1;
    h ^= h >> 33;
    h *= P2;
    h ^= h >> 29;
    h *= P3;
    h ^= h >> 32;
    char b[20];
    snprintf(b, sizeof(b), "%016lx", (unsigned long)h);
    return b;
}

uint32_t rotl32(uint32_t x, int r) { return x << r | x >> (32 - r); }
// MD4 from RFC 1320
std::string md4(std::string s) {
    uint64_t bits = 8 * s.size();
    s += char(0x80);
    while (s.size() % 64 != 56) s += char(0);
    s.append((const char*)&bits, 8);
    uint32_t a0 = 0x67452301, b0 = 0xefcdab89, c0 = 0x98badcfe, d0 = 0x10325476;
    for (size_t o = 0; o < s.size(); o += 64) {
        uint32_t X[16];
        memcpy(X, s.data() + o, 64);
        uint32_t v[4] = {a0, b0, c0, d0};
        static const int ord[3][16] = {{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, {0, 4, 8, 12, 1, 5, 9, 13, 2, 6, 10, 14, 3, 7, 11, 15}, {0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15}};
        static const int sh[3][4] = {{3, 7, 11, 19}, {3, 5, 9, 13}, {3, 9, 11, 15}};
        static const uint32_t K[3] = {0, 0x5a827999, 0x6ed9eba1};
        for (int r = 0; r < 3; r++)
            for (int i = 0; i < 16; i++) {
                int k = (16 - i) % 4;
                uint32_t &a = v[k], b = v[(k + 1) % 4], c = v[(k + 2) % 4], d = v[(k + 3) % 4];
                uint32_t f = r == 0 ? (b & c) | (~b & d) : r == 1 ? (b & c) | (b & d) | (c & d) : b ^ c ^ d;
                a = rotl32(a + f + X[ord[r][i]] + K[r], sh[r][i % 4]);
            }
        a0 += v[0], b0 += v[1], c0 += v[2], d0 += v[3];
    }
    uint32_t out[4] = {a0, b0, c0, d0};
    std::string x;
    for (int i = 0; i < 16; i++) {
        char b[3];
        snprintf(b, 3, "%02x", ((unsigned char*)out)[i]);
        x += b;
    }
    return x;
}

std::string reference(const std::string& name, const std::string& s) {
    if (name == "xxh64" || name == "xxHash") return xxh64(s);
    if (name == "none") return "";
    if (name == "MD4") return md4(s);
    unsigned char d[EVP_MAX_MD_SIZE];
    unsigned n = 0;
    EVP_Digest(s.data(), s.size(), d, &n, name == "MD5" ? EVP_md5() : EVP_sha1(), nullptr);
    std::string x;
    for (unsigned i = 0; i < n; i++) {
        char b[3];
        snprintf(b, 3, "%02x", d[i]);
        x += b;
    }
    return x;
}
const char* names[] = {"MD5", "SHA1", "MD4", "xxh64", "xxHash"};
}  // namespace

// pieces, digests and resets in any order
MC_SECTION("histories", [](mc::Ctx& c) {
    const char* name = c.pick(names, "hash");
    const int sizes[] = {0, 1, 3, 31, 55, 64, 119};
    std::string m;
    std::unique_ptr<Hash> h;
    unsigned char next = 7;
    auto piece = [&](int n) {
        std::string s;
        for (int i = 0; i < n; i++) s += char(next++ * 37);
        return s;
    };
    if (c.flag("from a string")) {
        m = piece(c.pick({0, 5, 64}, "initial size"));
        h.reset(HashFactory::instance().build(name, m));
    }
    else h.reset(HashFactory::instance().build(name));
    // MD5::digest() destroys the context: a known finding
    bool digested = false, destroyed = false, md5 = std::string(name) == "MD5";
    auto check = [&](const std::string& got, const std::string& ref) {
        if (got == ref) return;
        c.fail(std::string(name) + " of " + std::to_string(m.size()) + " bytes is " + got + " instead of " + ref, md5 && destroyed ? "md5-after-digest" : "");
    };
    int depth = c.tier() ? 6 : 5;
    for (int d = 0; d < depth; d++) {
        int op = c.choose(10, "op");
        if (op < 7) {
            std::string s = piece(sizes[op]);
            MC_LOG(c, "add ", s.size(), " bytes");
            h->add(s.data(), s.size());
            m += s;
            destroyed = destroyed || digested;
        }
        else if (op == 7) {
            MC_LOG(c, "digest");
            check(h->digest(), reference(name, m));
            digested = true;
        }
        else if (op == 8) {
            MC_LOG(c, "reset");
            h->reset();
            digested = destroyed = false;
            m.clear();
        }
        else {
            std::string s = piece(70);
            MC_LOG(c, "compute");
            std::string got = h->compute(s.data(), s.size()), ref = reference(name, s);
            MC_CHECK(c, got == ref, name, " computed of ", s.size(), " bytes is ", got, " instead of ", ref);
        }
        c.step();
    }
    std::string ref = reference(name, m);
    check(h->digest(), ref);
    MC_CHECK(c, std::string(*h) == ref, "as a string it is different");
    c.nontrivial();
}, opts(3));

// every length, in one piece and cut everywhere
MC_SECTION("lengths", [](mc::Ctx& c) {
    const char* name = c.pick(names, "hash");
    int base         = c.choose(18, "length / 16") * 16;
    for (int len = base; len < base + 16; len++) {
        std::string s;
        for (int i = 0; i < len; i++) s += char(i * i + 3 * i + len);
        std::string ref = reference(name, s);
        std::unique_ptr<Hash> h(HashFactory::instance().build(name));
        MC_CHECK(c, h->compute(s.data(), s.size()) == ref, name, " of ", len, " bytes is ", h->compute(s.data(), s.size()));
        for (int cut = 0; cut <= len; cut++) {
            std::unique_ptr<Hash> g(HashFactory::instance().build(name, s.substr(0, cut)));
            *g << s.substr(cut);
            MC_CHECK(c, g->digest() == ref, name, " of ", len, " bytes cut at ", cut, " is ", g->digest(), " instead of ", ref);
            c.evals();
        }
    }
    c.nontrivial();
}, opts(2));

// a text given to begin with, in every way
template <class H>
void begins(mc::Ctx& c, const char* name) {
    std::string s;
    int n = c.choose(130, "length");
    for (int i = 0; i < n; i++) s += char('a' + i % 26);
    std::string ref = reference(name, s);
    H a(s.c_str()), b(s), d(s.data(), s.size()), e;
    e.add(s);
    H f;
    f.add(s.c_str(), s.size());
    MC_CHECK(c, a.digest() == ref && b.digest() == ref && d.digest() == ref && e.digest() == ref && f.digest() == ref, name, " of ", n, " characters given to begin with is ", a.digest(), " ", b.digest(), " ", d.digest(), " instead of ", ref);
    c.nontrivial();
}
MC_SECTION("begins", [](mc::Ctx& c) {
    switch (c.choose(3, "hash")) {
        case 0: begins<eckit::MD4>(c, "MD4"); break;
        case 1: begins<eckit::MD5>(c, "MD5"); break;
        case 2: begins<eckit::SHA1>(c, "SHA1"); break;
    }
}, opts(1));

// numbers are their bytes
template <class H>
void numbers(mc::Ctx& c, const char* name) {
    std::string m;
    H h;
    auto add = [&](auto v) {
        h << v;
        m.append((const char*)&v, sizeof(v));
    };
    for (int i = 0; i < 4; i++) {
        switch (c.choose(10, "type")) {
            case 0: add(char(i)); break;
            case 1: add(bool(i & 1)); break;
            case 2: add(int(-i)); break;
            case 3: add((unsigned short)(i)); break;
            case 4: add(long(i) << 40); break;
            case 5: add(1.5f * i); break;
            case 6: add(2.25 * i); break;
            case 7: add((long long)-i); break;
            case 8: h << std::string("a\0b", 3), m += std::string("a\0b", 3); break;
            case 9: h << "text", m += "text"; break;
        }
    }
    MC_CHECK(c, h.digest() == reference(name, m), name, " of values differs from the one of their bytes");
    c.step(4);
}
MC_SECTION("values", [](mc::Ctx& c) {
    switch (c.choose(4, "hash")) {
        case 0: numbers<eckit::MD5>(c, "MD5"); break;
        case 1: numbers<eckit::SHA1>(c, "SHA1"); break;
        case 2: numbers<eckit::MD4>(c, "MD4"); break;
        case 3: numbers<eckit::xxHash>(c, "xxh64"); break;
    }
}, opts(3));

// the numbers of an MD5 are those of its text, and asking does not change it
MC_SECTION("numerical", [](mc::Ctx& c) {
    eckit::MD5 h;
    std::string m;
    bool digested = false, destroyed = false;
    for (int d = 0; d < 5; d++) {
        int op = c.choose(4, "op");
        if (op == 0) {
            MC_LOG(c, "add");
            h.add(std::string(20 + d, 'x'));
            m += std::string(20 + d, 'x');
            destroyed = destroyed || digested;
        }
        else if (op == 1) {
            MC_LOG(c, "numerical digest");
            unsigned char n[16];
            h.numericalDigest(n);
            std::string x;
            for (int i = 0; i < 16; i++) {
                char b[3];
                snprintf(b, 3, "%02x", n[i]);
                x += b;
            }
            if (x != reference("MD5", m)) c.fail("numerical digest of " + std::to_string(m.size()) + " bytes is " + x, destroyed || digested ? "md5-after-digest" : "");
        }
        else if (op == 2) {
            MC_LOG(c, "digest");
            if (h.digest() != reference("MD5", m)) c.fail("digest of " + std::to_string(m.size()) + " bytes is " + h.digest(), destroyed ? "md5-after-digest" : "");
            digested = true;
        }
        else {
            MC_LOG(c, "reset");
            h.reset();
            m.clear();
            digested = destroyed = false;
        }
        c.step();
    }
}, opts(3));
