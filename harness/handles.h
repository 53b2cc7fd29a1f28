// Readable handles over known bytes, for I01 and I03
#pragma once
#include <fcntl.h>
#include "eckit/filesystem/PathName.h"
#include "eckit/io/BufferedHandle.h"
#include "eckit/io/EmptyHandle.h"
#include "eckit/io/FileDescHandle.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/MMappedFileHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/MultiHandle.h"
#include "eckit/io/PartFileHandle.h"
#include "eckit/io/PartHandle.h"
#include "eckit/io/PeekHandle.h"
#include "eckit/io/PooledHandle.h"
#include "eckit/io/RawFileHandle.h"
#include "eckit/io/SeekableHandle.h"
#include "eckit/io/SharedHandle.h"
#include "eckit/io/StatsHandle.h"
#include "common.h"

namespace hs {

using namespace eckit;

// what a handle can do
enum { SEEK = 1, SKIP = 2, REWIND = 4, POS = 8, RESTART = 16, SIZE = 32, EST = 64, LEN = 128, ALL = 255 };

struct Src {
    std::unique_ptr<DataHandle> h;
    std::vector<std::shared_ptr<DataHandle>> keep;
    std::vector<std::shared_ptr<std::string>> data;
    std::string content;
    int caps = 0;
    std::string what;
    int fd = -1;
};

inline const std::vector<std::string>& files() {
    static std::vector<std::string> f{"abcdefg", "", "X", "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"};
    return f;
}
inline std::string fileName(int i) { return mc::cat("f", i); }
inline void makeFiles() {
    static bool done = false;
    if (done) return;
    for (size_t i = 0; i < files().size(); ++i) putFile(fileName(int(i)), files()[i]);
    done = true;
}

inline Src file(int f) {
    Src s;
    s.h.reset(new FileHandle(fileName(f)));
    s.content = files()[f];
    s.caps    = ALL;
    s.what    = mc::cat("File(", f, ")");
    return s;
}
inline Src mem(int f, int kind = 0) {
    Src s;
    s.content = files()[f];
    auto d    = std::make_shared<std::string>(s.content);
    s.data.push_back(d);
    if (kind == 0) s.h.reset(new MemoryHandle(static_cast<const void*>(d->data()), d->size()));
    else {
        auto m = new MemoryHandle(4, true);
        s.h.reset(m);
        m->openForWrite(0);
        if (d->size()) m->write(d->data(), long(d->size()));
        m->close();
    }
    s.caps = ALL & ~RESTART;
    s.what = mc::cat("Mem(", f, ")");
    return s;
}
inline Src mmapped(int f) {
    Src s;
    s.h.reset(new MMappedFileHandle(fileName(f)));
    s.content = files()[f];
    s.caps    = ALL & ~RESTART;
    s.what    = mc::cat("MMap(", f, ")");
    return s;
}
inline Src raw(int f) {
    Src s;
    s.h.reset(new RawFileHandle(fileName(f)));
    s.content = files()[f];
    s.caps    = SEEK | SKIP | POS | SIZE | EST | LEN;
    s.what    = mc::cat("Raw(", f, ")");
    return s;
}
inline Src pooled(int f) {
    Src s;
    s.h.reset(new PooledHandle(PathName(fileName(f))));
    s.content = files()[f];
    s.caps    = SEEK | SKIP | POS | LEN;
    s.what    = mc::cat("Pooled(", f, ")");
    return s;
}
struct Part {
    long long o, l;
};
inline std::string slice(const std::string& s, const std::vector<Part>& p) {
    std::string r;
    for (auto& x : p) r += s.substr(x.o, x.l);
    return r;
}
inline std::string show(const std::vector<Part>& p) {
    std::string r;
    for (auto& x : p) r += mc::cat(x.o, "+", x.l, " ");
    return r;
}
inline void lists(const std::vector<Part>& p, OffsetList& o, LengthList& l) {
    for (auto& x : p) {
        o.push_back(Offset(x.o));
        l.push_back(Length(x.l));
    }
}
inline Src partFile(int f, const std::vector<Part>& p) {
    Src s;
    OffsetList o;
    LengthList l;
    lists(p, o, l);
    if (p.size() == 1) s.h.reset(new PartFileHandle(PathName(fileName(f)), o[0], l[0]));
    else s.h.reset(new PartFileHandle(PathName(fileName(f)), o, l));
    s.content = slice(files()[f], p);
    s.caps    = ALL;
    s.what    = mc::cat("PartFile(", f, ": ", show(p), ")");
    return s;
}
inline Src part(Src in, const std::vector<Part>& p) {
    Src s = std::move(in);
    OffsetList o;
    LengthList l;
    lists(p, o, l);
    DataHandle* h = s.h.release();
    if (p.size() == 1) s.h.reset(new PartHandle(h, o[0], l[0]));
    else s.h.reset(new PartHandle(h, o, l));
    s.content = slice(s.content, p);
    s.caps    = REWIND | RESTART | EST | LEN;
    s.what    = mc::cat("Part(", s.what, ": ", show(p), ")");
    return s;
}
inline Src buffered(Src in, int size) {
    Src s = std::move(in);
    s.h.reset(new BufferedHandle(s.h.release(), size));
    int c  = s.caps;
    s.caps = POS | (c & (EST | LEN | REWIND)) | (c & SEEK ? SEEK | SKIP : 0);
    s.what = mc::cat("Buffered(", size, ", ", s.what, ")");
    return s;
}
inline Src peek(Src in) {
    Src s = std::move(in);
    s.h.reset(new PeekHandle(s.h.release()));
    s.caps &= EST | LEN | SEEK | REWIND | POS | SIZE;
    s.what = mc::cat("Peek(", s.what, ")");
    return s;
}
inline Src seekable(Src in) {
    Src s = std::move(in);
    s.h.reset(new SeekableHandle(new PeekHandle(s.h.release())));
    s.caps = (s.caps & (EST | LEN)) | REWIND | POS;  // seek: only over what was read
    s.what = mc::cat("Seekable(", s.what, ")");
    return s;
}
inline Src stats(Src in) {
    Src s = std::move(in);
    s.h.reset(new StatsHandle(s.h.release()));
    s.caps &= ~SIZE;
    s.what = mc::cat("Stats(", s.what, ")");
    return s;
}
inline Src shared(Src in) {
    Src s = std::move(in);
    s.keep.emplace_back(s.h.release());
    s.keep.back()->openForRead();
    s.h.reset(new SharedHandle(*s.keep.back()));
    s.what = mc::cat("Shared(", s.what, ")");
    return s;
}
inline Src multi(std::vector<Src> v, bool merging) {
    Src s;
    s.caps = ALL;
    s.what = merging ? "MultiMerged(" : "Multi(";
    auto m = new MultiHandle();
    std::vector<DataHandle*> hs;
    for (auto& x : v) {
        s.caps &= x.caps;
        // size() is needed to seek and to tell the position
        if (!(x.caps & SIZE)) s.caps &= ~(SEEK | POS);
        s.content += x.content;
        s.what += x.what + " ";
        for (auto& k : x.keep) s.keep.push_back(k);
        for (auto& k : x.data) s.data.push_back(k);
        if (merging) *m += x.h.release();
        else hs.push_back(x.h.release());
    }
    s.caps |= REWIND;
    if (!(s.caps & EST)) s.caps &= ~LEN;
    s.caps &= ~SKIP;
    if ((s.caps & (SEEK | POS)) == (SEEK | POS)) s.caps |= SKIP;
    if (merging) s.h.reset(m);
    else {
        delete m;
        s.h.reset(new MultiHandle(hs));
    }
    s.what += ")";
    return s;
}

}  // namespace hs
