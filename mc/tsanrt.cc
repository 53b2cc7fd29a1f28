// Our own runtime for objects compiled with -fsanitize=thread: atomics become scheduling points, plain accesses are
// checked for data races (vector clocks) in every schedule explored.
#include <dlfcn.h>
#include <execinfo.h>
#include <malloc.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <unordered_map>
#include <vector>

#include "mc/sched.h"

namespace mcs {
bool racesOn();
bool running();
bool controlled();
int selfId();
uint32_t selfClock();
bool happensBefore(int tid, uint32_t clk);
void acquire(void*);
void release(void*);
}  // namespace mcs

extern "C" {
void __libc_free(void*);
}
namespace {

struct Access {
    int tid = -1;
    uint32_t clk = 0;
    uint8_t mask = 0;
    void* pc = nullptr;
};
struct Cell {
    Access w[2];
    Access r[4];
};

// open addressing table on 8-byte granules, cleared per execution by generation
struct Entry {
    uintptr_t addr;
    uint32_t gen;
    Cell cell;
};
const size_t TABLE = 1 << 16;
Entry* table_ = nullptr;
uint32_t gen_ = 1;
size_t used_  = 0;
int busy_     = 0;

Entry* find(uintptr_t a, bool make) {
    if (!table_) {
        if (!make) {
            return nullptr;
        }
        table_ = static_cast<Entry*>(calloc(TABLE, sizeof(Entry)));
    }
    size_t h = (a >> 3) * 0x9E3779B97F4A7C15ULL >> 40;
    for (size_t i = 0; i < 512; ++i) {
        Entry* e = &table_[(h + i) & (TABLE - 1)];
        if (e->gen != gen_) {
            if (!make) {
                return nullptr;
            }
            if (used_ > TABLE * 3 / 4) {
                return nullptr;  // table full: stop recording new addresses (races may be missed, never invented)
            }
            used_++;
            e->gen  = gen_;
            e->addr = a;
            e->cell = Cell();
            return e;
        }
        if (e->addr == a) {
            return e;
        }
    }
    return nullptr;
}

std::string where(void* pc) {
    Dl_info i;
    if (dladdr(pc, &i)) {
        const char* o = i.dli_fname ? strrchr(i.dli_fname, '/') : nullptr;
        return mc::cat(i.dli_sname ? i.dli_sname : "?", " in ", o ? o + 1 : "?");
    }
    return "?";
}

// process monitoring timestamps, log channels' colour/indent statics: not part of any property (see DESIGN.md)
bool suppressed(void* pc) {
    Dl_info i;
    if (!dladdr(pc, &i) || !i.dli_sname) {
        return false;
    }
    for (auto s : {"8TaskInfo", "7Monitor", "9BackTrace"}) {
        if (strstr(i.dli_sname, s)) {
            return true;
        }
    }
    return false;
}

void report(uintptr_t a, bool write, void* pc, const Access& o, bool owrite) {
    busy_ = 1;
    if (suppressed(pc) || suppressed(o.pc)) {
        busy_ = 0;
        return;
    }
    mcs::fail(mc::cat("data race: thread ", mcs::selfId(), (write ? " writes" : " reads"), " in ", where(pc), " unordered with thread ", o.tid,
                      (owrite ? " writing" : " reading"), " in ", where(o.pc)), "");
    (void)a;
}

void access1(uintptr_t a, uint8_t mask, bool write, void* pc) {
    Entry* e = find(a, true);
    if (!e) {
        return;
    }
    int me       = mcs::selfId();
    uint32_t clk = mcs::selfClock();
    Cell& c      = e->cell;
    if (c.w[0].tid == -2) {
        Access o = c.w[0];
        busy_    = 1;
        mcs::fail(mc::cat("use after free: thread ", me, (write ? " writes" : " reads"), " freed memory in ", where(pc)), "");
    }
    for (auto& o : c.w) {
        if (o.tid >= 0 && o.tid != me && (o.mask & mask) && !mcs::happensBefore(o.tid, o.clk)) {
            report(a, write, pc, o, true);
        }
    }
    if (write) {
        for (auto& o : c.r) {
            if (o.tid >= 0 && o.tid != me && (o.mask & mask) && !mcs::happensBefore(o.tid, o.clk)) {
                report(a, write, pc, o, false);
            }
        }
        Access& w0 = c.w[0];
        if (w0.tid == me && w0.mask == mask) {
            w0.clk = clk;
            w0.pc  = pc;
            return;
        }
        c.w[1] = c.w[0];
        c.w[0] = Access{me, clk, mask, pc};
    }
    else {
        int slot = -1;
        for (int i = 0; i < 4; ++i) {
            if (c.r[i].tid == me && c.r[i].mask == mask) {
                slot = i;
                break;
            }
            if (slot < 0 && (c.r[i].tid < 0 || (c.r[i].tid != me && mcs::happensBefore(c.r[i].tid, c.r[i].clk)))) {
                slot = i;
            }
        }
        if (slot < 0) {
            slot = 3;
        }
        c.r[slot] = Access{me, clk, mask, pc};
    }
}

inline void access(void* p, size_t n, bool write, void* pc) {
    if (!mcs::racesOn() || busy_ || !mcs::controlled()) {
        return;
    }
    uintptr_t a = reinterpret_cast<uintptr_t>(p), end = a + n;
    while (a < end) {
        uintptr_t g = a & ~uintptr_t(7);
        size_t off  = a - g;
        size_t len  = std::min<size_t>(8 - off, end - a);
        uint8_t m   = uint8_t(((1u << len) - 1) << off);
        access1(g, m, write, pc);
        a += len;
    }
}

std::vector<void*> quarantine_;

void forget(const void* p, size_t n) {
    if (!mcs::running() || busy_ || !table_ || !p) {
        return;
    }
    uintptr_t a = reinterpret_cast<uintptr_t>(p) & ~uintptr_t(7), end = reinterpret_cast<uintptr_t>(p) + n;
    if (end - a > (1 << 20)) {
        // large block: walk the table instead
        for (size_t i = 0; i < TABLE; ++i) {
            if (table_[i].gen == gen_ && table_[i].addr >= a && table_[i].addr < end) {
                table_[i].cell = Cell();
            }
        }
        return;
    }
    for (; a < end; a += 8) {
        if (Entry* e = find(a, false)) {
            e->cell = Cell();
        }
    }
}

}  // namespace

namespace mcs {
void raceReset() {
    gen_++;
    used_ = 0;
    std::vector<void*> q;
    q.swap(quarantine_);
    for (void* p : q) {
        __libc_free(p);
    }
}
bool freedMemory(const void* p) {
    Entry* e = find(reinterpret_cast<uintptr_t>(p) & ~uintptr_t(7), false);
    return e && e->cell.w[0].tid == -2;
}
void forgetMemory(const void* p, size_t n) { forget(p, n); }
}  // namespace mcs

extern "C" {
void __libc_free(void*);
void* __libc_malloc(size_t);
void* __libc_realloc(void*, size_t);

void free(void* p) {
    if (p && mcs::running() && !busy_) {
        size_t n = malloc_usable_size(p);
        forget(p, n);
        if (mcs::racesOn() && quarantine_.size() < 20000 && n <= 4096 && used_ < TABLE / 2) {
            // keep the block until the execution ends; touching it is an error
            busy_ = 1;
            quarantine_.push_back(p);
            uintptr_t a = reinterpret_cast<uintptr_t>(p), end = a + n;
            for (; a < end; a += 8) {
                if (Entry* e = find(a, true)) {
                    e->cell          = Cell();
                    e->cell.w[0].tid = -2;
                    e->cell.w[0].mask = 0xff;
                }
            }
            busy_ = 0;
            return;
        }
    }
    __libc_free(p);
}

#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                             \
    void __tsan_read##n(void* p) { access(p, n, false, PC); }             \
    void __tsan_write##n(void* p) { access(p, n, true, PC); }             \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); }   \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); }   \
    void __tsan_read##n##_pc(void* p, void* pc) { access(p, n, false, pc); } \
    void __tsan_write##n##_pc(void* p, void* pc) { access(p, n, true, pc); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); }    \
    void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); }    \
    void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, PC); } \
    void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) {
    if (*p != v) {
        access(p, 8, true, PC);
    }
}
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }

static inline void atomicPoint() {
    if (mcs::active()) {
        mcs::point("atomic");
    }
}
static inline void hb(volatile void* p, bool acq, bool rel) {
    if (mcs::active()) {
        if (acq) mcs::acquire(const_cast<void*>(p));
        if (rel) mcs::release(const_cast<void*>(p));
    }
}
#define ATOMIC(N, T)                                                                                                              \
    T __tsan_atomic##N##_load(const volatile T* a, int) {                                                                         \
        atomicPoint();                                                                                                            \
        T v = __atomic_load_n(a, 5);                                                                                              \
        hb((volatile void*)a, true, false);                                                                                       \
        return v;                                                                                                                 \
    }                                                                                                                             \
    void __tsan_atomic##N##_store(volatile T* a, T v, int) {                                                                      \
        atomicPoint();                                                                                                            \
        hb(a, false, true);                                                                                                       \
        __atomic_store_n(a, v, 5);                                                                                                \
    }                                                                                                                             \
    T __tsan_atomic##N##_exchange(volatile T* a, T v, int) {                                                                      \
        atomicPoint();                                                                                                            \
        hb(a, true, true);                                                                                                        \
        return __atomic_exchange_n(a, v, 5);                                                                                      \
    }                                                                                                                             \
    T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { atomicPoint(); hb(a, true, true); return __atomic_fetch_add(a, v, 5); }   \
    T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { atomicPoint(); hb(a, true, true); return __atomic_fetch_sub(a, v, 5); }   \
    T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { atomicPoint(); hb(a, true, true); return __atomic_fetch_and(a, v, 5); }   \
    T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { atomicPoint(); hb(a, true, true); return __atomic_fetch_or(a, v, 5); }     \
    T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { atomicPoint(); hb(a, true, true); return __atomic_fetch_xor(a, v, 5); }   \
    T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int) { atomicPoint(); hb(a, true, true); return __atomic_fetch_nand(a, v, 5); } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) {                                          \
        atomicPoint();                                                                                                            \
        hb(a, true, true);                                                                                                        \
        return __atomic_compare_exchange_n(a, e, v, false, 5, 5);                                                                 \
    }                                                                                                                             \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) {                                            \
        atomicPoint();                                                                                                            \
        hb(a, true, true);                                                                                                        \
        return __atomic_compare_exchange_n(a, e, v, false, 5, 5);                                                                 \
    }                                                                                                                             \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T e, T v, int, int) {                                                \
        atomicPoint();                                                                                                            \
        hb(a, true, true);                                                                                                        \
        __atomic_compare_exchange_n(a, &e, v, false, 5, 5);                                                                       \
        return e;                                                                                                                 \
    }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
