#include "mc/sched.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <deque>
#include <map>
#include <unordered_map>
#include <vector>

namespace {

template <class F>
F real(const char* name) {
    void* p = dlsym(RTLD_NEXT, name);
    if (!p) {
        fprintf(stderr, "no symbol %s\n", name);
        abort();
    }
    return reinterpret_cast<F>(p);
}

#define REAL(ret, name, args)                                   \
    static ret real_##name args_##name;                         \
    typedef ret(*fn_##name) args;                               \
    static fn_##name get_##name() {                             \
        static fn_##name f = nullptr;                           \
        if (!f) f = real<fn_##name>(#name);                     \
        return f;                                               \
    }
#undef REAL
#define REAL(ret, name, args)                 \
    typedef ret(*fn_##name) args;             \
    fn_##name R_##name() {                    \
        static fn_##name f = nullptr;         \
        if (!f) {                             \
            f = real<fn_##name>(#name);       \
        }                                     \
        return f;                             \
    }

REAL(int, pthread_mutex_lock, (pthread_mutex_t*))
REAL(int, pthread_mutex_trylock, (pthread_mutex_t*))
REAL(int, pthread_mutex_timedlock, (pthread_mutex_t*, const struct timespec*))
REAL(int, pthread_mutex_unlock, (pthread_mutex_t*))
REAL(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*))
REAL(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const struct timespec*))
REAL(int, pthread_cond_clockwait, (pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*))
REAL(int, pthread_cond_signal, (pthread_cond_t*))
REAL(int, pthread_cond_broadcast, (pthread_cond_t*))
REAL(int, pthread_create, (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))
REAL(int, pthread_join, (pthread_t, void**))
REAL(int, pthread_detach, (pthread_t))
REAL(int, pthread_rwlock_rdlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_wrlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_trywrlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_unlock, (pthread_rwlock_t*))
REAL(int, nanosleep, (const struct timespec*, struct timespec*))
REAL(int, clock_nanosleep, (clockid_t, int, const struct timespec*, struct timespec*))
REAL(int, usleep, (useconds_t))
REAL(unsigned, sleep, (unsigned))
REAL(int, sched_yield, (void))
REAL(int, sem_wait, (sem_t*))
REAL(int, sem_trywait, (sem_t*))
REAL(int, sem_post, (sem_t*))

}  // namespace

namespace mcs {

enum State { Runnable, OnMutex, OnCond, OnJoin, OnPred, Sleeping, Finished, Idle };

typedef std::vector<uint32_t> Clock;

struct Thread {
    int id         = 0;
    State state    = Runnable;
    int futex      = 0;
    void* obj      = nullptr;  // mutex / cond / thread waited for
    bool timed     = false;    // timed wait
    bool timedOut  = false;
    bool notified  = false;
    bool joined = false, detached = false;
    pthread_t handle{};
    void* (*fn)(void*) = nullptr;
    void* arg          = nullptr;
    std::function<bool()> pred;
    const char* what = "";
    int dtorRounds   = 0;
    Clock vc;
};

struct Held {
    int owner = -1;
    int count = 0;
};

static bool active_ = false;
static std::vector<Thread*> threads_;
static thread_local Thread* me_ = nullptr;
static std::unordered_map<void*, Held> held_;
static std::unordered_map<void*, std::pair<int, int>> rw_;  // readers, writer
static std::unordered_map<void*, std::deque<Thread*>> waiters_;
static std::unordered_map<void*, Clock> syncClock_;
static Options opt_;
static int preemptionsLeft_, spuriousLeft_;
static uint64_t points_ = 0;
static pthread_key_t exitKey_;
static bool keyMade_ = false;
static mc::Ctx* ctx_ = nullptr;
static int quiet_    = 0;
static int inside_   = 0;  // explorer code is running: its own library calls are not scheduled
struct Inside {
    Inside() { inside_++; }
    ~Inside() { inside_--; }
};

static bool ctl() { return active_ && me_ && !inside_; }
static thread_local int book_ = 0;
bool racesOn() { return active_ && opt_.races && !inside_ && !book_; }
bool running() { return active_; }
bool freedMemory(const void*);
Book::Book() { book_++; }
Book::~Book() { book_--; }

// ------------------------------------------------------------------ futex hand-off

static void futexWait(Thread* t) {
    while (__atomic_load_n(&t->futex, __ATOMIC_ACQUIRE) == 0) {
        syscall(SYS_futex, &t->futex, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    }
    __atomic_store_n(&t->futex, 0, __ATOMIC_RELEASE);
}
static void futexWake(Thread* t) {
    __atomic_store_n(&t->futex, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, &t->futex, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

// ------------------------------------------------------------------ vector clocks

static void join(Clock& a, const Clock& b) {
    if (a.size() < b.size()) {
        a.resize(b.size());
    }
    for (size_t i = 0; i < b.size(); ++i) {
        if (a[i] < b[i]) {
            a[i] = b[i];
        }
    }
}
static void tick(Thread* t) {
    if (t->vc.size() <= size_t(t->id)) {
        t->vc.resize(t->id + 1);
    }
    t->vc[t->id]++;
}
static void hbAcquire(void* o) {
    auto it = syncClock_.find(o);
    if (it != syncClock_.end()) {
        join(me_->vc, it->second);
    }
}
static void hbRelease(void* o) {
    join(syncClock_[o], me_->vc);
    tick(me_);
}
void acquire(void* o) {
    if (ctl()) {
        hbAcquire(o);
    }
}
void release(void* o) {
    if (ctl()) {
        hbRelease(o);
    }
}
int selfId() { return me_ ? me_->id : -1; }
uint32_t selfClock() { return me_->vc.size() > size_t(me_->id) ? me_->vc[me_->id] : 0; }
bool happensBefore(int tid, uint32_t clk) { return me_->vc.size() > size_t(tid) && me_->vc[tid] >= clk; }
bool controlled() { return ctl(); }

// ------------------------------------------------------------------ scheduling

static bool enabled(Thread* t) {
    switch (t->state) {
        case Runnable: return true;
        case OnMutex: {
            auto it = held_.find(t->obj);
            return it == held_.end() || it->second.count == 0;
        }
        case OnCond: return t->notified;
        case OnJoin: return static_cast<Thread*>(t->obj)->state == Finished;
        case OnPred: return t->pred();
        case Sleeping: return false;
        case Finished: return false;
        case Idle: return false;
    }
    return false;
}

static Thread* findIdle() {
    for (auto t : threads_) {
        if (t->state == Idle) {
            return t;
        }
    }
    return nullptr;
}

static std::string describe() {
    std::string s;
    for (auto t : threads_) {
        static const char* n[] = {"runnable", "waiting for mutex", "waiting on condition", "joining", "waiting", "sleeping", "finished", "idle"};
        s += mc::cat(s.empty() ? "" : "; ", "thread ", t->id, " ", n[t->state], t->what[0] ? " at " : "", t->what);
    }
    return s;
}

void fail(const std::string& msg, const std::string& key) {
    active_ = false;
    inside_++;
    ctx_->failHard(msg, key);
}

static void switchTo(Thread* t, bool wait) {
    Thread* m = me_;
    if (t == m) {
        return;
    }
    futexWake(t);
    if (wait) {
        futexWait(m);
    }
}

static void resumed() {
    // about to run: timed waits and sleeps that were chosen by timeout
}

// Choose who runs next. The caller's own state has been set. wait=false when the caller is exiting.
static void schedule(const char* what, bool wait = true) {
    Thread* m = me_;
    m->what   = what;
    points_++;
    if (points_ > uint64_t(opt_.horizon)) {
        fail(mc::cat("no progress: execution exceeds ", opt_.horizon, " scheduling points (livelock): ", describe()));
    }
    Thread* next = nullptr;
    bool mine    = false;
    {
    Inside inside;
    std::vector<Thread*> cand;
    mine = enabled(m);
    if (mine) {
        cand.push_back(m);
    }
    size_t nEnabled = 0;
    for (auto t : threads_) {
        if (enabled(t)) {
            nEnabled++;
            if (t != m) {
                cand.push_back(t);
            }
        }
    }
    // time may pass: sleepers and timed waiters
    std::vector<Thread*> late;
    for (auto t : threads_) {
        if (t->state == Sleeping || (t->state == OnCond && t->timed && !t->notified)) {
            late.push_back(t);
        }
    }
    std::vector<Thread*> spur;
    if (spuriousLeft_ > 0) {
        for (auto t : threads_) {
            if (t->state == OnCond && !t->notified && !t->timed) {
                spur.push_back(t);
            }
        }
    }
    int kind     = 0;  // 1 timeout, 2 spurious
    if (nEnabled == 0) {
        if (!late.empty()) {
            // nothing else can happen before time passes
            next = late[ctx_->chooseNoThrow(int(late.size()), "timeout")];
            kind = 1;
        }
        else if (Thread* idle = findIdle()) {
            next = idle;
        }
        else {
            bool all = true;
            for (auto t : threads_) {
                all = all && t->state == Finished;
            }
            if (all) {
                return;
            }
            fail(mc::cat("deadlock: ", describe()));
        }
    }
    else {
        size_t free = cand.size(), total = cand.size();
        if (mine) {
            if (preemptionsLeft_ <= 0 || quiet_) {
                cand.resize(1);
            }
            free = 1;
        }
        (void)free;
        total = cand.size();
        size_t extra = 0, sp = 0;
        if (!quiet_) {
            if (preemptionsLeft_ > 0) {
                extra = late.size();
            }
            sp = spur.size();
        }
        int c = ctx_->chooseNoThrow(int(total + extra + sp), what);
        if (size_t(c) < total) {
            next = cand[c];
            if (mine && next != m) {
                preemptionsLeft_--;
            }
        }
        else if (size_t(c) < total + extra) {
            next = late[c - total];
            kind = 1;
            preemptionsLeft_--;
        }
        else {
            next = spur[c - total - extra];
            kind = 2;
            spuriousLeft_--;
        }
    }
    if (kind == 1) {
        next->timedOut = true;
        if (next->state == OnCond) {
            auto& w = waiters_[next->obj];
            for (auto i = w.begin(); i != w.end(); ++i) {
                if (*i == next) {
                    w.erase(i);
                    break;
                }
            }
            next->notified = true;
        }
        next->state = Runnable;
    }
    else if (kind == 2) {
        auto& w = waiters_[next->obj];
        for (auto i = w.begin(); i != w.end(); ++i) {
            if (*i == next) {
                w.erase(i);
                break;
            }
        }
        next->notified = true;
        next->state    = Runnable;
    }
    if (ctx_->tracing() && next != m) {
        ctx_->log(mc::cat("  T", m->id, " at ", what, (mine ? " preempted" : " stops"), ", T", next->id, " runs"));
    }
    next->state = Runnable;
    }
    switchTo(next, wait);
    (void)resumed;
}

void point(const char* what) {
    if (ctl()) {
        me_->state = Runnable;
        schedule(what);
    }
}

int self() { return me_ ? me_->id : -1; }
bool active() { return ctl(); }
uint64_t points() { return points_; }
void quiet(bool b) { quiet_ += b ? 1 : -1; }

void blockUntil(const std::function<bool()>& pred, const char* what) {
    if (!active()) {
        return;
    }
    me_->pred  = pred;
    me_->state = OnPred;
    schedule(what);
    // whoever made pred true happened before
    for (auto t : threads_) {
        join(me_->vc, t->vc);
    }
}

void waitIdle() {
    me_->state = Idle;
    schedule("wait for idle");
    for (auto t : threads_) {
        join(me_->vc, t->vc);
    }
}

static int lockMutex(pthread_mutex_t* m, bool tryOnly, bool timed) {
    me_->state = Runnable;
    schedule(tryOnly ? "trylock" : "lock");
    if (freedMemory(m)) {
        fail("use after free: a destroyed object's mutex is locked");
    }
    while (true) {
        int r = R_pthread_mutex_trylock()(m);
        if (r == 0 || r == EOWNERDEAD) {
            Held& h = held_[m];
            h.owner = me_->id;
            h.count++;
            hbAcquire(m);
            return r;
        }
        if (r != EBUSY) {
            return r;
        }
        Held& h = held_[m];
        if (tryOnly) {
            return EBUSY;
        }
        int kind = m->__data.__kind & 3;
        if (h.owner == me_->id && h.count > 0 && kind == PTHREAD_MUTEX_ERRORCHECK_NP) {
            return EDEADLK;
        }
        if (h.count == 0) {
            fail("HARNESS: mutex held by an uncontrolled thread", "harness");
        }
        if (timed) {
            return ETIMEDOUT;
        }
        me_->obj   = m;
        me_->state = OnMutex;
        schedule("lock (contended)");
    }
}

static int unlockMutex(pthread_mutex_t* m) {
    auto it = held_.find(m);
    if (it != held_.end() && it->second.count > 0 && it->second.owner == me_->id) {
        it->second.count--;
    }
    hbRelease(m);
    int r = R_pthread_mutex_unlock()(m);
    if (r != 0 && it != held_.end() && it->second.owner == me_->id) {
        it->second.count++;
    }
    return r;
}

static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    // a notification sent without the mutex can come before the wait
    me_->state = Runnable;
    schedule("before wait");
    me_->notified = false;
    me_->timedOut = false;
    me_->timed    = timed;
    waiters_[c].push_back(me_);
    int r = unlockMutex(m);
    if (r != 0) {
        auto& w = waiters_[c];
        for (auto i = w.begin(); i != w.end(); ++i) {
            if (*i == me_) {
                w.erase(i);
                break;
            }
        }
        return r;
    }
    me_->obj   = c;
    me_->state = OnCond;
    schedule(timed ? "timed wait" : "wait");
    bool to = me_->timedOut;
    hbAcquire(c);
    // re-acquire
    while (true) {
        int r = R_pthread_mutex_trylock()(m);
        if (r == 0) {
            Held& h = held_[m];
            h.owner = me_->id;
            h.count++;
            hbAcquire(m);
            break;
        }
        me_->obj   = m;
        me_->state = OnMutex;
        schedule("relock");
    }
    return to ? ETIMEDOUT : 0;
}

static void wakeOne(pthread_cond_t* c, bool all) {
    me_->state = Runnable;
    schedule(all ? "broadcast" : "signal");
    hbRelease(c);
    auto& w = waiters_[c];
    if (w.empty()) {
        return;
    }
    if (all) {
        for (auto t : w) {
            t->notified = true;
        }
        w.clear();
        return;
    }
    int i = 0;
    if (w.size() > 1) {
        Inside inside;
        i = ctx_->chooseNoThrow(int(w.size()), "which waiter");
    }
    w[i]->notified = true;
    w.erase(w.begin() + i);
}

static void finishThread(Thread* t) {
    hbRelease(t);
    t->state = Finished;
    t->what  = "";
    schedule("exit", false);
}

extern "C" void mcsExitKey(void* p) {
    Thread* t = static_cast<Thread*>(p);
    if (++t->dtorRounds < 3) {
        pthread_setspecific(exitKey_, t);
        return;
    }
    if (active_) {
        finishThread(t);
    }
    me_ = nullptr;
}

static void* trampoline(void* p) {
    Thread* t = static_cast<Thread*>(p);
    me_       = t;
    pthread_setspecific(exitKey_, t);
    futexWait(t);
    hbAcquire(t);
    for (auto o : threads_) {
        if (o->detached && o->state == Finished) {  // nobody has waited for it, and this may be its stack
            pthread_attr_t attr;
            void* stack = nullptr;
            size_t size = 0;
            if (pthread_getattr_np(pthread_self(), &attr) == 0) {
                Inside inside;
                pthread_attr_getstack(&attr, &stack, &size);
                pthread_attr_destroy(&attr);
                forgetMemory(stack, size);
            }
            break;
        }
    }
    return t->fn(t->arg);
}

// the latest with that handle: it is used again once a detached thread has ended
static Thread* find(pthread_t h) {
    for (auto i = threads_.rbegin(); i != threads_.rend(); ++i) {
        Thread* t = *i;
        if (t->id && pthread_equal(t->handle, h) && !t->joined) {
            return t;
        }
    }
    return nullptr;
}

void raceReset();

void run(mc::Ctx& c, const Options& o, const std::function<void()>& main) {
    if (!keyMade_) {
        pthread_key_create(&exitKey_, mcsExitKey);
        keyMade_ = true;
    }
    for (auto t : threads_) {
        delete t;
    }
    threads_.clear();
    held_.clear();
    rw_.clear();
    waiters_.clear();
    syncClock_.clear();
    raceReset();
    opt_             = o;
    preemptionsLeft_ = o.preemptions;
    spuriousLeft_    = o.spurious;
    points_          = 0;
    quiet_           = 0;
    ctx_             = &c;
    Thread* t        = new Thread;
    t->id            = 0;
    t->handle        = pthread_self();
    threads_.push_back(t);
    me_ = t;
    tick(t);
    active_ = true;
    try {
        main();
    }
    catch (std::exception& e) {
        fail(mc::cat("unexpected exception in main thread: ", e.what()));
    }
    // let the others finish
    t->state = OnPred;
    t->pred  = []() {
        for (auto x : threads_) {
            if (x->id && x->state != Finished) {
                return false;
            }
        }
        return true;
    };
    schedule("end");
    active_ = false;
    me_     = nullptr;
    c.step(points_);
}

void log(const std::string& s) {
    Inside i;
    if (ctx_) ctx_->log(s);
}

}  // namespace mcs

using namespace mcs;

extern "C" {

int pthread_mutex_lock(pthread_mutex_t* m) {
    if (ctl()) {
        return lockMutex(m, false, false);
    }
    return R_pthread_mutex_lock()(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (ctl()) {
        return lockMutex(m, true, false);
    }
    return R_pthread_mutex_trylock()(m);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
    if (ctl()) {
        return lockMutex(m, false, true);
    }
    return R_pthread_mutex_timedlock()(m, ts);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (ctl()) {
        return unlockMutex(m);
    }
    return R_pthread_mutex_unlock()(m);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (ctl()) {
        return condWait(c, m, false);
    }
    return R_pthread_cond_wait()(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
    if (ctl()) {
        return condWait(c, m, true);
    }
    return R_pthread_cond_timedwait()(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
    if (ctl()) {
        return condWait(c, m, true);
    }
    return R_pthread_cond_clockwait()(c, m, k, t);
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (ctl()) {
        wakeOne(c, false);
        return 0;
    }
    return R_pthread_cond_signal()(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (ctl()) {
        wakeOne(c, true);
        return 0;
    }
    return R_pthread_cond_broadcast()(c);
}
int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    if (ctl()) {
        Thread* t = new Thread;
        t->id     = int(threads_.size());
        t->fn     = fn;
        t->arg    = arg;
        t->state  = Runnable;
        t->what   = "start";
        t->vc     = me_->vc;
        tick(t);
        tick(me_);
        if (a) {
            int ds = 0;
            pthread_attr_getdetachstate(a, &ds);
            t->detached = ds == PTHREAD_CREATE_DETACHED;
        }
        pthread_t tmp;
        int r = R_pthread_create()(&tmp, a, trampoline, t);
        if (r) {
            delete t;
            return r;
        }
        t->handle = tmp;
        *h        = tmp;
        threads_.push_back(t);
        me_->state = Runnable;
        schedule("create");
        return 0;
    }
    return R_pthread_create()(h, a, fn, arg);
}
int pthread_join(pthread_t h, void** r) {
    if (ctl()) {
        Thread* t = find(h);
        if (t) {
            me_->obj   = t;
            me_->state = OnJoin;
            schedule("join");
            hbAcquire(t);
            t->joined = true;
        }
    }
    return R_pthread_join()(h, r);
}
int pthread_detach(pthread_t h) {
    if (ctl()) {
        Thread* t = find(h);
        if (t) {
            t->detached = true;
        }
    }
    return R_pthread_detach()(h);
}

static int rwlock(pthread_rwlock_t* l, bool write, bool tryOnly) {
    me_->state = Runnable;
    schedule(write ? "wrlock" : "rdlock");
    while (true) {
        int r = write ? R_pthread_rwlock_trywrlock()(l) : R_pthread_rwlock_tryrdlock()(l);
        if (r == 0) {
            auto& s = rw_[l];
            if (write) {
                s.second++;
            }
            else {
                s.first++;
            }
            hbAcquire(l);
            return 0;
        }
        if (r != EBUSY || tryOnly) {
            return r;
        }
        me_->pred = [l, write]() {
            auto& s = rw_[l];
            return s.second == 0 && (!write || s.first == 0);
        };
        me_->state = OnPred;
        schedule("rwlock (contended)");
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return ctl() ? rwlock(l, false, false) : R_pthread_rwlock_rdlock()(l); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return ctl() ? rwlock(l, true, false) : R_pthread_rwlock_wrlock()(l); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return ctl() ? rwlock(l, false, true) : R_pthread_rwlock_tryrdlock()(l); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return ctl() ? rwlock(l, true, true) : R_pthread_rwlock_trywrlock()(l); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (ctl()) {
        auto& s = rw_[l];
        if (s.second) {
            s.second--;
        }
        else if (s.first) {
            s.first--;
        }
        hbRelease(l);
    }
    return R_pthread_rwlock_unlock()(l);
}

int pthread_once(pthread_once_t* o, void (*f)()) {
    // same protocol with or without the scheduler: 0 new, 1 running, 2 done
    volatile int* v = reinterpret_cast<volatile int*>(o);
    if (*v == 2) {
        if (ctl()) {
            hbAcquire((void*)o);
        }
        return 0;
    }
    if (!(ctl())) {
        static fn_pthread_rwlock_unlock dummy = nullptr;
        (void)dummy;
        *v = 1;
        try {
            f();
        }
        catch (...) {
            *v = 0;
            throw;
        }
        *v = 2;
        return 0;
    }
    me_->state = Runnable;
    schedule("once");
    while (*v == 1) {
        me_->pred  = [v]() { return *v != 1; };
        me_->state = OnPred;
        schedule("once (running elsewhere)");
    }
    hbAcquire((void*)o);
    if (*v == 2) {
        return 0;
    }
    *v = 1;
    try {
        f();
    }
    catch (...) {
        *v = 0;
        throw;
    }
    hbRelease((void*)o);
    *v = 2;
    return 0;
}

// function-local statics
int __cxa_guard_acquire(uint64_t* g) {
    volatile char* b = reinterpret_cast<volatile char*>(g);
    if (b[0]) {
        if (ctl()) {
            hbAcquire(g);
        }
        return 0;
    }
    if (ctl()) {
        me_->state = Runnable;
        schedule("static init");
        while (!b[0] && b[1]) {
            me_->pred  = [b]() { return b[0] || !b[1]; };
            me_->state = OnPred;
            schedule("static init (running elsewhere)");
        }
        hbAcquire(g);
        if (b[0]) {
            return 0;
        }
    }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(uint64_t* g) {
    volatile char* b = reinterpret_cast<volatile char*>(g);
    if (ctl()) {
        hbRelease(g);
    }
    b[0] = 1;
    b[1] = 0;
}
void __cxa_guard_abort(uint64_t* g) {
    volatile char* b = reinterpret_cast<volatile char*>(g);
    b[1]             = 0;
}

static void sleepPoint() {
    me_->state = Sleeping;
    schedule("sleep");
}
int nanosleep(const struct timespec* a, struct timespec* b) {
    if (ctl()) {
        sleepPoint();
        return 0;
    }
    return R_nanosleep()(a, b);
}
int clock_nanosleep(clockid_t k, int f, const struct timespec* a, struct timespec* b) {
    if (ctl()) {
        sleepPoint();
        return 0;
    }
    return R_clock_nanosleep()(k, f, a, b);
}
int usleep(useconds_t u) {
    if (ctl()) {
        sleepPoint();
        return 0;
    }
    return R_usleep()(u);
}
unsigned sleep(unsigned u) {
    if (ctl()) {
        sleepPoint();
        return 0;
    }
    return R_sleep()(u);
}
int sched_yield() {
    if (ctl()) {
        sleepPoint();
        return 0;
    }
    return R_sched_yield()();
}
int sem_wait(sem_t* s) {
    if (ctl()) {
        me_->state = Runnable;
        schedule("sem_wait");
        while (R_sem_trywait()(s) != 0) {
            me_->pred = [s]() {
                int v = 0;
                sem_getvalue(s, &v);
                return v > 0;
            };
            me_->state = OnPred;
            schedule("sem_wait (blocked)");
        }
        hbAcquire(s);
        return 0;
    }
    return R_sem_wait()(s);
}
int sem_post(sem_t* s) {
    if (ctl()) {
        me_->state = Runnable;
        schedule("sem_post");
        hbRelease(s);
    }
    return R_sem_post()(s);
}
}
