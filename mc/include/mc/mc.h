// Bounded-exhaustive explorer: a body is run once per choice sequence; every sequence of
// answers to Ctx::choose() is enumerated (depth-first, partitioned over worker processes).
#pragma once

#include <cstdint>
#include <cstring>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace mc {

struct Violation {
    std::string key;
    std::string msg;
};

struct Reject {};
struct Skip {};  // thrown out of a prefix owned by another worker

struct Shared;  // shared memory with the parent

class Ctx {
public:
    // One of 0..n-1. Every alternative is explored.
    int choose(int n, const char* what = "");
    // Same, never throws (usable below code under test, e.g. from interposed system calls).
    int chooseNoThrow(int n, const char* what = "");
    bool flag(const char* what = "") { return choose(2, what) != 0; }
    template <class T, size_t N>
    const T& pick(const T (&a)[N], const char* what = "") {
        return a[choose(int(N), what)];
    }
    template <class T>
    const T& pick(const std::vector<T>& a, const char* what = "") {
        return a[choose(int(a.size()), what)];
    }

    template <class T>
    T pick(std::initializer_list<T> a, const char* what = "") {
        return *(a.begin() + choose(int(a.size()), what));
    }

    bool tracing() const { return tracing_; }
    void log(const std::string& s) {
        if (tracing_) {
            trace_.push_back(s);
        }
    }
    void step(uint64_t n = 1) { steps_ += n; }              // a transition of the system under test
    void evals(uint64_t n = 1) { evals_ += n; }              // inputs/cases evaluated inside one execution
    void state(uint64_t h);                                  // a (reference-model) state was reached
    void state(const std::string& canon);
    void outcome(const std::string& s);                      // an observed end result
    [[noreturn]] void reject();                              // not a case of this section (e.g. symmetric to another): not counted
    void nontrivial() { nontrivial_ = true; }                // this execution exercised the property
    // Stop this execution: the property is violated.
    [[noreturn]] void fail(const std::string& msg, const std::string& key = "");
    // Same, but the process cannot be unwound (deadlock, other threads running).
    [[noreturn]] void failHard(const std::string& msg, const std::string& key = "");
    // true when `canon` with at least `remaining` further steps has been explored already (by this worker)
    bool seen(const std::string& canon, int remaining);
    bool exhaustedBudget() const;

    int tier() const;  // 0 quick, 1 thorough
    const std::string& scratch() const;  // private scratch directory of this worker (absolute path)
    uint64_t execution() const;

    // --- internals
    std::vector<int> prefix_;
    std::vector<int> made_;
    std::vector<int> width_;
    bool tracing_   = false;
    bool skipped_   = false;
    bool rejected_  = false;
    bool nontrivial_ = false;
    bool replay_    = false;
    std::vector<std::string> trace_;
    uint64_t steps_ = 0, evals_ = 0;
};

Ctx& ctx();  // the current execution

struct Opts {
    int split      = 3;     // partition on this many leading choices
    int parts      = 8;     // number of worker processes
    double hangSec = 30;    // one execution longer than this is re-run alone with 4x the limit
    bool isolate   = false;  // fork a process per execution (state that cannot be reset)
    bool thoroughOnly = false;
    bool quickOnly = false;
};

using Body = std::function<void(Ctx&)>;

struct Register {
    Register(const char* name, Body body, Opts opts = Opts());
};

// Called once in each worker process before the first execution; harness-provided (weak default).
void setInit(std::function<void()>);
struct Init {
    Init(std::function<void()> f) { setInit(f); }
};

bool isKnown(const std::string& key);  // listed in known_findings

uint64_t hash(const void* p, size_t n, uint64_t h = 1469598103934665603ULL);
inline uint64_t hash(const std::string& s) { return hash(s.data(), s.size()); }
std::string hex(const void* p, size_t n, size_t max = 48);
std::string quote(const std::string& s);

template <class... A>
std::string cat(const A&... a) {
    std::ostringstream o;
    (void)std::initializer_list<int>{(o << a, 0)...};
    return o.str();
}

}  // namespace mc

#define MC_LOG(c, ...)                  \
    do {                                \
        if ((c).tracing()) {            \
            (c).log(mc::cat(__VA_ARGS__)); \
        }                               \
    } while (0)

#define MC_CHECK(c, cond, ...)                                             \
    do {                                                                   \
        if (!(cond)) {                                                     \
            (c).fail(mc::cat(__VA_ARGS__));                                \
        }                                                                  \
    } while (0)

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SECTION(name, ...) static ::mc::Register MC_CAT(mc_reg_, __LINE__)(name, __VA_ARGS__)
