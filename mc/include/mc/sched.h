// Controlled scheduler: the pthread functions are interposed; between mcs::run()'s start and end exactly one
// registered thread runs at a time, and every scheduling decision is an explorer choice (preemption-bounded).
#pragma once
#include <functional>
#include <string>
#include "mc/mc.h"

namespace mcs {

struct Options {
    int preemptions = 2;   // switches away from a thread that could continue
    int spurious    = 0;   // condition waits that return without a notification
    int horizon     = 20000;
    bool races      = true;  // report data races (only effective in the instrumented build)
};

// Runs `main` as thread 0 under the scheduler; returns when it and every thread it created have finished.
void run(mc::Ctx& c, const Options& o, const std::function<void()>& main);

void point(const char* what = "point");  // explicit scheduling point
int self();                              // number of the calling thread in creation order
bool active();
void fail(const std::string& msg, const std::string& key = "");  // from any controlled thread: report and stop the process
void blockUntil(const std::function<bool()>& pred, const char* what);  // harness-level wait (pred reads shared harness state)
void waitIdle();  // returns when no other thread can make progress (all finished or blocked)
void log(const std::string& s);
uint64_t points();
struct Book {  // harness bookkeeping: accesses are not checked for races
    Book();
    ~Book();
};
void quiet(bool);   // true: no preemption choices while set (harness bookkeeping); use sparingly
void forgetMemory(const void* p, size_t n);  // race detector: forget accesses to this range

}  // namespace mcs

#define MCS_CHECK(cond, ...)                      \
    do {                                          \
        if (!(cond)) {                            \
            mcs::fail(mc::cat(__VA_ARGS__));      \
        }                                         \
    } while (0)
