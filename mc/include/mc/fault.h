// Runs a body in a traced child process and lets the explorer decide, at each of its file system calls below the scratch directory,
// whether the process is killed there (before it, or in the middle of a write), or the call fails.
#pragma once
#include <functional>
#include <string>
#include <vector>
#include "mc/mc.h"

namespace fault {

struct Options {
    bool crash = true;           // kill the process before a mutating call
    bool torn  = true;           // ... or after half of a write
    bool power = false;          // the crash also loses what was not synced
    std::vector<int> errors;     // errno values a mutating call may fail with
    bool shortWrites = false;    // write returns after half
    bool reads       = false;    // reads may fail / be short too
    std::string also;            // calls on paths that begin so are looked at, not only those below the working directory
    int budget       = 1;        // faults per execution
};

struct Result {
    bool crashed = false;   // killed by us
    bool faulted = false;   // an error was injected
    std::string where;      // at which call
    std::vector<std::string> acks;  // in order
    std::string error;      // the body ended with this exception
    bool threw = false;
    int events = 0;
    std::vector<std::string> unsynced;  // at the end: paths with data or entry not synced
};

Result run(mc::Ctx& c, const Options& o, const std::function<void()>& body);

// from the body
void ack(const std::string& s);

// Runs in a child (fresh copy of this process's state); a failure (exception) there is a violation here.
void inChild(mc::Ctx& c, const std::function<void()>& body, const char* what = "");
// In such a child: the property is violated.
[[noreturn]] void bad(const std::string& msg);
void note(const std::string& s);  // from a child: shown in the trace of the parent

}  // namespace fault

#define FAULT_CHECK(cond, ...)                   \
    do {                                         \
        if (!(cond)) {                           \
            fault::bad(mc::cat(__VA_ARGS__));    \
        }                                        \
    } while (0)
