// Runs bodies in traced processes, one at a time: the explorer decides at each system call on files below the scratch directory and on
// locks which process goes on (up to a number of preemptions), and whether a process is killed there.
#pragma once
#include <functional>
#include <string>
#include <vector>
#include "mc/mc.h"

namespace procs {

struct Options {
    int preemptions = 2;  // switches away from a process that could go on
    int crashes     = 0;  // processes killed
};

struct Ack {
    int proc;
    std::string what;
};

struct Result {
    std::vector<Ack> acks;            // of all processes, in order
    std::vector<bool> crashed;        // killed by us
    std::vector<std::string> errors;  // the body ended with this exception
    std::string where;                // the last was killed at this call
    bool allEnded() const {
        for (size_t i = 0; i < crashed.size(); i++)
            if (crashed[i] || !errors[i].empty()) return false;
        return true;
    }
};

Result run(mc::Ctx& c, const Options& o, const std::vector<std::function<void()>>& bodies);

// from a body
void ack(const std::string& s);
[[noreturn]] void bad(const std::string& msg);
volatile int* shared();  // 64 numbers shared by the processes; that at the index of a process is zeroed when it is killed
void step();             // a point where another process may go on

}  // namespace procs

#define PROC_CHECK(cond, ...)                 \
    do {                                      \
        if (!(cond)) {                        \
            procs::bad(mc::cat(__VA_ARGS__)); \
        }                                     \
    } while (0)
