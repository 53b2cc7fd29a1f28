// linked when the build is not instrumented
#include <cstddef>
namespace mcs {
void raceReset() {}
bool freedMemory(const void*) { return false; }
void forgetMemory(const void*, size_t) {}
}  // namespace mcs
