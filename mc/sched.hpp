// Controlled execution of two threads. The code under test is compiled with
// -fsanitize=thread instrumentation but linked with the hooks in sched.cpp instead of the
// TSan runtime: every memory access and every synchronisation of the two threads is seen.
#ifndef MC_SCHED_HPP
#define MC_SCHED_HPP
#include <functional>
#include <string>
#include <vector>
#include <cstdint>
namespace sched {
struct Report
{
    uint64_t accesses=0;   // to memory other than the thread's own stack
    uint64_t syncs=0;      // synchronisation operations (scheduling points)
    bool race=false; std::string what; uintptr_t addr=0;
};
// Runs a and b on two threads, one at a time. `first` starts; control passes to the other
// thread when the running one ends and just before the synchronisation operations (counted
// over both threads) listed in `switches`.
Report run(std::function<void()> const& a, std::function<void()> const& b, int first, std::vector<uint64_t> const& switches);
} // sched
#endif
