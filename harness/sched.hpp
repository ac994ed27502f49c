// sched.hpp - controlled scheduler for real multi-threaded code.
//
// sched::run(body, opt) executes body as thread 0 of a small world in which every
// std::thread is a user-level fiber of this process.  pthread_* calls, futexes, sleeps,
// the clock, the heap and (through the compiler's -fsanitize=thread callbacks, with this
// runtime instead of libtsan) every memory access and atomic operation of the code under
// test end up here.  Each scheduling decision is an mc::choose(), so the explorer
// enumerates ALL schedules with at most opt.preemptions preemptive switches.
// Reported: deadlock, endless execution, data race (vector clocks), use after free,
// out-of-bounds heap access, std::terminate, unlock by a non-owner, leaked threads.
#pragma once
#include <cstdint>
#include <functional>
#include "mc.hpp"

namespace sched {
struct Opt {
    int preemptions = 2;      // switches away from a thread that could have continued
    int spurious = 0;         // spurious condition variable wake-ups
    int timeouts = 1;         // early expiries of timed waits (always allowed when nothing else can run)
    uint64_t max_ops = 20000; // visible operations of one execution
    std::function<uint64_t()> observe;   // canonical observation for the state count
};
void run(std::function<void()> body, const Opt& opt);
void point();                 // an explicit preemption point
void settle();                // wait until no other thread can run
int choose(int n);            // environment choice from inside a thread
int tid();                    // 0 = thread running body
int threads_alive();          // created and not finished, thread 0 included
int threads_created();
bool blocked(int t);          // thread t cannot run (waiting on lock / condition / join)
[[noreturn]] void violate(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
}  // namespace sched
#define S_CHECK(cond, ...)                          \
    do {                                            \
        if (!(cond)) ::sched::violate(__VA_ARGS__); \
    } while (0)
