// Controlled scheduler for the real code: several threads run inside one process, exactly one at a time,
// and change over only where the explorer says so.  The library and the harness are compiled with
// -fsanitize=thread but linked against lib/vfsched.cpp instead of ThreadSanitizer's runtime, so that every
// memory access, atomic operation, function entry, lock and guarded initialisation calls back here.
//
// Every execution runs in a process of its own (forked from one that has not used the library), so that
// first uses of statics are part of it.  Objects are never placed where freed ones were.
#ifndef VF_SCHED_H
#define VF_SCHED_H
#include <functional>
#include <string>
#include <vector>
namespace sched {
typedef unsigned long long u64;
enum Grain { Sync = 0, Statics = 1, Functions = 2, Accesses = 3 };   // where a preemption may be placed (each includes those before)
struct Plan {
    int first = 0;                      // the thread that starts
    std::vector<u64> preempt;           // points (counted over all threads) at which the next unfinished thread takes over
    Grain grain = Statics;
    bool races = true;                  // look for conflicting accesses that nothing orders
};
struct Result {
    std::vector<std::string> results;   // of the threads
    std::vector<u64> points;            // points met by each thread
    u64 accesses = 0, conflicts = 0, switches = 0, granules = 0;
    std::string race, trouble, after;   // trouble: deadlock, crash, hang;  after: what `after` returned in the child
};
// setup runs in the child before the threads, after when all have ended
Result run(const std::vector<std::function<std::string()> >& bodies, const Plan& plan, const std::function<void()>& setup = nullptr, const std::function<std::string()>& after = nullptr);
}
#endif
