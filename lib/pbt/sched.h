// Deterministic scheduler for generated interleavings. While active, exactly one managed thread runs at
// a time; at every synchronisation call (and at drawn points between memory accesses of instrumented
// code) the next thread is a generated choice. Choice 0 always means "carry on with the current thread".
// Outside scheduled cases the interposers only detect self-deadlock (SINGLE) or pass through (REALTIME).
#ifndef PBT_SCHED_H
#define PBT_SCHED_H

#include "pbt.h"

namespace sched {
    struct Options {
        bool memory = true; // preempt between instrumented memory accesses
        bool spurious = true; // condition variables may wake up spuriously
        bool eintr = false; // sem_wait may be interrupted
        uint64_t max_steps = 2000000;
    };

    // The calling thread becomes managed thread 0.
    void begin(pbt::G &g, const Options &o = Options());

    // Run the other threads until all have ended; a thread that cannot end is a failure.
    void drain();

    // Stop scheduling (drains first).
    void end();

    // A scheduling point.
    void point();

    // Block the caller until the predicate holds (re-evaluated whenever another thread makes a step).
    // If nothing else can run while it does not hold, that is a deadlock.
    void wait_until(const std::function<bool()> &pred, const char *what);

    // Wait (as thread 0) until every other managed thread has ended or is blocked.
    void settle();

    // Managed threads other than 0 that are blocked.
    int blocked();

    int self(); // managed thread id, -1 if unmanaged
    int live(); // managed threads that have not ended
    uint64_t switches();

    uint64_t preemptions(); // switches away from a thread that could have continued

    struct Scope {
        explicit Scope(pbt::G &g, const Options &o = Options()) { begin(g, o); }

        ~Scope() { if (!std::uncaught_exceptions()) end(); }
    };
}
#endif
