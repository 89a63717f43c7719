// Deterministic thread simulation: real threads of which exactly one runs at a time. The compiler
// inserts a call before every load, store and atomic operation of instrumented code; each of these
// calls is a point at which the schedule may hand the processor to another thread.
#pragma once
#include "core.hpp"

namespace sim::rt
{
    struct Switch
    {
        u32 after; // memory accesses of the running thread until the switch
        u32 to;    // which of the other runnable threads goes on
        u32 burst; // then this many accesses during which every second one switches
        u64 r;
    };
    // Runs the bodies to completion under the schedule; afterwards the threads go on one after the other.
    void run_threads(const std::vector<std::function<void()>>& bodies, const std::vector<Switch>& schedule);
    struct Stats { u64 accesses, switches, races_checked, sync; };
    Stats stats();
    int self(); // index of the simulated thread, -1 outside
}
