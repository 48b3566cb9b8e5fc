// Threads which take turns as generated: locks, condition variables and threads of the C++ library are interposed, one
// thread runs at a time, and which one goes on is decided at every operation on them.  Time is virtual, and passes when
// everybody waits.  No thread being able to go on ever is reported as an assertion.
#pragma once

#include "pbt.h"

namespace conc
{

struct Plan {
    uint64_t seed = 0;    // With it, switches are random
    unsigned density = 0; // One in how many operations
    std::vector<std::pair<uint32_t, uint32_t>> switches; // Others: after so many operations, to which one
    unsigned spurious = 0; // One in how many operations wakes up a waiting thread without need
};

Plan plan(pbt::Src& src);

// From here on the calling thread and those which it starts take turns
void begin(const Plan& plan);
// All the others have ended, or it waits for that
void end();

bool active();
void point(); // A point to switch at
void sleepMicros(int64_t us);
uint64_t steps();
uint64_t switches();
unsigned self();

} // namespace conc
