// A virtual clock and deterministic randomness for the library under test, by interposing the symbols it uses.
#pragma once

#include <chrono>
#include <cstdint>
#include <string>
#include <vector>

namespace sim
{

extern bool gRealTime; // Leave the clock alone

void resetClock();
void advanceMicros(int64_t us);
void advanceNanos(int64_t ns);
inline void advanceMillis(int64_t ms)
{
    advanceMicros(ms * 1000);
}
int64_t nowNanos(); // Since the start of the case
inline int64_t nowMicros()
{
    return nowNanos() / 1000;
}

void seedRandom(uint64_t seed);
uint64_t random64();

// What std::random_device gives next
void forceDevice(uint32_t value);
bool takeForced(uint32_t& value);

// Errors which the library logs, "E" level only

double realSeconds();

} // namespace sim
