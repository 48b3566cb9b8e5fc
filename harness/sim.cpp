#include "sim.h"

#include <atomic>
#include "pbt.h"

#include "srtc/logging.h"

#include <ctime>
#include <random>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

namespace sim
{

bool gRealTime = false;

static constexpr int64_t kStart = 5'000'000'000'000ll; // Steady clock at the start of a case
static constexpr int64_t kEpoch = 1'760'000'000'000'000'000ll;

static int64_t gNow = 0;
static std::atomic<uint64_t> gRandom{ 1 }; // Threads of the library draw from it as well

void resetClock()
{
    gNow = 0;
}

void advanceMicros(int64_t us)
{
    gNow += us * 1000;
}

void advanceNanos(int64_t ns)
{
    gNow += ns;
}

int64_t nowNanos()
{
    return gNow;
}

static std::atomic<bool> gForced{ false };
static uint32_t gForcedValue;

void seedRandom(uint64_t seed)
{
    gRandom = seed;
    gForced = false;
}

void forceDevice(uint32_t value)
{
    gForced = true;
    gForcedValue = value;
}

bool takeForced(uint32_t& value)
{
    value = gForcedValue; // Only set while one thread is there
    return gForced.load(std::memory_order_relaxed) && gForced.exchange(false);
}

uint64_t random64()
{
    uint64_t z = gRandom.fetch_add(0x9e3779b97f4a7c15ull, std::memory_order_relaxed) + 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

double realSeconds()
{
    struct timespec ts = {};
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return static_cast<double>(ts.tv_sec) + static_cast<double>(ts.tv_nsec) * 1e-9;
}

static int realClock(clockid_t id, struct timespec* ts)
{
    return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
}

static void reset()
{
    resetClock();
    seedRandom(1);
}

namespace
{
struct Init {
    Init()
    {
        pbt::gResetHook = reset;
        srtc::setLogLevel(1000000);
    }
} gInit;
} // namespace

} // namespace sim

namespace std
{
namespace chrono
{
inline namespace _V2
{

steady_clock::time_point steady_clock::now() noexcept
{
    if (sim::gRealTime) {
        struct timespec ts = {};
        sim::realClock(CLOCK_MONOTONIC, &ts);
        return time_point(nanoseconds(ts.tv_sec * 1000000000ll + ts.tv_nsec));
    }
    return time_point(nanoseconds(sim::kStart + sim::gNow));
}

system_clock::time_point system_clock::now() noexcept
{
    if (sim::gRealTime) {
        struct timespec ts = {};
        sim::realClock(CLOCK_REALTIME, &ts);
        return time_point(nanoseconds(ts.tv_sec * 1000000000ll + ts.tv_nsec));
    }
    return time_point(nanoseconds(sim::kEpoch + sim::gNow));
}

} // namespace _V2
} // namespace chrono

} // namespace std

extern "C" int gettimeofday(struct timeval* tv, void*)
{
    if (sim::gRealTime) {
        struct timespec ts = {};
        sim::realClock(CLOCK_REALTIME, &ts);
        tv->tv_sec = ts.tv_sec;
        tv->tv_usec = ts.tv_nsec / 1000;
    } else {
        const auto t = sim::kEpoch + sim::gNow;
        tv->tv_sec = t / 1000000000;
        tv->tv_usec = t % 1000000000 / 1000;
    }
    return 0;
}

namespace std
{

unsigned int random_device::_M_getval()
{
    uint32_t forced = 0;
    if (sim::takeForced(forced))
        return forced;
    return static_cast<unsigned int>(sim::random64());
}
} // namespace std

extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
    if (sim::gRealTime || (id != CLOCK_MONOTONIC && id != CLOCK_REALTIME)) {
        return sim::realClock(id, ts);
    }
    const int64_t t = id == CLOCK_MONOTONIC ? sim::kStart + sim::gNow : sim::kEpoch + sim::gNow;
    ts->tv_sec = t / 1000000000;
    ts->tv_nsec = t % 1000000000;
    return 0;
}

extern "C" int RAND_bytes(unsigned char* buf, int num)
{
    for (int i = 0; i < num; i += 1) {
        buf[i] = static_cast<unsigned char>(sim::random64() >> 11);
    }
    return 1;
}
