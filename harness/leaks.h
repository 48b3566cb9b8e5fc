// Repeats the cases of other harnesses, and counts what they leave behind
#pragma once

#include "pbt.h"
#include "sim.h"

#include <atomic>
#include <deque>

#include <dirent.h>
#include <sys/mman.h>
#include <unistd.h>

#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

namespace leaks
{

using namespace pbt;

// ----- Blocks of memory which are alive, of those which were allocated while it was counted

inline thread_local bool tCounted = true;

class Blocks
{
public:
    static constexpr size_t kSlots = 1u << 22;

    struct Slot {
        uintptr_t p;
        uint32_t size, time;
    };

    void start()
    {
        if (!mSlots) {
            mSlots = static_cast<Slot*>(mmap(nullptr, kSlots * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            if (mSlots == MAP_FAILED)
                _exit(3);
            __sanitizer_install_malloc_and_free_hooks(
                [](const volatile void* p, size_t size) { instance().add(reinterpret_cast<uintptr_t>(p), size); }, [](const volatile void* p) { instance().remove(reinterpret_cast<uintptr_t>(p)); });
        } else if (mUsed > 0) {
            madvise(mSlots, kSlots * sizeof(Slot), MADV_DONTNEED);
        }
        mUsed = mCount = mBytes = 0;
        mTime = 0;
        mOn = true;
    }
    void stop()
    {
        mOn = false;
    }
    bool full() const
    {
        return mUsed > kSlots * 3 / 4;
    }
    size_t count() const
    {
        return mCount;
    }
    size_t bytes() const
    {
        return mBytes;
    }
    void epoch(uint32_t t)
    {
        mTime = t;
    }

    // Where those come from which were allocated in an epoch and are still there
    std::string origins(uint32_t from, uint32_t to)
    {
        const auto on = mOn.exchange(false);
        std::map<std::string, std::pair<size_t, size_t>> sites;
        size_t seen = 0;
        for (size_t i = 0; i < kSlots && seen < 400; i += 1) {
            if (mSlots[i].p <= 1 || mSlots[i].time < from || mSlots[i].time > to)
                continue;
            seen += 1;
            void* trace[10];
            int thread = 0;
            const auto n = __asan_get_alloc_stack(reinterpret_cast<void*>(mSlots[i].p), trace, 10, &thread);
            std::string s;
            for (size_t k = 0; k < n; k += 1) {
                char buf[600];
                __sanitizer_symbolize_pc(trace[k], "%f %S", buf, sizeof(buf));
                if (!std::strstr(buf, "operator new") && !std::strstr(buf, "/c++/"))
                    s += std::string("      ") + std::string(buf).substr(0, 200) + "\n";
            }
            sites[s].first += 1;
            sites[s].second += mSlots[i].size;
        }
        mOn = on;
        std::string r = std::to_string(seen) + " of " + std::to_string(mCount) + "\n";
        for (const auto& s : sites)
            r += "  " + std::to_string(s.second.first) + " blocks, " + std::to_string(s.second.second) + " bytes from\n" + s.first;
        return r;
    }

    static Blocks& instance()
    {
        static Blocks blocks;
        return blocks;
    }

private:
    Slot* mSlots = nullptr;
    size_t mUsed = 0, mCount = 0, mBytes = 0;
    uint32_t mTime = 0;
    std::atomic<bool> mOn{ false };
    std::atomic_flag mLock = ATOMIC_FLAG_INIT;

    static size_t where(uintptr_t p)
    {
        return static_cast<size_t>((p >> 4) * 0x9e3779b97f4a7c15ull >> 20) & (kSlots - 1);
    }
    void add(uintptr_t p, size_t size)
    {
        if (!mOn || !tCounted || !p)
            return;
        while (mLock.test_and_set(std::memory_order_acquire)) {
        }
        if (!full()) {
            auto i = where(p);
            while (mSlots[i].p > 1)
                i = (i + 1) & (kSlots - 1);
            mUsed += mSlots[i].p == 0;
            mSlots[i] = { p, static_cast<uint32_t>(size), mTime };
            mCount += 1;
            mBytes += static_cast<uint32_t>(size);
        }
        mLock.clear(std::memory_order_release);
    }
    void remove(uintptr_t p)
    {
        if (!mOn || !p)
            return;
        while (mLock.test_and_set(std::memory_order_acquire)) {
        }
        for (auto i = where(p); mSlots[i].p != 0; i = (i + 1) & (kSlots - 1)) {
            if (mSlots[i].p == p) {
                mSlots[i].p = 1;
                mCount -= 1;
                mBytes -= mSlots[i].size;
                break;
            }
        }
        mLock.clear(std::memory_order_release);
    }
};

inline size_t entries(const char* path)
{
    size_t n = 0;
    if (const auto d = opendir(path)) {
        while (readdir(d))
            n += 1;
        closedir(d);
    }
    return n;
}

struct Held {
    size_t blocks, descriptors, threads;
};

inline Held held()
{
    return { Blocks::instance().count(), entries("/proc/self/fd"), entries("/proc/self/task") };
}

// ----- A case of another property, again and again

constexpr unsigned kTimes = 6;

inline void repeated(const Facet& facet, const std::string& name, Src& src, Ctx& ctx)
{
    {
        sim::gRealTime = false;
        Ctx inner(ctx.verbose());
        try {
            facet.fn(src, inner);
        } catch (const Fail&) {
            throw Discard(); // Another property's
        }
        ctx.mNotes += inner.mNotes;
        if (inner.mNonTrivial)
            ctx.nontrivial();
        ctx.tag((name + " repeated").c_str());
    }
    const auto choices = src.choices();
    const auto paused = pauseRecording();
    auto& blocks = Blocks::instance();
    const auto again = [&] {
        gResetHook();
        sim::gRealTime = false;
        Src s(0, choices, Src::Tail::Zero);
        Ctx c(false);
        try {
            facet.fn(s, c);
        } catch (const Fail&) {
        }
    };
    std::vector<Held> list;
    list.reserve(kTimes + 1);
    again();
    blocks.start();
    list.push_back(held());
    bool memory = true, descriptors = true, threads = true;
    for (unsigned k = 0; k < kTimes && (memory || descriptors || threads); k += 1) {
        blocks.epoch(k + 1);
        again();
        list.push_back(held());
        const auto& a = list[k];
        const auto& b = list[k + 1];
        memory = memory && b.blocks > a.blocks;
        descriptors = descriptors && b.descriptors > a.descriptors;
        threads = threads && b.threads > a.threads;
    }
    blocks.stop();
    resumeRecording(paused);
    if (blocks.full())
        throw Discard();
    const char* what = memory ? "memory" : descriptors ? "descriptors" : threads ? "threads" : nullptr;
    if (!what)
        return;
    std::string s;
    for (const auto& h : list)
        s += " " + std::to_string(memory ? h.blocks : descriptors ? h.descriptors : h.threads);
    if (memory && ctx.verbose())
        ctx.note("What the last time left behind:\n%s", blocks.origins(kTimes, kTimes).c_str());
    ctx.fail(what, "%s: after each time:%s", name.c_str(), s.c_str());
}

// ----- The cases to repeat

struct Collected {
    std::string harness;
    Property property;
};

inline std::vector<Collected> gCollected;
inline std::string gHarness;

inline void collect(const char* harness, int (*itsMain)(int, char**))
{
    gHarness = harness;
    gRunHook = [](const Property& p) {
        gCollected.push_back({ gHarness, p });
        return 0;
    };
    static char name[] = "harness";
    char* args[] = { name, nullptr };
    itsMain(1, args);
    gRunHook = nullptr;
}

// How often a harness has its turn depends on what its cases take, and on what they make and destroy
inline Property property(const std::map<std::string, unsigned>& weights)
{
    Property p;
    p.id = "P35";
    p.rule = "the case is not trivial by the rule of its own property, or at least 1000 frames or messages of which 500 arrived (steady)";
    p.assumptions = { "A leak is one which happens each of 6 times when a case is repeated in the same process, or goes on for 5 minutes of virtual time", "Memory which the C library or OpenSSL keep for a thread or a process is not counted as it does not grow each time" };
    static std::deque<std::string> names;
    for (const auto& c : gCollected) {
        unsigned total = 0;
        for (const auto& f : c.property.facets)
            total += f.weight;
        const auto it = weights.find(c.harness);
        const auto weight = it == weights.end() ? 1000u : it->second;
        for (const auto& f : c.property.facets) {
            names.push_back(c.harness + ":" + f.name);
            const auto n = names.back();
            p.facets.push_back({ names.back().c_str(), std::max(1u, weight * f.weight / total), [f, n](Src& src, Ctx& ctx) { repeated(f, n, src, ctx); } });
        }
    }
    return p;
}

} // namespace leaks
