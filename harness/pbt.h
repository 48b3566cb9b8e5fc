// A small choice-sequence property-based testing engine.
//
//  * A case is a sequence of bounded integer draws from a Src.  The sequence is recorded, so that a
//    failing case is replayed, shrunk and stored as that sequence.
//  * Cases come from a PRNG, or (coverage guided) from a mutated sequence of an earlier case that
//    reached new edges of the library (which is compiled with inline 8-bit counters).
//  * Workers are forked processes.  Every draw is mirrored in shared memory, so a case that kills its
//    worker (sanitizer report, abort, signal, hang) is known to the supervisor and is shrunk in turn.
//  * A failure is replayed three times before it is reported.
#pragma once

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace pbt
{

struct Fail {
    std::string label;
    std::string text;
};

// Thrown by generators to give up on a case without counting it
struct Discard {
};

class Src
{
public:
    enum class Tail {
        Random,
        Zero
    };

    Src(uint64_t seed, std::vector<uint64_t> prefix, Tail tail);

    // Uniform in [0, max]
    uint64_t draw(uint64_t max);

    // Uniform in [lo, hi]
    int64_t range(int64_t lo, int64_t hi)
    {
        return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo)));
    }

    size_t size(size_t lo, size_t hi)
    {
        return static_cast<size_t>(range(static_cast<int64_t>(lo), static_cast<int64_t>(hi)));
    }

    // True with a probability of num / den; shrinks to false
    bool chance(unsigned num, unsigned den)
    {
        return draw(den - 1) >= den - num;
    }

    uint8_t u8()
    {
        return static_cast<uint8_t>(draw(0xff));
    }
    uint16_t u16()
    {
        return static_cast<uint16_t>(draw(0xffff));
    }
    uint32_t u32()
    {
        return static_cast<uint32_t>(draw(0xffffffffu));
    }
    uint64_t u64()
    {
        return draw(~0ull);
    }

    // Index by weights
    size_t pick(std::initializer_list<unsigned> weights);

    template <class T>
    T oneOf(std::initializer_list<T> list)
    {
        return *(list.begin() + draw(list.size() - 1));
    }

    template <class T>
    const T& elem(const std::vector<T>& list)
    {
        return list[draw(list.size() - 1)];
    }

    // Bytes: costs a single draw (expanded from a drawn seed), a seed of 0 gives 0, 1, 2, 3...
    std::vector<uint8_t> blob(size_t size);
    // Bytes: one draw per byte, for contents which matter
    std::vector<uint8_t> bytes(size_t size);

    const std::vector<uint64_t>& choices() const
    {
        return mChoices;
    }

private:
    uint64_t mState;
    std::vector<uint64_t> mPrefix;
    size_t mPos;
    Tail mTail;
    std::vector<uint64_t> mChoices;

    uint64_t next();
};

class Ctx
{
public:
    explicit Ctx(bool verbose)
        : mVerbose(verbose)
    {
    }

    bool verbose() const
    {
        return mVerbose;
    }

    // Lines which describe the case, kept only when somebody will read them
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));

    // Counts a classification label
    void tag(const char* label)
    {
        mTags[label] += 1;
    }
    void tagN(const char* label, uint64_t n)
    {
        mTags[label] += n;
    }

    // The stated rule of what is not trivial
    void nontrivial()
    {
        mNonTrivial = true;
    }

    [[noreturn]] void fail(const char* label, const char* fmt, ...) __attribute__((format(printf, 3, 4)));

    bool mVerbose;
    bool mNonTrivial = false;
    std::string mNotes;
    std::map<std::string, uint64_t> mTags;
};

struct Facet {
    const char* name;
    unsigned weight;
    std::function<void(Src&, Ctx&)> fn;
};

struct Property {
    const char* id;
    const char* rule;
    std::vector<const char*> assumptions;
    std::vector<Facet> facets;
    // A suspect is replayed so many times at most, and is confirmed by so many failures (in a row from the start when both are the same)
    unsigned confirmTries = 3, confirmNeeded = 3;
};

// Called at the start of every case
extern void (*gResetHook)();

int run(int argc, char** argv, const Property& prop);

// Does something else with a property than to search
extern int (*gRunHook)(const Property& prop);

// What is drawn in between isn't part of the case
void* pauseRecording();
void resumeRecording(void* paused);

std::string hex(const uint8_t* data, size_t size, size_t limit = 64);
inline std::string hex(const std::vector<uint8_t>& v, size_t limit = 64)
{
    return hex(v.data(), v.size(), limit);
}
uint64_t hash64(const void* data, size_t size, uint64_t seed = 0);

} // namespace pbt

#define PBT_CHECK(ctx, cond, label, ...)                                                                               \
    do {                                                                                                               \
        if (!(cond)) {                                                                                                 \
            (ctx).fail(label, __VA_ARGS__);                                                                            \
        }                                                                                                              \
    } while (false)
