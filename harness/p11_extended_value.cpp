// P11: extension of 16 and 32 bit values against exact 64 bit arithmetic
#include "pbt.h"
#include "sim.h"

#include "srtc/extended_value.h"

using namespace pbt;

template <class T>
static void stream(Src& src, Ctx& ctx)
{
    constexpr int64_t range = static_cast<int64_t>(std::numeric_limits<T>::max()) + 1;
    constexpr int64_t quarter = range / 4 - 1;

    srtc::ExtendedValue<T> ext;

    // Exact value; the library starts one range up, so that it can go back
    int64_t truth = range + src.range(0, range - 1);
    const auto first = truth;
    int64_t high = truth;
    int64_t prev = truth;
    int64_t wrapTime = sim::nowMicros();

    const auto steps = src.size(1, 120);
    unsigned wraps = 0, backWraps = 0;
    for (size_t i = 0; i < steps; i += 1) {
        if (i > 0) {
            // Time
            switch (src.pick({ 4, 3, 1 })) {
            case 0:
                break;
            case 1:
                sim::advanceMillis(src.range(0, 40));
                break;
            default:
                sim::advanceMillis(src.range(0, 3000));
                break;
            }

            int64_t step;
            switch (src.pick({ 4, 3, 3, 2, 2, 2 })) {
            case 0:
                step = 1;
                break;
            case 1:
                step = src.range(-10, 20);
                break;
            case 2:
                step = src.range(0, quarter);
                break;
            case 3:
                step = src.range(-quarter, quarter);
                break;
            case 4: // To the boundary
                step = (high / range + 1) * range - prev + src.range(-3, 3);
                break;
            default: // Back over the boundary
                step = (high / range) * range - prev + src.range(-3, 3);
                break;
            }
            int64_t next = prev + step;
            // Stay within what the property covers
            next = std::min(next, std::min(high, prev) + quarter);
            next = std::max(next, std::max(high, prev) - quarter);
            if (next / range < high / range && sim::nowMicros() - wrapTime > 1000 * 1000) {
                next = (high / range) * range; // Too late to go back over a wrap
            }
            if (next < range && first / range > next / range && sim::nowMicros() > 1000 * 1000) {
                next = range;
            }
            truth = next;
        }

        const auto got = ext.extend(static_cast<T>(truth & (range - 1)));
        ctx.note("t=%lld ms value=0x%llx extended=0x%llx expected=0x%llx", static_cast<long long>(sim::nowMicros() / 1000),
                 static_cast<unsigned long long>(truth & (range - 1)), static_cast<unsigned long long>(got),
                 static_cast<unsigned long long>(truth));
        PBT_CHECK(ctx, got == static_cast<uint64_t>(truth), "extended value", "step %zu: got 0x%llx, exact value 0x%llx", i,
                  static_cast<unsigned long long>(got), static_cast<unsigned long long>(truth));
        if (truth / range < high / range) {
            backWraps += 1;
            ctx.tag("back over a wrap");
        } else {
            // What was seen last, except a value from before the wrap
            const auto g = ext.get();
            PBT_CHECK(ctx, g.has_value() && *g == static_cast<uint64_t>(truth), "last value", "step %zu", i);
        }
        if (truth / range > high / range) {
            wraps += 1;
            wrapTime = sim::nowMicros();
            ctx.tag("wrap");
        }
        high = std::max(high, truth);
        prev = truth;
    }
    if (wraps || backWraps)
        ctx.nontrivial();
}

int main(int argc, char** argv)
{
    return run(argc, argv,
               { "P11",
                 "Random walks of a 16 or 32 bit counter (steps within a quarter of the range, biased to wrap boundaries) with random "
                 "clock advances; non-trivial: the walk crosses a wrap forward or backward",
                 { "A value from before a wrap arrives within a second of the wrap" },
                 { { "u16", 3, stream<uint16_t> }, { "u32", 2, stream<uint32_t> } } });
}
