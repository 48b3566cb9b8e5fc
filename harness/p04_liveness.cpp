// P04: what arrives in time is delivered, in time, and the buffer recovers after any outage
#include "jitter_sim.h"

using namespace pbt;
using namespace jsim;

static std::map<size_t, const Delivery*> delivered(const Sim& s)
{
    std::map<size_t, const Delivery*> r;
    for (const auto& d : s.deliveries) {
        const auto i = s.identify(*d.frame);
        if (i != SIZE_MAX)
            r[i] = &d;
    }
    return r;
}

static void fTimely(Src& src, Ctx& ctx)
{
    Params p;
    p.codec = src.oneOf<Codec>({ Codec::H264, Codec::H265, Codec::AV1, Codec::VP8, Codec::VP9, Codec::Opus });
    p.frames = src.size(1, 16);
    p.lengthMs = src.range(5, 200);
    p.nackDelayMs = src.range(0, 15);
    p.nack = src.chance(2, 3);
    p.rtx = src.chance(1, 2);
    p.rttMs = src.range(0, 100);
    p.lossPercent = src.oneOf<unsigned>({ 0, 2, 10, 30 });
    p.rtxLossPercent = src.oneOf<unsigned>({ 0, 10, 50 });
    p.dupPercent = src.oneOf<unsigned>({ 0, 5, 20 });
    p.ordered = src.chance(1, 4);
    p.spreadMs = src.oneOf<int64_t>({ 0, 5, 30, 100 });
    p.latePercent = src.oneOf<unsigned>({ 0, 0, 5 });
    p.hint = src.chance(2, 3);
    p.keyPercent = 40;
    if (src.chance(1, 8)) {
        p.frames += 3;
        p.outages[src.size(1, p.frames - 1)] = { src.size(0, 500), src.range(0, 5000000) };
    }
    Sim s(src, ctx, p);
    s.build();
    s.network();
    s.run();
    if (s.arrivals.empty())
        return;
    const auto got = delivered(s);
    if (p.nack && p.hint)
        Missing(s).checkRequested(ctx, p.nackDelayMs); // Which is also something to wake up for
    // When each position in the sequence was known to exist
    std::map<uint64_t, size_t> firstAbove; // For a missing index: the arrival which showed that it's missing
    auto started = p.codec == Codec::Opus;
    size_t must = 0;
    for (size_t i = 0; i < s.frames.size(); i += 1) {
        const auto& f = s.frames[i];
        const auto due = s.dueUs(i);
        const auto it = got.find(i);
        if (it != got.end()) {
            PBT_CHECK(ctx, it->second->us >= due - 1000, "early", "%s frame %zu is delivered at %.2f ms, due at %.2f ms", name(p.codec), i, it->second->us / 1000.0, due / 1000.0);
        }
        const auto timely = f.completeUs >= 0 && f.completeUs <= due - 2000;
        if (!timely)
            continue;
        if (!started) {
            if (!f.f.key)
                continue;
            started = true;
        }
        must += 1;
        PBT_CHECK(ctx, it != got.end(), "not delivered", "%s frame %zu was complete at %.2f ms, due at %.2f ms, never delivered", name(p.codec), i, f.completeUs / 1000.0, due / 1000.0);
        // Earlier packets which are missing are waited for until the packet that revealed them is due
        auto limit = due;
        const auto last = s.packets[f.firstPacket + f.packetCount - 1].index;
        for (const auto& a : s.arrivals) {
            if (a.us > due)
                break;
            if (s.packets[a.packet].index > last)
                limit = std::max(limit, s.dueUs(s.packets[a.packet].frame));
        }
        auto blocked = false;
        if (limit > due) {
            // Only if something before the frame was missing at its time
            uint64_t next = s.packets[f.firstPacket].index;
            for (size_t k = f.firstPacket; k-- > 0 && !blocked;) {
                blocked = s.packets[k].index + 1 != next || s.packets[k].firstArrivalUs < 0 || s.packets[k].firstArrivalUs >= due - 1000;
                next = s.packets[k].index;
            }
        }
        if (!blocked)
            limit = due;
        else
            ctx.tag("waits-for-earlier");
        PBT_CHECK(ctx, it->second->us <= limit + 2500, "late", "%s frame %zu was complete at %.2f ms, due at %.2f ms, delivered at %.2f ms", name(p.codec), i,
                  f.completeUs / 1000.0, due / 1000.0, it->second->us / 1000.0);
        if (it->second->frame->data.size() != f.f.expected.size())
            ctx.fail("content", "%s frame %zu: %zu bytes, expected %zu", name(p.codec), i, it->second->frame->data.size(), f.f.expected.size());
    }
    ctx.tagN("frames-in-time", must);
    ctx.tagN("frames-not-in-time", s.frames.size() - must);
    if (must > 0 && (s.lostPackets || s.reordered || s.duplicates))
        ctx.nontrivial();
}

static void fOutage(Src& src, Ctx& ctx)
{
    Params p;
    p.codec = src.oneOf<Codec>({ Codec::H264, Codec::H265, Codec::AV1, Codec::VP8, Codec::VP9, Codec::Opus });
    p.lengthMs = src.range(5, 200);
    p.nackDelayMs = src.range(0, 15);
    p.nack = src.chance(1, 2);
    p.rttMs = -1; // No retransmissions
    p.lossPercent = src.oneOf<unsigned>({ 0, 0, 5 });
    p.spreadMs = src.oneOf<int64_t>({ 0, 5, 30 });
    p.ordered = true;
    p.hint = src.chance(2, 3);
    p.keyPercent = 40;
    p.maxUnits = 1;
    p.intervalUs = src.range(60, 200) * 1000;
    const auto outages = src.size(1, 2);
    const auto after = static_cast<size_t>((2500000 + p.lengthMs * 1000) / p.intervalUs + 12);
    size_t frame = src.size(1, 6);
    for (size_t i = 0; i < outages; i += 1) {
        const auto jump = src.pick({ 3, 2, 2, 1 });
        const size_t packets = jump == 0   ? src.size(0, 500)
                               : jump == 1 ? src.oneOf<size_t>({ 255, 256, 511, 512, 513, 1022, 1023, 1024, 1025, 2048, 3071, 3072, 4094, 4095, 4096, 4097, 8192 })
                               : jump == 2 ? src.size(500, 9000)
                                           : src.size(9000, 16000);
        const auto len = src.pick({ 2, 2, 1 });
        const auto us = len == 0 ? src.range(0, 2500000) : len == 1 ? src.range(1900000, 10000000) : src.range(10000000, 3000000000ll);
        p.outages[frame] = { packets, us };
        ctx.note("outage before frame %zu: %zu packets, %.1f ms", frame, packets, us / 1000.0);
        frame += after;
    }
    p.frames = frame;
    Sim s(src, ctx, p);
    s.build();
    s.network();
    s.run();
    const auto got = delivered(s);
    // The timestamps follow the time of sending, so that, whichever packet the buffer counts from, nothing is due sooner
    for (const auto& [i, d] : got) {
        const auto& f = s.frames[i];
        PBT_CHECK(ctx, d->us >= f.sendUs + p.lengthMs * 1000 - 1500, "early", "%s frame %zu was sent at %.2f ms and delivered at %.2f ms, with a buffer of %d ms", name(p.codec), i,
                  f.sendUs / 1000.0, d->us / 1000.0, static_cast<int>(p.lengthMs));
    }
    size_t must = 0;
    size_t begin = 0;
    for (auto it = p.outages.begin();; ++it) {
        // From the first frame after the outage (or from the very first one)
        const auto end = it == p.outages.end() ? s.frames.size() : it->first;
        int64_t resume = -1;
        auto started = p.codec == Codec::Opus;
        for (size_t i = begin; i < end; i += 1) {
            const auto& f = s.frames[i];
            if (resume < 0)
                for (size_t k = 0; k < f.packetCount && resume < 0; k += 1)
                    resume = s.packets[f.firstPacket + k].firstArrivalUs;
            if (f.completeUs < 0)
                continue;
            // The first frames are only needed when no reset is, which is when there was no outage yet
            const auto settled = begin == 0 ? i > 0 : f.sendUs >= resume + 2000000 + p.lengthMs * 1000;
            if (!settled)
                continue;
            if (!started) {
                if (!f.f.key)
                    continue;
                started = true;
            }
            must += 1;
            const auto d = got.find(i);
            PBT_CHECK(ctx, d != got.end(), "stalled", "%s frame %zu was complete at %.2f ms, %.2f ms after packets came again, and never delivered", name(p.codec), i,
                      f.completeUs / 1000.0, (f.completeUs - resume) / 1000.0);
            const auto limit = std::max(f.completeUs, f.sendUs + p.spreadMs * 1000 + 50 * 64 + p.lengthMs * 1000) + 3000;
            PBT_CHECK(ctx, d->second->us <= limit, "late", "%s frame %zu was complete at %.2f ms, delivered at %.2f ms, later than %.2f ms", name(p.codec), i, f.completeUs / 1000.0,
                      d->second->us / 1000.0, limit / 1000.0);
        }
        if (it == p.outages.end())
            break;
        begin = end;
    }
    ctx.tagN("frames-after-outage", must);
    if (must > 0)
        ctx.nontrivial();
}

int main(int argc, char** argv)
{
    return run(argc, argv,
               { "P04",
                 "timely: streams of 1-19 frames with loss, delay, reordering, duplication and retransmission; each frame which was complete 2 ms before it was due (first arrival + timestamp "
                 "difference + length) must come out at that time (or when an earlier missing packet is given up). outage: 1-2 outages of up to 16000 packets and 50 minutes; each complete "
                 "frame from the first key frame sent 2 s after packets came again must come out in time. Non-trivial: frames were due, and something was lost, reordered or duplicated, or an outage",
                 { "Virtual time, single thread, wake-ups by the buffer's own hint or each millisecond", "Jumps of less than a quarter of the sequence range, forward" },
                 { { "timely", 3, fTimely }, { "outage", 2, fOutage } } });
}
