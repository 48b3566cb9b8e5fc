// P03: whatever the network does to the packets, what's delivered is what was sent
#include "jitter_sim.h"

using namespace pbt;
using namespace jsim;

static void check(Sim& s, Ctx& ctx, Codec codec)
{
    auto last = static_cast<int64_t>(-1);
    for (const auto& d : s.deliveries) {
        const auto i = s.identify(*d.frame);
        PBT_CHECK(ctx, i != SIZE_MAX, "timestamp", "delivered a frame with timestamp %u, which was never sent", static_cast<uint32_t>(d.frame->rtp_timestamp_ext));
        PBT_CHECK(ctx, static_cast<int64_t>(i) != last, "twice", "%s frame %zu is delivered twice", name(codec), i);
        PBT_CHECK(ctx, static_cast<int64_t>(i) > last, "order", "%s frame %zu is delivered after frame %lld", name(codec), i, static_cast<long long>(last));
        last = static_cast<int64_t>(i);
        const auto& f = s.frames[i];
        const auto got = toBytes(d.frame->data);
        if (got == f.f.expected)
            continue;
        // Leading units may be missing if their packets never came in time
        auto ok = false;
        for (const auto off : f.f.suffixes) {
            if (off > 0 && off < f.f.expected.size() && got == Bytes(f.f.expected.begin() + off, f.f.expected.end()))
                ok = true;
        }
        if (ok) {
            auto missing = false;
            for (size_t k = 0; k < f.packetCount; k += 1) {
                const auto a = s.packets[f.firstPacket + k].firstArrivalUs;
                missing = missing || a < 0 || a > d.us;
            }
            // or arrived after its place in the buffer was given up
            PBT_CHECK(ctx, missing || f.completeUs + 1000 >= s.dueUs(i) || f.completeUs > s.dueUs(0), "truncated",
                      "%s frame %zu (%s) is delivered without its start, which arrived in time", name(codec), i, f.f.describe.c_str());
            ctx.tag("leading-units-lost");
            continue;
        }
        size_t k = 0;
        while (k < got.size() && k < f.f.expected.size() && got[k] == f.f.expected[k])
            k += 1;
        ctx.fail("frame content", "%s frame %zu (%s): got %zu bytes, expected %zu, first difference at %zu: %s", name(codec), i, f.f.describe.c_str(), got.size(),
                 f.f.expected.size(), k, hex(got, 32).c_str());
    }
    // Decoding can only start with a key frame
    if (!s.deliveries.empty() && codec != Codec::Opus) {
        const auto i = s.identify(*s.deliveries.front().frame);
        PBT_CHECK(ctx, s.frames[i].f.key, "first frame", "the first frame to be delivered is %zu, not a key frame", i);
    }
}

static void go(Src& src, Ctx& ctx, Codec codec, bool foreign)
{
    Params p;
    p.codec = codec;
    p.foreign = foreign;
    p.frames = src.size(1, 14);
    p.lengthMs = src.pick({ 3, 1 }) ? src.range(0, 20) : src.range(10, 200);
    p.nackDelayMs = src.range(0, 15);
    p.nack = src.chance(2, 3);
    p.rtx = src.chance(1, 2);
    p.rttMs = src.range(0, 100);
    p.lossPercent = src.oneOf<unsigned>({ 0, 2, 10, 10, 30 });
    p.rtxLossPercent = src.oneOf<unsigned>({ 0, 10, 50 });
    p.dupPercent = src.oneOf<unsigned>({ 0, 5, 20 });
    p.ordered = src.chance(1, 4);
    p.spreadMs = src.oneOf<int64_t>({ 0, 5, 30, 100 });
    p.latePercent = src.oneOf<unsigned>({ 0, 0, 5 });
    p.hint = src.chance(1, 2);
    p.pollMs = src.oneOf<int64_t>({ 1, 5, 20, 100 });
    p.keyPercent = 30;
    p.allKeyFirst = src.chance(3, 4);
    if (src.chance(1, 8)) {
        p.frames += 3;
        p.outages[src.size(1, p.frames - 1)] = { src.chance(1, 3) ? src.size(300, 6000) : src.size(0, 1200), src.range(0, 4000000) };
    }
    Sim s(src, ctx, p);
    s.build();
    s.network();
    s.run();
    check(s, ctx, codec);
    ctx.tagN("packets", s.packets.size());
    ctx.tagN("delivered", s.deliveries.size());
    ctx.tagN("lost", s.lostPackets);
    ctx.tagN("reordered", s.reordered);
    ctx.tagN("duplicated", s.duplicates);
    if (s.lostPackets + s.reordered + s.duplicates > 0 && !s.deliveries.empty())
        ctx.nontrivial();
}

static void fH264(Src& s, Ctx& c) { go(s, c, Codec::H264, false); }
static void fH265(Src& s, Ctx& c) { go(s, c, Codec::H265, false); }
static void fAV1(Src& s, Ctx& c) { go(s, c, Codec::AV1, false); }
static void fVP8(Src& s, Ctx& c) { go(s, c, Codec::VP8, false); }
static void fVP9(Src& s, Ctx& c) { go(s, c, Codec::VP9, false); }
static void fOpus(Src& s, Ctx& c) { go(s, c, Codec::Opus, false); }

int main(int argc, char** argv)
{
    return run(argc, argv,
               { "P03",
                 "Streams of 1-17 structured frames over a network which loses, delays, reorders, duplicates and retransmits packets, in virtual time, with random "
                 "buffer lengths and wake-up policies; every delivered frame is compared with the sent one; non-trivial: something was lost, reordered or duplicated, and something delivered",
                 { "Frames have distinct timestamps", "AV1, and H264 / H265 units before the first slice: the formats don't mark the first packet of a frame, so a frame may lack leading units whose packets were lost" },
                 { { "h264", 4, fH264 }, { "h265", 3, fH265 }, { "av1", 4, fAV1 }, { "vp8", 2, fVP8 }, { "vp9", 2, fVP9 }, { "opus", 1, fOpus } } });
}
