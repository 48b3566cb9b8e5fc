// P05: missing packets are requested, once, after the grace delay; received ones never; and the wire form names just them
#include "jitter_sim.h"

#include "srtc/util.h"

using namespace pbt;
using namespace jsim;

static void fRequests(Src& src, Ctx& ctx)
{
    Params p;
    p.codec = src.oneOf<Codec>({ Codec::H264, Codec::VP8, Codec::AV1, Codec::Opus, Codec::H265, Codec::VP9 });
    p.frames = src.size(2, 16);
    p.lengthMs = src.range(0, 250);
    p.nackDelayMs = src.range(0, 20);
    p.nack = src.chance(7, 8);
    p.rtx = src.chance(1, 2);
    p.rttMs = src.chance(1, 6) ? -1 : src.range(0, 150);
    p.lossPercent = src.oneOf<unsigned>({ 2, 10, 40 });
    p.rtxLossPercent = src.oneOf<unsigned>({ 0, 10, 50 });
    p.dupPercent = src.oneOf<unsigned>({ 0, 5 });
    p.ordered = src.chance(1, 2);
    p.spreadMs = src.oneOf<int64_t>({ 0, 5, 30, 100 });
    p.hint = src.chance(2, 3);
    p.keyPercent = 40;
    if (src.chance(1, 4)) {
        p.frames += 3;
        p.outages[src.size(1, p.frames - 1)] = { src.size(0, 600), src.range(0, 1000000) };
    }
    Sim s(src, ctx, p);
    s.build();
    s.network();
    s.run();
    if (s.arrivals.empty())
        return;
    if (!p.nack) {
        PBT_CHECK(ctx, s.nacks.empty(), "not negotiated", "packet %u is requested, but the track has no retransmissions", s.nacks.front().seq);
        return;
    }
    const Missing m(s);
    std::map<uint64_t, int64_t> requested;
    for (const auto& n : s.nacks) {
        const auto i = m.toIndex(n.seq);
        const auto a = m.arrivalOf(i);
        auto received = a >= 0 && a < n.us;
        for (size_t k = n.arrivalsBefore; k-- > 0 && s.arrivals[k].us == n.us && !received;)
            received = s.packets[s.arrivals[k].packet].index == i;
        PBT_CHECK(ctx, !received, "received", "packet %u is requested at %.2f ms, it was received at %.2f ms", n.seq, n.us / 1000.0, a / 1000.0);
        PBT_CHECK(ctx, requested.emplace(i, n.us).second, "twice", "packet %u is requested at %.2f ms, and before that at %.2f ms", n.seq, n.us / 1000.0, requested[i] / 1000.0);
        const auto k = m.revealed(i);
        PBT_CHECK(ctx, k && k->us <= n.us, "not known", "packet %u is requested at %.2f ms, when it wasn't known that it exists", n.seq, n.us / 1000.0);
        PBT_CHECK(ctx, n.us >= k->us + p.nackDelayMs * 1000 - 1000, "early", "packet %u is requested at %.2f ms, it could be seen to be missing since %.2f ms, the delay is %lld ms", n.seq,
                  n.us / 1000.0, k->us / 1000.0, static_cast<long long>(p.nackDelayMs));
    }
    const auto must = m.checkRequested(ctx, p.nackDelayMs);
    ctx.tagN("requests", s.nacks.size());
    ctx.tagN("had-to-be-requested", must);
    if (must > 0)
        ctx.nontrivial();
}

static void fEncoding(Src& src, Ctx& ctx)
{
    std::vector<uint16_t> list;
    const auto n = src.size(0, 60);
    uint16_t seq = src.chance(1, 2) ? static_cast<uint16_t>(65536 - src.size(1, 40)) : src.u16();
    unsigned span = 0;
    for (size_t i = 0; i < n; i += 1) {
        list.push_back(seq);
        unsigned step = 1;
        switch (src.pick({ 5, 4, 1 })) {
        case 0:
            step = 1 + static_cast<unsigned>(src.draw(3));
            break;
        case 1:
            step = 1 + static_cast<unsigned>(src.draw(40));
            break;
        case 2:
            step = 1 + static_cast<unsigned>(src.draw(3000));
            break;
        }
        span += step;
        if (span >= 32768)
            break;
        seq = static_cast<uint16_t>(seq + step);
    }
    const auto bufSeq = std::make_unique<uint16_t[]>(list.size());
    const auto bufBlp = std::make_unique<uint16_t[]>(list.size());
    const auto count = srtc::compressNackList(list, bufSeq.get(), bufBlp.get());
    PBT_CHECK(ctx, count <= list.size(), "size", "%zu entries for %zu numbers", count, list.size());
    std::vector<uint16_t> got;
    for (size_t i = 0; i < count; i += 1) {
        got.push_back(bufSeq[i]);
        for (unsigned b = 0; b < 16; b += 1) {
            if (bufBlp[i] & (1u << b))
                got.push_back(static_cast<uint16_t>(bufSeq[i] + 1 + b));
        }
    }
    std::string text;
    for (const auto v : list)
        text += std::to_string(v) + " ";
    ctx.note("%s", text.c_str());
    PBT_CHECK(ctx, got == list, "numbers", "the request names %zu numbers, %zu are missing: %s", got.size(), list.size(), text.c_str());
    // RFC 4585: as few entries as possible isn't required, but one entry covers 17 numbers
    if (list.size() > 1 && count < list.size())
        ctx.nontrivial();
}

int main(int argc, char** argv)
{
    return run(argc, argv,
               { "P05",
                 "requests: streams of 2-19 frames with loss, reordering, duplicates and (lossy, delayed) retransmissions; every request and every missing packet is judged against the log of "
                 "arrivals. encoding: increasing sets of up to 60 sequence numbers, wrapping, decoded again by an RFC 4585 reader. Non-trivial: a packet had to be requested / numbers share an entry",
                 { "Virtual time; wake-ups by the buffer's own hint or each millisecond", "A request has to be made only if the grace delay ends before the packet which revealed the loss is due" },
                 { { "requests", 4, fRequests }, { "encoding", 1, fEncoding } } });
}
