// P01: frames through packetizer, wire, parser, jitter buffer and depacketizer, on a link which loses nothing
#include "media_ref.h"

#include <map>

using namespace pbt;
using namespace gen;

static void roundTripFor(Src& src, Ctx& ctx, Codec codec, bool foreign = false)
{
    TrackParams tp;
    tp.codec = codec;
    tp.ssrc = 1 + src.u16();
    tp.pt = static_cast<uint8_t>(src.range(96, 127));
    sim::seedRandom(1 + src.u16());

    const auto pub = makeTrack(tp);
    tp.direction = srtc::Direction::Subscribe;
    const auto sub = makeTrack(tp);

    const auto packetizer = srtc::Packetizer::make(pub).first;
    const auto depacketizer = srtc::Depacketizer::make(sub).first;
    const auto length = std::chrono::milliseconds(src.range(0, 200));
    srtc::JitterBuffer jitter(sub, depacketizer, 4096, length, std::chrono::milliseconds(10));

    ref::Sender sender(src, codec);
    auto foreignSeq = src.u16();
    const auto foreignTs = src.u32();

    int64_t pts = src.range(0, 1000000);
    const auto firstPts = pts;
    if (!foreign)
        placeCounters(src, pub, pts);

    std::vector<std::shared_ptr<srtc::RtpExtensionSource>> sources;
    const auto sourceCount = src.size(0, 2);
    for (size_t i = 0; i < sourceCount; i += 1)
        sources.push_back(std::make_shared<LoadSource>(src, src.chance(1, 4) ? 255 : 20, src.chance(1, 3)));
    const auto overhead = src.oneOf<size_t>({ 10, 16, 20, 0 });

    FrameGen fg(src, codec, 4, 1200 - 12 - overhead);
    packetizer->setCodecSpecificData(fg.csd());

    std::vector<Frame> sent;
    std::vector<srtc::ByteBuffer> received;
    std::vector<std::shared_ptr<srtc::EncodedFrame>> out;

    const auto frames = src.size(1, 8);
    size_t packets = 0, multi = 0;
    for (size_t i = 0; i < frames; i += 1) {
        auto f = fg.next(i == 0 || src.chance(1, 4));
        f.pts = pts;
        ctx.note("frame %zu: %s pts=%lld", i, f.describe.c_str(), static_cast<long long>(pts));

        const auto input = toBuffer(f.input);
        PBT_CHECK(ctx, codec == Codec::Opus || packetizer->isKeyFrame(input) == f.key, "key frame flag", "frame %zu is %s", i,
                  f.key ? "key" : "delta");
        std::vector<std::shared_ptr<srtc::RtpPacket>> list;
        if (foreign) {
            const auto ts = static_cast<uint32_t>(foreignTs + (pts - firstPts) * pub->getClockRate() / 1000000);
            for (const auto& p : sender.packetize(f)) {
                ctx.note("  packet of %zu: %s", p.data.size(), ctx.verbose() ? hex(p.data, 12).c_str() : "");
                list.push_back(std::make_shared<srtc::RtpPacket>(
                    pub, p.marker, 0, foreignSeq, ts, src.chance(1, 8) ? src.u8() : 0, toBuffer(p.data)));
                foreignSeq += 1;
            }
        } else {
            list = packetizer->generate(sources, overhead, pts, input);
        }
        PBT_CHECK(ctx, !list.empty(), "no packets", "frame %zu", i);
        if (list.size() > 1)
            multi += 1;
        packets += list.size();
        for (const auto& p : list) {
            const auto wire = p->generate();
            const auto parsed = srtc::RtpPacket::fromUdpPacket(sub, wire.buf);
            PBT_CHECK(ctx, parsed != nullptr, "parse", "frame %zu", i);
            jitter.consume(parsed);
        }
        sent.push_back(std::move(f));

        const auto step = src.range(1000, 100000);
        pts += step;
        sim::advanceMicros(step);
        for (const auto& e : jitter.processDeque())
            out.push_back(e);
    }
    sim::advanceMillis(2000);
    for (const auto& e : jitter.processDeque())
        out.push_back(e);

    for (size_t i = 0; i < std::min(out.size(), sent.size()); i += 1) {
        const auto got = toBytes(out[i]->data);
        if (got != sent[i].expected) {
            size_t k = 0;
            while (k < got.size() && k < sent[i].expected.size() && got[k] == sent[i].expected[k])
                k += 1;
            ctx.fail("frame content", "%s frame %zu of %zu (%s): got %zu bytes, expected %zu, first difference at %zu; got %s", name(codec), i,
                     sent.size(), sent[i].describe.c_str(), got.size(), sent[i].expected.size(), k, hex(got, 48).c_str());
        }
        PBT_CHECK(ctx, codec == Codec::Opus || out[i]->marker, "marker", "frame %zu", i);
        if (i > 0) {
            const auto clock = static_cast<int64_t>(pub->getClockRate());
            const auto want = (sent[i].pts - sent[0].pts) * clock / 1000000;
            const auto have = static_cast<int64_t>(out[i]->rtp_timestamp_ext - out[0]->rtp_timestamp_ext);
            PBT_CHECK(ctx, have >= want - 2 && have <= want + 2, "timestamp distance",
                      "frames 0 and %zu: presentation times differ by %lld ticks, delivered timestamps by %lld", i,
                      static_cast<long long>(want), static_cast<long long>(have));
        }
    }
    PBT_CHECK(ctx, out.size() == sent.size(), "frame count", "%s: sent %zu frames, got %zu", name(codec), sent.size(), out.size());
    ctx.tagN("packets", packets);
    ctx.tagN("frames", sent.size());
    if (multi > 0 || codec == Codec::Opus)
        ctx.nontrivial();
}

static void fH264(Src& s, Ctx& c)
{
    roundTripFor(s, c, Codec::H264);
}
static void fH265(Src& s, Ctx& c)
{
    roundTripFor(s, c, Codec::H265);
}
static void fAV1(Src& s, Ctx& c)
{
    roundTripFor(s, c, Codec::AV1);
}
static void fVP8(Src& s, Ctx& c)
{
    roundTripFor(s, c, Codec::VP8);
}
static void fVP9(Src& s, Ctx& c)
{
    roundTripFor(s, c, Codec::VP9);
}
static void fOpus(Src& s, Ctx& c)
{
    roundTripFor(s, c, Codec::Opus);
}

static void fForeign(Src& s, Ctx& c)
{
    roundTripFor(s, c, pickCodec(s), true);
}

int main(int argc, char** argv)
{
    return run(argc, argv,
               { "P01",
                 "Sequences of 1-8 structured frames (1-4 coded units each, sizes biased to packet boundaries, random extension load, padding, "
                 "overhead and counter positions) sent through packetizer, RTP bytes, parser, jitter buffer and depacketizer, and compared with an "
                 "independently built expectation; the same through another sender, written from the RFCs, that aggregates and fragments at random; non-trivial: at least one frame takes several packets (Opus: any)",
                 { "Frames are well formed: Annex B units without inner start codes, key frames preceded by parameter sets or codec data, AV1 temporal units in low-overhead format" },
                 { { "h264", 4, fH264 }, { "h265", 4, fH265 }, { "av1", 4, fAV1 }, { "vp8", 2, fVP8 }, { "vp9", 2, fVP9 }, { "opus", 1, fOpus }, { "foreign", 6, fForeign } } });
}
