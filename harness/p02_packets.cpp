// P02: what the packetizers put on the wire
#include "media_ref.h"

using namespace pbt;
using namespace gen;

namespace
{

// Remembers what it was asked for
class RecordingSource : public srtc::RtpExtensionSource
{
public:
    RecordingSource(Src& src, uint8_t id)
        : mSrc(src)
        , mId(id)
        , mEvery(src.size(1, 4))
        , mSize(src.chance(1, 4) ? src.size(1, 255) : src.size(1, 20))
        , mVary(src.chance(1, 3))
        , mPad(src.chance(1, 4) ? static_cast<uint8_t>(src.range(1, 255)) : 0)
    {
    }

    uint8_t getPadding(const std::shared_ptr<srtc::Track>&, size_t) override
    {
        return mPad;
    }
    bool wantsExtension(const std::shared_ptr<srtc::Track>&, bool key, unsigned int number) const override
    {
        return mEvery == 1 || number % mEvery == 0 || (key && mEvery == 2);
    }
    void addExtension(srtc::RtpExtensionBuilder& builder, const std::shared_ptr<srtc::Track>&, bool, unsigned int) override
    {
        const auto data = mSrc.blob(mVary ? mSrc.size(1, mSize) : mSize);
        mLast = data;
        mAdded += 1;
        builder.addBinaryValue(mId, toBuffer(data));
    }

    Src& mSrc;
    const uint8_t mId;
    const size_t mEvery;
    const size_t mSize;
    const bool mVary;
    const uint8_t mPad;
    Bytes mLast;
    size_t mAdded = 0;
};

void packets(Src& src, Ctx& ctx, Codec codec)
{
    TrackParams tp;
    tp.codec = codec;
    tp.ssrc = src.u32();
    tp.pt = static_cast<uint8_t>(src.range(96, 127));
    sim::seedRandom(1 + src.u16());
    const auto track = makeTrack(tp);
    const auto packetizer = srtc::Packetizer::make(track).first;

    int64_t pts = src.range(0, 1000000);
    placeCounters(src, track, pts);

    std::vector<std::shared_ptr<RecordingSource>> recording;
    std::vector<std::shared_ptr<srtc::RtpExtensionSource>> sources;
    const auto sourceCount = src.size(0, 2);
    for (size_t i = 0; i < sourceCount; i += 1) {
        recording.push_back(std::make_shared<RecordingSource>(src, static_cast<uint8_t>(i + 3)));
        sources.push_back(recording.back());
    }
    const auto overhead = src.oneOf<size_t>({ 10, 16, 20, 4, 0 });
    FrameGen fg(src, codec, 6, 1200 - 12 - overhead);
    packetizer->setCodecSpecificData(fg.csd());

    const auto frames = src.size(1, 10);
    int64_t basePts = 0;
    uint32_t baseTs = 0;
    uint64_t prevIndex = 0;
    auto havePrev = false;
    size_t total = 0, multi = 0;

    for (size_t i = 0; i < frames; i += 1) {
        const auto f = fg.next(i == 0 || src.chance(1, 3));
        ctx.note("frame %zu: %s pts=%lld", i, f.describe.c_str(), static_cast<long long>(pts));
        size_t added = 0;
        for (const auto& s : recording)
            added += s->mAdded;
        const auto list = packetizer->generate(sources, overhead, pts, toBuffer(f.input));
        PBT_CHECK(ctx, !list.empty(), "no packets", "frame %zu", i);
        total += list.size();
        multi += list.size() > 1 ? 1 : 0;

        std::vector<ref::Payload> payloads;
        size_t found = 0;
        for (size_t k = 0; k < list.size(); k += 1) {
            const auto& p = list[k];
            const auto out = p->generate();
            const auto wire = toBytes(out.buf);
            ctx.note("  packet %zu: %zu bytes on the wire", k, wire.size());
            if (codec != Codec::Opus)
                PBT_CHECK(ctx, wire.size() + overhead <= srtc::RtpPacket::kMaxPayloadSize, "size", "%s packet %zu of frame %zu (%s) is %zu bytes, %zu with protection",
                          name(codec), k, i, f.describe.c_str(), wire.size(), wire.size() + overhead);

            // The header, by hand
            PBT_CHECK(ctx, wire.size() >= 12, "header", "packet %zu", k);
            PBT_CHECK(ctx, wire[0] >> 6 == 2 && (wire[0] & 15) == 0, "header", "version or CC, byte %02x", wire[0]);
            PBT_CHECK(ctx, (wire[1] & 0x7f) == tp.pt, "payload id", "%u", wire[1] & 0x7f);
            const uint16_t seq = static_cast<uint16_t>(wire[2] << 8 | wire[3]);
            const uint32_t ts = static_cast<uint32_t>(wire[4]) << 24 | wire[5] << 16 | wire[6] << 8 | wire[7];
            const uint32_t ssrc = static_cast<uint32_t>(wire[8]) << 24 | wire[9] << 16 | wire[10] << 8 | wire[11];
            PBT_CHECK(ctx, ssrc == tp.ssrc, "ssrc", "%u", ssrc);

            // Numbering: consecutive, the rollover count goes up when it wraps
            const auto index = static_cast<uint64_t>(out.rollover) << 16 | seq;
            PBT_CHECK(ctx, !havePrev || index == prevIndex + 1, "sequence", "packet %zu of frame %zu has rollover:sequence %u:%u, the one before %llu:%llu", k, i,
                      out.rollover, seq, static_cast<unsigned long long>(prevIndex >> 16), static_cast<unsigned long long>(prevIndex & 0xffff));
            prevIndex = index;
            havePrev = true;

            if (i == 0 && k == 0) {
                basePts = pts;
                baseTs = ts;
            }
            const auto want = (pts - basePts) * static_cast<int64_t>(track->getClockRate()) / 1000000;
            const auto diff = static_cast<int32_t>(ts - baseTs - static_cast<uint32_t>(want));
            PBT_CHECK(ctx, diff >= -1 && diff <= 1, "timestamp", "packet %zu of frame %zu is %d ticks off", k, i, diff);
            if (k > 0)
                PBT_CHECK(ctx, ts == list[0]->getTimestamp(), "timestamp differs within a frame", "packet %zu of frame %zu", k, i);

            // Extension and padding
            size_t pos = 12, end = wire.size();
            if (wire[0] & 0x10) {
                PBT_CHECK(ctx, wire.size() >= 16, "extension", "packet %zu", k);
                const auto profile = wire[12] << 8 | wire[13];
                const size_t n = 4 * (wire[14] << 8 | wire[15]);
                PBT_CHECK(ctx, profile == 0x1000 && 16 + n <= wire.size(), "extension", "profile %04x, %zu bytes", profile, n);
                for (size_t e = 16; e < 16 + n;) {
                    if (wire[e] == 0) {
                        e += 1;
                        continue;
                    }
                    PBT_CHECK(ctx, e + 2 <= 16 + n && e + 2 + wire[e + 1] <= 16 + n, "extension element", "at %zu", e);
                    found += 1;
                    e += 2 + wire[e + 1];
                }
                pos = 16 + n;
            }
            // Every source which wants to be in the packet is
            for (const auto& s : recording) {
                if (s->mEvery == 1 && !(wire[0] & 0x10))
                    ctx.fail("extension missing", "packet %zu of frame %zu", k, i);
            }
            if (wire[0] & 0x20) {
                PBT_CHECK(ctx, wire.back() > 0 && pos + wire.back() <= end, "padding", "%u", wire.back());
                end -= wire.back();
            }
            PBT_CHECK(ctx, pos < end, "empty packet", "packet %zu of frame %zu", k, i);
            payloads.push_back({ Bytes(wire.begin() + pos, wire.begin() + end), (wire[1] & 0x80) != 0 });
        }
        size_t addedNow = 0;
        for (const auto& s : recording)
            addedNow += s->mAdded;
        for (const auto& s : recording) {
            if (s->mEvery == 1) {
                size_t n = 0;
                for (const auto& p : list)
                    n += p->getExtension().findAny(s->mId).has_value() ? 1 : 0;
                PBT_CHECK(ctx, n == list.size(), "extension missing", "a source which wants to be in every packet of frame %zu is in %zu of %zu", i, n, list.size());
            }
        }
        (void)added;
        (void)found;

        std::vector<Bytes> units;
        const auto error = ref::receive(codec, payloads, f.key, units);
        PBT_CHECK(ctx, error.empty(), "payload format", "%s frame %zu (%s): %s", name(codec), i, f.describe.c_str(), error.c_str());
        PBT_CHECK(ctx, units.size() == f.units.size(), "units", "%s frame %zu (%s): %zu units, expected %zu", name(codec), i, f.describe.c_str(), units.size(), f.units.size());
        for (size_t k = 0; k < units.size(); k += 1)
            PBT_CHECK(ctx, units[k] == f.units[k], "unit", "%s unit %zu of frame %zu (%s): got %s, expected %s", name(codec), k, i, f.describe.c_str(), hex(units[k], 16).c_str(),
                      hex(f.units[k], 16).c_str());

        const auto step = src.chance(1, 10) ? src.range(0, 3000000) : src.range(1, 100000);
        pts += step;
        sim::advanceMicros(step);
    }
    ctx.tagN("packets", total);
    if (multi > 0 || codec == Codec::Opus)
        ctx.nontrivial();
}

// A long stream of small frames: the timestamps follow the presentation times, the rollover count goes up once per 65536
void longStream(Src& src, Ctx& ctx)
{
    TrackParams tp;
    tp.codec = src.chance(1, 3) ? Codec::Opus : Codec::VP8;
    sim::seedRandom(1 + src.u16());
    const auto track = makeTrack(tp);
    const auto packetizer = srtc::Packetizer::make(track).first;
    int64_t pts = src.range(0, 1000000);
    placeCounters(src, track, pts);
    const auto frames = src.size(50, 3000);
    const auto lo = src.range(1, 40000), hi = lo + src.range(0, 100);
    const auto first = pts;
    uint32_t baseTs = 0;
    uint64_t prev = 0;
    const Bytes data = { 0x10, 0x20, 0x30, 0x40 };
    for (size_t i = 0; i < frames; i += 1) {
        const auto list = packetizer->generate({}, 10, pts, toBuffer(data));
        PBT_CHECK(ctx, list.size() == 1, "no packets", "frame %zu", i);
        const auto& p = list[0];
        if (i == 0)
            baseTs = p->getTimestamp();
        const auto want = (pts - first) * static_cast<int64_t>(track->getClockRate()) / 1000000;
        const auto diff = static_cast<int32_t>(p->getTimestamp() - baseTs - static_cast<uint32_t>(want));
        PBT_CHECK(ctx, diff >= -1 && diff <= 1, "timestamp", "frame %zu is %d ticks off, %lld us from the first", i, diff, static_cast<long long>(pts - first));
        const auto index = static_cast<uint64_t>(p->generate().rollover) << 16 | p->getSequence();
        PBT_CHECK(ctx, i == 0 || index == prev + 1, "sequence", "frame %zu", i);
        prev = index;
        pts += src.chance(1, 50) ? src.range(lo, hi) : lo;
    }
    ctx.tagN("packets", frames);
    ctx.nontrivial();
}

void fH264(Src& s, Ctx& c) { packets(s, c, Codec::H264); }
void fH265(Src& s, Ctx& c) { packets(s, c, Codec::H265); }
void fAV1(Src& s, Ctx& c) { packets(s, c, Codec::AV1); }
void fVP8(Src& s, Ctx& c) { packets(s, c, Codec::VP8); }
void fVP9(Src& s, Ctx& c) { packets(s, c, Codec::VP9); }
void fOpus(Src& s, Ctx& c) { packets(s, c, Codec::Opus); }

} // namespace

int main(int argc, char** argv)
{
    return run(argc, argv,
               { "P02",
                 "Structured frames through each packetizer with random header extensions, padding, protection overhead and counter positions; the bytes are "
                 "checked by a receiver written from the RFCs which accepts nothing invalid (sizes, header, numbering, timestamps, marker, payload format, "
                 "contents); non-trivial: a frame takes several packets (Opus, long streams: any)",
                 { "Parameter sets fit in a packet; header extensions of all the sources together take at most 520 bytes" },
                 { { "h264", 4, fH264 }, { "h265", 4, fH265 }, { "av1", 4, fAV1 }, { "vp8", 2, fVP8 }, { "vp9", 2, fVP9 }, { "opus", 1, fOpus }, { "long", 1, longStream } } });
}
