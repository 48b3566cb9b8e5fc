// P06: no payload from the network, and no frame from the application, crashes or hangs the library
#include "media_ref.h"

#include "srtc/bit_reader.h"
#include "srtc/codec_av1.h"
#include "srtc/codec_h264.h"
#include "srtc/codec_h265.h"
#include "srtc/codec_vp9.h"

#include <cassert>

using namespace pbt;
using namespace gen;

// Bytes which mean something to some codec
static uint8_t magic(Src& src, Codec codec)
{
    switch (codec) {
    case Codec::H264:
        return src.oneOf<uint8_t>({ 0, 24, 28, 1, 5, 7, 8, 6, 9, 0x78, 0x7c, 0x65, 0x80, 0x85, 0x45, 0xc1, 0xff });
    case Codec::H265:
        return src.oneOf<uint8_t>({ 0, 0x60, 0x62, 0x02, 0x26, 0x40, 0x42, 0x44, 0x4e, 1, 0x93, 0x81, 0x53, 0x80, 0xff });
    case Codec::AV1:
        return src.oneOf<uint8_t>({ 0, 0x10, 0x18, 0x20, 0x30, 0x50, 0x80, 0x90, 0xc0, 0x08, 0x0a, 0x0c, 0x0e, 0x12, 0x32, 0x30, 0x1a, 0x22, 1, 0x7f, 0xff });
    case Codec::VP8:
        return src.oneOf<uint8_t>({ 0, 0x10, 0x80, 0x90, 0xf0, 0xff, 0x9d, 1, 0x2a });
    case Codec::VP9:
        return src.oneOf<uint8_t>({ 0, 0x80, 0x88, 0x8c, 0x84, 0x08, 0x0c, 0x02, 0x0a, 0x82, 0x10, 0x20, 0x40, 0xff, 0x49, 0x83, 0x42 });
    default:
        return src.u8();
    }
}

static Bytes hostilePayload(Src& src, Codec codec)
{
    Bytes r;
    const auto n = src.pick({ 6, 2, 1 });
    const auto size = n == 0 ? src.size(0, 12) : n == 1 ? src.size(0, 60) : src.size(1000, 1460);
    const auto head = std::min(size, static_cast<size_t>(14));
    for (size_t i = 0; i < head; i += 1)
        r.push_back(src.chance(1, 2) ? magic(src, codec) : src.u8());
    if (size > head) {
        const auto rest = src.blob(size - head);
        r.insert(r.end(), rest.begin(), rest.end());
    }
    return r;
}

static void mutate(Src& src, Codec codec, Bytes& b)
{
    const auto n = src.size(0, 3);
    for (size_t i = 0; i < n; i += 1) {
        switch (src.pick({ 3, 3, 3, 2, 1 })) {
        case 0:
            if (!b.empty())
                b[src.draw(std::min<size_t>(b.size() - 1, 15))] = magic(src, codec);
            break;
        case 1:
            if (!b.empty())
                b[src.draw(b.size() - 1)] ^= static_cast<uint8_t>(1u << src.draw(7));
            break;
        case 2:
            b.resize(src.size(0, b.size()));
            break;
        case 3:
            b.insert(b.begin() + static_cast<long>(src.draw(b.size())), magic(src, codec));
            break;
        default:
            if (!b.empty())
                b.erase(b.begin() + static_cast<long>(src.draw(b.size() - 1)));
            break;
        }
    }
}

static void receive(Src& src, Ctx& ctx, Codec codec)
{
    TrackParams tp;
    tp.codec = codec;
    tp.direction = srtc::Direction::Subscribe;
    tp.nack = src.chance(1, 2);
    if (src.chance(1, 2)) {
        tp.rtxSsrc = 0x2222;
        tp.rtxPt = 97;
    }
    const auto track = makeTrack(tp);
    const auto depacketizer = srtc::Depacketizer::make(track).first;
    const auto capacity = src.oneOf<size_t>({ 16, 64, 256, 4096 });
    srtc::JitterBuffer jitter(track, depacketizer, capacity, std::chrono::milliseconds(src.oneOf<int64_t>({ 0, 10, 50 })), std::chrono::milliseconds(src.range(0, 20)));

    // A supply of valid payloads
    std::vector<Bytes> pool;
    std::vector<bool> poolMarker;
    if (src.chance(2, 3)) {
        FrameGen fg(src, codec, 3);
        ref::Sender sender(src, codec);
        const auto n = src.size(1, 4);
        for (size_t i = 0; i < n; i += 1) {
            for (const auto& p : sender.packetize(fg.next(i == 0 || src.chance(1, 3)))) {
                pool.push_back(p.data);
                poolMarker.push_back(p.marker);
                if (pool.size() >= 40)
                    break;
            }
        }
    }
    uint16_t seq = src.chance(1, 2) ? 65530 : src.u16();
    uint32_t ts = src.chance(1, 2) ? 0xfffff000u : src.u32();
    size_t in = 0, out = 0, frames = 0, next = 0;
    const auto n = src.size(1, 40);
    const auto wild = src.chance(1, 3);
    for (size_t i = 0; i < n; i += 1) {
        Bytes payload;
        auto marker = src.chance(1, 3);
        if (!pool.empty() && src.chance(3, 4)) {
            const auto k = src.chance(1, 5) ? src.size(0, pool.size() - 1) : next++ % pool.size();
            payload = pool[k];
            if (!src.chance(1, 8))
                marker = poolMarker[k];
            if (src.chance(1, 3))
                mutate(src, codec, payload);
        } else {
            payload = hostilePayload(src, codec);
        }
        const auto rtx = tp.rtxSsrc && src.chance(1, 8);
        auto s = seq;
        if (wild && src.chance(1, 4))
            s = static_cast<uint16_t>(seq + src.oneOf<int>({ -1, 1, 2, -2, 7, 8, 15, 16, 17, -15, -16, 63, 64, 65, -64, 127, 1023, 1024, 4095, 4096, -4096, 0x7fff, 0x8000, 30000 }));
        auto t = ts;
        if (wild && src.chance(1, 6))
            t = ts + static_cast<uint32_t>(src.oneOf<int64_t>({ -1, 1, -3000, 0x7fffffff, 0x80000000ll, 90000, -90000 * 20, 0x3fffffff, 0x40000000 }));
        ctx.note("packet seq %u, ts %u, marker %d, %zu bytes%s: %s", s, t, marker, payload.size(), rtx ? " (rtx)" : "", hex(payload, 24).c_str());
        if (rtx) {
            Bytes w;
            if (!src.chance(1, 8)) {
                w.push_back(static_cast<uint8_t>(s >> 8));
                w.push_back(static_cast<uint8_t>(s));
            }
            w.insert(w.end(), payload.begin(), payload.end());
            payload = w;
        }
        in += payload.size() + 16;
        const auto packet = std::make_shared<srtc::RtpPacket>(track, rtx ? tp.rtxSsrc : tp.ssrc, rtx ? tp.rtxPt : tp.pt, marker, 0, s, t, 0, srtc::RtpExtension(), toBuffer(payload));
        jitter.consume(packet);
        if (!src.chance(1, 10))
            seq = static_cast<uint16_t>(seq + 1);
        if (marker || src.chance(1, 10))
            ts += 3000;
        if (src.chance(1, 2))
            sim::advanceMillis(src.oneOf<int64_t>({ 0, 1, 5, 30, 100, 2100 }));
        if (src.chance(2, 3)) {
            const auto nacks = jitter.processNack();
            PBT_CHECK(ctx, nacks.size() <= capacity, "requests", "%zu packets are requested", nacks.size());
            (void)jitter.getTimeoutMillis(100);
            for (const auto& f : jitter.processDeque()) {
                out += f->data.size();
                frames += 1;
                PBT_CHECK(ctx, f->data.size() > 0, "empty", "an empty frame is delivered");
                PBT_CHECK(ctx, out <= 8 * in, "amplification", "%zu bytes are delivered, %zu were received", out, in);
            }
        }
    }
    for (int i = 0; i < 3; i += 1) {
        sim::advanceMillis(200);
        for (const auto& f : jitter.processDeque()) {
            out += f->data.size();
            frames += 1;
        }
    }
    PBT_CHECK(ctx, out <= 8 * in, "amplification", "%zu bytes are delivered, %zu were received", out, in);
    ctx.tagN("packets", n);
    ctx.tagN("frames", frames);
    if (frames > 0 || wild)
        ctx.nontrivial();
}

static void rH264(Src& s, Ctx& c) { receive(s, c, Codec::H264); }
static void rH265(Src& s, Ctx& c) { receive(s, c, Codec::H265); }
static void rAV1(Src& s, Ctx& c) { receive(s, c, Codec::AV1); }
static void rVP8(Src& s, Ctx& c) { receive(s, c, Codec::VP8); }
static void rVP9(Src& s, Ctx& c) { receive(s, c, Codec::VP9); }
static void rOpus(Src& s, Ctx& c) { receive(s, c, Codec::Opus); }

static Bytes frameBytes(Src& src, Codec codec, FrameGen& fg)
{
    Bytes b;
    if (src.chance(1, 2)) {
        b = fg.next(src.chance(1, 2)).input;
        mutate(src, codec, b);
        return b;
    }
    const auto n = src.size(0, 40);
    for (size_t i = 0; i < n; i += 1) {
        switch (src.pick({ 2, 2, 1 })) {
        case 0:
            b.push_back(magic(src, codec));
            break;
        case 1:
            b.push_back(src.u8());
            break;
        default:
            if (codec == Codec::H264 || codec == Codec::H265) {
                for (const auto v : { 0, 0, 1 })
                    b.push_back(static_cast<uint8_t>(v));
            } else {
                const auto more = src.blob(src.size(0, 2000));
                b.insert(b.end(), more.begin(), more.end());
            }
            break;
        }
    }
    return b;
}

static void publish(Src& src, Ctx& ctx, Codec codec)
{
    TrackParams tp;
    tp.codec = codec;
    const auto track = makeTrack(tp);
    tp.direction = srtc::Direction::Subscribe;
    const auto sub = makeTrack(tp);
    const auto packetizer = srtc::Packetizer::make(track).first;
    const auto depacketizer = srtc::Depacketizer::make(sub).first;
    srtc::JitterBuffer jitter(sub, depacketizer, 4096, std::chrono::milliseconds(0), std::chrono::milliseconds(10));
    FrameGen fg(src, codec, 3);
    if (src.chance(1, 2)) {
        packetizer->setCodecSpecificData(fg.csd());
    } else {
        std::vector<srtc::ByteBuffer> csd;
        const auto n = src.size(0, 3);
        for (size_t i = 0; i < n; i += 1) {
            Bytes b;
            if (src.chance(1, 2)) {
                const auto len = src.size(0, 8);
                for (size_t k = 0; k < len; k += 1)
                    b.push_back(magic(src, codec));
            } else {
                b = src.bytes(src.size(0, 12));
            }
            csd.push_back(toBuffer(b));
            ctx.note("csd: %s", hex(b).c_str());
        }
        packetizer->setCodecSpecificData(csd);
    }
    std::vector<std::shared_ptr<srtc::RtpExtensionSource>> sources;
    if (src.chance(1, 2))
        sources.push_back(std::make_shared<LoadSource>(src, 40, src.chance(1, 2)));
    const auto n = src.size(1, 6);
    int64_t pts = src.chance(1, 4) ? 0 : 1000000;
    size_t total = 0, given = 0;
    for (size_t i = 0; i < n; i += 1) {
        const auto b = frameBytes(src, codec, fg);
        ctx.note("frame: %zu bytes %s", b.size(), hex(b, 48).c_str());
        const auto buf = toBuffer(b);
        (void)packetizer->isKeyFrame(buf);
        size_t sent = 0;
        for (const auto& p : packetizer->generate(sources, 10, pts, buf)) {
            const auto out = p->generate();
            sent += p->getPayloadSize();
            total += 1;
            const auto parsed = srtc::RtpPacket::fromUdpPacket(sub, out.buf);
            PBT_CHECK(ctx, parsed != nullptr, "own packet", "a packet made for a frame doesn't parse");
            jitter.consume(parsed);
        }
        // Parameter sets of earlier frames are repeated
        given += b.size();
        PBT_CHECK(ctx, sent <= 8 * given + 2000, "amplification", "%zu bytes of payload for a frame of %zu", sent, b.size());
        (void)jitter.processDeque();
        sim::advanceMillis(40);
        (void)jitter.processDeque();
        pts += src.oneOf<int64_t>({ 33000, 0, 1, 10000000 });
    }
    ctx.tagN("packets", total);
    if (total > 0)
        ctx.nontrivial();
}

static void fPublish(Src& src, Ctx& ctx)
{
    publish(src, ctx, src.oneOf<Codec>({ Codec::H264, Codec::H265, Codec::AV1, Codec::VP8, Codec::VP9, Codec::Opus }));
}

// The parsers themselves, on heap blocks of the exact size
template <class P>
static void units(Ctx& ctx, const srtc::ByteBuffer& buf)
{
    size_t steps = 0, sum = 0;
    const auto begin = buf.data(), end = buf.data() + buf.size();
    for (P p(buf); p; p.next()) {
        steps += 1;
        PBT_CHECK(ctx, steps <= buf.size() + 1, "no progress", "a parser makes more steps than there are bytes");
        PBT_CHECK(ctx, p.currNalu() >= begin && p.currNalu() + p.currNaluSize() <= end, "unit", "a unit is outside of the frame");
        PBT_CHECK(ctx, p.currData() >= begin && p.currData() + p.currDataSize() <= end, "data", "data of a unit is outside of the frame");
        sum += p.currDataSize();
        (void)p.currType();
        (void)p.isAtStart();
        if (p.isAtEnd())
            ctx.tag("at-end");
    }
    PBT_CHECK(ctx, sum <= buf.size(), "overlap", "units add up to %zu bytes of %zu", sum, buf.size());
    if (steps > 0)
        ctx.nontrivial();
}

static void fParsers(Src& src, Ctx& ctx)
{
    const auto codec = src.oneOf<Codec>({ Codec::H264, Codec::H265, Codec::AV1, Codec::VP9, Codec::VP8 });
    FrameGen fg(src, codec, 3);
    auto b = frameBytes(src, codec, fg);
    ctx.note("%s %zu bytes %s", name(codec), b.size(), hex(b, 48).c_str());
    const auto buf = toBuffer(b);
    switch (codec) {
    case Codec::H264:
        units<srtc::h264::NaluParser>(ctx, buf);
        (void)srtc::h264::isFrameStart(buf.data(), buf.size());
        (void)srtc::h264::isSliceFrameStart(buf.data(), buf.size());
        break;
    case Codec::H265:
        units<srtc::h265::NaluParser>(ctx, buf);
        (void)srtc::h265::isFrameStart(buf.data(), buf.size());
        (void)srtc::h265::isSliceFrameStart(buf.data(), buf.size());
        break;
    case Codec::AV1: {
        size_t steps = 0;
        for (srtc::av1::ObuParser p(buf); p; p.next()) {
            steps += 1;
            PBT_CHECK(ctx, steps <= buf.size() + 1, "no progress", "the OBU parser makes more steps than there are bytes");
            PBT_CHECK(ctx, p.currSize() <= buf.size() && (p.currSize() == 0 || (p.currData() >= buf.data() && p.currData() + p.currSize() <= buf.data() + buf.size())),
                      "unit", "an OBU is outside of the frame");
            (void)srtc::av1::isKeyFrameObu(p.currType(), p.currData(), p.currSize());
            (void)srtc::av1::isFrameObuType(p.currType());
            if (p.isAtEnd())
                break;
        }
        if (steps > 0)
            ctx.nontrivial();
        break;
    }
    default: {
        srtc::vp9::PayloadDescriptor d;
        const uint8_t* data = nullptr;
        size_t size = 0;
        if (srtc::vp9::parsePayloadDescriptor(buf.data(), buf.size(), d, data, size)) {
            PBT_CHECK(ctx, data >= buf.data() && data + size <= buf.data() + buf.size(), "descriptor", "the payload is outside of the packet");
            ctx.nontrivial();
        }
        (void)srtc::vp9::isKeyFrame(buf.data(), buf.size());
        uint16_t w, h;
        if (srtc::vp9::extractDimensions(buf.data(), buf.size(), w, h))
            ctx.nontrivial();
        break;
    }
    }
    // Bits
    srtc::BitReader r(buf.data(), buf.size());
    for (size_t i = 0; i < 20; i += 1) {
        switch (src.draw(2)) {
        case 0:
            (void)r.readBit();
            break;
        case 1:
            (void)r.readBits(src.size(0, 32));
            break;
        default:
            (void)r.readUnsignedExpGolomb();
            break;
        }
    }
}

int main(int argc, char** argv)
{
    return run(argc, argv,
               { "P06",
                 "receive facets: up to 40 packets, valid ones from an independent packetizer, mutated, or made of bytes which mean something to the codec, with wild sequence numbers, timestamps, "
                 "markers, retransmission wrapping and times, through the jitter buffer and the depacketizer; publish: arbitrary frames and codec data through the packetizer; parsers: on exact-size "
                 "blocks. ASan / UBSan and the library's assertions judge; so do bounds on output. Non-trivial: frames came out, packets were made, or units were parsed",
                 { "Memory errors are those ASan and UBSan detect" },
                 { { "h264", 4, rH264 }, { "h265", 4, rH265 }, { "av1", 4, rAV1 }, { "vp8", 2, rVP8 }, { "vp9", 3, rVP9 }, { "opus", 1, rOpus }, { "publish", 4, fPublish }, { "parsers", 3, fParsers } } });
}
