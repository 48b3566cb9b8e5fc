// Generators of encoded frames for each codec, with what should come out at the other end
#pragma once

#include "pbt.h"
#include "sim.h"

#include "srtc/byte_buffer.h"
#include "srtc/depacketizer.h"
#include "srtc/encoded_frame.h"
#include "srtc/extension_map.h"
#include "srtc/jitter_buffer.h"
#include "srtc/media.h"
#include "srtc/packetizer.h"
#include "srtc/rtp_extension_builder.h"
#include "srtc/rtp_extension_source.h"
#include "srtc/rtp_packet.h"
#include "srtc/rtp_packet_source.h"
#include "srtc/rtp_time_source.h"
#include "srtc/srtc.h"
#include "srtc/track.h"

#include <memory>
#include <string>
#include <vector>

namespace gen
{

using Bytes = std::vector<uint8_t>;
using srtc::Codec;

inline srtc::ByteBuffer toBuffer(const Bytes& b)
{
    return { b.data(), b.size() };
}
inline Bytes toBytes(const srtc::ByteBuffer& b)
{
    return { b.data(), b.data() + b.size() };
}

inline const char* name(Codec c)
{
    switch (c) {
    case Codec::VP8:
        return "VP8";
    case Codec::VP9:
        return "VP9";
    case Codec::H264:
        return "H264";
    case Codec::H265:
        return "H265";
    case Codec::AV1:
        return "AV1";
    default:
        return "Opus";
    }
}

inline Codec pickCodec(pbt::Src& src)
{
    static const Codec list[] = { Codec::H264, Codec::AV1, Codec::H265, Codec::VP8, Codec::VP9, Codec::Opus };
    return list[src.pick({ 4, 4, 4, 2, 2, 1 })];
}

struct TrackParams {
    Codec codec = Codec::H264;
    srtc::Direction direction = srtc::Direction::Publish;
    uint32_t ssrc = 0x1111;
    uint8_t pt = 96;
    uint32_t rtxSsrc = 0;
    uint8_t rtxPt = 0;
    bool nack = false;
    srtc::ExtensionMap extensions;
};

inline std::shared_ptr<srtc::Track> makeTrack(const TrackParams& p)
{
    const auto audio = p.codec == Codec::Opus;
    const auto media = std::make_shared<srtc::Media>(
        audio ? "audio" : "video", audio ? srtc::MediaType::Audio : srtc::MediaType::Video, p.extensions);
    srtc::TrackBuilder b(media, p.direction, p.ssrc, p.pt, audio ? 48000 : 90000);
    b.codec(p.codec, nullptr);
    if (p.rtxSsrc)
        b.rtx(p.rtxSsrc, p.rtxPt);
    b.nack(p.nack);
    return b.build();
}

// Adds header extensions of chosen sizes, and asks for padding
class LoadSource : public srtc::RtpExtensionSource
{
public:
    LoadSource(pbt::Src& src, size_t maxElement, bool mayPad)
        : mSrc(src)
        , mMaxElement(maxElement)
        , mMayPad(mayPad)
    {
        mMode = mMaxElement ? src.pick({ 4, 2, 2, 2 }) : 0;
        mSize = src.size(0, mMaxElement);
        mPad = mayPad ? static_cast<uint8_t>(src.pick({ 3, 1, 1 })) : 0;
        mPadSize = mPad ? static_cast<uint8_t>(src.range(1, 255)) : 0;
    }

    uint8_t getPadding(const std::shared_ptr<srtc::Track>&, size_t) override
    {
        if (mPad == 0)
            return 0;
        return mPad == 1 ? mPadSize : static_cast<uint8_t>(mSrc.range(0, mPadSize));
    }

    bool wantsExtension(const std::shared_ptr<srtc::Track>&, bool isKeyFrame, unsigned int packetNumber) const override
    {
        switch (mMode) {
        case 0:
            return false;
        case 1:
            return true;
        case 2:
            return packetNumber == 0 || isKeyFrame;
        default:
            return packetNumber % 2 == 1 || mSrc.chance(1, 4);
        }
    }

    void addExtension(srtc::RtpExtensionBuilder& builder,
                      const std::shared_ptr<srtc::Track>&,
                      bool,
                      unsigned int) override
    {
        const auto size = mSrc.chance(1, 3) ? mSrc.size(0, mMaxElement) : mSize;
        const auto data = mSrc.blob(size);
        builder.addBinaryValue(3, toBuffer(data));
    }

private:
    pbt::Src& mSrc;
    size_t mMaxElement;
    bool mMayPad;
    size_t mMode;
    size_t mSize;
    uint8_t mPad;
    uint8_t mPadSize;
};

struct Frame {
    Bytes input;
    Bytes expected;
    std::vector<Bytes> units; // NAL units, OBUs without a size, or the whole frame, in the order of "expected"
    bool key = false;
    // Offsets in "expected" where a suffix may start if the first packets of the frame are lost (AV1)
    std::vector<size_t> suffixes;
    int64_t pts = 0;
    std::string describe;
};

class FrameGen
{
public:
    FrameGen(pbt::Src& src, Codec codec, size_t maxUnits = 4, size_t budget = 1174)
        : mSrc(src)
        , mCodec(codec)
        , mMaxUnits(maxUnits)
        , mBudget(budget)
    {
    }

    // Codec specific data to set in the packetizer, may be empty
    std::vector<srtc::ByteBuffer> csd()
    {
        std::vector<srtc::ByteBuffer> r;
        if (mCodec != Codec::H264 && mCodec != Codec::H265)
            return r;
        newParameters();
        if (mSrc.chance(1, 2)) {
            mCsd = true;
            if (mSrc.chance(1, 2)) {
                // All in one
                Bytes all;
                for (const auto& p : mParams)
                    unit(all, p, true);
                r.push_back(toBuffer(all));
            } else {
                for (const auto& p : mParams) {
                    Bytes one;
                    unit(one, p, mSrc.chance(1, 2));
                    r.push_back(toBuffer(one));
                }
            }
        }
        return r;
    }

    size_t size()
    {
        switch (mSrc.pick({ 4, 4, 3, 2, 1 })) {
        case 0:
            return mSrc.size(4, 200);
        case 1: // Around the boundary of a packet
            return static_cast<size_t>(std::max<int64_t>(4, static_cast<int64_t>(mBudget) + mSrc.range(-60, 30)));
        case 2: // Around a multiple
            return static_cast<size_t>(
                std::max<int64_t>(4, static_cast<int64_t>(mBudget) * mSrc.range(2, 4) + mSrc.range(-60, 30)));
        case 3:
            return mSrc.size(200, 6000);
        default:
            return mSrc.size(4, 20000);
        }
    }

    Frame next(bool key)
    {
        Frame f;
        f.key = key;
        switch (mCodec) {
        case Codec::H264:
        case Codec::H265:
            h26x(f);
            break;
        case Codec::AV1:
            av1(f);
            break;
        case Codec::VP8: {
            f.input = mSrc.blob(std::max<size_t>(3, size()));
            f.input[0] = static_cast<uint8_t>((f.input[0] & ~1u) | (key ? 0 : 1));
            f.expected = f.input;
            f.units.push_back(f.input);
            break;
        }
        case Codec::VP9: {
            f.input = mSrc.blob(std::max<size_t>(3, size()));
            // frame_marker 2, profile, [reserved], show_existing 0, frame_type
            const auto profile = static_cast<uint8_t>(mSrc.draw(3));
            uint8_t b = 0x80 | ((profile & 1) << 5) | ((profile >> 1) << 4);
            if (profile == 3)
                b |= key ? 0 : (1 << 1);
            else
                b |= key ? 0 : (1 << 2);
            f.input[0] = b | (f.input[0] & 1);
            f.expected = f.input;
            f.units.push_back(f.input);
            break;
        }
        default:
            f.input = mSrc.blob(mSrc.chance(1, 4) ? mSrc.size(1, 1200) : mSrc.size(1, 200));
            f.expected = f.input;
            f.units.push_back(f.input);
            break;
        }
        char buf[64];
        std::snprintf(buf, sizeof(buf), "%s %s %zu bytes ", name(mCodec), key ? "key" : "delta", f.input.size());
        f.describe = buf + f.describe;
        return f;
    }

private:
    pbt::Src& mSrc;
    const Codec mCodec;
    const size_t mMaxUnits;
    const size_t mBudget;
    std::vector<Bytes> mParams;
    bool mCsd = false;
    bool mLarge = false;
    bool mSentParams = false;

    static void startCode(Bytes& out, bool four)
    {
        if (four)
            out.push_back(0);
        out.push_back(0);
        out.push_back(0);
        out.push_back(1);
    }
    static void unit(Bytes& out, const Bytes& nalu, bool four)
    {
        startCode(out, four);
        out.insert(out.end(), nalu.begin(), nalu.end());
    }

    // No start codes inside, does not end with a zero
    Bytes payload(size_t size)
    {
        auto r = mSrc.blob(size);
        for (size_t i = 0; i < r.size(); i += 1) {
            if (r[i] == 0 && (i + 1 == r.size() || i == 0 || r[i - 1] == 0))
                r[i] = 0x55;
        }
        return r;
    }

    size_t parameterSize()
    {
        if (!mLarge && mSrc.chance(1, 12)) {
            mLarge = true; // one of them, so that they fit in a packet together
            return mSrc.size(200, 320);
        }
        return mSrc.size(3, 40);
    }

    void newParameters()
    {
        mParams.clear();
        mLarge = false;
        if (mCodec == Codec::H264) {
            for (const auto type : { 7, 8 }) {
                auto n = payload(parameterSize());
                n.insert(n.begin(), static_cast<uint8_t>(0x60 | type));
                mParams.push_back(n);
            }
        } else {
            for (const auto type : { 32, 33, 34 }) {
                auto n = payload(parameterSize());
                n.insert(n.begin(), 1);
                n.insert(n.begin(), static_cast<uint8_t>(type << 1));
                mParams.push_back(n);
            }
        }
    }

    void h26x(Frame& f)
    {
        const auto h264 = mCodec == Codec::H264;

        if (mParams.empty())
            newParameters();

        // Delimiter, then supplemental information, either side of the parameters
        if (mSrc.chance(1, 6))
            extra(f, h264 ? 9 : 35, h264 ? 1 : 1);
        auto sei = mSrc.chance(1, 6) ? mSrc.size(1, 2) : 0;
        if (sei && mSrc.chance(1, 2)) {
            extra(f, h264 ? 6 : 39, mSrc.chance(1, 6) ? size() : mSrc.size(2, 60));
            sei -= 1;
        }

        if (f.key) {
            const auto change = mSentParams && mSrc.chance(1, 6);
            if (change)
                newParameters();
            if (change || (!mSentParams && !mCsd) || mSrc.chance(1, 3)) {
                for (const auto& p : mParams)
                    unit(f.input, p, mSrc.chance(3, 4));
                f.describe += "params ";
            }
            mSentParams = true;
        }
        for (; sei; sei -= 1)
            extra(f, h264 ? 6 : 39, mSrc.chance(1, 6) ? size() : mSrc.size(2, 60));

        // The parameters always come just before the first slice of a key frame
        f.suffixes.push_back(f.expected.size());
        if (f.key) {
            for (const auto& p : mParams)
                expect(f, p);
        }

        const auto n = mSrc.size(1, mMaxUnits);
        const uint8_t keyType = h264 ? 5 : mSrc.oneOf<uint8_t>({ 19, 20, 21 });
        const uint8_t deltaType = h264 ? 1 : static_cast<uint8_t>(mSrc.draw(9));
        for (size_t i = 0; i < n; i += 1) {
            auto p = payload(size());
            // The start of the slice header tells if it's the first of its picture
            if (i == 0) {
                p[0] |= 0x80;
            } else {
                p[0] = 0x40 | (p[0] & 0x1f); // ue(v) = 1 or 2; first_slice_segment_in_pic_flag = 0
            }
            Bytes nalu;
            if (h264) {
                nalu.push_back(static_cast<uint8_t>((mSrc.draw(3) << 5) | (f.key ? keyType : deltaType)));
            } else {
                const auto layer = static_cast<uint8_t>(mSrc.chance(1, 4) ? mSrc.draw(62) : 0);
                nalu.push_back(static_cast<uint8_t>(((f.key ? keyType : deltaType) << 1) | (layer >> 5)));
                nalu.push_back(static_cast<uint8_t>(((layer & 0x1f) << 3) | (1 + mSrc.draw(6))));
            }
            nalu.insert(nalu.end(), p.begin(), p.end());
            f.describe += "nalu:" + std::to_string(nalu.size()) + " ";
            unit(f.input, nalu, mSrc.chance(3, 4));
            expect(f, nalu);
        }
        // End of sequence, one byte in H264
        if (mSrc.chance(1, 12)) {
            Bytes nalu;
            if (h264)
                nalu = { 10 };
            else
                nalu = { 36 << 1, 1 };
            unit(f.input, nalu, true);
            expect(f, nalu);
            f.describe += "eos ";
        }
    }

    static void expect(Frame& f, const Bytes& nalu)
    {
        unit(f.expected, nalu, true);
        f.units.push_back(nalu);
    }

    void extra(Frame& f, int type, size_t size)
    {
        auto p = payload(size);
        if (mCodec == Codec::H264) {
            p.insert(p.begin(), static_cast<uint8_t>(type));
        } else {
            p.insert(p.begin(), 1);
            p.insert(p.begin(), static_cast<uint8_t>(type << 1));
        }
        f.suffixes.push_back(f.expected.size());
        f.describe += "type" + std::to_string(type) + ":" + std::to_string(p.size()) + " ";
        unit(f.input, p, mSrc.chance(3, 4));
        expect(f, p);
    }

    static void leb128(Bytes& out, size_t v)
    {
        do {
            uint8_t b = v & 0x7f;
            v >>= 7;
            if (v)
                b |= 0x80;
            out.push_back(b);
        } while (v);
    }

    void obu(Frame& f, uint8_t type, const Bytes& body, uint8_t temporal, uint8_t spatial, bool withSize, bool forceExt)
    {
        const auto ext = temporal || spatial || forceExt;
        f.input.push_back(static_cast<uint8_t>((type << 3) | (ext ? 4 : 0) | (withSize ? 2 : 0)));
        if (ext)
            f.input.push_back(static_cast<uint8_t>((temporal << 5) | (spatial << 3)));
        if (withSize)
            leb128(f.input, body.size());
        f.input.insert(f.input.end(), body.begin(), body.end());

        if (type == 2 || body.empty())
            return; // Delimiters are not sent

        const auto ext2 = temporal || spatial;
        if (type != 4)
            f.suffixes.push_back(f.expected.size());
        f.expected.push_back(static_cast<uint8_t>((type << 3) | (ext2 ? 4 : 0) | 2));
        if (ext2)
            f.expected.push_back(static_cast<uint8_t>((temporal << 5) | (spatial << 3)));
        leb128(f.expected, body.size());
        f.expected.insert(f.expected.end(), body.begin(), body.end());
        Bytes u = { static_cast<uint8_t>((type << 3) | (ext2 ? 4 : 0)) };
        if (ext2)
            u.push_back(static_cast<uint8_t>((temporal << 5) | (spatial << 3)));
        u.insert(u.end(), body.begin(), body.end());
        f.units.push_back(std::move(u));
        f.describe += "obu" + std::to_string(type) + ":" + std::to_string(body.size()) + (ext2 ? "x " : " ");
    }

    void av1(Frame& f)
    {
        if (mSrc.chance(1, 2))
            obu(f, 2, {}, 0, 0, true, false);
        if (f.key)
            obu(f, 1, mSrc.blob(mSrc.size(1, 40)), 0, 0, true, false);
        if (mSrc.chance(1, 5))
            obu(f, 5, mSrc.blob(mSrc.size(1, 60)), 0, 0, true, false); // Metadata

        const auto n = mSrc.size(1, mMaxUnits);
        const auto temporal = static_cast<uint8_t>(mSrc.chance(1, 3) ? mSrc.draw(7) : 0);
        auto tiles = false;
        for (size_t i = 0; i < n; i += 1) {
            const auto spatial = static_cast<uint8_t>(mSrc.chance(1, 4) ? mSrc.draw(3) : 0);
            auto body = mSrc.blob(size());
            // show_existing_frame, frame_type
            body[0] = static_cast<uint8_t>((body[0] & 0x1f) | (f.key ? 0 : 0x20));
            const auto last = i == n - 1;
            uint8_t type = 6;
            if (i > 0 && tiles && (mSrc.chance(2, 3))) {
                type = 4; // Tile group, after a frame header
            } else if (mSrc.chance(1, 4)) {
                type = 3;
            }
            tiles = type == 3 || type == 4;
            obu(f, type, body, temporal, spatial, !(last && mSrc.chance(1, 4)), mSrc.chance(1, 8));
        }
    }
};

// Counters of the track moved close to where they wrap
inline void placeCounters(pbt::Src& src, const std::shared_ptr<srtc::Track>& track, int64_t& pts)
{
    sim::seedRandom(src.u16());
    if (src.chance(1, 3)) {
        const auto source = track->getRtpPacketSource();
        const auto target = static_cast<uint16_t>(0x10000 - src.range(1, 60));
        for (;;) {
            const auto [roll, seq] = source->getNextSequence();
            (void)roll;
            if (seq == target)
                break;
        }
    }
    if (src.chance(1, 3)) {
        const auto source = track->getRtpTimeSource();
        const auto now = source->getFrameTimestamp(pts);
        const auto target = 0x100000000ll - src.range(1, 90000);
        const auto ticks = target - now;
        pts += ticks * 1000000 / track->getClockRate();
        (void)source->getFrameTimestamp(pts);
        pts += 1000;
    }
}

} // namespace gen
