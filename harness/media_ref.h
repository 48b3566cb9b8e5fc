// Payload formats written from the RFCs, independently of the library: another sender, and another receiver
#pragma once

#include "media_gen.h"

namespace ref
{

using gen::Bytes;
using srtc::Codec;

struct Payload {
    Bytes data;
    bool marker = false;
};

inline void leb128(Bytes& out, size_t v)
{
    do {
        uint8_t b = v & 0x7f;
        v >>= 7;
        if (v)
            b |= 0x80;
        out.push_back(b);
    } while (v);
}

//////////  A sender which makes other choices than the library's

class Sender
{
public:
    Sender(pbt::Src& src, Codec codec)
        : mSrc(src)
        , mCodec(codec)
    {
        mPictureId = static_cast<uint16_t>(src.draw(0x7fff));
        mVp9Flags = static_cast<unsigned>(src.draw(15));
    }

    std::vector<Payload> packetize(const gen::Frame& f)
    {
        std::vector<Payload> r;
        switch (mCodec) {
        case Codec::H264:
        case Codec::H265:
            h26x(r, f);
            break;
        case Codec::AV1:
            av1(r, f);
            break;
        case Codec::VP8:
            vp8(r, f);
            break;
        case Codec::VP9:
            vp9(r, f);
            break;
        default:
            r.push_back({ f.units[0], false });
            return r;
        }
        r.back().marker = true;
        mPictureId = (mPictureId + 1) & 0x7fff;
        return r;
    }

private:
    pbt::Src& mSrc;
    const Codec mCodec;
    uint16_t mPictureId;
    unsigned mVp9Flags;

    size_t room()
    {
        return mSrc.chance(3, 4) ? mSrc.size(900, 1180) : mSrc.size(20, 900);
    }

    void h26x(std::vector<Payload>& out, const gen::Frame& f)
    {
        const auto h264 = mCodec == Codec::H264;
        const size_t head = h264 ? 1 : 2;
        for (size_t i = 0; i < f.units.size();) {
            const auto& u = f.units[i];
            const auto limit = room();
            // Aggregation
            size_t n = 0, total = head;
            while (i + n < f.units.size() && total + 2 + f.units[i + n].size() <= limit) {
                total += 2 + f.units[i + n].size();
                n += 1;
            }
            if (n >= 2 && mSrc.chance(3, 4)) {
                n = mSrc.size(2, n);
                Bytes p;
                if (h264) {
                    uint8_t nri = 0;
                    for (size_t k = 0; k < n; k += 1)
                        nri = std::max<uint8_t>(nri, f.units[i + k][0] & 0x60);
                    p.push_back(nri | 24);
                } else {
                    uint8_t tid = 7;
                    unsigned layer = 63;
                    for (size_t k = 0; k < n; k += 1) {
                        const auto& v = f.units[i + k];
                        tid = std::min<uint8_t>(tid, v[1] & 7);
                        layer = std::min(layer, (v[0] & 1u) << 5 | v[1] >> 3);
                    }
                    p.push_back(static_cast<uint8_t>(48 << 1 | layer >> 5));
                    p.push_back(static_cast<uint8_t>((layer & 0x1f) << 3 | tid));
                }
                for (size_t k = 0; k < n; k += 1) {
                    const auto& v = f.units[i + k];
                    p.push_back(static_cast<uint8_t>(v.size() >> 8));
                    p.push_back(static_cast<uint8_t>(v.size()));
                    p.insert(p.end(), v.begin(), v.end());
                }
                out.push_back({ p });
                i += n;
                continue;
            }
            if (u.size() > limit || (u.size() > head + 3 && mSrc.chance(1, 5))) {
                // Fragments
                size_t pos = head;
                while (pos < u.size()) {
                    const auto start = pos == head;
                    const auto left = u.size() - pos;
                    auto now = std::min(left, mSrc.chance(1, 4) ? mSrc.size(1, limit) : limit);
                    if (start && now == left)
                        now = left - 1;
                    const auto end = now == left;
                    Bytes p;
                    if (h264) {
                        p.push_back((u[0] & 0xe0) | 28);
                        p.push_back(static_cast<uint8_t>((start ? 0x80 : 0) | (end ? 0x40 : 0) | (u[0] & 0x1f)));
                    } else {
                        p.push_back(static_cast<uint8_t>((u[0] & 0x81) | 49 << 1));
                        p.push_back(u[1]);
                        p.push_back(static_cast<uint8_t>((start ? 0x80 : 0) | (end ? 0x40 : 0) | ((u[0] >> 1) & 0x3f)));
                    }
                    p.insert(p.end(), u.begin() + pos, u.begin() + pos + now);
                    out.push_back({ p });
                    pos += now;
                }
                i += 1;
                continue;
            }
            out.push_back({ u });
            i += 1;
        }
    }

    void av1(std::vector<Payload>& out, const gen::Frame& f)
    {
        size_t i = 0, pos = 0;
        auto first = true;
        while (i < f.units.size()) {
            auto left = room();
            const auto z = pos > 0;
            std::vector<Bytes> elements;
            auto y = false;
            do {
                const auto& u = f.units[i];
                const auto take = std::min(left, u.size() - pos);
                if (take < u.size() - pos && pos == 0 && take < 3)
                    break; // Not just the header
                elements.emplace_back(u.begin() + pos, u.begin() + pos + take);
                left -= take;
                pos += take;
                if (pos == u.size()) {
                    i += 1;
                    pos = 0;
                } else {
                    y = true;
                }
            } while (i < f.units.size() && left > 3 && !y && !mSrc.chance(1, 4));
            const auto w = elements.size() <= 3 && mSrc.chance(2, 3) ? elements.size() : 0;
            Bytes p;
            p.push_back(static_cast<uint8_t>((z ? 0x80 : 0) | (y ? 0x40 : 0) | w << 4 | (first && f.key ? 0x08 : 0)));
            for (size_t k = 0; k < elements.size(); k += 1) {
                if (w == 0 || k + 1 < w)
                    leb128(p, elements[k].size());
                p.insert(p.end(), elements[k].begin(), elements[k].end());
            }
            out.push_back({ p });
            first = false;
        }
    }

    void vp8(std::vector<Payload>& out, const gen::Frame& f)
    {
        const auto& u = f.units[0];
        size_t pos = 0;
        while (pos < u.size()) {
            Bytes p;
            const auto start = pos == 0;
            // Fragments which start a partition other than the first have S too
            uint8_t b = start ? 0x10 : static_cast<uint8_t>(mSrc.draw(7));
            if (!start && (b & 7) && mSrc.chance(1, 3))
                b |= 0x10;
            if (!start && mSrc.chance(1, 8))
                b |= 0x20;
            const auto ext = mSrc.chance(2, 3);
            p.push_back(b | (ext ? 0x80 : 0));
            if (ext) {
                const auto flags = static_cast<uint8_t>(mSrc.draw(15) << 4);
                p.push_back(flags);
                if (flags & 0x80) {
                    if (mSrc.chance(1, 2)) {
                        p.push_back(static_cast<uint8_t>(0x80 | mPictureId >> 8));
                        p.push_back(static_cast<uint8_t>(mPictureId));
                    } else {
                        p.push_back(static_cast<uint8_t>(mPictureId & 0x7f));
                    }
                }
                if (flags & 0x40)
                    p.push_back(mSrc.u8());
                if (flags & 0x30)
                    p.push_back(mSrc.u8());
            }
            const auto now = std::min(u.size() - pos, room());
            p.insert(p.end(), u.begin() + pos, u.begin() + pos + now);
            out.push_back({ p });
            pos += now;
        }
    }

    void vp9(std::vector<Payload>& out, const gen::Frame& f)
    {
        const auto& u = f.units[0];
        const bool flexible = mVp9Flags & 1, layers = mVp9Flags & 2, picture = flexible || (mVp9Flags & 4);
        size_t pos = 0;
        while (pos < u.size()) {
            const auto now = std::min(u.size() - pos, room());
            const auto start = pos == 0, end = pos + now == u.size();
            const auto inter = !f.key;
            const auto structure = start && f.key && mSrc.chance(1, 2);
            Bytes p;
            p.push_back(static_cast<uint8_t>((picture ? 0x80 : 0) | (inter ? 0x40 : 0) | (layers ? 0x20 : 0) | (flexible ? 0x10 : 0) |
                                             (start ? 0x08 : 0) | (end ? 0x04 : 0) | (structure ? 0x02 : 0)));
            if (picture) {
                if (mSrc.chance(1, 2)) {
                    p.push_back(static_cast<uint8_t>(0x80 | mPictureId >> 8));
                    p.push_back(static_cast<uint8_t>(mPictureId));
                } else {
                    p.push_back(static_cast<uint8_t>(mPictureId & 0x7f));
                }
            }
            if (layers) {
                p.push_back(mSrc.u8());
                if (!flexible)
                    p.push_back(mSrc.u8());
            }
            if (flexible && inter) {
                const auto n = mSrc.range(1, 3);
                for (auto k = n; k > 0; k -= 1)
                    p.push_back(static_cast<uint8_t>(mSrc.range(1, 127) << 1 | (k > 1 ? 1 : 0)));
            }
            if (structure) {
                const auto ns = mSrc.draw(7);
                const auto y = mSrc.chance(1, 2), g = mSrc.chance(1, 2);
                p.push_back(static_cast<uint8_t>(ns << 5 | (y ? 0x10 : 0) | (g ? 0x08 : 0)));
                if (y) {
                    for (size_t k = 0; k < (ns + 1) * 4; k += 1)
                        p.push_back(mSrc.u8());
                }
                if (g) {
                    const auto ng = mSrc.draw(4);
                    p.push_back(static_cast<uint8_t>(ng));
                    for (size_t k = 0; k < ng; k += 1) {
                        const auto r = mSrc.draw(3);
                        p.push_back(static_cast<uint8_t>(mSrc.draw(7) << 5 | mSrc.draw(1) << 4 | r << 2));
                        for (size_t j = 0; j < r; j += 1)
                            p.push_back(mSrc.u8());
                    }
                }
            }
            p.insert(p.end(), u.begin() + pos, u.begin() + pos + now);
            out.push_back({ p });
            pos += now;
        }
    }
};

//////////  A receiver which accepts nothing that's not valid. Returns an empty string or what is wrong.

inline std::string receive(Codec codec, const std::vector<Payload>& packets, bool key, std::vector<Bytes>& units)
{
    units.clear();
    Bytes current;
    auto open = false;
    for (size_t i = 0; i < packets.size(); i += 1) {
        const auto& p = packets[i].data;
        const auto at = " in packet " + std::to_string(i);
        if (p.empty())
            return "empty payload" + at;
        switch (codec) {
        case Codec::H264:
        case Codec::H265: {
            const auto h264 = codec == Codec::H264;
            const size_t head = h264 ? 1 : 2;
            if (p[0] & 0x80)
                return "forbidden bit" + at;
            if (p.size() < head)
                return "short" + at;
            const auto type = h264 ? p[0] & 0x1f : p[0] >> 1;
            if (!h264 && (p[1] & 7) == 0)
                return "temporal id of 0" + at;
            if (type == (h264 ? 28 : 49)) {
                if (p.size() < head + 2)
                    return "empty fragment" + at;
                const auto fu = p[head];
                const bool s = fu & 0x80, e = fu & 0x40;
                if (s && e)
                    return "fragment is both the first and the last" + at;
                if (h264 && (fu & 0x20))
                    return "reserved bit" + at;
                if (s == open)
                    return (s ? std::string("a fragment starts inside another") : std::string("a fragment without a start")) + at;
                if (s) {
                    if (h264)
                        current = { static_cast<uint8_t>((p[0] & 0x60) | (fu & 0x1f)) };
                    else
                        current = { static_cast<uint8_t>((p[0] & 1) | (fu & 0x3f) << 1), p[1] };
                } else {
                    const auto header = h264 ? static_cast<uint8_t>((p[0] & 0x60) | (fu & 0x1f)) : static_cast<uint8_t>((p[0] & 1) | (fu & 0x3f) << 1);
                    if (header != current[0] || (!h264 && p[1] != current[1]))
                        return "fragments of a unit have different headers" + at;
                }
                current.insert(current.end(), p.begin() + head + 1, p.end());
                open = !e;
                if (e)
                    units.push_back(std::move(current));
            } else if (open) {
                return "not a fragment inside a fragmented unit" + at;
            } else if (type == (h264 ? 24 : 48)) {
                size_t pos = head, count = 0;
                uint8_t nri = 0;
                while (pos < p.size()) {
                    if (pos + 2 > p.size())
                        return "aggregation size" + at;
                    const size_t n = p[pos] << 8 | p[pos + 1];
                    pos += 2;
                    if (n < head || pos + n > p.size())
                        return "aggregation unit size" + at;
                    nri = std::max<uint8_t>(nri, p[pos] & 0x60);
                    units.emplace_back(p.begin() + pos, p.begin() + pos + n);
                    pos += n;
                    count += 1;
                }
                if (h264 && nri != (p[0] & 0x60))
                    return "NRI of the aggregation is not the highest of its units" + at;
                if (count < (h264 ? 1 : 2))
                    return "aggregation of too few" + at;
            } else if (type >= (h264 ? 24 : 48) || (h264 && type == 0)) {
                return "packet type" + at;
            } else {
                units.push_back(p);
            }
            break;
        }
        case Codec::AV1: {
            const bool z = p[0] & 0x80, y = p[0] & 0x40, n = p[0] & 0x08;
            const size_t w = (p[0] >> 4) & 3;
            if (p[0] & 7)
                return "reserved bits" + at;
            if (z != open)
                return "Z doesn't match the previous Y" + at;
            if (n != (key && i == 0))
                return "N" + at;
            size_t pos = 1, count = 0;
            open = false;
            while (pos < p.size()) {
                size_t size = 0;
                if (w && count == w - 1) {
                    size = p.size() - pos;
                } else {
                    int shift = 0;
                    for (;;) {
                        if (pos >= p.size() || shift > 28)
                            return "element size" + at;
                        const auto b = p[pos];
                        pos += 1;
                        size |= static_cast<size_t>(b & 0x7f) << shift;
                        shift += 7;
                        if (!(b & 0x80))
                            break;
                    }
                }
                if (size == 0 || pos + size > p.size())
                    return "element size " + std::to_string(size) + at;
                if (!(z && count == 0))
                    current.clear();
                current.insert(current.end(), p.begin() + pos, p.begin() + pos + size);
                pos += size;
                count += 1;
                if (pos == p.size() && y) {
                    open = true;
                } else {
                    if (current[0] & 0x80)
                        return "forbidden bit of an OBU" + at;
                    if (((current[0] >> 3) & 15) == 2)
                        return "temporal delimiter" + at;
                    units.push_back(current);
                }
            }
            if (count == 0 || (w && count != w))
                return "element count" + at;
            break;
        }
        case Codec::VP8: {
            size_t pos = 1;
            if (p[0] & 0x80) {
                if (p.size() < 2)
                    return "short" + at;
                const auto f = p[1];
                pos = 2;
                if (f & 0x80) {
                    if (pos >= p.size())
                        return "short" + at;
                    pos += p[pos] & 0x80 ? 2 : 1;
                }
                pos += (f & 0x40 ? 1 : 0) + (f & 0x30 ? 1 : 0);
            }
            if (pos >= p.size())
                return "no payload" + at;
            if (p[0] & 0x48)
                return "reserved bits" + at;
            const auto start = (p[0] & 0x17) == 0x10;
            if (start != (i == 0))
                return "S bit" + at;
            if (p[0] & 0x20)
                return "N bit of a frame that may be a reference" + at;
            current.insert(current.end(), p.begin() + pos, p.end());
            break;
        }
        case Codec::VP9: {
            size_t pos = 1;
            if (p[0] & 0x20 || p[0] & 0x10 || p[0] & 0x02)
                return "layers, references or structure which nobody asked for" + at;
            if (p[0] & 0x80) {
                if (pos >= p.size())
                    return "short" + at;
                pos += p[pos] & 0x80 ? 2 : 1;
            }
            if (p[0] & 0x01)
                return "reserved bit" + at;
            if (pos >= p.size())
                return "no payload" + at;
            if (bool(p[0] & 0x08) != (i == 0) || bool(p[0] & 0x04) != (i + 1 == packets.size()))
                return "B or E bit" + at;
            if (bool(p[0] & 0x40) == key)
                return "P bit" + at;
            if (i > 0 && (packets[0].data[1] != p[1] || packets[0].data[2] != p[2]))
                return "picture id changes inside of a frame" + at;
            current.insert(current.end(), p.begin() + pos, p.end());
            break;
        }
        default:
            units.push_back(p);
            break;
        }
        if (codec != Codec::Opus && packets[i].marker != (i + 1 == packets.size()))
            return "marker" + at;
        if (codec == Codec::Opus && packets.size() != 1)
            return "an audio frame in several packets";
    }
    if (open)
        return "the last unit has no end";
    if (codec == Codec::VP8 || codec == Codec::VP9)
        units.push_back(current);
    return {};
}

} // namespace ref
