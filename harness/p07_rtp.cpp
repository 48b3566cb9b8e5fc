// P07: RTP and RTCP packets through serialization and parsing, against an independent reader
#include "media_gen.h"

#include "srtc/rtcp_packet.h"
#include "srtc/rtp_packet_source.h"

using namespace pbt;
using namespace gen;

namespace
{

struct Element {
    unsigned id;
    Bytes data;
    bool operator==(const Element& o) const
    {
        return id == o.id && data == o.data;
    }
};

// RFC 3550 section 5.1, RFC 8285
struct Read {
    bool marker;
    unsigned pt;
    uint16_t seq;
    uint32_t ts, ssrc;
    std::vector<uint32_t> csrc;
    bool hasExt = false;
    unsigned profile = 0;
    Bytes ext;
    std::vector<Element> elements;
    Bytes payload;
    unsigned padding = 0;
};

uint32_t be(const Bytes& b, size_t at, size_t n)
{
    uint32_t v = 0;
    for (size_t i = 0; i < n; i += 1)
        v = v << 8 | b[at + i];
    return v;
}

std::vector<Element> readElements(unsigned profile, const Bytes& b)
{
    std::vector<Element> list;
    size_t i = 0;
    if (profile == 0xbede) {
        while (i < b.size()) {
            if (b[i] == 0) {
                i += 1;
                continue;
            }
            const unsigned id = b[i] >> 4, len = (b[i] & 15) + 1u;
            if (id == 0 || id == 15 || i + 1 + len > b.size())
                break;
            list.push_back({ id, Bytes(b.begin() + i + 1, b.begin() + i + 1 + len) });
            i += 1 + len;
        }
    } else if (profile >> 4 == 0x100) {
        while (i < b.size()) {
            if (b[i] == 0) {
                i += 1;
                continue;
            }
            if (i + 2 > b.size() || i + 2 + b[i + 1] > b.size())
                break;
            list.push_back({ b[i], Bytes(b.begin() + i + 2, b.begin() + i + 2 + b[i + 1]) });
            i += 2 + b[i + 1];
        }
    }
    return list;
}

bool readRtp(const Bytes& b, Read& r, bool& unclear)
{
    unclear = false;
    if (b.size() < 12 || b[0] >> 6 != 2)
        return false;
    r.marker = b[1] & 0x80;
    r.pt = b[1] & 0x7f;
    r.seq = static_cast<uint16_t>(be(b, 2, 2));
    r.ts = be(b, 4, 4);
    r.ssrc = be(b, 8, 4);
    size_t pos = 12;
    for (int i = 0; i < (b[0] & 15); i += 1, pos += 4) {
        if (pos + 4 > b.size())
            return false;
        r.csrc.push_back(be(b, pos, 4));
    }
    if (b[0] & 0x10) {
        if (pos + 4 > b.size())
            return false;
        r.hasExt = true;
        r.profile = be(b, pos, 2);
        const size_t n = 4 * be(b, pos + 2, 2);
        pos += 4;
        if (pos + n > b.size())
            return false;
        r.ext.assign(b.begin() + pos, b.begin() + pos + n);
        r.elements = readElements(r.profile, r.ext);
        pos += n;
    }
    size_t end = b.size();
    if (b[0] & 0x20) {
        if (end == pos)
            return false;
        r.padding = b[end - 1];
        if (r.padding == 0)
            unclear = true; // RFC 3550 has no such count; either reading will do
        if (r.padding > end - pos)
            return false;
        end -= r.padding;
    }
    r.payload.assign(b.begin() + pos, b.begin() + end);
    return true;
}

void checkElements(Ctx& ctx, const srtc::RtpExtension& ext, const std::vector<Element>& elements, const char* what)
{
    // Every id is looked up: the first element with that id is the one found
    for (unsigned id = 1; id < 256; id += 1) {
        const Element* want = nullptr;
        for (const auto& e : elements) {
            if (e.id == id) {
                want = &e;
                break;
            }
        }
        const auto got = ext.findAny(static_cast<uint8_t>(id));
        PBT_CHECK(ctx, got.has_value() == (want != nullptr), "element", "%s: element %u %s", what, id, want ? "not found" : "found but not there");
        if (want) {
            PBT_CHECK(ctx, Bytes(got->ptr, got->ptr + got->size) == want->data, "element", "%s: element %u is %s, expected %s", what, id,
                      hex(got->ptr, got->size).c_str(), hex(want->data).c_str());
            const auto n = want->data.size();
            const auto u16 = ext.findU16(static_cast<uint8_t>(id));
            const auto u32 = ext.findU32(static_cast<uint8_t>(id));
            const auto u64 = ext.findU64(static_cast<uint8_t>(id));
            PBT_CHECK(ctx, u16.has_value() == (n >= 2) && (n < 2 || *u16 == be(want->data, 0, 2)), "element", "%s: element %u as 16 bits", what, id);
            PBT_CHECK(ctx, u32.has_value() == (n >= 4) && (n < 4 || *u32 == be(want->data, 0, 4)), "element", "%s: element %u as 32 bits", what, id);
            PBT_CHECK(ctx,
                      u64.has_value() == (n >= 8) &&
                          (n < 8 || *u64 == (static_cast<uint64_t>(be(want->data, 0, 4)) << 32 | be(want->data, 4, 4))),
                      "element", "%s: element %u as 64 bits", what, id);
        }
    }
}

std::shared_ptr<srtc::Track> track(Src& src)
{
    TrackParams tp;
    tp.codec = src.oneOf({ Codec::H264, Codec::Opus, Codec::VP8 });
    tp.ssrc = src.oneOf<uint32_t>({ 1, 0xffffffffu, 0x80000000u, src.u32() | 1u });
    tp.pt = static_cast<uint8_t>(src.oneOf<unsigned>({ 96, 127, 100, 1 }));
    tp.rtxSsrc = tp.ssrc ^ src.oneOf<uint32_t>({ 1u << 30, 0x10, 0xff00ff02 });
    tp.rtxPt = static_cast<uint8_t>(src.oneOf<unsigned>({ 97, 126, 35 }));
    return makeTrack(tp);
}

std::vector<Element> genElements(Src& src)
{
    std::vector<Element> list;
    const auto n = src.size(0, 5);
    for (size_t i = 0; i < n; i += 1) {
        Element e;
        e.id = static_cast<unsigned>(src.oneOf<int64_t>({ src.range(1, 14), src.range(1, 255) }));
        auto dup = false;
        for (const auto& o : list)
            dup = dup || o.id == e.id;
        if (dup)
            continue;
        e.data = src.blob(src.oneOf<size_t>({ src.size(0, 9), 2, 4, 8, src.size(0, 255) }));
        list.push_back(e);
    }
    return list;
}

// Builds an extension through the builder, in one of the ways callers do
srtc::RtpExtension build(Src& src, Ctx& ctx, std::vector<Element>& elements)
{
    srtc::RtpExtensionBuilder first;
    first.addU16Value(200, 7);
    const auto continued = src.chance(1, 4);
    auto b = continued ? srtc::RtpExtensionBuilder::from(first.build()) : srtc::RtpExtensionBuilder();
    if (continued) {
        for (size_t i = 0; i < elements.size(); i += 1) {
            if (elements[i].id == 200) {
                elements.erase(elements.begin() + i);
                i -= 1;
            }
        }
        elements.insert(elements.begin(), Element{ 200, { 0, 7 } });
        ctx.tag("extension continued from another");
    }
    const size_t start = !elements.empty() && elements[0].id == 200 && elements[0].data == Bytes{ 0, 7 } ? 1 : 0;
    for (size_t i = 0; i < elements.size(); i += 1) {
        auto& e = elements[i];
        if (i < start)
            continue;
        PBT_CHECK(ctx, !b.contains(static_cast<uint8_t>(e.id)), "contains", "%u before it is added", e.id);
        if (e.data.size() == 2 && src.chance(1, 2))
            b.addU16Value(static_cast<uint8_t>(e.id), static_cast<uint16_t>(be(e.data, 0, 2)));
        else if (e.data.size() == 4 && src.chance(1, 2))
            b.addU32Value(static_cast<uint8_t>(e.id), be(e.data, 0, 4));
        else if (e.data.size() == 8 && src.chance(1, 2))
            b.addU64Value(static_cast<uint8_t>(e.id), static_cast<uint64_t>(be(e.data, 0, 4)) << 32 | be(e.data, 4, 4));
        else if (src.chance(1, 3))
            b.addStringValue(static_cast<uint8_t>(e.id), std::string(e.data.begin(), e.data.end()));
        else
            b.addBinaryValue(static_cast<uint8_t>(e.id), toBuffer(e.data));
        PBT_CHECK(ctx, b.contains(static_cast<uint8_t>(e.id)), "contains", "%u after it was added", e.id);
    }
    // Replacing, or adding, a sequence number
    if (src.chance(1, 2)) {
        std::vector<size_t> two;
        for (size_t i = 0; i < elements.size(); i += 1) {
            if (elements[i].data.size() == 2)
                two.push_back(i);
        }
        const auto value = src.u16();
        const Bytes v = { static_cast<uint8_t>(value >> 8), static_cast<uint8_t>(value) };
        if (!two.empty() && src.chance(2, 3)) {
            auto& e = elements[src.elem(two)];
            b.addOrReplaceU16Value(static_cast<uint8_t>(e.id), value);
            e.data = v;
            ctx.tag("element replaced");
        } else {
            auto used = false;
            for (const auto& e : elements)
                used = used || e.id == 250;
            if (!used) {
                b.addOrReplaceU16Value(250, value);
                elements.push_back({ 250, v });
            }
        }
    }
    return b.build();
}

void roundTrip(Src& src, Ctx& ctx)
{
    sim::seedRandom(1 + src.u16());
    const auto t = track(src);
    auto elements = genElements(src);
    auto ext = build(src, ctx, elements);
    const auto extCopy = ext.copy();
    const auto payload = src.blob(src.oneOf<size_t>({ 1, src.size(1, 20), src.size(1, 1200), src.size(0, 3) }));
    const auto padding = static_cast<uint8_t>(src.oneOf<unsigned>({ 0, 1, 255, static_cast<unsigned>(src.size(0, 255)) }));
    const auto marker = src.chance(1, 2);
    const auto seq = static_cast<uint16_t>(src.oneOf<unsigned>({ 0, 0xffff, 0x8000, src.u16() }));
    const auto ts = src.oneOf<uint32_t>({ 0, 0xffffffffu, src.u32() });
    const auto rollover = src.oneOf<uint32_t>({ 0, 1, 0xffffffffu, src.u32() });

    const auto p = std::make_shared<srtc::RtpPacket>(t, marker, rollover, seq, ts, padding, std::move(ext), toBuffer(payload));
    const auto out = p->generate();
    const auto wire = toBytes(out.buf);
    ctx.note("ssrc=%u pt=%u marker=%d seq=%u ts=%u padding=%u payload=%zu bytes, %zu extension elements: %s", t->getSSRC(), t->getPayloadId(), marker, seq, ts,
             padding, payload.size(), elements.size(), hex(wire).c_str());
    if (elements.size() > 1 || padding > 0)
        ctx.nontrivial();

    Read r;
    bool unclear;
    PBT_CHECK(ctx, readRtp(wire, r, unclear), "not readable", "%s", hex(wire).c_str());
    PBT_CHECK(ctx, out.rollover == rollover, "rollover", "%u, expected %u", out.rollover, rollover);
    PBT_CHECK(ctx, r.marker == marker && r.pt == t->getPayloadId() && r.seq == seq && r.ts == ts && r.ssrc == t->getSSRC() && r.csrc.empty(), "header", "%s",
              hex(wire).c_str());
    PBT_CHECK(ctx, r.padding == padding && r.payload == payload, "payload", "padding %u, payload %zu bytes %s", r.padding, r.payload.size(), hex(r.payload).c_str());
    PBT_CHECK(ctx, r.hasExt == !elements.empty() && (!r.hasExt || r.profile >> 4 == 0x100) && r.elements == elements, "extension on the wire", "%zu elements, expected %zu",
              r.elements.size(), elements.size());
    checkElements(ctx, extCopy, elements, "built");
    PBT_CHECK(ctx, extCopy.size() == (elements.empty() ? 0 : 4 + r.ext.size()), "extension size", "%zu, on the wire %zu", extCopy.size(), r.ext.size());
    PBT_CHECK(ctx, p->getPayloadSize() == payload.size() && p->getPaddingSize() == padding, "sizes", "payload %zu padding %u", p->getPayloadSize(), p->getPaddingSize());

    // Back
    if (!(payload.empty() && padding == 0)) {
        const auto q = srtc::RtpPacket::fromUdpPacket(t, toBuffer(wire));
        PBT_CHECK(ctx, q != nullptr, "own packet refused", "%s", hex(wire).c_str());
        PBT_CHECK(ctx, q->getMarker() == marker && q->getPayloadId() == r.pt && q->getSequence() == seq && q->getTimestamp() == ts && q->getSSRC() == r.ssrc &&
                           q->getTrack() == t,
                  "parsed header", "%s", hex(wire).c_str());
        PBT_CHECK(ctx, toBytes(q->getPayload()) == payload, "parsed payload", "%s", hex(wire).c_str());
        checkElements(ctx, q->getExtension(), elements, "parsed");
    }

    // Retransmission
    std::vector<Element> rtxElements = genElements(src);
    const auto rtxExt = build(src, ctx, rtxElements);
    uint64_t prev = 0;
    for (int i = 0; i < 3; i += 1) {
        const auto rtx = p->generateRtx(rtxExt);
        const auto w = toBytes(rtx.buf);
        Read x;
        PBT_CHECK(ctx, readRtp(w, x, unclear), "retransmission not readable", "%s", hex(w).c_str());
        const uint64_t index = static_cast<uint64_t>(rtx.rollover) << 16 | x.seq;
        PBT_CHECK(ctx, i == 0 || index == prev + 1, "retransmission number", "%llx after %llx", static_cast<unsigned long long>(index), static_cast<unsigned long long>(prev));
        prev = index;
        PBT_CHECK(ctx, x.marker == marker && x.pt == t->getRtxPayloadId() && x.ts == ts && x.ssrc == t->getRtxSSRC(), "retransmission header", "%s", hex(w).c_str());
        Bytes want = { static_cast<uint8_t>(seq >> 8), static_cast<uint8_t>(seq) };
        want.insert(want.end(), payload.begin(), payload.end());
        PBT_CHECK(ctx, x.payload == want && x.padding == padding, "retransmission payload", "%zu bytes, padding %u", x.payload.size(), x.padding);
        PBT_CHECK(ctx, x.elements == rtxElements, "retransmission extension", "%zu elements, expected %zu", x.elements.size(), rtxElements.size());
        const auto q = srtc::RtpPacket::fromUdpPacket(t, toBuffer(w));
        PBT_CHECK(ctx, q && toBytes(q->getPayload()) == want && q->getSSRC() == t->getRtxSSRC() && q->getPayloadId() == t->getRtxPayloadId(), "retransmission parsed",
                  "%s", hex(w).c_str());
        checkElements(ctx, q->getExtension(), rtxElements, "retransmission");
    }
}

// What others send: contributing sources, one byte extensions, paddings, and damage
void foreign(Src& src, Ctx& ctx)
{
    sim::seedRandom(1);
    const auto t = track(src);
    const auto rtx = src.chance(1, 4);
    Bytes b;
    const auto put = [&](uint64_t v, size_t n) {
        while (n-- > 0)
            b.push_back(static_cast<uint8_t>(v >> (8 * n)));
    };
    const unsigned cc = static_cast<unsigned>(src.oneOf<size_t>({ 0, 0, 1, 15, src.size(0, 15) }));
    const auto x = src.chance(2, 3), pad = src.chance(1, 3), marker = src.chance(1, 2);
    put(0x80 | (pad ? 0x20 : 0) | (x ? 0x10 : 0) | cc, 1);
    put((marker ? 0x80u : 0u) | (rtx ? t->getRtxPayloadId() : t->getPayloadId()), 1);
    put(src.u16(), 2);
    put(src.u32(), 4);
    put(rtx ? t->getRtxSSRC() : t->getSSRC(), 4);
    for (unsigned i = 0; i < cc; i += 1)
        put(src.u32(), 4);
    if (x) {
        const auto profile = src.oneOf<unsigned>({ 0xbede, 0x1000, static_cast<unsigned>(src.range(0x1000, 0x100f)), 0xbede, src.u16() });
        Bytes e;
        if (src.chance(1, 6)) {
            e = src.bytes(src.size(0, 24));
        } else {
            const auto n = src.size(0, 5);
            for (size_t i = 0; i < n; i += 1) {
                if (src.chance(1, 5)) {
                    e.insert(e.end(), src.size(1, 3), 0);
                    continue;
                }
                if (profile == 0xbede) {
                    const auto len = src.size(1, 16);
                    const auto id = src.oneOf<size_t>({ src.size(1, 14), src.size(1, 14), src.size(0, 15) });
                    e.push_back(static_cast<uint8_t>(id << 4 | (len - 1)));
                    const auto d = src.blob(len);
                    e.insert(e.end(), d.begin(), d.end());
                } else {
                    const auto len = src.oneOf<size_t>({ src.size(0, 9), src.size(0, 80), src.size(0, 255) });
                    e.push_back(static_cast<uint8_t>(src.range(1, 255)));
                    e.push_back(static_cast<uint8_t>(len));
                    const auto d = src.blob(len);
                    e.insert(e.end(), d.begin(), d.end());
                }
            }
            if (src.chance(1, 6) && !e.empty())
                e.resize(e.size() - 1);
        }
        while (e.size() % 4 != 0)
            e.push_back(0);
        put(profile, 2);
        put(e.size() / 4 + (src.chance(1, 10) ? src.size(0, 3) : 0), 2);
        b.insert(b.end(), e.begin(), e.end());
    }
    const auto payload = src.blob(src.oneOf<size_t>({ src.size(0, 8), src.size(1, 100) }));
    b.insert(b.end(), payload.begin(), payload.end());
    if (pad) {
        const auto n = src.size(0, 40);
        b.insert(b.end(), n, 0);
        if (n > 0)
            b.back() = static_cast<uint8_t>(src.chance(1, 6) ? src.u8() : n);
    }
    if (src.chance(1, 6)) {
        b.resize(src.size(0, b.size()));
        ctx.tag("cut short");
    } else if (src.chance(1, 8)) {
        const auto at = src.size(0, b.size() - 1);
        if (at != 1 && (at < 8 || at > 11))
            b[at] = static_cast<uint8_t>(at == 0 ? (b[0] & 0xc0) | src.size(0, 63) : src.u8());
    }
    ctx.note("%zu bytes: %s", b.size(), hex(b, 200).c_str());
    if (b.size() < 12) {
        // The SSRC isn't readable
        srtc::ByteBuffer buf(b.data(), b.size());
        PBT_CHECK(ctx, srtc::RtpPacket::fromUdpPacket(t, buf) == nullptr, "accepted", "%zu bytes", b.size());
        return;
    }

    Read r;
    bool unclear;
    const auto valid = readRtp(b, r, unclear);
    const auto q = srtc::RtpPacket::fromUdpPacket(t, toBuffer(b));
    if (!valid) {
        ctx.tag("invalid");
        PBT_CHECK(ctx, q == nullptr, "accepted", "not a valid packet: %s", hex(b).c_str());
        return;
    }
    ctx.tag("valid");
    if (cc > 0 || r.elements.size() > 0 || r.padding > 0)
        ctx.nontrivial();
    if (unclear || (r.payload.empty() && !q))
        return;
    PBT_CHECK(ctx, q != nullptr, "refused", "%s", hex(b).c_str());
    PBT_CHECK(ctx, q->getMarker() == r.marker && q->getPayloadId() == r.pt && q->getSequence() == r.seq && q->getTimestamp() == r.ts && q->getSSRC() == r.ssrc, "header",
              "%s", hex(b).c_str());
    PBT_CHECK(ctx, toBytes(q->getPayload()) == r.payload, "payload", "got %zu bytes, expected %zu: %s", q->getPayloadSize(), r.payload.size(), hex(b).c_str());
    checkElements(ctx, q->getExtension(), r.elements, "received");
}

struct Rtcp {
    unsigned rc, pt;
    uint32_t ssrc;
    Bytes payload;
    bool unclear;
};

void rtcp(Src& src, Ctx& ctx)
{
    Bytes b;
    std::vector<Rtcp> want;
    const auto n = src.size(1, 5);
    for (size_t i = 0; i < n; i += 1) {
        Rtcp r;
        r.rc = static_cast<unsigned>(src.range(0, 31));
        r.pt = static_cast<unsigned>(src.oneOf<int64_t>({ src.range(200, 207), src.range(192, 223) }));
        r.ssrc = src.u32();
        r.payload = src.blob(src.oneOf<size_t>({ 0, 4 * src.size(0, 8), src.size(0, 40), src.size(0, 1400) }));
        const auto p = srtc::RtcpPacket(r.ssrc, static_cast<uint8_t>(r.rc), static_cast<uint8_t>(r.pt), toBuffer(r.payload));
        const auto w = toBytes(p.generate());
        ctx.note("rc=%u pt=%u ssrc=%u payload=%zu -> %s", r.rc, r.pt, r.ssrc, r.payload.size(), hex(w).c_str());
        while (r.payload.size() % 4 != 0)
            r.payload.push_back(0);
        PBT_CHECK(ctx, w.size() == 8 + r.payload.size() && w[0] == (0x80 | r.rc) && w[1] == r.pt && be(w, 2, 2) == w.size() / 4 - 1 && be(w, 4, 4) == r.ssrc &&
                           Bytes(w.begin() + 8, w.end()) == r.payload,
                  "RTCP on the wire", "%s", hex(w).c_str());
        b.insert(b.end(), w.begin(), w.end());
        want.push_back(r);
    }
    if (n > 1)
        ctx.nontrivial();
    auto list = srtc::RtcpPacket::fromUdpPacket(toBuffer(b));
    PBT_CHECK(ctx, list.size() == want.size(), "compound", "%zu packets, expected %zu", list.size(), want.size());
    size_t i = 0;
    for (const auto& p : list) {
        PBT_CHECK(ctx, p->getSSRC() == want[i].ssrc && p->getRC() == want[i].rc && p->getPayloadId() == want[i].pt && toBytes(p->getPayload()) == want[i].payload,
                  "compound", "packet %zu", i);
        i += 1;
    }
}

void rtcpForeign(Src& src, Ctx& ctx)
{
    Bytes b;
    if (src.chance(1, 6)) {
        b = src.bytes(src.size(0, 60));
    } else {
        const auto n = src.size(1, 5);
        for (size_t i = 0; i < n; i += 1) {
            const auto pad = src.chance(1, 4);
            const auto words = src.oneOf<size_t>({ 0, 1, src.size(0, 10) });
            b.push_back(static_cast<uint8_t>(0x80 | (pad ? 0x20 : 0) | src.size(0, 31)));
            b.push_back(static_cast<uint8_t>(src.range(192, 223)));
            const auto len = src.chance(1, 12) ? src.u16() : words;
            b.push_back(static_cast<uint8_t>(len >> 8));
            b.push_back(static_cast<uint8_t>(len));
            auto d = src.blob(4 * words);
            if (pad && !d.empty())
                d.back() = static_cast<uint8_t>(src.chance(1, 5) ? src.u8() : 4 * src.size(1, words));
            b.insert(b.end(), d.begin(), d.end());
        }
        if (src.chance(1, 5))
            b.resize(src.size(0, b.size()));
    }
    ctx.note("%zu bytes: %s", b.size(), hex(b, 200).c_str());
    // RFC 3550 section 6
    std::vector<Rtcp> want;
    for (size_t i = 0; i + 4 <= b.size();) {
        const size_t len = 4 * (be(b, i + 2, 2) + 1);
        if (i + len > b.size())
            break;
        if (len >= 8) {
            Rtcp r{ b[i] & 31u, b[i + 1], be(b, i + 4, 4), Bytes(b.begin() + i + 8, b.begin() + i + len), false };
            if (b[i] & 0x20) {
                const auto amount = r.payload.empty() ? 0 : r.payload.back();
                if (amount == 0 || amount > r.payload.size())
                    r.unclear = true;
                else
                    r.payload.resize(r.payload.size() - amount);
            }
            want.push_back(r);
        }
        i += len;
    }
    if (want.size() > 1)
        ctx.nontrivial();
    auto list = srtc::RtcpPacket::fromUdpPacket(toBuffer(b));
    PBT_CHECK(ctx, list.size() == want.size(), "compound", "%zu packets, expected %zu", list.size(), want.size());
    size_t i = 0;
    for (const auto& p : list) {
        PBT_CHECK(ctx, p->getSSRC() == want[i].ssrc && p->getRC() == want[i].rc && p->getPayloadId() == want[i].pt, "compound", "packet %zu", i);
        PBT_CHECK(ctx, want[i].unclear || toBytes(p->getPayload()) == want[i].payload, "compound", "payload of packet %zu is %zu bytes, expected %zu", i,
                  p->getPayload().size(), want[i].payload.size());
        i += 1;
    }
}

} // namespace

int main(int argc, char** argv)
{
    Property prop;
    prop.id = "P07";
    prop.rule = "the packet has padding, contributing sources or header extension elements, or is a compound of several";
    prop.assumptions = { "packets with a padding count of 0 are in no RFC and are not judged", "RTP packets reach the parser once their SSRC and payload number matched a track" };
    prop.facets = { { "roundtrip", 4, roundTrip }, { "foreign", 4, foreign }, { "rtcp", 1, rtcp }, { "rtcp-foreign", 2, rtcpForeign } };
    return run(argc, argv, prop);
}
