// P09: packets without the right key are rejected and leave no trace
#include "srtp_ref.h"

#include <sanitizer/allocator_interface.h>

using namespace pbt;
using namespace gen;
using namespace sref;

namespace
{

using Conn = std::shared_ptr<srtc::SrtpConnection>;

struct Stream {
    bool media;
    uint32_t ssrc;
    uint8_t pt;
    uint64_t next; // Index of the next packet
};

struct Packet {
    bool media;
    Bytes wire, plain;
};

bool receive(const Conn& conn, bool media, const Bytes& wire, Bytes* out)
{
    srtc::ByteBuffer b;
    // Exactly sized, so that reading past the end is seen
    srtc::ByteBuffer in(wire.data(), wire.size());
    const auto ok = media ? conn->unprotectReceiveMedia(in, b) : conn->unprotectReceiveControl(in, b);
    if (ok && out)
        *out = toBytes(b);
    return ok;
}

void history(Src& src, Ctx& ctx)
{
    const auto& p = profile(src.size(0, 3));
    auto a = genKeys(src, p), b = genKeys(src, p);
    if (a.key == b.key)
        a.key[1] ^= 1;
    auto other = genKeys(src, p);
    if (other.key == b.key || other.key == a.key)
        other.key[3] ^= 4;
    Conn conn[2];
    for (auto& c : conn) {
        const auto [crypto, error] = srtc::SrtpCrypto::create(p.id, sref::crypto(a.key), sref::crypto(a.salt), sref::crypto(b.key), sref::crypto(b.salt));
        c = std::make_shared<srtc::SrtpConnection>(crypto, p.id);
    }
    const Session session(p, b.key, b.salt), wrong(p, other.key, other.salt), reverse(p, a.key, a.salt);

    std::vector<Stream> streams;
    const auto ns = src.size(1, 3);
    for (size_t i = 0; i < ns; i += 1) {
        Stream s;
        s.media = src.chance(3, 4);
        s.ssrc = static_cast<uint32_t>(1000 + (src.chance(1, 2) ? 0 : i));
        s.pt = static_cast<uint8_t>(src.oneOf<unsigned>({ 96, 0, 72, 127 }));
        if (s.media) {
            auto dup = false;
            for (const auto& o : streams)
                dup = dup || (o.media && o.ssrc == s.ssrc);
            if (dup)
                s.ssrc = static_cast<uint32_t>(2000 + i);
        } else {
            auto dup = false;
            for (const auto& o : streams)
                dup = dup || (!o.media && o.ssrc == s.ssrc);
            if (dup)
                s.ssrc = static_cast<uint32_t>(2000 + i);
        }
        s.next = src.oneOf<uint64_t>({ src.size(65500, 65535), src.u16(), 0, 32767 });
        streams.push_back(s);
    }

    std::vector<Packet> sent;
    const auto make = [&](Stream& s) {
        Packet k;
        k.media = s.media;
        if (s.media) {
            k.plain = genRtp(src, s.ssrc, s.pt, static_cast<uint16_t>(s.next), 60);
            k.wire = session.media(k.plain, static_cast<uint32_t>(s.next >> 16));
        } else {
            k.plain = genRtcp(src, s.ssrc, 20);
            k.wire = session.control(k.plain, static_cast<uint32_t>(s.next), src.chance(7, 8));
        }
        return k;
    };

    const auto steps = src.size(2, 40);
    size_t forged = 0, genuine = 0;
    for (size_t step = 0; step < steps; step += 1) {
        if (src.chance(1, 2)) {
            // A genuine packet, in order, skipping some
            auto& s = streams[src.size(0, streams.size() - 1)];
            const auto k = make(s);
            ctx.note("genuine %s ssrc=%u pt=%u index=%llu", s.media ? "media" : "control", s.ssrc, s.pt, static_cast<unsigned long long>(s.next));
            Bytes out[2];
            const auto first = receive(conn[0], k.media, k.wire, &out[0]);
            const auto second = receive(conn[1], k.media, k.wire, &out[1]);
            PBT_CHECK(ctx, first, "genuine packet rejected", "without forged packets");
            PBT_CHECK(ctx, second, "forged packets made the receiver reject a genuine one", "%s ssrc=%u index=%llu", s.media ? "media" : "control", s.ssrc,
                      static_cast<unsigned long long>(s.next));
            PBT_CHECK(ctx, out[0] == k.plain && out[1] == k.plain, "content", "%s", hex(out[1]).c_str());
            sent.push_back(k);
            s.next += src.oneOf<uint64_t>({ 1, 1, 1, 2, 40, 500, 20000 });
            if (s.next > 65535)
                ctx.tag("past the wrap");
            genuine += 1;
            continue;
        }
        if (src.chance(1, 12)) {
            conn[0]->onPeerConnected();
            conn[1]->onPeerConnected();
            ctx.note("connected again");
            continue;
        }

        // A forged one
        Packet f;
        const char* kind;
        auto& s = streams[src.size(0, streams.size() - 1)];
        auto base = make(s);
        if (!sent.empty() && src.chance(1, 2))
            base = src.elem(sent);
        f = base;
        switch (src.pick({ 6, 3, 3, 3, 2, 2, 3, 2, 2 })) {
        case 0: {
            kind = "bit flipped";
            const auto n = src.size(1, 2);
            for (size_t i = 0; i < n; i += 1) {
                const auto at = src.oneOf<size_t>({ src.size(0, f.wire.size() - 1), src.size(0, 11), f.wire.size() - 1 - src.size(0, 19) });
                f.wire[std::min(at, f.wire.size() - 1)] ^= static_cast<uint8_t>(1 << src.size(0, 7));
            }
            break;
        }
        case 1:
            kind = "cut short";
            f.wire.resize(src.oneOf<size_t>({ src.size(0, f.wire.size() - 1), f.wire.size() - 1, std::min<size_t>(f.wire.size() - 1, 12 + p.tag), f.wire.size() - p.tag }));
            break;
        case 2: {
            kind = "made with another key";
            auto t = s;
            t.next = src.oneOf<uint64_t>({ t.next, t.next + 30000, t.next + 40000, t.next + 100, t.next > 200 ? t.next - 200 : 0 });
            const auto& k = src.chance(1, 3) ? reverse : wrong;
            f.media = t.media;
            if (t.media)
                f.wire = k.media(genRtp(src, t.ssrc, t.pt, static_cast<uint16_t>(t.next), 60), static_cast<uint32_t>(t.next >> 16));
            else
                f.wire = k.control(genRtcp(src, t.ssrc, 20), static_cast<uint32_t>(t.next) | (src.chance(1, 3) ? 0x40000000 : 0));
            break;
        }
        case 3: {
            kind = "another sequence number";
            // Far away in either direction
            if (f.media) {
                const auto seq = static_cast<uint16_t>(src.u16());
                f.wire[2] = static_cast<uint8_t>(seq >> 8);
                f.wire[3] = static_cast<uint8_t>(seq);
            } else {
                const auto at = f.wire.size() - 4 - (p.gcm ? 0 : p.tagControl);
                f.wire[at] = static_cast<uint8_t>((f.wire[at] & 0x80) | (src.u8() & 0x7f));
                f.wire[at + 2] = src.u8();
            }
            break;
        }
        case 4:
            kind = "another source";
            f.wire[f.media ? 11 : 7] ^= static_cast<uint8_t>(src.range(1, 255));
            break;
        case 5:
            kind = "longer";
            f.wire = cat({ f.wire, src.blob(src.size(1, 20)) });
            break;
        case 6: {
            kind = "not encrypted";
            f.wire = f.plain;
            if (src.chance(1, 2))
                f.wire = cat({ f.plain, Bytes(src.oneOf<size_t>({ p.tag, p.tagControl + 4 }), 0) });
            break;
        }
        case 7: {
            kind = "random";
            f.wire = src.blob(src.size(0, 60));
            if (f.wire.size() > 12 && src.chance(1, 2)) {
                f.wire[0] = static_cast<uint8_t>(0x80 | (f.wire[0] & 0x3f));
                const auto id = num(s.ssrc, 4);
                std::copy(id.begin(), id.end(), f.wire.begin() + (f.media ? 8 : 4));
            }
            break;
        }
        default:
            // The other kind of channel
            kind = "as the other kind";
            f.media = !f.media;
            break;
        }
        // What it must not be: genuine
        if (f.wire == base.wire && f.media == base.media)
            continue;
        forged += 1;
        ctx.note("forged %s (%s): %s", f.media ? "media" : "control", kind, hex(f.wire, 200).c_str());
        Bytes out;
        PBT_CHECK(ctx, !receive(conn[1], f.media, f.wire, &out), "forged packet accepted", "%s: %s -> %s", kind, hex(f.wire, 200).c_str(), hex(out, 200).c_str());
    }
    ctx.tagN("forged packets", forged);
    ctx.tagN("genuine packets", genuine);
    if (forged > 0 && genuine > 1)
        ctx.nontrivial();
}

// However many there are, and whatever sources they claim, nothing is kept
void flood(Src& src, Ctx& ctx)
{
    const auto& p = profile(src.size(0, 3));
    const auto a = genKeys(src, p), b = genKeys(src, p);
    const auto [crypto, error] = srtc::SrtpCrypto::create(p.id, sref::crypto(a.key), sref::crypto(a.salt), sref::crypto(b.key), sref::crypto(b.salt));
    const auto conn = std::make_shared<srtc::SrtpConnection>(crypto, p.id);
    const Session session(p, b.key, b.salt);
    const auto media = src.chance(1, 2);
    const auto n = src.size(20, 200);
    // Something to warm up with
    receive(conn, media, media ? session.media(genRtp(src, 1, 96, 0, 20), 0) : session.control(genRtcp(src, 1, 8), 0), nullptr);
    const auto random = src.u32();
    const auto pt = src.u8();
    const auto body = src.blob(src.size(30, 60));
    srtc::ByteBuffer out;
    std::vector<srtc::ByteBuffer> packets;
    for (size_t i = 0; i < n; i += 1) {
        auto w = body;
        w[0] = 0x80;
        w[1] = media ? pt & 0x7f : 200;
        const auto id = num(random + i * 0x01000193u, 4);
        std::copy(id.begin(), id.end(), w.begin() + (media ? 8 : 4));
        packets.push_back(toBuffer(w));
    }
    const auto feed = [&](const srtc::ByteBuffer& w) { return media ? conn->unprotectReceiveMedia(w, out) : conn->unprotectReceiveControl(w, out); };
    (void)feed(packets[0]);
    const auto before = __sanitizer_get_current_allocated_bytes();
    for (const auto& w : packets)
        PBT_CHECK(ctx, !feed(w), "forged packet accepted", "from a made up source");
    const auto after = __sanitizer_get_current_allocated_bytes();
    ctx.note("%zu packets from made up sources, memory %zu -> %zu", n, before, after);
    PBT_CHECK(ctx, after <= before + 16 * n, "memory grows", "%zu forged packets leave %zu bytes", n, after - before);
    ctx.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
    Property prop;
    prop.id = "P09";
    prop.rule = "at least one forged packet among at least two genuine ones, or a flood of packets from made up sources";
    prop.assumptions = { "a 32 bit or longer tag isn't guessed by chance" };
    prop.facets = { { "history", 10, history }, { "flood", 1, flood } };
    return run(argc, argv, prop);
}
