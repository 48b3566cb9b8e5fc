// P14: a retransmission request is answered with exactly the packet sent
#include "rig_setup.h"

#include "srtc/rtp_packet_source.h"
#include "srtc/send_rtp_history.h"

using namespace pbt;
using namespace gen;
using sref::cat;
using sref::num;

namespace
{

constexpr size_t kRecent = 512; // of a stream

// The history itself

void history(Src& src, Ctx& ctx)
{
    srtc::SendRtpHistory history;
    struct Stream {
        std::shared_ptr<srtc::Track> track;
        uint16_t next = 0;
        std::deque<std::weak_ptr<srtc::RtpPacket>> sent; // most recent at the back
        std::deque<std::pair<uint16_t, const void*>> ids;
    };
    std::vector<Stream> streams(src.size(1, 4));
    for (size_t i = 0; i < streams.size(); i += 1) {
        TrackParams p;
        p.ssrc = src.chance(1, 2) ? static_cast<uint32_t>(100 + i) : static_cast<uint32_t>(0x80000000u >> i);
        streams[i].track = makeTrack(p);
        streams[i].next = src.chance(1, 2) ? static_cast<uint16_t>(65536 - src.range(1, 700)) : src.u16();
    }

    size_t wrapped = 0, full = 0, found = 0;
    const auto rounds = src.size(1, 12);
    for (size_t r = 0; r < rounds; r += 1) {
        auto& s = streams[src.size(0, streams.size() - 1)];
        auto& other = streams[src.size(0, streams.size() - 1)];
        const auto count = src.oneOf<size_t>({ 1, src.size(1, 20), src.size(500, 530), src.size(1, 700) });
        for (size_t i = 0; i < count; i += 1) {
            auto& t = i % 7 == 3 ? other : s; // interleaved
            const auto packet = std::make_shared<srtc::RtpPacket>(t.track, false, 0, t.next, 1, 0, toBuffer({ 1, 2, 3 }));
            history.save(packet);
            t.sent.push_back(packet);
            t.ids.emplace_back(t.next, packet.get());
            if (t.next == 0xffff)
                wrapped += 1;
            t.next += 1;
        }

        // What is remembered
        for (auto& t : streams) {
            size_t alive = 0;
            for (const auto& w : t.sent)
                alive += w.expired() ? 0 : 1;
            PBT_CHECK(ctx, alive <= 2 * kRecent, "history grows", "%zu packets of a stream are kept after %zu were sent", alive, t.sent.size());
            if (t.sent.size() > kRecent)
                full += 1;
            const auto ask = [&](size_t back) { // 0 is the last one
                const auto seq = static_cast<uint16_t>(t.next - 1 - back);
                const auto p = history.find(t.track->getSSRC(), seq);
                const auto sent = back < t.sent.size();
                if (sent && back < kRecent) {
                    PBT_CHECK(ctx, p != nullptr, "recent packet isn't found", "number %u, %zu packets before the last one, of %zu sent", seq, back, t.sent.size());
                    found += 1;
                }
                if (p) {
                    PBT_CHECK(ctx, sent, "packet never sent", "number %u, %zu packets were sent, the last one is %u", seq, t.sent.size(), t.next - 1);
                    PBT_CHECK(ctx, p->getSequence() == seq && p->getSSRC() == t.track->getSSRC(), "another packet", "asked for %u, got %u", seq, p->getSequence());
                    PBT_CHECK(ctx, p.get() == t.ids[t.ids.size() - 1 - back].second, "another packet", "number %u isn't the packet which was sent", seq);
                }
            };
            ask(0);
            ask(kRecent - 1);
            ask(kRecent / 2 + src.size(0, 255));
            ask(src.size(0, 600));
            ask(t.sent.size());
            ask(65535); // the next one
            ask(src.size(0, 65535));
            PBT_CHECK(ctx, history.find(t.track->getSSRC() ^ 0x01000000u, static_cast<uint16_t>(t.next - 1)) == nullptr, "unknown stream", "a packet is found for a stream which isn't there");
        }
    }
    if (wrapped)
        ctx.tag("numbers wrap");
    if (full)
        ctx.tag("more than 512 packets");
    if (full && found)
        ctx.nontrivial();
    ctx.note("%zu streams, %zu rounds, %zu wraps, %zu look-ups found", streams.size(), rounds, wrapped, found);
}

// The retransmission format of RFC 4588

void rtx(Src& src, Ctx& ctx)
{
    TrackParams p;
    p.ssrc = src.u32();
    p.pt = static_cast<uint8_t>(src.range(96, 127));
    p.rtxPt = static_cast<uint8_t>(src.range(96, 127));
    p.rtxSsrc = src.u32() | 1u;
    p.nack = true;
    const auto track = makeTrack(p);
    const auto n = src.size(1, 12);
    std::optional<uint64_t> last;
    size_t exts = 0, padded = 0;
    for (size_t i = 0; i < n; i += 1) {
        srtc::RtpExtensionBuilder b;
        std::map<unsigned, Bytes> ext;
        for (size_t k = src.pick({ 2, 2, 1, 1 }); k > 0; k -= 1) {
            const auto id = static_cast<uint8_t>(src.chance(2, 3) ? src.range(1, 14) : src.range(1, 255));
            const auto v = src.blob(src.chance(2, 3) ? src.size(1, 16) : src.size(1, 60));
            if (ext.count(id))
                continue;
            ext[id] = v;
            b.addBinaryValue(id, toBuffer(v));
        }
        auto extension = b.build();
        const auto marker = src.chance(1, 2);
        const auto seq = src.u16();
        const auto ts = src.u32();
        const auto pad = static_cast<uint8_t>(src.chance(1, 3) ? src.range(1, 255) : 0);
        const auto payload = src.blob(src.oneOf<size_t>({ 1, 2, src.size(1, 1200) }));
        const srtc::RtpPacket packet(track, marker, 0, seq, ts, pad, extension.copy(), toBuffer(payload));
        const auto out = packet.generateRtx(extension);
        const auto r = rig::readRtp(toBytes(out.buf));
        PBT_CHECK(ctx, r.ok, "retransmission isn't a packet", "%s", hex(toBytes(out.buf)).c_str());
        PBT_CHECK(ctx, r.ssrc == track->getRtxSSRC() && r.pt == track->getRtxPayloadId(), "stream of retransmissions", "source %u type %u", r.ssrc, r.pt);
        PBT_CHECK(ctx, r.marker == marker && r.ts == ts, "header", "marker %d timestamp %u", r.marker, r.ts);
        PBT_CHECK(ctx, r.payload == cat({ num(seq, 2), payload }), "payload", "number %u, %zu bytes, got %s", seq, payload.size(), hex(r.payload).c_str());
        PBT_CHECK(ctx, r.padding == pad, "padding", "%zu", r.padding);
        PBT_CHECK(ctx, r.ext == ext, "extension", "%zu elements, expected %zu", r.ext.size(), ext.size());
        const auto index = static_cast<uint64_t>(out.rollover) << 16 | r.seq;
        PBT_CHECK(ctx, !last || index == *last + 1, "numbers of retransmissions", "index %llu after %llu", static_cast<unsigned long long>(index), static_cast<unsigned long long>(last.value_or(0)));
        last = index;
        exts += ext.size();
        padded += pad ? 1 : 0;
    }
    if (exts && n > 1)
        ctx.nontrivial();
    ctx.note("%zu retransmissions, %zu extension elements, %zu padded", n, exts, padded);
}

// A publishing connection asked for packets by its peer

void connection(Src& src, Ctx& ctx)
{
    rig::Duo d(src.chance(1, 2));
    d.peer.profileIndex = src.size(0, 3);
    rig::Spec s;
    s.rtx = src.chance(2, 3);
    s.bwe = src.chance(1, 3);
    s.absCapture = src.chance(1, 3);
    rig::AnswerOptions o;
    o.rtx = src.chance(4, 5);
    o.nack = o.rtx || src.chance(5, 6);
    if (src.chance(1, 3))
        s.layers = { "lo", "hi" };
    o.rids = s.layers;
    const auto e = d.start(s, o);
    PBT_CHECK(ctx, !e.isError(), "set up", "%s\n%s\n%s", e.message.c_str(), d.made.sdp.c_str(), d.answer.c_str());
    const auto usesRtx = s.rtx && o.rtx;
    const int64_t delay = src.range(1, 40) * 1000;
    d.world.link = [&](const auto&, const auto&, const auto&) { return std::vector<int64_t>{ delay }; };
    PBT_CHECK(ctx, d.connect(), "connect", "not connected after %lld us", static_cast<long long>(sim::nowMicros()));

    // Long sessions, whose numbers wrap
    if (src.chance(1, 2)) {
        for (const auto& t : d.tracks) {
            const auto to = src.range(65300, 65534);
            while (t->getRtpPacketSource()->getNextSequence().second < to) {
            }
        }
        ctx.tag("numbers near their wrap");
    }

    // The streams, by source
    std::map<uint32_t, uint32_t> rtxOf; // retransmission source to main
    std::map<uint32_t, std::shared_ptr<srtc::Track>> trackOf;
    for (const auto& t : d.tracks) {
        trackOf[t->getSSRC()] = t;
        if (t->getRtxPayloadId() > 0)
            rtxOf[t->getRtxSSRC()] = t->getSSRC();
        PBT_CHECK(ctx, (t->getRtxPayloadId() > 0) == usesRtx, "retransmission format", "negotiated %d", t->getRtxPayloadId());
    }
    unsigned midExt = 0, ridExt = 0, rridExt = 0;
    for (const auto& m : d.made.info.media)
        for (const auto& x : m.extensions) {
            if (x.second == "urn:ietf:params:rtp-hdrext:sdes:mid")
                midExt = static_cast<unsigned>(x.first);
            if (x.second == "urn:ietf:params:rtp-hdrext:sdes:rtp-stream-id")
                ridExt = static_cast<unsigned>(x.first);
            if (x.second == "urn:ietf:params:rtp-hdrext:sdes:repaired-rtp-stream-id")
                rridExt = static_cast<unsigned>(x.first);
        }
    (void)ridExt;

    struct Sent {
        Bytes data;
        int64_t time;
    };
    std::map<uint32_t, std::map<uint16_t, Sent>> sent;
    std::map<uint32_t, std::vector<uint16_t>> order;
    // Asked for and not answered yet
    struct Asked {
        uint32_t ssrc;
        uint16_t seq;
        int64_t time;
        bool certain; // sure to be sent again
        bool never;   // must not be
    };
    std::vector<Asked> asked;
    size_t answered = 0, refused = 0, repeated = 0;
    std::map<uint32_t, uint64_t> rtxIndex;

    const auto answer = [&](uint32_t ssrc, uint16_t seq) {
        for (const auto certain : { true, false })
            for (size_t i = 0; i < asked.size(); i += 1)
                if (asked[i].ssrc == ssrc && asked[i].seq == seq && !asked[i].never && asked[i].certain == certain) {
                    asked.erase(asked.begin() + static_cast<long>(i));
                    answered += 1;
                    return;
                }
        ctx.fail("sent again without being asked", "source %u number %u", ssrc, seq);
    };

    d.peer.onRtp = [&](const rig::DtlsPeer::Rtp& p) {
        const auto it = rtxOf.find(p.ssrc);
        if (it == rtxOf.end()) {
            PBT_CHECK(ctx, trackOf.count(p.ssrc), "unknown source", "%u", p.ssrc);
            auto& list = sent[p.ssrc];
            const auto old = list.find(p.seq);
            if (old == list.end()) {
                list[p.seq] = { p.data, p.time };
                order[p.ssrc].push_back(p.seq);
                return;
            }
            PBT_CHECK(ctx, !usesRtx, "sent again as it was", "retransmission format was negotiated, source %u number %u", p.ssrc, p.seq);
            PBT_CHECK(ctx, old->second.data == p.data, "not the packet sent", "source %u number %u", p.ssrc, p.seq);
            answer(p.ssrc, p.seq);
            return;
        }
        const auto main = it->second;
        const auto r = rig::readRtp(p.data);
        PBT_CHECK(ctx, r.ok && r.payload.size() >= 2, "retransmission isn't a packet", "%s", hex(p.data).c_str());
        const auto seq = rig::be16(r.payload.data());
        const auto old = sent[main].find(seq);
        PBT_CHECK(ctx, old != sent[main].end(), "packet never sent", "source %u number %u", main, seq);
        const auto q = rig::readRtp(old->second.data);
        const auto t = trackOf[main];
        PBT_CHECK(ctx, r.pt == t->getRtxPayloadId() && r.marker == q.marker && r.ts == q.ts && r.padding == q.padding, "header of a retransmission", "number %u", seq);
        PBT_CHECK(ctx, Bytes(r.payload.begin() + 2, r.payload.end()) == q.payload, "payload of a retransmission", "number %u: %s, was sent as %s", seq, hex(r.payload).c_str(), hex(q.payload).c_str());
        auto expected = q.ext;
        if (t->isSimulcast()) {
            const std::string name = t->getSimulcastLayer()->name, mid = t->getMedia()->getId();
            expected[midExt] = Bytes(mid.begin(), mid.end());
            if (rridExt)
                expected[rridExt] = Bytes(name.begin(), name.end());
        }
        PBT_CHECK(ctx, r.ext == expected, "extension of a retransmission", "number %u, %zu elements, expected %zu", seq, r.ext.size(), expected.size());
        if (rtxIndex.count(p.ssrc))
            PBT_CHECK(ctx, p.index == rtxIndex[p.ssrc] + 1, "numbers of retransmissions", "%llu after %llu", static_cast<unsigned long long>(p.index), static_cast<unsigned long long>(rtxIndex[p.ssrc]));
        rtxIndex[p.ssrc] = p.index;
        answer(main, seq);
    };

    const auto check = [&](bool end) {
        const auto now = sim::nowMicros();
        for (size_t i = 0; i < asked.size();) {
            // A wait of the event loop is 100 ms at most
            if (end || now > asked[i].time + 2 * delay + 120000) {
                PBT_CHECK(ctx, !asked[i].certain, "request isn't answered", "source %u number %u, asked %lld us ago, %zu packets were sent", asked[i].ssrc, asked[i].seq, static_cast<long long>(now - asked[i].time), order[asked[i].ssrc].size());
                refused += 1;
                asked.erase(asked.begin() + static_cast<long>(i));
            } else
                i += 1;
        }
    };

    const auto steps = src.size(2, 25);
    int64_t pts = 0;
    for (size_t step = 0; step < steps; step += 1) {
        if (src.chance(3, 5)) {
            const auto& t = src.elem(d.tracks);
            const auto ntp = src.chance(1, 2) ? src.u64() : 0;
            const auto many = src.chance(1, 12);
            for (size_t i = 0; i < (many ? 14u : 1u); i += 1) {
                pts += 10000;
                // VP8, a key frame at the start
                auto frame = src.blob(src.oneOf<size_t>({ src.size(10, 100), src.size(1000, 1300), src.size(10, 20000) }));
                frame[0] = static_cast<uint8_t>(frame[0] & 0xfe);
                if (many)
                    frame.resize(50000, 1);
                const auto error = t->getMediaType() == srtc::MediaType::Audio ? d.node->pc->publishAudioFrame(t, pts, toBuffer(Bytes(frame.begin(), frame.begin() + static_cast<long>(std::min<size_t>(1000, frame.size())))), ntp) : d.node->pc->publishVideoFrame(t, pts, toBuffer(frame), ntp);
                ctx.note("%lld us: publish %zu bytes to %u", static_cast<long long>(sim::nowMicros()), frame.size(), t->getSSRC());
                PBT_CHECK(ctx, !error.isError(), "publish", "%s", error.message.c_str());
                if (many)
                    d.world.runFor(30000);
            }
        } else {
            // Ask for some
            const auto count = src.pick({ 0, 4, 2, 1 });
            Bytes compound;
            for (size_t k = 0; k < count; k += 1) {
                const auto& t = src.elem(d.tracks);
                const auto unknown = src.chance(1, 10);
                const auto ssrc = unknown ? t->getSSRC() + 1 : src.chance(1, 10) ? t->getRtxSSRC() : t->getSSRC();
                auto& list = order[t->getSSRC()];
                Bytes body = cat({ num(99, 4), num(ssrc, 4) });
                std::set<uint16_t> seqs;
                for (size_t n = src.size(1, 3); n > 0; n -= 1) {
                    uint16_t pid = src.u16();
                    if (!list.empty() && src.chance(7, 8)) {
                        const auto back = std::min<size_t>(list.size() - 1, src.oneOf<size_t>({ src.size(0, 20), src.size(0, list.size() - 1), 511, 512, 505 }));
                        pid = static_cast<uint16_t>(list[list.size() - 1 - back] + src.range(-3, 1));
                    }
                    uint16_t blp = src.oneOf<uint16_t>({ 0, 1, 0x8000, 0xffff, src.u16() });
                    std::vector<uint16_t> one = { pid };
                    for (unsigned bit = 0; bit < 16; bit += 1)
                        if (blp & 1u << bit)
                            one.push_back(static_cast<uint16_t>(pid + bit + 1));
                    bool clash = false;
                    for (const auto v : one)
                        clash = clash || seqs.count(v);
                    if (clash)
                        continue;
                    seqs.insert(one.begin(), one.end());
                    body = cat({ body, num(pid, 2), num(blp, 2) });
                }
                if (compound.empty() && src.chance(1, 3))
                    compound = cat({ { 0x80, 201 }, num(1, 2), num(99, 4) });
                compound = cat({ compound, { 0x81, 205 }, num(body.size() / 4, 2), body });
                for (const auto seq : seqs) {
                    const auto known = ssrc == t->getSSRC() && sent[ssrc].count(seq) && o.nack;
                    size_t back = 0;
                    while (known && list[list.size() - 1 - back] != seq)
                        back += 1;
                    for (const auto& a : asked)
                        repeated += a.ssrc == ssrc && a.seq == seq ? 1 : 0;
                    // Sent when the request arrives, perhaps, when it hasn't arrived here yet
                    asked.push_back({ ssrc, seq, sim::nowMicros(), known && back < kRecent - 100, ssrc != t->getSSRC() });
                }
            }
            ctx.note("%lld us: requests %s", static_cast<long long>(sim::nowMicros()), hex(compound, 200).c_str());
            d.peer.sendRtcp(compound);
            ctx.tag("requests");
        }
        d.world.runFor(src.oneOf<int64_t>({ 0, 2000, src.range(0, 50000), 200000 }));
        check(false);
    }
    d.world.runFor(2 * delay + 300000);
    check(true);
    for (const auto& p : d.peer.problems)
        ctx.fail("what the peer saw", "%s", p.c_str());
    if (usesRtx)
        ctx.tag("retransmission format");
    if (!s.layers.empty())
        ctx.tag("simulcast");
    ctx.tagN("answered requests", answered);
    ctx.tagN("refused requests", refused);
    if (answered)
        ctx.nontrivial();
    ctx.note("rtx %d nack %d layers %zu: %zu packets sent, %zu requests answered, %zu not", usesRtx, o.nack, s.layers.size(), d.peer.rtp.size(), answered, refused);
}

} // namespace

int main(int argc, char** argv)
{
    return run(argc, argv,
        { "P14",
            "history: more than 512 packets of a stream were saved and found again; rtx: several retransmissions with header extensions; connection: at least one request was answered",
            { "packets of a stream are saved in the order of their numbers", "the network between connection and peer loses nothing in the connection facet", "the independent reader of RTP, SRTP and DTLS (OpenSSL) is right" },
            { { "history", 3, history }, { "rtx", 1, rtx }, { "connection", 6, connection } } });
}
