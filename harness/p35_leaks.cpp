// P35: nothing is left behind. The cases of other properties are repeated as they are, and must not hold more memory,
// descriptors or threads each time; connections which live on with steady traffic must not hold more and more.
#include "leaks.h"
#include "sctp_bridge.h"

#include <sstream>

using namespace leaks;
using ss::Bytes;

#define HARNESSES(X)                                                                                                   \
    X(p02) X(p03) X(p06) X(p08) X(p09) X(p12) X(p13) X(p14) X(p15) X(p16) X(p17) X(p18) X(p21) X(p22) X(p23) X(p25) X(p27) X(p28) X(p29) X(p30) X(p34)

#define DECLARE(name) int main_##name(int argc, char** argv);
HARNESSES(DECLARE)

namespace
{

// ----- A connection which goes on and on

struct Counting {
    Counting()
    {
        tCounted = true;
    }
    ~Counting()
    {
        tCounted = false;
    }
};

void steady(Src& src, Ctx& ctx)
{
    using sref::cat;
    using sref::num;
    // What this side of the network allocates doesn't count
    struct Own {
        Own()
        {
            tCounted = false;
        }
        ~Own()
        {
            Blocks::instance().stop();
            tCounted = true;
        }
    } own;
    ss::World w(src, ctx);
    w.delay = 0;
    const auto publish = src.chance(1, 2);
    const auto peerActive = src.chance(1, 2);
    rig::Duo d(peerActive);
    d.peer.profileIndex = src.size(0, 3);
    rig::Spec s;
    s.direction = publish ? srtc::Direction::Publish : srtc::Direction::Subscribe;
    s.audio = src.chance(2, 3);
    s.video = !s.audio || src.chance(3, 4);
    s.bwe = src.chance(1, 2);
    s.rtx = src.chance(2, 3);
    s.absCapture = src.chance(1, 2);
    if (publish && s.video && src.chance(1, 4))
        s.layers = { "lo", "hi" };
    const auto data = src.chance(1, 2);
    if (data)
        s.channels = { "c" };
    rig::AnswerOptions o;
    o.rids = s.layers;
    o.rtx = src.chance(4, 5);
    const auto e = d.start(s, o);
    PBT_CHECK(ctx, !e.isError(), "set up", "%s", e.message.c_str());
    auto& pc = *d.node->pc;
    const int64_t delay = src.range(1, 60) * 1000;
    const auto loseEvery = src.oneOf<unsigned>({ 0, 0, static_cast<unsigned>(src.size(3, 10)), static_cast<unsigned>(src.size(10, 100)) });
    const auto askEvery = src.oneOf<unsigned>({ 0, static_cast<unsigned>(src.size(3, 50)) });
    const auto answers = src.chance(2, 3);      // requests of packets
    const auto reports = src.chance(3, 4);      // receiver or sender reports
    const auto feedback = src.chance(3, 4);     // of congestion
    const auto strangers = src.chance(1, 3);    // datagrams from others, and damaged ones
    const auto interruptions = src.chance(1, 4);
    const auto videoSize = src.size(20, 4000), audioSize = src.size(10, 300), messageSize = src.size(1, 3000);
    bool good = true;
    int64_t silentUntil = 0;
    unsigned counter = 0;
    d.world.link = [&](const auto&, const auto&, const Bytes& b) -> std::vector<int64_t> {
        if (sim::nowMicros() < silentUntil)
            return {};
        if (!good && loseEvery && !b.empty() && (b[0] == 23 || (b[0] >= 128 && b[0] < 192)) && ++counter % loseEvery == 0)
            return {};
        return { delay };
    };
    struct Quiet : srtc::PeerConnection::DataChannelListener {
        bool open = false;
        void onDataChannelOpened(const std::string&) override
        {
            open = true;
        }
        void onDataChannelClosed(const std::string&) override
        {
        }
        void onDataChannelReceivedText(const std::string&, const std::string&) override
        {
        }
        void onDataChannelReceivedBinary(const std::string&, const srtc::ByteBuffer&) override
        {
        }
    };
    const auto listener = std::make_shared<Quiet>();
    pc.setDataChannelListener(listener);
    ss::RefEnd::Conf conf;
    size_t said = 0, heard = 0; // what isn't there yet is waited for
    std::optional<ss::Bridge> bridge;
    std::optional<ss::RefEnd> ref;
    if (data) {
        for (const auto& m : d.made.info.media)
            for (const auto& a : m.attributes)
                if (a.first == "sctp-port")
                    conf.remote = static_cast<uint16_t>(atoi(a.second.c_str()));
        bridge.emplace(d.world, d.peer, w);
        ref.emplace(w, 1, conf);
        ref->onOpen = [&](ss::RefEnd::Channel& c) { ref->acknowledgeOpen(c); };
        ref->onMessage = [&](ss::RefEnd::Channel&, bool, const Bytes&, bool) { heard += 1; };
    }
    struct End {
        rig::World& world;
        ~End()
        {
            world.shutdown();
        }
    } end{ d.world };
    size_t frames = 0;
    pc.setSubscribeEncodedFrameListener([&](const std::shared_ptr<srtc::EncodedFrame>&) { frames += 1; });

    unsigned twcc = 0;
    for (const auto& m : d.made.info.media)
        for (const auto& x : m.extensions)
            if (x.second.find("transport-wide") != std::string::npos)
                twcc = static_cast<unsigned>(x.first);
    std::vector<std::pair<uint16_t, int64_t>> arrived; // since the last report
    std::optional<uint16_t> reported;
    std::vector<std::pair<uint32_t, uint16_t>> ask;
    std::set<uint32_t> again;
    for (const auto& t : d.tracks)
        if (t->getRtxPayloadId() > 0)
            again.insert(t->getRtxSSRC());
    size_t received = 0;
    d.peer.onRtp = [&](const rig::DtlsPeer::Rtp& p) {
        received += 1;
        const auto r = rig::readRtp(p.data);
        const auto x = r.ext.find(twcc);
        if (twcc && x != r.ext.end() && x->second.size() == 2)
            arrived.emplace_back(rig::be16(x->second.data()), p.time);
        if (!again.count(p.ssrc) && askEvery && ++counter % askEvery == 0)
            ask.emplace_back(p.ssrc, p.seq);
    };
    struct Stream {
        std::shared_ptr<srtc::Track> track;
        uint64_t next = 65000, rtxNext = 3;
        uint32_t packets = 0;
        std::deque<std::pair<uint64_t, Bytes>> recent;
    };
    std::map<uint32_t, Stream> streams;
    for (const auto& t : d.tracks)
        streams[t->getSSRC()].track = t;
    d.peer.onRtcp = [&](const rig::DtlsPeer::Rtcp& c) {
        std::string error;
        for (const auto& r : rig::splitRtcp(c.data, error)) {
            if (publish || !answers || r.type != 205 || r.count != 1 || r.body.size() < 8)
                continue;
            const auto it = streams.find(rig::be32(&r.body[0]));
            if (it == streams.end())
                continue;
            auto& st = it->second;
            for (size_t at = 4; at + 4 <= r.body.size(); at += 4) {
                const auto pid = rig::be16(&r.body[at]);
                for (const auto& x : st.recent) {
                    if ((x.first & 0xffff) != pid)
                        continue;
                    if (st.track->getRtxPayloadId() > 0) {
                        d.peer.sendRtp(cat({ { 0x80, static_cast<uint8_t>(0x80 | st.track->getRtxPayloadId()) }, num(st.rtxNext & 0xffff, 2), Bytes(x.second.begin() + 4, x.second.begin() + 8), num(st.track->getRtxSSRC(), 4),
                                             num(pid, 2), Bytes(x.second.begin() + 12, x.second.end()) }),
                                       static_cast<uint32_t>(st.rtxNext >> 16));
                        st.rtxNext += 1;
                    } else
                        d.peer.sendRtp(x.second, static_cast<uint32_t>(x.first >> 16));
                }
            }
        }
    };

    PBT_CHECK(ctx, d.connect(), "connect", "not connected after %lld us", static_cast<long long>(sim::nowMicros()));
    good = false;
    const auto connected = sim::nowMicros();
    ctx.note("%s connection%s%s%s%s, %s, delay %lld us, every %u-th datagram is lost, every %u-th packet is asked for again, frames of %zu and %zu bytes%s%s%s%s%s", publish ? "publishing" : "subscribing", s.video ? ", video" : "", s.audio ? ", audio" : "",
             s.layers.empty() ? "" : ", two layers", data ? ", data channel" : "", s.bwe ? "congestion control" : "no congestion control", static_cast<long long>(delay), loseEvery, askEvery, videoSize, audioSize, answers ? ", requests are answered" : "",
             reports ? ", reports" : "", feedback ? ", feedback" : "", strangers ? ", strangers" : "", interruptions ? ", interruptions" : "");

    uint64_t tick = 0;
    size_t events = 0;
    const auto ntp = [] { return (static_cast<uint64_t>(sim::nowMicros() / 1000000) << 32) | static_cast<uint64_t>(sim::nowMicros() % 1000000) * 4294; };
    // Each one is 40 ms
    const auto step = [&] {
        const auto now = sim::nowMicros();
        for (auto& [ssrc, st] : streams) {
            const auto audio = st.track->getMediaType() == srtc::MediaType::Audio;
            const auto size = audio ? audioSize : videoSize;
            if (publish) {
                Bytes frame(size, 0x40);
                const auto buffer = gen::toBuffer(frame);
                {
                    Counting counting;
                    srtc::ByteBuffer copy = buffer.copy();
                    audio ? pc.publishAudioFrame(st.track, now, std::move(copy)) : pc.publishVideoFrame(st.track, now, std::move(copy));
                }
                events += 1;
                continue;
            }
            for (size_t at = 0, i = 0; at < size; at += 1000, i += 1) {
                Bytes payload(std::min<size_t>(1000, size - at) + 2, 0x40);
                if (!audio)
                    payload[0] = i == 0 ? 0x10 : 0;
                const auto packet = cat({ { 0x80, static_cast<uint8_t>(st.track->getPayloadId() | (at + 1000 >= size ? 0x80 : 0)) }, num(st.next & 0xffff, 2), num(static_cast<uint32_t>(now * (audio ? 48 : 90) / 1000), 4), num(ssrc, 4), payload });
                d.peer.sendRtp(packet, static_cast<uint32_t>(st.next >> 16));
                st.recent.emplace_back(st.next, packet);
                if (st.recent.size() > 40)
                    st.recent.pop_front();
                st.next += 1;
                st.packets += 1;
                events += 1;
            }
        }
        tick += 1;
        if (publish) {
            if (tick % 3 == 0 && feedback && twcc && !arrived.empty()) {
                // One chunk for each, with large steps
                Bytes chunks, deltas;
                const auto first = reported ? static_cast<uint16_t>(*reported + 1) : arrived.front().first;
                const auto count = static_cast<uint16_t>(arrived.back().first - first + 1);
                if (count > 0 && count < 500) {
                    const auto base = arrived.front().second / 64000;
                    auto last = base * 64000;
                    for (uint16_t k = 0; k < count; k += 1) {
                        const auto seq = static_cast<uint16_t>(first + k);
                        const auto x = std::find_if(arrived.begin(), arrived.end(), [&](const auto& y) { return y.first == seq; });
                        chunks = cat({ chunks, num(x == arrived.end() ? 0x0001u : 0x4001u, 2) });
                        if (x != arrived.end()) {
                            const auto delta = (x->second - last) / 250;
                            deltas = cat({ deltas, num(static_cast<uint16_t>(delta), 2) });
                            last += delta * 250;
                        }
                    }
                    auto body = cat({ num(99, 4), num(d.tracks.front()->getSSRC(), 4), num(first, 2), num(count, 2), num(static_cast<uint64_t>(base), 3), num(tick & 0xff, 1), chunks, deltas });
                    while (body.size() % 4)
                        body.push_back(0);
                    d.peer.sendRtcp(cat({ { 0x8f, 205 }, num(body.size() / 4, 2), body }));
                    reported = arrived.back().first;
                } else if (count >= 500)
                    reported = arrived.back().first;
            }
            if (tick % 3 == 0)
                arrived.clear();
            if (tick % 5 == 0 && !ask.empty()) {
                Bytes compound;
                for (const auto& [ssrc, seq] : ask)
                    if (compound.size() < 1000)
                        compound = cat({ compound, { 0x81, 205 }, num(3, 2), num(99, 4), num(ssrc, 4), num(seq, 2), num(tick & 3, 2) });
                ask.clear();
                d.peer.sendRtcp(compound);
            }
            if (tick % 25 == 0 && reports) {
                auto compound = cat({ { static_cast<uint8_t>(0x80 | streams.size()), 201 }, num(1 + 6 * streams.size(), 2), num(99, 4) });
                for (const auto& st : streams)
                    compound = cat({ compound, num(st.first, 4), num(0, 8), num(0, 4), num(static_cast<uint32_t>(tick), 4), num(1000, 4) });
                compound = cat({ compound, { 0x80, 207 }, num(4, 2), num(99, 4), { 4, 0 }, num(2, 2), num(ntp(), 8) });
                compound = cat({ compound, { 0x81, 206 }, num(2, 2), num(99, 4), num(streams.begin()->first, 4) });
                d.peer.sendRtcp(compound);
            }
        } else if (tick % 25 == 0 && reports) {
            for (const auto& [ssrc, st] : streams)
                d.peer.sendRtcp(cat({ { 0x80, 200 }, num(6, 2), num(ssrc, 4), num(ntp(), 8), num(static_cast<uint32_t>(sim::nowMicros() * 9 / 100), 4), num(st.packets, 4), num(st.packets * 1000, 4), { 0x81, 202 }, num(3, 2), num(ssrc, 4), { 1, 2, 'a', 'b', 0, 0, 0, 0 },
                                      { 0x80, 207 }, num(5, 2), num(ssrc, 4), { 5, 0 }, num(3, 2), num(98, 4), num(static_cast<uint32_t>(ntp() >> 16), 4), num(1000, 4) }));
            if (tick % 50 == 0)
                for (const auto& t : d.tracks) {
                    Counting counting;
                    pc.requestPictureLossIndicator(t);
                }
        }
        if (data && listener->open && tick % 5 == 0) {
            if (said < heard + 8) {
                said += 1;
                Counting counting;
                std::vector<uint8_t> m(messageSize, 7);
                tick % 2 ? pc.sendDataChannelBinary("c", srtc::ByteBuffer(m.data(), m.size())) : pc.sendDataChannelText("c", std::string(m.begin(), m.end()));
            }
            for (auto& c : ref->channels)
                if (c.ackSent && ref->queue.size() < 8)
                    ref->send(c, tick % 2 == 0, Bytes(messageSize, 8));
            events += 2;
        }
        if (strangers && tick % 7 == 0) {
            const auto to = d.node->addrs.front();
            const auto from = tick % 2 ? rig::address(50, 5000) : d.peer.addr;
            Bytes b(40 + tick % 30, static_cast<uint8_t>(tick));
            b[0] = static_cast<uint8_t>(tick / 7 % 5 == 0 ? 0x80 : tick / 7 % 5 == 1 ? 23 : tick / 7 % 5 == 2 ? 0 : tick / 7 % 5 == 3 ? 22 : tick);
            d.world.send(from, to, b);
            if (tick % 14 == 0)
                d.world.send(from, to, rig::writeStun(tick % 4 ? 1 : 0x101, Bytes(12, static_cast<uint8_t>(tick)), { { 6, Bytes(9, 'a') } }, nullptr));
        }
        d.world.run(now + 40000);
        d.peer.rtp.clear();
        d.peer.rtcp.clear();
        d.peer.stunRequests.clear();
        d.peer.stunResponses.clear();
        d.peer.problems.clear();
        d.peer.app.clear();
    };
    const auto runTo = [&](int64_t until) {
        while (sim::nowMicros() < until)
            step();
    };
    auto& blocks = Blocks::instance();
    blocks.start();
    runTo(connected + 45000000);
    struct At {
        int64_t time;
        size_t blocks, bytes, events;
    };
    std::vector<At> list;
    list.push_back({ sim::nowMicros(), blocks.count(), blocks.bytes(), events });
    bool more = true, bigger = true;
    static const int64_t spans[] = { 10, 10, 15, 20, 40, 80, 160 };
    for (size_t i = 0; i < sizeof(spans) / sizeof(spans[0]) && (more || bigger); i += 1) {
        blocks.epoch(static_cast<uint32_t>(i + 1));
        if (interruptions)
            silentUntil = sim::nowMicros() + 2500000;
        runTo(list.back().time + spans[i] * 1000000);
        const auto before = list.back();
        list.push_back({ sim::nowMicros(), blocks.count(), blocks.bytes(), events });
        const auto& after = list.back();
        more = more && after.blocks >= before.blocks + 4;
        bigger = bigger && after.bytes >= before.bytes + std::max<size_t>(64, (after.events - before.events) / 2);
        ctx.note("%6lld ms: %zu blocks, %zu bytes; %zu frames and messages, %zu delivered, %zu packets sent", static_cast<long long>(after.time / 1000), after.blocks, after.bytes, after.events, frames, received);
    }
    blocks.stop();
    if (blocks.full())
        throw Discard();
    if (more || bigger) {
        std::string t;
        for (const auto& a : list)
            t += "\n  " + std::to_string(a.time / 1000000) + " s: " + std::to_string(a.blocks) + " blocks, " + std::to_string(a.bytes) + " bytes, " + std::to_string(a.events) + " frames and messages";
        if (ctx.verbose())
            ctx.note("What is held since the middle:\n%s", blocks.origins(2, 5).c_str());
        ctx.fail("held by a connection", "it only grows:%s", t.c_str());
    }
    ctx.tag(publish ? "publishing on and on" : "subscribing on and on");
    if (data)
        ctx.tag("with data on and on");
    ctx.tagN("virtual seconds on and on", static_cast<uint64_t>((sim::nowMicros() - connected) / 1000000));
    if (events > 1000 && (publish ? received : frames) > 500)
        ctx.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
#define COLLECT(h) collect(#h, main_##h);
    HARNESSES(COLLECT)
    auto p = property({ { "p02", 400 }, { "p03", 400 }, { "p06", 700 }, { "p09", 500 }, { "p15", 500 }, { "p22", 500 }, { "p23", 1500 }, { "p25", 3000 }, { "p27", 400 }, { "p28", 300 }, { "p29", 1200 }, { "p34", 1500 } });
    p.facets.push_back({ "steady", 450, steady });
    return run(argc, argv, p);
}
