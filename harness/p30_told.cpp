// P30: what the application and the peer are told about media agrees with what happened
#include "rig_setup.h"

#include "srtc/encoded_frame.h"
#include "srtc/sender_report.h"

using namespace pbt;
using namespace gen;
using sref::cat;
using sref::num;

namespace
{

constexpr uint64_t kNtpToUnix = 2208988800ull;

int64_t ntpMicros(uint64_t ntp)
{
    return static_cast<int64_t>((ntp >> 32) * 1000000 + ((ntp & 0xffffffffull) * 1000000 >> 32));
}

// Between the clock of reports and that of the simulation
int64_t systemOffset()
{
    const auto us = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::system_clock::now().time_since_epoch()).count();
    return us + static_cast<int64_t>(kNtpToUnix) * 1000000 - sim::nowMicros();
}

struct Count {
    uint64_t lo = 0, hi = 0;
    void add(bool sure, uint64_t n = 1)
    {
        lo += sure ? n : 0;
        hi += n;
    }
};

void publisher(Src& src, Ctx& ctx)
{
    rig::Duo d(src.chance(1, 2));
    d.peer.profileIndex = src.size(0, 3);
    rig::Spec s;
    s.audio = src.chance(3, 4);
    s.video = !s.audio || src.chance(4, 5);
    s.bwe = src.chance(1, 3);
    s.rtx = src.chance(2, 3);
    if (s.video && src.chance(1, 4))
        s.layers = { "lo", "hi" };
    rig::AnswerOptions o;
    o.rids = s.layers;
    o.rtx = src.chance(4, 5);
    const auto e = d.start(s, o);
    PBT_CHECK(ctx, !e.isError(), "set up", "%s", e.message.c_str());
    const int64_t delay = src.range(1, 60) * 1000;
    d.world.link = [&](const auto&, const auto&, const auto&) { return std::vector<int64_t>{ delay }; };

    struct Stat {
        int64_t time;
        srtc::PublishConnectionStats v;
    };
    std::vector<Stat> stats;
    std::vector<int64_t> keys;
    size_t wrongSide = 0;
    d.node->pc->setPublishConnectionStatsListener([&](const srtc::PublishConnectionStats& v) { stats.push_back({ sim::nowMicros(), v }); });
    d.node->pc->setSubscribeConnectionStatsListener([&](const srtc::SubscribeConnectionStats&) { wrongSide += 1; });
    d.node->pc->setPublishKeyFrameRequestedListener([&] { keys.push_back(sim::nowMicros()); });

    PBT_CHECK(ctx, d.connect(), "connect", "not connected after %lld us", static_cast<long long>(sim::nowMicros()));
    const auto connected = sim::nowMicros();

    struct Stream {
        std::shared_ptr<srtc::Track> track;
        unsigned rate;
        int64_t ptsBase;           // of the application's clock, at the start of the simulation
        std::vector<int64_t> times; // of the frames published
    };
    std::map<uint32_t, Stream> streams;
    std::map<uint32_t, uint32_t> mainOf; // retransmissions
    const auto ptsBase = src.oneOf<int64_t>({ 0, src.range(0, 1000000000), src.range(0, 1000000000000000ll) });
    for (const auto& t : d.tracks) {
        streams[t->getSSRC()] = { t, t->getMediaType() == srtc::MediaType::Audio ? 48000u : 90000u, ptsBase, {} };
        if (t->getRtxPayloadId() > 0)
            mainOf[t->getRtxSSRC()] = t->getSSRC();
    }

    struct Asked {
        int64_t time;
        size_t packets;
    };
    std::vector<Asked> asked;
    int64_t lastDatagram = 0;
    size_t published = 0, nacks = 0, unrelated = 0;

    const auto end = connected + src.range(1, 4) * 5000000 + src.range(0, 2000000);
    const auto quietStart = src.chance(1, 3) ? connected + src.range(0, 12000000) : connected; // no frames at first
    for (size_t step = src.size(5, 200); step > 0 && sim::nowMicros() < end; step -= 1) {
        const auto now = sim::nowMicros();
        switch (src.pick({ 6, 2, 2, 1 })) {
        case 0: {
            if (now < quietStart)
                break;
            auto& st = streams[src.elem(d.tracks)->getSSRC()];
            const auto audio = st.track->getMediaType() == srtc::MediaType::Audio;
            if (!st.times.empty() && now <= st.times.back())
                break; // timestamps of frames are distinct
            auto frame = src.blob(audio ? src.size(2, 400) : src.oneOf<size_t>({ src.size(10, 100), src.size(1000, 1300), src.size(10, 30000) }));
            if (!audio)
                frame[0] = static_cast<uint8_t>(frame[0] & 0xfe);
            const auto pts = st.ptsBase + now;
            st.times.push_back(now);
            const auto error = audio ? d.node->pc->publishAudioFrame(st.track, pts, toBuffer(frame)) : d.node->pc->publishVideoFrame(st.track, pts, toBuffer(frame));
            PBT_CHECK(ctx, !error.isError(), "publish", "%s", error.message.c_str());
            published += 1;
            break;
        }
        case 1: {
            // Requests of key frames, and others
            Bytes compound;
            size_t n = 0;
            if (src.chance(1, 3))
                compound = cat({ { 0x80, 201 }, num(1, 2), num(99, 4) });
            for (size_t k = src.size(1, 3); k > 0; k -= 1) {
                const auto ssrc = src.elem(d.tracks)->getSSRC();
                switch (src.pick({ 3, 2, 2 })) {
                case 0:
                    compound = cat({ compound, { 0x81, 206 }, num(2, 2), num(99, 4), num(ssrc, 4) });
                    n += 1;
                    break;
                case 1:
                    compound = cat({ compound, { 0x84, 206 }, num(4, 2), num(99, 4), num(src.chance(1, 2) ? 0 : ssrc, 4), num(ssrc, 4), num(static_cast<uint64_t>(asked.size() + n) << 24, 4) });
                    n += 1;
                    break;
                default: {
                    // Of another format: slices, REMB, or of the transport
                    const auto fmt = src.oneOf<unsigned>({ 2, 3, 15 });
                    if (src.chance(1, 2))
                        compound = cat({ compound, { static_cast<uint8_t>(0x80 | fmt), 206 }, num(3, 2), num(99, 4), num(ssrc, 4), num(src.u32(), 4) });
                    else
                        compound = cat({ compound, { static_cast<uint8_t>(0x80 | src.oneOf<unsigned>({ 2, 3, 4 })), 205 }, num(3, 2), num(99, 4), num(ssrc, 4), num(src.u32(), 4) });
                    unrelated += 1;
                    break;
                }
                }
            }
            d.peer.sendRtcp(compound);
            lastDatagram = now;
            if (n > 0)
                asked.push_back({ now + delay, n });
            break;
        }
        case 2: {
            // Something to send again
            if (d.peer.rtp.empty())
                break;
            const auto& p = d.peer.rtp[d.peer.rtp.size() - 1 - std::min(d.peer.rtp.size() - 1, src.size(0, 50))];
            if (mainOf.count(p.ssrc))
                break;
            d.peer.sendRtcp(cat({ { 0x81, 205 }, num(3, 2), num(99, 4), num(p.ssrc, 4), num(p.seq, 2), num(src.chance(1, 2) ? 0 : src.u16(), 2) }));
            nacks += 1;
            break;
        }
        default:
            break;
        }
        d.world.run(std::min(end, now + src.oneOf<int64_t>({ 0, src.range(100, 20000), src.range(0, 200000), src.range(0, 1000000) })));
    }
    d.world.run(end);
    d.world.runFor(2 * delay + 400000);
    for (const auto& p : d.peer.problems)
        ctx.fail("what the peer saw", "%s", p.c_str());
    PBT_CHECK(ctx, wrongSide == 0, "statistics of the other direction", "%zu times", wrongSide);
    (void)lastDatagram;

    // Requests of key frames
    {
        std::map<int64_t, std::pair<size_t, size_t>> due; // by time of arrival: datagrams, packets
        for (const auto& a : asked) {
            due[a.time].first += 1;
            due[a.time].second += a.packets;
        }
        size_t i = 0;
        int64_t lo = 0, hi = 0;
        for (auto it = due.begin(); it != due.end(); ++it) {
            // Those which can only be for what has come so far
            lo += static_cast<int64_t>(it->second.first);
            hi += static_cast<int64_t>(it->second.second);
            const auto next = std::next(it) == due.end() ? INT64_MAX : std::next(it)->first;
            while (i < keys.size() && keys[i] < next)
                i += 1;
            PBT_CHECK(ctx, static_cast<int64_t>(i) <= hi, "key frames requested", "%zu times until %lld us, with %lld requests", i, static_cast<long long>(next), static_cast<long long>(hi));
            if (next > it->first + 3000)
                PBT_CHECK(ctx, static_cast<int64_t>(i) >= lo, "request of a key frame isn't passed on", "%zu times until %lld us, with %lld datagrams", i, static_cast<long long>(next), static_cast<long long>(lo));
        }
        PBT_CHECK(ctx, keys.empty() || (!due.empty() && keys.front() >= due.begin()->first), "key frame requested", "without a request, at %lld us", static_cast<long long>(keys.empty() ? 0 : keys.front()));
    }

    // Statistics
    PBT_CHECK(ctx, !stats.empty(), "statistics", "none in %lld us", static_cast<long long>(end - connected));
    PBT_CHECK(ctx, end - stats.back().time < 5020000, "statistics", "no more in %lld us", static_cast<long long>(end - stats.back().time));
    int64_t previous = connected;
    uint64_t previousBytes = 0;
    for (size_t i = 0; i < stats.size(); i += 1) {
        const auto& v = stats[i].v;
        const auto t = stats[i].time;
        if (i > 0)
            PBT_CHECK(ctx, std::abs(t - previous - 5000000) < 20000, "time of statistics", "%lld us after the last ones", static_cast<long long>(t - previous));
        Count frames, packets, bytes;
        std::set<std::pair<uint32_t, uint64_t>> once; // the rest were sent again
        for (const auto& p : d.peer.rtp) {
            const auto sent = p.time - delay;
            if (sent > t)
                continue;
            const auto sure = sent < t;
            packets.add(sure);
            bytes.add(sure, p.wireSize);
            const auto st = streams.find(p.ssrc);
            if (st != streams.end() && once.insert({ p.ssrc, p.index }).second && (st->second.track->getMediaType() == srtc::MediaType::Audio || p.marker))
                frames.add(sure);
        }
        ctx.note("%lld us: %zu frames %zu packets %zu bytes, %f kbit/s; sent %llu %llu %llu", static_cast<long long>(t), v.frame_count, v.packet_count, v.byte_count, v.bandwidth_actual_kbit_per_second, static_cast<unsigned long long>(frames.hi),
            static_cast<unsigned long long>(packets.hi), static_cast<unsigned long long>(bytes.hi));
        PBT_CHECK(ctx, v.frame_count >= frames.lo && v.frame_count <= frames.hi, "frames", "%zu, sent were %llu", v.frame_count, static_cast<unsigned long long>(frames.hi));
        PBT_CHECK(ctx, v.packet_count >= packets.lo && v.packet_count <= packets.hi, "packets", "%zu, sent were %llu", v.packet_count, static_cast<unsigned long long>(packets.hi));
        PBT_CHECK(ctx, v.byte_count >= bytes.lo && v.byte_count <= bytes.hi, "bytes", "%zu, sent were %llu", v.byte_count, static_cast<unsigned long long>(bytes.hi));
        if (!s.bwe) {
            PBT_CHECK(ctx, v.packets_lost_percent == 0, "lost packets", "%f %% without feedback", v.packets_lost_percent);
            if (i > 0) {
                // Nobody tells what arrives, so it's what is sent
                const auto expected = static_cast<double>(v.byte_count - previousBytes) * 8 / (static_cast<double>(t - previous) / 1000);
                PBT_CHECK(ctx, std::abs(v.bandwidth_actual_kbit_per_second - expected) <= 0.5 + expected / 200, "bandwidth", "%f kbit/s, it is %f", v.bandwidth_actual_kbit_per_second, expected);
                if (expected > 10)
                    ctx.tag("bandwidth judged");
            }
        }
        previous = t;
        previousBytes = v.byte_count;
    }

    // Sender reports
    size_t reports = 0, withFrames = 0, before = 0;
    const auto offset = systemOffset();
    std::map<uint32_t, int64_t> lastReport;
    for (const auto& c : d.peer.rtcp) {
        std::string error;
        for (const auto& r : rig::splitRtcp(c.data, error)) {
            if (r.type != 200)
                continue;
            const auto st = streams.find(r.ssrc);
            PBT_CHECK(ctx, st != streams.end() && r.body.size() == 20 && r.count == 0, "sender report", "source %u, %zu bytes", r.ssrc, r.body.size());
            const auto t = c.time - delay;
            const auto last = lastReport.count(r.ssrc) ? lastReport[r.ssrc] : connected;
            PBT_CHECK(ctx, lastReport.count(r.ssrc) ? std::abs(t - last - 5000000) < 20000 : t - last < 5020000, "time of sender reports", "%lld us after the last one", static_cast<long long>(t - last));
            lastReport[r.ssrc] = t;
            const auto ntp = ntpMicros(static_cast<uint64_t>(rig::be32(&r.body[0])) << 32 | rig::be32(&r.body[4])) - offset;
            const auto rtp = rig::be32(&r.body[8]);
            const uint64_t packets = rig::be32(&r.body[12]), octets = rig::be32(&r.body[16]);
            Count main, all, payload, wire;
            const rig::DtlsPeer::Rtp* ref = nullptr;
            for (const auto& p : d.peer.rtp) {
                const auto isMain = p.ssrc == r.ssrc;
                if (!isMain && (!mainOf.count(p.ssrc) || mainOf[p.ssrc] != r.ssrc))
                    continue;
                if (isMain && !ref)
                    ref = &p;
                const auto sent = p.time - delay;
                if (sent > t)
                    continue;
                if (isMain) {
                    main.add(sent < t);
                    payload.add(sent < t, rig::readRtp(p.data).payload.size());
                }
                all.add(sent < t);
                wire.add(sent < t, p.wireSize);
            }
            PBT_CHECK(ctx, packets >= main.lo && packets <= all.hi, "packets in a sender report", "%llu, sent were %llu and with retransmissions %llu", static_cast<unsigned long long>(packets), static_cast<unsigned long long>(main.hi), static_cast<unsigned long long>(all.hi));
            // Octets of the payload, or of all there is on the wire
            PBT_CHECK(ctx, octets >= payload.lo && octets <= wire.hi, "octets in a sender report", "%llu, sent were %llu", static_cast<unsigned long long>(octets), static_cast<unsigned long long>(wire.hi));
            if (ref) {
                // What it says of the time of the stream's frames
                const auto first = st->second.times.front();
                const auto says = static_cast<int32_t>(rtp - ref->ts);
                const auto expected = static_cast<double>(ntp - first) * st->second.rate / 1000000;
                PBT_CHECK(ctx, std::abs(says - expected) <= st->second.rate / 200.0, "time in a sender report", "source %u at %lld us: %d units since the first frame, which was %f before", r.ssrc, static_cast<long long>(t), says, expected);
                withFrames += 1;
                before += first > t ? 1 : 0;
            }
            reports += 1;
        }
    }
    PBT_CHECK(ctx, reports >= stats.size(), "sender reports", "%zu in %lld us", reports, static_cast<long long>(end - connected));
    ctx.tagN("reports with frames", withFrames);
    ctx.tagN("reports before the first frame", before);
    ctx.tagN("key frames requested", keys.size());
    if (nacks)
        ctx.tag("retransmissions");
    if (published && !keys.empty() && withFrames)
        ctx.nontrivial();
}

void subscriber(Src& src, Ctx& ctx)
{
    rig::Duo d(src.chance(1, 2));
    d.peer.profileIndex = src.size(0, 3);
    rig::Spec s;
    s.direction = srtc::Direction::Subscribe;
    s.audio = src.chance(2, 3);
    s.video = !s.audio || src.chance(4, 5);
    s.pliMillis = src.oneOf<uint16_t>({ 0, 2000, static_cast<uint16_t>(src.range(500, 4000)), static_cast<uint16_t>(src.range(1, 500)), static_cast<uint16_t>(src.range(4000, 65535)) });
    s.jitterMillis = src.oneOf<uint16_t>({ 0, static_cast<uint16_t>(src.range(50, 300)) });
    s.absCapture = src.chance(2, 3);
    rig::AnswerOptions o;
    o.rtx = src.chance(2, 3);
    o.nack = o.rtx || src.chance(2, 3);
    o.pli = src.chance(4, 5);
    o.noExtensions = src.chance(1, 8);
    const auto e = d.start(s, o);
    PBT_CHECK(ctx, !e.isError(), "set up", "%s", e.message.c_str());
    const int64_t delay = src.range(1, 60) * 1000;
    d.world.link = [&](const auto&, const auto&, const auto&) { return std::vector<int64_t>{ delay }; };

    struct Stat {
        int64_t time;
        srtc::SubscribeConnectionStats v;
        size_t frames;
    };
    struct Passed {
        int64_t time;
        uint32_t ssrc;
        srtc::SenderReport sr;
    };
    std::vector<Stat> stats;
    std::vector<Passed> passed;
    struct Given {
        uint32_t ssrc;
        uint64_t seq, ntp;
        int64_t offset;
        Bytes data;
    };
    std::vector<Given> given;
    size_t frames = 0, wrongSide = 0;
    d.node->pc->setSubscribeConnectionStatsListener([&](const srtc::SubscribeConnectionStats& v) { stats.push_back({ sim::nowMicros(), v, frames }); });
    d.node->pc->setPublishConnectionStatsListener([&](const srtc::PublishConnectionStats&) { wrongSide += 1; });
    d.node->pc->setSubscribeEncodedFrameListener([&](const std::shared_ptr<srtc::EncodedFrame>& f) {
        frames += 1;
        given.push_back({ f->track ? f->track->getSSRC() : 0, f->seq_ext, f->abs_capture_time_ntp, f->abs_capture_time_offset, Bytes(f->data.data(), f->data.data() + f->data.size()) });
    });
    d.node->pc->setSubscribeSenderReportsListener([&](const std::shared_ptr<srtc::Track>& t, const srtc::SenderReport& sr) { passed.push_back({ sim::nowMicros(), t ? t->getSSRC() : 0, sr }); });

    PBT_CHECK(ctx, d.connect(), "connect", "not connected after %lld us", static_cast<long long>(sim::nowMicros()));
    int64_t connected = sim::nowMicros();
    for (size_t i = 0; i < d.node->states.size(); i += 1)
        if (d.node->states[i] == rig::State::Connected)
            connected = d.node->stateTimes[i];

    struct Stream {
        std::shared_ptr<srtc::Track> track;
        uint64_t next; // extended number
        uint64_t first, rtxNext;
        uint32_t tsBase, ts;
        bool started = false;
        std::map<uint64_t, Bytes> sent; // payloads by number
        struct Part {
            uint64_t first; // number of the frame's first packet
            uint32_t ts;
            bool last;
        };
        std::map<uint64_t, Part> parts; // the same packets
        struct Captured {
            uint64_t ntp = 0;
            int64_t offset = 0;
            bool present = false;
        };
        std::map<uint64_t, Captured> captured; // times by number
        std::map<uint64_t, Bytes> extension;
        unsigned captureId = 0; // of the extension
        std::string type;
        std::set<uint64_t> skipped;
    };
    std::map<uint32_t, Stream> streams;
    for (const auto& t : d.tracks) {
        const auto start = static_cast<uint64_t>(src.oneOf<int64_t>({ src.range(0, 65535), 65535 - src.range(0, 30), src.range(0, 10) }));
        streams[t->getSSRC()] = { t, start, start, src.u16(), 0, 0, false, {}, {}, {}, {}, 0, {}, {} };
        auto& st = streams[t->getSSRC()];
        st.type = t->getMediaType() == srtc::MediaType::Audio ? "audio" : "video";
        for (const auto& m : d.made.info.media)
            for (const auto& x : m.extensions)
                if (m.type == st.type && x.second.find("abs-capture-time") != std::string::npos)
                    st.captureId = static_cast<unsigned>(x.first);
        PBT_CHECK(ctx, !s.absCapture || st.captureId, "offer", "capture times aren't offered for %s", st.type.c_str());
        st.tsBase = src.u32() >> 1;
        st.ts = st.tsBase;
    }

    struct Arrival {
        int64_t time;
        uint32_t ssrc; // of the stream
        bool counts;   // is a packet of the stream, new to the receiver
        bool main;
        uint64_t seq;
        size_t wire;
        bool maybe = false; // it could be taken for a packet of the stream, or not
    };
    std::vector<Arrival> arrivals;
    struct SentSr {
        int64_t time;
        uint32_t ssrc;
        uint64_t ntp;
        uint32_t rtp, packets, octets;
        bool known;
    };
    std::vector<SentSr> srs;
    std::multimap<int64_t, std::function<void()>> later;
    std::vector<std::pair<int64_t, uint32_t>> demands;
    size_t lost = 0, reordered = 0, retransmitted = 0, duplicates = 0, foreign = 0;

    const auto packet = [&](Stream& st, uint64_t seq, const Bytes& payload, const Stream::Part& part, bool rtx) {
        const auto pt = rtx ? st.track->getRtxPayloadId() : st.track->getPayloadId();
        const auto ssrc = rtx ? st.track->getRtxSSRC() : st.track->getSSRC();
        // A retransmission has the extension of the packet
        const auto original = rtx ? static_cast<uint64_t>(rig::be16(payload.data())) : seq & 0xffff;
        const Bytes* extension = nullptr;
        for (const auto& x : st.extension)
            if ((x.first & 0xffff) == original)
                extension = &x.second;
        return cat({ { static_cast<uint8_t>(extension ? 0x90 : 0x80), static_cast<uint8_t>(pt | (part.last ? 0x80 : 0)) }, num(seq & 0xffff, 2), num(part.ts, 4), num(ssrc, 4), extension ? *extension : Bytes{}, payload });
    };
    const auto extensionFor = [&](Stream& st, uint64_t seq) {
        auto kind = src.pick({ 3, 2, 1 });
        if (kind == 0)
            return;
        if (kind == 1 && st.parts[seq].first != seq)
            kind = 2; // The time is that of the frame, and its first packet has it
        const auto two = src.chance(1, 3); // two bytes for each header
        const auto id = st.captureId ? st.captureId : 9;
        Bytes elements;
        const auto element = [&](unsigned n, const Bytes& value) {
            if (two)
                elements = cat({ elements, { static_cast<uint8_t>(n), static_cast<uint8_t>(value.size()) }, value });
            else
                elements = cat({ elements, { static_cast<uint8_t>(n << 4 | (value.size() - 1)) }, value });
        };
        const auto other = [&] {
            if (src.chance(1, 4))
                element(id == 13 ? 12 : 13, src.blob(src.size(1, 16)));
            while (src.chance(1, 8))
                elements.push_back(0);
        };
        other();
        if (kind == 1) {
            auto& c = st.captured[seq];
            c.ntp = src.u64();
            c.present = true;
            if (src.chance(1, 2)) {
                c.offset = src.oneOf<int64_t>({ 0, static_cast<int64_t>(src.u64()), -src.range(1, 1000000000) });
                element(id, cat({ num(c.ntp, 8), num(static_cast<uint64_t>(c.offset), 8) }));
            } else
                element(id, num(c.ntp, 8));
        }
        other();
        if (elements.empty())
            return;
        while (elements.size() % 4)
            elements.push_back(0);
        st.extension[seq] = cat({ two ? Bytes{ 0x10, 0x00 } : Bytes{ 0xbe, 0xde }, num(elements.size() / 4, 2), elements });
    };
    // What the SRTP adds
    const size_t overhead = d.peer.profileIndex == 2 ? 10 : d.peer.profileIndex == 3 ? 4 : 16;
    const auto arrive = [&](Stream& st, const Bytes& data, uint64_t seq, bool main, bool counts) {
        d.peer.sendRtp(data, static_cast<uint32_t>(seq >> 16));
        arrivals.push_back({ sim::nowMicros() + delay, st.track->getSSRC(), counts, main, seq, data.size() + overhead });
    };

    // Requests of packets, which may be answered
    d.peer.onRtcp = [&](const rig::DtlsPeer::Rtcp& c) {
        std::string error;
        for (const auto& r : rig::splitRtcp(c.data, error)) {
            if (r.type != 205 || r.count != 1 || r.body.size() < 8)
                continue;
            auto it = streams.find(rig::be32(&r.body[0]));
            if (it == streams.end())
                continue;
            auto& st = it->second;
            for (size_t at = 4; at + 4 <= r.body.size(); at += 4) {
                const auto pid = rig::be16(&r.body[at]), blp = rig::be16(&r.body[at + 2]);
                for (unsigned bit = 0; bit <= 16; bit += 1) {
                    if (bit > 0 && !(blp & 1u << (bit - 1)))
                        continue;
                    const auto low = static_cast<uint16_t>(pid + bit);
                    for (auto i = st.sent.begin(); i != st.sent.end(); ++i) {
                        if ((i->first & 0xffff) != low || !st.skipped.count(i->first))
                            continue;
                        if (!src.chance(2, 3))
                            continue;
                        const auto seq = i->first;
                        retransmitted += 1;
                        const auto payload = i->second;
                        const auto part = st.parts[seq];
                        if (st.track->getRtxPayloadId() > 0) {
                            later.emplace(sim::nowMicros() + src.range(0, 5000), [&, seq, payload, part] {
                                arrive(st, packet(st, st.rtxNext, cat({ num(seq & 0xffff, 2), payload }), part, true), st.rtxNext, false, true);
                                st.rtxNext += 1;
                            });
                        } else {
                            st.skipped.erase(seq);
                            later.emplace(sim::nowMicros() + src.range(0, 5000), [&, seq, payload, part] { arrive(st, packet(st, seq, payload, part, false), seq, true, true); });
                        }
                    }
                }
            }
        }
    };

    const auto tidy = src.chance(1, 4);  // nothing is lost
    const auto plain = !tidy && src.chance(1, 3); // losses are all there is
    const auto end = connected + src.range(1, 4) * 5000000 + src.range(0, 2000000);
    const auto runTo = [&](int64_t until) {
        while (!later.empty() && later.begin()->first <= until) {
            d.world.run(std::max(sim::nowMicros(), later.begin()->first));
            const auto f = later.begin()->second;
            later.erase(later.begin());
            f();
        }
        d.world.run(until);
    };
    if (plain)
        d.peer.onRtcp = {};
    std::map<uint32_t, std::vector<std::pair<int64_t, uint64_t>>> gaps; // time when the next one arrives
    for (size_t step = src.size(5, 200); step > 0 && sim::nowMicros() < end; step -= 1) {
        const auto now = sim::nowMicros();
        switch (src.pick({ 8, 2, 2, 1 })) {
        case 0: {
            auto& st = streams[src.elem(d.tracks)->getSSRC()];
            const auto audio = st.track->getMediaType() == srtc::MediaType::Audio;
            const auto many = src.size(1, 12);
            const auto parted = !audio && src.chance(1, 2); // frames of several packets
            std::vector<std::pair<uint64_t, Bytes>> held;
            std::optional<uint64_t> open;
            for (size_t i = 0; i < many; i += 1) {
                auto payload = src.blob(src.size(2, 300));
                const auto seq = st.next;
                st.next += 1;
                if (!audio)
                    payload[0] = open ? 0 : 0x10;
                if (!audio && !open)
                    payload[1] = static_cast<uint8_t>(payload[1] & 0xfe);
                // With the clock, or the receiver takes them for late ones
                if (!open)
                    st.ts = std::max(st.ts + 1, st.tsBase + static_cast<uint32_t>(now * (audio ? 48 : 90) / 1000));
                st.sent[seq] = payload;
                const auto last = !parted || i + 1 == many || src.chance(1, 3);
                st.parts[seq] = { open.value_or(seq), st.ts, last };
                if (!last)
                    open = open.value_or(seq);
                else
                    open.reset();
                extensionFor(st, seq);
                const auto data = packet(st, seq, payload, st.parts[seq], false);
                const auto what = !st.started || tidy || i + 1 == many ? 0 : plain ? src.pick({ 6, 2 }) : src.pick({ 6, 2, 2, 1, 1 });
                st.started = true;
                switch (what) {
                case 0:
                    arrive(st, data, seq, true, true);
                    break;
                case 1:
                    lost += 1;
                    st.skipped.insert(seq);
                    gaps[st.track->getSSRC()].emplace_back(now + delay, seq);
                    break;
                case 2:
                    held.emplace_back(seq, data);
                    break;
                case 3:
                    arrive(st, data, seq, true, true);
                    arrive(st, data, seq, true, false);
                    duplicates += 1;
                    break;
                default:
                    // Of a source, or in a format, which nobody said anything about
                    arrive(st, data, seq, true, true);
                    if (src.chance(1, 2))
                        d.peer.sendRtp(cat({ { 0x80, 0x80 | 96 }, num(seq & 0xffff, 2), num(st.ts, 4), num(4242, 4), payload }), 0);
                    else
                        d.peer.sendRtp(cat({ { 0x80, 0x80 | 1 }, num((st.next) & 0xffff, 2), num(st.ts, 4), num(4243, 4), payload }), 0);
                    break;
                }
            }
            std::reverse(held.begin(), held.end());
            for (const auto& [seq, data] : held) {
                reordered += 1;
                arrive(st, data, seq, true, true);
            }
            if (!tidy && !plain && src.chance(1, 6)) {
                // Of a format which isn't the source's
                const auto seq = st.next;
                st.next += 1;
                auto payload = src.blob(src.size(4, 300));
                payload[0] = 0x10;
                payload[1] = static_cast<uint8_t>(payload[1] & 0xfe);
                const auto pt = st.track->getRtxPayloadId() > 0 && src.chance(1, 2) ? static_cast<unsigned>(st.track->getRtxPayloadId()) : src.oneOf<unsigned>({ 0, 1, 34 });
                d.peer.sendRtp(cat({ { 0x80, static_cast<uint8_t>(0x80 | pt) }, num(seq & 0xffff, 2), num(st.ts + 1, 4), num(st.track->getSSRC(), 4), payload }), static_cast<uint32_t>(seq >> 16));
                arrivals.push_back({ sim::nowMicros() + delay, st.track->getSSRC(), true, true, seq, 12 + payload.size() + overhead, true });
                foreign += 1;
            }
            break;
        }
        case 1: {
            // Reports of the sender
            const auto known = src.chance(5, 6);
            const auto ssrc = known ? src.elem(d.tracks)->getSSRC() : 4242;
            const auto any = [&] { return src.chance(1, 4) ? 0u : src.u32(); };
            SentSr sr = { now + delay, ssrc, src.chance(1, 6) ? 0 : src.u64(), any(), any(), any(), known };
            const auto blocks = src.chance(1, 4) ? src.size(1, 2) : 0;
            Bytes more;
            for (size_t i = 0; i < blocks; i += 1)
                more = cat({ more, num(src.u32(), 4), src.blob(20) });
            auto rtcp = cat({ { static_cast<uint8_t>(0x80 | blocks), 200 }, num(6 + 6 * blocks, 2), num(ssrc, 4), num(sr.ntp, 8), num(sr.rtp, 4), num(sr.packets, 4), num(sr.octets, 4), more });
            if (src.chance(1, 2))
                rtcp = cat({ rtcp, { 0x81, 202 }, num(3, 2), num(ssrc, 4), { 1, 2, 'a', 'b', 0, 0, 0, 0 } });
            d.peer.sendRtcp(rtcp);
            srs.push_back(sr);
            break;
        }
        case 2: {
            const auto t = src.elem(d.tracks);
            const auto error = d.node->pc->requestPictureLossIndicator(t);
            PBT_CHECK(ctx, !error.isError(), "request of a key frame", "%s", error.message.c_str());
            demands.emplace_back(now, t->getSSRC());
            break;
        }
        default:
            break;
        }
        runTo(std::min(end, std::max(now, now + src.oneOf<int64_t>({ 0, src.range(100, 20000), src.range(0, 200000), src.range(0, 1000000) }))));
    }
    runTo(end);
    const auto stop = sim::nowMicros();
    runTo(stop + 2 * delay + 400000);
    for (const auto& p : d.peer.problems)
        ctx.fail("what the peer saw", "%s", p.c_str());
    PBT_CHECK(ctx, wrongSide == 0, "statistics of the other direction", "%zu times", wrongSide);
    PBT_CHECK(ctx, d.node->state() == rig::State::Connected, "connection", "state %d", static_cast<int>(d.node->state()));

    // Frames are as they were sent, with the times of their capture
    size_t withTime = 0, severalPackets = 0;
    for (const auto& g : given) {
        const auto it = streams.find(g.ssrc);
        PBT_CHECK(ctx, it != streams.end(), "frame of an unknown source", "%u", g.ssrc);
        const auto& st = it->second;
        const auto sent = std::find_if(st.sent.begin(), st.sent.end(), [&](const auto& x) { return (x.first & 0xffff) == (g.seq & 0xffff); });
        PBT_CHECK(ctx, sent != st.sent.end(), "frame nobody sent", "%s number %llu, %zu bytes", st.type.c_str(), static_cast<unsigned long long>(g.seq), g.data.size());
        const auto skip = st.type == "video" ? 1 : 0;
        Bytes whole;
        size_t packets = 0;
        for (auto i = sent; i != st.sent.end() && st.parts.at(i->first).first == sent->first; ++i) {
            whole.insert(whole.end(), i->second.begin() + skip, i->second.end());
            packets += 1;
        }
        PBT_CHECK(ctx, g.data == whole, "frame", "%s number %llu: %zu bytes, not the %zu sent in %zu packets", st.type.c_str(), static_cast<unsigned long long>(g.seq), g.data.size(), whole.size(), packets);
        severalPackets += packets > 1;
        const auto c = st.captured.find(sent->first);
        const auto present = c != st.captured.end() && s.absCapture && !o.noExtensions;
        PBT_CHECK(ctx, g.ntp == (present ? c->second.ntp : 0) && g.offset == (present ? c->second.offset : 0), "time of capture", "%s number %llu: %016llx and %lld, said was %016llx and %lld", st.type.c_str(),
            static_cast<unsigned long long>(g.seq), static_cast<unsigned long long>(g.ntp), static_cast<long long>(g.offset), static_cast<unsigned long long>(present ? c->second.ntp : 0), static_cast<long long>(present ? c->second.offset : 0));
        withTime += present ? 1 : 0;
    }
    ctx.tagN("frames with a time of capture", withTime);
    ctx.tagN("frames of several packets", severalPackets);
    if (foreign)
        ctx.tag("packets of another format");

    // Reports of the sender are passed on as they are
    {
        size_t i = 0;
        for (const auto& sr : srs) {
            if (!sr.known)
                continue;
            PBT_CHECK(ctx, i < passed.size(), "sender report isn't passed on", "of source %u at %lld us", sr.ssrc, static_cast<long long>(sr.time));
            const auto& p = passed[i];
            i += 1;
            PBT_CHECK(ctx, p.ssrc == sr.ssrc && p.sr.ntp.seconds == sr.ntp >> 32 && p.sr.ntp.fraction == static_cast<uint32_t>(sr.ntp) && p.sr.rtp == sr.rtp && p.sr.packet_count == sr.packets && p.sr.octet_count == sr.octets, "sender report",
                "source %u: %08x %08x %u %u %u", p.ssrc, p.sr.ntp.seconds, p.sr.ntp.fraction, p.sr.rtp, p.sr.packet_count, p.sr.octet_count);
            PBT_CHECK(ctx, p.time >= sr.time && p.time <= sr.time + 3000, "time of a sender report", "%lld us after it came", static_cast<long long>(p.time - sr.time));
            const auto when = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - p.sr.when).count();
            const auto ago = sim::nowMicros() - p.time;
            PBT_CHECK(ctx, std::abs(when - ago) <= 2000, "time of a sender report", "%lld us ago, it came %lld us ago", static_cast<long long>(when), static_cast<long long>(ago));
        }
        PBT_CHECK(ctx, i == passed.size(), "sender report never sent", "%zu passed on, %zu sent", passed.size(), i);
    }

    // Key frames are asked for
    struct Pli {
        int64_t time;
        uint32_t ssrc;
    };
    std::vector<Pli> plis;
    struct Rr {
        int64_t time;
        uint32_t ssrc, highest;
    };
    std::vector<Rr> rrs;
    std::map<uint32_t, std::set<uint32_t>> requested;
    for (const auto& c : d.peer.rtcp) {
        std::string error;
        for (const auto& r : rig::splitRtcp(c.data, error)) {
            if (r.type == 206) {
                PBT_CHECK(ctx, r.count == 1 && r.body.size() == 4, "payload feedback", "format %u, %zu bytes", r.count, r.body.size());
                plis.push_back({ c.time - delay, rig::be32(&r.body[0]) });
            } else if (r.type == 201) {
                PBT_CHECK(ctx, r.body.size() == 24 * r.count, "receiver report", "%u blocks, %zu bytes", r.count, r.body.size());
                for (size_t i = 0; i < r.count; i += 1)
                    rrs.push_back({ c.time - delay, rig::be32(&r.body[24 * i]), rig::be32(&r.body[24 * i + 8]) });
            }
        }
    }
    for (const auto& p : plis)
        ctx.note("%lld us: key frame of %u is asked for", static_cast<long long>(p.time), p.ssrc);
    for (const auto& [ssrc, st] : streams) {
        const auto video = st.track->getMediaType() == srtc::MediaType::Video;
        std::vector<int64_t> times, wanted;
        for (const auto& p : plis) {
            PBT_CHECK(ctx, streams.count(p.ssrc), "key frame of an unknown source", "%u", p.ssrc);
            if (p.ssrc == ssrc)
                times.push_back(p.time);
        }
        for (const auto& a : demands)
            if (a.second == ssrc)
                wanted.push_back(a.first);
        if (!video || !o.pli) {
            PBT_CHECK(ctx, times.empty(), "key frame of a source without them", "%zu times", times.size());
            continue;
        }
        // Each demand has its own
        std::vector<bool> used(times.size());
        for (const auto w : wanted) {
            size_t i = 0;
            while (i < times.size() && (used[i] || times[i] < w))
                i += 1;
            PBT_CHECK(ctx, i < times.size() && times[i] <= w + 5000, "demand for a key frame isn't sent", "at %lld us, %lld us later", static_cast<long long>(w), static_cast<long long>(i < times.size() ? times[i] - w : -1));
            used[i] = true;
        }
        // And what is left is regular
        const auto interval = std::clamp<int64_t>(s.pliMillis, 500, 4000) * 1000;
        std::vector<int64_t> rest;
        for (size_t i = 0; i < times.size(); i += 1)
            if (!used[i])
                rest.push_back(times[i]);
        if (s.pliMillis == 0) {
            PBT_CHECK(ctx, rest.empty(), "key frame nobody wanted", "%zu times", rest.size());
            continue;
        }
        // A regular one and a demand at the same time can't be told apart, so it's any of those near
        int64_t due = connected;
        size_t n = 0;
        while (due <= stop) {
            bool found = false;
            int64_t at = due;
            for (const auto t : times)
                if (std::abs(t - due) <= 20000) {
                    found = true;
                    at = std::abs(t - due) < std::abs(at - due) || at == due ? t : at;
                }
            // The first one may come before the peer has its keys
            PBT_CHECK(ctx, found || (n == 0 && d.peer.early > 0), "key frame isn't asked for", "at %lld us, %zu intervals of %lld us", static_cast<long long>(due), n, static_cast<long long>(interval));
            due += interval;
            n += 1;
        }
        PBT_CHECK(ctx, rest.size() <= n + 1, "key frames asked for", "%zu times in %zu intervals", rest.size(), n);
        ctx.tag("regular requests of key frames");
    }

    // Statistics
    PBT_CHECK(ctx, !stats.empty(), "statistics", "none in %lld us", static_cast<long long>(end - connected));
    PBT_CHECK(ctx, end - stats.back().time < 5020000, "statistics", "no more in %lld us", static_cast<long long>(end - stats.back().time));
    int64_t previous = 0;
    for (size_t i = 0; i < stats.size(); i += 1) {
        const auto& v = stats[i].v;
        const auto t = stats[i].time;
        if (i > 0)
            PBT_CHECK(ctx, std::abs(t - previous - 5000000) < 20000, "time of statistics", "%lld us after the last ones", static_cast<long long>(t - previous));
        previous = t;
        Count packets, bytes, missing;
        for (const auto& a : arrivals)
            if (a.counts && a.time <= t) {
                packets.add(a.time < t - 1000 && !a.maybe);
                bytes.add(a.time < t - 1000 && !a.maybe, a.wire);
            }
        for (const auto& [ssrc, list] : gaps)
            for (const auto& g : list)
                missing.add(g.first < t - 150000);
        PBT_CHECK(ctx, v.frame_count == stats[i].frames, "frames", "%zu, delivered were %zu", v.frame_count, stats[i].frames);
        PBT_CHECK(ctx, v.packet_count >= packets.lo && v.packet_count <= packets.hi, "packets", "%zu, received were %llu", v.packet_count, static_cast<unsigned long long>(packets.hi));
        PBT_CHECK(ctx, v.byte_count >= bytes.lo && v.byte_count <= bytes.hi, "bytes", "%zu, received were %llu", v.byte_count, static_cast<unsigned long long>(bytes.hi));
        PBT_CHECK(ctx, v.packets_lost_percent >= 0 && v.packets_lost_percent <= 100, "lost packets", "%f %%", v.packets_lost_percent);
        ctx.note("%lld us: %zu frames %zu packets %zu bytes, %f %% lost; missing %llu", static_cast<long long>(t), v.frame_count, v.packet_count, v.byte_count, v.packets_lost_percent, static_cast<unsigned long long>(missing.hi));
        if (tidy)
            PBT_CHECK(ctx, v.packets_lost_percent == 0, "lost packets", "%f %%, and none was", v.packets_lost_percent);
        if (plain && o.nack) {
            const auto part = [&](uint64_t n) { return v.packet_count + n ? 100.0 * static_cast<double>(n) / static_cast<double>(v.packet_count + n) : 0.0; };
            PBT_CHECK(ctx, v.packets_lost_percent >= part(missing.lo) - 0.01 && v.packets_lost_percent <= part(missing.hi) + 0.01, "lost packets", "%f %%, they are %f", v.packets_lost_percent, part(missing.hi));
            if (missing.lo)
                ctx.tag("part of lost packets judged");
        }
    }

    // Receiver reports
    size_t judged = 0;
    std::map<uint32_t, std::pair<uint64_t, uint32_t>> last;
    for (const auto& r : rrs) {
        const auto it = streams.find(r.ssrc);
        PBT_CHECK(ctx, it != streams.end(), "report about an unknown source", "%u", r.ssrc);
        std::optional<uint64_t> lo, hi;
        for (const auto& a : arrivals)
            if (a.ssrc == r.ssrc && a.main && a.time <= r.time) {
                hi = std::max(hi.value_or(0), a.seq);
                if (a.time < r.time - 1000 && !a.maybe)
                    lo = std::max(lo.value_or(0), a.seq);
            }
        if (!hi) {
            PBT_CHECK(ctx, r.highest == 0, "highest number", "source %u: %u, and nothing was received", r.ssrc, r.highest);
            continue;
        }
        if (lo != hi)
            continue;
        PBT_CHECK(ctx, (r.highest & 0xffff) == (*hi & 0xffff), "highest number", "source %u at %lld us: %u, it is %u", r.ssrc, static_cast<long long>(r.time), r.highest & 0xffff, static_cast<unsigned>(*hi & 0xffff));
        if (last.count(r.ssrc))
            PBT_CHECK(ctx, r.highest - last[r.ssrc].second == *hi - last[r.ssrc].first, "highest number", "source %u: moved by %u, and should by %llu", r.ssrc, r.highest - last[r.ssrc].second, static_cast<unsigned long long>(*hi - last[r.ssrc].first));
        last[r.ssrc] = { *hi, r.highest };
        judged += 1;
    }
    PBT_CHECK(ctx, rrs.size() >= d.tracks.size() * stats.size(), "receiver reports", "%zu", rrs.size());
    ctx.tagN("highest numbers judged", judged);
    ctx.tagN("sender reports passed on", passed.size());
    ctx.tagN("demands for key frames", demands.size());
    if (retransmitted)
        ctx.tag("retransmissions");
    if (reordered)
        ctx.tag("reordering");
    if (duplicates)
        ctx.tag("duplicates");
    if (judged && !passed.empty() && stats.size() > 0 && frames)
        ctx.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
    return run(argc, argv,
        { "P30",
            "publisher: frames were sent, key frames requested by the peer and sender reports judged; subscriber: frames were delivered, sender reports passed on, and highest numbers judged",
            { "the network between connection and peer has a constant delay", "the virtual clock stands for the steady and the system clock", "frames are published at their presentation times" },
            { { "publisher", 1, publisher }, { "subscriber", 1, subscriber } } });
}
