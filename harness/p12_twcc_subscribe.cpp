// P12: what the subscriber reports of what it received
#include "twcc_ref.h"
#include "rig_setup.h"
#include "sim.h"

#include "srtc/rtcp_packet.h"
#include "srtc/rtp_extension_builder.h"
#include "srtc/rtp_packet.h"
#include "srtc/rtp_responder_twcc.h"
#include "srtc/rtp_std_extensions.h"

#include <set>

using namespace pbt;
using namespace gen;

namespace
{

struct Model {
    int64_t base; // When the responder was created
    std::map<int64_t, std::vector<int64_t>> pending; // Received since the last report: arrival times by number
    std::map<int64_t, std::vector<int64_t>> all;     // All recent ones, for duplicates
    int fbCount = -1;
    int64_t lastReceived = 0;
    unsigned packets = 0, lost = 0, multi = 0;
};

void arrivals(Src& src, Ctx& ctx)
{
    const uint8_t extId = static_cast<uint8_t>(1 + src.draw(13));
    TrackParams tp;
    tp.direction = srtc::Direction::Subscribe;
    tp.ssrc = src.oneOf<uint32_t>({ 0x1111, 0xfffffff0 });
    tp.extensions.add(extId, srtc::RtpStandardExtensions::kExtGoogleTWCC);
    const auto track = makeTrack(tp);

    sim::advanceMicros(src.range(0, 100000));
    srtc::RtpResponderTWCC responder;
    Model m;
    m.base = sim::nowMicros();
    if (src.chance(1, 10)) {
        // Long sessions, where the reference time wraps
        const auto wrap = static_cast<int64_t>(64000) << 24;
        sim::advanceMicros(wrap - src.range(0, 2000000));
        ctx.tag("reference time near its wrap");
    }

    const auto receive = [&](int64_t seq) {
        srtc::RtpExtensionBuilder b;
        b.addU16Value(extId, static_cast<uint16_t>(seq & 0xffff));
        const auto packet = std::make_shared<srtc::RtpPacket>(track, false, 0, static_cast<uint16_t>(seq), 0, 0, b.build(), toBuffer(Bytes{ 1, 2, 3 }));
        responder.onMediaPacket(packet);
        m.pending[seq].push_back(sim::nowMicros());
        m.all[seq].push_back(sim::nowMicros());
        m.packets += 1;
        m.lastReceived = sim::nowMicros();
    };

    const auto report = [&]() {
        const auto list = responder.run(track);
        std::set<int64_t> reported;
        for (const auto& p : list) {
            PBT_CHECK(ctx, p->getPayloadId() == 205 && p->getRC() == 15 && p->getSSRC() == track->getSSRC(), "header", "pt %u fmt %u", p->getPayloadId(), p->getRC());
            const auto& payload = p->getPayload();
            PBT_CHECK(ctx, payload.size() <= 1100, "size", "%zu bytes", payload.size());
            const auto r = twccref::read(payload.data(), payload.size());
            PBT_CHECK(ctx, r.ok, "format", "%s: %s", r.error.c_str(), hex(payload.data(), payload.size()).c_str());
            PBT_CHECK(ctx, r.mediaSsrc == track->getSSRC(), "media source", "%u", r.mediaSsrc);
            PBT_CHECK(ctx, m.fbCount < 0 || r.fbCount == ((m.fbCount + 1) & 0xff), "feedback count", "%u after %d", r.fbCount, m.fbCount);
            m.fbCount = r.fbCount;
            ctx.note("t=%lld us report base=%u count=%zu ref=%u fb=%u (%u runs, %u + %u vectors), %zu bytes", static_cast<long long>(sim::nowMicros()), r.base, r.list.size(),
                     r.refTime, r.fbCount, r.runs, r.vectors1, r.vectors2, payload.size());
            // Place the numbers
            PBT_CHECK(ctx, !m.pending.empty(), "nothing to report", "base %u", r.base);
            const auto first = m.pending.begin()->first;
            const auto anchor = reported.empty() ? first : *reported.rbegin();
            auto seq = anchor + static_cast<int16_t>(r.base - static_cast<uint16_t>(anchor & 0xffff));
            for (const auto& s : r.list) {
                if (s.symbol != 0) {
                    const auto it = m.pending.find(seq);
                    PBT_CHECK(ctx, it != m.pending.end(), "not received", "number %lld (first %lld) is reported as received", static_cast<long long>(seq), static_cast<long long>(first));
                    PBT_CHECK(ctx, s.symbol != 3, "symbol", "reserved symbol");
                    PBT_CHECK(ctx, reported.insert(seq).second, "reported twice", "number %lld", static_cast<long long>(seq));
                    auto good = false;
                    const auto modulo = static_cast<int64_t>(64000) << 24;
                    const auto t = static_cast<int64_t>(r.refTime) * 64000 + s.time * 250;
                    int64_t error = 0;
                    for (const auto a : it->second) {
                        error = ((a - m.base - t) % modulo + modulo) % modulo;
                        if (error > modulo / 2)
                            error -= modulo;
                        good |= error > -250 && error < 250;
                    }
                    PBT_CHECK(ctx, good, "arrival time", "number %lld, %lld us off", static_cast<long long>(seq), static_cast<long long>(error));
                } else {
                    m.lost += 1;
                }
                seq += 1;
            }
        }
        if (!list.empty()) {
            for (const auto& [seq, times] : m.pending)
                PBT_CHECK(ctx, reported.count(seq), "not reported", "number %lld, received at %lld us", static_cast<long long>(seq), static_cast<long long>(times.front()));
            m.pending.clear();
            m.multi += list.size() > 1 ? 1 : 0;
        }
        return !list.empty();
    };

    int64_t next = 0x10000 + src.oneOf<int64_t>({ src.u16(), src.range(65400, 65535), 0 });
    const auto rounds = src.size(1, 8);
    const auto pace = src.pick({ 4, 3, 2, 1 }); // Typical spacing of packets
    const auto lossy = src.pick({ 3, 3, 1 });
    for (size_t round = 0; round < rounds; round += 1) {
        const auto count = src.pick({ 5, 3, 1 });
        auto n = count == 0 ? src.size(0, 40) : count == 1 ? src.size(0, 200) : src.size(200, 1200);
        const auto cheap = n > 200;
        const auto first = m.pending.empty() ? next : std::min(m.pending.begin()->first, next);
        std::vector<std::pair<int64_t, int64_t>> delayed; // Number, when it should have arrived
        for (size_t i = 0; i < n; i += 1) {
            int64_t gap = 1;
            if (lossy && (cheap ? sim::random64() % 16 == 0 : src.chance(1, 6)))
                gap = cheap ? 1 + static_cast<int64_t>(sim::random64() % 5) : lossy == 1 ? src.range(1, 12) : src.range(1, 400);
            if (next + gap - first > 1600)
                break;
            const auto high = m.pending.empty() ? next : m.pending.rbegin()->first;
            if (next + gap - high > 400)
                break;
            const auto dt = cheap ? static_cast<int64_t>(sim::random64() % 3000)
                                  : pace == 0 ? src.range(0, 3000) : pace == 1 ? src.range(0, 20000) : pace == 2 ? src.range(0, 90000)
                                                                                : src.oneOf<int64_t>({ 0, 249, 250, 63750, 63999, 64000, 31750, 8191750, 8192000, 9000000 });
            // After a silence of two seconds a jump forward is taken for a new start
            if (sim::nowMicros() + dt - m.lastReceived >= 2000000 && next + gap - high > 200) {
                continue;
            }
            next += gap - 1;
            sim::advanceMicros(dt);
            if (!cheap && src.chance(1, 12)) {
                delayed.emplace_back(next, sim::nowMicros());
            } else {
                receive(next);
                if (!cheap)
                    ctx.note("t=%lld us received %lld", static_cast<long long>(sim::nowMicros()), static_cast<long long>(next & 0xffff));
            }
            next += 1;
            if (!delayed.empty() && sim::nowMicros() - delayed.back().second > 900000) {
                delayed.pop_back();
            } else if (!delayed.empty() && src.chance(1, 3)) {
                receive(delayed.back().first);
                ctx.note("t=%lld us received %lld late", static_cast<long long>(sim::nowMicros()), static_cast<long long>(delayed.back().first & 0xffff));
                ctx.tag("reordered");
                delayed.pop_back();
            }
            if (!cheap && !m.pending.empty() && src.chance(1, 30)) {
                const auto again = std::prev(m.pending.end())->first;
                receive(again);
                ctx.tag("duplicate");
            }
        }
        if (m.pending.empty() && delayed.empty())
            continue;
        switch (src.pick({ 5, 2, 1 })) {
        case 0:
            sim::advanceMillis(100);
            break;
        case 1:
            break;
        default:
            sim::advanceMillis(src.range(0, 1900));
            break;
        }
        const auto due = !m.pending.empty();
        const auto did = report();
        if (!did && due) {
            // At most every 100 ms
            sim::advanceMillis(100);
            PBT_CHECK(ctx, report(), "no report", "%zu packets received", m.pending.size());
        }
        // Those late for the report
        for (const auto& [seq, when] : delayed) {
            if (sim::nowMicros() - when < 900000 && next - seq < 100 && src.chance(1, 2)) {
                receive(seq);
                ctx.tag("late for the report");
                ctx.note("t=%lld us received %lld after the report", static_cast<long long>(sim::nowMicros()), static_cast<long long>(seq & 0xffff));
            }
        }
    }
    if (m.multi)
        ctx.tag("report in several packets");
    if (m.lost)
        ctx.tagN("packets not received", m.lost);
    if (m.packets > 5 && (m.lost || m.multi || pace >= 2))
        ctx.nontrivial();
}

// A silence, then anything: what is reported as received was received
void jumps(Src& src, Ctx& ctx)
{
    TrackParams tp;
    tp.direction = srtc::Direction::Subscribe;
    tp.extensions.add(3, srtc::RtpStandardExtensions::kExtGoogleTWCC);
    const auto track = makeTrack(tp);
    srtc::RtpResponderTWCC responder;
    std::map<uint16_t, std::vector<int64_t>> got;
    const auto base = sim::nowMicros();
    uint16_t seq = src.u16();
    int fb = -1;
    const auto steps = src.size(2, 40);
    for (size_t i = 0; i < steps; i += 1) {
        const auto n = src.chance(1, 8) ? src.size(1, 700) : src.size(1, 4);
        seq = static_cast<uint16_t>(seq + src.oneOf<int64_t>({ 1, src.range(-700, 700), src.range(-3000, 3000), src.range(-33000, 33000), src.range(250, 260), src.range(510, 515) }));
        for (size_t k = 0; k < n; k += 1) {
            srtc::RtpExtensionBuilder b;
            b.addU16Value(3, seq);
            const auto packet = std::make_shared<srtc::RtpPacket>(track, false, 0, 1, 0, 0, b.build(), toBuffer(Bytes{ 1 }));
            responder.onMediaPacket(packet);
            got[seq].push_back(sim::nowMicros());
            seq += 1;
        }
        ctx.note("t=%lld ms %zu packets up to %u", static_cast<long long>(sim::nowMicros() / 1000), n, seq - 1);
        sim::advanceMillis(src.oneOf<int64_t>({ src.range(0, 30), src.range(0, 200), src.range(1900, 2100), src.range(0, 20000) }));
        if (src.chance(2, 3)) {
            std::set<uint16_t> reported;
            const auto list = responder.run(track);
            if (list.empty())
                continue;
            for (const auto& p : list) {
                const auto& payload = p->getPayload();
                const auto r = twccref::read(payload.data(), payload.size());
                PBT_CHECK(ctx, r.ok, "format", "%s", r.error.c_str());
                PBT_CHECK(ctx, payload.size() <= 1100, "size", "%zu bytes", payload.size());
                PBT_CHECK(ctx, fb < 0 || r.fbCount == ((fb + 1) & 0xff), "feedback count", "%u after %d", r.fbCount, fb);
                fb = r.fbCount;
                for (size_t k = 0; k < r.list.size(); k += 1) {
                    if (r.list[k].symbol == 0)
                        continue;
                    const auto s = static_cast<uint16_t>(r.base + k);
                    const auto it = got.find(s);
                    PBT_CHECK(ctx, it != got.end(), "not received", "number %u is reported as received", s);
                    auto good = false;
                    const auto t = static_cast<int64_t>(r.refTime) * 64000 + r.list[k].time * 250;
                    for (const auto a : it->second)
                        good |= std::abs(a - base - t) < 250;
                    PBT_CHECK(ctx, good, "arrival time", "number %u reported at %lld us", s, static_cast<long long>(t));
                }
                ctx.nontrivial();
            }
            got.clear();
        }
    }
}

// A subscribing connection, whose peer sends media and reads the reports
void connection(Src& src, Ctx& ctx)
{
    using sref::cat;
    using sref::num;
    rig::Duo d(src.chance(1, 2));
    d.peer.profileIndex = src.size(0, 3);
    rig::Spec s;
    s.direction = srtc::Direction::Subscribe;
    s.audio = src.chance(2, 3);
    s.video = !s.audio || src.chance(4, 5);
    s.jitterMillis = src.oneOf<uint16_t>({ 0, static_cast<uint16_t>(src.range(50, 300)) });
    rig::AnswerOptions o;
    o.rtx = src.chance(3, 4);
    o.nack = o.rtx || src.chance(2, 3);
    o.noExtensions = src.chance(1, 12);
    const auto e = d.start(s, o);
    PBT_CHECK(ctx, !e.isError(), "set up", "%s", e.message.c_str());
    const int64_t delay = src.range(1, 60) * 1000;
    d.world.link = [&](const auto&, const auto&, const auto&) { return std::vector<int64_t>{ delay }; };
    std::map<std::string, unsigned> extension; // by media
    for (const auto& m : d.made.info.media)
        for (const auto& x : m.extensions)
            if (x.second == srtc::RtpStandardExtensions::kExtGoogleTWCC)
                extension[m.type] = static_cast<unsigned>(x.first);
    PBT_CHECK(ctx, d.connect(), "connect", "not connected after %lld us", static_cast<long long>(sim::nowMicros()));

    // Numbers and when they arrived, perhaps more than once
    std::map<int64_t, std::vector<int64_t>> arrived;
    std::map<int64_t, size_t> reported;
    std::optional<int64_t> offset; // between the clocks
    std::optional<uint8_t> count;
    size_t reports = 0, retransmissions = 0, refused = 0, missing = 0;
    int64_t lastReport = 0, lastLost = 0;
    const auto modulo = static_cast<int64_t>(64000) << 24;
    d.peer.onRtcp = [&](const rig::DtlsPeer::Rtcp& c) {
        std::string error;
        const auto sent = c.time - delay;
        for (const auto& r : rig::splitRtcp(c.data, error)) {
            if (r.type != 205 || r.count != 15)
                continue;
            const auto f = twccref::read(r.body.data(), r.body.size());
            PBT_CHECK(ctx, f.ok, "format", "%s: %s", f.error.c_str(), hex(r.body.data(), r.body.size()).c_str());
            PBT_CHECK(ctx, !o.noExtensions, "report without the extension", "base %u", f.base);
            PBT_CHECK(ctx, !count || f.fbCount == static_cast<uint8_t>(*count + 1), "feedback count", "%u after %u", f.fbCount, count.value_or(0));
            count = f.fbCount;
            reports += 1;
            lastReport = sent;
            PBT_CHECK(ctx, !arrived.empty(), "nothing to report", "base %u", f.base);
            ctx.note("%lld us: report base %u, %zu numbers", static_cast<long long>(sent), f.base, f.list.size());
            const auto anchor = arrived.rbegin()->first;
            auto seq = anchor + static_cast<int16_t>(f.base - static_cast<uint16_t>(anchor & 0xffff));
            for (const auto& st : f.list) {
                if (st.symbol != 0) {
                    const auto it = arrived.find(seq);
                    PBT_CHECK(ctx, it != arrived.end(), "not received", "number %lld is reported as received", static_cast<long long>(seq & 0xffff));
                    const auto t = static_cast<int64_t>(f.refTime) * 64000 + st.time * 250;
                    auto good = false;
                    int64_t off = 0;
                    for (const auto a : it->second) {
                        if (a > sent)
                            continue;
                        off = (((a - t) % modulo) + modulo) % modulo;
                        if (!offset)
                            offset = off;
                        // The format's precision, and a turn of the thread on either side
                        auto error = (off - *offset + modulo) % modulo;
                        if (error > modulo / 2)
                            error -= modulo;
                        good |= std::abs(error) <= 1000;
                    }
                    PBT_CHECK(ctx, good, "arrival time", "number %lld, %lld us off", static_cast<long long>(seq & 0xffff), static_cast<long long>(off - offset.value_or(0)));
                    reported[seq] += 1;
                }
                seq += 1;
            }
        }
    };

    struct Stream {
        std::shared_ptr<srtc::Track> track;
        uint64_t next, rtxNext;
        uint32_t ts;
        std::deque<std::pair<uint64_t, Bytes>> sent;
    };
    std::vector<Stream> streams;
    for (const auto& t : d.tracks)
        streams.push_back({ t, static_cast<uint64_t>(src.oneOf<int64_t>({ src.range(0, 65535), 65535 - src.range(0, 30) })), static_cast<uint64_t>(src.range(0, 60000)), src.u32() >> 1, {} });
    int64_t next = 0x10000 + src.oneOf<int64_t>({ src.u16(), src.range(65300, 65535), 0 });

    const auto steps = src.size(5, 60);
    std::vector<std::pair<int64_t, std::function<void()>>> late;
    for (size_t step = 0; step < steps; step += 1) {
        const auto burst = src.oneOf<size_t>({ 1, src.size(1, 6), src.size(1, 30) });
        for (size_t i = 0; i < burst; i += 1) {
            auto& st = streams[src.size(0, streams.size() - 1)];
            const auto again = !st.sent.empty() && st.track->getRtxPayloadId() > 0 && src.chance(1, 5);
            const auto number = next;
            next += 1;
            const auto& m = st.track->getMedia();
            const auto id = extension[m->getType() == srtc::MediaType::Video ? "video" : "audio"];
            Bytes ext;
            if (id && !o.noExtensions)
                ext = { 0xbe, 0xde, 0, 1, static_cast<uint8_t>(id << 4 | 1), static_cast<uint8_t>(number >> 8), static_cast<uint8_t>(number), 0 };
            Bytes packet;
            uint64_t index;
            const auto head = static_cast<uint8_t>(ext.empty() ? 0x80 : 0x90);
            if (again) {
                const auto& old = st.sent[src.size(0, st.sent.size() - 1)];
                index = st.rtxNext++;
                packet = cat({ { head, static_cast<uint8_t>(st.track->getRtxPayloadId() | 0x80) }, num(index & 0xffff, 2), num(st.ts, 4), num(st.track->getRtxSSRC(), 4), ext, num(old.first & 0xffff, 2), old.second });
                retransmissions += 1;
            } else {
                index = st.next++;
                st.ts += st.track->getMediaType() == srtc::MediaType::Audio ? 960 : 3000;
                auto payload = src.blob(src.size(2, 200));
                payload[0] = 0x10;
                packet = cat({ { head, static_cast<uint8_t>(st.track->getPayloadId() | 0x80) }, num(index & 0xffff, 2), num(st.ts, 4), num(st.track->getSSRC(), 4), ext, payload });
                st.sent.emplace_back(index, payload);
                if (st.sent.size() > 40)
                    st.sent.pop_front();
            }
            const auto roc = static_cast<uint32_t>(index >> 16);
            const auto send = [&d, &arrived, &ctx, packet, roc, number, again, delay] {
                d.peer.sendRtp(packet, roc);
                arrived[number].push_back(sim::nowMicros() + delay);
                ctx.note("%lld us: sent number %lld%s", static_cast<long long>(sim::nowMicros()), static_cast<long long>(number & 0xffff), again ? ", of a retransmission" : "");
            };
            const auto fate = !again && st.sent.size() == 1 ? 0 : src.pick({ 16, 2, 1, 1 }); // the first one is before a wrap
            if (fate == 0)
                send();
            else if (fate == 1) {
                missing += 1;
                lastLost = number;
            } else if (fate == 2)
                late.emplace_back(sim::nowMicros() + src.range(1000, 80000), send);
            else {
                // Which nobody who knows the key has sent
                const auto keep = std::move(d.peer.world.link);
                d.world.link = [&](const auto&, const auto&, const Bytes& b) {
                    (void)b;
                    return std::vector<int64_t>{};
                };
                d.peer.sendRtp(packet, roc);
                d.world.link = keep;
                auto forged = packet;
                for (int k = 0; k < 16; k += 1)
                    forged.push_back(src.u8());
                d.peer.sendRaw(forged);
                missing += 1;
                refused += 1;
                lastLost = number;
            }
        }
        const auto until = sim::nowMicros() + src.oneOf<int64_t>({ src.range(0, 3000), src.range(0, 30000), src.range(0, 200000), src.range(0, 900000) });
        while (!late.empty()) {
            size_t first = 0;
            for (size_t i = 1; i < late.size(); i += 1)
                if (late[i].first < late[first].first)
                    first = i;
            if (late[first].first > until)
                break;
            d.world.run(late[first].first);
            late[first].second();
            late.erase(late.begin() + static_cast<long>(first));
            ctx.tag("reordered");
        }
        d.world.run(until);
    }
    for (const auto& l : late)
        l.second();
    d.world.runFor(2 * delay + 400000);
    for (const auto& p : d.peer.problems)
        ctx.fail("what the peer saw", "%s", p.c_str());
    if (!o.noExtensions)
        for (const auto& [seq, times] : arrived) {
            PBT_CHECK(ctx, reported.count(seq), "not reported", "number %lld, which arrived at %lld us; last report at %lld us", static_cast<long long>(seq & 0xffff), static_cast<long long>(times.front()), static_cast<long long>(lastReport));
            PBT_CHECK(ctx, reported[seq] == times.size(), "reported twice", "number %lld, %zu times", static_cast<long long>(seq & 0xffff), reported[seq]);
        }
    (void)lastLost;
    if (reports)
        ctx.tagN("reports", reports);
    if (refused)
        ctx.tag("forged packets");
    if (reports > 2 && retransmissions && missing)
        ctx.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
    return run(argc, argv,
               { "P12",
                 "Arrival patterns (spacing, gaps, reordering, duplicates, silences, wraps of numbers and of the reference time) and report times in virtual time; non-trivial: packets were lost, the report took several packets, or the spacing "
                 "exceeds the small delta (arrivals), or there was a report (jumps), or a connection reported several times with packets lost and retransmissions among those received (connection)",
                 { "Facet arrivals: within a report interval numbers span at most 1600 with gaps below 400, packets late for a report are so by less than 100, packets are late by less than a second, and a silence of two seconds isn't followed by a gap of over 200" },
                 { { "arrivals", 12, arrivals }, { "jumps", 3, jumps }, { "connection", 4, connection } } });
}
