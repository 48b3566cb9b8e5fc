// P16: round-trip time derives from reports, whatever order they come in
#include "rig_setup.h"

#include "srtc/receiver_reference_time_reports_history.h"
#include "srtc/sender_reports_history.h"

using namespace pbt;
using namespace gen;
using sref::cat;
using sref::num;

namespace
{

// The histories, against a list of what was sent

template <class History>
void history(Src& src, Ctx& ctx)
{
    History history;
    struct Report {
        srtc::NtpTime ntp;
        int64_t time;
    };
    constexpr size_t kRecent = 16;
    std::vector<uint32_t> ssrcs;
    for (size_t i = src.size(1, 4); i > 0; i -= 1)
        ssrcs.push_back(src.chance(1, 3) ? static_cast<uint32_t>(i) : src.u32());
    std::map<uint32_t, std::deque<Report>> sent;
    std::set<std::pair<uint32_t, uint32_t>> used; // answered before
    std::map<std::pair<uint32_t, uint32_t>, size_t> marks;
    size_t values = 0, nones = 0, longAgo = 0;
    uint64_t ntp = src.oneOf<uint64_t>({ src.u64(), 0xffffffffull << 32, 0xfffful << 48 });
    const auto steps = src.size(1, 60);
    const auto middle = [](const srtc::NtpTime& t) { return t.seconds << 16 | t.fraction >> 16; };
    for (size_t step = 0; step < steps; step += 1) {
        switch (src.pick({ 4, 5, 3 })) {
        case 0: {
            const auto many = src.chance(1, 10) ? src.size(10, 40) : 1;
            const auto ssrc = src.elem(ssrcs);
            for (size_t i = 0; i < many; i += 1) {
                // All of them apart from each other in the middle bits
                const auto us = src.oneOf<int64_t>({ 20, src.range(100, 100000), 5000000, src.range(20, 60000000) });
                sim::advanceMicros(us);
                ntp += (static_cast<uint64_t>(us) << 32) / 1000000;
                srtc::NtpTime t = {};
                t.seconds = static_cast<uint32_t>(ntp >> 32);
                t.fraction = static_cast<uint32_t>(ntp);
                if (marks[{ ssrc, middle(t) }]++)
                    throw Discard();
                for (auto& other : ssrcs) // at times all sources report at the same time
                    if (other == ssrc || src.chance(1, 4)) {
                        if (other != ssrc && marks[{ other, middle(t) }]++)
                            continue;
                        history.save(other, t);
                        sent[other].push_back({ t, sim::nowMicros() });
                    }
            }
            break;
        }
        case 1: {
            // A report comes
            const auto ssrc = src.elem(ssrcs);
            auto& list = sent[ssrc];
            if (list.empty())
                break;
            const auto back = std::min(list.size() - 1, src.oneOf<size_t>({ 0, src.size(0, 3), src.size(0, 20), 15 }));
            const auto& r = list[list.size() - 1 - back];
            const auto elapsed = sim::nowMicros() - r.time;
            const auto whole = elapsed * 65536 / 1000000;
            const auto delay = static_cast<uint32_t>(std::clamp<int64_t>(src.oneOf<int64_t>({ 0, whole, whole + 2, whole - src.range(0, 20000), src.range(0, whole), src.range(0, 0xffffffffll), 0xffffffffll }), 0, 0xffffffffll));
            const auto v = history.calculateRtt(ssrc, middle(r.ntp), delay);
            const auto expected = static_cast<double>(elapsed) / 1000 - delay * 1000.0 / 65536;
            const auto first = used.insert({ ssrc, middle(r.ntp) }).second;
            ctx.note("source %u, report %zu before the last one, %lld us ago, delay %u: %f", ssrc, back, static_cast<long long>(elapsed), delay, v.value_or(-1));
            if (v) {
                // Single precision is what it is given in
                PBT_CHECK(ctx, std::abs(*v - expected) <= 0.01 + std::abs(expected) * 1e-6, "round trip", "%f ms, expected %f", *v, expected);
                PBT_CHECK(ctx, *v >= 0, "round trip", "%f ms", *v);
                PBT_CHECK(ctx, back < 64, "report of long ago", "%zu reports before the last one", back);
                values += 1;
            } else {
                PBT_CHECK(ctx, !first || back >= kRecent || expected < 0.002, "no round trip", "%lld us since report number %zu before the last one, delay of %u/65536 s", static_cast<long long>(elapsed), back, delay);
                nones += 1;
            }
            longAgo += back > 8 ? 1 : 0;
            break;
        }
        default: {
            // One which matches nothing
            const auto ssrc = src.chance(2, 3) ? src.elem(ssrcs) : src.u32();
            uint32_t marker = src.u32();
            if (src.chance(2, 3)) {
                const auto& other = sent[src.elem(ssrcs)];
                if (!other.empty())
                    marker = middle(other[src.size(0, other.size() - 1)].ntp) + static_cast<uint32_t>(src.range(-1, 1));
            }
            if (marks.count({ ssrc, marker }))
                break;
            const auto v = history.calculateRtt(ssrc, marker, src.chance(1, 2) ? 0 : src.u32());
            PBT_CHECK(ctx, !v, "round trip without a report", "source %u marker %08x: %f", ssrc, marker, *v);
            nones += 1;
            break;
        }
        }
        if (src.chance(1, 2)) {
            const auto us = src.oneOf<int64_t>({ 1, src.range(0, 1000), src.range(0, 500000), src.range(0, 20000000) });
            sim::advanceMicros(us);
            ntp += (static_cast<uint64_t>(us) << 32) / 1000000;
        }
    }
    // What is kept does not grow without bound
    if (src.chance(1, 10)) {
        for (size_t i = 0; i < 300; i += 1) {
            sim::advanceMicros(100);
            srtc::NtpTime t = {};
            t.seconds = 5;
            t.fraction = static_cast<uint32_t>((i + 1) << 20);
            history.save(ssrcs[0], t);
        }
        PBT_CHECK(ctx, !history.calculateRtt(ssrcs[0], 5u << 16 | 1u << 4, 0), "reports are kept forever", "one of 300 reports ago was found");
        ctx.tag("300 reports");
    }
    if (values && nones)
        ctx.nontrivial();
    ctx.tagN("round trips", values);
    ctx.note("%zu steps, %zu sources, %zu values, %zu without", steps, ssrcs.size(), values, nones);
}

uint64_t systemNtp()
{
    const auto us = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::system_clock::now().time_since_epoch()).count();
    return (static_cast<uint64_t>(us / 1000000) + 2208988800ull) << 32 | (static_cast<uint64_t>(us % 1000000) << 32) / 1000000;
}

// A whole connection, with a peer which answers its reports
void connection(Src& src, Ctx& ctx)
{
    rig::Duo d(src.chance(1, 2));
    d.peer.profileIndex = src.size(0, 3);
    rig::Spec s;
    const auto publish = src.chance(1, 2);
    s.direction = publish ? srtc::Direction::Publish : srtc::Direction::Subscribe;
    s.audio = src.chance(2, 3);
    s.bwe = src.chance(1, 3);
    if (publish && src.chance(1, 3))
        s.layers = { "lo", "hi" };
    rig::AnswerOptions o;
    o.rids = s.layers;
    const auto e = d.start(s, o);
    PBT_CHECK(ctx, !e.isError(), "set up", "%s", e.message.c_str());
    int64_t delay = src.range(1, 60) * 1000;
    d.world.link = [&](const auto&, const auto&, const auto&) { return std::vector<int64_t>{ delay }; };

    std::vector<std::pair<int64_t, float>> stats;
    d.node->pc->setPublishConnectionStatsListener([&](const srtc::PublishConnectionStats& v) { stats.emplace_back(sim::nowMicros(), v.rtt_ms); });
    d.node->pc->setSubscribeConnectionStatsListener([&](const srtc::SubscribeConnectionStats& v) { stats.emplace_back(sim::nowMicros(), v.rtt_ms); });

    PBT_CHECK(ctx, d.connect(), "connect", "not connected after %lld us", static_cast<long long>(sim::nowMicros()));
    const auto connectDelay = delay;
    delay = src.oneOf<int64_t>({ src.range(1, 20), src.range(1, 200) }) * 1000; // and from now on

    std::map<uint32_t, std::shared_ptr<srtc::Track>> trackOf;
    for (const auto& t : d.tracks)
        trackOf[t->getSSRC()] = t;

    struct Timed {
        uint64_t ntp;
        int64_t time;
        bool seen = false;
    };
    std::map<uint32_t, Timed> mySr, myRrtr;         // sent by the peer, when they arrive there
    std::map<uint32_t, std::deque<Timed>> theirs;   // SR or RRTR, when they were sent
    std::multimap<int64_t, std::function<void()>> later;
    std::vector<int64_t> answers;
    size_t bogus = 0, blocksSeen = 0, dlrr = 0, srs = 0;

    const auto report = [&](uint32_t ssrc, uint32_t marker, int64_t since, bool genuine) {
        // A receiver report, or a report about a reference time
        const auto d65536 = static_cast<uint32_t>(since * 65536 / 1000000);
        Bytes blocks;
        const auto block = [&](uint32_t a, uint32_t b, uint32_t c) {
            return publish ? cat({ num(a, 4), num(src.u32(), 4), num(src.u32(), 4), num(src.u32(), 4), num(b, 4), num(c, 4) }) : cat({ num(a, 4), num(b, 4), num(c, 4) });
        };
        std::vector<Bytes> list;
        if (genuine)
            list.push_back(block(ssrc, marker, d65536));
        for (size_t i = src.pick({ 3, 1, 1 }); i > 0; i -= 1) {
            const auto wrong = src.size(0, 2);
            const auto other = block(wrong == 0 ? ssrc ^ 0x10000u : ssrc, wrong == 1 ? marker ^ (1u << src.size(0, 31)) : wrong == 2 ? 0 : marker, src.u32() >> src.size(0, 31));
            list.insert(list.begin() + static_cast<long>(src.size(0, list.size())), other);
            bogus += 1;
        }
        for (const auto& b : list)
            blocks = cat({ blocks, b });
        if (list.empty())
            return;
        Bytes rtcp;
        if (publish)
            rtcp = cat({ { static_cast<uint8_t>(0x80 | list.size()), 201 }, num(1 + blocks.size() / 4, 2), num(99, 4), blocks });
        else {
            // One block of many items, or one for each
            Bytes xr;
            if (src.chance(1, 2))
                xr = cat({ { 5, 0 }, num(blocks.size() / 4, 2), blocks });
            else
                for (const auto& b : list)
                    xr = cat({ xr, { 5, 0 }, num(3, 2), b });
            if (src.chance(1, 3))
                xr = cat({ { 7, 0 }, num(2, 2), num(1, 4), num(2, 4), xr }); // of another kind
            rtcp = cat({ { 0x80, 207 }, num(1 + xr.size() / 4, 2), num(99, 4), xr });
            if (src.chance(1, 2))
                rtcp = cat({ { 0x80, 201 }, num(1, 2), num(99, 4), rtcp });
        }
        d.peer.sendRtcp(rtcp);
        if (genuine)
            answers.push_back(sim::nowMicros());
    };

    d.peer.onRtcp = [&](const rig::DtlsPeer::Rtcp& p) {
        std::string error;
        const auto list = rig::splitRtcp(p.data, error);
        PBT_CHECK(ctx, error.empty(), "control packet", "%s: %s", error.c_str(), hex(p.data).c_str());
        const auto sentAt = p.time - delay;
        for (const auto& r : list) {
            if (r.type == 200) {
                PBT_CHECK(ctx, publish && trackOf.count(r.ssrc) && r.body.size() == 20, "sender report", "source %u, %zu bytes", r.ssrc, r.body.size());
                const uint64_t ntp = static_cast<uint64_t>(rig::be32(&r.body[0])) << 32 | rig::be32(&r.body[4]);
                const auto actual = static_cast<int64_t>(systemNtp() - ntp) / 4295 - delay; // in microseconds
                PBT_CHECK(ctx, std::abs(actual) <= 2000 + delay / 1000, "time of a sender report", "off by %lld us", static_cast<long long>(actual));
                srs += 1;
                const auto ssrc = r.ssrc;
                const auto marker = static_cast<uint32_t>(ntp >> 16);
                const auto got = sim::nowMicros();
                if (src.chance(1, 6)) {
                    // Only wrong ones
                    report(ssrc, marker, 0, false);
                    continue;
                }
                if (src.chance(1, 8))
                    continue; // as if it was lost
                const auto wait = src.oneOf<int64_t>({ 0, src.range(0, 1000000), src.range(0, 4000000) });
                later.emplace(got + wait, [&, ssrc, marker, got] { report(ssrc, marker, sim::nowMicros() - got, true); });
            } else if (r.type == 207) {
                for (size_t at = 0; at < r.body.size();) {
                    PBT_CHECK(ctx, at + 4 <= r.body.size(), "extended report", "%s", hex(r.body).c_str());
                    const size_t words = rig::be16(&r.body[at + 2]);
                    const auto type = r.body[at];
                    at += 4;
                    PBT_CHECK(ctx, at + 4 * words <= r.body.size(), "extended report", "%s", hex(r.body).c_str());
                    if (type == 4) {
                        PBT_CHECK(ctx, !publish && words == 2, "reference time", "%zu words", words);
                        const uint64_t ntp = static_cast<uint64_t>(rig::be32(&r.body[at])) << 32 | rig::be32(&r.body[at + 4]);
                        const auto actual = static_cast<int64_t>(systemNtp() - ntp) / 4295 - delay;
                        PBT_CHECK(ctx, std::abs(actual) <= 2000 + delay / 1000, "reference time", "off by %lld us", static_cast<long long>(actual));
                        const auto ssrc = r.ssrc;
                        const auto marker = static_cast<uint32_t>(ntp >> 16);
                        const auto got = sim::nowMicros();
                        srs += 1;
                        if (src.chance(1, 6)) {
                            report(ssrc, marker, 0, false);
                        } else if (!src.chance(1, 8)) {
                            const auto wait = src.oneOf<int64_t>({ 0, src.range(0, 1000000), src.range(0, 4000000) });
                            later.emplace(got + wait, [&, ssrc, marker, got] { report(ssrc, marker, sim::nowMicros() - got, true); });
                        }
                    } else if (type == 5) {
                        PBT_CHECK(ctx, publish && words % 3 == 0, "answer to reference times", "%zu words", words);
                        for (size_t i = 0; i < words; i += 3) {
                            const auto ssrc = rig::be32(&r.body[at + 4 * i]);
                            const auto lrr = rig::be32(&r.body[at + 4 * i + 4]);
                            const auto value = rig::be32(&r.body[at + 4 * i + 8]);
                            const auto it = myRrtr.find(ssrc);
                            PBT_CHECK(ctx, it != myRrtr.end(), "answer to a reference time never sent", "source %u", ssrc);
                            PBT_CHECK(ctx, !it->second.seen, "a reference time is answered twice", "source %u", ssrc);
                            it->second.seen = true;
                            PBT_CHECK(ctx, lrr == static_cast<uint32_t>(it->second.ntp >> 16), "answer to another reference time", "source %u: %08x, the last one is %08x", ssrc, lrr, static_cast<uint32_t>(it->second.ntp >> 16));
                            const auto expected = sentAt - it->second.time;
                            const auto given = static_cast<int64_t>(value) * 1000000 / 65536;
                            PBT_CHECK(ctx, std::abs(expected - given) <= 2000, "delay in the answer to a reference time", "%lld us, it came %lld us ago", static_cast<long long>(given), static_cast<long long>(expected));
                            dlrr += 1;
                        }
                    }
                    at += 4 * words;
                }
            } else if (r.type == 201) {
                PBT_CHECK(ctx, r.body.size() == 24 * r.count, "receiver report", "%u blocks in %zu bytes", r.count, r.body.size());
                for (size_t i = 0; i < r.count; i += 1) {
                    const auto* b = &r.body[24 * i];
                    const auto ssrc = rig::be32(b);
                    PBT_CHECK(ctx, trackOf.count(ssrc), "report about an unknown source", "%u", ssrc);
                    const auto lsr = rig::be32(b + 16), value = rig::be32(b + 20);
                    const auto it = mySr.find(ssrc);
                    if (it == mySr.end() || it->second.time > sentAt) {
                        PBT_CHECK(ctx, lsr == 0 && value == 0, "report without a sender report", "%08x %u", lsr, value);
                        continue;
                    }
                    PBT_CHECK(ctx, lsr == static_cast<uint32_t>(it->second.ntp >> 16), "last sender report", "source %u: %08x, the last one is %08x", ssrc, lsr, static_cast<uint32_t>(it->second.ntp >> 16));
                    const auto expected = sentAt - it->second.time;
                    const auto given = static_cast<int64_t>(value) * 1000000 / 65536;
                    PBT_CHECK(ctx, std::abs(expected - given) <= 2000, "delay since the last sender report", "%lld us, it came %lld us ago", static_cast<long long>(given), static_cast<long long>(expected));
                    blocksSeen += 1;
                }
            }
        }
    };

    const auto flood = publish && src.chance(1, 10);
    const auto start = sim::nowMicros();
    const auto end = start + src.range(2, 6) * 5000000 + 500000;
    size_t rrtrSent = 0;
    while (sim::nowMicros() < end) {
        auto until = std::min(end, sim::nowMicros() + src.oneOf<int64_t>({ 10000, src.range(0, 1000000), src.range(0, 3000000) }));
        while (!later.empty() && later.begin()->first <= until) {
            d.world.run(later.begin()->first);
            const auto f = later.begin()->second;
            later.erase(later.begin());
            f();
        }
        d.world.run(until);
        // Something of the peer's own, well before the next reports, so that it's known which one they answer
        const auto phase = (sim::nowMicros() - start) % 5000000;
        if (phase < 1000000 || phase > 4000000)
            continue;
        if (publish) {
            const auto n = flood ? src.size(1, 60) : src.pick({ 1, 2, 1 });
            for (size_t i = 0; i < n; i += 1) {
                const auto ssrc = flood ? src.u32() : 50 + static_cast<uint32_t>(src.size(0, 5));
                const auto ntp = src.u64();
                d.peer.sendRtcp(cat({ { 0x80, 207 }, num(4, 2), num(ssrc, 4), { 4, 0 }, num(2, 2), num(ntp, 8) }));
                myRrtr[ssrc] = { ntp, sim::nowMicros() + delay };
                rrtrSent += 1;
            }
        } else {
            const auto& t = src.elem(d.tracks);
            const auto ntp = src.u64() | 0x10000u;
            const auto ssrc = src.chance(1, 8) ? 77 : t->getSSRC(); // 77 isn't one of theirs
            d.peer.sendRtcp(cat({ { 0x80, 200 }, num(6, 2), num(ssrc, 4), num(ntp, 8), num(src.u32(), 4), num(1, 4), num(1, 4) }));
            mySr[ssrc] = { ntp, sim::nowMicros() + delay };
        }
    }
    for (const auto& p : d.peer.problems)
        ctx.fail("what the peer saw", "%s", p.c_str());
    PBT_CHECK(ctx, !stats.empty() && srs >= 2, "reports", "%zu statistics and %zu reports in %lld us", stats.size(), srs, static_cast<long long>(end - start));

    size_t judged = 0;
    for (const auto& [time, rtt] : stats) {
        // From control packets when one came in the last five seconds, otherwise from ICE
        bool recent = false, maybe = false;
        for (const auto a : answers) {
            recent = recent || (a + delay < time - 1000 && a + delay > time - 4900000);
            maybe = maybe || (a + delay < time + 1000 && a + delay > time - 5100000);
        }
        const auto now = 2 * delay / 1000.0, before = 2 * connectDelay / 1000.0;
        const auto is = [&](double v) { return std::abs(rtt - v) <= 1.0 + v / 1000; };
        ctx.note("%lld us: round trip of %f ms, expected %f%s", static_cast<long long>(time), rtt, now, recent ? "" : maybe ? " perhaps" : " from ICE, or nothing");
        if (recent) {
            PBT_CHECK(ctx, is(now), "round trip", "%f ms, it is %f (%f when connecting)", rtt, now, before);
            judged += 1;
        } else {
            const auto lo = std::min(now, before), hi = std::max(now, before);
            PBT_CHECK(ctx, rtt <= 0 || (rtt >= lo - 1 - lo / 1000 && rtt <= hi + 1 + hi / 1000), "round trip without reports", "%f ms, it is %f (%f when connecting)", rtt, now, before);
        }
    }
    if (flood)
        PBT_CHECK(ctx, dlrr <= rrtrSent && dlrr <= 25 * (srs + 1), "answers to reference times", "%zu for %zu", dlrr, rrtrSent);
    ctx.tag(publish ? "publish" : "subscribe");
    if (judged)
        ctx.tag("round trip judged");
    if (bogus)
        ctx.tag("reports which match nothing");
    ctx.tagN("delays in receiver reports", blocksSeen);
    ctx.tagN("delays in DLRR", dlrr);
    if (judged && (bogus || blocksSeen || dlrr))
        ctx.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
    return run(argc, argv,
        { "P16",
            "histories: both values and reports without one; connection: a round trip was judged, and there were reports which match nothing, or delays in reports to judge",
            { "reports of a source are at least 20 us apart", "the virtual clock stands for the steady and the system clock", "a round trip reported without any recent report comes from ICE" },
            { { "sender reports", 3, history<srtc::SenderReportsHistory> }, { "reference times", 2, history<srtc::ReceiverReferenceTimeReportsHistory> }, { "connection", 5, connection } } });
}
