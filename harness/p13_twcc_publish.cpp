// P13: what the publisher makes of congestion feedback
#include "twcc_ref.h"
#include "rig_setup.h"
#include "sim.h"

#include "srtc/event_loop.h"
#include "srtc/rtp_extension_builder.h"
#include "srtc/rtp_extension_source_twcc.h"
#include "srtc/rtp_packet.h"
#include "srtc/rtp_std_extensions.h"

#include <cmath>
#include <set>

using namespace pbt;
using namespace gen;

namespace
{

constexpr size_t kHistory = 2048;

struct Sent {
    int64_t number;
    size_t size, padding;
    int64_t arrival = -1; // 250 us units, by the clock of the other side
    int64_t arrivesAt = -1; // Our clock, microseconds
    bool reported = false; // As received
    unsigned nacks = 0;
    std::shared_ptr<srtc::RtpPacket> packet;
};

class Publisher
{
public:
    explicit Publisher(bool audio)
        : scheduler(std::make_shared<srtc::LoopScheduler>())
        , source(std::make_shared<srtc::RtpExtensionSourceTWCC>(scheduler))
    {
        TrackParams tp;
        tp.codec = audio ? Codec::Opus : Codec::H264;
        tp.extensions.add(5, srtc::RtpStandardExtensions::kExtGoogleTWCC);
        track = makeTrack(tp);
    }

    // A negative number: the library numbers the packet
    std::shared_ptr<srtc::RtpPacket> send(int64_t number, size_t size, size_t padding)
    {
        srtc::RtpExtensionBuilder b;
        b.addU16Value(5, number < 0 ? 0 : static_cast<uint16_t>(number));
        Bytes payload(size, 0x41);
        const auto packet = std::make_shared<srtc::RtpPacket>(track, false, 0, 1, 0, static_cast<uint8_t>(padding), b.build(), toBuffer(payload));
        if (number < 0)
            source->onBeforeGeneratingRtpPacket(packet);
        source->onBeforeSendingRtpPacket(packet, size + padding + 12, size + padding + 28);
        return packet;
    }

    void feedback(const Bytes& data)
    {
        // An exact copy, so that reads past the end are seen
        const std::vector<uint8_t> copy(data);
        srtc::ByteReader reader(copy.data(), copy.size());
        source->onReceivedRtcpPacket(0x1111, reader);
    }

    srtc::PublishConnectionStats stats() const
    {
        srtc::PublishConnectionStats s;
        source->updatePublishConnectionStats(s);
        return s;
    }

    std::shared_ptr<srtc::LoopScheduler> scheduler;
    std::shared_ptr<srtc::RtpExtensionSourceTWCC> source;
    std::shared_ptr<srtc::Track> track;
};

void checkRange(Ctx& ctx, Publisher& p)
{
    const auto s = p.stats();
    PBT_CHECK(ctx, std::isfinite(s.packets_lost_percent) && s.packets_lost_percent >= 0 && s.packets_lost_percent <= 100, "loss out of range", "%f", s.packets_lost_percent);
    PBT_CHECK(ctx, std::isfinite(s.bandwidth_actual_kbit_per_second) && s.bandwidth_actual_kbit_per_second >= 0, "bandwidth out of range", "%f", s.bandwidth_actual_kbit_per_second);
    PBT_CHECK(ctx, std::isfinite(s.bandwidth_suggested_kbit_per_second) && s.bandwidth_suggested_kbit_per_second >= 0.89f * s.bandwidth_actual_kbit_per_second,
              "suggestion out of range", "%f, actual %f", s.bandwidth_suggested_kbit_per_second, s.bandwidth_actual_kbit_per_second);
    std::vector<std::shared_ptr<srtc::RtpPacket>> list;
    list.push_back(std::make_shared<srtc::RtpPacket>(p.track, false, 0, 1, 0, 0, toBuffer(Bytes(1000, 1))));
    const auto spread = p.source->getPacingSpreadMillis(list, 1.2f, 7);
    PBT_CHECK(ctx, spread == 7 || (spread >= 10 && spread <= 60), "spread out of range", "%u ms", spread);
}

// The same reports in different encodings give the same figures
void encodings(Src& src, Ctx& ctx)
{
    Publisher a(false), b(false);
    std::vector<Sent> sent;
    const auto start = src.oneOf<int64_t>({ src.u16(), src.range(65300, 65535), 1 });
    int64_t next = start, reportFrom = start;
    // The clock of the receiver
    const auto wrap = static_cast<int64_t>(256) << 24;
    const auto clock = src.oneOf<int64_t>({ src.range(0, 100000), wrap - src.range(0, 10000), src.range(0, wrap) });
    const auto rounds = src.size(1, 30);
    const auto loss = src.pick({ 2, 2, 1 });
    const auto jitter = src.oneOf<int64_t>({ 0, 3000, 80000 });
    const auto interval = src.oneOf<int64_t>({ 2000, 8000, 30000 });
    uint8_t fb = src.u8();
    unsigned forms = 0;
    for (size_t round = 0; round < rounds; round += 1) {
        const auto n = src.size(1, 25);
        for (size_t i = 0; i < n; i += 1) {
            sim::advanceMicros(src.range(0, interval * 2));
            Sent s;
            s.number = next;
            s.size = src.size(50, 1100);
            s.padding = src.chance(1, 3) ? src.size(1, 255) : 0;
            s.packet = a.send(next, s.size, s.padding);
            b.send(next, s.size, s.padding);
            if (!(loss && src.chance(loss, 10))) {
                s.arrivesAt = sim::nowMicros() + src.range(0, jitter);
                s.arrival = clock + s.arrivesAt / 250;
            }
            sent.push_back(s);
            next += 1;
        }
        if (src.chance(1, 3))
            sim::advanceMillis(src.range(0, 200));
        const auto now = sim::nowMicros();
        // Those which have arrived by now, from some number on
        auto from = reportFrom;
        if (src.chance(1, 5))
            from -= std::min<int64_t>(src.range(0, 30), from - start);
        int64_t last = -1;
        for (const auto& s : sent) {
            if (s.number >= from && s.arrivesAt >= 0 && s.arrivesAt <= now)
                last = s.number;
        }
        if (last < 0)
            continue;
        std::vector<int64_t> times;
        for (auto number = from; number <= last; number += 1) {
            const auto& s = sent[static_cast<size_t>(number - start)];
            times.push_back(s.arrivesAt >= 0 && s.arrivesAt <= now ? s.arrival : -1);
        }
        reportFrom = last + 1;
        std::string howA, howB;
        const auto fa = twccref::write(src, static_cast<uint16_t>(from), times, fb, 0, &howA);
        const auto fbb = twccref::write(src, static_cast<uint16_t>(from), times, fb, 2, &howB);
        fb += 1;
        forms += howA != howB ? 1 : 0;
        a.feedback(fa);
        b.feedback(fbb);
        checkRange(ctx, a);
        const auto sa = a.stats(), sb = b.stats();
        ctx.note("t=%lld ms reported %zu from %lld as %s / %s: loss %.3f / %.3f %%, bandwidth %.1f / %.1f", static_cast<long long>(now / 1000), times.size(),
                 static_cast<long long>(from & 0xffff), howA.c_str(), howB.c_str(), sa.packets_lost_percent, sb.packets_lost_percent, sa.bandwidth_actual_kbit_per_second,
                 sb.bandwidth_actual_kbit_per_second);
        PBT_CHECK(ctx, sa.packets_lost_percent == sb.packets_lost_percent, "loss depends on the encoding", "%f and %f %%", sa.packets_lost_percent, sb.packets_lost_percent);
        PBT_CHECK(ctx, sa.bandwidth_actual_kbit_per_second == sb.bandwidth_actual_kbit_per_second, "bandwidth depends on the encoding", "%f and %f",
                  sa.bandwidth_actual_kbit_per_second, sb.bandwidth_actual_kbit_per_second);
        PBT_CHECK(ctx, sa.bandwidth_suggested_kbit_per_second == sb.bandwidth_suggested_kbit_per_second, "suggestion depends on the encoding", "%f and %f",
                  sa.bandwidth_suggested_kbit_per_second, sb.bandwidth_suggested_kbit_per_second);
        if (sa.bandwidth_actual_kbit_per_second > 0 && howA != howB)
            ctx.nontrivial();
    }
    (void)forms;
}

struct Steady {
    Publisher& p;
    Src& src;
    Ctx& ctx;
    bool ownNumbers;
    int64_t start, next, reportFrom;
    int64_t clock;
    uint8_t fb = 0;
    std::vector<Sent> sent;
    double lossMin = 1e9, lossMax = -1e9;
    unsigned late = 0, lost = 0, nacked = 0;

    Steady(Publisher& p, Src& src, Ctx& ctx)
        : p(p)
        , src(src)
        , ctx(ctx)
    {
        ownNumbers = src.chance(1, 2);
        start = ownNumbers ? src.oneOf<int64_t>({ src.u16(), src.range(64500, 65535), src.range(0, 40) }) : 1;
        next = start;
        reportFrom = start;
        const auto wrap = static_cast<int64_t>(256) << 24;
        clock = src.oneOf<int64_t>({ src.range(0, 100000), wrap - src.range(0, 20000), src.range(0, wrap) });
    }

    void send(size_t size, size_t padding, int64_t delay, bool lose)
    {
        Sent s;
        s.number = next;
        s.size = size;
        s.padding = padding;
        s.packet = p.send(ownNumbers ? next & 0xffff : -1, size, padding);
        if (!ownNumbers) {
            const auto got = p.source->getFeedbackSeq(s.packet);
            PBT_CHECK(ctx, got.has_value() && *got == (next & 0xffff), "numbering", "packet %lld has number %d", static_cast<long long>(next), got.has_value() ? *got : -1);
        }
        if (!lose) {
            s.arrivesAt = sim::nowMicros() + delay;
            s.arrival = clock + s.arrivesAt / 250;
        } else {
            lost += 1;
        }
        sent.push_back(s);
        next += 1;
    }

    // Everything that has arrived
    void report(unsigned freedom)
    {
        const auto now = sim::nowMicros();
        int64_t last = -1, first = -1;
        for (size_t i = sent.size() > 4000 ? sent.size() - 4000 : 0; i < sent.size(); i += 1) {
            auto& s = sent[i];
            if (!s.reported && s.arrivesAt >= 0 && s.arrivesAt <= now) {
                if (first < 0)
                    first = s.number;
                last = s.number;
            }
        }
        if (last < 0)
            return;
        if (first < reportFrom)
            late += 1;
        first = std::min(first, std::max(reportFrom, start));
        std::vector<int64_t> times;
        for (auto number = first; number <= last; number += 1) {
            auto& s = sent[static_cast<size_t>(number - start)];
            const auto arrived = s.arrivesAt >= 0 && s.arrivesAt <= now;
            // As a receiver does which forgets what it has reported
            times.push_back(arrived && (!s.reported || number >= reportFrom) ? s.arrival : -1);
            s.reported |= arrived;
        }
        reportFrom = std::max(reportFrom, last + 1);
        p.feedback(twccref::write(src, static_cast<uint16_t>(first), times, fb, freedom));
        fb += 1;
        measure();
    }

    void measure()
    {
        const auto from = sent.size() > kHistory ? sent.size() - kHistory : 0;
        size_t most = 0;
        auto any = false;
        for (auto i = from; i < sent.size(); i += 1) {
            if (sent[i].reported) {
                most = i;
                any = true;
            }
        }
        if (!any)
            return;
        double missing = 0, nacks = 0;
        for (auto i = from; i < sent.size(); i += 1) {
            if (i < most && !sent[i].reported)
                missing += 1;
            nacks += sent[i].nacks;
        }
        const auto percent = std::min(100.0, 100.0 * std::max(missing, nacks) / static_cast<double>(sent.size() - from));
        lossMin = std::min(lossMin, percent);
        lossMax = std::max(lossMax, percent);
    }
};

void steady(Src& src, Ctx& ctx)
{
    Publisher p(false);
    Steady st(p, src, ctx);
    const auto interval = src.oneOf<int64_t>({ src.range(4000, 30000), src.range(1000, 5000), 20000 });
    const auto size = src.size(100, 1100);
    const auto lossPercent = src.oneOf<unsigned>({ 0, 0, 2, 8, 30 });
    const auto delay = src.range(0, 300000);
    const auto jitter = src.oneOf<int64_t>({ 0, 2000, 15000 });
    const auto freedom = static_cast<unsigned>(src.draw(2));
    const auto reportEvery = src.oneOf<int64_t>({ 100000, 50000, 200000 });
    const auto latePercent = src.oneOf<unsigned>({ 0, 0, 3 });
    const auto nackPercent = src.oneOf<unsigned>({ 0, 0, 2, 20 });
    const auto seconds = src.range(2, interval < 4000 ? 4 : 9);
    ctx.note("%zu bytes every %lld us for %lld s, loss %u %%, nacks %u %%, delay %lld us, jitter %lld us, late %u %%, first number %lld, encoding %u", size,
             static_cast<long long>(interval), static_cast<long long>(seconds), lossPercent, nackPercent, static_cast<long long>(delay), static_cast<long long>(jitter), latePercent,
             static_cast<long long>(st.start), freedom);
    sim::seedRandom(src.u32());
    const auto begin = sim::nowMicros();
    auto reportAt = begin + reportEvery;
    double expected = 0;
    while (sim::nowMicros() - begin < seconds * 1000000 + delay) {
        const auto lose = sim::random64() % 100 < lossPercent;
        auto d = delay + (jitter ? static_cast<int64_t>(sim::random64() % static_cast<uint64_t>(jitter)) : 0);
        if (latePercent && sim::random64() % 100 < latePercent)
            d += 150000;
        st.send(size, 0, d, lose);
        if (nackPercent && sim::random64() % 100 < nackPercent && st.sent.size() > 5) {
            auto& s = st.sent[st.sent.size() - 1 - sim::random64() % 5];
            p.source->onPacketWasNacked(s.packet);
            s.nacks += 1;
            st.nacked += 1;
            // Nacks count at once, but only show with the next feedback
        }
        sim::advanceMicros(interval);
        if (sim::nowMicros() >= reportAt) {
            st.report(freedom);
            reportAt += reportEvery;
            checkRange(ctx, p);
        }
    }
    const auto s = p.stats();
    expected = 1000000.0 / static_cast<double>(interval) * static_cast<double>(size) * 8 / 1024 * (1 - lossPercent / 100.0);
    ctx.note("bandwidth %.1f, expected %.1f; loss %.3f, expected within %.3f and %.3f; suggested %.1f", s.bandwidth_actual_kbit_per_second, expected, s.packets_lost_percent,
             st.lossMin, st.lossMax, s.bandwidth_suggested_kbit_per_second);
    const auto enough = 1000000 / interval * (seconds - 1) >= 60;
    if (!enough)
        return;
    const auto tolerance = lossPercent >= 8 ? 0.35 : 0.12;
    PBT_CHECK(ctx, std::abs(s.bandwidth_actual_kbit_per_second - expected) <= tolerance * expected, "bandwidth", "%.1f, expected %.1f kbit/s", s.bandwidth_actual_kbit_per_second,
              expected);
    PBT_CHECK(ctx, s.packets_lost_percent >= st.lossMin - 0.01 && s.packets_lost_percent <= st.lossMax + 0.01, "loss", "%.3f %%, expected within %.3f and %.3f", s.packets_lost_percent,
              st.lossMin, st.lossMax);
    if (jitter == 0 && latePercent == 0) {
        // Nothing queues up, nothing is probed
        const auto f = s.packets_lost_percent >= 10 ? 0.9f : 1.0f;
        PBT_CHECK(ctx, std::abs(s.bandwidth_suggested_kbit_per_second - f * s.bandwidth_actual_kbit_per_second) <= 0.001f * s.bandwidth_actual_kbit_per_second, "suggestion",
                  "%.1f, actual %.1f, loss %.2f", s.bandwidth_suggested_kbit_per_second, s.bandwidth_actual_kbit_per_second, s.packets_lost_percent);
    }
    // Old figures aren't shown
    sim::advanceMillis(3100);
    const auto old = p.stats();
    PBT_CHECK(ctx, old.bandwidth_actual_kbit_per_second == 0 && old.packets_lost_percent == 0, "stale figures", "%f kbit/s, %f %%", old.bandwidth_actual_kbit_per_second,
              old.packets_lost_percent);
    if (st.late)
        ctx.tag("reported late");
    if (st.lost)
        ctx.tag("loss");
    if (st.nacked)
        ctx.tag("nacks");
    if (st.sent.size() > kHistory)
        ctx.tag("more than the history");
    if (st.start % 65536 + static_cast<int64_t>(st.sent.size()) > 65536)
        ctx.tag("numbers wrap");
    if (st.lost || st.late || st.nacked)
        ctx.nontrivial();
}

// Padding is added for a second, the suggestion follows what got through
void probing(Src& src, Ctx& ctx)
{
    Publisher p(false);
    Steady st(p, src, ctx);
    const auto interval = src.range(4000, 25000);
    const auto size = src.size(300, 1000);
    const auto padding = src.size(30, 200);
    const auto lossPercent = src.oneOf<unsigned>({ 0, 0, 2 });
    const auto delay = src.range(0, 200000);
    const auto freedom = static_cast<unsigned>(src.draw(2));
    ctx.note("%zu bytes every %lld us, padding %zu, loss %u %%, delay %lld us", size, static_cast<long long>(interval), padding, lossPercent, static_cast<long long>(delay));
    sim::seedRandom(src.u32());
    const auto begin = sim::nowMicros();
    auto reportAt = begin + 100000;
    const auto end = 6000000 + delay;
    while (sim::nowMicros() - begin < end) {
        const auto t = sim::nowMicros() - begin;
        st.send(size, t >= 3000000 && t < 4100000 ? padding : 0, delay, sim::random64() % 100 < lossPercent);
        sim::advanceMicros(interval);
        if (sim::nowMicros() >= reportAt) {
            st.report(freedom);
            reportAt += 100000;
            checkRange(ctx, p);
        }
    }
    const auto s = p.stats();
    const auto rate = 1000000.0 / static_cast<double>(interval) * 8 / 1024;
    const auto actual = rate * static_cast<double>(size), probe = rate * static_cast<double>(size + padding);
    ctx.note("actual %.1f (%.1f), suggested %.1f (%.1f)", s.bandwidth_actual_kbit_per_second, actual, s.bandwidth_suggested_kbit_per_second, probe);
    PBT_CHECK(ctx, std::abs(s.bandwidth_actual_kbit_per_second - actual) <= 0.12 * actual, "bandwidth", "%.1f, expected %.1f kbit/s", s.bandwidth_actual_kbit_per_second, actual);
    PBT_CHECK(ctx, std::abs(s.bandwidth_suggested_kbit_per_second - probe) <= 0.12 * probe, "probe", "%.1f, expected %.1f kbit/s", s.bandwidth_suggested_kbit_per_second, probe);
    if (padding * 8 > size)
        ctx.nontrivial();
}

// Any bytes; then the figures come right again
void hostile(Src& src, Ctx& ctx)
{
    Publisher p(src.chance(1, 4));
    Steady st(p, src, ctx);
    sim::seedRandom(src.u32());
    const auto before = src.size(0, 60);
    for (size_t i = 0; i < before; i += 1) {
        st.send(500, src.chance(1, 4) ? 100 : 0, 10000, false);
        sim::advanceMillis(20);
    }
    const auto n = src.size(1, 20);
    for (size_t i = 0; i < n; i += 1) {
        Bytes data;
        const auto base = src.oneOf<int64_t>({ st.start, st.next - 20, st.next, src.u16(), 65530 });
        switch (src.pick({ 3, 3, 2 })) {
        case 0:
            data = src.bytes(src.size(0, 40));
            break;
        case 1: { // A header, then anything
            const auto count = src.oneOf<int64_t>({ 1, 20, src.range(0, 100), 65535, src.u16(), 8191 });
            for (const auto v : { base, count, src.oneOf<int64_t>({ 0, src.u16() }), src.range(0, 65535) }) {
                data.push_back(static_cast<uint8_t>(v >> 8));
                data.push_back(static_cast<uint8_t>(v));
            }
            const auto chunks = src.size(0, 10);
            for (size_t k = 0; k < chunks; k += 1) {
                const auto v = src.oneOf<int64_t>({ src.u16(), 0x3fff, 0x2000 | src.range(0, 100), 0x4000 | src.range(0, 100), 0xffff, 0xd555, 0x5fff, 0 });
                data.push_back(static_cast<uint8_t>(v >> 8));
                data.push_back(static_cast<uint8_t>(v));
            }
            const auto more = src.chance(1, 3) ? src.blob(src.size(0, 17000)) : src.bytes(src.size(0, 60));
            data.insert(data.end(), more.begin(), more.end());
            break;
        }
        default: { // A valid one, damaged
            std::vector<int64_t> times;
            const auto count = src.size(1, 40);
            int64_t t = st.clock + src.range(0, 100000);
            for (size_t k = 0; k < count; k += 1) {
                t += src.range(-100, 2000);
                times.push_back(src.chance(1, 4) ? -1 : std::max<int64_t>(0, t));
            }
            data = twccref::write(src, static_cast<uint16_t>(base), times, 0, 2);
            const auto damage = src.size(0, 3);
            for (size_t k = 0; k < damage && !data.empty(); k += 1) {
                if (src.chance(1, 3))
                    data.resize(src.size(0, data.size()));
                else
                    data[src.size(0, data.size() - 1)] = src.u8();
            }
            break;
        }
        }
        ctx.note("feedback %s", hex(data).c_str());
        p.feedback(data);
        checkRange(ctx, p);
        if (src.chance(1, 3)) {
            st.send(500, 0, 10000, false);
            sim::advanceMillis(20);
        }
        if (data.size() >= 12)
            ctx.nontrivial();
    }
    if (!src.chance(1, 6))
        return;
    // Good ones follow: two seconds, then all that is left to filter out
    ctx.tag("followed by valid feedback");
    for (auto& s : st.sent)
        s.reported = true;
    st.reportFrom = st.next;
    const auto interval = 10000;
    auto reportAt = sim::nowMicros() + 100000;
    for (size_t i = 0; i < kHistory + 9000; i += 1) {
        st.send(500, 0, 30000, false);
        sim::advanceMicros(interval);
        if (sim::nowMicros() >= reportAt) {
            st.report(0);
            reportAt += 100000;
        }
    }
    const auto s = p.stats();
    const auto expected = 1000000.0 / interval * 500 * 8 / 1024;
    PBT_CHECK(ctx, std::abs(s.bandwidth_actual_kbit_per_second - expected) <= 0.12 * expected, "bandwidth afterwards", "%.1f, expected %.1f kbit/s", s.bandwidth_actual_kbit_per_second,
              expected);
    PBT_CHECK(ctx, s.packets_lost_percent <= 0.1f, "loss afterwards", "%.3f %%", s.packets_lost_percent);
}

// A publishing connection, whose peer loses packets, says so, and asks for some of them again
void connection(Src& src, Ctx& ctx)
{
    using sref::cat;
    using sref::num;
    rig::Duo d(src.chance(1, 2));
    d.peer.profileIndex = src.size(0, 3);
    rig::Spec s;
    s.bwe = true;
    s.audio = src.chance(1, 2);
    s.rtx = src.chance(1, 2);
    rig::AnswerOptions o;
    o.rtx = s.rtx;
    const auto e = d.start(s, o);
    PBT_CHECK(ctx, !e.isError(), "set up", "%s", e.message.c_str());
    const int64_t delay = src.range(1, 100) * 1000;
    d.world.link = [&](const auto&, const auto&, const auto&) { return std::vector<int64_t>{ delay }; };
    std::optional<srtc::PublishConnectionStats> stats;
    int64_t statsTime = 0;
    d.node->pc->setPublishConnectionStatsListener([&](const srtc::PublishConnectionStats& v) {
        stats = v;
        statsTime = sim::nowMicros();
    });
    unsigned ext = 0;
    for (const auto& m : d.made.info.media)
        for (const auto& x : m.extensions)
            if (x.second == srtc::RtpStandardExtensions::kExtGoogleTWCC)
                ext = static_cast<unsigned>(x.first);
    PBT_CHECK(ctx, ext != 0, "offer", "no extension for congestion control");
    PBT_CHECK(ctx, d.connect(), "connect", "not connected after %lld us", static_cast<long long>(sim::nowMicros()));

    const auto interval = src.range(8, 33) * 1000;
    const auto size = src.oneOf<size_t>({ src.size(200, 1000), src.size(2000, 6000) });
    const auto lossPercent = src.oneOf<unsigned>({ 0, 0, 3, 15, 40 });
    const auto askPercent = src.oneOf<unsigned>({ 0, 0, 15, 40 });
    const auto freedom = static_cast<unsigned>(src.draw(2));
    const auto clock = src.range(0, 1000000000);
    sim::seedRandom(src.u32());
    ctx.note("%zu bytes every %lld us, loss %u %%, %u %% are asked for again, delay %lld us, encoding %u, rtx %d", size, static_cast<long long>(interval), lossPercent, askPercent, static_cast<long long>(delay), freedom, s.rtx);

    struct Packet {
        int64_t arrival = -1;
        size_t payload = 0;
        unsigned nacks = 0;
        bool reported = false;
    };
    std::map<int64_t, Packet> packets; // by number
    std::map<uint32_t, uint32_t> mainOf;
    for (const auto& t : d.tracks)
        if (t->getRtxPayloadId() > 0)
            mainOf[t->getRtxSSRC()] = t->getSSRC();
    std::optional<int64_t> high;
    std::vector<std::pair<uint32_t, uint16_t>> ask;
    std::set<std::pair<uint32_t, uint16_t>> first;
    size_t nacks = 0, again = 0;
    d.peer.onRtp = [&](const rig::DtlsPeer::Rtp& p) {
        const auto r = rig::readRtp(p.data);
        const auto x = r.ext.find(ext);
        PBT_CHECK(ctx, r.ok && x != r.ext.end() && x->second.size() == 2, "no number", "source %u number %u", p.ssrc, p.seq);
        const auto low = rig::be16(x->second.data());
        const auto number = high ? *high + static_cast<int16_t>(low - static_cast<uint16_t>(*high & 0xffff)) : 0x10000 + low;
        const auto fresh = !mainOf.count(p.ssrc) && first.insert({ p.ssrc, p.seq }).second;
        if (fresh) {
            PBT_CHECK(ctx, !high || number == *high + 1, "numbering", "number %lld after %lld", static_cast<long long>(number), static_cast<long long>(high.value_or(0)));
            high = number;
            packets[number].payload = r.payload.size();
            if (askPercent && sim::random64() % 100 < askPercent) {
                ask.emplace_back(p.ssrc, p.seq);
                packets[number].nacks += 1;
            }
            if (lossPercent && sim::random64() % 100 < lossPercent)
                return;
        } else
            again += 1;
        if (packets.count(number) && packets[number].arrival < 0)
            packets[number].arrival = p.time;
    };

    const auto begin = sim::nowMicros();
    int64_t nextFrame = begin, nextReport = begin + 100000, from = 0;
    uint8_t fb = 0;
    std::deque<std::tuple<int64_t, double>> measures;
    const auto end = begin + src.range(22, 27) * 1000000;
    while (sim::nowMicros() < end) {
        const auto now = sim::nowMicros();
        if (now >= nextFrame) {
            nextFrame += interval;
            const auto& t = s.audio && sim::random64() % 4 == 0 ? d.audio : d.video;
            Bytes frame(t == d.audio ? std::min<size_t>(size, 900) : size, 0x40);
            const auto error = t == d.audio ? d.node->pc->publishAudioFrame(t, now, toBuffer(frame)) : d.node->pc->publishVideoFrame(t, now, toBuffer(frame));
            PBT_CHECK(ctx, !error.isError(), "publish", "%s", error.message.c_str());
        }
        if (now >= nextReport) {
            nextReport += 100000;
            Bytes compound;
            for (const auto& [ssrc, seq] : ask) {
                compound = cat({ compound, { 0x81, 205 }, num(3, 2), num(99, 4), num(ssrc, 4), num(seq, 2), num(0, 2) });
                nacks += 1;
                if (compound.size() > 1000) {
                    d.peer.sendRtcp(compound);
                    compound.clear();
                }
            }
            ask.clear();
            if (!compound.empty())
                d.peer.sendRtcp(compound);
            int64_t lo = -1, hi = -1;
            for (const auto& [n, p] : packets)
                if (p.arrival >= 0 && !p.reported) {
                    lo = lo < 0 ? n : lo;
                    hi = n;
                }
            if (lo >= 0) {
                lo = from ? std::min(lo, from) : packets.begin()->first;
                std::vector<int64_t> times;
                for (auto n = lo; n <= hi; n += 1) {
                    auto& p = packets[n];
                    times.push_back(p.arrival >= 0 && (!p.reported || n >= from) ? (clock + p.arrival) / 250 : -1);
                    p.reported |= p.arrival >= 0;
                }
                from = std::max(from, hi + 1);
                auto body = cat({ num(99, 4), num(d.video->getSSRC(), 4), twccref::write(src, static_cast<uint16_t>(lo), times, fb, freedom) });
                while (body.size() % 4)
                    body.push_back(0);
                d.peer.sendRtcp(cat({ { 0x8f, 205 }, num(body.size() / 4, 2), body }));
                fb += 1;
                double missing = 0, asked = 0, total = 0;
                for (const auto& [n, p] : packets) {
                    missing += n < hi && !p.reported ? 1 : 0;
                    asked += p.nacks;
                    total += 1;
                }
                measures.emplace_back(now + delay, std::min(100.0, 100 * std::max(missing, asked) / total));
            }
        }
        d.world.run(std::min(nextFrame, nextReport));
    }
    d.world.runFor(2 * delay + 300000);
    for (const auto& p : d.peer.problems)
        ctx.fail("what the peer saw", "%s", p.c_str());
    PBT_CHECK(ctx, stats && statsTime - begin > 5000000, "statistics", "none in time");
    // Smoothed, by a fifth every second
    double lo = 100, hi = 0, loBefore = 100, hiBefore = 0;
    for (const auto& [t, v] : measures) {
        if (t > statsTime + 200000)
            continue;
        if (t > statsTime - 12000000) {
            lo = std::min(lo, v);
            hi = std::max(hi, v);
        }
        loBefore = std::min(loBefore, v);
        hiBefore = std::max(hiBefore, v);
    }
    lo = 0.88 * lo + 0.12 * loBefore;
    hi = 0.88 * hi + 0.12 * hiBefore;
    double bytes = 0;
    const auto span = 3000000.0;
    for (const auto& [n, p] : packets)
        if (p.arrival >= 0 && p.arrival <= statsTime - delay && p.arrival > statsTime - delay - static_cast<int64_t>(span))
            bytes += static_cast<double>(p.payload);
    const auto expected = bytes * 8 / 1024 / (span / 1000000);
    ctx.note("%zu packets, %zu requests, %zu sent again; loss %.2f %%, expected within %.2f and %.2f; bandwidth %.1f, expected %.1f", packets.size(), nacks, again, static_cast<double>(stats->packets_lost_percent), lo, hi,
             static_cast<double>(stats->bandwidth_actual_kbit_per_second), expected);
    PBT_CHECK(ctx, stats->packets_lost_percent >= 0.9 * lo - 0.5 && stats->packets_lost_percent <= 1.1 * hi + 0.5, "loss", "%.3f %%, expected within %.3f and %.3f", static_cast<double>(stats->packets_lost_percent), lo, hi);
    PBT_CHECK(ctx, std::abs(stats->bandwidth_actual_kbit_per_second - expected) <= 0.3 * expected, "bandwidth", "%.1f, expected %.1f kbit/s", static_cast<double>(stats->bandwidth_actual_kbit_per_second), expected);
    if (again)
        ctx.tagN("sent again", again);
    if (lossPercent || askPercent)
        ctx.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
    return run(argc, argv,
               { "P13",
                 "Send histories with feedback in generated encodings (run lengths, one and two bit vectors, small and large deltas, early reference times), steady streams with loss, jitter, late reports and nacks, probes, and "
                 "damaged or random feedback; non-trivial: the two encodings differ and give a bandwidth (encodings), packets are lost, late or nacked (steady), padding is over an eighth (probing), a full header was given (hostile), packets are lost or asked for again (connection)",
                 { "Steady streams: bandwidth within 12 % (35 % when packets are lost at random at 8 % or more)", "Status 3 (received without time) isn't generated in valid feedback" },
                 { { "encodings", 30, encodings }, { "steady", 20, steady }, { "probing", 10, probing }, { "hostile", 40, hostile }, { "connection", 4, connection } } });
}
