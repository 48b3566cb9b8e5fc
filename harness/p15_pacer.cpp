// P15: the pacer sends every packet once, in order, and within its spread
#include "rig_setup.h"

#include "srtc/rtp_extension_source_twcc.h"
#include "srtc/rtp_std_extensions.h"
#include "srtc/send_pacer.h"
#include "srtc/send_rtp_history.h"
#include "srtc/track_stats.h"

using namespace pbt;
using namespace gen;
using sref::cat;
using sref::num;

namespace
{

constexpr int64_t kSlack = 1000; // Hints are in milliseconds

void pacer(Src& src, Ctx& ctx)
{
    rig::World world; // for the datagrams
    const auto& profile = sref::profile(src.size(0, 3));
    const auto a = sref::genKeys(src, profile), b = sref::genKeys(src, profile);
    const auto [crypto, error] = srtc::SrtpCrypto::create(profile.id, sref::crypto(a.key), sref::crypto(a.salt), sref::crypto(b.key), sref::crypto(b.salt));
    const auto srtp = std::make_shared<srtc::SrtpConnection>(crypto, profile.id);
    const sref::Session session(profile, a.key, a.salt);
    const auto history = std::make_shared<srtc::SendRtpHistory>();
    const auto scheduler = std::make_shared<srtc::LoopScheduler>();
    const auto withTwcc = src.chance(1, 3);
    const auto twcc = withTwcc ? std::make_shared<srtc::RtpExtensionSourceTWCC>(scheduler) : nullptr;
    srtc::PeerConnection pc(srtc::Direction::Publish);
    const auto made = rig::makeOffer(pc, {});
    const auto socket = std::make_shared<srtc::Socket>(rig::address(9, 900));
    size_t onSend = 0;
    srtc::SendPacer pacer(made.offer->getConfig(), srtp, socket, history, twcc, [&] { onSend += 1; });

    struct Item {
        std::shared_ptr<srtc::RtpPacket> packet;
        size_t stream;
        int64_t due; // INT64_MIN for at once
        bool sent = false;
    };
    struct Stream {
        std::shared_ptr<srtc::Track> track;
        std::shared_ptr<srtc::RtpPacketSource> source;
        std::deque<size_t> unsent; // indexes of items, as given
        size_t frames = 0, packets = 0, bytes = 0;
        bool exactFrames = true;
    };
    std::vector<Item> items;
    std::vector<Stream> streams(src.size(1, 3));
    const auto disciplined = src.chance(3, 4); // as connections do, flush a stream before the next frame
    for (size_t i = 0; i < streams.size(); i += 1) {
        TrackParams p;
        p.ssrc = static_cast<uint32_t>(1000 + i);
        p.nack = true;
        if (withTwcc)
            p.extensions.add(5, srtc::RtpStandardExtensions::kExtGoogleTWCC);
        streams[i].track = makeTrack(p);
        streams[i].source = streams[i].track->getRtpPacketSource();
    }

    // What is being done, for those datagrams which come out of it
    enum class Doing {
        Nothing,
        Now,
        Paced,
        Flush,
        Run
    } doing = Doing::Nothing;
    size_t doingStream = 0, doingFrom = 0;
    std::optional<uint16_t> lastNumber;
    size_t sentCount = 0, early = 0;

    world.onStray = [&](const srtc::anyaddr& to, const Bytes& data) {
        PBT_CHECK(ctx, rig::same(to, rig::address(9, 900)), "destination", "wrong");
        PBT_CHECK(ctx, data.size() >= 12, "datagram", "%zu bytes", data.size());
        const auto ssrc = rig::be32(&data[8]);
        const auto seq = rig::be16(&data[2]);
        size_t k = SIZE_MAX;
        for (size_t i = items.size(); i-- > 0;)
            if (items[i].packet->getSSRC() == ssrc && items[i].packet->getSequence() == seq) {
                k = i;
                break;
            }
        PBT_CHECK(ctx, k != SIZE_MAX, "not a packet given", "%s", hex(data).c_str());
        auto& it = items[k];
        auto& s = streams[it.stream];
        PBT_CHECK(ctx, !it.sent, "sent twice", "source %u number %u", ssrc, seq);
        const auto out = it.packet->generate();
        PBT_CHECK(ctx, session.media(toBytes(out.buf), out.rollover) == data, "contents", "source %u number %u isn't what it should be when encrypted", ssrc, seq);
        it.sent = true;
        sentCount += 1;
        s.packets += 1;
        s.bytes += data.size();
        if (disciplined)
            PBT_CHECK(ctx, s.unsent.front() == k, "order", "source %u: number %u, before %u", ssrc, seq, items[s.unsent.front()].packet->getSequence());
        s.unsent.erase(std::find(s.unsent.begin(), s.unsent.end(), k));
        const auto now = sim::nowMicros();
        switch (doing) {
        case Doing::Nothing:
            ctx.fail("sent by itself", "source %u number %u", ssrc, seq);
        case Doing::Now:
        case Doing::Paced:
            PBT_CHECK(ctx, k >= doingFrom && it.due <= now, "sent when another was given", "source %u number %u, due in %lld us", ssrc, seq, static_cast<long long>(it.due - now));
            break;
        case Doing::Flush:
            PBT_CHECK(ctx, it.stream == doingStream, "flush of another stream", "source %u number %u", ssrc, seq);
            early += it.due > now ? 1 : 0;
            break;
        case Doing::Run:
            PBT_CHECK(ctx, it.due <= now + kSlack, "too early", "source %u number %u is due in %lld us", ssrc, seq, static_cast<long long>(it.due - now));
            break;
        }
        const auto parts = rig::readRtp(toBytes(out.buf));
        if (withTwcc) {
            PBT_CHECK(ctx, parts.ok && parts.ext.count(5) && parts.ext.at(5).size() == 2, "transport-wide number", "missing");
            const auto number = rig::be16(parts.ext.at(5).data());
            PBT_CHECK(ctx, !lastNumber || number == static_cast<uint16_t>(*lastNumber + 1), "transport-wide number", "%u after %u", number, lastNumber.value_or(0));
            lastNumber = number;
        }
        PBT_CHECK(ctx, history->find(ssrc, seq) == it.packet, "history", "source %u number %u isn't remembered", ssrc, seq);
    };

    const auto checkRun = [&] {
        const auto now = sim::nowMicros();
        for (const auto& s : streams)
            for (const auto k : s.unsent)
                PBT_CHECK(ctx, items[k].due > now - kSlack, "too late", "source %u number %u was due %lld us ago", items[k].packet->getSSRC(), items[k].packet->getSequence(), static_cast<long long>(now - items[k].due));
    };
    const auto run = [&] {
        doing = Doing::Run;
        pacer.run();
        doing = Doing::Nothing;
        checkRun();
    };
    const auto pending = [&] {
        size_t n = 0;
        for (const auto& s : streams)
            n += s.unsent.size();
        return n;
    };
    // As a loop does which waits as long as it is told
    const auto loop = [&](int64_t until) {
        while (sim::nowMicros() < until) {
            const auto hint = pacer.getTimeoutMillis(100);
            if (!pending())
                PBT_CHECK(ctx, hint == 100, "hint", "%d with nothing to send", hint);
            PBT_CHECK(ctx, hint <= 100 || pending(), "hint", "%d", hint);
            sim::advanceMicros(std::min<int64_t>(until - sim::nowMicros(), std::max<int64_t>(hint * 1000ll, 100)));
            run();
        }
    };
    const auto flush = [&](size_t i) {
        doing = Doing::Flush;
        doingStream = i;
        pacer.flush(streams[i].track);
        doing = Doing::Nothing;
        PBT_CHECK(ctx, streams[i].unsent.empty(), "flush", "%zu packets of the stream are still unsent", streams[i].unsent.size());
    };

    const auto steps = src.size(1, 40);
    size_t paced = 0, mixed = 0;
    for (size_t step = 0; step < steps; step += 1) {
        const auto i = src.size(0, streams.size() - 1);
        auto& s = streams[i];
        switch (src.pick({ 3, 6, 2, 5, 2 })) {
        case 0:
        case 1: {
            if (disciplined)
                flush(i);
            const auto single = src.chance(1, 4);
            // Also more than there are microseconds in the spread
            const auto huge = !single && items.size() < 3000 && src.chance(1, 40);
            const auto n = single ? 1 : huge ? src.size(600, 2200) : src.oneOf<size_t>({ 2, 3, src.size(1, 40) });
            const auto spread = huge ? static_cast<unsigned>(src.range(1, 3)) : src.oneOf<unsigned>({ 15, 0, 1, static_cast<unsigned>(src.range(1, 60)), 60 });
            if (huge)
                ctx.tag("huge frames");
            std::vector<std::shared_ptr<srtc::RtpPacket>> list;
            doingFrom = items.size();
            mixed += pending() ? 1 : 0;
            const auto now = sim::nowMicros();
            for (size_t k = 0; k < n; k += 1) {
                const auto [roc, seq] = s.source->getNextSequence();
                srtc::RtpExtensionBuilder eb;
                if (withTwcc)
                    eb.addU16Value(5, 0);
                const auto packet = std::make_shared<srtc::RtpPacket>(s.track, k + 1 == n, roc, seq, huge ? 90 : src.u32(), 0, eb.build(), toBuffer(huge ? Bytes{ 0x10, 0x00 } : src.blob(src.size(1, 60))));
                list.push_back(packet);
                s.unsent.push_back(items.size());
                items.push_back({ packet, i, spread == 0 || n == 1 ? INT64_MIN : now + static_cast<int64_t>(1000 * spread / n * k) });
            }
            s.frames += 1;
            if (single) {
                doing = Doing::Now;
                pacer.sendNow(list[0]);
            } else {
                doing = Doing::Paced;
                if (n == 1)
                    s.exactFrames = false;
                pacer.sendPaced(list, spread);
            }
            doing = Doing::Nothing;
            for (size_t k = doingFrom; k < items.size(); k += 1)
                PBT_CHECK(ctx, items[k].sent || items[k].due != INT64_MIN, "not sent at once", "packet %zu of %zu, spread %u", k - doingFrom, n, spread);
            paced += n > 1 && spread ? 1 : 0;
            break;
        }
        case 2:
            flush(i);
            break;
        case 3:
            loop(sim::nowMicros() + src.range(0, 40000));
            break;
        default:
            // Late
            sim::advanceMicros(src.range(0, 30000));
            run();
            break;
        }
    }
    loop(sim::nowMicros() + 62000);
    PBT_CHECK(ctx, pending() == 0, "never sent", "%zu packets", pending());
    PBT_CHECK(ctx, onSend == sentCount && sentCount == items.size(), "callback", "called %zu times for %zu packets of %zu", onSend, sentCount, items.size());
    for (const auto& s : streams) {
        const auto stats = s.track->getStats();
        PBT_CHECK(ctx, stats->getSentPackets() == s.packets && stats->getSentBytes() == s.bytes, "statistics", "%zu packets %zu bytes, sent %zu and %zu", stats->getSentPackets(), stats->getSentBytes(), s.packets, s.bytes);
        PBT_CHECK(ctx, !s.exactFrames || stats->getSentFrames() == s.frames, "statistics", "%zu frames, sent %zu", stats->getSentFrames(), s.frames);
    }
    if (early)
        ctx.tag("flushed before due");
    if (mixed)
        ctx.tag("given while others were pending");
    if (paced && mixed)
        ctx.nontrivial();
    ctx.note("%zu streams, flush first %d, %zu packets in %zu paced frames, %zu flushed early, %zu given while others were pending", streams.size(), disciplined, items.size(), paced, early, mixed);
}

// In a connection

void connection(Src& src, Ctx& ctx)
{
    rig::Duo d(src.chance(1, 2));
    rig::Spec s;
    s.bwe = src.chance(1, 3);
    if (src.chance(1, 3))
        s.layers = { "a", "b" };
    rig::AnswerOptions o;
    o.rids = s.layers;
    const auto e = d.start(s, o);
    PBT_CHECK(ctx, !e.isError(), "set up", "%s", e.message.c_str());
    const auto delay = 1000;
    d.world.link = [&](const auto&, const auto&, const auto&) { return std::vector<int64_t>{ delay }; };
    PBT_CHECK(ctx, d.connect(), "connect", "not connected");

    struct Frame {
        Bytes data;
        uint32_t ssrc;
        int64_t time;
        bool flushed = false;
    };
    std::vector<Frame> frames;
    std::map<uint32_t, size_t> latest;
    const auto n = src.size(1, 20);
    for (size_t i = 0; i < n; i += 1) {
        const auto& t = src.elem(d.tracks);
        const auto isAudio = t->getMediaType() == srtc::MediaType::Audio;
        auto data = src.blob(isAudio ? src.size(1, 400) : src.oneOf<size_t>({ src.size(10, 1000), src.size(10, 40000), src.size(1100, 2500) }));
        if (!isAudio)
            data[0] &= 0xfe; // key frame
        const auto pts = static_cast<int64_t>(i) * 20000 + 1;
        const auto error = isAudio ? d.node->pc->publishAudioFrame(t, pts, toBuffer(data)) : d.node->pc->publishVideoFrame(t, pts, toBuffer(data));
        PBT_CHECK(ctx, !error.isError(), "publish", "%s", error.message.c_str());
        if (latest.count(t->getSSRC()))
            frames[latest[t->getSSRC()]].flushed = true;
        latest[t->getSSRC()] = frames.size();
        frames.push_back({ data, t->getSSRC(), sim::nowMicros() });
        d.world.runFor(src.oneOf<int64_t>({ 0, src.range(0, 20000), 70000 }));
    }
    d.world.runFor(100000);
    for (const auto& p : d.peer.problems)
        ctx.fail("what the peer saw", "%s", p.c_str());

    // Every frame, from its packets, in order
    std::map<uint32_t, std::vector<const rig::DtlsPeer::Rtp*>> streams;
    for (const auto& p : d.peer.rtp)
        streams[p.ssrc].push_back(&p);
    std::map<uint32_t, size_t> at;
    size_t spreadOut = 0;
    for (const auto& f : frames) {
        auto& list = streams[f.ssrc];
        auto& k = at[f.ssrc];
        const auto audio = d.audio && d.audio->getSSRC() == f.ssrc;
        Bytes got;
        int64_t first = 0, last = 0;
        size_t count = 0;
        for (; k < list.size(); k += 1) {
            const auto& p = *list[k];
            if (k > 0)
                PBT_CHECK(ctx, p.index == list[k - 1]->index + 1, "order of packets", "source %u: index %llu after %llu", f.ssrc, static_cast<unsigned long long>(p.index), static_cast<unsigned long long>(list[k - 1]->index));
            const auto r = rig::readRtp(p.data);
            PBT_CHECK(ctx, r.ok && r.payload.size() >= 1, "packet", "%s", hex(p.data).c_str());
            // The VP8 descriptor of this library is a byte, without an extension
            size_t skip = 0;
            if (!audio) {
                skip = 1;
                if (r.payload[0] & 0x80) {
                    const auto x = r.payload[1];
                    skip = 2;
                    if (x & 0x80)
                        skip += r.payload[skip] & 0x80 ? 2 : 1;
                    skip += x & 0x40 ? 1 : 0;
                    skip += x & 0x30 ? 1 : 0;
                }
            }
            if (count == 0)
                first = p.time - delay;
            last = p.time - delay;
            count += 1;
            got.insert(got.end(), r.payload.begin() + static_cast<long>(skip), r.payload.end());
            if (audio || p.marker) {
                k += 1;
                break;
            }
        }
        PBT_CHECK(ctx, got == f.data, "frame", "source %u: %zu bytes in %zu packets were sent of a frame of %zu", f.ssrc, got.size(), count, f.data.size());
        PBT_CHECK(ctx, first - f.time <= 2000, "first packet late", "%lld us", static_cast<long long>(first - f.time));
        const auto limit = s.bwe ? 62000 : static_cast<int64_t>(srtc::SendPacer::kDefaultSpreadMillis) * 1000 + 2000;
        PBT_CHECK(ctx, last - f.time <= limit, "last packet late", "%lld us after the frame was given", static_cast<long long>(last - f.time));
        if (count > 2 && !f.flushed) {
            spreadOut += 1;
            PBT_CHECK(ctx, last - first >= 3000, "not spread", "%zu packets were sent within %lld us", count, static_cast<long long>(last - first));
        }
    }
    for (const auto& l : streams)
        if (!latest.count(l.first) || at[l.first] != l.second.size())
            ctx.fail("more was sent", "source %u: %zu packets, %zu belong to frames", l.first, l.second.size(), at[l.first]);
    if (spreadOut && n > 2)
        ctx.nontrivial();
    ctx.note("%zu frames, %zu packets, %zu frames spread out, bandwidth estimation %d", frames.size(), d.peer.rtp.size(), spreadOut, s.bwe);
}

} // namespace

int main(int argc, char** argv)
{
    return run(argc, argv,
        { "P15",
            "pacer: a frame of several packets was given a spread, and something was given while packets were pending; connection: at least one frame was spread out among three",
            { "the pacer and its connection are used from one thread", "order is judged for streams which are flushed before their next frame, as connections do" },
            { { "pacer", 4, pacer }, { "connection", 1, connection } } });
}
