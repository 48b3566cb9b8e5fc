// A sender, a network with chosen losses, delays, duplicates and retransmissions, and the jitter buffer, in virtual time
#pragma once

#include "media_ref.h"

#include <algorithm>
#include <map>
#include <set>

namespace jsim
{

using namespace gen;

struct Params {
    Codec codec = Codec::H264;
    size_t frames = 10;
    int64_t lengthMs = 50;
    int64_t nackDelayMs = 10;
    bool nack = false;
    bool rtx = false; // Retransmissions have their own stream
    int64_t rttMs = 20;
    unsigned lossPercent = 0;
    unsigned rtxLossPercent = 0;
    unsigned dupPercent = 0;
    int64_t spreadMs = 0; // Delays are between 0 and this
    unsigned latePercent = 0; // Of these, far beyond the length of the buffer
    bool ordered = true;
    bool hint = true; // Wake up when the buffer says so, otherwise every pollMs
    int64_t pollMs = 1;
    unsigned keyPercent = 20;
    bool allKeyFirst = true;
    size_t maxUnits = 3;
    bool foreign = false;
    int64_t intervalUs = 0; // 0: random
    // Outages: before this frame, that many packets and microseconds are lost
    std::map<size_t, std::pair<size_t, int64_t>> outages;
};

struct SentPacket {
    Bytes wire;
    Bytes rtxWire; // Filled on demand
    std::shared_ptr<srtc::RtpPacket> packet;
    size_t frame = 0;
    uint64_t index = 0; // Position in the sequence
    int64_t sendUs = 0;
    int64_t firstArrivalUs = -1;
};

struct SentFrame {
    Frame f;
    uint32_t ts = 0;
    int64_t sendUs = 0;
    size_t firstPacket = 0, packetCount = 0;
    int64_t completeUs = -1;
};

struct Arrival {
    int64_t us;
    size_t packet;
    bool rtx;
};

struct Delivery {
    int64_t us;
    std::shared_ptr<srtc::EncodedFrame> frame;
};

struct Nack {
    int64_t us;
    uint16_t seq;
    size_t arrivalsBefore;
};

class Sim
{
public:
    Sim(pbt::Src& src, pbt::Ctx& ctx, const Params& p)
        : mSrc(src)
        , mCtx(ctx)
        , mP(p)
    {
    }

    std::vector<SentFrame> frames;
    std::vector<SentPacket> packets;
    std::vector<Arrival> arrivals; // In the order they happened
    std::vector<Delivery> deliveries;
    std::vector<Nack> nacks;
    std::map<uint16_t, size_t> bySeq;
    uint32_t clock = 90000;
    size_t lostPackets = 0, duplicates = 0, reordered = 0, lateWakes = 0;
    int64_t endUs = 0;

    void build()
    {
        TrackParams tp;
        tp.codec = mP.codec;
        tp.ssrc = 1 + mSrc.u16();
        tp.pt = 96;
        if (mP.rtx) {
            tp.rtxSsrc = tp.ssrc + 1;
            tp.rtxPt = 97;
        }
        tp.nack = mP.nack;
        sim::seedRandom(1 + mSrc.u16());
        mPub = makeTrack(tp);
        clock = mPub->getClockRate();
        tp.direction = srtc::Direction::Subscribe;
        mSub = makeTrack(tp);
        const auto packetizer = srtc::Packetizer::make(mPub).first;
        int64_t pts = 1000000;
        placeCounters(mSrc, mPub, pts);
        FrameGen fg(mSrc, mP.codec, mP.maxUnits, 1200 - 12 - 10);
        packetizer->setCodecSpecificData(fg.csd());
        ref::Sender sender(mSrc, mP.codec);
        const auto interval = mP.intervalUs ? mP.intervalUs : mSrc.range(2000, 40000);
        int64_t t = 1000;
        uint64_t index = 0;
        for (size_t i = 0; i < mP.frames; i += 1) {
            if (const auto it = mP.outages.find(i); it != mP.outages.end()) {
                for (size_t k = 0; k < it->second.first; k += 1)
                    (void)mPub->getRtpPacketSource()->getNextSequence();
                index += it->second.first;
                pts += it->second.second;
                t += it->second.second;
            }
            SentFrame sf;
            sf.f = fg.next((i == 0 && mP.allKeyFirst) || mSrc.chance(mP.keyPercent, 100));
            sf.f.pts = pts;
            sf.sendUs = t;
            sf.firstPacket = packets.size();
            std::vector<std::shared_ptr<srtc::RtpPacket>> list;
            if (mP.foreign) {
                const auto ts = mPub->getRtpTimeSource()->getFrameTimestamp(pts);
                for (const auto& p : sender.packetize(sf.f)) {
                    const auto [roll, seq] = mPub->getRtpPacketSource()->getNextSequence();
                    list.push_back(std::make_shared<srtc::RtpPacket>(mPub, p.marker, roll, seq, ts, 0, toBuffer(p.data)));
                }
            } else {
                list = packetizer->generate({}, 10, pts, toBuffer(sf.f.input));
            }
            sf.packetCount = list.size();
            sf.ts = list.front()->getTimestamp();
            auto pace = t;
            for (const auto& p : list) {
                SentPacket sp;
                const auto out = p->generate();
                sp.wire = toBytes(out.buf);
                sp.packet = p;
                sp.frame = i;
                sp.index = index;
                sp.sendUs = pace;
                pace += 50;
                index += 1;
                bySeq[p->getSequence()] = packets.size();
                packets.push_back(std::move(sp));
            }
            mCtx.note("frame %zu: %s, %zu packets from seq %u, ts %u, sent at %.1f ms", i, sf.f.describe.c_str(), sf.packetCount,
                      list.front()->getSequence(), sf.ts, t / 1000.0);
            frames.push_back(std::move(sf));
            auto step = std::max(interval + (mSrc.chance(1, 4) ? mSrc.range(-1500, 1500) : 0), static_cast<int64_t>(1000));
            step = std::max(step, pace - t);
            pts += step;
            t += step;
        }
        endUs = t;
    }

    void network()
    {
        int64_t prev = 0;
        for (size_t i = 0; i < packets.size(); i += 1) {
            const auto& p = packets[i];
            if (mP.lossPercent && mSrc.chance(mP.lossPercent, 100)) {
                lostPackets += 1;
                mCtx.note("  lost: seq %u of frame %zu", p.packet->getSequence(), p.frame);
                continue;
            }
            auto at = p.sendUs + delay();
            if (mP.ordered)
                at = std::max(at, prev);
            else if (at < prev)
                reordered += 1;
            prev = std::max(prev, at);
            schedule(at, i, false);
            while (mP.dupPercent && mSrc.chance(mP.dupPercent, 100)) {
                duplicates += 1;
                const auto extra = mSrc.chance(1, 2) ? mSrc.range(0, mP.lengthMs * 3000) : delay();
                mCtx.note("  duplicate: seq %u, %.1f ms later", p.packet->getSequence(), extra / 1000.0);
                schedule(at + extra, i, mP.rtx && mSrc.chance(1, 3));
            }
        }
    }

    void run()
    {
        const auto depacketizer = srtc::Depacketizer::make(mSub).first;
        srtc::JitterBuffer jitter(mSub, depacketizer, 4096, std::chrono::milliseconds(mP.lengthMs), std::chrono::milliseconds(mP.nackDelayMs));
        const auto start = sim::nowMicros();
        int64_t now = 0;
        const auto stop = endUs + (mP.lengthMs * 8 + mP.spreadMs + mP.rttMs) * 1000 + 3000000;
        while (now < stop) {
            int64_t wake;
            if (mP.hint) {
                const auto timeout = jitter.getTimeoutMillis(100);
                wake = now + std::clamp(timeout, 1, 100) * 1000;
            } else {
                wake = now + mP.pollMs * 1000;
            }
            auto next = wake;
            if (!mQueue.empty())
                next = std::min(next, std::max(now, mQueue.begin()->first));
            else if (now > std::max(endUs, arrivals.empty() ? 0 : arrivals.back().us) + (mP.lengthMs + mP.spreadMs + mP.rttMs) * 1000 + 500000)
                break;
            sim::advanceMicros(next - now);
            now = next;
            while (!mQueue.empty() && mQueue.begin()->first <= now) {
                const auto [i, rtx] = mQueue.begin()->second;
                mQueue.erase(mQueue.begin());
                arrive(jitter, now, i, rtx);
            }
            // The same order as the peer connection
            for (const auto seq : jitter.processNack()) {
                nacks.push_back({ now, seq, arrivals.size() });
                mCtx.note("  %.1f ms: requests %u", now / 1000.0, seq);
                const auto it = bySeq.find(seq);
                if (it != bySeq.end() && mP.rttMs >= 0) {
                    if (!(mP.rtxLossPercent && mSrc.chance(mP.rtxLossPercent, 100)))
                        schedule(now + mP.rttMs * 1000 + (mSrc.chance(1, 4) ? delay() : 0), it->second, mP.rtx);
                }
            }
            for (const auto& f : jitter.processDeque()) {
                deliveries.push_back({ now, f });
                mCtx.note("  %.1f ms: delivers ts %u, %zu bytes", now / 1000.0, static_cast<uint32_t>(f->rtp_timestamp_ext), f->data.size());
            }
        }
        (void)start;
    }

    // The frame a delivery is, or SIZE_MAX
    size_t identify(const srtc::EncodedFrame& e) const
    {
        const auto ts = static_cast<uint32_t>(e.rtp_timestamp_ext);
        for (size_t i = 0; i < frames.size(); i += 1) {
            if (frames[i].ts == ts)
                return i;
        }
        return SIZE_MAX;
    }

    // When the buffer should hand out a frame, from the first packet it was given
    int64_t dueUs(size_t frame, size_t firstArrival = 0) const
    {
        const auto& a = arrivals[firstArrival];
        const auto delta = static_cast<int32_t>(frames[frame].ts - frames[packets[a.packet].frame].ts);
        return a.us + (1000ll * delta / static_cast<int64_t>(clock)) * 1000 + mP.lengthMs * 1000;
    }

private:
    pbt::Src& mSrc;
    pbt::Ctx& mCtx;
    const Params mP;
    std::shared_ptr<srtc::Track> mPub, mSub;
    std::multimap<int64_t, std::pair<size_t, bool>> mQueue;

    int64_t delay()
    {
        if (mP.latePercent && mSrc.chance(mP.latePercent, 100))
            return mSrc.range(0, mP.lengthMs * 4000);
        return mP.spreadMs ? mSrc.range(0, mP.spreadMs * 1000) : 0;
    }
    void schedule(int64_t at, size_t i, bool rtx)
    {
        mQueue.emplace(at, std::make_pair(i, rtx));
    }

    void arrive(srtc::JitterBuffer& jitter, int64_t now, size_t i, bool rtx)
    {
        auto& p = packets[i];
        const Bytes* wire = &p.wire;
        if (rtx) {
            if (p.rtxWire.empty())
                p.rtxWire = toBytes(p.packet->generateRtx({}).buf);
            wire = &p.rtxWire;
        }
        const auto parsed = srtc::RtpPacket::fromUdpPacket(mSub, toBuffer(*wire));
        PBT_CHECK(mCtx, parsed != nullptr, "parse", "packet %zu", i);
        mCtx.note("  %.1f ms: arrives %u%s of frame %zu", now / 1000.0, p.packet->getSequence(), rtx ? " (rtx)" : "", p.frame);
        arrivals.push_back({ now, i, rtx });
        if (p.firstArrivalUs < 0) {
            p.firstArrivalUs = now;
            auto& f = frames[p.frame];
            auto complete = true;
            for (size_t k = 0; k < f.packetCount; k += 1)
                complete = complete && packets[f.firstPacket + k].firstArrivalUs >= 0;
            if (complete)
                f.completeUs = now;
        }
        jitter.consume(parsed);
    }
};

// What's known to be missing from the arrivals, and what was asked for
struct Missing {
    struct Known {
        int64_t us;
        uint64_t lo, hi;
        size_t packet;
    };
    const Sim& s;
    const uint16_t firstSeq;
    std::vector<Known> known; // Times at which the range of what's known grew
    std::map<uint64_t, size_t> byIndex; // Only packets which were sent, not the ones swallowed by an outage

    explicit Missing(const Sim& sim)
        : s(sim)
        , firstSeq(sim.packets.front().packet->getSequence())
    {
        for (size_t i = 0; i < s.packets.size(); i += 1)
            byIndex[s.packets[i].index] = i;
        for (const auto& a : s.arrivals) {
            const auto i = s.packets[a.packet].index;
            if (known.empty())
                known.push_back({ a.us, i, i, a.packet });
            else if (i < known.back().lo || i > known.back().hi)
                known.push_back({ a.us, std::min(known.back().lo, i), std::max(known.back().hi, i), a.packet });
        }
    }
    uint64_t toIndex(uint16_t seq) const { return static_cast<uint64_t>(static_cast<uint16_t>(seq - firstSeq)); }
    int64_t arrivalOf(uint64_t index) const
    {
        const auto it = byIndex.find(index);
        return it == byIndex.end() ? -1 : s.packets[it->second].firstArrivalUs;
    }
    const Known* revealed(uint64_t index) const
    {
        for (const auto& k : known) {
            if (index >= k.lo && index <= k.hi)
                return &k;
        }
        return nullptr;
    }
    // Every packet which is missing for long enough, and could still be of use, was asked for
    size_t checkRequested(pbt::Ctx& ctx, int64_t nackDelayMs) const
    {
        std::map<uint64_t, int64_t> requested;
        for (const auto& n : s.nacks)
            requested.emplace(toIndex(n.seq), n.us);
        size_t must = 0;
        for (uint64_t i = s.packets[s.arrivals.front().packet].index + 1; i < known.back().hi; i += 1) {
            const auto k = revealed(i);
            const auto a = arrivalOf(i);
            const auto by = k->us + 2 * nackDelayMs * 1000 + 3000;
            if (k->us == a || (a >= 0 && a <= by))
                continue; // Received in time
            if (by >= s.dueUs(s.packets[k->packet].frame))
                continue; // Too late to be of use
            must += 1;
            const auto it = requested.find(i);
            PBT_CHECK(ctx, it != requested.end() && it->second <= by, "not requested", "packet %u is missing since %.2f ms, but %s", static_cast<uint16_t>(firstSeq + i), k->us / 1000.0,
                      it == requested.end() ? "never requested" : "requested too late");
        }
        return must;
    }
};

} // namespace jsim
