// Data channel sessions in virtual time: an independent reader and writer of SCTP packets (RFC 9260, RFC 3758, RFC 6525,
// RFC 8831, RFC 8832), a network, a monitor of what a session puts on it, and an independent peer.
#pragma once

#include "pbt.h"
#include "sim.h"

#include "sctp/sctp_session.h"
#include "srtc/byte_buffer.h"
#include "srtc/data_channel_message.h"
#include "srtc/scheduler.h"
#include "srtc/sctp_session_listener.h"

#include <algorithm>
#include <array>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <vector>

namespace ss
{

using pbt::Ctx;
using pbt::Src;
using Bytes = std::vector<uint8_t>;

// ----- Packets

enum : uint8_t {
    DATA = 0,
    INIT = 1,
    INIT_ACK = 2,
    SACK = 3,
    HEARTBEAT = 4,
    HEARTBEAT_ACK = 5,
    ABORT = 6,
    SHUTDOWN = 7,
    SHUTDOWN_ACK = 8,
    ERROR = 9,
    COOKIE_ECHO = 10,
    COOKIE_ACK = 11,
    SHUTDOWN_COMPLETE = 14,
    RECONFIG = 130,
    FORWARD_TSN = 192
};

enum : uint32_t {
    PPID_DCEP = 50,
    PPID_STRING = 51,
    PPID_BINARY = 53,
    PPID_STRING_EMPTY = 56,
    PPID_BINARY_EMPTY = 57
};

inline void put8(Bytes& b, uint32_t v)
{
    b.push_back(static_cast<uint8_t>(v));
}
inline void put16(Bytes& b, uint32_t v)
{
    put8(b, v >> 8);
    put8(b, v);
}
inline void put32(Bytes& b, uint32_t v)
{
    put16(b, v >> 16);
    put16(b, v);
}
inline void put(Bytes& b, const Bytes& v)
{
    b.insert(b.end(), v.begin(), v.end());
}
inline uint16_t get16(const Bytes& b, size_t at)
{
    return static_cast<uint16_t>(b[at] << 8 | b[at + 1]);
}
inline uint32_t get32(const Bytes& b, size_t at)
{
    return static_cast<uint32_t>(get16(b, at)) << 16 | get16(b, at + 2);
}

// Of which tsn is earlier, on a circle
inline int32_t dist(uint32_t a, uint32_t b)
{
    return static_cast<int32_t>(a - b);
}

struct Chunk {
    uint8_t type = 0, flags = 0;
    Bytes body;
};

struct Packet {
    uint16_t src = 0, dst = 0;
    uint32_t tag = 0;
    std::vector<Chunk> chunks;
};

inline uint32_t crc32c(const Bytes& b)
{
    static const auto table = [] {
        std::array<uint32_t, 256> t;
        for (uint32_t i = 0; i < 256; i += 1) {
            uint32_t v = i;
            for (int k = 0; k < 8; k += 1)
                v = v & 1 ? v >> 1 ^ 0x82f63b78u : v >> 1;
            t[i] = v;
        }
        return t;
    }();
    uint32_t v = ~0u;
    for (const auto c : b)
        v = v >> 8 ^ table[(v ^ c) & 255];
    return ~v;
}

inline void seal(Bytes& b)
{
    if (b.size() < 12)
        return;
    std::fill(b.begin() + 8, b.begin() + 12, 0);
    const auto v = crc32c(b);
    for (int i = 0; i < 4; i += 1)
        b[8 + i] = static_cast<uint8_t>(v >> 8 * i);
}

inline Bytes build(const Packet& p)
{
    Bytes b;
    put16(b, p.src);
    put16(b, p.dst);
    put32(b, p.tag);
    put32(b, 0);
    for (const auto& c : p.chunks) {
        put8(b, c.type);
        put8(b, c.flags);
        put16(b, static_cast<uint32_t>(4 + c.body.size()));
        put(b, c.body);
        while (b.size() & 3)
            b.push_back(0);
    }
    seal(b);
    return b;
}

// Null when it's fine
inline const char* parse(const Bytes& b, Packet& p)
{
    if (b.size() < 16)
        return "no room for a chunk";
    if (b.size() & 3)
        return "size is not a multiple of 4";
    auto z = b;
    seal(z);
    if (z != b)
        return "wrong checksum";
    p = {};
    p.src = get16(b, 0);
    p.dst = get16(b, 2);
    p.tag = get32(b, 4);
    for (size_t at = 12; at < b.size();) {
        const size_t len = get16(b, at + 2);
        if (len < 4 || at + len > b.size())
            return "wrong chunk length";
        p.chunks.push_back({ b[at], b[at + 1], Bytes(b.begin() + at + 4, b.begin() + at + len) });
        for (at += len; at & 3; at += 1)
            if (b[at] != 0)
                return "padding is not zero";
    }
    return nullptr;
}

struct Param {
    uint16_t type;
    Bytes body;
};

inline const char* parseParams(const Bytes& b, size_t at, std::vector<Param>& out)
{
    while (at < b.size()) {
        if (at + 4 > b.size())
            return "parameter is cut";
        const size_t len = get16(b, at + 2);
        if (len < 4 || at + len > b.size())
            return "wrong parameter length";
        out.push_back({ get16(b, at), Bytes(b.begin() + at + 4, b.begin() + at + len) });
        at += (len + 3) & ~size_t(3);
    }
    return nullptr;
}

inline void putParam(Bytes& b, uint16_t type, const Bytes& body)
{
    while (b.size() & 3)
        b.push_back(0);
    put16(b, type);
    put16(b, static_cast<uint32_t>(4 + body.size()));
    put(b, body);
}

// ----- The world

struct End {
    virtual ~End() = default;
    virtual void receive(const Bytes& packet) = 0;
    virtual int64_t due() const
    {
        return INT64_MAX;
    }
    virtual void run()
    {
    }
};

struct World {
    Src& src;
    Ctx& ctx;
    std::shared_ptr<srtc::LoopScheduler> scheduler = std::make_shared<srtc::LoopScheduler>();
    End* ends[2] = {};
    // In thousandths, until it becomes good
    unsigned loss = 0, dup = 0;
    int64_t delay = 5, jitter = 0, badUntil = 0;
    unsigned lost = 0, duplicated = 0, reordered = 0, delivered = 0;
    std::multimap<int64_t, std::pair<int, Bytes>> queue;
    int64_t lastArrival[2] = {};

    World(Src& src, Ctx& ctx)
        : src(src)
        , ctx(ctx)
    {
        sim::resetClock();
    }

    int64_t now() const
    {
        return sim::nowNanos() / 1000000;
    }

    void deliverLater(int to, const Bytes& b, int64_t d)
    {
        const auto at = now() + d;
        reordered += at < lastArrival[to];
        lastArrival[to] = std::max(lastArrival[to], at);
        queue.emplace(at, std::make_pair(to, b));
    }

    std::vector<Bytes>* capture = nullptr; // Instead of the network

    void post(int from, const Bytes& b)
    {
        if (capture) {
            capture->push_back(b);
            return;
        }
        const int to = 1 - from;
        if (now() >= badUntil || src.choices().size() > 6000) {
            deliverLater(to, b, delay);
            return;
        }
        const auto d = src.draw(999);
        const auto late = [&] { return delay + (jitter ? src.range(0, jitter) : 0); };
        if (d < 1000 - loss - dup) {
            deliverLater(to, b, late());
        } else if (d < 1000 - dup) {
            lost += 1;
        } else {
            duplicated += 1;
            deliverLater(to, b, late());
            deliverLater(to, b, late());
        }
    }

    // One instant after another, up to this one
    void runTo(int64_t limit)
    {
        size_t spins = 0;
        while (true) {
            auto next = limit;
            if (!queue.empty())
                next = std::min(next, queue.begin()->first);
            if (const auto t = scheduler->getTimeoutMillis(-1); t >= 0)
                next = std::min(next, now() + t);
            for (const auto e : ends)
                if (e)
                    next = std::min(next, e->due());
            if (next > now()) {
                sim::advanceMillis(next - now());
                spins = 0;
            } else if (++spins > 20000) {
                ctx.fail("spin", "work without end at %lld ms", static_cast<long long>(now()));
            }
            bool any = false;
            while (!queue.empty() && queue.begin()->first <= now()) {
                const auto item = std::move(queue.begin()->second);
                queue.erase(queue.begin());
                any = true;
                delivered += 1;
                if (ends[item.first])
                    ends[item.first]->receive(item.second);
            }
            any |= scheduler->getTimeoutMillis(-1) == 0;
            scheduler->run();
            for (const auto e : ends)
                if (e && e->due() <= now()) {
                    any = true;
                    e->run();
                }
            if (!any && now() >= limit)
                return;
        }
    }

    template <class P>
    bool until(P pred, int64_t ms, int64_t step = 50)
    {
        const auto end = now() + ms;
        while (!pred()) {
            if (now() >= end)
                return false;
            runTo(std::min(end, now() + step));
        }
        return true;
    }
};

inline void drawNetwork(World& w, Src& src, int64_t badUntilMax)
{
    w.delay = src.pick({ 3, 1 }) == 0 ? src.range(0, 40) : src.range(0, 200);
    if (src.chance(4, 5)) {
        w.badUntil = src.range(0, badUntilMax);
        w.loss = static_cast<unsigned>(src.size(0, 400));
        w.dup = static_cast<unsigned>(src.size(0, 200));
        w.jitter = src.pick({ 2, 2, 1 }) == 0 ? 0 : src.range(0, 400);
    }
}

// ----- What a session puts on the network, judged

struct Monitor {
    Ctx& ctx;
    const std::function<std::string()> where;
    uint16_t local, remote;
    bool strictWindow = true; // What the peer says makes sense

    // Ours
    std::optional<uint32_t> tag, firstTsn;
    struct Out {
        uint8_t flags;
        Bytes body;
        bool gapAcked = false;
        int64_t at = 0;
        unsigned missed = 0; // Acknowledgments which name a later one
    };
    std::map<int64_t, Out> sent; // By distance from the first tsn
    int64_t nextOut = 0, cumOut = -1;
    bool inMessage = false;
    Bytes current; // stream, ssn, ppid of what is being sent
    uint8_t currentFlags = 0;
    std::map<uint16_t, uint16_t> nextSsn;
    uint64_t flight = 0;
    uint64_t window = 0;
    size_t dataPackets = 0, retransmissions = 0, sacks = 0, fullWindow = 0, gapSacks = 0, others = 0;
    struct Opened {
        uint16_t stream;
        std::string label;
    };
    std::vector<Opened> opened; // By us

    // The peer's
    std::set<uint32_t> tagsOffered;
    std::set<std::pair<uint32_t, uint32_t>> inits; // tag, tsn: to answer
    std::optional<uint32_t> peerTag, peerFirstTsn;
    std::map<uint32_t, uint32_t> windowOf, tsnOf; // By tag
    std::set<int64_t> gotTsn;                     // By distance from the peer's first
    int64_t gotAll = -1;                          // Every one up to this
    std::set<Bytes> cookies, heartbeats, echoes;
    std::set<uint32_t> resets;
    unsigned cookieEchoes = 0;
    size_t maxHeartbeat = 0;

    Monitor(Ctx& ctx, uint16_t local, uint16_t remote)
        : ctx(ctx)
        , local(local)
        , remote(remote)
    {
    }

#define SS_CHECK(cond, label, ...) PBT_CHECK(ctx, cond, label, __VA_ARGS__)

    int64_t inIndex(uint32_t tsn) const
    {
        const auto near = static_cast<uint32_t>(static_cast<uint64_t>(*peerFirstTsn) + static_cast<uint64_t>(gotAll + 1));
        return gotAll + 1 + dist(tsn, near);
    }
    int64_t outIndex(uint32_t tsn) const
    {
        const auto near = static_cast<uint32_t>(static_cast<uint64_t>(*firstTsn) + static_cast<uint64_t>(nextOut));
        return nextOut + dist(tsn, near);
    }

    // What arrives at the session
    void received(const Bytes& b)
    {
        Packet p;
        if (parse(b, p) != nullptr)
            return;
        for (const auto& c : p.chunks) {
            if ((c.type == INIT || c.type == INIT_ACK) && c.body.size() >= 16) {
                if (c.type == INIT_ACK && (!tag || p.tag != *tag))
                    continue;
                const auto t = get32(c.body, 0);
                tagsOffered.insert(t);
                windowOf[t] = get32(c.body, 4);
                tsnOf[t] = get32(c.body, 12);
                if (c.type == INIT)
                    inits.insert({ t, get32(c.body, 12) });
                std::vector<Param> params;
                parseParams(c.body, 16, params);
                for (const auto& q : params)
                    if (q.type == 7 && c.type == INIT_ACK)
                        cookies.insert(q.body);
                continue;
            }
            if (!tag || p.tag != *tag)
                continue;
            switch (c.type) {
            case DATA:
                if (peerFirstTsn && c.body.size() >= 12)
                    got(get32(c.body, 0));
                else if (c.body.size() >= 12)
                    early.push_back(get32(c.body, 0));
                break;
            case FORWARD_TSN:
                if (peerFirstTsn && c.body.size() >= 4) {
                    const auto to = inIndex(get32(c.body, 0));
                    for (auto i = gotAll + 1; i <= to; i += 1)
                        gotTsn.insert(i);
                    advance();
                }
                break;
            case COOKIE_ECHO:
                cookieEchoes += 1;
                break;
            case HEARTBEAT:
                heartbeats.insert(c.body);
                maxHeartbeat = std::max(maxHeartbeat, c.body.size());
                break;
            case SACK:
                ack(c.body);
                break;
            case RECONFIG: {
                std::vector<Param> params;
                parseParams(c.body, 0, params);
                for (const auto& q : params)
                    if (q.type == 13 && q.body.size() >= 12)
                        resets.insert(get32(q.body, 0));
                break;
            }
            default:
                break;
            }
        }
    }

    std::vector<uint32_t> early;

    void got(uint32_t tsn)
    {
        const auto i = inIndex(tsn);
        if (i >= 0)
            gotTsn.insert(i);
        advance();
    }
    void advance()
    {
        while (gotTsn.count(gotAll + 1)) {
            gotAll += 1;
            gotTsn.erase(gotAll);
        }
    }
    bool hasGot(int64_t i) const
    {
        return i <= gotAll || gotTsn.count(i) != 0;
    }

    void ack(const Bytes& b)
    {
        if (b.size() < 12 || !firstTsn)
            return;
        const auto cum = outIndex(get32(b, 0));
        if (cum < cumOut || cum >= nextOut)
            return;
        const size_t gaps = get16(b, 8);
        if (12 + gaps * 4 > b.size())
            return;
        window = get32(b, 4);
        cumOut = cum;
        std::set<int64_t> acked;
        for (size_t g = 0; g < gaps; g += 1) {
            const auto from = get16(b, 12 + 4 * g), to = get16(b, 14 + 4 * g);
            for (auto it = sent.lower_bound(cum + from); it != sent.end() && it->first <= cum + to; ++it)
                acked.insert(it->first);
        }
        flight = 0;
        for (auto& [i, out] : sent) {
            out.gapAcked = acked.count(i) != 0;
            if (i > cumOut && !out.gapAcked)
                flight += out.body.size() - 12;
            out.missed += !acked.empty() && *acked.rbegin() > i;
        }
        for (auto it = sent.begin(); it != sent.end() && it->first <= cumOut;)
            it = sent.erase(it);
    }

    // What the session sends
    void sending(const Bytes& b)
    {
        Packet p;
        const auto why = parse(b, p);
        SS_CHECK(why == nullptr, "malformed packet", "%s: %s", why, pbt::hex(b).c_str());
        SS_CHECK(!p.chunks.empty(), "empty packet", "a packet without chunks");
        SS_CHECK(p.src == local && p.dst == remote, "ports", "from %u to %u instead of from %u to %u", p.src, p.dst, local, remote);
        size_t limit = 1200;
        const auto& first = p.chunks[0];
        for (const auto& c : p.chunks) {
            const unsigned known = c.type == DATA ? 0x0f : c.type == ABORT || c.type == SHUTDOWN_COMPLETE ? 0x01 : 0;
            SS_CHECK((c.flags & ~known) == 0, "flags", "chunk type %u has flags %02x", c.type, c.flags);
        }
        if (first.type == HEARTBEAT_ACK || first.type == COOKIE_ECHO)
            limit = std::max<size_t>(limit, first.body.size() + 19);
        SS_CHECK(b.size() <= limit, "datagram size", "a packet of %zu bytes", b.size());
        if (first.type == INIT || first.type == INIT_ACK) {
            SS_CHECK(p.chunks.size() == 1, "bundled init", "INIT or INIT ACK bundled with another chunk");
            init(p, first);
            return;
        }
        // Which of the peer's tags is in use
        SS_CHECK(tagsOffered.count(p.tag) != 0, "tag", "a packet with verification tag %08x which isn't the peer's", p.tag);
        if (!peerTag || *peerTag != p.tag) {
            SS_CHECK(!peerTag || sent.empty(), "tag", "the verification tag changed to %08x", p.tag);
            peerTag = p.tag;
            peerFirstTsn = tsnOf[p.tag];
            window = windowOf[p.tag];
            gotAll = -1;
            gotTsn.clear();
            for (const auto t : early)
                got(t);
        }
        for (const auto& c : p.chunks) {
            switch (c.type) {
            case DATA:
                data(c);
                break;
            case SACK:
                sack(c);
                break;
            case COOKIE_ECHO:
                others += 1;
                SS_CHECK(cookies.count(c.body) != 0, "cookie", "a cookie which isn't the peer's: %s", pbt::hex(c.body).c_str());
                break;
            case COOKIE_ACK:
                others += 1;
                SS_CHECK(cookieEchoes > 0 && c.body.empty(), "cookie ack", "a COOKIE ACK for nothing, or with a body");
                cookieEchoes -= 1;
                break;
            case HEARTBEAT_ACK:
                others += 1;
                SS_CHECK(heartbeats.count(c.body) != 0, "heartbeat ack", "a HEARTBEAT ACK for none received: %s", pbt::hex(c.body).c_str());
                echoes.insert(c.body);
                break;
            case RECONFIG: {
                others += 1;
                std::vector<Param> params;
                const auto w = parseParams(c.body, 0, params);
                SS_CHECK(w == nullptr && !params.empty(), "reconfig", "RECONFIG: %s", w ? w : "no parameters");
                for (const auto& q : params)
                    if (q.type == 16) {
                        SS_CHECK(q.body.size() == 8 || q.body.size() == 16, "reconfig", "a response of %zu bytes", q.body.size());
                        SS_CHECK(resets.count(get32(q.body, 0)) != 0, "reconfig", "a response to a request not received: %u", get32(q.body, 0));
                        SS_CHECK(get32(q.body, 4) <= 6, "reconfig", "result %u", get32(q.body, 4));
                    }
                break;
            }
            case ABORT:
            case SHUTDOWN:
            case SHUTDOWN_ACK:
            case SHUTDOWN_COMPLETE:
            case ERROR:
            case HEARTBEAT:
            case FORWARD_TSN:
                break;
            default:
                ctx.fail("chunk type", "a chunk of type %u", c.type);
            }
        }
    }

    void init(const Packet& p, const Chunk& c)
    {
        others += 1;
        SS_CHECK(c.body.size() >= 16, "init", "INIT of %zu bytes", c.body.size());
        const auto t = get32(c.body, 0);
        SS_CHECK(t != 0, "init", "initiate tag 0");
        SS_CHECK(!tag || *tag == t, "init", "the initiate tag changed");
        tag = t;
        SS_CHECK(get32(c.body, 4) >= 1500, "init", "a window of %u", get32(c.body, 4));
        SS_CHECK(get16(c.body, 8) != 0 && get16(c.body, 10) != 0, "init", "no streams");
        const auto tsn = get32(c.body, 12);
        SS_CHECK(!firstTsn || *firstTsn == tsn, "init", "the initial tsn changed");
        firstTsn = tsn;
        std::vector<Param> params;
        const auto why = parseParams(c.body, 16, params);
        SS_CHECK(why == nullptr, "init", "INIT: %s", why);
        size_t cookieCount = 0;
        for (const auto& q : params)
            cookieCount += q.type == 7;
        if (c.type == INIT) {
            SS_CHECK(p.tag == 0, "tag", "INIT with verification tag %08x", p.tag);
        } else {
            bool any = false;
            for (const auto& i : inits)
                any |= i.first == p.tag;
            SS_CHECK(any, "tag", "INIT ACK with verification tag %08x", p.tag);
            SS_CHECK(cookieCount == 1, "init", "INIT ACK with %zu cookies", cookieCount);
        }
    }

    void data(const Chunk& c)
    {
        SS_CHECK(c.body.size() > 12, "empty data", "a DATA chunk without data");
        SS_CHECK(firstTsn.has_value(), "early data", "DATA before INIT or INIT ACK");
        dataPackets += 1;
        const auto tsn = get32(c.body, 0);
        const auto i = outIndex(tsn);
        if (i < nextOut) {
            const auto it = sent.find(i);
            SS_CHECK(it != sent.end(), "acknowledged data again", "tsn %u is sent again after it was acknowledged", tsn);
            SS_CHECK(it->second.body == c.body && it->second.flags == c.flags, "retransmission", "tsn %u is sent again with other contents", tsn);
            // Either a timer, or reported missing: RFC 9260 6.3.3, 7.2.4
            const auto now = sim::nowNanos() / 1000000;
            SS_CHECK(now - it->second.at >= 200 || it->second.missed >= 3, "hasty", "tsn %u is sent again after %lld ms, reported missing %u times", tsn,
                     static_cast<long long>(now - it->second.at), it->second.missed);
            it->second.at = now;
            it->second.missed = 0;
            retransmissions += 1;
            return;
        }
        SS_CHECK(i == nextOut, "tsn", "tsn %u instead of %u", tsn, *firstTsn + static_cast<uint32_t>(nextOut));
        nextOut += 1;
        if (strictWindow) {
            const auto size = c.body.size() - 12;
            SS_CHECK(flight == 0 || flight + size <= window + 1200, "window", "%llu bytes in flight and %zu more, for a window of %llu",
                     static_cast<unsigned long long>(flight), size, static_cast<unsigned long long>(window));
            fullWindow += flight + size + 1100 > window;
        }
        flight += c.body.size() - 12;
        sent[i] = { c.flags, c.body, false, sim::nowNanos() / 1000000 };
        const Bytes head(c.body.begin() + 4, c.body.begin() + 12);
        const bool begin = c.flags & 2, end = c.flags & 1, unordered = c.flags & 4;
        SS_CHECK(begin != inMessage, "fragments", inMessage ? "tsn %u begins a message inside of another one" : "tsn %u continues no message", tsn);
        if (begin) {
            current = head;
            currentFlags = c.flags & 4;
            const auto stream = get16(head, 0), ssn = get16(head, 2);
            if (!unordered) {
                SS_CHECK(nextSsn[stream] == ssn, "ssn", "stream %u: sequence number %u instead of %u", stream, ssn, nextSsn[stream]);
                nextSsn[stream] += 1;
            }
            const auto ppid = get32(head, 4);
            SS_CHECK(ppid == PPID_DCEP || ppid == PPID_STRING || ppid == PPID_BINARY || ppid == PPID_STRING_EMPTY || ppid == PPID_BINARY_EMPTY,
                     "ppid", "payload protocol %u", ppid);
            SS_CHECK((ppid != PPID_STRING_EMPTY && ppid != PPID_BINARY_EMPTY) || (end && c.body.size() == 13), "ppid", "an empty message of several bytes");
            if (ppid == PPID_DCEP) {
                SS_CHECK(!unordered, "dcep", "a channel message is unordered");
                if (c.body[12] == 3 && c.body.size() >= 24 && end) {
                    const size_t label = get16(c.body, 20);
                    SS_CHECK(c.body.size() == 24 + label + get16(c.body, 22), "dcep", "OPEN of %zu bytes, for a label of %zu", c.body.size() - 12, label);
                    opened.push_back({ stream, std::string(c.body.begin() + 24, c.body.begin() + 24 + label) });
                } else {
                    SS_CHECK(!end || (c.body[12] == 2 && c.body.size() == 13), "dcep", "neither OPEN nor ACK");
                }
            }
        } else {
            SS_CHECK(current == head && currentFlags == (c.flags & 4), "fragments", "tsn %u continues another message", tsn);
        }
        inMessage = !end;
    }

    void sack(const Chunk& c)
    {
        sacks += 1;
        SS_CHECK(c.body.size() >= 12, "sack", "SACK of %zu bytes", c.body.size());
        SS_CHECK(peerFirstTsn.has_value(), "sack", "SACK before there is an association");
        const size_t gaps = get16(c.body, 8), dups = get16(c.body, 10);
        SS_CHECK(c.body.size() == 12 + 4 * gaps + 4 * dups, "sack", "SACK of %zu bytes with %zu blocks and %zu duplicates", c.body.size(), gaps, dups);
        const auto cum = inIndex(get32(c.body, 0));
        SS_CHECK(cum <= gotAll && cum >= -1, "sack", "tsn %u is acknowledged, which wasn't received (index %lld, got %lld)", get32(c.body, 0),
                 static_cast<long long>(cum), static_cast<long long>(gotAll));
        uint32_t last = 1;
        for (size_t g = 0; g < gaps; g += 1) {
            const uint32_t from = get16(c.body, 12 + 4 * g), to = get16(c.body, 14 + 4 * g);
            SS_CHECK(from > last && to >= from, "sack", "block %zu: %u - %u after %u", g, from, to, last);
            last = to + 1;
            for (auto o = from; o <= to; o += 1)
                SS_CHECK(hasGot(cum + o), "sack", "block %u - %u names tsn %u which wasn't received", from, to, get32(c.body, 0) + o);
        }
        gapSacks += gaps > 0;
        for (size_t d = 0; d < dups; d += 1)
            SS_CHECK(hasGot(inIndex(get32(c.body, 12 + 4 * gaps + 4 * d))), "sack", "a duplicate which wasn't received");
    }
};

// ----- The library

struct Event {
    enum Kind {
        Open,
        Text,
        Binary,
        Close
    } kind;
    std::string label;
    Bytes data;
};

struct LibEnd : End, srtc::sctp::SctpSessionListener {
    World& w;
    const int index;
    Monitor monitor;
    bool monitored;
    std::function<void(const Event&)> onEvent;
    std::unique_ptr<srtc::sctp::SctpSession> session;
    size_t packetsOut = 0, eventsOut = 0, attacks = 0;
    unsigned attack = 0; // Per mille of packets which arrive
    bool over = false;

    // remoteActive: the other side is the DTLS client
    LibEnd(World& w, int index, uint16_t local, uint16_t remote, uint32_t maxMessage, bool remoteActive, const std::vector<std::string>& labels, bool monitored)
        : w(w)
        , index(index)
        , monitor(w.ctx, local, remote)
        , monitored(monitored)
    {
        session = std::make_unique<srtc::sctp::SctpSession>(w.scheduler, this, local, remote, maxMessage, remoteActive, labels);
        w.ends[index] = this;
    }
    ~LibEnd() override
    {
        over = true;
        session.reset();
        w.ends[index] = nullptr;
    }

    void receive(const Bytes& b) override
    {
        if (attack && w.src.chance(attack, 1000))
            ignored(b);
        if (monitored)
            monitor.received(b);
        // Of exactly this size
        session->onReceiveData({ b.data(), b.size() });
        if (attack && w.src.chance(attack, 1000))
            ignored(b);
    }

    // Something like it, which has to be ignored
    void ignored(Bytes b)
    {
        auto& src = w.src;
        const uint32_t right = get32(b, 4);
        const bool isInit = b[12] == INIT;
        const char* what = "";
        switch (src.pick({ 3, 2, 2, 1, 1 })) {
        case 0:
            what = "a flipped bit";
            b[src.size(0, b.size() - 1)] ^= static_cast<uint8_t>(1 << src.draw(7));
            break;
        case 1: {
            what = "a wrong tag";
            auto tag = src.u32();
            if (src.chance(1, 2))
                tag = right ^ 1u << src.draw(31);
            if (src.chance(1, 4))
                tag = isInit ? 1 : 0;
            if (tag == right)
                tag += 1;
            for (int i = 0; i < 4; i += 1)
                b[4 + i] = static_cast<uint8_t>(tag >> (24 - 8 * i));
            seal(b);
            break;
        }
        case 2: {
            what = "a wrong checksum";
            const auto n = src.u32();
            for (int i = 0; i < 4; i += 1)
                b[8 + i] ^= static_cast<uint8_t>(n >> 8 * i);
            b[8] ^= n == 0;
            break;
        }
        case 3:
            what = "a cut packet";
            b.resize(src.size(0, b.size() - 1));
            break;
        default:
            what = "a packet with more at its end";
            put(b, src.blob(src.size(1, 40)));
            break;
        }
        attacks += 1;
        const auto out = packetsOut, events = eventsOut;
        session->onReceiveData({ b.data(), b.size() });
        PBT_CHECK(w.ctx, out == packetsOut && events == eventsOut, "not ignored", "%s: %zu packets and %zu events in return for %s", what, packetsOut - out,
                  eventsOut - events, pbt::hex(b, 60).c_str());
    }

    void onSctpSendPacket(const srtc::ByteBuffer& packet) override
    {
        packetsOut += 1;
        const Bytes b(packet.data(), packet.data() + packet.size());
        if (monitored)
            monitor.sending(b);
        w.post(index, b);
    }
    void event(Event::Kind kind, const std::string& label, Bytes data = {})
    {
        eventsOut += 1;
        if (!over && onEvent)
            onEvent({ kind, label, std::move(data) });
    }
    void onSctpDataChannelOpen(const std::string& label) override
    {
        event(Event::Open, label);
    }
    void onSctpDataChannelText(const std::string& label, const std::string& text) override
    {
        event(Event::Text, label, Bytes(text.begin(), text.end()));
    }
    void onSctpDataChannelBinary(const std::string& label, const srtc::ByteBuffer& data) override
    {
        event(Event::Binary, label, Bytes(data.data(), data.data() + data.size()));
    }
    void onSctpDataChannelClose(const std::string& label) override
    {
        event(Event::Close, label);
    }

    void send(const std::string& label, bool text, const Bytes& data)
    {
        if (text)
            session->send(srtc::DataChannelMessage::makeText(label, std::string(data.begin(), data.end())));
        else
            session->send(srtc::DataChannelMessage::makeBinary(label, srtc::ByteBuffer(data.data(), data.size())));
    }
};

// ----- An independent peer

struct RefEnd : End {
    struct Conf {
        uint16_t local = 5000, remote = 5000;
        uint32_t tag = 1, tsn = 1, rwnd = 100000;
        uint16_t outStreams = 1024, inStreams = 1024;
        size_t mtu = 1200, frag = 1000;
        unsigned ackEvery = 2;
        int64_t ackDelay = 100, rto = 400;
        bool bundle = false, dupList = false, starts = false, extraParams = false, bundleAcks = false;
        bool freshTags = false; // Each INIT is answered with another tag and tsn, as RFC 9260 5.2.2 allows
        unsigned renege = 0; // Per mille of packets, while the network is bad
        bool moody = false;  // The window goes up and down while the network is bad
        size_t cookie = 40;
        size_t retransmitAtOnce = 10;
    };

    struct Channel {
        std::string label;
        uint16_t stream = 0;
        bool unordered = false, partial = false, ours = false;
        bool acked = false, closed = false, ackSent = false;
    };
    struct OutMessage {
        size_t id;
        uint16_t stream, ssn;
        bool unordered, partial;
        uint32_t ppid;
        Bytes data;
        size_t offset = 0;
    };
    struct OutChunk {
        uint32_t tsn;
        uint8_t flags;
        uint16_t stream, ssn;
        uint32_t ppid;
        Bytes data;
        size_t id;
        bool partial;
        unsigned times = 0;
        bool acked = false, abandoned = false;
    };

    World& w;
    const int index;
    Src& src;
    Ctx& ctx;
    Conf conf;

    enum State {
        Closed,
        CookieWait,
        CookieEchoed,
        Up
    } state = Closed;
    uint32_t peerTag = 0, peerCum = 0, peerWindow = 0;
    struct Cookie {
        uint32_t tag, window, tsn;       // The library's
        uint32_t ownTag, ownTsn;
    };
    std::map<Bytes, Cookie> cookies;
    uint32_t libTag = 0; // As far as it said
    size_t initsAnswered = 0;
    Bytes cookieToEcho;
    int64_t t1 = INT64_MAX, t3 = INT64_MAX, tAck = INT64_MAX, tReset = INT64_MAX;
    unsigned t1Count = 0;

    std::list<Channel> channels;
    std::deque<OutMessage> queue;
    std::deque<OutChunk> flight;
    uint32_t nextTsn = 0, cumAcked = 0;
    std::map<uint16_t, uint16_t> nextSsn;
    size_t nextId = 0;
    std::set<size_t> abandonedIds;
    struct Held {
        uint8_t flags;
        Bytes body;
    };
    std::map<int32_t, Held> heldNow; // Offsets are renewed by shift()
    std::vector<uint32_t> dupTsns;
    unsigned unacked = 0;
    Bytes partHead, part;
    bool inPart = false;
    uint8_t partFlags = 0;
    std::map<uint16_t, uint16_t> ssnIn;
    std::map<Bytes, unsigned> beats;
    size_t reneged = 0, abandonedCount = 0, forwards = 0, zeroWindows = 0;

    struct Reset {
        std::vector<uint16_t> streams;
        uint32_t seq, lastTsn;
    };
    std::optional<Reset> reset;
    uint32_t resetSeq = 0;
    unsigned inProgress = 0, resetsDone = 0;

    // stream, kind (text), data, unordered
    std::function<void(Channel&, bool, const Bytes&, bool)> onMessage;

    RefEnd(World& w, int index, Conf conf)
        : w(w)
        , index(index)
        , src(w.src)
        , ctx(w.ctx)
        , conf(conf)
    {
        nextTsn = conf.tsn;
        cumAcked = conf.tsn - 1;
        resetSeq = conf.tsn;
        w.ends[index] = this;
    }
    ~RefEnd() override
    {
        w.ends[index] = nullptr;
    }

    bool bad() const
    {
        return w.now() < w.badUntil;
    }

    int64_t due() const override
    {
        return std::min(std::min(t1, t3), std::min(tAck, tReset));
    }

    void start()
    {
        if (state == Closed) {
            state = CookieWait;
            t1 = w.now();
        }
    }

    void emit(std::vector<Chunk> chunks, uint32_t tag)
    {
        w.post(index, build({ conf.local, conf.remote, tag, std::move(chunks) }));
    }

    Chunk initChunk(uint8_t type, const Bytes* cookie)
    {
        Chunk c{ type, 0, {} };
        put32(c.body, conf.tag);
        put32(c.body, conf.rwnd);
        put16(c.body, conf.outStreams);
        put16(c.body, conf.inStreams);
        put32(c.body, conf.tsn);
        if (conf.extraParams) {
            putParam(c.body, 0x8008, { 192, 130, 0 });
            putParam(c.body, 0x8002, Bytes(32, 7));
        }
        if (cookie)
            putParam(c.body, 7, *cookie);
        putParam(c.body, 0xc000, {});
        return c;
    }

    void run() override
    {
        const auto now = w.now();
        if (t1 <= now) {
            t1 = now + conf.rto;
            t1Count += 1;
            if (state == CookieWait)
                emit({ initChunk(INIT, nullptr) }, 0);
            else if (state == CookieEchoed)
                emit({ Chunk{ COOKIE_ECHO, 0, cookieToEcho } }, peerTag);
            else
                t1 = INT64_MAX;
        }
        if (tAck <= now)
            sendSack();
        if (t3 <= now) {
            t3 = INT64_MAX;
            retransmit();
        }
        if (tReset <= now) {
            tReset = INT64_MAX;
            if (reset) {
                Chunk c{ RECONFIG, 0, {} };
                Bytes b;
                put32(b, reset->seq);
                put32(b, 0);
                put32(b, reset->lastTsn);
                for (const auto s : reset->streams)
                    put16(b, s);
                putParam(c.body, 13, b);
                emit({ c }, peerTag);
                tReset = now + conf.rto;
            }
        }
    }

    void up()
    {
        if (state == Up)
            return;
        state = Up;
        t1 = INT64_MAX;
        pump();
    }

    void receive(const Bytes& b) override
    {
        Packet p;
        if (const auto why = parse(b, p))
            ctx.fail("malformed packet", "%s: %s", why, pbt::hex(b).c_str());
        const bool isInit = p.chunks[0].type == INIT;
        auto expected = isInit ? 0 : conf.tag;
        if (conf.freshTags && state != Up && p.chunks[0].type == COOKIE_ECHO)
            if (const auto it = cookies.find(p.chunks[0].body); it != cookies.end())
                expected = it->second.ownTag;
        PBT_CHECK(ctx, p.tag == expected, "tag", "verification tag %08x of chunk type %u", p.tag, p.chunks[0].type);
        bool dataSeen = false, gap = false;
        for (const auto& c : p.chunks) {
            const auto& d = c.body;
            switch (c.type) {
            case INIT: {
                if (d.size() < 16)
                    break;
                Bytes cookie = src.blob(conf.cookie);
                put32(cookie, static_cast<uint32_t>(cookies.size()));
                libTag = get32(d, 0);
                const auto was = std::make_pair(conf.tag, conf.tsn);
                if (conf.freshTags && initsAnswered > 0) {
                    conf.tag = was.first ^ static_cast<uint32_t>(initsAnswered << 8);
                    conf.tsn = was.second + static_cast<uint32_t>(initsAnswered * 1000);
                }
                initsAnswered += 1;
                cookies[cookie] = { get32(d, 0), get32(d, 4), get32(d, 12), conf.tag, conf.tsn };
                emit({ initChunk(INIT_ACK, &cookie) }, get32(d, 0));
                std::tie(conf.tag, conf.tsn) = was;
                break;
            }
            case INIT_ACK: {
                if (d.size() < 16)
                    break;
                libTag = get32(d, 0);
                if (state != CookieWait)
                    break;
                std::vector<Param> params;
                parseParams(d, 16, params);
                for (const auto& q : params)
                    if (q.type == 7)
                        cookieToEcho = q.body;
                adopt(get32(d, 0), get32(d, 4), get32(d, 12));
                state = CookieEchoed;
                t1 = w.now();
                break;
            }
            case COOKIE_ECHO: {
                const auto it = cookies.find(d);
                PBT_CHECK(ctx, it != cookies.end(), "cookie", "a cookie which wasn't given");
                const auto& k = it->second;
                if (state == Closed && conf.freshTags) {
                    conf.tag = k.ownTag;
                    conf.tsn = k.ownTsn;
                    nextTsn = conf.tsn;
                    cumAcked = conf.tsn - 1;
                    resetSeq = conf.tsn;
                }
                if (state == Closed || state == CookieWait)
                    adopt(k.tag, k.window, k.tsn);
                emit({ Chunk{ COOKIE_ACK, 0, {} } }, peerTag);
                up();
                break;
            }
            case COOKIE_ACK:
                if (state == CookieEchoed)
                    up();
                break;
            case DATA:
                if (state == Up) {
                    dataSeen = true;
                    gap |= data(c);
                }
                break;
            case SACK:
                if (state == Up)
                    sack(d);
                break;
            case HEARTBEAT_ACK:
                beats[d] += 1;
                break;
            case RECONFIG: {
                std::vector<Param> params;
                parseParams(d, 0, params);
                for (const auto& q : params) {
                    if (q.type == 16 && q.body.size() >= 8 && reset && get32(q.body, 0) == reset->seq) {
                        const auto result = get32(q.body, 4);
                        PBT_CHECK(ctx, result <= 1 || result == 6, "reset refused", "a stream reset has result %u", result);
                        if (result == 6) {
                            inProgress += 1;
                        } else {
                            for (const auto s : reset->streams)
                                nextSsn.erase(s);
                            reset.reset();
                            tReset = INT64_MAX;
                            resetsDone += 1;
                        }
                    }
                }
                break;
            }
            default:
                break;
            }
        }
        if (dataSeen) {
            unacked += 1;
            if (gap || unacked >= conf.ackEvery)
                sendSack();
            else
                tAck = std::min(tAck, w.now() + conf.ackDelay);
        }
    }

    void adopt(uint32_t tag, uint32_t window, uint32_t tsn)
    {
        peerTag = tag;
        peerWindow = window;
        peerCum = tsn - 1;
    }

    // --- Receiving

    bool data(const Chunk& c)
    {
        if (c.body.size() <= 12)
            ctx.fail("empty data", "a DATA chunk without data");
        const auto tsn = get32(c.body, 0);
        const auto off = dist(tsn, peerCum);
        if (off <= 0 || heldNow.count(off)) {
            if (conf.dupList && dupTsns.size() < 20)
                dupTsns.push_back(tsn);
            return true;
        }
        heldNow[off] = { c.flags, c.body };
        const bool gap = off != 1 || heldNow.size() > 1;
        int32_t n = 0;
        while (!heldNow.empty() && heldNow.begin()->first == n + 1) {
            n += 1;
            const auto h = std::move(heldNow.begin()->second);
            heldNow.erase(heldNow.begin());
            inOrder(h);
        }
        shift(n);
        if (!heldNow.empty() && bad() && conf.renege && src.chance(conf.renege, 1000)) {
            reneged += heldNow.size();
            heldNow.clear();
        }
        return gap;
    }

    void shift(int32_t n)
    {
        if (n == 0)
            return;
        peerCum += static_cast<uint32_t>(n);
        std::map<int32_t, Held> m;
        for (auto& [o, h] : heldNow)
            m[o - n] = std::move(h);
        heldNow = std::move(m);
    }

    void inOrder(const Held& h)
    {
        const Bytes head(h.body.begin() + 4, h.body.begin() + 12);
        const Bytes payload(h.body.begin() + 12, h.body.end());
        const bool begin = h.flags & 2, end = h.flags & 1;
        PBT_CHECK(ctx, begin != inPart, "fragments", "%s", begin ? "a message begins inside of another one" : "a fragment of no message");
        if (begin) {
            part.clear();
            partHead = head;
            partFlags = h.flags & 4;
        }
        PBT_CHECK(ctx, head == partHead && (h.flags & 4) == partFlags, "fragments", "a fragment of another message");
        put(part, payload);
        inPart = !end;
        if (!end)
            return;
        const auto stream = get16(head, 0);
        if (!(h.flags & 4)) {
            PBT_CHECK(ctx, get16(head, 2) == ssnIn[stream], "ssn", "stream %u: sequence number %u instead of %u", stream, get16(head, 2), ssnIn[stream]);
            ssnIn[stream] += 1;
        }
        const auto ppid = get32(head, 4);
        auto* ch = find(stream, true);
        if (ppid == PPID_DCEP) {
            if (part[0] == 3) {
                PBT_CHECK(ctx, part.size() >= 12 && part.size() == 12u + get16(part, 8) + get16(part, 10), "dcep", "OPEN of %zu bytes", part.size());
                PBT_CHECK(ctx, !ch || ch->closed, "stream in use", "a channel is opened on stream %u which is in use", stream);
                Channel fresh;
                fresh.label.assign(part.begin() + 12, part.begin() + 12 + get16(part, 8));
                fresh.stream = stream;
                PBT_CHECK(ctx, part[1] == 0, "channel type", "channel type %u", part[1]);
                fresh.acked = true;
                channels.push_back(fresh);
                onOpen(channels.back());
            } else {
                PBT_CHECK(ctx, part.size() == 1 && part[0] == 2, "dcep", "neither OPEN nor ACK");
                PBT_CHECK(ctx, ch && ch->ours && !ch->acked, "dcep", "an ACK for stream %u, which doesn't wait for one", stream);
                ch->acked = true;
            }
            return;
        }
        PBT_CHECK(ctx, ch, "no channel", "a message on stream %u without a channel", stream);
        const bool empty = ppid == PPID_STRING_EMPTY || ppid == PPID_BINARY_EMPTY;
        const bool text = ppid == PPID_STRING || ppid == PPID_STRING_EMPTY;
        PBT_CHECK(ctx, empty || text || ppid == PPID_BINARY, "ppid", "payload protocol %u", ppid);
        if (onMessage)
            onMessage(*ch, text, empty ? Bytes() : part, (h.flags & 4) != 0);
    }

    std::function<void(Channel&)> onOpen = [](Channel&) {};

    Channel* find(uint16_t stream, bool orClosed = false)
    {
        Channel* out = nullptr;
        for (auto& c : channels)
            if (c.stream == stream && (orClosed || !c.closed))
                out = &c;
        return out;
    }

    Chunk sackChunk()
    {
        Chunk c{ SACK, 0, {} };
        put32(c.body, peerCum);
        auto window = conf.rwnd;
        if (conf.moody && bad()) {
            window = src.oneOf<uint32_t>({ conf.rwnd, 0u, 500u, 1500u, 5000u });
            zeroWindows += window == 0;
        }
        put32(c.body, window);
        std::vector<std::pair<int32_t, int32_t>> blocks;
        for (const auto& [o, h] : heldNow) {
            if (o > 65000)
                break;
            if (!blocks.empty() && blocks.back().second == o - 1)
                blocks.back().second = o;
            else
                blocks.push_back({ o, o });
        }
        if (blocks.size() > 200)
            blocks.resize(200);
        put16(c.body, static_cast<uint32_t>(blocks.size()));
        put16(c.body, static_cast<uint32_t>(dupTsns.size()));
        for (const auto& [f, t] : blocks) {
            put16(c.body, static_cast<uint32_t>(f));
            put16(c.body, static_cast<uint32_t>(t));
        }
        for (const auto t : dupTsns)
            put32(c.body, t);
        dupTsns.clear();
        unacked = 0;
        tAck = INT64_MAX;
        return c;
    }

    void sendSack()
    {
        const auto moody = conf.moody && bad();
        emit({ sackChunk() }, peerTag);
        if (moody) // To say so when it's over
            tAck = std::max(w.badUntil, w.now() + 50);
    }

    // --- Sending

    Channel& open(const std::string& label, uint16_t stream, bool unordered, bool partial, const std::string& protocol)
    {
        Channel c;
        c.label = label;
        c.stream = stream;
        c.unordered = unordered;
        c.partial = partial;
        c.ours = true;
        channels.push_back(c);
        Bytes b;
        put8(b, 3);
        put8(b, (unordered ? 0x80 : 0) | (partial ? 1 : 0));
        put16(b, 256);
        put32(b, partial ? 3 : 0);
        put16(b, static_cast<uint32_t>(label.size()));
        put16(b, static_cast<uint32_t>(protocol.size()));
        put(b, Bytes(label.begin(), label.end()));
        put(b, Bytes(protocol.begin(), protocol.end()));
        enqueue(stream, false, false, PPID_DCEP, b);
        return channels.back();
    }

    void acknowledgeOpen(Channel& c)
    {
        c.ackSent = true;
        enqueue(c.stream, false, false, PPID_DCEP, { 2 });
    }

    size_t send(Channel& c, bool text, const Bytes& data)
    {
        if (data.empty())
            return enqueue(c.stream, c.unordered && c.acked, c.partial && c.acked, text ? PPID_STRING_EMPTY : PPID_BINARY_EMPTY, { 0 });
        return enqueue(c.stream, c.unordered && c.acked, c.partial && c.acked, text ? PPID_STRING : PPID_BINARY, data);
    }

    size_t enqueue(uint16_t stream, bool unordered, bool partial, uint32_t ppid, const Bytes& data)
    {
        OutMessage m{ nextId++, stream, 0, unordered, partial, ppid, data };
        if (!unordered)
            m.ssn = nextSsn[stream]++;
        else
            m.ssn = static_cast<uint16_t>(src.draw(3) == 0 ? 0 : nextSsn[stream]);
        queue.push_back(std::move(m));
        if (state == Up)
            pump();
        return nextId - 1;
    }

    // Gives up on messages nobody has heard of: RFC 3758 has no way to tell. For when there is nothing else under way.
    void jump(Channel& c, uint16_t by)
    {
        OutChunk o{ nextTsn++, 3, c.stream, static_cast<uint16_t>(nextSsn[c.stream] + by - 1), PPID_BINARY, {}, nextId++, true };
        o.abandoned = true;
        nextSsn[c.stream] = static_cast<uint16_t>(nextSsn[c.stream] + by);
        abandonedIds.insert(o.id);
        flight.push_back(std::move(o));
        t3 = w.now();
    }

    void heartbeat(const Bytes& info)
    {
        Chunk c{ HEARTBEAT, 0, {} };
        putParam(c.body, 1, info);
        beats[c.body];
        emit({ c }, peerTag);
    }

    uint64_t outstanding() const
    {
        uint64_t n = 0;
        for (const auto& c : flight)
            if (!c.acked && !c.abandoned)
                n += c.data.size();
        return n;
    }

    Chunk dataChunk(const OutChunk& o) const
    {
        Chunk c{ DATA, o.flags, {} };
        put32(c.body, o.tsn);
        put16(c.body, o.stream);
        put16(c.body, o.ssn);
        put32(c.body, o.ppid);
        put(c.body, o.data);
        return c;
    }

    // In packets
    void transmit(const std::vector<OutChunk*>& list)
    {
        std::vector<Chunk> chunks;
        size_t size = 12;
        const auto flush = [&] {
            if (!chunks.empty())
                emit(std::move(chunks), peerTag);
            chunks.clear();
            size = 12;
        };
        if (conf.bundleAcks && (unacked > 0 || tAck != INT64_MAX) && !list.empty()) {
            chunks.push_back(sackChunk());
            size += chunks[0].body.size() + 4;
        }
        for (auto* o : list) {
            auto c = dataChunk(*o);
            const auto s = (c.body.size() + 7) & ~size_t(3);
            if (!chunks.empty() && (size + s > conf.mtu || !conf.bundle))
                flush();
            o->times += 1;
            size += s;
            chunks.push_back(std::move(c));
        }
        flush();
        if (!list.empty() && t3 == INT64_MAX)
            t3 = w.now() + conf.rto;
    }

    void pump()
    {
        std::vector<OutChunk*> fresh;
        auto out = outstanding();
        while (!queue.empty()) {
            auto& m = queue.front();
            const auto size = std::min(m.ppid == PPID_DCEP ? 1100 : conf.frag, m.data.size() - m.offset);
            if (out > 0 && out + size > peerWindow)
                break;
            if (flight.size() > 900)
                break;
            OutChunk c{ nextTsn++, 0, m.stream, m.ssn, m.ppid, Bytes(m.data.begin() + m.offset, m.data.begin() + m.offset + size), m.id, m.partial };
            c.flags = static_cast<uint8_t>((m.unordered ? 4 : 0) | (m.offset == 0 ? 2 : 0) | (m.offset + size == m.data.size() ? 1 : 0));
            m.offset += size;
            if (m.offset == m.data.size())
                queue.pop_front();
            out += size;
            flight.push_back(std::move(c));
            fresh.push_back(&flight.back());
        }
        transmit(fresh);
    }

    void sack(const Bytes& d)
    {
        PBT_CHECK(ctx, d.size() >= 12, "sack", "SACK of %zu bytes", d.size());
        const auto cum = get32(d, 0);
        if (dist(cum, cumAcked) < 0)
            return;
        PBT_CHECK(ctx, dist(cum, nextTsn) < 0, "sack", "tsn %u is acknowledged, which wasn't sent", cum);
        bool progress = false;
        while (!flight.empty() && dist(flight.front().tsn, cum) <= 0) {
            flight.pop_front();
            progress = true;
        }
        cumAcked = cum;
        peerWindow = get32(d, 4);
        std::set<uint32_t> acked;
        const size_t gaps = get16(d, 8);
        for (auto& c : flight) {
            const auto o = static_cast<uint32_t>(dist(c.tsn, cum));
            c.acked = false;
            for (size_t g = 0; g < gaps && 16 + 4 * g <= d.size(); g += 1)
                c.acked |= o >= get16(d, 12 + 4 * g) && o <= get16(d, 14 + 4 * g);
        }
        if (flight.empty())
            t3 = INT64_MAX;
        else if (progress)
            t3 = w.now() + conf.rto;
        pump();
    }

    void retransmit()
    {
        // RFC 3758: a message of which every part was sent can be given up
        std::set<size_t> whole;
        for (const auto& c : flight)
            if (c.flags & 1)
                whole.insert(c.id);
        std::set<size_t> fresh;
        for (auto& c : flight)
            if (c.partial && !c.acked && !c.abandoned && whole.count(c.id) && c.times >= 1 && src.chance(1, 2))
                fresh.insert(c.id);
        for (auto& c : flight)
            if (fresh.count(c.id) && !c.abandoned) {
                c.abandoned = true;
                abandonedCount += abandonedIds.insert(c.id).second;
            }
        uint32_t point = cumAcked;
        std::map<uint16_t, uint16_t> skips;
        for (auto& c : flight) {
            if (!c.abandoned)
                break;
            point = c.tsn;
            if (!(c.flags & 4))
                skips[c.stream] = c.ssn;
        }
        if (point != cumAcked) {
            forwards += 1;
            Chunk c{ FORWARD_TSN, 0, {} };
            put32(c.body, point);
            for (const auto& [s, n] : skips) {
                put16(c.body, s);
                put16(c.body, n);
            }
            emit({ c }, peerTag);
        }
        std::vector<OutChunk*> list;
        for (auto& c : flight)
            if (!c.acked && !c.abandoned && list.size() < conf.retransmitAtOnce)
                list.push_back(&c);
        // All of it is acknowledged as a gap or given up, but not yet cumulatively
        if (list.empty() && point == cumAcked)
            for (auto& c : flight)
                if (!c.abandoned) {
                    list.push_back(&c);
                    break;
                }
        t3 = flight.empty() ? INT64_MAX : w.now() + conf.rto;
        transmit(list);
    }

    void close(const std::vector<uint16_t>& streams)
    {
        reset = Reset{ streams, resetSeq++, nextTsn - 1 };
        for (const auto s : streams)
            if (auto* c = find(s))
                c->closed = true;
        tReset = w.now();
    }

    bool idle() const
    {
        return state == Up && queue.empty() && flight.empty() && !reset;
    }
};

inline RefEnd::Conf drawConf(Src& src)
{
    RefEnd::Conf c;
    c.tag = 1 + static_cast<uint32_t>(src.draw(0xfffffffd));
    switch (src.pick({ 2, 2, 1 })) {
    case 0:
        c.tsn = static_cast<uint32_t>(src.draw(20));
        break;
    case 1:
        c.tsn = 0u - static_cast<uint32_t>(src.draw(60));
        break;
    default:
        c.tsn = src.oneOf<uint32_t>({ 0x7fffffe0u, 0x80000000u, 0xffff0000u, 123456789u });
        break;
    }
    c.rwnd = static_cast<uint32_t>(src.pick({ 2, 2, 1 }) == 0 ? src.range(20000, 200000) : src.range(1500, 9000));
    switch (src.pick({ 2, 1, 1 })) {
    case 0:
        c.frag = src.size(900, 1130);
        break;
    case 1:
        c.frag = src.size(100, 900);
        break;
    default:
        c.frag = src.size(8, 100);
        break;
    }
    c.ackEvery = static_cast<unsigned>(src.size(1, 4));
    c.ackDelay = src.range(0, 200);
    c.rto = src.range(100, 1000);
    c.bundle = src.chance(1, 2);
    c.bundleAcks = src.chance(1, 3);
    c.dupList = src.chance(1, 2);
    c.starts = src.chance(1, 2);
    c.freshTags = !c.starts;
    c.extraParams = src.chance(1, 2);
    c.renege = src.chance(1, 4) ? 200 : 0;
    c.moody = src.chance(1, 4);
    c.cookie = src.chance(1, 4) ? src.size(0, 700) : src.size(8, 80);
    c.retransmitAtOnce = src.size(1, 20);
    return c;
}

} // namespace ss
