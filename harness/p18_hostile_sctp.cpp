// P18: arbitrary data channel packets cannot crash or corrupt a session
#include "sctp_scenarios.h"

using namespace pbt;
using namespace ss;

namespace
{

void ignoredSessions(Src& src, Ctx& ctx)
{
    pairScenario(src, ctx, { false, true, true, true });
}

void ignoredPeer(Src& src, Ctx& ctx)
{
    peerScenario(src, ctx, { false, true, true, true });
}

// Damages what it was given, and keeps what was said
struct HostileEnd : RefEnd {
    std::vector<Bytes> heard; // Packets of the library
    uint32_t libTsn = 0, lastTsn = 0;
    std::vector<Bytes> cookiesHeard;

    using RefEnd::RefEnd;

    void receive(const Bytes& b) override
    {
        Packet p;
        const auto why = parse(b, p);
        PBT_CHECK(ctx, why == nullptr, "malformed packet", "%s: %s", why, pbt::hex(b).c_str());
        if (heard.size() < 30)
            heard.push_back(b);
        for (const auto& c : p.chunks) {
            if ((c.type == INIT || c.type == INIT_ACK) && c.body.size() >= 16) {
                libTag = get32(c.body, 0);
                libTsn = lastTsn = get32(c.body, 12);
                std::vector<Param> params;
                parseParams(c.body, 16, params);
                for (const auto& q : params)
                    if (q.type == 7)
                        cookiesHeard.push_back(q.body);
            } else if (c.type == DATA && c.body.size() > 12) {
                lastTsn = get32(c.body, 0);
            }
        }
        // The rest has no claim to be right after what was said
        if (polite)
            RefEnd::receive(b);
    }

    bool polite = true;
};

uint16_t number16(Src& src)
{
    switch (src.pick({ 3, 1, 1 })) {
    case 0:
        return static_cast<uint16_t>(src.draw(12));
    case 1:
        return static_cast<uint16_t>(65535 - src.draw(8));
    default:
        return src.u16();
    }
}

uint32_t near(Src& src, uint32_t v)
{
    switch (src.pick({ 6, 2, 1, 1 })) {
    case 0:
        return v + static_cast<uint32_t>(src.range(-2, 6));
    case 1:
        return v + static_cast<uint32_t>(src.range(-3000, 3000));
    case 2:
        return v + src.oneOf<uint32_t>({ 0x7fffffffu, 0x80000000u, 0x80000001u, 0xffffu, 0x10000u, 0x10001u });
    default:
        return src.u32();
    }
}

Bytes hostileParams(Src& src, Bytes b)
{
    for (auto n = src.size(0, 4); n > 0; n -= 1) {
        put16(b, src.oneOf<uint32_t>({ 7, 13, 16, 14, 0xc000, 0x8008, 1, 0x8002 }));
        const auto body = src.blob(src.size(0, 40));
        put16(b, src.pick({ 3, 1, 1 }) == 0 ? static_cast<uint32_t>(4 + body.size()) : number16(src));
        put(b, body);
        if (!src.chance(1, 4))
            while (b.size() & 3)
                b.push_back(0);
    }
    return b;
}

Chunk hostileChunk(Src& src, HostileEnd& e, uint32_t& ownTsn)
{
    Chunk c{ 0, src.chance(1, 6) ? src.u8() : uint8_t(0), {} };
    auto& b = c.body;
    switch (src.pick({ 8, 3, 2, 2, 2, 2, 3, 3, 2, 2 })) {
    case 0: {
        c.type = DATA;
        c.flags = src.chance(1, 8) ? src.u8() : src.oneOf<uint8_t>({ 3, 3, 2, 0, 1, 7, 6, 4, 5 });
        put32(b, src.pick({ 4, 3 }) == 0 ? ownTsn++ : near(src, ownTsn));
        put16(b, number16(src));
        put16(b, number16(src));
        const auto ppid = src.oneOf<uint32_t>({ 50, 51, 53, 56, 57, 50, 0, 52 });
        put32(b, ppid);
        if (ppid == 50 && src.chance(3, 4)) {
            put8(b, src.oneOf<uint8_t>({ 3, 3, 2, 0 }));
            put8(b, src.u8());
            put16(b, number16(src));
            put32(b, src.u32());
            const auto label = src.blob(src.size(0, 30));
            put16(b, src.pick({ 3, 1 }) == 0 ? static_cast<uint32_t>(label.size()) : number16(src));
            put16(b, number16(src));
            put(b, label);
        } else {
            put(b, src.blob(src.pick({ 3, 1 }) == 0 ? src.size(0, 20) : src.size(0, 1100)));
        }
        break;
    }
    case 1: {
        c.type = SACK;
        put32(b, near(src, e.lastTsn));
        put32(b, src.pick({ 1, 1 }) == 0 ? 100000 : src.u32());
        const auto gaps = src.size(0, 8);
        put16(b, src.pick({ 3, 1 }) == 0 ? static_cast<uint32_t>(gaps) : number16(src));
        put16(b, src.pick({ 3, 1 }) == 0 ? 0 : number16(src));
        for (size_t g = 0; g < gaps; g += 1) {
            put16(b, number16(src));
            put16(b, number16(src));
        }
        break;
    }
    case 2:
        c.type = src.chance(1, 2) ? INIT : INIT_ACK;
        put32(b, src.pick({ 2, 1 }) == 0 ? e.conf.tag : src.u32());
        put32(b, src.u32());
        put16(b, number16(src));
        put16(b, number16(src));
        put32(b, near(src, ownTsn));
        b = hostileParams(src, b);
        break;
    case 3:
        c.type = COOKIE_ECHO;
        if (!e.cookiesHeard.empty()) {
            b = src.elem(e.cookiesHeard);
            if (src.chance(1, 2) && !b.empty())
                b[src.size(0, b.size() - 1)] ^= static_cast<uint8_t>(1 << src.draw(7));
        } else {
            b = src.blob(src.size(0, 80));
        }
        break;
    case 4:
        c.type = src.oneOf<uint8_t>({ COOKIE_ACK, ABORT, SHUTDOWN, SHUTDOWN_ACK, SHUTDOWN_COMPLETE, ERROR, HEARTBEAT_ACK });
        b = src.blob(src.size(0, 12));
        break;
    case 5:
        c.type = HEARTBEAT;
        b = src.blob(src.pick({ 3, 1 }) == 0 ? src.size(0, 40) : src.size(0, 3900));
        break;
    case 6: {
        c.type = FORWARD_TSN;
        const auto to = near(src, ownTsn);
        put32(b, to);
        if (dist(to, ownTsn) >= 0 && src.chance(2, 3))
            ownTsn = to + 1;
        for (auto n = src.size(0, 6); n > 0; n -= 1) {
            put16(b, number16(src));
            put16(b, number16(src));
        }
        break;
    }
    case 7: {
        c.type = RECONFIG;
        Bytes q;
        put32(q, near(src, e.resetSeq));
        put32(q, src.u32());
        put32(q, near(src, ownTsn - 1));
        for (auto n = src.size(0, 6); n > 0; n -= 1)
            put16(q, number16(src));
        putParam(b, 13, q);
        if (src.chance(1, 2))
            b = hostileParams(src, b);
        break;
    }
    case 8:
        c.type = src.u8();
        b = src.blob(src.size(0, 60));
        break;
    default: { // One of the library's own
        Packet p;
        if (e.heard.empty() || parse(src.elem(e.heard), p) != nullptr)
            break;
        c = src.elem(p.chunks);
        break;
    }
    }
    // Cut, or with more at its end
    if (src.chance(1, 6))
        b.resize(src.size(0, b.size()));
    else if (src.chance(1, 12))
        put(b, src.blob(src.size(1, 9)));
    return c;
}

void hostile(Src& src, Ctx& ctx)
{
    World w(src, ctx);
    sim::seedRandom(src.u64());
    w.delay = 2;
    auto conf = drawConf(src);
    conf.moody = false;
    drawNumbers(src);
    std::vector<std::string> labels;
    for (auto k = src.size(0, 2); k > 0; k -= 1)
        labels.push_back("channel " + std::to_string(k));
    LibEnd lib(w, 0, 5000, 5000, src.chance(1, 2) ? 0 : 5000, src.chance(1, 2), labels, false);
    HostileEnd peer(w, 1, conf);
    peer.onOpen = [&](RefEnd::Channel& c) {
        if (src.chance(1, 2))
            peer.acknowledgeOpen(c);
    };
    const bool early = src.chance(1, 4), start = src.chance(5, 6);
    if (start && !early)
        lib.session->start();
    if (conf.starts)
        peer.start();
    if (!early)
        w.runTo(w.now() + src.range(0, 500));
    const bool up = peer.state == RefEnd::Up;
    peer.polite = false;
    peer.t1 = peer.t3 = peer.tAck = peer.tReset = INT64_MAX;
    uint32_t ownTsn = peer.nextTsn;
    size_t accepted = 0, total = 0;
    for (auto n = src.size(1, 40); n > 0; n -= 1) {
        if (start && early && n == 2)
            lib.session->start();
        switch (src.pick({ 12, 1, 1 })) {
        case 1:
            w.runTo(w.now() + src.range(1, 3000));
            continue;
        case 2:
            if (!labels.empty())
                lib.send(src.elem(labels), false, src.blob(src.size(0, 5000)));
            continue;
        default:
            break;
        }
        Packet p{ 5000, 5000, peer.libTag, {} };
        for (auto k = src.pick({ 4, 1 }) == 0 ? 1 : src.size(0, 5); k > 0; k -= 1)
            p.chunks.push_back(hostileChunk(src, peer, ownTsn));
        if (!p.chunks.empty() && p.chunks[0].type == INIT && !src.chance(1, 8))
            p.tag = 0;
        auto b = build(p);
        if (src.chance(1, 12))
            p.tag = src.u32();
        switch (src.pick({ 8, 1, 1, 1 })) {
        case 1: // The length of a chunk
            if (b.size() >= 16) {
                const auto v = number16(src);
                b[14] = static_cast<uint8_t>(v >> 8);
                b[15] = static_cast<uint8_t>(v);
            }
            break;
        case 2:
            b.resize(src.size(0, b.size()));
            break;
        case 3:
            for (auto k = src.size(1, 4); k > 0 && b.size() > 12; k -= 1)
                b[src.size(12, b.size() - 1)] = src.u8();
            break;
        default:
            break;
        }
        seal(b);
        const auto out = lib.packetsOut, events = lib.eventsOut;
        if (ctx.verbose())
            ctx.note("%6lld  %s", static_cast<long long>(w.now()), pbt::hex(b, 80).c_str());
        lib.receive(b);
        total += 1;
        accepted += lib.packetsOut != out || lib.eventsOut != events;
        PBT_CHECK(ctx, lib.packetsOut - out <= 2000 && lib.eventsOut - events <= 70000, "flood", "%zu packets and %zu events in return for one packet",
                  lib.packetsOut - out, lib.eventsOut - events);
    }
    w.runTo(w.now() + 1000);
    if (accepted > 1)
        ctx.nontrivial();
    ctx.tagN("packets", total);
    ctx.tagN("packets with an effect", accepted);
    ctx.tag(up ? "established before" : "not established before");
}

// What a session gives away in its INIT ACK comes back: in time and as it was, or not at all
void cookies(Src& src, Ctx& ctx)
{
    World w(src, ctx);
    sim::seedRandom(src.u64());
    LibEnd lib(w, 0, 5000, 5000, 0, src.chance(1, 2), { "one" }, false);
    LibEnd other(w, 1, 5000, 5000, 0, src.chance(1, 2), { "two" }, false);
    w.ends[1] = nullptr;
    std::vector<Bytes> said;
    w.capture = &said;
    if (src.chance(1, 2))
        lib.session->start();
    w.runTo(w.now() + src.range(0, 3000));
    const uint32_t tag = 1 + static_cast<uint32_t>(src.draw(0xfffffff0)), tsn = src.u32();
    const auto ask = [&](LibEnd& e, uint32_t& itsTag) {
        Chunk c{ INIT, 0, {} };
        put32(c.body, tag);
        put32(c.body, 100000);
        put16(c.body, 10);
        put16(c.body, 10);
        put32(c.body, tsn);
        said.clear();
        e.receive(build({ 5000, 5000, 0, { c } }));
        Packet p;
        PBT_CHECK(ctx, said.size() == 1 && parse(said[0], p) == nullptr && p.chunks.size() == 1 && p.chunks[0].type == INIT_ACK && p.chunks[0].body.size() >= 16 && p.tag == tag,
                  "init ack", "INIT isn't answered");
        itsTag = get32(p.chunks[0].body, 0);
        std::vector<Param> params;
        parseParams(p.chunks[0].body, 16, params);
        for (const auto& q : params)
            if (q.type == 7)
                return q.body;
        ctx.fail("init ack", "INIT ACK has no cookie");
    };
    uint32_t libTag = 0, otherTag = 0;
    auto cookie = ask(lib, libTag);
    const auto foreign = ask(other, otherTag);
    const auto kind = src.pick({ 2, 3, 1, 2 });
    int64_t age = src.range(0, 20);
    switch (kind) {
    case 1:
        cookie[src.size(0, cookie.size() - 1)] ^= static_cast<uint8_t>(1 << src.draw(7));
        break;
    case 2:
        cookie = foreign;
        break;
    case 3:
        age = src.range(100, 40000);
        break;
    default:
        break;
    }
    sim::advanceMillis(1000 * age);
    ctx.note("a cookie %s, after %lld s", kind == 0 || kind == 3 ? "as it was" : kind == 1 ? "with another bit" : "of another session", static_cast<long long>(age));
    const auto events = lib.eventsOut;
    const auto say = [&](Chunk c) {
        said.clear();
        lib.receive(build({ 5000, 5000, libTag, { std::move(c) } }));
        return said.size();
    };
    say({ COOKIE_ECHO, 0, cookie });
    Packet p;
    bool accepted = false;
    for (const auto& b : said)
        accepted |= parse(b, p) == nullptr && p.chunks[0].type == COOKIE_ACK;
    PBT_CHECK(ctx, accepted == (kind == 0), "cookie", "a cookie is %s", accepted ? "accepted" : "refused");
    PBT_CHECK(ctx, accepted || said.empty(), "not ignored", "%zu packets in return for a wrong cookie", said.size());
    Chunk open{ DATA, 3, {} };
    put32(open.body, tsn);
    put16(open.body, 8);
    put16(open.body, 0);
    put32(open.body, PPID_DCEP);
    put(open.body, { 3, 0, 1, 0, 0, 0, 0, 0, 0, 1, 0, 0, 'x' });
    say(open);
    PBT_CHECK(ctx, (lib.eventsOut != events) == (kind == 0), "association", "a channel %s after the cookie", lib.eventsOut != events ? "opens" : "doesn't open");
    ctx.nontrivial();
    ctx.tag(kind == 0 ? "cookies accepted" : kind == 1 ? "cookies altered" : kind == 2 ? "cookies of others" : "cookies out of date");
}

} // namespace

int main(int argc, char** argv)
{
    return run(argc, argv,
               { "P18",
                 "cookies: all; hostile: at least 2 packets had an effect; ignored: at least 2 messages were delivered",
                 { "the network becomes good in the end" },
                 { { "hostile", 5, hostile }, { "ignored-sessions", 1, ignoredSessions }, { "ignored-peer", 1, ignoredPeer }, { "cookies", 1, cookies } } });
}
