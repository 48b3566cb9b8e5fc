// Histories of data channel sessions: two of the library, and one of the library with an independent peer
#pragma once

#include "sctp_sim.h"

namespace ss
{

struct Opt {
    bool monitor = false;  // Judge the packets
    bool delivery = false; // Judge the messages
    bool opening = false;  // Judge the channels
    bool attack = false;   // With packets in between which have to be ignored
};

struct Said {
    size_t id;
    bool text;
    Bytes data;
};

// What is to arrive on a channel in one direction
struct Flow {
    std::deque<Said> due;
    bool ordered = true, optional = false;
    size_t arrived = 0;
};

inline bool textKind(Src& src)
{
    return src.chance(1, 2);
}

inline size_t messageSize(Src& src, bool huge)
{
    switch (src.pick({ 6, 2, 3, 2, 2, huge ? 1u : 0u })) {
    case 0:
        return src.size(1, 100);
    case 1:
        return 0;
    case 2:
        return src.size(1095, 1105);
    case 3:
        return 1100 * src.size(2, 4) + src.size(0, 2) - 1;
    case 4:
        return src.size(100, 12000);
    default:
        return src.size(100000, 250000);
    }
}

inline std::string drawLabel(Src& src, size_t n)
{
    std::string s;
    switch (src.pick({ 6, 1, 1, 1 })) {
    case 0:
        s = "channel-";
        break;
    case 1:
        s = "\xd0\xba\xd0\xb0\xd0\xbd\xd0\xb0\xd0\xbb ";
        break;
    case 2:
        s = std::string(src.size(1, 900), 'x');
        break;
    default:
        if (n == 0)
            return "";
        s = " ";
        break;
    }
    return s + std::to_string(n);
}

// So that the numbers of the library wrap: the random device seeds its generator once
inline void drawNumbers(Src& src, size_t side = 0)
{
    static const uint32_t seeds[] = {
        2180022u, 5113050u, 5927148u, 20675268u, 21946421u, 23330562u, 30066990u, 122868759u, 141350809u, 142431535u,
        233651495u, 251666724u, 272838000u, 310537330u, 368639432u, 418488773u, 439942723u, 458944427u, 467081101u, 493461857u,
        506936186u, 579343809u, 740192497u, 784391234u, 1334504581u, 1508589752u, 1555482224u, 1637877808u, 1641040012u, 1669190779u,
        1733683858u, 1770663921u, 1792903164u, 1814991430u, 1909886365u, 2018340605u, 2297944771u, 2308386972u, 2380838437u, 2384373375u,
        2478115996u, 2533497802u, 3043098718u, 3084994975u, 3115774623u, 3216529998u, 3320039933u, 3512678260u, 3544906133u, 3565058634u,
        3762108329u, 3801727556u, 3879629135u, 3880390359u, 3998169835u, 4038584667u, 4073414128u, 4133498512u, 4258431354u
    };
    constexpr auto count = std::size(seeds) / 2;
    if (const auto n = src.draw(3 * count - 1); n >= 2 * count)
        sim::forceDevice(seeds[2 * (n - 2 * count) + side]);
}

inline std::string brief(const Bytes& b)
{
    return std::to_string(b.size()) + " bytes " + pbt::hex(b, 12);
}

// Two sessions of the library
inline void pairScenario(Src& src, Ctx& ctx, const Opt& opt)
{
    World w(src, ctx);
    sim::seedRandom(src.u64());
    drawNetwork(w, src, 5000);
    const uint16_t ports[2] = { 5000, src.chance(1, 3) ? src.u16() : uint16_t(5000) };
    std::vector<std::string> labels[2];
    size_t n = 0;
    for (auto& l : labels)
        for (auto k = src.size(0, 3); k > 0; k -= 1)
            l.push_back(drawLabel(src, n++));
    if (labels[0].empty() && labels[1].empty())
        labels[0].push_back("only");
    if (!labels[0].empty() && !labels[1].empty() && src.chance(1, 6))
        labels[1][0] = labels[0][0];
    const bool swap = src.chance(1, 2); // Who is the DTLS client
    uint32_t maxMessage[2];
    for (auto& m : maxMessage)
        m = src.pick({ 2, 1 }) == 0 ? 0 : static_cast<uint32_t>(src.range(1000, 100000));

    std::map<std::string, Flow> flows[2]; // By who receives
    std::map<std::string, unsigned> opens[2], expectOpens;
    for (const auto& l : labels)
        for (const auto& s : l)
            expectOpens[s] += 1;

    std::unique_ptr<LibEnd> ends[2];
    size_t messages = 0;
    for (int i = 0; i < 2; i += 1) {
        drawNumbers(src, i);
        ends[i] = std::make_unique<LibEnd>(w, i, ports[i], ports[1 - i], maxMessage[i], (i == 0) == swap, labels[i], opt.monitor);
        if (opt.attack)
            ends[i]->attack = static_cast<unsigned>(src.size(20, 300));
        ends[i]->onEvent = [&, i](const Event& e) {
            switch (e.kind) {
            case Event::Open:
                opens[i][e.label] += 1;
                ctx.note("%6lld  %d: \"%s\" is open", static_cast<long long>(w.now()), i, e.label.substr(0, 20).c_str());
                if (opt.opening) {
                    PBT_CHECK(ctx, opens[i][e.label] <= expectOpens[e.label], "opened again", "side %d: \"%s\" is reported open %u times, for %u channels", i,
                              e.label.c_str(), opens[i][e.label], expectOpens[e.label]);
                    PBT_CHECK(ctx, ends[i]->session->isChannelOpen(e.label), "not open", "side %d: \"%s\" was reported open and isn't", i, e.label.c_str());
                }
                break;
            case Event::Close:
                PBT_CHECK(ctx, !opt.opening, "closed", "side %d: \"%s\" is closed", i, e.label.c_str());
                break;
            default: {
                messages += 1;
                if (opt.opening)
                    PBT_CHECK(ctx, opens[i][e.label] > 0, "message before open", "side %d: a message on \"%s\" which wasn't reported open", i, e.label.c_str());
                if (!opt.delivery)
                    break;
                auto& f = flows[i][e.label];
                PBT_CHECK(ctx, !f.due.empty(), "extra message", "side %d: a message on \"%s\" which wasn't sent, or was received before: %s", i,
                          e.label.substr(0, 20).c_str(), brief(e.data).c_str());
                const auto& d = f.due.front();
                PBT_CHECK(ctx, d.data == e.data && d.text == (e.kind == Event::Text), "wrong message", "side %d on \"%s\": %s (%s) instead of %s (%s)", i,
                          e.label.substr(0, 20).c_str(), brief(e.data).c_str(), e.kind == Event::Text ? "text" : "binary", brief(d.data).c_str(),
                          d.text ? "text" : "binary");
                f.due.pop_front();
                f.arrived += 1;
                break;
            }
            }
        };
    }
    ctx.note("two sessions: delay %lld ms + %lld, loss %u, duplicates %u in 1000 until %lld ms; %zu and %zu channels, largest message %u and %u",
             static_cast<long long>(w.delay), static_cast<long long>(w.jitter), w.loss, w.dup, static_cast<long long>(w.badUntil), labels[0].size(),
             labels[1].size(), maxMessage[0], maxMessage[1]);

    const int first = static_cast<int>(src.draw(1));
    ends[first]->session->start();
    if (const auto d = src.pick({ 2, 1 }) == 0 ? 0 : src.range(1, 1500); d > 0)
        w.runTo(w.now() + d);
    ends[1 - first]->session->start();

    std::vector<std::string> all;
    for (const auto& [l, k] : expectOpens)
        all.push_back(l);
    const auto allOpen = [&] {
        for (int i = 0; i < 2; i += 1)
            for (const auto& [l, k] : expectOpens)
                if (opens[i][l] < k)
                    return false;
        return true;
    };
    size_t said = 0, chunks = 0, dropped = 0;
    const auto opened = [&] {
        // The opening of a channel can wait for messages sent before, a lost packet of which is sent again after 250 ms
        const auto ok = w.until(allOpen, std::max<int64_t>(0, w.badUntil - w.now()) + 20000 + static_cast<int64_t>(chunks) * (400 + 2 * w.delay));
        PBT_CHECK(ctx, ok, "not opened", "not all channels are open %lld ms after the network became good", static_cast<long long>(w.now() - w.badUntil));
    };

    if (!src.chance(1, 3)) {
        opened();
        if (src.chance(3, 4))
            w.badUntil = w.now() + src.range(0, 6000);
    }
    for (auto steps = src.size(1, 22); steps > 0; steps -= 1) {
        if (src.chance(1, 2))
            w.runTo(w.now() + src.range(0, 400));
        const int from = static_cast<int>(src.draw(1));
        const auto& label = src.elem(all);
        const bool text = textKind(src);
        auto size = messageSize(src, said < 3);
        if (maxMessage[from] && src.chance(1, 8))
            size = maxMessage[from] + src.size(0, 2) - 1;
        const auto data = src.blob(size);
        if (!ends[from]->session->isChannelOpen(label))
            continue;
        if (maxMessage[from] == 0 || size <= maxMessage[from]) {
            flows[1 - from][label].due.push_back({ said, text, data });
            chunks += size / 1100 + 1;
            said += 1;
        } else {
            dropped += 1;
        }
        ctx.note("%6lld  %d: sends %s (%s) on \"%s\"", static_cast<long long>(w.now()), from, brief(data).c_str(), text ? "text" : "binary", label.substr(0, 20).c_str());
        ends[from]->send(label, text, data);
    }
    opened();
    const auto done = [&] {
        for (const auto& m : flows)
            for (const auto& [l, f] : m)
                if (!f.due.empty())
                    return false;
        return true;
    };
    const auto limit = std::max<int64_t>(0, w.badUntil - w.now()) + 20000 + static_cast<int64_t>(chunks) * (400 + 2 * w.delay);
    if (opt.delivery) {
        if (!w.until(done, limit)) {
            for (int i = 0; i < 2; i += 1)
                for (const auto& [l, f] : flows[i])
                    PBT_CHECK(ctx, f.due.empty(), "message lost", "side %d: %zu messages on \"%s\" have not arrived, the first is message %zu: %s", i, f.due.size(),
                              l.substr(0, 20).c_str(), f.due.front().id, brief(f.due.front().data).c_str());
        }
    } else {
        w.runTo(w.now() + std::min<int64_t>(limit, 15000));
    }
    w.runTo(w.now() + 2000);
    if (opt.opening) {
        for (int i = 0; i < 2; i += 1)
            for (const auto& l : all)
                PBT_CHECK(ctx, ends[i]->session->isChannelOpen(l), "not open", "side %d: \"%s\" isn't open", i, l.c_str());
    }
    if (w.lost + w.duplicated + w.reordered > 0 && messages > 1)
        ctx.nontrivial();
    ctx.tagN("messages delivered", messages);
    ctx.tagN("datagrams lost", w.lost);
    ctx.tagN("datagrams duplicated", w.duplicated);
    ctx.tagN("datagrams reordered", w.reordered);
    ctx.tagN("messages too large", dropped);
    for (const auto& e : ends) {
        if (opt.attack)
            ctx.tagN("packets to be ignored", e->attacks);
        if (!opt.monitor)
            continue;
        ctx.tagN("data chunks judged", e->monitor.dataPackets);
        ctx.tagN("retransmissions judged", e->monitor.retransmissions);
        ctx.tagN("acknowledgments with gaps judged", e->monitor.gapSacks);
    }
}

// One session of the library, and a peer
inline void peerScenario(Src& src, Ctx& ctx, const Opt& opt)
{
    World w(src, ctx);
    sim::seedRandom(src.u64());
    drawNetwork(w, src, 5000);
    auto conf = drawConf(src);
    conf.local = src.chance(1, 3) ? src.u16() : uint16_t(5000);
    const bool remoteActive = src.chance(1, 2);
    const uint16_t ownParity = remoteActive ? 0 : 1; // The peer's: the DTLS client has the even ones
    std::vector<std::string> libLabels;
    size_t n = 0;
    for (auto k = src.size(0, 3); k > 0; k -= 1)
        libLabels.push_back(drawLabel(src, n++));
    const auto maxMessage = src.pick({ 2, 1 }) == 0 ? 0u : static_cast<uint32_t>(src.range(1000, 100000));
    drawNumbers(src);
    LibEnd lib(w, 0, 5000, conf.local, maxMessage, remoteActive, libLabels, opt.monitor);
    if (opt.attack)
        lib.attack = static_cast<unsigned>(src.size(20, 300));
    RefEnd ref(w, 1, conf);

    std::map<std::string, Flow> toLib, toRef;
    std::map<std::string, unsigned> opens, closes;
    std::set<std::string> refClosed;
    size_t messages = 0;

    lib.onEvent = [&](const Event& e) {
        switch (e.kind) {
        case Event::Open:
            ctx.note("%6lld  library: \"%s\" is open", static_cast<long long>(w.now()), e.label.substr(0, 20).c_str());
            opens[e.label] += 1;
            if (opt.opening) {
                PBT_CHECK(ctx, opens[e.label] == 1, "opened again", "\"%s\" is reported open %u times", e.label.c_str(), opens[e.label]);
                bool known = false;
                for (const auto& c : ref.channels)
                    known |= c.label == e.label;
                PBT_CHECK(ctx, known, "unknown channel", "\"%s\" is reported open", e.label.c_str());
                PBT_CHECK(ctx, lib.session->isChannelOpen(e.label), "not open", "\"%s\" was reported open and isn't", e.label.c_str());
            }
            break;
        case Event::Close:
            ctx.note("%6lld  library: \"%s\" is closed", static_cast<long long>(w.now()), e.label.substr(0, 20).c_str());
            closes[e.label] += 1;
            if (opt.opening) {
                PBT_CHECK(ctx, refClosed.count(e.label) && closes[e.label] == 1, "closed", "\"%s\" is reported closed", e.label.c_str());
                PBT_CHECK(ctx, opens[e.label] == 1, "closed before open", "\"%s\" is reported closed before it was open", e.label.c_str());
            }
            break;
        default: {
            messages += 1;
            if (opt.opening) {
                PBT_CHECK(ctx, opens[e.label] > 0, "message before open", "a message on \"%s\" which wasn't reported open", e.label.c_str());
                PBT_CHECK(ctx, closes[e.label] == 0, "message after close", "a message on \"%s\" which is closed", e.label.c_str());
            }
            if (!opt.delivery)
                break;
            auto& f = toLib[e.label];
            const bool text = e.kind == Event::Text;
            const auto same = [&](const Said& s) { return s.text == text && s.data == e.data; };
            if (f.ordered) {
                while (!f.due.empty() && !same(f.due.front()) && ref.abandonedIds.count(f.due.front().id))
                    f.due.pop_front();
            } else {
                const auto it = std::find_if(f.due.begin(), f.due.end(), same);
                if (it != f.due.end())
                    std::rotate(f.due.begin(), it, it + 1);
            }
            PBT_CHECK(ctx, !f.due.empty(), "extra message", "a message on \"%s\" which wasn't sent, or was received before: %s", e.label.substr(0, 20).c_str(),
                      brief(e.data).c_str());
            PBT_CHECK(ctx, same(f.due.front()), "wrong message", "on \"%s\": %s (%s) instead of %s (%s)", e.label.substr(0, 20).c_str(), brief(e.data).c_str(),
                      text ? "text" : "binary", brief(f.due.front().data).c_str(), f.due.front().text ? "text" : "binary");
            f.due.pop_front();
            f.arrived += 1;
            break;
        }
        }
    };

    std::set<std::string> openedByLib;
    ref.onOpen = [&](RefEnd::Channel& c) {
        if (opt.opening) {
            PBT_CHECK(ctx, std::count(libLabels.begin(), libLabels.end(), c.label) == 1, "label", "a channel \"%s\" which wasn't asked for", c.label.c_str());
            PBT_CHECK(ctx, openedByLib.insert(c.label).second, "opened again", "\"%s\" is opened twice", c.label.c_str());
            PBT_CHECK(ctx, (c.stream & 1) != ownParity, "stream id", "\"%s\" is opened on stream %u, which is for the other side to use", c.label.c_str(), c.stream);
        }
        if (src.chance(2, 3))
            ref.acknowledgeOpen(c);
    };
    ref.onMessage = [&](RefEnd::Channel& c, bool text, const Bytes& data, bool unordered) {
        messages += 1;
        if (opt.opening)
            PBT_CHECK(ctx, unordered == c.unordered, "ordering", "a message on \"%s\" is %s, unlike the channel", c.label.c_str(), unordered ? "unordered" : "ordered");
        if (!opt.delivery || c.closed)
            return;
        auto& f = toRef[c.label];
        const auto same = [&](const Said& s) { return s.text == text && s.data == data; };
        if (!f.ordered) {
            const auto it = std::find_if(f.due.begin(), f.due.end(), same);
            if (it != f.due.end())
                std::rotate(f.due.begin(), it, it + 1);
        }
        PBT_CHECK(ctx, !f.due.empty(), "extra message", "the peer gets a message on \"%s\" which wasn't sent, or was received before: %s",
                  c.label.substr(0, 20).c_str(), brief(data).c_str());
        PBT_CHECK(ctx, same(f.due.front()), "wrong message", "the peer gets on \"%s\": %s (%s) instead of %s (%s)", c.label.substr(0, 20).c_str(),
                  brief(data).c_str(), text ? "text" : "binary", brief(f.due.front().data).c_str(), f.due.front().text ? "text" : "binary");
        f.due.pop_front();
        f.arrived += 1;
    };

    ctx.note("a session and a peer: delay %lld ms + %lld, loss %u, duplicates %u in 1000 until %lld ms; peer's tsn %08x, window %u%s, fragments %zu, acks every %u or %lld ms, "
             "%s%s%s; library's largest message %u",
             static_cast<long long>(w.delay), static_cast<long long>(w.jitter), w.loss, w.dup, static_cast<long long>(w.badUntil), conf.tsn, conf.rwnd,
             conf.moody ? " (changing)" : "", conf.frag, conf.ackEvery, static_cast<long long>(conf.ackDelay), conf.starts ? "both start, " : "",
             conf.bundle ? "bundles, " : "", conf.renege ? "drops what came early, " : "", maxMessage);

    // With right checksum and tag, but to be ignored where things stand
    size_t forgeries = 0;
    const auto forge = [&] {
        if (ref.libTag == 0)
            return;
        const bool up = ref.state == RefEnd::Up;
        Packet p{ conf.local, 5000, ref.libTag, {} };
        const auto add = [&](uint8_t type, Bytes body, uint8_t flags = 0) { p.chunks.push_back({ type, flags, std::move(body) }); };
        const auto initBody = [&](uint32_t tag, bool cookie) {
            Bytes b;
            put32(b, tag);
            put32(b, 100000);
            put16(b, 100);
            put16(b, 100);
            put32(b, src.u32());
            if (cookie)
                putParam(b, 7, src.blob(40));
            return b;
        };
        const auto other = [&] {
            const auto t = src.chance(1, 2) ? ref.conf.tag ^ 1u << src.draw(31) : src.u32();
            return t == 0 || t == ref.conf.tag || t == ref.libTag ? ref.conf.tag + 1 : t;
        };
        size_t answers = 0;
        const char* what = "";
        switch (src.pick({ 3, 2, 2, 2, 2, 2, 2, 2, 2, 2 })) {
        case 0: { // The library doesn't know the cookie
            what = "COOKIE ECHO, not the library's";
            auto b = src.blob(src.chance(1, 2) ? 56 : src.size(0, 80));
            add(COOKIE_ECHO, b);
            break;
        }
        case 1:
            what = "INIT ACK for no INIT";
            if (!up)
                return;
            add(INIT_ACK, initBody(other(), true));
            break;
        case 2:
            what = "INIT ACK without cookie, or with zeros";
            add(INIT_ACK, initBody(src.chance(1, 2) ? 0 : other(), false));
            if (src.chance(1, 3)) {
                p.chunks[0].body = initBody(other(), true);
                p.chunks[0].body[src.chance(1, 2) ? 9 : 11] = 0;
            }
            break;
        case 3:
            what = "COOKIE ACK for nothing";
            // There may be a cookie which is to be acknowledged
            if (opens.empty() && (up || ref.initsAnswered > 0))
                return;
            add(COOKIE_ACK, {});
            break;
        case 4: {
            what = "SACK for what wasn't sent";
            Bytes b;
            put32(b, ref.peerCum + 100000 + static_cast<uint32_t>(src.draw(1000000)));
            put32(b, src.chance(1, 2) ? 0 : 1000000);
            put32(b, 0);
            add(SACK, b);
            break;
        }
        case 5: {
            what = "SACK which is cut";
            Bytes b;
            put32(b, ref.peerCum + static_cast<uint32_t>(src.draw(2)));
            put32(b, 1000000);
            put16(b, 3);
            put16(b, 0);
            put(b, src.blob(src.size(0, 11)));
            if (src.chance(1, 3))
                b.resize(src.size(0, 11));
            add(SACK, b);
            break;
        }
        case 6: {
            what = "DATA which is cut";
            Bytes b;
            put32(b, ref.nextTsn + static_cast<uint32_t>(src.draw(2)));
            put32(b, 0);
            put32(b, PPID_STRING);
            b.resize(src.size(0, 11));
            add(DATA, b, 3);
            break;
        }
        case 7: {
            what = "INIT bundled, or with zeros";
            p.tag = 0;
            add(INIT, initBody(other(), false));
            if (src.chance(1, 2))
                add(COOKIE_ACK, {});
            else
                p.chunks[0].body[src.chance(1, 2) ? 9 : 11] = 0;
            break;
        }
        case 8: {
            what = "a chunk of unknown type, or RECONFIG and FORWARD TSN which are cut";
            static const uint8_t types[] = { 5, 64, 128, 193, 255, ERROR, SHUTDOWN_COMPLETE };
            if (src.chance(1, 2))
                add(types[src.draw(std::size(types) - 1)], src.blob(src.size(0, 20)));
            else if (src.chance(1, 2))
                add(FORWARD_TSN, src.blob(src.size(0, 3)));
            else {
                Bytes b;
                putParam(b, 13, src.blob(src.size(0, 11)));
                add(RECONFIG, b);
            }
            break;
        }
        default: { // To be answered, but nothing more
            what = "INIT of another association";
            p.tag = 0;
            add(INIT, initBody(other(), false));
            answers = 1;
            break;
        }
        }
        const auto out = lib.packetsOut, events = lib.eventsOut;
        ctx.note("%6lld  forged: %s", static_cast<long long>(w.now()), what);
        const auto bytes = build(p);
        // What it says goes to whom it's for, which isn't this peer
        std::vector<Bytes> said;
        w.capture = &said;
        lib.session->onReceiveData({ bytes.data(), bytes.size() });
        w.capture = nullptr;
        forgeries += 1;
        PBT_CHECK(ctx, lib.packetsOut - out <= answers && lib.eventsOut == events, "not ignored", "%s: %zu packets and %zu events in return", what,
                  lib.packetsOut - out, lib.eventsOut - events);
        if (said.empty() || opens.empty() || src.chance(1, 2))
            return;
        // Which goes on: RFC 9260 5.2.4, but the peer of this association is still there
        Packet q;
        PBT_CHECK(ctx, parse(said[0], q) == nullptr && q.chunks[0].type == INIT_ACK, "init ack", "INIT is answered with something else: %s", pbt::hex(said[0]).c_str());
        std::vector<Param> params;
        parseParams(q.chunks[0].body, 16, params);
        for (const auto& k : params)
            if (k.type == 7) {
                const auto echo = build({ conf.local, 5000, ref.libTag, { Chunk{ COOKIE_ECHO, 0, k.body } } });
                const auto o = lib.packetsOut;
                lib.session->onReceiveData({ echo.data(), echo.size() });
                PBT_CHECK(ctx, lib.packetsOut == o && lib.eventsOut == events, "not ignored",
                          "COOKIE ECHO of another association: %zu packets and %zu events in return", lib.packetsOut - o, lib.eventsOut - events);
            }
    };
    // With numbers in sequence, so that what's said after it gets there
    const auto nonsense = [&] {
        if (ref.state != RefEnd::Up)
            return;
        std::vector<RefEnd::Channel*> used;
        for (auto& c : ref.channels)
            if (!c.closed && (c.acked || c.ackSent))
                used.push_back(&c);
        Bytes b;
        uint16_t stream = 60001;
        uint32_t ppid = PPID_DCEP;
        const char* what = "";
        switch (src.pick({ 2, 2, 1, 1, 1 })) {
        case 0:
            what = "ACK for a channel which is open";
            if (used.empty())
                return;
            stream = src.elem(used)->stream;
            b = { 2 };
            break;
        case 1: {
            what = "OPEN on a stream in use";
            if (used.empty())
                return;
            stream = src.elem(used)->stream;
            put8(b, 3);
            put8(b, src.chance(1, 2) ? 0x80 : 0);
            put16(b, 256);
            put32(b, 0);
            put16(b, 3);
            put16(b, 0);
            put(b, { 'a', 'b', 'c' });
            break;
        }
        case 2:
            what = "ACK on a stream without a channel";
            b = { 2 };
            break;
        case 3:
            what = "a message on a stream without a channel";
            b = src.blob(src.size(1, 20));
            ppid = src.oneOf<uint32_t>({ PPID_STRING, PPID_BINARY, PPID_STRING_EMPTY, PPID_BINARY_EMPTY });
            break;
        default:
            what = "an unknown kind of message";
            stream = used.empty() ? stream : src.elem(used)->stream;
            b = src.blob(src.size(1, 20));
            ppid = src.oneOf<uint32_t>({ 0u, 52u, 54u, 58u, 0x32000000u });
            if (src.chance(1, 3)) {
                ppid = PPID_DCEP;
                b[0] = src.oneOf<uint8_t>({ 0, 1, 4, 255 });
            }
            break;
        }
        ctx.note("%6lld  peer: %s (%u)", static_cast<long long>(w.now()), what, stream);
        forgeries += 1;
        ref.enqueue(stream, true, false, ppid, b);
    };

    if (conf.starts && src.chance(1, 2)) {
        ref.start();
        w.runTo(w.now() + src.range(0, 1000));
        lib.session->start();
    } else {
        lib.session->start();
        if (conf.starts) {
            w.runTo(w.now() + src.range(0, 1000));
            ref.start();
        }
    }

    const auto established = [&] {
        const auto ok = w.until([&] { return ref.state == RefEnd::Up; }, std::max<int64_t>(0, w.badUntil - w.now()) + 20000);
        PBT_CHECK(ctx, ok, "not established", "no association %lld ms after the network became good", static_cast<long long>(w.now() - w.badUntil));
    };
    if (opt.attack)
        for (auto k = src.size(0, 4); k > 0; k -= 1) {
            w.runTo(w.now() + src.range(0, 300));
            forge();
        }
    if (!src.chance(1, 3)) {
        established();
        if (src.chance(3, 4))
            w.badUntil = w.now() + src.range(0, 6000);
    }

    size_t said = 0, chunks = 0, refChunks = 0, refOpened = 0, beats = 0, counter = 0, jumps = 0;
    for (auto steps = src.size(1, 30); steps > 0; steps -= 1) {
        if (src.chance(1, 2))
            w.runTo(w.now() + src.range(0, 400));
        switch (src.pick({ 5, 5, 2, 1, 1, 1, opt.attack ? 3u : 0u, opt.attack ? 3u : 0u, 1 })) {
        case 8: { // The peer's sequence numbers get near their end
            RefEnd::Channel* at = nullptr;
            for (auto& c : ref.channels)
                if (!c.closed && c.ours && c.acked && c.partial && !c.unordered)
                    at = &c;
            if (!at || jumps || !w.until([&] { return ref.idle(); }, 5000))
                break;
            jumps += 1;
            ctx.note("%6lld  peer: \"%s\" jumps", static_cast<long long>(w.now()), at->label.substr(0, 20).c_str());
            const auto target = 65536u - static_cast<uint32_t>(src.size(0, 8));
            while (ref.nextSsn[at->stream] < target - 1) {
                ref.jump(*at, static_cast<uint16_t>(std::min<uint32_t>(30000, target - ref.nextSsn[at->stream])));
                if (!w.until([&] { return ref.idle(); }, std::max<int64_t>(0, w.badUntil - w.now()) + 20000))
                    ctx.fail("not acknowledged", "what the peer has given up is not acknowledged");
                if (ref.nextSsn[at->stream] == 0)
                    break;
            }
            break;
        }
        case 6:
            forge();
            break;
        case 7:
            nonsense();
            break;
        case 0: { // The library says something
            std::vector<RefEnd::Channel*> open;
            for (auto& c : ref.channels)
                if (lib.session->isChannelOpen(c.label) && !c.closed)
                    open.push_back(&c);
            const auto text = textKind(src);
            const auto size = messageSize(src, said < 2);
            const auto data = src.blob(size);
            if (open.empty())
                break;
            auto& c = *src.elem(open);
            if (maxMessage == 0 || size <= maxMessage) {
                auto& f = toRef[c.label];
                f.ordered = !c.unordered;
                f.due.push_back({ said++, text, data });
                chunks += size / 1100 + 1;
            }
            ctx.note("%6lld  library: sends %s (%s) on \"%s\"", static_cast<long long>(w.now()), brief(data).c_str(), text ? "text" : "binary", c.label.substr(0, 20).c_str());
            lib.send(c.label, text, data);
            break;
        }
        case 1: { // The peer says something
            std::vector<RefEnd::Channel*> open;
            for (auto& c : ref.channels)
                if (!c.closed && (c.ours || c.ackSent))
                    open.push_back(&c);
            const auto text = textKind(src);
            auto size = std::min<size_t>(messageSize(src, false), conf.frag * 60);
            if (open.empty())
                break;
            auto& c = *src.elem(open);
            if (c.partial || c.unordered)
                size += 8;
            auto data = src.blob(size);
            if (c.partial || c.unordered) {
                counter += 1;
                for (int i = 0; i < 8; i += 1)
                    data[i] = static_cast<uint8_t>(counter >> 8 * i);
            }
            auto& f = toLib[c.label];
            f.ordered = !c.unordered;
            // The id is the one given next: this may be delivered only later
            f.due.push_back({ ref.nextId, text, data });
            refChunks += size / conf.frag + 1;
            said += 1;
            ctx.note("%6lld  peer: sends %s (%s) on \"%s\"%s%s", static_cast<long long>(w.now()), brief(data).c_str(), text ? "text" : "binary", c.label.substr(0, 20).c_str(),
                     c.unordered ? ", unordered" : "", c.partial ? ", partial" : "");
            ref.send(c, text, data);
            break;
        }
        case 2: // The peer opens a channel
            if (refOpened < 4) {
                const auto label = "peer " + drawLabel(src, n++);
                const auto stream = static_cast<uint16_t>(ownParity + 2 * (refOpened + (src.chance(1, 4) ? 100 * src.size(0, 4) : 0) * 1));
                const bool unordered = src.chance(1, 3), partial = src.chance(1, 3);
                const auto protocol = src.chance(1, 4) ? std::string("proto") : std::string();
                if (ref.find(stream))
                    break;
                refOpened += 1;
                ctx.note("%6lld  peer: opens \"%s\" on %u%s%s", static_cast<long long>(w.now()), label.substr(0, 20).c_str(), stream, unordered ? ", unordered" : "",
                         partial ? ", partial" : "");
                ref.open(label, stream, unordered, partial, protocol);
            }
            break;
        case 3: // The peer answers
            for (auto& c : ref.channels)
                if (!c.ours && !c.ackSent && !c.closed)
                    ref.acknowledgeOpen(c);
            break;
        case 4:
            if (ref.state == RefEnd::Up) {
                beats += 1;
                Bytes info = src.blob(src.size(4, 60));
                put32(info, static_cast<uint32_t>(beats));
                ref.heartbeat(info);
            }
            break;
        default: { // The peer closes some
            std::vector<uint16_t> streams;
            if (ref.state == RefEnd::Up && !ref.reset)
                for (auto& c : ref.channels)
                    if (!c.closed && (c.ours || c.ackSent) && src.chance(1, 2)) {
                        streams.push_back(c.stream);
                        refClosed.insert(c.label);
                        ctx.note("%6lld  peer: closes \"%s\"", static_cast<long long>(w.now()), c.label.substr(0, 20).c_str());
                    }
            if (!streams.empty())
                ref.close(streams);
            break;
        }
        }
    }
    established();
    for (auto& c : ref.channels)
        if (!c.ours && !c.ackSent && !c.closed)
            ref.acknowledgeOpen(c);
    const auto pending = [&](const std::map<std::string, Flow>& m, bool all) -> const std::pair<const std::string, Flow>* {
        for (const auto& p : m)
            for (const auto& s : p.second.due)
                if (all ? !refClosed.count(p.first) : !ref.abandonedIds.count(s.id))
                    return &p;
        return nullptr;
    };
    const auto limit = std::max<int64_t>(0, w.badUntil - w.now()) + 30000 + static_cast<int64_t>(chunks) * (500 + 2 * w.delay + conf.ackDelay) +
                       static_cast<int64_t>(refChunks) * (conf.rto + 2 * w.delay + 50);
    const auto settled = [&] {
        for (auto& c : ref.channels)
            if (!c.ours && !c.ackSent && !c.closed)
                ref.acknowledgeOpen(c);
        if (!ref.idle())
            return false;
        for (const auto& c : ref.channels) {
            if (!c.closed && !opens[c.label])
                return false;
            if (!c.closed && c.ours && !c.acked)
                return false;
        }
        for (const auto& l : libLabels) {
            bool any = false;
            for (const auto& c : ref.channels)
                any |= c.label == l;
            if (!any)
                return false;
        }
        return !opt.delivery || (!pending(toLib, false) && !pending(toRef, true));
    };
    if (!w.until(settled, limit)) {
        if (opt.delivery) {
            if (const auto* p = pending(toLib, false))
                ctx.fail("message lost", "%zu messages to the library on \"%s\" have not arrived", p->second.due.size(), p->first.substr(0, 20).c_str());
            if (const auto* p = pending(toRef, true))
                ctx.fail("message lost", "%zu messages to the peer on \"%s\" have not arrived", p->second.due.size(), p->first.substr(0, 20).c_str());
            PBT_CHECK(ctx, ref.flight.empty() && ref.queue.empty(), "not acknowledged", "what the peer sent is not acknowledged: %zu chunks, %zu messages",
                      ref.flight.size(), ref.queue.size());
        }
        if (opt.opening)
            ctx.fail("not opened", "not all channels are open, or closed: %lld ms after the network became good", static_cast<long long>(w.now() - w.badUntil));
    }
    w.runTo(w.now() + 2000);
    if (opt.opening) {
        for (const auto& c : ref.channels) {
            PBT_CHECK(ctx, lib.session->isChannelOpen(c.label) == !c.closed, "state", "\"%s\" is %s", c.label.c_str(), c.closed ? "still open" : "not open");
            PBT_CHECK(ctx, !c.closed || closes[c.label] == 1, "state", "\"%s\" is closed but not reported so", c.label.c_str());
        }
    }
    if (opt.monitor) {
        const auto count = lib.monitor.echoes.size();
        ref.heartbeat(src.blob(src.size(4, 1000)));
        w.runTo(w.now() + 2 * w.delay + 200);
        PBT_CHECK(ctx, lib.monitor.echoes.size() == count + 1 || lib.monitor.heartbeats.size() == count, "heartbeat", "a heartbeat isn't answered");
    }
    if (messages > 1)
        ctx.nontrivial();
    ctx.tagN("messages delivered", messages);
    ctx.tagN("datagrams lost", w.lost);
    ctx.tagN("datagrams duplicated", w.duplicated);
    ctx.tagN("datagrams reordered", w.reordered);
    if (opt.attack) {
        ctx.tagN("packets to be ignored", lib.attacks);
        ctx.tagN("packets to be ignored, with right tag", forgeries);
    }
    if (opt.monitor) {
        ctx.tagN("data chunks judged", lib.monitor.dataPackets);
        ctx.tagN("retransmissions judged", lib.monitor.retransmissions);
        ctx.tagN("sent against a full window", lib.monitor.fullWindow);
        ctx.tagN("acknowledgments with gaps judged", lib.monitor.gapSacks);
    }
    ctx.tagN("chunks dropped by the peer after a gap acknowledgment", ref.reneged);
    ctx.tagN("closed windows", ref.zeroWindows);
    ctx.tagN("messages given up by the peer", ref.abandonedCount);
    ctx.tagN("FORWARD TSN", ref.forwards);
    ctx.tagN("sequence numbers which jump to the end of their range", jumps);
    ctx.tagN("stream resets", ref.resetsDone);
    ctx.tagN("stream resets told to wait", ref.inProgress);
}

} // namespace ss
