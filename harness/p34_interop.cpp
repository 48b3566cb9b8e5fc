// P34: data channels of a whole connection, with a peer which is not of this library
#include "sctp_bridge.h"

#include <sstream>

using namespace pbt;
using ss::Bytes;

namespace
{

struct Heard {
    enum { Opened, Closed, Said } what;
    std::string label;
    bool text;
    Bytes data;
};

// Called in the connection's thread
struct Listener : srtc::PeerConnection::DataChannelListener {
    std::deque<Heard> heard;
    void onDataChannelOpened(const std::string& label) override
    {
        heard.push_back({ Heard::Opened, label, false, {} });
    }
    void onDataChannelClosed(const std::string& label) override
    {
        heard.push_back({ Heard::Closed, label, false, {} });
    }
    void onDataChannelReceivedText(const std::string& label, const std::string& data) override
    {
        heard.push_back({ Heard::Said, label, true, Bytes(data.begin(), data.end()) });
    }
    void onDataChannelReceivedBinary(const std::string& label, const srtc::ByteBuffer& data) override
    {
        heard.push_back({ Heard::Said, label, false, Bytes(data.data(), data.data() + data.size()) });
    }
};

void connection(Src& src, Ctx& ctx)
{
    ss::World w(src, ctx);
    w.delay = 0;
    const auto peerActive = src.chance(1, 2);
    rig::Duo d(peerActive);
    d.peer.profileIndex = src.size(0, 3);

    auto conf = ss::drawConf(src);
    conf.local = src.chance(1, 2) ? std::max<uint16_t>(1, src.u16()) : uint16_t(5000);
    if (src.chance(1, 2)) {
        // Near the largest datagrams there are
        conf.frag = src.size(1000, 1390);
        conf.mtu = std::max<size_t>(conf.mtu, conf.frag + 40);
        conf.rwnd = std::max<uint32_t>(conf.rwnd, 10000);
    }
    rig::Spec s;
    s.direction = src.chance(1, 2) ? srtc::Direction::Publish : srtc::Direction::Subscribe;
    s.video = src.chance(1, 3);
    s.audio = s.video ? src.chance(1, 2) : src.chance(2, 3); // Or there are only data channels
    size_t n = 0;
    for (auto k = src.size(1, 3); k > 0; k -= 1)
        s.channels.push_back(ss::drawLabel(src, n++));
    const auto answered = src.pick({ 2, 1, 2 }) == 0 ? 262144u : src.oneOf<uint32_t>({ 0u, static_cast<uint32_t>(src.range(1000, 20000)), static_cast<uint32_t>(src.range(20000, 1000000)) });
    rig::AnswerOptions o;
    o.maxMessageSize = answered;
    o.sctpPort = conf.local;

    // Set up
    const int64_t delay = src.range(0, 60) * 1000, jitter = src.chance(1, 3) ? src.range(0, 20000) : 0;
    const auto loss = src.chance(1, 2) ? static_cast<unsigned>(src.size(1, 200)) : 0, dup = src.chance(1, 3) ? static_cast<unsigned>(src.size(1, 100)) : 0;
    bool connected = false;
    int64_t badUntil = INT64_MAX;
    size_t lost = 0, mediaLost = 0;
    int64_t outage = 0, outageEnd = 0; // nothing gets through
    d.world.link = [&](const auto&, const auto&, const Bytes& b) -> std::vector<int64_t> {
        const auto late = [&] { return delay + (jitter && connected && sim::nowMicros() < badUntil ? src.range(0, jitter) : 0); };
        if (sim::nowMicros() >= outage && sim::nowMicros() < outageEnd) {
            lost += 1;
            mediaLost += !b.empty() && b[0] >= 128 && b[0] < 192;
            return {};
        }
        // Data, not the setup
        if (!connected || sim::nowMicros() >= badUntil || b.empty() || b[0] != 23 || src.choices().size() > 6000)
            return { late() };
        const auto x = src.draw(999);
        if (x >= 1000 - loss) {
            lost += 1;
            return {};
        }
        if (x < dup)
            return { late(), late() };
        return { late() };
    };
    const auto e = d.start(s, o);
    PBT_CHECK(ctx, !e.isError(), "set up", "%s\n%s", e.message.c_str(), d.answer.c_str());
    auto& pc = *d.node->pc;
    {
        unsigned port = 0;
        for (const auto& m : d.made.info.media)
            if (m.type == "application")
                for (const auto& a : m.attributes)
                    if (a.first == "sctp-port")
                        port = static_cast<unsigned>(atoi(a.second.c_str()));
        PBT_CHECK(ctx, port > 0 && port < 65536, "offer", "port %u\n%s", port, d.made.sdp.c_str());
        conf.remote = static_cast<uint16_t>(port);
    }
    ss::Bridge bridge(d.world, d.peer, w);
    ss::RefEnd ref(w, 1, conf);
    struct End {
        rig::World& world;
        ~End()
        {
            world.shutdown(); // threads first
        }
    } end{ d.world };
    const uint16_t ownParity = peerActive ? 0 : 1; // The peer's: the DTLS client has the even ones

    std::map<std::string, ss::Flow> toLib, toRef;
    std::map<std::string, unsigned> opens, closes;
    std::set<std::string> refClosed, openedByLib;
    size_t messages = 0;
    bool ended = false;
    const auto listener = std::make_shared<Listener>();
    const auto onOpened = [&](const std::string& label) {
        ctx.note("%6lld  application: \"%s\" is open", static_cast<long long>(w.now()), label.substr(0, 20).c_str());
        opens[label] += 1;
        PBT_CHECK(ctx, opens[label] == 1, "opened again", "\"%s\" is reported open %u times", label.c_str(), opens[label]);
        bool known = false;
        for (const auto& c : ref.channels)
            known |= c.label == label;
        PBT_CHECK(ctx, known, "unknown channel", "\"%s\" is reported open", label.c_str());
    };
    const auto onClosed = [&](const std::string& label) {
        ctx.note("%6lld  application: \"%s\" is closed", static_cast<long long>(w.now()), label.substr(0, 20).c_str());
        closes[label] += 1;
        PBT_CHECK(ctx, (refClosed.count(label) || ended) && closes[label] == 1, "closed", "\"%s\" is reported closed", label.c_str());
        PBT_CHECK(ctx, opens[label] == 1, "closed before open", "\"%s\" is reported closed before it was open", label.c_str());
    };
    const auto onSaid = [&](const Heard& h) {
        messages += 1;
        PBT_CHECK(ctx, opens[h.label] > 0, "message before open", "a message on \"%s\" which wasn't reported open", h.label.c_str());
        PBT_CHECK(ctx, closes[h.label] == 0, "message after close", "a message on \"%s\" which is closed", h.label.c_str());
        auto& f = toLib[h.label];
        const auto same = [&](const ss::Said& x) { return x.text == h.text && x.data == h.data; };
        if (f.ordered) {
            while (!f.due.empty() && !same(f.due.front()) && ref.abandonedIds.count(f.due.front().id))
                f.due.pop_front();
        } else {
            const auto it = std::find_if(f.due.begin(), f.due.end(), same);
            if (it != f.due.end())
                std::rotate(f.due.begin(), it, it + 1);
        }
        PBT_CHECK(ctx, !f.due.empty(), "extra message", "a message on \"%s\" which wasn't sent, or was received before: %s", h.label.substr(0, 20).c_str(), ss::brief(h.data).c_str());
        PBT_CHECK(ctx, same(f.due.front()), "wrong message", "on \"%s\": %s (%s) instead of %s (%s)", h.label.substr(0, 20).c_str(), ss::brief(h.data).c_str(), h.text ? "text" : "binary",
                  ss::brief(f.due.front().data).c_str(), f.due.front().text ? "text" : "binary");
        f.due.pop_front();
        f.arrived += 1;
    };
    pc.setDataChannelListener(listener);
    const auto listen = [&] {
        while (!listener->heard.empty()) {
            const auto h = listener->heard.front();
            listener->heard.pop_front();
            if (h.what == Heard::Opened)
                onOpened(h.label);
            else if (h.what == Heard::Closed)
                onClosed(h.label);
            else
                onSaid(h);
        }
    };

    ref.onOpen = [&](ss::RefEnd::Channel& c) {
        PBT_CHECK(ctx, std::count(s.channels.begin(), s.channels.end(), c.label) == 1, "label", "a channel \"%s\" which wasn't asked for", c.label.c_str());
        PBT_CHECK(ctx, openedByLib.insert(c.label).second, "opened again", "\"%s\" is opened twice", c.label.c_str());
        PBT_CHECK(ctx, (c.stream & 1) != ownParity, "stream id", "\"%s\" is opened on stream %u, which is for the other side to use", c.label.c_str(), c.stream);
        if (src.chance(2, 3))
            ref.acknowledgeOpen(c);
    };
    ref.onMessage = [&](ss::RefEnd::Channel& c, bool text, const Bytes& data, bool) {
        messages += 1;
        if (c.closed)
            return;
        auto& f = toRef[c.label];
        const auto same = [&](const ss::Said& x) { return x.text == text && x.data == data; };
        if (!f.ordered) {
            const auto it = std::find_if(f.due.begin(), f.due.end(), same);
            if (it != f.due.end())
                std::rotate(f.due.begin(), it, it + 1);
        }
        PBT_CHECK(ctx, !f.due.empty(), "extra message", "the peer gets a message on \"%s\" which wasn't sent, or was received before: %s", c.label.substr(0, 20).c_str(), ss::brief(data).c_str());
        PBT_CHECK(ctx, same(f.due.front()), "wrong message", "the peer gets on \"%s\": %s (%s) instead of %s (%s)", c.label.substr(0, 20).c_str(), ss::brief(data).c_str(), text ? "text" : "binary",
                  ss::brief(f.due.front().data).c_str(), f.due.front().text ? "text" : "binary");
        f.due.pop_front();
        f.arrived += 1;
    };

    if (!s.audio && !s.video)
        ctx.tag("no media");
    ctx.note("%s connection, peer is %s and has port %u, delay %lld us + %lld, loss %u, duplicates %u in 1000; peer's tsn %08x, window %u%s, fragments %zu of %zu, acks every %u or %lld ms, %s%s; largest message %u",
             s.direction == srtc::Direction::Publish ? "publishing" : "subscribing", peerActive ? "active" : "passive", conf.local, static_cast<long long>(delay), static_cast<long long>(jitter), loss, dup, conf.tsn, conf.rwnd,
             conf.moody ? " (changing)" : "", conf.frag, conf.mtu, conf.ackEvery, static_cast<long long>(conf.ackDelay), conf.starts ? "both start, " : "", conf.bundle ? "bundles" : "", answered);

    size_t said = 0, chunks = 0, refChunks = 0, refOpened = 0, counter = 0, refused = 0, early = 0, frames = 0;
    const auto limit = answered ? std::min(answered, 262144u) : 262144u; // Its own is the limit otherwise
    const auto say = [&](const std::string& label, bool unordered, bool huge) {
        const auto text = ss::textKind(src);
        auto size = ss::messageSize(src, huge);
        if (limit && src.chance(1, 6))
            size = std::min<size_t>(270000, static_cast<size_t>(std::max<int64_t>(0, static_cast<int64_t>(limit) + src.range(-2, 2))));
        if (size > 60000 && chunks > 200)
            return;
        const auto data = src.blob(size);
        const auto error = text ? pc.sendDataChannelText(label, std::string(data.begin(), data.end())) : pc.sendDataChannelBinary(label, srtc::ByteBuffer(data.data(), data.size()));
        const auto over = limit && size > limit;
        ctx.note("%6lld  application: sends %s (%s) on \"%s\": %s", static_cast<long long>(w.now()), ss::brief(data).c_str(), text ? "text" : "binary", label.substr(0, 20).c_str(), error.isError() ? "refused" : "taken");
        PBT_CHECK(ctx, error.isError() == over, "size of a message", "%zu bytes, the largest is %u: %s", size, limit, error.isError() ? error.message.c_str() : "taken");
        if (over) {
            refused += 1;
            return;
        }
        auto& f = toRef[label];
        f.ordered = !unordered;
        f.due.push_back({ said++, text, data });
        chunks += size / 1100 + 1;
    };
    const auto until = [&](const std::function<bool()>& done, int64_t ms) {
        return d.world.runFor(ms * 1000, [&] {
            listen();
            return done();
        });
    };
    const auto runMs = [&](int64_t ms) { until([] { return false; }, ms); };

    // Messages for channels which aren't open yet wait for it
    if (src.chance(1, 3))
        for (early = src.size(1, 20); early > 0; early -= 1)
            say(src.elem(s.channels), false, false);
    early = said;
    PBT_CHECK(ctx, d.connect(), "connect", "not connected after %lld us", static_cast<long long>(sim::nowMicros()));
    connected = true;
    w.badUntil = w.now() + src.range(0, 6000);
    badUntil = w.badUntil * 1000;
    if (src.chance(1, 4)) {
        // Less than what makes the connection look lost
        outage = sim::nowMicros() + src.range(0, 8000000);
        outageEnd = outage + src.range(0, 1800000);
        ctx.note("nothing gets through from %lld to %lld", static_cast<long long>(outage / 1000), static_cast<long long>(outageEnd / 1000));
        w.badUntil = std::max(w.badUntil, outageEnd / 1000);
    }
    if (conf.starts)
        ref.start();
    PBT_CHECK(ctx, pc.getDataChannelMaxMessageSize() == limit, "largest message", "%u, not %u", pc.getDataChannelMaxMessageSize(), limit);
    const auto established = [&] {
        const auto ok = until([&] { return ref.state == ss::RefEnd::Up; }, std::max<int64_t>(0, w.badUntil - w.now()) + 20000);
        PBT_CHECK(ctx, ok, "not established", "no association %lld ms after the network became good", static_cast<long long>(w.now() - w.badUntil));
    };
    if (src.chance(2, 3))
        established();

    for (auto steps = src.size(1, 30); steps > 0; steps -= 1) {
        if (src.chance(1, 2))
            runMs(src.range(0, 400));
        switch (src.pick({ 5, 5, 2, 1, 1, 1 })) {
        case 0: { // The application says something
            std::vector<ss::RefEnd::Channel*> open;
            for (auto& c : ref.channels)
                if (opens[c.label] && !c.closed)
                    open.push_back(&c);
            if (open.empty() || src.chance(1, 6)) {
                // Maybe not open yet, but it will be
                const auto& label = src.elem(s.channels);
                if (!refClosed.count(label) && said < 60)
                    say(label, false, false);
                break;
            }
            auto& c = *src.elem(open);
            say(c.label, c.unordered, said < 2);
            break;
        }
        case 1: { // The peer says something
            std::vector<ss::RefEnd::Channel*> open;
            for (auto& c : ref.channels)
                if (!c.closed && (c.ours || c.ackSent))
                    open.push_back(&c);
            const auto text = ss::textKind(src);
            auto size = std::min<size_t>(ss::messageSize(src, false), conf.frag * 60);
            if (open.empty())
                break;
            auto& c = *src.elem(open);
            if (c.partial || c.unordered)
                size += 8;
            auto data = src.blob(size);
            if (c.partial || c.unordered) {
                counter += 1;
                for (int i = 0; i < 8; i += 1)
                    data[static_cast<size_t>(i)] = static_cast<uint8_t>(counter >> 8 * i);
            }
            auto& f = toLib[c.label];
            f.ordered = !c.unordered;
            // The id is the one given next: this may be delivered only later
            f.due.push_back({ ref.nextId, text, data });
            refChunks += size / conf.frag + 1;
            ctx.note("%6lld  peer: sends %s (%s) on \"%s\"%s%s", static_cast<long long>(w.now()), ss::brief(data).c_str(), text ? "text" : "binary", c.label.substr(0, 20).c_str(), c.unordered ? ", unordered" : "",
                     c.partial ? ", partial" : "");
            ref.send(c, text, data);
            break;
        }
        case 2: // The peer opens a channel
            if (refOpened < 4) {
                const auto label = "peer " + ss::drawLabel(src, n++);
                const auto stream = static_cast<uint16_t>(ownParity + 2 * (refOpened + (src.chance(1, 4) ? 100 * src.size(0, 4) : 0)));
                const bool unordered = src.chance(1, 3), partial = src.chance(1, 3);
                if (ref.find(stream))
                    break;
                refOpened += 1;
                ctx.note("%6lld  peer: opens \"%s\" on %u%s%s", static_cast<long long>(w.now()), label.substr(0, 20).c_str(), stream, unordered ? ", unordered" : "", partial ? ", partial" : "");
                ref.open(label, stream, unordered, partial, src.chance(1, 4) ? "proto" : "");
            }
            break;
        case 3: // The peer answers
            for (auto& c : ref.channels)
                if (!c.ours && !c.ackSent && !c.closed)
                    ref.acknowledgeOpen(c);
            break;
        case 4: { // The peer closes some
            std::vector<uint16_t> streams;
            if (ref.state == ss::RefEnd::Up && !ref.reset)
                for (auto& c : ref.channels)
                    if (!c.closed && (c.ours || c.ackSent) && src.chance(1, 2)) {
                        streams.push_back(c.stream);
                        refClosed.insert(c.label);
                        ctx.note("%6lld  peer: closes \"%s\"", static_cast<long long>(w.now()), c.label.substr(0, 20).c_str());
                    }
            if (!streams.empty())
                ref.close(streams);
            break;
        }
        default: // Media goes on
            if (s.direction == srtc::Direction::Publish && d.audio) {
                (void)pc.publishAudioFrame(d.audio, sim::nowMicros(), srtc::ByteBuffer(src.blob(50).data(), 50));
                frames += 1;
            }
            break;
        }
    }
    established();
    const auto pending = [&](const std::map<std::string, ss::Flow>& m, bool all) -> const std::pair<const std::string, ss::Flow>* {
        for (const auto& p : m)
            for (const auto& x : p.second.due)
                if (all ? !refClosed.count(p.first) : !ref.abandonedIds.count(x.id))
                    return &p;
        return nullptr;
    };
    const auto longest = std::max<int64_t>(0, w.badUntil - w.now()) + 30000 + static_cast<int64_t>(chunks) * (500 + 2 * delay / 1000 + conf.ackDelay) +
                         static_cast<int64_t>(refChunks) * (conf.rto + 2 * delay / 1000 + 50);
    const auto settled = [&] {
        for (auto& c : ref.channels)
            if (!c.ours && !c.ackSent && !c.closed)
                ref.acknowledgeOpen(c);
        if (!ref.idle())
            return false;
        for (const auto& c : ref.channels)
            if (!c.closed && (!opens[c.label] || (c.ours && !c.acked)))
                return false;
        for (const auto& l : s.channels)
            if (!openedByLib.count(l))
                return false;
        return !pending(toLib, false) && !pending(toRef, true);
    };
    if (!until(settled, longest)) {
        if (const auto* p = pending(toLib, false))
            ctx.fail("message lost", "%zu messages to the application on \"%s\" have not arrived", p->second.due.size(), p->first.substr(0, 20).c_str());
        if (const auto* p = pending(toRef, true))
            ctx.fail("message lost", "%zu messages to the peer on \"%s\" have not arrived", p->second.due.size(), p->first.substr(0, 20).c_str());
        PBT_CHECK(ctx, ref.flight.empty() && ref.queue.empty(), "not acknowledged", "what the peer sent is not acknowledged: %zu chunks, %zu messages", ref.flight.size(), ref.queue.size());
        ctx.fail("not opened", "not all channels are open, or closed: %lld ms after the network became good", static_cast<long long>(w.now() - w.badUntil));
    }
    runMs(2000 + std::max<int64_t>(0, w.badUntil - w.now()));
    for (const auto& c : ref.channels)
        PBT_CHECK(ctx, !c.closed || closes[c.label] == 1, "state", "\"%s\" is closed but not reported so", c.label.c_str());
    for (const auto& p : d.peer.problems)
        ctx.fail("what the peer saw", "%s", p.c_str());
    PBT_CHECK(ctx, d.node->state() == rig::State::Connected, "state", "the connection is in state %d", static_cast<int>(d.node->state()));
    PBT_CHECK(ctx, d.peer.rtp.size() <= frames && d.peer.rtp.size() + mediaLost >= frames, "media", "%zu frames were sent, %zu packets came", frames, d.peer.rtp.size());

    // The end
    ended = true;
    d.world.close(*d.node);
    runMs(1000);
    PBT_CHECK(ctx, d.peer.closed, "end", "the peer isn't told");

    if (messages > 1)
        ctx.nontrivial();
    ctx.tagN("messages delivered", messages);
    ctx.tagN("messages before the connection", early);
    ctx.tagN("messages refused", refused);
    ctx.tagN("datagrams lost", lost);
    ctx.tagN("channels opened by the peer", refOpened);
    ctx.tagN("stream resets", ref.resetsDone);
}

} // namespace

int main(int argc, char** argv)
{
    return run(argc, argv,
               { "P34",
                 "at least two messages were delivered",
                 { "datagrams of the setup aren't lost; those of data channels are, until a generated time", "at most 60 messages wait for channels to open", "the peer's SCTP packets take at most 1430 bytes" },
                 { { "connection", 1, connection } } });
}
