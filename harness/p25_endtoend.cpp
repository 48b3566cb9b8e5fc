// P25: a publishing and a subscribing connection which talk to each other, in virtual time
#include "media_gen.h"
#include "rig_setup.h"

#include "srtc/logging.h"

#include <sstream>

using namespace pbt;
using namespace gen;
using rig::State;

namespace
{

const char* stateName(State s)
{
    switch (s) {
    case State::Inactive:
        return "inactive";
    case State::Connecting:
        return "connecting";
    case State::Connected:
        return "connected";
    case State::Failed:
        return "failed";
    case State::Closed:
        return "closed";
    }
    return "?";
}

struct Message {
    std::string label;
    bool text = false;
    Bytes data;
    int64_t time = 0;
};

struct Listener : srtc::PeerConnection::DataChannelListener {
    std::vector<std::string> opened, closed;
    std::vector<Message> got;
    void onDataChannelOpened(const std::string& label) override
    {
        opened.push_back(label);
    }
    void onDataChannelClosed(const std::string& label) override
    {
        closed.push_back(label);
    }
    void onDataChannelReceivedText(const std::string& label, const std::string& data) override
    {
        got.push_back({ label, true, Bytes(data.begin(), data.end()), sim::nowMicros() });
    }
    void onDataChannelReceivedBinary(const std::string& label, const srtc::ByteBuffer& data) override
    {
        got.push_back({ label, false, toBytes(data), sim::nowMicros() });
    }
};

struct Sent {
    Bytes expected;
    std::vector<size_t> suffixes; // where it can begin when its first packets are lost
    std::string describe;
    int64_t time = 0;
    bool must = false; // has to arrive
    bool key = false;
    uint64_t captured = 0; // time given with it, when there is one and it's negotiated
    bool delivered = false;
};

struct Got {
    Bytes data;
    int64_t time;
    uint64_t ts;
    bool marker;
    uint64_t captured;
    int64_t offset;
};

// One of the tracks
struct Line {
    std::shared_ptr<srtc::Track> pub, sub;
    Codec codec;
    std::unique_ptr<FrameGen> gen;
    std::vector<Sent> sent;
    std::vector<Got> got;
    size_t judged = 0;
    size_t matched = 0; // everything before it is delivered or skipped
};

struct Trip {
    Src& src;
    Ctx& ctx;
    rig::World world;
    rig::Node* node[2] = {}; // publisher, subscriber
    rig::Made made[2];
    srtc::anyaddr addr[2];
    std::shared_ptr<Listener> listener[2];
    std::vector<Line> lines;
    std::vector<Message> messages[2]; // sent by each, in order
    size_t messagesJudged[2] = {};
    std::vector<std::string> channels[2]; // opened by each
    size_t keyRequests = 0;
    int64_t pts = 0;

    // The network
    int64_t delay = 10000, jitter = 0;
    unsigned dupPercent = 0;
    bool down = false;
    std::function<bool(size_t from, const Bytes& data)> drop; // more of it
    std::vector<std::pair<size_t, Bytes>> captured; // sent by whom
    bool capture = false;
    size_t lost = 0, total = 0;
    std::string reuse;
    std::map<std::pair<uint32_t, uint64_t>, Bytes> seen; // RTP by source and index
    std::map<uint32_t, uint64_t> highest;

    Trip(Src& s, Ctx& c)
        : src(s)
        , ctx(c)
    {
        addr[0] = rig::address(1, 4000);
        addr[1] = rig::address(2, 5000);
    }

    ~Trip()
    {
        world.shutdown();
    }

    void look(const Bytes& b)
    {
        if (b.size() < 12 || b[0] < 128 || b[0] > 191 || ((b[1] & 0x7f) >= 64 && (b[1] & 0x7f) <= 95))
            return;
        const auto ssrc = rig::be32(&b[8]);
        const auto seq = rig::be16(&b[2]);
        uint64_t index = seq + 0x10000u;
        if (const auto it = highest.find(ssrc); it != highest.end())
            index = it->second + static_cast<uint64_t>(static_cast<int64_t>(static_cast<int16_t>(seq - static_cast<uint16_t>(it->second))));
        highest[ssrc] = std::max(highest[ssrc], index);
        const auto [it, isNew] = seen.emplace(std::make_pair(ssrc, index), b);
        if (!isNew && it->second != b)
            reuse = "source " + std::to_string(ssrc) + ", index " + std::to_string(index);
    }

    void setLink()
    {
        world.link = [this](const srtc::anyaddr& from, const srtc::anyaddr& to, const Bytes& data) -> std::vector<int64_t> {
            const size_t who = rig::same(to, addr[1]) ? 0 : rig::same(to, addr[0]) ? 1 : 2;
            (void)from;
            if (who == 2)
                return {}; // Nobody is there
            total += 1;
            if (getenv("P25_TRACE"))
                ctx.note("%lld us: sent by %zu: %s", static_cast<long long>(sim::nowMicros()), who, hex(data, 16).c_str());
            if (!injecting) {
                look(data);
                if (capture && captured.size() < 400)
                    captured.emplace_back(who, data);
            }
            if (!injecting && (down || (drop && drop(who, data)))) {
                lost += 1;
                if (ctx.verbose() && lost < 40)
                    ctx.note("%lld us: lost, sent by %zu: %s", static_cast<long long>(sim::nowMicros()), who, hex(data, 16).c_str());
                return {};
            }
            // OpenSSL drops what comes out of order in a handshake, which is then sent again after seconds
            const bool handshake = !data.empty() && (data[0] == 20 || data[0] == 22);
            std::vector<int64_t> r = { delay + (jitter && !handshake ? src.range(0, jitter) : 0) };
            if (dupPercent && src.chance(dupPercent, 100))
                r.push_back(delay + src.range(0, 2 * jitter + 5000));
            return r;
        };
    }

    bool injecting = false;
    void inject(size_t who, const Bytes& data)
    {
        injecting = true;
        world.send(addr[who], addr[1 - who], data);
        injecting = false;
    }

    bool mCapture = false; // times are negotiated
    bool mOther = false; // there is another candidate, where nobody is
    size_t pubActive = 0;

    void start(uint16_t jitterMillis = 0, uint16_t pliMillis = 2000)
    {
        sim::resetClock();
        sim::seedRandom(src.u64());
        if (getenv("P25_TRACE"))
            srtc::setLogLevel(SRTC_LOG_V), (void)!freopen("/tmp/trace.log", "w", stdout), (void)!freopen("/tmp/trace.log", "a", stderr);
        rig::Spec s[2];
        s[0].direction = srtc::Direction::Publish;
        s[1].direction = srtc::Direction::Subscribe;
        const auto kinds = src.pick({ 4, 2, 2 });
        const auto codec = src.oneOf<Codec>({ Codec::VP8, Codec::H264, Codec::AV1, Codec::H265, Codec::VP9 });
        s[0].video = kinds != 1;
        s[0].audio = kinds != 2;
        s[0].videoCodecs = { codec };
        s[0].bwe = src.chance(1, 2);
        s[0].absCapture = src.chance(1, 2);
        s[1].absCapture = mCapture = s[0].absCapture;
        s[1].video = s[0].video;
        s[1].audio = s[0].audio;
        s[1].videoCodecs = s[0].videoCodecs;
        s[1].jitterMillis = jitterMillis;
        s[1].nackDelayMillis = 10;
        s[1].pliMillis = pliMillis;
        if (src.chance(2, 3)) {
            // Channels are negotiated when both have them
            for (size_t k = 0; k < 2; k += 1) {
                const auto n = src.size(1, 2);
                for (size_t i = 0; i < n; i += 1)
                    channels[k].push_back((k ? "sub-" : "pub-") + std::to_string(i));
                s[k].channels = channels[k];
            }
        }
        node[0] = &world.add(s[0].direction, { addr[0] });
        node[1] = &world.add(s[1].direction, { addr[1] });
        setLink();
        rig::Ident ident[2];
        for (size_t k = 0; k < 2; k += 1) {
            made[k] = rig::makeOffer(*node[k]->pc, s[k]);
            PBT_CHECK(ctx, made[k].offer && made[k].info.error.empty(), "offer", "%s", made[k].info.error.c_str());
            listener[k] = std::make_shared<Listener>();
            node[k]->pc->setDataChannelListener(listener[k]);
        }
        node[0]->pc->setPublishKeyFrameRequestedListener([this] { keyRequests += 1; });
        node[1]->pc->setSubscribeEncodedFrameListener([this](const std::shared_ptr<srtc::EncodedFrame>& f) {
            for (auto& l : lines)
                if (l.sub == f->track)
                    l.got.push_back({ toBytes(f->data), sim::nowMicros(), f->rtp_timestamp_ext, f->marker, f->abs_capture_time_ntp, f->abs_capture_time_offset });
        });
        pubActive = src.size(0, 1);
        mOther = src.chance(1, 5);
        for (size_t k = 0; k < 2; k += 1) {
            const auto& media = made[k].info.media[0];
            (void)media;
            ident[k].ufrag = made[k].info.ufrag;
            ident[k].pwd = made[k].info.pwd;
            ident[k].fingerprint = made[k].info.fingerprint;
            ident[k].active = (k == 0) == (pubActive == 1);
            if (mOther && src.chance(1, 2))
                ident[k].hosts.push_back({ 9, 9000u + static_cast<unsigned>(k) });
            ident[k].hosts.push_back(k == 0 ? std::make_pair(1u, 4000u) : std::make_pair(2u, 5000u));
            if (mOther && src.chance(1, 2))
                ident[k].hosts.push_back({ 8, 8000u + static_cast<unsigned>(k) });
        }
        // Either of them can be the first to get its answer
        const auto first = src.size(0, 1);
        for (size_t i = 0; i < 2; i += 1) {
            const auto k = (first + i) % 2;
            rig::AnswerOptions o;
            if (k == 1)
                o.sender = &made[0].info;
            const auto e = rig::applyAnswer(*node[k], made[k], rig::writeAnswer(made[k].info, ident[1 - k], o));
            PBT_CHECK(ctx, !e.isError(), "set up", "%s", e.message.c_str());
            if (i == 0 && src.chance(1, 2))
                world.runFor(src.range(0, 600) * 1000);
        }
        for (const auto& t : node[0]->pc->getTrackList())
            for (const auto& u : node[1]->pc->getTrackList())
                if (u->getSSRC() == t->getSSRC()) {
                    Line l;
                    l.pub = t;
                    l.sub = u;
                    l.codec = t->getMediaType() == srtc::MediaType::Audio ? Codec::Opus : codec;
                    l.gen = std::make_unique<FrameGen>(src, l.codec, 3, 1150);
                    lines.push_back(std::move(l));
                }
        PBT_CHECK(ctx, lines.size() == (s[0].video ? 1u : 0u) + (s[0].audio ? 1u : 0u), "tracks", "%zu", lines.size());
        ctx.note("%s%s%s%s, publisher is %s, delay %lld us, jitter %lld us, %u%% twice, %zu + %zu channels%s", s[0].video ? name(codec) : "", s[0].audio ? " audio" : "", s[0].bwe ? " bwe" : "", s[0].absCapture ? " capture times" : "", pubActive ? "active" : "passive",
            static_cast<long long>(delay), static_cast<long long>(jitter), dupPercent, channels[0].size(), channels[1].size(), mOther ? ", other candidates" : "");
    }

    bool both(State s) const
    {
        return node[0]->state() == s && node[1]->state() == s;
    }

    void connect(int64_t micros = 5500000)
    {
        const auto ok = world.runFor(micros, [&] { return both(State::Connected); });
        ctx.note("%lld us: publisher %s, subscriber %s", static_cast<long long>(sim::nowMicros()), stateName(node[0]->state()), stateName(node[1]->state()));
        PBT_CHECK(ctx, ok, "connect", "after %lld us the publisher is %s and the subscriber %s", static_cast<long long>(sim::nowMicros()), stateName(node[0]->state()), stateName(node[1]->state()));
        // What codecs need, and the first frames
        for (auto& l : lines) {
            const auto csd = l.gen->csd();
            if (l.codec != Codec::Opus) {
                auto copy = std::vector<srtc::ByteBuffer>();
                for (const auto& b : csd)
                    copy.push_back(b.copy());
                const auto e = node[0]->pc->setVideoCodecSpecificData(l.pub, std::move(copy));
                PBT_CHECK(ctx, !e.isError(), "codec data", "%s", e.message.c_str());
            }
        }
    }

    void frame(Line& l, bool must, bool key = false)
    {
        auto f = l.gen->next(key || l.sent.empty() || src.chance(1, 5));
        for (const auto& o : l.sent)
            if (o.expected == f.expected)
                throw Discard(); // They are told apart by what they contain
        Sent s;
        s.describe = f.describe;
        s.expected = f.expected;
        s.suffixes = f.suffixes;
        s.time = sim::nowMicros();
        s.must = must;
        s.key = f.key;
        const auto captured = src.chance(1, 2) ? src.u64() : 0;
        s.captured = mCapture ? captured : 0;
        ctx.note("%lld us: %s", static_cast<long long>(s.time), f.describe.c_str());
        const auto e = l.codec == Codec::Opus ? node[0]->pc->publishAudioFrame(l.pub, sim::nowMicros(), toBuffer(f.input), captured) : node[0]->pc->publishVideoFrame(l.pub, sim::nowMicros(), toBuffer(f.input), captured);
        PBT_CHECK(ctx, !e.isError(), "publish", "%s", e.message.c_str());
        l.sent.push_back(std::move(s));
    }

    void message(size_t from)
    {
        if (channels[0].empty())
            return;
        Message m;
        m.label = src.elem(src.chance(2, 3) ? channels[from] : channels[1 - from]);
        // The other's channel can only be used when it's known
        if (std::find(channels[from].begin(), channels[from].end(), m.label) == channels[from].end() && std::find(listener[from]->opened.begin(), listener[from]->opened.end(), m.label) == listener[from]->opened.end())
            return;
        m.text = src.chance(1, 2);
        m.data = src.blob(src.chance(1, 5) ? src.size(0, 12000) : src.size(0, 1500));
        if (m.text)
            for (auto& c : m.data)
                c = static_cast<uint8_t>('a' + c % 26);
        m.time = sim::nowMicros();
        ctx.note("%lld us: %s of %zu bytes by %zu on %s", static_cast<long long>(m.time), m.text ? "text" : "data", m.data.size(), from, m.label.c_str());
        const auto e = m.text ? node[from]->pc->sendDataChannelText(m.label, std::string(m.data.begin(), m.data.end())) : node[from]->pc->sendDataChannelBinary(m.label, toBuffer(m.data));
        PBT_CHECK(ctx, !e.isError(), "send", "%s", e.message.c_str());
        messages[from].push_back(std::move(m));
    }

    // What came is right, whatever the network does
    void judge()
    {
        for (size_t li = 0; li < lines.size(); li += 1) {
            auto& l = lines[li];
            for (; l.judged < l.got.size(); l.judged += 1) {
                const auto& g = l.got[l.judged];
                auto at = l.matched;
                while (at < l.sent.size() && l.sent[at].expected != g.data)
                    at += 1;
                if (at >= l.sent.size()) {
                    for (size_t i = 0; i < l.sent.size(); i += 1)
                        if (l.sent[i].expected == g.data)
                            ctx.fail("frame twice or out of order", "track %zu: frame %zu came after frame %zu", li, i, l.matched - 1);
                    if (const auto k = partial(l, g.data); k > 0) {
                        l.matched = k;
                        continue;
                    }
                    ctx.fail("frame never sent", "track %zu (%s): %zu bytes %s, after %zu of %zu", li, name(l.codec), g.data.size(), hex(g.data, 32).c_str(), l.matched, l.sent.size());
                }
                PBT_CHECK(ctx, g.captured == l.sent[at].captured && g.offset == 0, "time of capture", "track %zu: frame %zu has %016llx and %lld, given was %016llx", li, at, static_cast<unsigned long long>(g.captured), static_cast<long long>(g.offset),
                    static_cast<unsigned long long>(l.sent[at].captured));
                l.sent[at].delivered = true;
                l.matched = at + 1;
            }
        }
        for (size_t k = 0; k < 2; k += 1) {
            // Messages of the other, in order for each channel
            auto& got = listener[k]->got;
            auto& sent = messages[1 - k];
            if (got.size() <= messagesJudged[k])
                continue;
            std::map<std::string, std::vector<const Message*>> bySent, byGot;
            for (const auto& m : sent)
                bySent[m.label].push_back(&m);
            for (const auto& m : got)
                byGot[m.label].push_back(&m);
            for (const auto& [label, list] : byGot) {
                PBT_CHECK(ctx, list.size() <= bySent[label].size(), "message count", "%zu came on %s, %zu were sent", list.size(), label.c_str(), bySent[label].size());
                for (size_t i = 0; i < list.size(); i += 1) {
                    const auto s = bySent[label][i];
                    PBT_CHECK(ctx, list[i]->text == s->text && list[i]->data == s->data, "message content", "message %zu on %s: got %s of %zu bytes, sent %s of %zu bytes", i, label.c_str(), list[i]->text ? "text" : "data", list[i]->data.size(), s->text ? "text" : "data",
                        s->data.size());
                }
            }
            messagesJudged[k] = got.size();
        }
        PBT_CHECK(ctx, reuse.empty(), "key stream reuse", "%s", reuse.c_str());
        for (size_t k = 0; k < 2; k += 1) {
            const auto& st = node[k]->states;
            for (size_t i = 0; i < st.size(); i += 1) {
                const auto ok = i == 0 ? st[i] == State::Connecting || st[i] == State::Closed : st[i] != st[i - 1] && st[i] != State::Inactive && st[i - 1] != State::Failed && st[i - 1] != State::Closed;
                PBT_CHECK(ctx, ok, "connection states", "%s after %s", stateName(st[i]), i ? stateName(st[i - 1]) : "nothing");
            }
        }
        PBT_CHECK(ctx, !world.spinning, "busy loop", "a network thread does not wait");
    }

    // The last units of a frame, when its first packets were lost: the number after it
    static size_t partial(const Line& l, const Bytes& data)
    {
        for (size_t i = l.matched; i < l.sent.size(); i += 1) {
            const auto& e = l.sent[i].expected;
            for (const auto at : l.sent[i].suffixes)
                if (!l.sent[i].must && at > 0 && at < e.size() && data == Bytes(e.begin() + static_cast<long>(at), e.end()))
                    return i + 1;
        }
        return 0;
    }

    // Everything which must arrive has
    void arrived(const char* when)
    {
        judge();
        for (size_t li = 0; li < lines.size(); li += 1) {
            size_t i = 0;
            for (const auto& s : lines[li].sent) {
                PBT_CHECK(ctx, !s.must || s.delivered, "frame lost", "%s: track %zu: frame %zu of %zu (%s), sent at %lld us, it is %lld us now; states %s %s", when, li, i, lines[li].sent.size(), s.describe.c_str(), static_cast<long long>(s.time), static_cast<long long>(sim::nowMicros()),
                    stateName(node[0]->state()), stateName(node[1]->state()));
                i += 1;
            }
        }
    }

    void dataArrived(const char* when)
    {
        judge();
        for (size_t k = 0; k < 2; k += 1) {
            PBT_CHECK(ctx, listener[k]->got.size() == messages[1 - k].size(), "message lost", "%s: %zu of %zu messages came to %zu", when, listener[k]->got.size(), messages[1 - k].size(), k);
            for (size_t o = 0; o < 2; o += 1)
                for (const auto& label : channels[o])
                    PBT_CHECK(ctx, std::count(listener[k]->opened.begin(), listener[k]->opened.end(), label) == 1, "channel open", "%s: %s was reported open %zu times to %zu", when, label.c_str(),
                        static_cast<size_t>(std::count(listener[k]->opened.begin(), listener[k]->opened.end(), label)), k);
            PBT_CHECK(ctx, listener[k]->closed.empty(), "channel closed", "%s: %s", when, listener[k]->closed[0].c_str());
        }
    }

    size_t frames() const
    {
        size_t n = 0;
        for (const auto& l : lines)
            n += l.sent.size();
        return n;
    }
    size_t allMessages() const
    {
        return messages[0].size() + messages[1].size();
    }

    void drawNetwork(int64_t maxDelay, int64_t maxJitter)
    {
        delay = src.range(0, maxDelay / 1000) * 1000 + 100;
        jitter = src.chance(1, 2) ? src.range(0, maxJitter) : 0;
        dupPercent = src.chance(1, 2) ? static_cast<unsigned>(src.range(1, 15)) : 0;
    }

    void finish()
    {
        ctx.tagN("frames", frames());
        ctx.tagN("messages", allMessages());
        ctx.tagN("datagrams", total);
        ctx.tagN("datagrams lost", lost);
        ctx.tag(pubActive ? "publisher is DTLS client" : "subscriber is DTLS client");
    }
};

// Nothing is lost: everything arrives
void media(Src& src, Ctx& ctx)
{
    Trip t(src, ctx);
    t.drawNetwork(60000, 20000);
    // The buffer has to be long enough for what the network does
    t.start(static_cast<uint16_t>(150 + (t.delay + t.jitter) / 500 + src.range(0, 200)), src.chance(1, 2) ? 2000 : 0);
    // What is sent before the connection is there waits for it
    if (!t.channels[0].empty())
        for (size_t i = src.chance(1, 5) ? src.size(20, 60) : src.size(0, 6); i > 0; i -= 1)
            t.message(src.size(0, 1));
    t.connect();
    const auto steps = src.size(4, 40);
    size_t pli = 0;
    for (size_t i = 0; i < steps; i += 1) {
        switch (src.pick({ 8, 2, 1 })) {
        case 0:
            t.frame(src.chance(1, 2) ? t.lines.front() : t.lines.back(), true);
            break;
        case 1:
            t.message(src.size(0, 1));
            break;
        default:
            for (const auto& l : t.lines)
                if (l.codec != Codec::Opus) {
                    const auto e = t.node[1]->pc->requestPictureLossIndicator(l.sub);
                    PBT_CHECK(ctx, !e.isError(), "key frame request", "%s", e.message.c_str());
                    pli += 1;
                }
        }
        t.world.runFor(src.oneOf<int64_t>({ 1000, 20000, src.range(0, 60000), src.range(0, 400000) }));
        t.judge();
    }
    t.world.runFor(3000000 + 4 * (t.delay + t.jitter));
    // DTLS refuses what is overtaken by 64 others, which is then sent again
    t.world.runFor(30000000, [&] { return t.listener[0]->got.size() >= t.messages[1].size() && t.listener[1]->got.size() >= t.messages[0].size(); });
    t.arrived("at the end");
    t.dataArrived("at the end");
    PBT_CHECK(ctx, t.keyRequests >= pli, "key frame requests", "%zu of %zu came", t.keyRequests, pli);
    PBT_CHECK(ctx, t.both(State::Connected), "state", "the publisher is %s and the subscriber %s", stateName(t.node[0]->state()), stateName(t.node[1]->state()));
    if (t.frames() > 2 || t.allMessages() > 2)
        ctx.nontrivial();
    if (pli)
        ctx.tag("key frame requested");
    t.finish();
}

// Packets of media are lost once each, and data at random: the first are sent again when asked for
void loss(Src& src, Ctx& ctx)
{
    Trip t(src, ctx);
    t.drawNetwork(40000, 5000);
    const auto rare = src.chance(1, 2); // only first copies of media, so that all of it is recovered
    const auto percent = static_cast<unsigned>(src.range(1, rare ? 15 : 30));
    std::set<std::pair<uint32_t, uint16_t>> once;
    bool on = false;
    t.start(static_cast<uint16_t>(600 + t.delay / 250));
    std::set<uint32_t> main;
    for (const auto& l : t.lines)
        main.insert(l.pub->getSSRC());
    t.drop = [&](size_t who, const Bytes& b) {
        if (!on)
            return false;
        if (!rare)
            return src.chance(percent, 100);
        if (b.size() >= 20 && b[0] >= 20 && b[0] <= 63)
            return src.chance(percent, 100); // DTLS
        if (who != 0 || b.size() < 12 || b[0] < 128 || b[0] > 191 || ((b[1] & 0x7f) >= 64 && (b[1] & 0x7f) <= 95))
            return false;
        if (!main.count(rig::be32(&b[8])))
            return false;
        return once.insert({ rig::be32(&b[8]), rig::be16(&b[2]) }).second && src.chance(percent, 100);
    };
    t.connect();
    for (auto& l : t.lines)
        t.frame(l, true, true);
    t.world.runFor(300000);
    on = true;
    const auto steps = src.size(4, 40);
    for (size_t i = 0; i < steps; i += 1) {
        if (src.chance(3, 4))
            t.frame(src.chance(1, 2) ? t.lines.front() : t.lines.back(), rare);
        else
            t.message(src.size(0, 1));
        t.world.runFor(src.oneOf<int64_t>({ 1000, 20000, src.range(0, 60000) }));
        t.judge();
    }
    // What is lost last is only missed when more comes
    on = false;
    for (size_t i = 0; i < 3; i += 1) {
        for (auto& l : t.lines)
            t.frame(l, rare, true);
        t.world.runFor(30000);
    }
    t.world.runFor(1500000);
    t.judge();
    for (size_t i = 0; i < 4; i += 1) {
        for (auto& l : t.lines)
            t.frame(l, true, i == 0);
        t.world.runFor(100000);
    }
    t.world.runFor(30000000, [&] { return t.listener[0]->got.size() >= t.messages[1].size() && t.listener[1]->got.size() >= t.messages[0].size() && t.listener[0]->opened.size() >= t.channels[0].size() + t.channels[1].size() && t.listener[1]->opened.size() >= t.channels[0].size() + t.channels[1].size(); });
    t.world.runFor(2000000);
    t.arrived("at the end");
    t.dataArrived("at the end");
    if (t.lost > 2 && t.frames() > 5)
        ctx.nontrivial();
    ctx.tag(rare ? "recoverable loss" : "any loss");
    t.finish();
}

// A datagram of connectivity checks and one of the handshake are lost while connecting
void setup(Src& src, Ctx& ctx)
{
    Trip t(src, ctx);
    t.drawNetwork(60000, 20000);
    // By kind: the ones of the handshake are sent again after 1, 3 and 7 seconds, and there are 5 in all
    std::set<size_t> which[2];
    which[0].insert(src.size(0, 25));
    which[1].insert(src.size(0, 20));
    size_t count[2] = {};
    t.drop = [&](size_t, const Bytes& b) {
        const size_t kind = !b.empty() && (b[0] == 20 || b[0] == 22);
        return which[kind].count(count[kind]++) != 0;
    };
    t.start(static_cast<uint16_t>(200 + t.delay / 500));
    for (size_t i = src.size(0, 4); i > 0; i -= 1)
        t.message(src.size(0, 1));
    t.connect();
    t.drop = {};
    t.world.runFor(100000);
    for (size_t i = 0; i < 3; i += 1) {
        for (auto& l : t.lines)
            t.frame(l, true, true);
        t.message(src.size(0, 1));
        t.world.runFor(50000);
    }
    t.world.runFor(15000000, [&] { return t.listener[0]->got.size() >= t.messages[1].size() && t.listener[1]->got.size() >= t.messages[0].size(); });
    t.world.runFor(2000000);
    t.arrived("at the end");
    t.dataArrived("at the end");
    if (t.lost)
        ctx.nontrivial();
    t.finish();
}

// Nothing is sent for a long time, or the network is down for a while
void quiet(Src& src, Ctx& ctx)
{
    Trip t(src, ctx);
    t.drawNetwork(80000, 20000);
    t.start(static_cast<uint16_t>(200 + t.delay / 500));
    t.connect();
    t.world.runFor(src.range(0, 3000) * 1000);
    const auto periods = src.size(1, 3);
    bool failed = false;
    for (size_t i = 0; i < periods && !failed; i += 1) {
        const auto states = t.node[0]->states.size() + t.node[1]->states.size();
        if (src.chance(1, 2)) {
            t.world.runFor(src.range(5000, 40000) * 1000);
            ctx.tag("idle");
            PBT_CHECK(ctx, t.both(State::Connected) && t.node[0]->states.size() + t.node[1]->states.size() == states, "idle connection", "the publisher is %s and the subscriber %s after %zu changes", stateName(t.node[0]->state()), stateName(t.node[1]->state()),
                t.node[0]->states.size() + t.node[1]->states.size() - states);
        } else {
            // It's noticed five seconds after the last datagram, which can be four seconds before, and given up after five more
            const auto length = src.oneOf<int64_t>({ src.range(1, 1000), src.range(1, 5500), src.range(1000, 5500), src.range(12000, 20000) }) * 1000;
            if (src.chance(1, 2))
                t.message(src.size(0, 1));
            t.down = true;
            const auto begin = sim::nowMicros();
            t.world.runFor(length / 2);
            t.message(src.size(0, 1));
            t.world.run(begin + length);
            t.down = false;
            ctx.note("%lld us: down for %lld us", static_cast<long long>(begin), static_cast<long long>(length));
            if (length < 9000000) {
                ctx.tag("down for a while");
                t.world.runFor(2000000 + 4 * (t.delay + t.jitter));
                PBT_CHECK(ctx, t.both(State::Connected), "interruption", "of %lld us: the publisher is %s and the subscriber %s", static_cast<long long>(length), stateName(t.node[0]->state()), stateName(t.node[1]->state()));
            } else {
                ctx.tag("down for long");
                PBT_CHECK(ctx, t.both(State::Failed), "long interruption", "of %lld us: the publisher is %s and the subscriber %s", static_cast<long long>(length), stateName(t.node[0]->state()), stateName(t.node[1]->state()));
                failed = true;
            }
        }
        t.judge();
    }
    if (!failed) {
        t.world.runFor(500000);
        for (size_t i = 0; i < 3; i += 1) {
            for (auto& l : t.lines)
                t.frame(l, true, true);
            t.world.runFor(50000);
        }
        t.message(src.size(0, 1));
        t.world.runFor(70000000, [&] { return t.listener[0]->got.size() >= t.messages[1].size() && t.listener[1]->got.size() >= t.messages[0].size(); });
        t.world.runFor(2000000);
        t.arrived("at the end");
        t.dataArrived("at the end");
    }
    ctx.nontrivial();
    t.finish();
}

// One of them closes at some time
void closing(Src& src, Ctx& ctx)
{
    Trip t(src, ctx);
    t.drawNetwork(60000, 20000);
    t.start(static_cast<uint16_t>(200 + t.delay / 500));
    const auto who = src.size(0, 1);
    const auto early = src.chance(1, 3);
    if (early) {
        t.world.runFor(src.range(0, 500) * 1000);
    } else {
        t.connect();
        const auto steps = src.size(0, 8);
        for (size_t i = 0; i < steps; i += 1) {
            if (src.chance(3, 4))
                t.frame(src.chance(1, 2) ? t.lines.front() : t.lines.back(), false);
            else
                t.message(src.size(0, 1));
            t.world.runFor(src.oneOf<int64_t>({ 0, 1000, 20000, src.range(0, 60000) }));
        }
    }
    const auto connected = t.both(State::Connected);
    const auto lossy = src.chance(1, 4);
    if (lossy)
        t.down = true; // The other isn't told
    t.world.close(*t.node[who]);
    ctx.note("%lld us: %zu closes", static_cast<long long>(sim::nowMicros()), who);
    PBT_CHECK(ctx, t.node[who]->state() == State::Closed, "closed", "it is %s", stateName(t.node[who]->state()));
    // What the closed one is asked to do
    {
        auto& l = t.lines.front();
        const auto n = t.node[who]->pc;
        (void)n->publishVideoFrame(l.pub, 0, toBuffer({ 1, 2, 3 }));
        (void)n->publishAudioFrame(l.pub, 0, toBuffer({ 1, 2, 3 }));
        (void)n->requestPictureLossIndicator(l.sub);
        (void)n->sendDataChannelText("pub-0", "x");
        (void)n->getTrackList();
        (void)n->getMediaList();
        n->close();
    }
    // And the other keeps trying
    auto& other = *t.node[1 - who];
    const auto began = sim::nowMicros();
    for (size_t i = 0; i < 3 && 1 - who == 0 && !early; i += 1) {
        (void)other.pc->publishAudioFrame(t.lines.back().pub, sim::nowMicros(), toBuffer(src.blob(50)));
        t.world.runFor(10000);
    }
    if (connected && !lossy) {
        t.world.runFor(1000000 + 2 * (t.delay + t.jitter), [&] { return other.state() == State::Closed; });
        PBT_CHECK(ctx, other.state() == State::Closed, "the other side", "is %s %lld us after one closed", stateName(other.state()), static_cast<long long>(sim::nowMicros() - began));
        ctx.tag("the other is told");
    } else {
        t.world.runFor(12000000);
        PBT_CHECK(ctx, other.state() == State::Closed || other.state() == State::Failed, "the other side", "is %s %lld us after one closed", stateName(other.state()), static_cast<long long>(sim::nowMicros() - began));
        ctx.tag("the other has to find out");
    }
    t.reuse.clear(); // judged with the rest
    t.judge();
    if (src.chance(1, 2)) {
        t.world.close(other);
        PBT_CHECK(ctx, other.state() == State::Closed || other.state() == State::Failed, "closed", "it is %s", stateName(other.state()));
    }
    t.judge();
    ctx.tag(early ? "early" : "connected");
    ctx.nontrivial();
    t.finish();
}

// Datagrams which aren't from either, but look so
void attack(Src& src, Ctx& ctx)
{
    Trip t(src, ctx);
    t.drawNetwork(30000, 5000);
    t.capture = true;
    t.start(static_cast<uint16_t>(250 + t.delay / 500));
    t.connect();
    for (auto& l : t.lines)
        t.frame(l, true, true);
    t.world.runFor(100000);
    const auto steps = src.size(4, 40);
    size_t injected = 0;
    for (size_t i = 0; i < steps; i += 1) {
        switch (src.pick({ 3, 1, 6 })) {
        case 0:
            t.frame(src.chance(1, 2) ? t.lines.front() : t.lines.back(), true);
            break;
        case 1:
            t.message(src.size(0, 1));
            break;
        default: {
            size_t who = src.size(0, 1);
            Bytes b;
            const auto kind = src.pick({ 2, 2, 3, 3 });
            if (kind == 0 || t.captured.empty()) {
                b = src.blob(src.size(0, 60));
                if (!b.empty() && src.chance(2, 3))
                    b[0] = src.oneOf<uint8_t>({ 0, 1, 20, 21, 22, 23, 24, 0x80, 0x90, 0xbf });
                if (b.size() > 13 && b[0] >= 20 && b[0] <= 24 && src.chance(2, 3)) {
                    b[1] = 0xfe;
                    b[2] = src.oneOf<uint8_t>({ 0xfd, 0xff });
                    for (size_t k = 3; k < 11; k += 1)
                        b[k] = k == 4 ? static_cast<uint8_t>(src.size(0, 2)) : k == 10 ? src.u8() : 0;
                    b[11] = 0;
                    b[12] = static_cast<uint8_t>(b.size() - 13);
                }
            } else {
                // One of theirs, later, to either, and changed
                const auto& c = src.elem(t.captured);
                b = c.second;
                who = src.chance(3, 4) ? c.first : 1 - c.first;
                if (kind == 2 && !b.empty()) {
                    for (size_t k = src.size(1, 3); k > 0; k -= 1) {
                        const auto at = src.chance(1, 2) ? src.size(0, std::min<size_t>(20, b.size() - 1)) : src.size(0, b.size() - 1);
                        b[at] = static_cast<uint8_t>(b[at] ^ (1 + src.size(0, 254)));
                    }
                } else if (kind == 3) {
                    b.resize(src.size(0, b.size() + 20));
                }
            }
            ctx.note("%lld us: to %zu: %s", static_cast<long long>(sim::nowMicros()), 1 - who, hex(b, 24).c_str());
            t.inject(who, b);
            injected += 1;
        }
        }
        t.world.runFor(src.oneOf<int64_t>({ 0, 1000, 20000, src.range(0, 60000) }));
        t.judge();
    }
    t.world.runFor(5000000);
    for (auto& l : t.lines)
        t.frame(l, true, true);
    t.message(src.size(0, 1));
    t.world.runFor(2000000);
    PBT_CHECK(ctx, t.both(State::Connected), "state", "the publisher is %s and the subscriber %s", stateName(t.node[0]->state()), stateName(t.node[1]->state()));
    t.arrived("at the end");
    t.dataArrived("at the end");
    for (size_t k = 0; k < 2; k += 1)
        PBT_CHECK(ctx, t.node[k]->states.size() == 2, "connection states", "%zu changes", t.node[k]->states.size());
    if (injected > 3)
        ctx.nontrivial();
    ctx.tagN("injected", injected);
    t.finish();
}

} // namespace

int main(int argc, char** argv)
{
    return run(argc, argv,
        { "P25",
            "media, loss: several frames (and lost datagrams); setup: a datagram was lost; quiet, closing: all; attack: more than three datagrams injected",
            { "both are offerers, and what they say is given to each other by answers written here", "the virtual network stands for UDP, and the virtual clock for all clocks", "a jitter buffer longer than the network's delays" },
            { { "media", 4, media }, { "loss", 4, loss }, { "setup", 3, setup }, { "quiet", 2, quiet }, { "closing", 2, closing }, { "attack", 4, attack } } });
}
