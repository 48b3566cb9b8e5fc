// P29: only the peer which the answer names is connected to
#include "rig_setup.h"

#include "srtc/encoded_frame.h"

using namespace pbt;
using namespace gen;
using sref::cat;
using sref::num;

namespace
{

using Certificate = rig::DtlsPeer::Certificate;

// Everything which the application is told
struct Told : srtc::PeerConnection::DataChannelListener {
    std::vector<std::string> what;

    void onDataChannelOpened(const std::string& label) override
    {
        what.push_back("channel " + label + " opened");
    }
    void onDataChannelClosed(const std::string& label) override
    {
        what.push_back("channel " + label + " closed");
    }
    void onDataChannelReceivedText(const std::string& label, const std::string&) override
    {
        what.push_back("text on " + label);
    }
    void onDataChannelReceivedBinary(const std::string& label, const srtc::ByteBuffer&) override
    {
        what.push_back("data on " + label);
    }
};

// The one with the right credentials, or one of those who aren't
enum class Who {
    Genuine,
    Fingerprint,   // another certificate than the one which the answer names
    Altered,       // the answer names another, slightly
    NoCertificate, // has none to show
    NoProfile,     // would not encrypt media
    Password,      // doesn't know the password
    Silent,        // answers nothing but starts a handshake
};
const char* const kNames[] = { "genuine", "another certificate", "fingerprint altered", "no certificate", "no profile", "wrong password", "handshake only" };

void become(rig::DtlsPeer& p, Who who)
{
    if (who == Who::Fingerprint)
        p.certificate = Certificate::Other;
    if (who == Who::NoCertificate)
        p.certificate = Certificate::None;
    if (who == Who::NoProfile)
        p.profileIndex = 5;
    if (who == Who::Silent)
        p.answerStun = false;
}

rig::Spec makeSpec(Src& src)
{
    rig::Spec s;
    s.direction = src.chance(1, 2) ? srtc::Direction::Publish : srtc::Direction::Subscribe;
    s.audio = src.chance(2, 3);
    s.bwe = src.chance(1, 2);
    if (src.chance(1, 2))
        s.channels = { "one" };
    return s;
}

// What someone who is on the path might send at any time
void intrude(Src& src, rig::World& world, rig::DtlsPeer& p, const rig::Node& node, const std::vector<std::shared_ptr<srtc::Track>>& tracks)
{
    p.remote = node.addrs[0];
    p.hasRemote = true;
    uint32_t ssrc = src.u32();
    uint8_t pt = static_cast<uint8_t>(src.range(96, 127));
    if (!tracks.empty()) {
        const auto& t = src.elem(tracks);
        ssrc = t->getSSRC();
        pt = static_cast<uint8_t>(t->getPayloadId());
    }
    const auto rtp = cat({ { 0x80, static_cast<uint8_t>(0x80 | pt) }, num(src.u16(), 2), num(src.u32(), 4), num(ssrc, 4), { 0x10 }, src.blob(src.size(1, 40)) });
    const auto pli = cat({ { 0x81, 206 }, num(2, 2), num(99, 4), num(ssrc, 4) });
    switch (src.pick({ 2, 2, 1, 1, 1 })) {
    case 0:
        // With the keys agreed on, if there are any
        p.sendRtp(rtp, 0);
        break;
    case 1:
        p.sendRtcp(pli);
        break;
    case 2:
        // Not encrypted
        p.sendRaw(src.chance(1, 2) ? rtp : pli);
        break;
    case 3:
        // The start of an association
        p.sendApp(cat({ num(5000, 2), num(5000, 2), num(0, 4), num(src.u32(), 4), { 1, 0 }, num(20, 2), num(1 + src.u16(), 4), num(100000, 4), num(100, 2), num(100, 2), num(src.u32(), 4) }));
        break;
    default:
        p.startDtls();
        break;
    }
    (void)world;
}

void publish(Src& src, rig::Node& n, const std::vector<std::shared_ptr<srtc::Track>>& tracks, int64_t pts)
{
    if (!tracks.empty()) {
        const auto& t = src.elem(tracks);
        auto frame = src.blob(src.size(10, 2000));
        frame[0] = static_cast<uint8_t>(frame[0] & 0xfe);
        if (t->getMediaType() == srtc::MediaType::Audio)
            frame.resize(10);
        if (t->getDirection() == srtc::Direction::Publish)
            (void)(t->getMediaType() == srtc::MediaType::Audio ? n.pc->publishAudioFrame(t, pts, toBuffer(frame)) : n.pc->publishVideoFrame(t, pts, toBuffer(frame)));
    }
    if (src.chance(1, 3))
        (void)n.pc->sendDataChannelText("one", "secret");
}

struct Listening {
    std::shared_ptr<Told> told = std::make_shared<Told>();
    explicit Listening(rig::Node& n)
    {
        n.pc->setDataChannelListener(told);
        auto t = told;
        n.pc->setSubscribeEncodedFrameListener([t](const std::shared_ptr<srtc::EncodedFrame>&) { t->what.push_back("a frame"); });
        n.pc->setSubscribeSenderReportsListener([t](const std::shared_ptr<srtc::Track>&, const srtc::SenderReport&) { t->what.push_back("a sender report"); });
        n.pc->setPublishKeyFrameRequestedListener([t] { t->what.push_back("key frame request"); });
        n.pc->setPublishConnectionStatsListener([t](const srtc::PublishConnectionStats&) { t->what.push_back("statistics"); });
        n.pc->setSubscribeConnectionStatsListener([t](const srtc::SubscribeConnectionStats&) { t->what.push_back("statistics"); });
    }
};

// Nothing was told to it and it wasn't connected to
void judgeOutsider(Ctx& ctx, const rig::DtlsPeer& p, Who who)
{
    const auto name = kNames[static_cast<int>(who)];
    PBT_CHECK(ctx, p.rtp.empty() && p.rtcp.empty(), "media is sent to somebody else", "%s got %zu media and %zu control packets", name, p.rtp.size(), p.rtcp.size());
    PBT_CHECK(ctx, p.early == 0, "media is sent to somebody else", "%s got %zu packets before a handshake", name, p.early);
    PBT_CHECK(ctx, p.app.empty(), "data is sent to somebody else", "%s got %zu messages", name, p.app.size());
    PBT_CHECK(ctx, p.problems.empty(), "what somebody else saw", "%s: %s", name, p.problems.empty() ? "" : p.problems[0].c_str());
}

// ----- Whoever is at the address in the answer

void alone(Src& src, Ctx& ctx)
{
    const auto active = src.chance(1, 2);
    const auto who = static_cast<Who>(src.pick({ 1, 3, 3, 2, 1, 1, 1 }));
    rig::World world;
    rig::DtlsPeer peer(world, 2, 5000, active);
    peer.profileIndex = src.size(0, 4);
    const auto spec = makeSpec(src);
    auto& node = world.add(spec.direction, { rig::address(1, 4000) });
    const Listening listening(node);
    const auto made = rig::makeOffer(*node.pc, spec);
    PBT_CHECK(ctx, made.offer, "offer", "none");
    peer.remoteUfrag = made.info.ufrag;
    peer.remotePwd = made.info.pwd;
    peer.remoteFingerprint = made.info.fingerprint;

    auto ident = peer.ident();
    auto& hex = ident.fingerprint; // "sha-256 AA:BB..."
    const std::string digits = "0123456789ABCDEF";
    const size_t start = 8;
    std::string how;
    if (who == Who::Altered) {
        switch (src.pick({ 4, 2, 1, 1 })) {
        case 0: {
            // A digit
            size_t at = start + src.size(0, hex.size() - start - 1);
            if (hex[at] == ':')
                at -= 1;
            // Whatever the certificate is
            const auto value = digits.find(static_cast<char>(std::toupper(hex[at])));
            hex[at] = digits[(value + src.size(1, 15)) % 16];
            how = "digit " + std::to_string(at - start);
            break;
        }
        case 1:
            // The end is cut off
            hex.resize(start + 3 * src.size(1, 31) - 1);
            how = "cut to " + std::to_string(hex.size() - start);
            break;
        case 2:
            // There is more
            hex += ":" + std::string(1, digits[src.size(0, 15)]) + std::string(1, digits[src.size(0, 15)]);
            how = "longer";
            break;
        default: {
            // Two bytes exchanged
            const auto a = start + 3 * src.size(0, 31), b = start + 3 * src.size(0, 31);
            if (hex.substr(a, 2) == hex.substr(b, 2))
                throw Discard();
            std::swap(hex[a], hex[b]);
            std::swap(hex[a + 1], hex[b + 1]);
            how = "exchanged";
        }
        }
    } else if (src.chance(1, 4)) {
        for (auto& c : hex)
            c = static_cast<char>(std::tolower(c));
    }
    if (who == Who::Password)
        ident.pwd += "x"; // what srtc is told isn't what it uses

    rig::AnswerOptions options;
    rig::OfferInfo sender;
    if (spec.direction == srtc::Direction::Subscribe) {
        sender = made.info;
        uint32_t v = 7000;
        for (auto& m : sender.media) {
            m.ssrcs = { v, v + 1 };
            m.groups = { { v, v + 1 } };
            v += 10;
        }
        options.sender = &sender;
    }
    const auto answer = rig::writeAnswer(made.info, ident, options);
    become(peer, who);
    const auto e = rig::applyAnswer(node, made, answer);
    ctx.note("%s %s, the peer is the DTLS %s, %s", kNames[static_cast<int>(who)], how.c_str(), active ? "client" : "server", spec.direction == srtc::Direction::Publish ? "publish" : "subscribe");
    ctx.tag(kNames[static_cast<int>(who)]);
    if (e.isError()) {
        PBT_CHECK(ctx, who == Who::Altered, "set up", "%s", e.message.c_str());
        return;
    }
    const int64_t delay = src.range(1, 40) * 1000;
    world.link = [&](const auto&, const auto&, const auto&) { return std::vector<int64_t>{ delay }; };
    const auto tracks = node.pc->getTrackList();

    if (who == Who::Genuine) {
        PBT_CHECK(ctx, world.runFor(5000000, [&] { return node.state() == rig::State::Connected && peer.handshaken; }), "the genuine peer isn't connected to", "state %d", static_cast<int>(node.state()));
        for (const auto& p : peer.problems)
            ctx.fail("what the peer saw", "%s", p.c_str());
        ctx.nontrivial();
        return;
    }

    if (who == Who::Silent || who == Who::Password || src.chance(1, 2)) {
        // It starts at any time
        world.runFor(src.range(0, 300000));
        peer.remote = node.addrs[0];
        peer.hasRemote = true;
        peer.startDtls();
    }
    // Its problems are about what it knows of the credentials
    const auto begin = sim::nowMicros();
    int64_t pts = 0;
    while (sim::nowMicros() < begin + 7000000 && node.state() != rig::State::Failed) {
        world.runFor(src.oneOf<int64_t>({ 1000, src.range(0, 100000), src.range(0, 2000000) }));
        PBT_CHECK(ctx, std::find(node.states.begin(), node.states.end(), rig::State::Connected) == node.states.end(), "connected to somebody else", "%s %s", kNames[static_cast<int>(who)], how.c_str());
        publish(src, node, tracks, pts += 10000);
        intrude(src, world, peer, node, tracks);
    }
    world.runFor(2 * delay + 300000);
    if (who == Who::Password)
        peer.problems.clear();
    judgeOutsider(ctx, peer, who);
    PBT_CHECK(ctx, std::find(node.states.begin(), node.states.end(), rig::State::Connected) == node.states.end(), "connected to somebody else", "%s %s", kNames[static_cast<int>(who)], how.c_str());
    PBT_CHECK(ctx, listening.told->what.empty(), "the application is told something", "%s: %s", kNames[static_cast<int>(who)], listening.told->what[0].c_str());
    PBT_CHECK(ctx, std::find(node.states.begin(), node.states.end(), rig::State::Failed) != node.states.end(), "not reported as failed", "state %d after %lld us", static_cast<int>(node.state()), static_cast<long long>(sim::nowMicros() - begin));
    if (peer.handshaken || who == Who::Silent || who == Who::Password || who == Who::NoCertificate || who == Who::NoProfile)
        ctx.nontrivial();
    if (peer.handshaken)
        ctx.tag("the outsider's handshake came to its end");
}

// ----- Several addresses, one of them the genuine peer's

void among(Src& src, Ctx& ctx)
{
    const auto active = src.chance(1, 2);
    rig::World world;
    const auto spec = makeSpec(src);
    auto& node = world.add(spec.direction, { rig::address(1, 4000) });
    const auto made = rig::makeOffer(*node.pc, spec);
    PBT_CHECK(ctx, made.offer, "offer", "none");

    const auto n = src.size(2, 4);
    const auto at = src.size(0, n - 1);
    std::vector<std::unique_ptr<rig::DtlsPeer>> peers;
    std::vector<Who> who;
    for (size_t i = 0; i < n; i += 1) {
        peers.push_back(std::make_unique<rig::DtlsPeer>(world, 2 + static_cast<unsigned>(i), 5000, active));
        auto& p = *peers.back();
        p.profileIndex = src.size(0, 3);
        p.remoteUfrag = made.info.ufrag;
        p.remotePwd = made.info.pwd;
        p.remoteFingerprint = made.info.fingerprint;
        who.push_back(i == at ? Who::Genuine : src.chance(2, 3) ? Who::Password : Who::Silent);
        if (i != at) {
            p.certificate = static_cast<Certificate>(src.pick({ 0, 3, 1 }));
            become(p, who.back());
        }
        ctx.note("host %zu: %s", i, kNames[static_cast<int>(who.back())]);
    }
    auto ident = peers[at]->ident();
    ident.hosts.clear();
    for (size_t i = 0; i < n; i += 1)
        ident.hosts.emplace_back(peers[i]->host, peers[i]->port);
    for (size_t i = 0; i < n; i += 1)
        if (who[i] == Who::Password)
            peers[i]->pwd += "x";

    rig::AnswerOptions options;
    rig::OfferInfo sender;
    if (spec.direction == srtc::Direction::Subscribe) {
        sender = made.info;
        uint32_t v = 7000;
        for (auto& m : sender.media) {
            m.ssrcs = { v, v + 1 };
            m.groups = { { v, v + 1 } };
            v += 10;
        }
        options.sender = &sender;
    }
    const auto e = rig::applyAnswer(node, made, rig::writeAnswer(made.info, ident, options));
    PBT_CHECK(ctx, !e.isError(), "set up", "%s", e.message.c_str());
    std::vector<int64_t> delay;
    for (size_t i = 0; i < n; i += 1)
        delay.push_back(src.range(1, 60) * 1000);
    world.link = [&](const auto& from, const auto& to, const auto&) {
        for (size_t i = 0; i < n; i += 1)
            if (rig::same(from, peers[i]->addr) || rig::same(to, peers[i]->addr))
                return std::vector<int64_t>{ delay[i] };
        return std::vector<int64_t>{};
    };
    const auto tracks = node.pc->getTrackList();

    const auto begin = sim::nowMicros();
    int64_t pts = 0;
    size_t others = 0;
    while (sim::nowMicros() < begin + 4500000 && !(node.state() == rig::State::Connected && peers[at]->handshaken)) {
        world.runFor(src.range(0, 50000));
        const auto i = src.size(0, n - 1);
        if (i != at) {
            intrude(src, world, *peers[i], node, tracks);
            others += 1;
        }
    }
    PBT_CHECK(ctx, node.state() == rig::State::Connected && peers[at]->handshaken, "the genuine peer isn't connected to", "it's number %zu of %zu, state %d", at, n, static_cast<int>(node.state()));
    for (auto k = src.size(1, 8); k > 0; k -= 1) {
        publish(src, node, tracks, pts += 10000);
        world.runFor(src.range(0, 200000));
        const auto i = src.size(0, n - 1);
        if (i != at) {
            intrude(src, world, *peers[i], node, tracks);
            others += 1;
        }
    }
    world.runFor(2 * *std::max_element(delay.begin(), delay.end()) + 200000);
    PBT_CHECK(ctx, node.state() == rig::State::Connected, "disturbed", "state %d", static_cast<int>(node.state()));
    for (size_t i = 0; i < n; i += 1) {
        if (who[i] == Who::Password)
            peers[i]->problems.clear();
        if (i != at)
            judgeOutsider(ctx, *peers[i], who[i]);
        else
            for (const auto& p : peers[i]->problems)
                ctx.fail("what the peer saw", "%s", p.c_str());
    }
    ctx.tag("several addresses");
    if (others && (at > 0 || delay[at] > delay[0]))
        ctx.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
    return run(argc, argv,
        { "P29",
            "alone: the outsider completed its DTLS handshake, or lacks what a handshake needs; or the genuine peer was connected to; among: the genuine peer isn't the first or the fastest of those at the addresses given",
            { "the virtual network stands for UDP, and the virtual clock for all clocks", "one fingerprint, of SHA-256, is in the answer" },
            { { "alone", 3, alone }, { "among", 1, among } } });
}
