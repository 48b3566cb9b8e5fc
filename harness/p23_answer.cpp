// P23: the SDP answer is understood, and no answer can crash the application
#include "rig_setup.h"

#include "srtc/media.h"
#include "srtc/track.h"
#include "srtc/x509_hash.h"

#include <sstream>

using namespace pbt;
using namespace gen;
using sref::cat;
using sref::num;
using srtc::anyaddr;

namespace
{

const std::vector<srtc::Codec> kVideo = { srtc::Codec::VP8, srtc::Codec::VP9, srtc::Codec::H264, srtc::Codec::H265, srtc::Codec::AV1 };

struct Item {
    std::string id;
    srtc::MediaType type;
    std::vector<srtc::PubCodec> codecs;
    std::vector<srtc::SimulcastLayer> layers;
};

struct Setup {
    bool publish = true;
    bool rtx = true, bwe = false, abs = false;
    std::vector<std::string> channels;
    std::vector<Item> items;
};

Setup generate(Src& src)
{
    Setup s;
    s.publish = !src.chance(2, 5);
    s.rtx = !src.chance(1, 3);
    s.bwe = src.chance(1, 2);
    s.abs = src.chance(1, 2);
    if (src.chance(1, 3))
        s.channels = { "chat" };
    const auto n = src.pick({ s.channels.empty() ? 0u : 1u, 4, 6, 2 });
    for (size_t i = 0; i < n; i += 1) {
        Item it;
        it.id = src.chance(1, 2) ? std::to_string(i) : "m" + std::to_string(i);
        it.type = src.chance(1, 3) ? srtc::MediaType::Audio : srtc::MediaType::Video;
        for (size_t k = src.size(1, 5); k > 0; k -= 1) {
            srtc::PubCodec c;
            if (it.type == srtc::MediaType::Video) {
                c.codec = src.chance(1, 3) ? srtc::Codec::H264 : src.elem(kVideo);
                c.profile_level_id = src.oneOf({ 0x42e01fu, 0x42001fu, 0x640028u, 0x4d0032u });
            } else {
                c.codec = srtc::Codec::Opus;
                c.minptime = src.oneOf({ 10u, 20u, 3u });
                c.stereo = src.chance(1, 2);
            }
            it.codecs.push_back(c);
        }
        if (s.publish && it.type == srtc::MediaType::Video && src.chance(1, 2)) {
            const std::vector<std::string> names = { "low", "mid", "hi", "max" };
            const auto count = src.size(1, 4);
            for (size_t l = 0; l < count; l += 1)
                it.layers.push_back({ names[l], static_cast<uint16_t>(src.range(1, 4000)), static_cast<uint16_t>(src.range(1, 4000)), static_cast<uint16_t>(src.range(1, 120)), static_cast<uint32_t>(src.range(1, 20000)) });
        }
        s.items.push_back(it);
    }
    return s;
}

std::shared_ptr<srtc::SdpOffer> create(srtc::PeerConnection& pc, const Setup& s)
{
    if (s.publish) {
        srtc::PubOfferConfig c;
        c.cname = "cname";
        c.enable_rtx = s.rtx;
        c.enable_bwe = s.bwe;
        c.enable_abs_capture_time = s.abs;
        c.data_channel_config.data_channels = s.channels;
        srtc::PubMediaConfig mc;
        for (const auto& it : s.items)
            mc.media_list.push_back({ it.id, it.type, it.codecs, it.layers });
        return pc.createPublishOffer(c, mc).first;
    }
    srtc::SubOfferConfig c;
    c.cname = "cname";
    c.enable_abs_capture_time = s.abs;
    c.data_channel_config.data_channels = s.channels;
    srtc::SubMediaConfig mc;
    for (const auto& it : s.items) {
        srtc::SubMediaItem m;
        m.media_id = it.id;
        m.media_type = it.type;
        for (const auto& k : it.codecs) {
            srtc::SubCodec sc;
            sc.codec = k.codec;
            sc.profile_level_id = k.profile_level_id;
            sc.minptime = k.minptime;
            sc.stereo = k.stereo;
            m.codec_list.push_back(sc);
        }
        mc.media_list.push_back(m);
    }
    return pc.createSubscribeOffer(c, mc).first;
}

// What the answer says of a payload
struct Stated {
    int pt = 0;
    std::string codec; // as in the offer
    unsigned clock = 0;
    bool nack = false, pli = false;
    int rtx = 0;
    uint32_t level = 0, minptime = 0;
    bool stereo = false;
};

struct Section {
    size_t offered = 0;
    bool rejected = false;
    std::vector<Stated> payloads; // in order of preference
    std::map<std::string, unsigned> extensions;
    std::vector<std::string> rids;
    uint32_t ssrc = 0, rtxSsrc = 0; // of who sends, for a subscriber
};

struct Line {
    std::string text;
    int host = -1; // index of the address which it states
};

struct Answer {
    std::vector<Section> sections;
    std::vector<anyaddr> hosts; // in the order of the text
    std::string ufrag, pwd;
    Bytes print;
    bool active = false;
    bool data = false;
    uint16_t port = 5000;
    int64_t maxMessage = -1; // not stated
    std::string text;
};


std::string mixCase(Src& src, std::string s, bool upper)
{
    if (src.chance(1, 4))
        for (auto& ch : s)
            ch = static_cast<char>(upper ? toupper(ch) : tolower(ch));
    return s;
}

template <class T>
void shuffle(Src& src, std::vector<T>& v)
{
    for (size_t i = v.size(); i > 1; i -= 1)
        std::swap(v[i - 1], v[i - 1 - src.draw(i - 1)]);
}

std::string params(Src& src, std::vector<std::string> list)
{
    if (src.chance(1, 3))
        shuffle(src, list);
    std::string r;
    const char* sep = src.oneOf<const char*>({ ";", ";", "; ", " ; " });
    for (size_t i = 0; i < list.size(); i += 1)
        r += (i ? sep : "") + list[i];
    if (src.chance(1, 8))
        r += ";";
    return r;
}

// A valid answer, and what it means
Answer answer(Src& src, Ctx& ctx, const rig::OfferInfo& offer, const Setup& setup)
{
    Answer a;
    const auto token = [&](size_t n) {
        static const char k[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+/";
        std::string s;
        for (size_t i = 0; i < n; i += 1)
            s += k[src.draw(sizeof(k) - 2)];
        return s;
    };
    a.ufrag = token(src.size(4, 12));
    a.pwd = token(src.size(22, 40));
    a.print = src.blob(32);
    a.active = src.chance(1, 2);
    const auto printText = [&](const Bytes& b) {
        std::string s;
        for (size_t i = 0; i < b.size(); i += 1) {
            char h[8];
            snprintf(h, sizeof(h), "%s%02X", i ? ":" : "", b[i]);
            s += h;
        }
        return s;
    };

    // Addresses
    std::vector<anyaddr> pool;
    std::vector<Line> candidates;
    for (size_t n = src.size(1, 5); n > 0; n -= 1) {
        const auto port = src.chance(1, 6) ? src.oneOf({ 1u, 65535u, 80u }) : static_cast<unsigned>(src.range(1, 65535));
        const auto host = src.chance(1, 3) ? static_cast<unsigned>(src.range(100, 120)) : static_cast<unsigned>(src.range(1, 90));
        const auto known = rig::address(host, port);
        std::string tail = src.chance(1, 3) ? " generation 0 ufrag abcd network-id 1" : "";
        const auto text = [&](const char* component, const std::string& transport, const char* type, const std::string& more) {
            return "a=candidate:" + std::string(src.chance(1, 2) ? "1" : "842163049") + " " + component + " " + transport + " " + std::to_string(src.range(1, 2130706431)) + " " + rig::hostName(host) + " " + std::to_string(port) + " typ " + type + more + tail;
        };
        Line l;
        switch (src.pick({ 8, 1, 1, 1, 1 })) {
        case 0:
            l.host = static_cast<int>(pool.size());
            pool.push_back(known);
            l.text = text("1", mixCase(src, "udp", true), "host", "");
            if (src.chance(1, 6))
                candidates.push_back(l); // Repeated
            break;
        case 1:
            l.text = text("1", "tcp", "host", " tcptype passive");
            break;
        case 2:
            l.text = text("2", "udp", "host", "");
            break;
        case 3:
            l.text = text("1", "udp", "relay", " raddr 10.0.0.77 rport 77");
            break;
        default:
            l.text = "a=candidate:1 1 udp 2130706431 3d1c2b5e-3f1c-4d2a-9a55-7a3d5b0f0f00.local 5000 typ host";
            break;
        }
        candidates.push_back(l);
    }
    if (pool.empty()) {
        candidates.push_back({ "a=candidate:7 1 udp 1 10.0.0.5 5000 typ host", 0 });
        pool.push_back(rig::address(5, 5000));
    }

    const auto sessionLevel = src.chance(1, 4);
    const auto transport = [&](std::vector<Line>& out) {
        out.push_back({ "a=ice-ufrag:" + a.ufrag });
        out.push_back({ "a=ice-pwd:" + a.pwd });
        auto t = printText(a.print);
        out.push_back({ "a=fingerprint:" + mixCase(src, "sha-256", true) + " " + mixCase(src, t, false) });
        if (src.chance(1, 5))
            out.push_back({ "a=fingerprint:sha-1 " + printText(src.blob(20)) });
        if (src.chance(1, 8))
            out.push_back({ "a=fingerprint:sha-512 " + printText(src.blob(64)) });
        out.push_back({ std::string("a=setup:") + (a.active ? "active" : "passive") });
    };

    // At least one section is accepted
    const auto keep = src.draw(offer.media.size() - 1);
    const auto perSection = src.chance(1, 2);
    std::vector<std::pair<std::string, std::vector<Line>>> blocks;
    uint32_t nextSsrc = 1000 + static_cast<uint32_t>(src.draw(4000000000u));
    bool first = true;
    for (size_t i = 0; i < offer.media.size(); i += 1) {
        const auto& m = offer.media[i];
        Section s;
        s.offered = i;
        s.rejected = i != keep && src.chance(1, 6);
        std::vector<Line> lines;
        std::string head;
        if (s.rejected) {
            head = "m=" + m.type + " 0 " + m.protocol + (m.type == "application" ? " webrtc-datachannel" : " " + std::to_string(m.list[0]));
            if (src.chance(1, 2)) {
                lines.push_back({ "a=mid:" + m.mid });
                lines.push_back({ "a=inactive" });
            }
            ctx.tag("rejected section");
            a.sections.push_back(s);
            blocks.emplace_back(head, lines);
            continue;
        }
        lines.push_back({ "a=mid:" + m.mid });
        if (!sessionLevel)
            transport(lines);
        if (first || perSection)
            lines.insert(lines.end(), candidates.begin(), candidates.end());
        if (src.chance(1, 2))
            lines.push_back({ "a=end-of-candidates" });
        first = false;
        if (m.type == "application") {
            head = "m=application " + std::string(src.chance(1, 2) ? "9" : "50123") + " UDP/DTLS/SCTP webrtc-datachannel";
            a.data = true;
            if (src.chance(1, 2))
                a.port = static_cast<uint16_t>(src.range(1, 65535));
            lines.push_back({ "a=sctp-port:" + std::to_string(a.port) });
            if (src.chance(2, 3)) {
                a.maxMessage = src.oneOf<int64_t>({ 0, 262144, 65536, 1073741823, src.range(1, 4294967295) });
                lines.push_back({ "a=max-message-size:" + std::to_string(a.maxMessage) });
            }
            a.sections.push_back(s);
            blocks.emplace_back(head, lines);
            continue;
        }
        lines.push_back({ m.direction == "sendonly" ? "a=recvonly" : "a=sendonly" });
        lines.push_back({ "a=rtcp-mux" });
        if (src.chance(1, 2))
            lines.push_back({ "a=rtcp-rsize" });
        if (src.chance(1, 3))
            lines.push_back({ "a=msid:- " + token(8) });

        // Some of the codecs, in some order
        std::vector<const rig::Payload*> main;
        for (const auto pt : m.list)
            for (const auto& p : m.payloads)
                if (p.pt == pt && p.codec != "rtx")
                    main.push_back(&p);
        if (src.chance(1, 2))
            shuffle(src, main);
        main.resize(src.size(1, main.size()));
        const auto rtx = src.chance(3, 4);
        const auto wild = src.chance(1, 8);
        if (wild)
            lines.push_back({ "a=rtcp-fb:* nack" });
        std::vector<int> list;
        for (const auto p : main) {
            Stated t;
            t.pt = p->pt;
            t.codec = p->codec;
            t.clock = m.type == "video" ? 90000 : 48000;
            list.push_back(p->pt);
            const auto id = std::to_string(p->pt);
            lines.push_back({ "a=rtpmap:" + id + " " + mixCase(src, p->codec, src.chance(1, 2)) + p->map.substr(p->codec.size()) });
            t.nack = wild;
            if (src.chance(3, 4)) {
                t.nack = true;
                lines.push_back({ "a=rtcp-fb:" + id + " nack" });
            }
            if (m.type == "video" && src.chance(3, 4)) {
                t.pli = true;
                lines.push_back({ "a=rtcp-fb:" + id + " nack pli" });
            }
            if (src.chance(1, 3))
                lines.push_back({ "a=rtcp-fb:" + id + " " + src.oneOf<const char*>({ "transport-cc", "goog-remb", "ccm fir", "nack rpsi", "ack rpsi" }) });
            if (p->codec == "H264") {
                t.level = src.oneOf({ 0x42e01fu, 0x42001fu, 0x64002au });
                char level[16];
                snprintf(level, sizeof(level), src.chance(1, 3) ? "%06X" : "%06x", t.level);
                lines.push_back({ "a=fmtp:" + id + " " + params(src, { "level-asymmetry-allowed=1", "packetization-mode=1", std::string("profile-level-id=") + level }) });
            } else if (p->codec == "opus") {
                std::vector<std::string> f = { "useinbandfec=1" };
                if (src.chance(3, 4)) {
                    t.minptime = static_cast<uint32_t>(src.range(3, 120));
                    f.push_back("minptime=" + std::to_string(t.minptime));
                }
                if (src.chance(3, 4)) {
                    t.stereo = src.chance(1, 2);
                    f.push_back(t.stereo ? "stereo=1" : "stereo=0");
                }
                lines.push_back({ "a=fmtp:" + id + " " + params(src, f) });
            } else if (src.chance(1, 3))
                lines.push_back({ "a=fmtp:" + id + " " + (p->codec == "VP9" ? "profile-id=0" : p->codec == "AV1" ? "level-idx=5; profile=0; tier=0" : "max-fr=60") });
            if (p->rtx && rtx && src.chance(7, 8)) {
                t.rtx = p->rtx;
                list.push_back(p->rtx);
                lines.push_back({ "a=rtpmap:" + std::to_string(p->rtx) + (m.type == "video" ? " rtx/90000" : " rtx/48000") });
                lines.push_back({ "a=fmtp:" + std::to_string(p->rtx) + " " + params(src, src.chance(1, 5) ? std::vector<std::string>{ "apt=" + id, "rtx-time=3000" } : std::vector<std::string>{ "apt=" + id }) });
            }
            s.payloads.push_back(t);
        }
        // Retransmission payloads next to the original or at the end
        if (src.chance(1, 2))
            std::stable_partition(list.begin(), list.end(), [&](int pt) {
                for (const auto& t : s.payloads)
                    if (t.pt == pt)
                        return true;
                return false;
            });
        head = "m=" + m.type + " " + src.oneOf<const char*>({ "9", "7", "51234" }) + " UDP/TLS/RTP/SAVPF";
        for (const auto pt : list)
            head += " " + std::to_string(pt);

        for (const auto& e : m.extensions)
            if (src.chance(3, 4)) {
                s.extensions[e.second] = static_cast<unsigned>(e.first);
                lines.push_back({ "a=extmap:" + std::to_string(e.first) + (src.chance(1, 5) ? (m.direction == "sendonly" ? "/recvonly" : "/sendonly") : src.chance(1, 8) ? "/sendrecv" : "") + " " + e.second + (src.chance(1, 10) ? " attr" : "") });
            }
        if (!m.rids.empty() && src.chance(3, 4)) {
            s.rids = m.rids;
            shuffle(src, s.rids);
            s.rids.resize(src.size(1, s.rids.size()));
            std::string l;
            for (const auto& r : s.rids) {
                lines.push_back({ "a=rid:" + r + " recv" });
                l += (l.empty() ? "" : ";") + r;
            }
            lines.push_back({ "a=simulcast:recv " + l });
            ctx.tag("simulcast accepted");
        }
        if (!setup.publish) {
            s.ssrc = nextSsrc++;
            const auto stated = [&](uint32_t v) {
                lines.push_back({ "a=ssrc:" + std::to_string(v) + " cname:x" });
                lines.push_back({ "a=ssrc:" + std::to_string(v) + " msid:a b" });
            };
            stated(s.ssrc);
            if (rtx && src.chance(3, 4)) {
                s.rtxSsrc = nextSsrc++;
                stated(s.rtxSsrc);
                lines.push_back({ "a=ssrc-group:FID " + std::to_string(s.ssrc) + " " + std::to_string(s.rtxSsrc) });
            }
        }
        a.sections.push_back(s);
        blocks.emplace_back(head, lines);
    }

    // The text
    const char* end = src.chance(1, 2) ? "\r\n" : "\n";
    const auto scrambled = src.chance(1, 2);
    std::string t;
    const auto put = [&](const std::string& s) { t += s + end; };
    put("v=0");
    put("o=- " + std::to_string(src.draw(~0ull >> 1)) + " 2 IN IP4 127.0.0.1");
    put(src.chance(1, 2) ? "s=-" : "s=some session: a=b");
    if (src.chance(1, 4))
        put("c=IN IP4 0.0.0.0");
    if (src.chance(1, 4))
        put("b=AS:2000");
    put("t=0 0");
    {
        std::vector<Line> session = { { "a=msid-semantic: WMS *" }, { "a=group:BUNDLE 0" } };
        if (src.chance(1, 3))
            session.push_back({ "a=ice-lite" });
        if (src.chance(1, 3))
            session.push_back({ "a=extmap-allow-mixed" });
        if (sessionLevel)
            transport(session);
        if (scrambled)
            shuffle(src, session);
        for (const auto& l : session)
            put(l.text);
    }
    for (auto& b : blocks) {
        put(b.first);
        put("c=IN IP4 0.0.0.0");
        if (src.chance(1, 4))
            put("b=TIAS:300000");
        if (src.chance(1, 4))
            b.second.push_back({ src.oneOf<const char*>({ "a=rtcp:9 IN IP4 0.0.0.0", "a=x-unknown", "a=x-unknown:a b c", "a=ptime:20", "a=ice-options:trickle" }) });
        if (scrambled)
            shuffle(src, b.second);
        for (const auto& l : b.second) {
            put(l.text);
            if (l.host >= 0 && std::none_of(a.hosts.begin(), a.hosts.end(), [&](const anyaddr& h) { return rig::same(h, pool[static_cast<size_t>(l.host)]); }))
                a.hosts.push_back(pool[static_cast<size_t>(l.host)]);
        }
    }
    if (src.chance(1, 8))
        t.resize(t.size() - strlen(end)); // The last line has no end
    a.text = t;
    if (scrambled)
        ctx.tag("attributes in any order");
    return a;
}

// Sees all the candidates for a track
struct Selector : srtc::TrackSelector {
    mutable std::vector<std::vector<std::shared_ptr<srtc::Track>>> seen;
    mutable std::vector<std::shared_ptr<srtc::Track>> chosen;
    uint64_t salt = 0;
    std::shared_ptr<srtc::Track> selectTrack(const std::vector<std::shared_ptr<srtc::Track>>& list) const override
    {
        seen.push_back(list);
        chosen.push_back(list[(salt + seen.size()) % list.size()]);
        return chosen.back();
    }
};

struct Nobody : srtc::TrackSelector {
    std::shared_ptr<srtc::Track> selectTrack(const std::vector<std::shared_ptr<srtc::Track>>&) const override
    {
        return nullptr;
    }
};

const char* codecName(srtc::Codec c)
{
    switch (c) {
    case srtc::Codec::VP8:
        return "VP8";
    case srtc::Codec::VP9:
        return "VP9";
    case srtc::Codec::H264:
        return "H264";
    case srtc::Codec::H265:
        return "H265";
    case srtc::Codec::AV1:
        return "AV1";
    case srtc::Codec::Opus:
        return "opus";
    default:
        return "?";
    }
}

void judgeTrack(Ctx& ctx, const srtc::Track& t, const Stated& s, const char* what)
{
    PBT_CHECK(ctx, t.getPayloadId() == s.pt, "payload of a track", "%s: %d, expected %d", what, t.getPayloadId(), s.pt);
    PBT_CHECK(ctx, codecName(t.getCodec()) == s.codec, "codec of a track", "%s: %s, expected %s", what, codecName(t.getCodec()), s.codec.c_str());
    PBT_CHECK(ctx, t.getClockRate() == s.clock, "clock of a track", "%s: %u", what, t.getClockRate());
    PBT_CHECK(ctx, t.hasNack() == s.nack, "nack of a track", "%s: %d, the answer says %d", what, t.hasNack(), s.nack);
    PBT_CHECK(ctx, t.hasPli() == s.pli, "pli of a track", "%s: %d, the answer says %d", what, t.hasPli(), s.pli);
    PBT_CHECK(ctx, t.getRtxPayloadId() == s.rtx, "retransmission payload of a track", "%s: %d, the answer says %d", what, t.getRtxPayloadId(), s.rtx);
    const auto o = t.getCodecOptions();
    PBT_CHECK(ctx, (o ? o->profileLevelId : 0) == s.level && (o ? o->minptime : 0) == s.minptime && (o && o->stereo) == s.stereo, "codec options of a track", "%s: %x %u %d, the answer says %x %u %d", what, o ? o->profileLevelId : 0, o ? o->minptime : 0, o && o->stereo, s.level,
              s.minptime, s.stereo);
}

void valid(Src& src, Ctx& ctx)
{
    rig::World world;
    const auto setup = generate(src);
    srtc::PeerConnection pc(setup.publish ? srtc::Direction::Publish : srtc::Direction::Subscribe);
    const auto offer = create(pc, setup);
    const auto info = rig::readOffer(offer->generate().first);
    auto a = answer(src, ctx, info, setup);
    std::string text = a.text;
    const char* broken = nullptr;
    if (src.chance(1, 12)) {
        // Something is missing that's required
        const auto drop = [&](const std::string& prefix) {
            std::stringstream ss(text);
            std::string line, r;
            bool any = false;
            while (std::getline(ss, line)) {
                if (line.compare(0, prefix.size(), prefix) == 0)
                    any = true;
                else
                    r += line + "\n";
            }
            text = r;
            return any;
        };
        switch (src.draw(2)) {
        case 0:
            if (drop("a=rtcp-mux"))
                broken = "no rtcp-mux";
            break;
        case 1:
            if (drop("a=candidate"))
                broken = "no candidates";
            break;
        default:
            if (drop("a=mid:") && std::any_of(a.sections.begin(), a.sections.end(), [&](const Section& s) { return !s.rejected && info.media[s.offered].type != "application"; }))
                broken = "no mid";
            break;
        }
    }
    ctx.note("%s", text.c_str());

    const auto mode = src.pick({ 3, 2, 3, 1 });
    const auto selector = std::make_shared<Selector>();
    selector->salt = src.draw(10);
    const std::shared_ptr<srtc::TrackSelector> given = mode == 0 ? nullptr : mode == 1 ? std::make_shared<srtc::HighestTrackSelector>() : mode == 2 ? std::static_pointer_cast<srtc::TrackSelector>(selector) : std::make_shared<Nobody>();
    const auto [parsed, error] = setup.publish ? pc.parsePublishAnswer(offer, text, given) : pc.parseSubscribeAnswer(offer, text, given);
    std::vector<const Section*> live;
    for (const auto& s : a.sections)
        if (!s.rejected && info.media[s.offered].type != "application")
            live.push_back(&s);
    if (broken || (mode == 3 && !live.empty())) {
        PBT_CHECK(ctx, error.isError() && !parsed, "answer which lacks something is accepted", "%s", broken ? broken : "no track is selected");
        ctx.tag("refused");
        return;
    }
    PBT_CHECK(ctx, !error.isError() && parsed, "valid answer is refused", "%s\n%s", error.message.c_str(), text.c_str());
    {
        srtc::PeerConnection wrong(setup.publish ? srtc::Direction::Subscribe : srtc::Direction::Publish);
        const auto r = setup.publish ? wrong.parsePublishAnswer(offer, text, given) : wrong.parseSubscribeAnswer(offer, text, given);
        PBT_CHECK(ctx, r.second.isError() && !r.first, "answer of the other direction is accepted", "%s", "");
        if (mode == 2)
            PBT_CHECK(ctx, selector->seen.size() == live.size(), "selector's calls", "%zu for %zu media", selector->seen.size(), live.size());
    }

    // Transport
    PBT_CHECK(ctx, parsed->getDirection() == (setup.publish ? srtc::Direction::Publish : srtc::Direction::Subscribe), "direction", "%d", static_cast<int>(parsed->getDirection()));
    PBT_CHECK(ctx, parsed->getIceUFrag() == a.ufrag && parsed->getIcePassword() == a.pwd, "credentials", "%s %s, the answer says %s %s", parsed->getIceUFrag().c_str(), parsed->getIcePassword().c_str(), a.ufrag.c_str(), a.pwd.c_str());
    PBT_CHECK(ctx, parsed->isSetupActive() == a.active, "DTLS role", "%d, the answer says %d", parsed->isSetupActive(), a.active);
    const auto& hash = parsed->getCertificateHash();
    PBT_CHECK(ctx, toBytes(hash.getBin()) == a.print && hash.getAlg() == "sha-256", "fingerprint", "%s %s, the answer says %s", hash.getAlg().c_str(), hex(toBytes(hash.getBin())).c_str(), hex(a.print).c_str());
    const auto hosts = parsed->getHostList();
    PBT_CHECK(ctx, hosts.size() == a.hosts.size(), "number of candidates", "%zu, the answer has %zu", hosts.size(), a.hosts.size());
    for (size_t i = 0; i < hosts.size(); i += 1)
        PBT_CHECK(ctx, rig::same(hosts[i].addr, a.hosts[i]), "candidate", "%s, the answer says %s", srtc::to_string(hosts[i].addr).c_str(), srtc::to_string(a.hosts[i]).c_str());
    PBT_CHECK(ctx, parsed->hasDataChannel() == a.data, "data channel", "%d, the answer says %d", parsed->hasDataChannel(), a.data);
    if (a.data) {
        PBT_CHECK(ctx, parsed->getSctpPort() == a.port, "port of SCTP", "%u, the answer says %u", parsed->getSctpPort(), a.port);
        const auto max = parsed->getMaxMessageSize();
        // RFC 8841: 64K when not stated, no limit when zero
        if (a.maxMessage < 0)
            PBT_CHECK(ctx, max == 65536, "message size which isn't stated", "%u", max);
        else if (a.maxMessage == 0)
            PBT_CHECK(ctx, max >= offer->getSctpMaxMessageSize(), "message size without limit", "%u", max);
        else
            PBT_CHECK(ctx, max == a.maxMessage, "message size", "%u, the answer says %lld", max, static_cast<long long>(a.maxMessage));
    }

    // Media and tracks
    const auto media = parsed->getMediaList();
    const auto tracks = parsed->getTrackList();
    PBT_CHECK(ctx, media.size() == live.size(), "number of media", "%zu, the answer accepts %zu", media.size(), live.size());
    size_t t = 0;
    bool simulcast = false;
    for (size_t i = 0; i < live.size(); i += 1) {
        const auto& s = *live[i];
        const auto& m = info.media[s.offered];
        const auto& item = setup.items[s.offered];
        PBT_CHECK(ctx, media[i]->getId() == m.mid && media[i]->getType() == item.type, "media", "%s, the answer says %s", media[i]->getId().c_str(), m.mid.c_str());
        for (const auto& e : m.extensions) {
            const auto want = s.extensions.count(e.second) ? s.extensions.at(e.second) : 0;
            PBT_CHECK(ctx, media[i]->getExtensionMap().findByName(e.second) == want, "header extension", "%s is %u, the answer says %u", e.second.c_str(), media[i]->getExtensionMap().findByName(e.second), want);
        }
        const Stated* chosen = &s.payloads[0];
        if (mode == 1) {
            // The latest codec, with the highest profile and level
            const auto rank = [&](const Stated& p) {
                const char* order[] = { "VP8", "VP9", "H264", "H265", "AV1" };
                unsigned r = 0;
                while (r < 4 && p.codec != order[r])
                    r += 1;
                return std::make_pair(r, p.level);
            };
            if (item.type == srtc::MediaType::Video)
                for (const auto& p : s.payloads)
                    if (rank(*chosen) < rank(p))
                        chosen = &p;
        } else if (mode == 2) {
            const auto& seen = selector->seen[i];
            PBT_CHECK(ctx, seen.size() == s.payloads.size(), "number of payloads to select from", "%zu, the answer has %zu", seen.size(), s.payloads.size());
            for (size_t k = 0; k < seen.size(); k += 1) {
                judgeTrack(ctx, *seen[k], s.payloads[k], "to select from");
                PBT_CHECK(ctx, seen[k]->getMedia() == media[i], "media of a track", "%s", m.mid.c_str());
                if (seen[k] == selector->chosen[i])
                    chosen = &s.payloads[k];
            }
        }
        const auto layers = s.rids.size();
        simulcast = simulcast || layers;
        PBT_CHECK(ctx, tracks.size() >= t + std::max<size_t>(1, layers), "number of tracks", "%zu", tracks.size());
        std::set<uint32_t> sources;
        std::set<unsigned> indexes;
        for (size_t l = 0; l < std::max<size_t>(1, layers); l += 1) {
            const auto& track = *tracks[t + l];
            judgeTrack(ctx, track, *chosen, "track");
            PBT_CHECK(ctx, track.getMedia() == media[i] && track.getMediaType() == item.type && track.getDirection() == parsed->getDirection(), "media of a track", "%s", m.mid.c_str());
            PBT_CHECK(ctx, sources.insert(track.getSSRC()).second, "source of a track is used twice", "%u", track.getSSRC());
            if (layers) {
                const auto layer = track.getSimulcastLayer();
                PBT_CHECK(ctx, track.isSimulcast() && layer, "track is not simulcast", "%s", m.mid.c_str());
                const auto wanted = std::find(s.rids.begin(), s.rids.end(), layer->name);
                const auto given2 = std::find_if(item.layers.begin(), item.layers.end(), [&](const auto& x) { return x.name == layer->name; });
                PBT_CHECK(ctx, wanted != s.rids.end() && given2 != item.layers.end(), "layer", "%s isn't accepted", layer->name.c_str());
                PBT_CHECK(ctx, layer->width == given2->width && layer->height == given2->height && layer->frames_per_second == given2->frames_per_second && layer->kilobits_per_second == given2->kilobits_per_second, "size of a layer", "%s", layer->name.c_str());
                PBT_CHECK(ctx, layer->index < layers && indexes.insert(layer->index).second, "index of a layer", "%s: %u of %zu", layer->name.c_str(), layer->index, layers);
                const auto sources2 = offer->getVideoSimulastSSRC(m.mid, layer->name);
                PBT_CHECK(ctx, track.getSSRC() == sources2.first && std::count(m.ssrcs.begin(), m.ssrcs.end(), track.getSSRC()) == 1, "source of a layer", "%u, offered %u", track.getSSRC(), sources2.first);
                if (chosen->rtx)
                    PBT_CHECK(ctx, track.getRtxSSRC() == sources2.second && sources2.second, "retransmission source of a layer", "%u, offered %u", track.getRtxSSRC(), sources2.second);
                continue;
            }
            PBT_CHECK(ctx, !track.isSimulcast(), "track is simulcast", "%s", m.mid.c_str());
            if (setup.publish) {
                PBT_CHECK(ctx, std::count(m.ssrcs.begin(), m.ssrcs.end(), track.getSSRC()) == 1, "source of a track isn't offered", "%u", track.getSSRC());
                if (chosen->rtx)
                    PBT_CHECK(ctx, std::count(m.groups.begin(), m.groups.end(), std::make_pair(track.getSSRC(), track.getRtxSSRC())) == 1, "retransmission source of a track isn't offered", "%u %u", track.getSSRC(), track.getRtxSSRC());
                if (m.groups.empty() && m.rids.empty())
                    PBT_CHECK(ctx, track.getSSRC() == m.ssrcs[0], "source of a track", "%u", track.getSSRC());
            } else {
                PBT_CHECK(ctx, track.getSSRC() == s.ssrc, "source of a track", "%u, the answer says %u", track.getSSRC(), s.ssrc);
                if (chosen->rtx)
                    PBT_CHECK(ctx, track.getRtxSSRC() == s.rtxSsrc, "retransmission source of a track", "%u, the answer says %u", track.getRtxSSRC(), s.rtxSsrc);
            }
        }
        t += std::max<size_t>(1, layers);
    }
    PBT_CHECK(ctx, tracks.size() == t, "number of tracks", "%zu, expected %zu", tracks.size(), t);
    PBT_CHECK(ctx, parsed->isVideoSimulcast() == simulcast, "simulcast", "%d", parsed->isVideoSimulcast());
    ctx.tag(setup.publish ? "publish" : "subscribe");
    if (live.size() >= 2 || (live.size() == 1 && live[0]->payloads.size() >= 2) || simulcast || a.hosts.size() >= 2)
        ctx.nontrivial();
}

// Damage of a text, the way line which name the transport can be spared
std::string damage(Src& src, const std::string& text, bool spare)
{
    std::vector<std::string> lines;
    {
        std::stringstream ss(text);
        std::string line;
        while (std::getline(ss, line)) {
            while (!line.empty() && line.back() == '\r')
                line.pop_back();
            lines.push_back(line);
        }
    }
    const auto spared = [&](const std::string& l) {
        if (!spare)
            return false;
        for (const auto p : { "a=candidate", "a=ice", "a=fingerprint", "a=setup", "a=rtcp-mux", "m=application", "a=sctp" })
            if (l.compare(0, strlen(p), p) == 0)
                return true;
        return false;
    };
    static const std::vector<std::string> kNumbers = { "0", "1", "-1", "65535", "65536", "4294967295", "4294967296", "18446744073709551616", "96", "97", "98", "95", "127", "128", "255", "256", "", "99999999999999999999999999", "+5", "0x10", "a" };
    static const std::vector<std::string> kLines = { "m=video 9 UDP/TLS/RTP/SAVPF 96", "m=audio 9 UDP/TLS/RTP/SAVPF 96 97", "m=text 9 UDP/TLS/RTP/SAVPF 96", "m=application 9 UDP/DTLS/SCTP webrtc-datachannel", "m=application 9 DTLS/SCTP 5000", "m=", "m=video", "m=video 9 UDP/TLS/RTP/SAVPF",
        "a=rtpmap:96 VP8/90000", "a=rtpmap:97 H264/90000", "a=rtpmap:98 opus/48000/2", "a=rtpmap:96 rtx/90000", "a=rtpmap:97 rtx/90000", "a=rtpmap:96 AV1/9999999999", "a=rtpmap:96 VP9/10000", "a=rtpmap:96 opus/4294967295", "a=fmtp:97 apt=96", "a=fmtp:96 apt=96", "a=fmtp:97 apt=97",
        "a=fmtp:96 profile-level-id=ffffffff;minptime=4294967295;stereo=9", "a=fmtp:96 ;;;=;a=;=b", "a=rid:low recv", "a=rid: recv", "a=simulcast:recv low;mid;hi", "a=simulcast:recv ;;;", "a=simulcast:recv hi;hi;hi", "a=simulcast:send low", "a=ssrc-group:FID 1 2", "a=ssrc-group:FID 0 0", "a=ssrc-group:FID 1",
        "a=ssrc:0 cname:x", "a=ssrc:1 cname:x", "a=ssrc: x", "a=extmap:0 urn:ietf:params:rtp-hdrext:sdes:mid", "a=extmap:255 urn:ietf:params:rtp-hdrext:sdes:mid", "a=extmap:16 http://www.ietf.org/id/draft-holmer-rmcat-transport-wide-cc-extensions-01", "a=extmap:15 urn:ietf:params:rtp-hdrext:sdes:rtp-stream-id",
        "a=extmap:1 http://www.webrtc.org/experiments/rtp-hdrext/video-layers-allocation00", "a=mid:video", "a=mid:audio", "a=mid:m0", "a=mid:0", "a=mid:", "a=rtcp-mux", "a=max-message-size:0", "a=max-message-size:1", "a=sctp-port:0", "a=rtcp-fb:96 nack", "a=rtcp-fb:* nack pli", "a=rtcp-fb:96", "a=", "=", "a", "a=:", "a= ",
        "a=candidate:1 1 udp 1 10.0.0.9 65536 typ host", "a=candidate:1 1 udp 1 10.0.0.9.9 1 typ host", "a=candidate:1 1 udp 1 :: 1 typ host", "a=candidate:1 1 udp 1 ::1.2.3.4 1 typ host", "a=candidate:1 1 udp", "a=fingerprint:sha-256 zz", "a=fingerprint:sha-256 ", "a=fingerprint:md5 00", "a=setup:holdconn", "a=ice-ufrag:", "a=ice-pwd:" };
    for (size_t n = src.pick({ 0, 6, 3, 2, 1, 1, 1, 1 }); n > 0; n -= 1) {
        if (lines.empty())
            break;
        const auto i = static_cast<size_t>(src.draw(lines.size() - 1));
        switch (src.draw(8)) {
        case 0:
            if (!spared(lines[i]))
                lines.erase(lines.begin() + static_cast<ptrdiff_t>(i));
            break;
        case 1:
            lines.insert(lines.begin() + static_cast<ptrdiff_t>(i), lines[static_cast<size_t>(src.draw(lines.size() - 1))]);
            break;
        case 2:
            std::swap(lines[i], lines[static_cast<size_t>(src.draw(lines.size() - 1))]);
            break;
        case 3:
        case 4:
            lines.insert(lines.begin() + static_cast<ptrdiff_t>(i), src.elem(kLines));
            break;
        case 5: {
            // Another number
            auto& l = lines[i];
            if (spared(l))
                break;
            std::vector<std::pair<size_t, size_t>> at;
            for (size_t k = 0; k < l.size(); k += 1)
                if (isdigit(static_cast<unsigned char>(l[k]))) {
                    auto e = k;
                    while (e < l.size() && isdigit(static_cast<unsigned char>(l[e])))
                        e += 1;
                    at.emplace_back(k, e - k);
                    k = e;
                }
            if (!at.empty()) {
                const auto [from, size] = src.elem(at);
                l.replace(from, size, src.elem(kNumbers));
            }
            break;
        }
        case 6: {
            auto& l = lines[i];
            if (!spared(l))
                l.resize(src.draw(l.size()));
            break;
        }
        default: {
            auto& l = lines[i];
            if (spared(l) || l.empty())
                break;
            const auto at = static_cast<size_t>(src.draw(l.size() - 1));
            const char ch = src.chance(1, 2) ? src.oneOf<char>({ ' ', ':', ';', '=', '/', '.', '*', '0', '-' }) : static_cast<char>(src.u8());
            if (src.chance(1, 2))
                l[at] = ch;
            else
                l.insert(at, src.chance(1, 20) ? 3000 : 1, ch);
            break;
        }
        }
    }
    std::string r;
    const char* end = src.chance(1, 2) ? "\r\n" : "\n";
    for (const auto& l : lines)
        r += l + end;
    return r;
}

// Any text gives an error or a result whose parts can be used
void hostile(Src& src, Ctx& ctx)
{
    rig::World world;
    const auto setup = generate(src);
    srtc::PeerConnection pc(setup.publish ? srtc::Direction::Publish : srtc::Direction::Subscribe);
    const auto offer = create(pc, setup);
    const auto sdp = offer->generate().first;
    const auto info = rig::readOffer(sdp);
    std::string text;
    switch (src.pick({ 8, 2, 1 })) {
    case 0:
        text = damage(src, answer(src, ctx, info, setup).text, false);
        break;
    case 1:
        text = damage(src, src.chance(1, 2) ? sdp : sdp + "a=candidate:1 1 udp 1 10.0.0.1 1 typ host\n", false); // Our own offer
        break;
    default: {
        const auto b = src.blob(src.size(0, 300));
        text.assign(b.begin(), b.end());
        break;
    }
    }
    ctx.note("%s", text.c_str());
    const std::shared_ptr<srtc::TrackSelector> given = src.chance(1, 2) ? std::make_shared<srtc::HighestTrackSelector>() : nullptr;
    const auto [parsed, error] = setup.publish ? pc.parsePublishAnswer(offer, text, given) : pc.parseSubscribeAnswer(offer, text, given);
    PBT_CHECK(ctx, error.isError() == !parsed, "neither an error nor a result", "%s", error.message.c_str());
    if (!parsed) {
        ctx.tag("refused");
        ctx.nontrivial();
        return;
    }
    ctx.tag("accepted");
    ctx.nontrivial();
    PBT_CHECK(ctx, !parsed->getHostList().empty() && (!parsed->getTrackList().empty() || parsed->hasDataChannel()), "result which can't be used", "%s", text.c_str());
    for (const auto& t : parsed->getTrackList()) {
        PBT_CHECK(ctx, t && t->getMedia() && t->getPayloadId() >= 96 && t->getPayloadId() <= 127, "track which can't be used", "%s", text.c_str());
        PBT_CHECK(ctx, t->getSSRC() != 0, "track without a source", "%s", text.c_str());
        PBT_CHECK(ctx, !t->isSimulcast() || t->getSimulcastLayer(), "track without a layer", "%s", text.c_str());
    }
}

// A connection which goes by such an answer, and the media which the application then publishes or receives
void connected(Src& src, Ctx& ctx)
{
    rig::Spec spec;
    spec.direction = src.chance(1, 3) ? srtc::Direction::Subscribe : srtc::Direction::Publish;
    const auto publish = spec.direction == srtc::Direction::Publish;
    spec.audio = src.chance(3, 4);
    spec.video = !spec.audio || src.chance(3, 4);
    spec.videoCodecs.clear();
    for (size_t n = src.size(1, 4); n > 0; n -= 1)
        spec.videoCodecs.push_back(src.elem(kVideo));
    spec.rtx = !src.chance(1, 3);
    spec.bwe = src.chance(1, 2);
    spec.absCapture = src.chance(1, 2);
    if (publish && src.chance(1, 2))
        spec.layers = { "low", "mid", "hi" };
    if (src.chance(1, 3))
        spec.channels = { "chat" };
    spec.highest = src.chance(1, 2);
    rig::AnswerOptions options;
    options.rids = spec.layers;

    rig::Duo d(src.chance(1, 2));
    d.node = &d.world.add(spec.direction, { rig::address(1, 4000) });
    d.made = rig::makeOffer(*d.node->pc, spec);
    d.peer.remoteUfrag = d.made.info.ufrag;
    d.peer.remotePwd = d.made.info.pwd;
    d.peer.remoteFingerprint = d.made.info.fingerprint;
    if (!publish) {
        d.sender = d.made.info;
        uint32_t v = 7000;
        for (auto& m : d.sender.media) {
            m.ssrcs = { v, v + 1 };
            m.groups = { { v, v + 1 } };
            v += 10;
        }
        options.sender = &d.sender;
    }
    const auto text = damage(src, rig::writeAnswer(d.made.info, d.peer.ident(), options), true);
    ctx.note("%s", text.c_str());
    const auto e = rig::applyAnswer(*d.node, d.made, text, spec.highest);
    if (e.isError()) {
        ctx.tag("refused");
        return;
    }
    ctx.tag("accepted");
    if (!d.connect(8000000)) {
        ctx.tag("did not connect");
        d.world.close(*d.node);
        return;
    }
    ctx.tag("connected");
    ctx.nontrivial();
    d.tracks = d.node->pc->getTrackList();
    for (size_t i = 0, n = src.size(1, 12); i < n; i += 1) {
        if (publish) {
            if (d.tracks.empty())
                break;
            const auto& t = src.elem(d.tracks);
            auto body = src.blob(src.oneOf<size_t>({ 1, 30, 900, 1300, 5000 }));
            if (src.chance(1, 2))
                body = cat({ { 0, 0, 0, 1, static_cast<uint8_t>(src.oneOf({ 0x65, 0x67, 0x68, 0x41, 0x26, 0x40 })) }, body });
            const auto pts = sim::nowMicros();
            if (t->getMediaType() == srtc::MediaType::Video)
                d.node->pc->publishVideoFrame(t, pts, toBuffer(body));
            else
                d.node->pc->publishAudioFrame(t, pts, toBuffer(body));
            if (t->isSimulcast() && src.chance(1, 4))
                d.node->pc->updateVideoSimulcastLayer(t, *t->getSimulcastLayer());
        } else {
            const auto ssrc = d.tracks.empty() || src.chance(1, 4) ? static_cast<uint32_t>(src.range(7000, 7011)) : src.elem(d.tracks)->getSSRC();
            const auto pt = d.tracks.empty() || src.chance(1, 4) ? static_cast<uint8_t>(src.range(96, 104)) : src.elem(d.tracks)->getPayloadId();
            d.peer.sendRtp(cat({ { 0x80, static_cast<uint8_t>(pt | (src.chance(1, 2) ? 0x80 : 0)) }, num(100 + i, 2), num(3000 * i, 4), num(ssrc, 4), src.blob(src.oneOf<size_t>({ 1, 2, 3, 30, 900 })) }), 0);
            if (!d.tracks.empty() && src.chance(1, 4))
                (void)d.node->pc->requestPictureLossIndicator(src.elem(d.tracks));
        }
        if (!spec.channels.empty() && src.chance(1, 4))
            (void)d.node->pc->sendDataChannelText("chat", "hello");
        d.world.runFor(src.oneOf<int64_t>({ 1000, 40000, 200000 }));
    }
    d.world.runFor(src.oneOf<int64_t>({ 100000, 6000000 }));
    PBT_CHECK(ctx, !d.world.spinning, "the network thread does not rest", "%s", "");
    // Whatever it sends, the sources are those offered
    if (publish) {
        std::set<uint32_t> offered;
        for (const auto& m : d.made.info.media)
            offered.insert(m.ssrcs.begin(), m.ssrcs.end());
        for (const auto& p : d.peer.rtp)
            PBT_CHECK(ctx, offered.count(p.ssrc), "source which wasn't offered", "%u", p.ssrc);
    }
    d.world.close(*d.node);
}

} // namespace

int main(int argc, char** argv)
{
    return run(argc, argv,
               { "P23",
                 "valid: more than one payload, media, layer or candidate; hostile: a text which was judged; connected: a connection by a damaged answer was made",
                 { "candidates of interest are host candidates over UDP for component 1", "payload and extension numbers of a valid answer are those of the offer, and its codecs a subset", "a subscriber's answer states the sources (a=ssrc)" },
                 { { "valid", 10, valid }, { "hostile", 6, hostile }, { "connected", 1, connected } } });
}
