// P22: the SDP offer states exactly the requested configuration
#include "rig_setup.h"

#include "srtc/rtcp_packet_source.h"

#include <sstream>

#include <openssl/evp.h>
#include <openssl/x509.h>

using namespace pbt;
using namespace gen;

namespace
{

struct Item {
    std::string id;
    srtc::MediaType type = srtc::MediaType::Video;
    std::vector<srtc::PubCodec> codecs;
    std::vector<srtc::SimulcastLayer> layers;
};

struct Config {
    bool publish = true;
    std::string cname;
    bool rtx = true, bwe = false, rfc8851 = false, abs = false;
    std::vector<std::string> channels;
    std::vector<Item> items;
};

std::string token(Src& src, size_t lo, size_t hi)
{
    static const char kAlphabet[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    std::string s;
    const auto n = src.size(lo, hi);
    for (size_t i = 0; i < n; i += 1)
        s += kAlphabet[src.draw(sizeof(kAlphabet) - 2)];
    return s;
}

const std::vector<srtc::Codec> kVideo = { srtc::Codec::VP8, srtc::Codec::VP9, srtc::Codec::H264, srtc::Codec::H265, srtc::Codec::AV1 };

Config generate(Src& src, Ctx& ctx)
{
    Config c;
    c.publish = !src.chance(2, 5);
    c.cname = token(src, 1, 16);
    c.rtx = !src.chance(1, 3);
    c.bwe = src.chance(1, 2);
    c.rfc8851 = src.chance(1, 2);
    c.abs = src.chance(1, 2);
    for (size_t n = src.pick({ 5, 2, 1 }); n > 0; n -= 1)
        c.channels.push_back(token(src, 1, 8));
    for (size_t n = src.pick({ 1, 4, 6, 2, 1 }); n > 0; n -= 1) {
        Item it;
        it.id = token(src, 1, 6);
        it.type = src.chance(2, 5) ? srtc::MediaType::Audio : srtc::MediaType::Video;
        const auto count = src.pick({ 8, 6, 4, 1 });
        const auto codecs = count == 3 ? src.size(4, 20) : count + 1;
        for (size_t i = 0; i < codecs; i += 1) {
            srtc::PubCodec k;
            if (it.type == srtc::MediaType::Video) {
                k.codec = src.elem(kVideo);
                k.profile_level_id = src.chance(1, 4) ? static_cast<uint32_t>(src.draw(0xffffff)) : src.oneOf({ 0x42e01fu, 0x42001fu, 0x640028u, 0x4d0032u });
            } else {
                k.codec = srtc::Codec::Opus;
                k.minptime = static_cast<uint32_t>(src.range(3, 120));
                k.stereo = src.chance(1, 2);
            }
            it.codecs.push_back(k);
        }
        if (it.type == srtc::MediaType::Video && src.chance(1, 2))
            for (size_t l = src.size(1, 4); l > 0; l -= 1)
                it.layers.push_back({ token(src, 1, 8), static_cast<uint16_t>(src.range(1, 65535)), static_cast<uint16_t>(src.range(1, 65535)), static_cast<uint16_t>(src.range(1, 240)), static_cast<uint32_t>(src.range(1, 1000000)) });
        c.items.push_back(it);
    }

    // Something wrong with it
    if (src.chance(1, 4) && !c.items.empty()) {
        const auto i = src.draw(c.items.size() - 1);
        auto& it = c.items[i];
        switch (src.draw(5)) {
        case 0:
            it.id.clear();
            break;
        case 1:
            it.codecs.clear();
            break;
        case 2: {
            srtc::PubCodec k;
            k.codec = it.type == srtc::MediaType::Video ? src.oneOf({ srtc::Codec::Opus, srtc::Codec::Rtx }) : src.oneOf({ srtc::Codec::VP8, srtc::Codec::H264, srtc::Codec::AV1, srtc::Codec::Rtx });
            it.codecs.insert(it.codecs.begin() + static_cast<ptrdiff_t>(src.draw(it.codecs.size())), k);
            break;
        }
        case 3:
            it.id = c.items[src.draw(c.items.size() - 1)].id;
            break;
        case 4:
            it.id = "datachannel";
            break;
        default:
            if (!it.layers.empty())
                it.layers.push_back(it.layers[src.draw(it.layers.size() - 1)]);
            break;
        }
        ctx.tag("something may be wrong");
    }
    return c;
}

// Why it can't be offered
std::string invalid(const Config& c)
{
    if (c.items.empty() && c.channels.empty())
        return "empty";
    std::set<std::string> ids;
    size_t payloads = 0;
    for (const auto& it : c.items) {
        if (it.id.empty())
            return "no media id";
        if (!ids.insert(it.id).second)
            return "media id used twice";
        if (it.id == "datachannel" && !c.channels.empty())
            return "media id of the data channels";
        if (it.codecs.empty())
            return "no codecs";
        for (const auto& k : it.codecs)
            if (k.codec == srtc::Codec::Rtx || (k.codec == srtc::Codec::Opus) != (it.type == srtc::MediaType::Audio))
                return "codec of another type";
        payloads += it.codecs.size() * (c.rtx || !c.publish ? 2 : 1);
        std::set<std::string> names;
        if (c.publish)
            for (const auto& l : it.layers)
                if (!names.insert(l.name).second)
                    return "layer name used twice";
    }
    return payloads > 32 ? "too many payloads" : "";
}

std::pair<std::shared_ptr<srtc::SdpOffer>, srtc::Error> create(srtc::PeerConnection& pc, const Config& c)
{
    if (c.publish) {
        srtc::PubOfferConfig oc;
        oc.cname = c.cname;
        oc.enable_rtx = c.rtx;
        oc.enable_bwe = c.bwe;
        oc.enable_rfc8851 = c.rfc8851;
        oc.enable_abs_capture_time = c.abs;
        oc.data_channel_config.data_channels = c.channels;
        srtc::PubMediaConfig mc;
        for (const auto& it : c.items) {
            srtc::PubMediaItem m;
            m.media_id = it.id;
            m.media_type = it.type;
            m.codec_list = it.codecs;
            m.layer_list = it.layers;
            mc.media_list.push_back(m);
        }
        return pc.createPublishOffer(oc, mc);
    }
    srtc::SubOfferConfig oc;
    oc.cname = c.cname;
    oc.enable_abs_capture_time = c.abs;
    oc.data_channel_config.data_channels = c.channels;
    srtc::SubMediaConfig mc;
    for (const auto& it : c.items) {
        srtc::SubMediaItem m;
        m.media_id = it.id;
        m.media_type = it.type;
        for (const auto& k : it.codecs) {
            srtc::SubCodec s;
            s.codec = k.codec;
            s.profile_level_id = k.profile_level_id;
            s.minptime = k.minptime;
            s.stereo = k.stereo;
            m.codec_list.push_back(s);
        }
        mc.media_list.push_back(m);
    }
    return pc.createSubscribeOffer(oc, mc);
}

const char* rtpmap(srtc::Codec c)
{
    switch (c) {
    case srtc::Codec::VP8:
        return "VP8/90000";
    case srtc::Codec::VP9:
        return "VP9/90000";
    case srtc::Codec::H264:
        return "H264/90000";
    case srtc::Codec::H265:
        return "H265/90000";
    case srtc::Codec::AV1:
        return "AV1/90000";
    default:
        return "opus/48000/2";
    }
}

std::map<std::string, std::string> params(const std::string& s)
{
    std::map<std::string, std::string> r;
    std::stringstream ss(s);
    std::string w;
    while (std::getline(ss, w, ';')) {
        while (!w.empty() && w[0] == ' ')
            w.erase(0, 1);
        const auto e = w.find('=');
        r[w.substr(0, e)] = e == std::string::npos ? "" : w.substr(e + 1);
    }
    return r;
}

std::vector<std::string> words(const std::string& s)
{
    std::vector<std::string> r;
    std::stringstream ss(s);
    std::string w;
    while (ss >> w)
        r.push_back(w);
    return r;
}

std::string fingerprintOf(const srtc::X509Certificate& cert)
{
    unsigned char md[EVP_MAX_MD_SIZE];
    unsigned n = 0;
    X509_digest(cert.getCertificate(), EVP_sha256(), md, &n);
    std::string r = "sha-256 ";
    for (unsigned i = 0; i < n; i += 1) {
        char b[8];
        snprintf(b, sizeof(b), "%s%02X", i ? ":" : "", md[i]);
        r += b;
    }
    return r;
}

std::string upper(std::string s)
{
    for (size_t i = s.find(' '); i != std::string::npos && i < s.size(); i += 1)
        s[i] = static_cast<char>(toupper(s[i]));
    return s;
}

// The shape of the text, RFC 8866: order of the lines, and how many there are of each attribute
void judgeShape(Ctx& ctx, const std::string& sdp)
{
    PBT_CHECK(ctx, !sdp.empty() && sdp.back() == '\n', "last line has no end", "%s", sdp.c_str());
    const std::string order = "vosiuepcbtrzka"; // of the session
    size_t rank = 0, section = 0;
    std::map<std::string, int> once;
    std::set<std::string> maps;
    std::string seen;
    std::stringstream ss(sdp);
    std::string line;
    while (std::getline(ss, line)) {
        if (!line.empty() && line.back() == '\r')
            line.pop_back();
        PBT_CHECK(ctx, line.size() > 2 && line[1] == '=' && line[2] != ' ' && line.back() != ' ', "malformed line", "'%s'", line.c_str());
        for (const auto ch : line)
            PBT_CHECK(ctx, ch >= 32 && ch < 127, "character", "%d in '%s'", ch, line.c_str());
        const auto type = line[0];
        if (type == 'm') {
            section += 1;
            once.clear();
            maps.clear();
            rank = 0;
            const auto w = words(line.substr(2));
            PBT_CHECK(ctx, w.size() >= 4, "media line", "%s", line.c_str());
            continue;
        }
        const auto at = (section ? std::string("micbka") : order).find(type);
        PBT_CHECK(ctx, at != std::string::npos && at >= rank, "order of lines", "%s", line.c_str());
        PBT_CHECK(ctx, type == 'a' || at > rank || seen.empty(), "line twice", "%s", line.c_str());
        rank = at;
        seen += type;
        if (type != 'a')
            continue;
        const auto name = line.substr(2, line.find(':') - 2);
        static const std::set<std::string> kMany = { "rtpmap", "fmtp", "rtcp-fb", "extmap", "ssrc", "ssrc-group", "rid", "candidate", "fingerprint" };
        if (!kMany.count(name))
            PBT_CHECK(ctx, ++once[name] == 1, "attribute twice", "%s", line.c_str());
        // No line is repeated as it is
        PBT_CHECK(ctx, maps.insert(line).second, "line repeated", "%s", line.c_str());
    }
    for (const auto ch : std::string("vost"))
        PBT_CHECK(ctx, seen.find(ch) != std::string::npos, "line is missing", "%c", ch);
}

void judge(Ctx& ctx, const Config& c, srtc::SdpOffer& offer, const std::string& sdp)
{
    judgeShape(ctx, sdp);
    const auto info = rig::readOffer(sdp);
    PBT_CHECK(ctx, info.error.empty(), "offer can't be read", "%s", info.error.c_str());

    const auto sections = c.items.size() + (c.channels.empty() ? 0 : 1);
    PBT_CHECK(ctx, info.media.size() == sections, "number of media sections", "%zu, expected %zu", info.media.size(), sections);

    // One transport for all
    std::string bundle = "BUNDLE";
    for (const auto& m : info.media)
        bundle += " " + m.mid;
    if (sections > 1)
        PBT_CHECK(ctx, info.bundle == bundle, "bundle", "'%s', expected '%s'", info.bundle.c_str(), bundle.c_str());
    else
        PBT_CHECK(ctx, info.bundle.empty() || info.bundle == bundle, "bundle", "'%s'", info.bundle.c_str());

    // Credentials, the same in all sections
    const auto print = fingerprintOf(*offer.getCertificate());
    for (const auto& ch : info.ufrag + info.pwd)
        PBT_CHECK(ctx, isalnum(static_cast<unsigned char>(ch)) || ch == '+' || ch == '/', "credentials", "%s %s", info.ufrag.c_str(), info.pwd.c_str());
    PBT_CHECK(ctx, info.ufrag.size() >= 4 && info.ufrag.size() <= 256 && info.pwd.size() >= 22 && info.pwd.size() <= 256, "length of credentials", "%s %s", info.ufrag.c_str(), info.pwd.c_str());
    PBT_CHECK(ctx, info.ufrag == offer.getIceUFrag() && info.pwd == offer.getIcePassword(), "credentials in use", "%s %s", info.ufrag.c_str(), info.pwd.c_str());
    {
        std::stringstream ss(sdp);
        std::string line;
        size_t ufrags = 0, prints = 0;
        while (std::getline(ss, line)) {
            if (line.compare(0, 12, "a=ice-ufrag:") == 0) {
                ufrags += 1;
                PBT_CHECK(ctx, line.substr(12) == info.ufrag, "credentials differ", "%s", line.c_str());
            }
            if (line.compare(0, 10, "a=ice-pwd:") == 0)
                PBT_CHECK(ctx, line.substr(10) == info.pwd, "credentials differ", "%s", line.c_str());
            if (line.compare(0, 14, "a=fingerprint:") == 0) {
                prints += 1;
                PBT_CHECK(ctx, upper(line.substr(14)) == print, "fingerprint", "%s, certificate has %s", line.c_str(), print.c_str());
            }
        }
        PBT_CHECK(ctx, ufrags == sections && prints == sections, "credentials of sections", "%zu %zu for %zu", ufrags, prints, sections);
    }

    std::set<int> payloads;
    std::set<uint32_t> sources;
    std::set<std::string> mids;
    for (size_t i = 0; i < info.media.size(); i += 1) {
        const auto& m = info.media[i];
        PBT_CHECK(ctx, mids.insert(m.mid).second && !m.mid.empty(), "media id", "'%s'", m.mid.c_str());
        PBT_CHECK(ctx, m.attributes.count("setup") && m.attributes.at("setup") == "actpass", "setup", "%s", m.mid.c_str());
        if (i == c.items.size()) {
            PBT_CHECK(ctx, m.type == "application" && m.protocol == "UDP/DTLS/SCTP" && m.attributes.count("sctp-port") && m.attributes.count("max-message-size"), "data channel section", "%s %s", m.type.c_str(), m.protocol.c_str());
            PBT_CHECK(ctx, m.attributes.at("sctp-port") == std::to_string(offer.getSctpPort()) && m.attributes.at("max-message-size") == std::to_string(offer.getSctpMaxMessageSize()), "data channel limits", "%s %s", m.attributes.at("sctp-port").c_str(), m.attributes.at("max-message-size").c_str());
            continue;
        }
        const auto& it = c.items[i];
        const auto video = it.type == srtc::MediaType::Video;
        const auto rtx = !c.publish || c.rtx;
        const auto simulcast = c.publish && !it.layers.empty();
        PBT_CHECK(ctx, m.type == (video ? "video" : "audio") && m.protocol == "UDP/TLS/RTP/SAVPF" && m.mid == it.id, "media line", "%s %s %s", m.type.c_str(), m.protocol.c_str(), m.mid.c_str());
        PBT_CHECK(ctx, m.direction == (c.publish ? "sendonly" : "recvonly"), "direction", "%s", m.direction.c_str());
        PBT_CHECK(ctx, m.attributes.count("rtcp-mux") && m.attributes.count("rtcp-rsize"), "rtcp-mux or rtcp-rsize", "%s", m.mid.c_str());

        // Codecs, in order
        PBT_CHECK(ctx, m.list.size() == it.codecs.size() * (rtx ? 2 : 1) && m.payloads.size() == m.list.size(), "number of payloads", "%zu and %zu, with %zu codecs", m.list.size(), m.payloads.size(), it.codecs.size());
        std::vector<const rig::Payload*> main;
        for (const auto pt : m.list) {
            PBT_CHECK(ctx, pt >= 96 && pt <= 127 && payloads.insert(pt).second, "payload number", "%d", pt);
            for (const auto& p : m.payloads)
                if (p.pt == pt && p.codec != "rtx")
                    main.push_back(&p);
        }
        PBT_CHECK(ctx, main.size() == it.codecs.size(), "codecs", "%zu, expected %zu", main.size(), it.codecs.size());
        std::set<int> rtxIds;
        for (size_t k = 0; k < main.size(); k += 1) {
            const auto& p = *main[k];
            const auto& want = it.codecs[k];
            PBT_CHECK(ctx, p.map == rtpmap(want.codec), "codec", "%s, expected %s", p.map.c_str(), rtpmap(want.codec));
            auto f = params(p.fmtp);
            if (want.codec == srtc::Codec::H264) {
                char level[16];
                snprintf(level, sizeof(level), "%06x", want.profile_level_id);
                PBT_CHECK(ctx, f["profile-level-id"] == level && f["packetization-mode"] == "1", "parameters of H.264", "%s, expected %s", p.fmtp.c_str(), level);
            } else if (want.codec == srtc::Codec::Opus) {
                PBT_CHECK(ctx, f["minptime"] == std::to_string(want.minptime) && f["stereo"] == (want.stereo ? "1" : "0"), "parameters of Opus", "%s, expected %u %d", p.fmtp.c_str(), want.minptime, want.stereo);
            } else
                PBT_CHECK(ctx, p.fmtp.empty(), "parameters", "%s", p.fmtp.c_str());
            std::multiset<std::string> fb(p.feedback.begin(), p.feedback.end());
            fb.erase("transport-cc");
            const std::multiset<std::string> expected = video ? std::multiset<std::string>{ "nack", "nack pli" } : std::multiset<std::string>{ "nack" };
            PBT_CHECK(ctx, fb == expected, "feedback", "%zu kinds for %s", fb.size(), p.map.c_str());
            PBT_CHECK(ctx, (p.rtx != 0) == rtx, "retransmission", "%d", p.rtx);
            if (rtx) {
                rtxIds.insert(p.rtx);
                for (const auto& r : m.payloads)
                    if (r.pt == p.rtx) {
                        // RFC 4588: with the clock of the original
                        const auto clock = r.map.substr(r.map.find('/') + 1);
                        PBT_CHECK(ctx, r.codec == "rtx" && (clock == (video ? "90000" : "48000") || clock == "48000/2"), "retransmission payload", "%s", r.map.c_str());
                        PBT_CHECK(ctx, r.fmtp == "apt=" + std::to_string(p.pt), "retransmission of", "%s for %d", r.fmtp.c_str(), p.pt);
                    }
            }
        }
        PBT_CHECK(ctx, !rtx || rtxIds.size() == main.size(), "retransmission payloads", "%zu", rtxIds.size());

        // Extensions
        std::multiset<std::string> ext, want;
        for (const auto& e : m.extensions) {
            PBT_CHECK(ctx, e.first >= 1 && e.first <= 14, "extension number", "%d", e.first);
            ext.insert(e.second);
        }
        {
            std::stringstream ss(sdp);
            std::string line;
            size_t section = 0, lines = 0;
            while (std::getline(ss, line)) {
                section += line.compare(0, 2, "m=") == 0;
                lines += section == i + 1 && line.compare(0, 9, "a=extmap:") == 0;
            }
            PBT_CHECK(ctx, lines == m.extensions.size(), "extension number used twice", "%zu lines, %zu numbers", lines, m.extensions.size());
        }
        if (c.abs)
            want.insert("http://www.webrtc.org/experiments/rtp-hdrext/abs-capture-time");
        if (c.bwe || !c.publish)
            want.insert("http://www.ietf.org/id/draft-holmer-rmcat-transport-wide-cc-extensions-01");
        if (simulcast) {
            want.insert("urn:ietf:params:rtp-hdrext:sdes:mid");
            want.insert("urn:ietf:params:rtp-hdrext:sdes:rtp-stream-id");
            if (rtx)
                want.insert("urn:ietf:params:rtp-hdrext:sdes:repaired-rtp-stream-id");
            want.insert("http://www.webrtc.org/experiments/rtp-hdrext/video-layers-allocation00");
        }
        PBT_CHECK(ctx, ext == want, "header extensions", "%zu, expected %zu", ext.size(), want.size());

        // Layers
        if (simulcast) {
            std::string list = "send ";
            PBT_CHECK(ctx, m.rids.size() == it.layers.size(), "layers", "%zu, expected %zu", m.rids.size(), it.layers.size());
            for (size_t l = 0; l < it.layers.size(); l += 1) {
                const auto& layer = it.layers[l];
                list += (l ? ";" : "") + layer.name;
                PBT_CHECK(ctx, m.rids[l] == layer.name, "layer name", "%s, expected %s", m.rids[l].c_str(), layer.name.c_str());
                const auto space = m.ridProps[l].find(' ');
                PBT_CHECK(ctx, m.ridProps[l].substr(0, space) == "send", "layer direction", "%s", m.ridProps[l].c_str());
                auto p = space == std::string::npos ? std::map<std::string, std::string>{} : params(m.ridProps[l].substr(space + 1));
                PBT_CHECK(ctx, p.empty() == !c.rfc8851, "layer restrictions", "%s", m.ridProps[l].c_str());
                if (c.rfc8851) {
                    const auto rate = strtoull(p["max-br"].c_str(), nullptr, 10);
                    // A kilobit may be 1000 or 1024
                    PBT_CHECK(ctx, rate >= layer.kilobits_per_second * 1000ull && rate <= layer.kilobits_per_second * 1024ull, "layer bit rate", "%llu, configured %u", rate, layer.kilobits_per_second);
                    PBT_CHECK(ctx, p["max-width"] == std::to_string(layer.width) && p["max-height"] == std::to_string(layer.height) && p["max-fps"] == std::to_string(layer.frames_per_second), "layer size", "%s", m.ridProps[l].c_str());
                }
            }
            PBT_CHECK(ctx, m.simulcast == list, "simulcast", "'%s', expected '%s'", m.simulcast.c_str(), list.c_str());
        } else
            PBT_CHECK(ctx, m.simulcast.empty() && m.rids.empty(), "simulcast which wasn't asked for", "%s", m.simulcast.c_str());

        // Sources
        const auto streams = simulcast ? it.layers.size() : 1;
        PBT_CHECK(ctx, m.ssrcs.size() == streams * (rtx ? 2 : 1) && m.groups.size() == (rtx ? streams : 0), "number of sources", "%zu in %zu groups, for %zu streams", m.ssrcs.size(), m.groups.size(), streams);
        for (const auto s : m.ssrcs)
            PBT_CHECK(ctx, s != 0 && sources.insert(s).second, "source", "%u", s);
        for (size_t l = 0; l < streams; l += 1) {
            const auto used = simulcast ? offer.getVideoSimulastSSRC(m.mid, it.layers[l].name) : offer.getMediaSSRC(m.mid);
            PBT_CHECK(ctx, std::count(m.ssrcs.begin(), m.ssrcs.end(), used.first) == 1, "source in use isn't stated", "%u", used.first);
            if (rtx)
                PBT_CHECK(ctx, std::count(m.groups.begin(), m.groups.end(), used) == 1, "retransmission source in use isn't stated", "%u %u", used.first, used.second);
            else
                PBT_CHECK(ctx, used.second == 0, "retransmission source", "%u", used.second);
        }
        // Each with the cname, and all in one stream and track of it
        {
            std::stringstream ss(sdp);
            std::string line;
            size_t section = 0;
            std::map<uint32_t, std::string> cname, msid;
            while (std::getline(ss, line)) {
                section += line.compare(0, 2, "m=") == 0;
                if (section != i + 1 || line.compare(0, 7, "a=ssrc:") != 0)
                    continue;
                const auto space = line.find(' ');
                const auto s = static_cast<uint32_t>(strtoul(line.c_str() + 7, nullptr, 10));
                const auto rest = line.substr(space + 1);
                if (rest.compare(0, 6, "cname:") == 0)
                    cname[s] = rest.substr(6);
                else if (rest.compare(0, 5, "msid:") == 0)
                    msid[s] = rest.substr(5);
            }
            for (const auto s : m.ssrcs) {
                PBT_CHECK(ctx, cname[s] == c.cname, "cname", "'%s', expected '%s'", cname[s].c_str(), c.cname.c_str());
                PBT_CHECK(ctx, msid[s] == msid[m.ssrcs[0]] && words(msid[s]).size() == 2, "msid", "'%s'", msid[s].c_str());
            }
        }
    }
    if (c.items.empty())
        return;
    const auto control = offer.getControlPacketSource();
    PBT_CHECK(ctx, control != nullptr && sources.count(control->getSSRC()), "source of reports", "%u", control ? control->getSSRC() : 0);
}

void offers(Src& src, Ctx& ctx)
{
    const auto c = generate(src, ctx);
    const auto why = invalid(c);
    rig::World world;
    srtc::PeerConnection pc(c.publish ? srtc::Direction::Publish : srtc::Direction::Subscribe);
    const auto made = create(pc, c);
    ctx.note("%s, %zu media, %zu channels%s%s%s%s, expect %s\n", c.publish ? "publish" : "subscribe", c.items.size(), c.channels.size(), c.rtx ? " rtx" : "", c.bwe ? " bwe" : "", c.rfc8851 ? " rfc8851" : "", c.abs ? " abs" : "", why.empty() ? "an offer" : why.c_str());
    if (!made.first) {
        PBT_CHECK(ctx, made.second.isError(), "no offer and no error", "%s", why.c_str());
        PBT_CHECK(ctx, !why.empty(), "valid configuration is refused", "%s", made.second.message.c_str());
        ctx.tag("refused");
        return;
    }
    PBT_CHECK(ctx, !made.second.isError(), "offer with an error", "%s", made.second.message.c_str());
    const auto [sdp, error] = made.first->generate();
    ctx.note("%s", sdp.c_str());
    if (!why.empty()) {
        PBT_CHECK(ctx, error.isError(), "invalid configuration is offered", "%s\n%s", why.c_str(), sdp.c_str());
        ctx.tag("refused");
        ctx.nontrivial();
        const auto again = made.first->generate();
        PBT_CHECK(ctx, again.second.isError(), "invalid configuration is offered at the second attempt", "%s\n%s", why.c_str(), again.first.c_str());
        return;
    }
    PBT_CHECK(ctx, !error.isError(), "valid configuration gives an error", "%s", error.message.c_str());
    judge(ctx, c, *made.first, sdp);
    if (src.chance(1, 3)) {
        // What was said holds
        const auto again = made.first->generate();
        PBT_CHECK(ctx, !again.second.isError(), "error the second time", "%s", again.second.message.c_str());
        judge(ctx, c, *made.first, again.first);
        const auto first = rig::readOffer(sdp), second = rig::readOffer(again.first);
        for (size_t i = 0; i < first.media.size(); i += 1)
            PBT_CHECK(ctx, first.media[i].ssrcs == second.media[i].ssrcs && first.media[i].groups == second.media[i].groups, "sources changed", "%s\n%s", sdp.c_str(), again.first.c_str());
        ctx.tag("generated twice");
    }
    // Another offer has identifiers of its own
    if (src.chance(1, 3)) {
        const auto other = create(pc, c);
        const auto text = other.first->generate().first;
        const auto a = rig::readOffer(sdp), b = rig::readOffer(text);
        PBT_CHECK(ctx, a.ufrag != b.ufrag && a.pwd != b.pwd && a.fingerprint != b.fingerprint && a.session.at("o") != b.session.at("o"), "identifiers of two offers", "%s\n%s", sdp.c_str(), text.c_str());
        ctx.tag("two offers");
    }
    // Only for its direction
    if (src.chance(1, 4)) {
        srtc::PeerConnection wrong(c.publish ? srtc::Direction::Subscribe : srtc::Direction::Publish);
        PBT_CHECK(ctx, wrong.setOffer(made.first).isError(), "offer of the other direction is accepted", "%s", "");
        const auto w = create(wrong, c);
        PBT_CHECK(ctx, !w.first && w.second.isError(), "offer of the other direction is created", "%s", "");
        PBT_CHECK(ctx, !pc.setOffer(made.first).isError() && pc.getOffer() == made.first, "offer isn't accepted", "%s", "");
        PBT_CHECK(ctx, pc.setOffer(made.first).isError(), "second offer is accepted", "%s", "");
    }
    size_t codecs = 0;
    for (const auto& it : c.items) {
        codecs += it.codecs.size();
        if (c.publish && !it.layers.empty())
            ctx.tag("simulcast");
    }
    if (c.items.size() >= 2 || codecs >= 3)
        ctx.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
    return run(argc, argv,
               { "P22",
                 "an offer of two or more media or three or more codecs, or one refused",
                 { "identifiers (media ids, layer names, cname) are SDP tokens", "a kilobit of a layer's rate may be read as 1000 or 1024 bits", "whether transport-cc is repeated as a feedback line is left open" },
                 { { "offers", 1, offers } } });
}
