// Offers read, answers written, addresses: what needs no world
#include "rig.h"

#include <arpa/inet.h>
#include <sstream>

namespace rig
{

anyaddr address(unsigned host, unsigned port)
{
    anyaddr a = {};
    if (host >= 100) {
        a.ss.ss_family = AF_INET6;
        a.sin_ipv6.sin6_port = htons(static_cast<uint16_t>(port));
        inet_pton(AF_INET6, hostName(host).c_str(), &a.sin_ipv6.sin6_addr);
    } else {
        a.ss.ss_family = AF_INET;
        a.sin_ipv4.sin_port = htons(static_cast<uint16_t>(port));
        inet_pton(AF_INET, hostName(host).c_str(), &a.sin_ipv4.sin_addr);
    }
    return a;
}

std::string hostName(unsigned host)
{
    return host >= 100 ? "fd00::" + std::to_string(host) : "10.0.0." + std::to_string(host);
}

bool same(const anyaddr& a, const anyaddr& b)
{
    if (a.ss.ss_family != b.ss.ss_family)
        return false;
    if (a.ss.ss_family == AF_INET6)
        return a.sin_ipv6.sin6_port == b.sin_ipv6.sin6_port && memcmp(&a.sin_ipv6.sin6_addr, &b.sin_ipv6.sin6_addr, 16) == 0;
    return a.sin_ipv4.sin_port == b.sin_ipv4.sin_port && a.sin_ipv4.sin_addr.s_addr == b.sin_ipv4.sin_addr.s_addr;
}

// ----- Offers

static std::vector<std::string> split(const std::string& s, char c)
{
    std::vector<std::string> r;
    std::string w;
    std::stringstream ss(s);
    while (std::getline(ss, w, c))
        if (!w.empty())
            r.push_back(w);
    return r;
}

OfferInfo readOffer(const std::string& sdp)
{
    OfferInfo o;
    MediaInfo* m = nullptr;
    const auto payload = [&](int pt) -> Payload& {
        for (auto& p : m->payloads)
            if (p.pt == pt)
                return p;
        m->payloads.emplace_back();
        m->payloads.back().pt = pt;
        return m->payloads.back();
    };
    size_t n = 0;
    std::stringstream ss(sdp);
    std::string line;
    while (std::getline(ss, line)) {
        n += 1;
        if (!line.empty() && line.back() == '\r')
            line.pop_back();
        if (line.size() < 2 || line[1] != '=') {
            o.error = "line " + std::to_string(n) + ": " + line;
            return o;
        }
        if ((n == 1) != (line == "v=0")) {
            o.error = "version";
            return o;
        }
        const auto value = line.substr(2);
        if (line[0] == 'm') {
            const auto w = split(value, ' ');
            if (w.size() < 4) {
                o.error = line;
                return o;
            }
            o.media.emplace_back();
            m = &o.media.back();
            m->type = w[0];
            m->protocol = w[2];
            if (w[0] != "application")
                for (size_t i = 3; i < w.size(); i += 1) {
                    m->list.push_back(atoi(w[i].c_str()));
                    payload(m->list.back());
                }
            continue;
        }
        if (line[0] != 'a') {
            if (!m)
                o.session[line.substr(0, 1)] = value;
            continue;
        }
        const auto colon = value.find(':');
        const auto name = value.substr(0, colon);
        const auto arg = colon == std::string::npos ? "" : value.substr(colon + 1);
        const auto w = split(arg, ' ');
        if (name == "ice-ufrag")
            o.ufrag = arg;
        else if (name == "ice-pwd")
            o.pwd = arg;
        else if (name == "fingerprint")
            o.fingerprint = arg;
        else if (name == "group")
            o.bundle = arg;
        if (!m) {
            o.session[name] = arg;
            continue;
        }
        if (name == "mid")
            m->mid = arg;
        else if (name == "sendonly" || name == "recvonly" || name == "sendrecv" || name == "inactive")
            m->direction = name;
        else if (name == "rtpmap" && w.size() == 2) {
            auto& p = payload(atoi(w[0].c_str()));
            p.map = w[1];
            p.codec = w[1].substr(0, w[1].find('/'));
        } else if (name == "fmtp" && w.size() >= 2) {
            auto& p = payload(atoi(w[0].c_str()));
            p.fmtp = arg.substr(w[0].size() + 1);
            if (p.codec == "rtx" && p.fmtp.compare(0, 4, "apt=") == 0) {
                const auto pt = p.pt;
                payload(atoi(p.fmtp.c_str() + 4)).rtx = pt;
            }
        } else if (name == "rtcp-fb" && w.size() >= 2)
            payload(atoi(w[0].c_str())).feedback.push_back(arg.substr(w[0].size() + 1));
        else if (name == "ssrc" && !w.empty()) {
            const auto v = static_cast<uint32_t>(strtoul(w[0].c_str(), nullptr, 10));
            if (std::find(m->ssrcs.begin(), m->ssrcs.end(), v) == m->ssrcs.end())
                m->ssrcs.push_back(v);
        } else if (name == "ssrc-group" && w.size() == 3 && w[0] == "FID")
            m->groups.emplace_back(strtoul(w[1].c_str(), nullptr, 10), strtoul(w[2].c_str(), nullptr, 10));
        else if (name == "rid" && w.size() >= 2) {
            m->rids.push_back(w[0]);
            m->ridProps.push_back(arg.substr(w[0].size() + 1));
        } else if (name == "simulcast")
            m->simulcast = arg;
        else if (name == "extmap" && w.size() >= 2)
            m->extensions[atoi(w[0].c_str())] = w[1];
        else
            m->attributes[name] = arg;
    }
    return o;
}

std::string writeAnswer(const OfferInfo& offer, const Ident& ident, const AnswerOptions& options)
{
    std::stringstream s;
    s << "v=0\r\no=- 1 1 IN IP4 127.0.0.1\r\ns=-\r\nt=0 0\r\n";
    size_t index = 0;
    for (const auto& m : offer.media) {
        const auto common = [&] {
            s << "c=IN IP4 0.0.0.0\r\n";
            for (size_t i = 0; i < ident.hosts.size(); i += 1)
                s << "a=candidate:" << i + 1 << " 1 udp " << 2130706431 - i << " " << hostName(ident.hosts[i].first) << " " << ident.hosts[i].second << " typ host\r\n";
            s << "a=ice-ufrag:" << ident.ufrag << "\r\na=ice-pwd:" << ident.pwd << "\r\na=fingerprint:" << ident.fingerprint << "\r\na=setup:" << (ident.active ? "active" : "passive") << "\r\na=mid:" << m.mid << "\r\n";
        };
        if (m.type == "application") {
            s << "m=application 9 UDP/DTLS/SCTP webrtc-datachannel\r\n";
            common();
            s << "a=sctp-port:" << options.sctpPort << "\r\na=max-message-size:" << options.maxMessageSize << "\r\n";
            continue;
        }
        s << "m=" << m.type << " 9 UDP/TLS/RTP/SAVPF";
        std::vector<const Payload*> main;
        for (const auto pt : m.list)
            for (const auto& p : m.payloads)
                if (p.pt == pt && p.codec != "rtx")
                    main.push_back(&p);
        std::stable_sort(main.begin(), main.end(), [&](const Payload* a, const Payload* b) {
            const auto rank = [&](const Payload* p) { return std::find(options.order.begin(), options.order.end(), p->codec) - options.order.begin(); };
            return rank(a) < rank(b);
        });
        for (const auto p : main) {
            s << " " << p->pt;
            if (p->rtx && options.rtx)
                s << " " << p->rtx;
        }
        s << "\r\n";
        common();
        s << (m.direction == "sendonly" ? "a=recvonly" : "a=sendonly") << "\r\na=rtcp-mux\r\n";
        for (const auto p : main) {
            s << "a=rtpmap:" << p->pt << " " << p->map << "\r\n";
            if (!p->fmtp.empty())
                s << "a=fmtp:" << p->pt << " " << p->fmtp << "\r\n";
            if (options.nack)
                s << "a=rtcp-fb:" << p->pt << " nack\r\n";
            if (options.pli && m.type == "video")
                s << "a=rtcp-fb:" << p->pt << " nack pli\r\n";
            if (p->rtx && options.rtx)
                s << "a=rtpmap:" << p->rtx << " rtx/90000\r\na=fmtp:" << p->rtx << " apt=" << p->pt << "\r\n";
        }
        if (!options.noExtensions)
            for (const auto& e : m.extensions)
                s << "a=extmap:" << e.first << " " << e.second << "\r\n";
        if (!options.rids.empty() && !m.rids.empty()) {
            for (const auto& r : options.rids)
                s << "a=rid:" << r << " recv\r\n";
            s << "a=simulcast:recv ";
            for (size_t i = 0; i < options.rids.size(); i += 1)
                s << (i ? ";" : "") << options.rids[i];
            s << "\r\n";
        }
        if (options.sender && m.direction == "recvonly") {
            const auto& from = options.sender->media[index];
            for (const auto v : from.ssrcs)
                s << "a=ssrc:" << v << " cname:x\r\n";
            for (const auto& g : from.groups)
                s << "a=ssrc-group:FID " << g.first << " " << g.second << "\r\n";
        }
        index += 1;
    }
    return s.str();
}

} // namespace rig
