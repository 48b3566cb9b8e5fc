// P08: protected packets, against an independent implementation of the RFCs
#include "rig_setup.h"
#include "srtp_ref.h"

#include "srtc/x509_certificate.h"

#include <openssl/ssl.h>

using namespace pbt;
using namespace gen;
using namespace sref;

namespace
{

using Crypto = std::shared_ptr<srtc::SrtpCrypto>;

void judge(Src& src, Ctx& ctx, const Profile& p, const Session& send, const Session& recv, const Crypto& crypto, const std::shared_ptr<srtc::SrtpConnection>& conn)
{
    const auto n = src.size(1, 6);
    for (size_t i = 0; i < n; i += 1) {
        // The connection protects against replay, so a new source each time
        const auto ssrc = conn ? static_cast<uint32_t>(i << 24) | (src.u32() & 0xffffff) : src.oneOf<uint32_t>({ src.u32(), 0, 0xffffffffu });
        srtc::ByteBuffer out;
        if (src.chance(1, 2)) {
            const auto seq = static_cast<uint16_t>(src.oneOf<unsigned>({ 0, 1, 0x7fff, 0x8000, 0xffff, src.u16() }));
            const auto roc = conn ? 0 : src.oneOf<uint32_t>({ 0, 1, 0x10000, 0xffffffffu, src.u32() });
            const auto pt = static_cast<uint8_t>(src.range(0, 127));
            const auto plain = genRtp(src, ssrc, pt, seq, 1400);
            ctx.note("%s media: %zu bytes, header %zu, ssrc=%x seq=%u roc=%u %s", p.name, plain.size(), rtpHeaderSize(plain), ssrc, seq, roc, hex(plain).c_str());
            if (rtpHeaderSize(plain) > 12 || roc)
                ctx.nontrivial();
            ctx.tag(p.gcm ? "GCM media" : "CM media");

            const auto want = send.media(plain, roc);
            const auto ok = conn ? conn->protectSendMedia(toBuffer(plain), roc, out) : crypto->protectSendMedia(toBuffer(plain), roc, out);
            PBT_CHECK(ctx, ok, "media not protected", "%s", hex(plain).c_str());
            PBT_CHECK(ctx, toBytes(out) == want, "protected media", "got %s, expected %s", hex(toBytes(out), 400).c_str(), hex(want, 400).c_str());
            const auto overhead = conn ? conn->getMediaProtectionOverhead() : crypto->getMediaProtectionOverhead();
            PBT_CHECK(ctx, want.size() == plain.size() + overhead, "protection overhead", "%zu, actually %zu", overhead, want.size() - plain.size());

            const auto in = recv.media(plain, roc);
            const auto ok2 = conn ? conn->unprotectReceiveMedia(toBuffer(in), out) : crypto->unprotectReceiveMedia(toBuffer(in), roc, out);
            PBT_CHECK(ctx, ok2, "media not unprotected", "%s", hex(in, 400).c_str());
            PBT_CHECK(ctx, toBytes(out) == plain, "unprotected media", "got %s, expected %s", hex(toBytes(out), 400).c_str(), hex(plain, 400).c_str());
        } else {
            const auto index = src.oneOf<uint32_t>({ 0, 1, 0xffff, 0x10000, 0x7fffffff, src.u32() & 0x7fffffff });
            auto plain = genRtcp(src, ssrc, 300);
            if (src.chance(1, 3))
                plain = cat({ plain, genRtcp(src, ssrc, 20) });
            ctx.note("%s control: %zu bytes, ssrc=%x index=%u %s", p.name, plain.size(), ssrc, index, hex(plain).c_str());
            ctx.tag(p.gcm ? "GCM control" : "CM control");
            if (plain.size() > 24)
                ctx.nontrivial();

            const auto want = send.control(plain, index);
            const auto ok = conn ? conn->protectSendControl(toBuffer(plain), index, out) : crypto->protectSendControl(toBuffer(plain), index, out);
            PBT_CHECK(ctx, ok, "control not protected", "%s", hex(plain).c_str());
            PBT_CHECK(ctx, toBytes(out) == want, "protected control", "got %s, expected %s", hex(toBytes(out), 400).c_str(), hex(want, 400).c_str());

            const auto encrypted = src.chance(3, 4);
            const auto in = recv.control(plain, index, encrypted);
            const auto ok2 = conn ? conn->unprotectReceiveControl(toBuffer(in), out) : crypto->unprotectReceiveControl(toBuffer(in), out);
            PBT_CHECK(ctx, ok2, "control not unprotected", "%s %s", encrypted ? "encrypted" : "authenticated only", hex(in, 400).c_str());
            PBT_CHECK(ctx, toBytes(out) == plain, "unprotected control", "got %s, expected %s", hex(toBytes(out), 400).c_str(), hex(plain, 400).c_str());
        }
    }
}

void packets(Src& src, Ctx& ctx)
{
    const auto& p = profile(src.size(0, 3));
    const auto a = genKeys(src, p), b = genKeys(src, p);
    const auto [crypto, error] = srtc::SrtpCrypto::create(p.id, sref::crypto(a.key), sref::crypto(a.salt), sref::crypto(b.key), sref::crypto(b.salt));
    PBT_CHECK(ctx, !error.isError() && crypto, "create", "%s: %s", p.name, error.message.c_str());
    judge(src, ctx, p, Session(p, a.key, a.salt), Session(p, b.key, b.salt), crypto, nullptr);
}

struct Ends {
    SSL_CTX* context[2];
    srtc::X509Certificate cert[2];
    Ends()
    {
        for (int i = 0; i < 2; i += 1) {
            context[i] = SSL_CTX_new(DTLS_method());
            SSL_CTX_use_certificate(context[i], cert[i].getCertificate());
            SSL_CTX_use_PrivateKey(context[i], cert[i].getPrivateKey());
            SSL_CTX_set_verify(context[i], SSL_VERIFY_NONE, nullptr);
        }
    }
};

// The keys agreed on by DTLS are used in the directions which RFC 5764 section 4.2 states
void handshake(Src& src, Ctx& ctx)
{
    static Ends ends;
    const auto& p = profile(src.size(0, 3));
    const char* names[] = { "SRTP_AEAD_AES_128_GCM", "SRTP_AEAD_AES_256_GCM", "SRTP_AES128_CM_SHA1_80", "SRTP_AES128_CM_SHA1_32" };
    const auto name = names[&p - &profile(0)];
    const auto offerAll = src.chance(1, 2);
    SSL* ssl[2];
    for (int i = 0; i < 2; i += 1) {
        ssl[i] = SSL_new(ends.context[i]);
        SSL_set_tlsext_use_srtp(ssl[i], i == 0 && offerAll ? srtc::SrtpConnection::kSrtpCipherList : name);
        SSL_set_options(ssl[i], SSL_OP_NO_QUERY_MTU);
        DTLS_set_link_mtu(ssl[i], 8000);
    }
    BIO* ab = BIO_new(BIO_s_mem());
    BIO* ba = BIO_new(BIO_s_mem());
    BIO_set_mem_eof_return(ab, -1);
    BIO_set_mem_eof_return(ba, -1);
    BIO_up_ref(ab);
    BIO_up_ref(ba);
    SSL_set_bio(ssl[0], ba, ab);
    SSL_set_bio(ssl[1], ab, ba);
    SSL_set_connect_state(ssl[0]);
    SSL_set_accept_state(ssl[1]);
    for (int i = 0; i < 20 && !(SSL_is_init_finished(ssl[0]) && SSL_is_init_finished(ssl[1])); i += 1) {
        SSL_do_handshake(ssl[0]);
        SSL_do_handshake(ssl[1]);
    }
    struct Free {
        SSL** s;
        ~Free()
        {
            SSL_free(s[0]);
            SSL_free(s[1]);
        }
    } guard{ ssl };
    if (!SSL_is_init_finished(ssl[0]) || !SSL_is_init_finished(ssl[1]))
        throw Discard();
    ctx.tag("handshake");
    ctx.nontrivial();

    Bytes material(2 * (p.keySize + p.saltSize));
    SSL_export_keying_material(ssl[0], material.data(), material.size(), "EXTRACTOR-dtls_srtp", 19, nullptr, 0, 0);
    auto at = material.begin();
    const auto take = [&](size_t n) {
        at += static_cast<long>(n);
        return Bytes(at - static_cast<long>(n), at);
    };
    const auto clientKey = take(p.keySize), serverKey = take(p.keySize), clientSalt = take(p.saltSize), serverSalt = take(p.saltSize);
    const Session client(p, clientKey, clientSalt), server(p, serverKey, serverSalt);

    for (int i = 0; i < 2; i += 1) {
        // "Active" is what the other side is: it is the client
        const auto [conn, error] = srtc::SrtpConnection::create(ssl[i], i == 1);
        PBT_CHECK(ctx, !error.isError() && conn, "create", "%s: %s", p.name, error.message.c_str());
        ctx.note("the %s end of %s", i == 0 ? "client" : "server", p.name);
        judge(src, ctx, p, i == 0 ? client : server, i == 0 ? server : client, nullptr, conn);
    }
}

// What a whole connection sends is read by a peer which has the keys, and no index is used for two packets
void connection(Src& src, Ctx& ctx)
{
    rig::Duo d(src.chance(1, 2));
    d.peer.profileIndex = src.size(0, 3);
    rig::Spec s;
    const auto publish = src.chance(2, 3);
    s.direction = publish ? srtc::Direction::Publish : srtc::Direction::Subscribe;
    s.rtx = src.chance(2, 3);
    s.bwe = src.chance(1, 2);
    s.absCapture = src.chance(1, 2);
    s.pliMillis = static_cast<uint16_t>(src.oneOf<int64_t>({ 2000, src.range(100, 1000) }));
    if (publish && src.chance(1, 2))
        s.layers = { "lo", "hi" };
    rig::AnswerOptions o;
    o.rtx = src.chance(3, 4);
    o.nack = o.rtx || src.chance(3, 4);
    o.rids = s.layers;
    const auto e = d.start(s, o);
    PBT_CHECK(ctx, !e.isError(), "set up", "%s", e.message.c_str());
    const int64_t delay = src.range(1, 60) * 1000;
    d.world.link = [&](const auto&, const auto&, const auto&) { return std::vector<int64_t>{ delay }; };
    PBT_CHECK(ctx, d.connect(), "connect", "not connected after %lld us", static_cast<long long>(sim::nowMicros()));

    std::map<uint32_t, uint64_t> next; // of the packets which the peer sends
    std::map<uint32_t, std::vector<uint16_t>> seen;
    uint32_t video = 0;
    d.peer.onRtp = [&](const rig::DtlsPeer::Rtp& p) { seen[p.ssrc].push_back(p.seq); };
    d.peer.onRtcp = [&](const rig::DtlsPeer::Rtcp& p) {
        std::string error;
        const auto list = rig::splitRtcp(p.data, error);
        PBT_CHECK(ctx, error.empty(), "control packet", "%s: %s", error.c_str(), hex(p.data).c_str());
    };
    std::vector<std::shared_ptr<srtc::Track>> all = d.tracks;
    for (const auto& t : all) {
        if (t->getMediaType() == srtc::MediaType::Video)
            video = t->getSSRC();
        next[t->getSSRC()] = src.oneOf<uint64_t>({ src.u16(), 0xffff - src.size(0, 30) });
    }

    const auto begin = sim::nowMicros();
    const auto steps = src.size(3, 24);
    int64_t pts = 0;
    for (size_t step = 0; step < steps; step += 1) {
        const auto& t = src.elem(all);
        const auto ssrc = t->getSSRC();
        const auto audio = t->getMediaType() == srtc::MediaType::Audio;
        const auto kind = src.pick({ 6, 2, 2, 1 });
        if (kind == 0 && publish) {
            pts += 10000;
            auto frame = src.blob(src.oneOf<size_t>({ src.size(10, 100), src.size(1000, 1300), src.size(10, 30000) }));
            if (audio)
                frame.resize(std::min<size_t>(1000, frame.size()));
            frame[0] = static_cast<uint8_t>(frame[0] & 0xfe);
            const auto error = audio ? d.node->pc->publishAudioFrame(t, pts, toBuffer(frame), src.u64()) : d.node->pc->publishVideoFrame(t, pts, toBuffer(frame), src.u64());
            PBT_CHECK(ctx, !error.isError(), "publish", "%s", error.message.c_str());
        } else if (kind == 0) {
            // Some packets, perhaps with holes
            for (auto n = src.size(1, 12); n > 0; n -= 1) {
                auto& v = next[ssrc];
                v += 1 + (src.chance(1, 6) ? src.size(1, 4) : 0);
                d.peer.sendRtp(cat({ { 0x80, static_cast<uint8_t>(t->getPayloadId()) }, num(v & 0xffff, 2), num(v * 300, 4), num(ssrc, 4), { 0x10 }, src.blob(src.size(1, 40)) }), static_cast<uint32_t>(v >> 16));
            }
        } else if (kind == 1 && publish) {
            const auto& list = seen[ssrc];
            const auto pid = list.empty() ? src.u16() : src.elem(list);
            d.peer.sendRtcp(cat({ { 0x81, 205 }, num(3, 2), num(99, 4), num(ssrc, 4), num(pid, 2), num(src.u16(), 2) }));
        } else if (kind == 1) {
            d.peer.sendRtcp(cat({ { 0x80, 200 }, num(6, 2), num(ssrc, 4), num(src.u64(), 8), num(src.u32(), 4), num(1, 4), num(1, 4) }));
        } else if (kind == 2) {
            // A reference time, which is answered
            d.peer.sendRtcp(cat({ { 0x80, 207 }, num(4, 2), num(ssrc, 4), { 4, 0 }, num(2, 2), num(src.u64(), 8) }));
        } else {
            d.peer.sendRtcp(cat({ { 0x81, 206 }, num(2, 2), num(99, 4), num(video, 4) }));
        }
        d.world.runFor(src.oneOf<int64_t>({ 0, 2000, src.range(0, 50000), src.range(1000, 300000), src.range(0, src.chance(1, 4) ? 6000000 : 100000) }));
    }
    // The reports come every 5 seconds or so
    d.world.runFor(2 * delay + (src.chance(1, 2) ? 300000 : 6000000));
    for (const auto& p : d.peer.problems)
        ctx.fail("what the peer saw", "%s", p.c_str());
    std::map<uint32_t, size_t> controls;
    size_t most = 0;
    for (const auto& c : d.peer.rtcp)
        most = std::max(most, controls[c.ssrc] += 1);
    ctx.note("%s, %lld us: %zu media and %zu control packets, at most %zu of a source", publish ? "publish" : "subscribe", static_cast<long long>(sim::nowMicros() - begin), d.peer.rtp.size(), d.peer.rtcp.size(), most);
    ctx.tag(publish ? "publishing connection" : "subscribing connection");
    if (most >= 2 || d.peer.rtp.size() >= 20)
        ctx.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
    Property prop;
    prop.id = "P08";
    prop.rule = "a media packet with contributing sources, an extension, or a rollover count; a control packet larger than 24 bytes; keys agreed in a DTLS handshake; or a connection which sends two control packets of a source or twenty media packets";
    prop.assumptions = { "OpenSSL's AES block cipher and SHA-1 are right; everything above them is implemented a second time in the harness",
                         "media packets have a payload or padding (the library refuses to handle others)" };
    prop.facets = { { "packets", 8, packets }, { "handshake", 1, handshake }, { "connection", 3, connection } };
    return run(argc, argv, prop);
}
