#include "rig.h"

#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <openssl/err.h>
#include <openssl/ssl.h>
#include <openssl/x509.h>
#include <sstream>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>

// ----- In place of the library's event loop and of the network

std::shared_ptr<srtc::EventLoop> srtc::EventLoop::factory()
{
    auto loop = std::make_shared<rig::Loop>(rig::World::current);
    rig::World::current->lastLoop = loop;
    return loop;
}

extern "C" ssize_t sendto(int fd, const void* buf, size_t len, int flags, const struct sockaddr* addr, socklen_t addrLen)
{
    if (rig::World::current && addr) {
        srtc::anyaddr a = {};
        memcpy(&a, addr, std::min<size_t>(addrLen, sizeof(a)));
        if (addrLen < (a.ss.ss_family == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in))) {
            errno = EINVAL;
            return -1;
        }
        const auto p = static_cast<const uint8_t*>(buf);
        rig::World::current->sendFrom(fd, a, rig::Bytes(p, p + len));
        return static_cast<ssize_t>(len);
    }
    return syscall(SYS_sendto, fd, buf, len, flags, addr, addrLen);
}

extern "C" ssize_t recvfrom(int fd, void* buf, size_t len, int flags, struct sockaddr* addr, socklen_t* addrLen)
{
    if (rig::World::current && addr) {
        srtc::anyaddr a = {};
        const auto r = rig::World::current->receive(fd, static_cast<uint8_t*>(buf), len, a);
        if (r < 0) {
            errno = EAGAIN;
            return -1;
        }
        const socklen_t n = a.ss.ss_family == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in);
        memcpy(addr, &a, std::min(n, *addrLen));
        *addrLen = n;
        return r;
    }
    return syscall(SYS_recvfrom, fd, buf, len, flags, addr, addrLen);
}

namespace rig
{

// ----- STUN

static Bytes hmac(const std::string& key, const Bytes& data)
{
    return sref::hmacSha1(Bytes(key.begin(), key.end()), data);
}

static uint32_t crc32(const Bytes& b)
{
    uint32_t c = 0xffffffffu;
    for (const auto x : b) {
        c ^= x;
        for (int k = 0; k < 8; k += 1)
            c = c & 1 ? c >> 1 ^ 0xedb88320u : c >> 1;
    }
    return ~c;
}

static Bytes withLength(const Bytes& raw, size_t upTo, size_t length)
{
    Bytes b(raw.begin(), raw.begin() + static_cast<long>(upTo));
    b[2] = static_cast<uint8_t>(length >> 8);
    b[3] = static_cast<uint8_t>(length);
    return b;
}

bool StunMsg::integrityOk(const std::string& pwd) const
{
    if (!integrityAt)
        return false;
    const auto a = find(8);
    return a && a->size() == 20 && hmac(pwd, withLength(raw, integrityAt, integrityAt + 24 - 20)) == *a;
}

bool StunMsg::fingerprintOk() const
{
    if (!fingerprintAt || fingerprintAt + 8 != raw.size())
        return false;
    const auto a = find(0x8028);
    return a && a->size() == 4 && (crc32(withLength(raw, fingerprintAt, fingerprintAt + 8 - 20)) ^ 0x5354554eu) == be32(a->data());
}

const Bytes* StunMsg::find(unsigned t) const
{
    for (const auto& a : attrs)
        if (a.first == t)
            return &a.second;
    return nullptr;
}

StunMsg readStun(const Bytes& b)
{
    StunMsg m;
    m.raw = b;
    if (b.size() < 20 || b[0] >= 64 || be32(&b[4]) != 0x2112A442 || be16(&b[2]) + 20u != b.size() || b.size() % 4)
        return m;
    m.type = be16(&b[0]);
    m.tid.assign(b.begin() + 8, b.begin() + 20);
    size_t p = 20;
    while (p < b.size()) {
        if (p + 4 > b.size())
            return m;
        const unsigned t = be16(&b[p]), n = be16(&b[p + 2]);
        if (p + 4 + n > b.size())
            return m;
        if (t == 8)
            m.integrityAt = p;
        if (t == 0x8028)
            m.fingerprintAt = p;
        m.attrs.emplace_back(t, Bytes(b.begin() + static_cast<long>(p) + 4, b.begin() + static_cast<long>(p + 4 + n)));
        p += 4 + (n + 3) / 4 * 4;
    }
    m.ok = p == b.size();
    return m;
}

Bytes writeStun(unsigned type, const Bytes& tid, const std::vector<std::pair<unsigned, Bytes>>& attrs, const std::string* pwd, bool fingerprint)
{
    using sref::cat;
    using sref::num;
    Bytes b = cat({ num(type, 2), num(0, 2), num(0x2112A442, 4), tid });
    for (const auto& a : attrs) {
        b = cat({ b, num(a.first, 2), num(a.second.size(), 2), a.second });
        b.resize((b.size() + 3) / 4 * 4);
    }
    if (pwd)
        b = cat({ b, num(8, 2), num(20, 2), hmac(*pwd, withLength(b, b.size(), b.size() + 24 - 20)) });
    if (fingerprint)
        b = cat({ b, num(0x8028, 2), num(4, 2), num(crc32(withLength(b, b.size(), b.size() + 8 - 20)) ^ 0x5354554eu, 4) });
    return withLength(b, b.size(), b.size() - 20);
}

Bytes xorAddress(const anyaddr& a, const Bytes& tid)
{
    using sref::cat;
    using sref::num;
    if (a.ss.ss_family == AF_INET) {
        const auto ip = ntohl(a.sin_ipv4.sin_addr.s_addr) ^ 0x2112A442u;
        return cat({ { 0, 1 }, num(ntohs(a.sin_ipv4.sin_port) ^ 0x2112u, 2), num(ip, 4) });
    }
    Bytes ip(reinterpret_cast<const uint8_t*>(&a.sin_ipv6.sin6_addr), reinterpret_cast<const uint8_t*>(&a.sin_ipv6.sin6_addr) + 16);
    const auto x = cat({ num(0x2112A442, 4), tid });
    for (size_t i = 0; i < 16; i += 1)
        ip[i] ^= x[i];
    return cat({ { 0, 2 }, num(ntohs(a.sin_ipv6.sin6_port) ^ 0x2112u, 2), ip });
}

// ----- Loop

struct ThreadEnd {
    Loop* loop = nullptr;
    ~ThreadEnd()
    {
        if (loop) {
            std::lock_guard lock(loop->mMutex);
            loop->mEnded = true;
            loop->mCond.notify_all();
        }
    }
};

void Loop::registerSocket(const std::shared_ptr<srtc::Socket>& socket, void* udata)
{
    std::lock_guard lock(mMutex);
    mSockets[socket->handle()].udata = udata;
    mGone.erase(socket->handle());
}

void Loop::unregisterSocket(const std::shared_ptr<srtc::Socket>& socket)
{
    std::lock_guard lock(mMutex);
    mSockets.erase(socket->handle());
    mGone.insert(socket->handle()); // It can still be used to send
}

void Loop::wait(std::vector<void*>& udataList, int timeoutMillis)
{
    static thread_local ThreadEnd end;
    end.loop = this;
    std::unique_lock lock(mMutex);
    mStarted = true;
    mWaiting = true;
    mDeadline = sim::nowMicros() + std::clamp(timeoutMillis, 0, 100) * 1000;
    mCond.notify_all();
    mCond.wait(lock, [this] { return mTurn || mFree; });
    mTurn = false;
    mWaiting = false;
    mInterrupted = false;
    mTurns += 1;
    udataList.clear();
    for (const auto& s : mSockets)
        if (!s.second.queue.empty())
            udataList.push_back(s.second.udata);
    if (mOnTurn)
        mOnTurn();
}

void Loop::interrupt()
{
    std::lock_guard lock(mMutex);
    mInterrupted = true;
    if (mFreeOnInterrupt) {
        mFree = true;
        mCond.notify_all();
    }
}

bool Loop::awaitThread()
{
    std::unique_lock lock(mMutex);
    mCond.wait(lock, [this] { return mWaiting || mEnded || mFree; });
    return !mEnded && !mFree;
}

void Loop::turn()
{
    {
        std::unique_lock lock(mMutex);
        if (mEnded || mFree)
            return;
        mTurn = true;
        mCond.notify_all();
        mCond.wait(lock, [this] { return !mTurn || mEnded; });
    }
    awaitThread();
}

void Loop::release()
{
    std::lock_guard lock(mMutex);
    mFree = true;
    mCond.notify_all();
}

int64_t Loop::deadline() const
{
    std::lock_guard lock(mMutex);
    if (mEnded || mFree || !mStarted)
        return INT64_MAX;
    if (mInterrupted)
        return 0;
    for (const auto& s : mSockets)
        if (!s.second.queue.empty())
            return 0;
    return mDeadline;
}

// ----- World

World* World::current = nullptr;

World::World()
{
    current = this;
    link = [](const anyaddr&, const anyaddr&, const Bytes&) { return std::vector<int64_t>{ 5000 }; };
}

World::~World()
{
    shutdown();
    current = nullptr;
}

void World::shutdown()
{
    mShut = true;
    for (auto& n : nodes) {
        if (n.pc) {
            n.loop->release();
            n.pc->close();
        }
    }
    for (auto& n : nodes)
        n.pc.reset();
}

void World::close(Node& node)
{
    {
        // The thread runs from when it has been told to quit, and not before, so that what it does is always the same
        std::lock_guard lock(node.loop->mMutex);
        node.loop->mFreeOnInterrupt = true;
    }
    node.pc->close();
    node.loop->release();
}

Node& World::add(srtc::Direction direction, std::vector<anyaddr> addrs)
{
    nodes.emplace_back();
    auto& n = nodes.back();
    n.pc = std::make_shared<srtc::PeerConnection>(direction);
    n.loop = lastLoop; // The factory made it a moment ago
    n.addrs = std::move(addrs);
    n.pc->setConnectionStateListener([&n](srtc::PeerConnection::ConnectionState s) {
        n.states.push_back(s);
        n.stateTimes.push_back(sim::nowMicros());
    });
    return n;
}

void World::add(Peer* peer, std::vector<anyaddr> addrs)
{
    for (const auto& a : addrs)
        mPeers.emplace_back(a, peer);
}

void World::send(const anyaddr& from, const anyaddr& to, const Bytes& data)
{
    if (mShut)
        return;
    datagrams += 1;
    for (const auto d : link(from, to, data))
        mDeliveries.emplace(sim::nowMicros() + d, Delivery{ from, to, data });
}

bool World::sendFrom(int fd, const anyaddr& to, const Bytes& data)
{
    for (auto& n : nodes) {
        if (!n.loop)
            continue;
        anyaddr from = {};
        {
            std::lock_guard lock(n.loop->mMutex);
            const auto it = n.loop->mSockets.find(fd);
            if (it == n.loop->mSockets.end())
                continue;
            it->second.hasRemote = true;
            it->second.remote = to;
            for (const auto& a : n.addrs)
                if (a.ss.ss_family == to.ss.ss_family) {
                    from = a;
                    break;
                }
        }
        if (from.ss.ss_family == to.ss.ss_family)
            send(from, to, data);
        return true;
    }
    for (auto& n : nodes) {
        if (!n.loop)
            continue;
        anyaddr from = {};
        {
            std::lock_guard lock(n.loop->mMutex);
            if (!n.loop->mGone.count(fd))
                continue;
            for (const auto& a : n.addrs)
                if (a.ss.ss_family == to.ss.ss_family) {
                    from = a;
                    break;
                }
        }
        if (from.ss.ss_family == to.ss.ss_family)
            send(from, to, data);
        return true;
    }
    if (onStray)
        onStray(to, data);
    return false;
}

ssize_t World::receive(int fd, uint8_t* out, size_t size, anyaddr& from)
{
    for (auto& n : nodes) {
        if (!n.loop)
            continue;
        std::lock_guard lock(n.loop->mMutex);
        const auto it = n.loop->mSockets.find(fd);
        if (it == n.loop->mSockets.end() || it->second.queue.empty())
            continue;
        const auto b = std::move(it->second.queue.front());
        it->second.queue.pop_front();
        from = it->second.remote;
        const auto k = std::min(size, b.size());
        memcpy(out, b.data(), k);
        return static_cast<ssize_t>(k);
    }
    return -1;
}

void World::deliver(const Delivery& d)
{
    for (const auto& p : mPeers)
        if (same(p.first, d.to)) {
            p.second->onDatagram(d.from, d.to, d.data);
            return;
        }
    for (auto& n : nodes)
        for (const auto& a : n.addrs)
            if (same(a, d.to) && n.loop) {
                std::lock_guard lock(n.loop->mMutex);
                for (auto& s : n.loop->mSockets)
                    if (s.second.hasRemote && same(s.second.remote, d.from)) {
                        s.second.queue.push_back(d.data);
                        return;
                    }
            }
}

void World::settle()
{
    for (auto& n : nodes)
        if (n.loop && n.loop->mStarted)
            n.loop->turn();
}

bool World::run(int64_t untilMicros, const std::function<bool()>& until)
{
    std::map<Loop*, int64_t> last;
    while (true) {
        if (until && until())
            return true;
        // What comes next
        auto next = untilMicros;
        const auto now = sim::nowMicros();
        if (!mDeliveries.empty())
            next = std::min(next, mDeliveries.begin()->first);
        for (auto& n : nodes) {
            if (!n.loop)
                continue;
            const auto d = n.loop->deadline();
            const auto it = last.find(n.loop.get());
            if (d != INT64_MAX)
                next = std::min(next, std::max({ d, now, it == last.end() ? 0 : it->second + minStep }));
        }
        for (const auto& p : mPeers)
            next = std::min(next, std::max(p.second->deadline(), now));
        if (next > now)
            sim::advanceMicros(next - now);
        const auto t = sim::nowMicros();
        auto any = false;
        while (!mDeliveries.empty() && mDeliveries.begin()->first <= t) {
            const auto d = std::move(mDeliveries.begin()->second);
            mDeliveries.erase(mDeliveries.begin());
            deliver(d);
            any = true;
        }
        for (size_t i = 0; i < mPeers.size(); i += 1)
            if (mPeers[i].second->deadline() <= t) {
                mPeers[i].second->onTime();
                any = true;
            }
        for (auto& n : nodes) {
            if (!n.loop)
                continue;
            const auto it = last.find(n.loop.get());
            if (n.loop->deadline() <= t && (it == last.end() || t >= it->second + minStep)) {
                last[n.loop.get()] = t;
                n.loop->turn();
                any = true;
            }
        }
        if (t >= untilMicros && !any)
            return until ? until() : true;
        if (t > untilMicros)
            return until ? until() : true;
    }
}

// ----- DtlsPeer

namespace
{
struct Context {
    srtc::X509Certificate cert, other;
    SSL_CTX* ctx[6]; // by role, and by certificate
    Context()
    {
        for (int i = 0; i < 6; i += 1) {
            ctx[i] = SSL_CTX_new(i % 2 ? DTLS_client_method() : DTLS_server_method());
            if (i < 4) {
                SSL_CTX_use_certificate(ctx[i], (i < 2 ? cert : other).getCertificate());
                SSL_CTX_use_PrivateKey(ctx[i], (i < 2 ? cert : other).getPrivateKey());
            }
            SSL_CTX_set_verify(ctx[i], SSL_VERIFY_PEER, [](int, X509_STORE_CTX*) { return 1; });
            SSL_CTX_set_max_proto_version(ctx[i], DTLS1_2_VERSION);
        }
    }
};
Context& context()
{
    static Context c;
    return c;
}
} // namespace

DtlsPeer::DtlsPeer(World& world, unsigned host, unsigned port, bool dtlsClient)
    : world(world)
    , addr(address(host, port))
    , host(host)
    , port(port)
    , client(dtlsClient)
    , fingerprint("sha-256 " + context().cert.getSha256FingerprintHex())
{
    world.add(this, { addr });
}

DtlsPeer::~DtlsPeer()
{
    if (mSsl)
        SSL_free(mSsl);
}

Ident DtlsPeer::ident() const
{
    return { ufrag, pwd, fingerprint, client, { { host, port } } };
}

void DtlsPeer::sendRaw(const Bytes& data)
{
    if (hasRemote)
        world.send(addr, remote, data);
}

void DtlsPeer::startDtls()
{
    if (mSsl)
        return;
    static const char* const names[] = { "SRTP_AEAD_AES_128_GCM", "SRTP_AEAD_AES_256_GCM", "SRTP_AES128_CM_SHA1_80", "SRTP_AES128_CM_SHA1_32", "SRTP_AEAD_AES_128_GCM:SRTP_AEAD_AES_256_GCM:SRTP_AES128_CM_SHA1_80:SRTP_AES128_CM_SHA1_32" };
    mSsl = SSL_new(context().ctx[static_cast<int>(certificate) * 2 + (client ? 1 : 0)]);
    if (profileIndex < 5)
        SSL_set_tlsext_use_srtp(mSsl, names[profileIndex]);
    if (certificate == Certificate::None && !client) {
        // A server needs one, unless it's anonymous
        SSL_set_security_level(mSsl, 0);
        SSL_set_cipher_list(mSsl, "aNULL");
        SSL_set_dh_auto(mSsl, 1);
    }
    SSL_set_options(mSsl, SSL_OP_NO_QUERY_MTU);
    DTLS_set_link_mtu(mSsl, 1400);
    mIn = BIO_new(BIO_s_mem());
    mOut = BIO_new(BIO_s_mem());
    BIO_set_mem_eof_return(mIn, -1);
    BIO_set_mem_eof_return(mOut, -1);
    SSL_set_bio(mSsl, mIn, mOut);
    if (client)
        SSL_set_connect_state(mSsl);
    else
        SSL_set_accept_state(mSsl);
    pump();
}

void DtlsPeer::flush()
{
    // A record per datagram
    Bytes out;
    uint8_t buf[4096];
    int n;
    while ((n = BIO_read(mOut, buf, sizeof(buf))) > 0)
        out.insert(out.end(), buf, buf + n);
    size_t p = 0;
    while (p + 13 <= out.size()) {
        const auto size = 13u + be16(&out[p + 11]);
        sendRaw(Bytes(out.begin() + static_cast<long>(p), out.begin() + static_cast<long>(p + size)));
        p += size;
    }
}

void DtlsPeer::pump()
{
    ERR_clear_error();
    if (!SSL_is_init_finished(mSsl))
        SSL_do_handshake(mSsl);
    if (SSL_is_init_finished(mSsl)) {
        if (!handshaken) {
            handshaken = true;
            if (!remoteFingerprint.empty()) {
                // Who it is connected to has to be who made the offer
                const auto x = SSL_get1_peer_certificate(mSsl);
                std::string f = "sha-256 ";
                uint8_t md[EVP_MAX_MD_SIZE];
                unsigned n = 0;
                if (x)
                    X509_digest(x, EVP_sha256(), md, &n);
                for (unsigned i = 0; i < n; i += 1) {
                    char b[8];
                    snprintf(b, sizeof(b), "%s%02X", i ? ":" : "", md[i]);
                    f += b;
                }
                auto named = remoteFingerprint;
                for (size_t i = 8; i < named.size(); i += 1)
                    named[i] = static_cast<char>(toupper(named[i]));
                if (f != named)
                    problems.push_back("a certificate with fingerprint " + (x ? f : "(none)") + ", the offer has " + remoteFingerprint);
                X509_free(x);
            }
            if (const auto p = SSL_get_selected_srtp_profile(mSsl)) {
                for (size_t i = 0; i < 4; i += 1) {
                    const auto& profile = sref::profile(i);
                    if (profile.id != p->id)
                        continue;
                    Bytes k(2 * (profile.keySize + profile.saltSize));
                    SSL_export_keying_material(mSsl, k.data(), k.size(), "EXTRACTOR-dtls_srtp", 19, nullptr, 0, 0);
                    const auto ks = static_cast<long>(profile.keySize), ss = static_cast<long>(profile.saltSize);
                    const sref::Session c(profile, Bytes(k.begin(), k.begin() + ks), Bytes(k.begin() + 2 * ks, k.begin() + 2 * ks + ss));
                    const sref::Session s(profile, Bytes(k.begin() + ks, k.begin() + 2 * ks), Bytes(k.begin() + 2 * ks + ss, k.end()));
                    tx = client ? c : s;
                    rx = client ? s : c;
                }
            }
            flush();
            if (onHandshaken)
                onHandshaken();
        }
        uint8_t buf[20000];
        int n;
        while ((n = SSL_read(mSsl, buf, sizeof(buf))) > 0) {
            app.emplace_back(buf, buf + n);
            if (onApp) {
                const auto copy = app.back();
                onApp(copy);
            }
        }
        if (SSL_get_shutdown(mSsl) & SSL_RECEIVED_SHUTDOWN)
            closed = true;
    }
    flush();
}

void DtlsPeer::sendApp(const Bytes& data)
{
    if (!handshaken)
        return;
    SSL_write(mSsl, data.data(), static_cast<int>(data.size()));
    flush();
}

int64_t DtlsPeer::deadline()
{
    if (!mSsl || handshaken)
        return INT64_MAX;
    timeval tv = {};
    if (!DTLSv1_get_timeout(mSsl, &tv))
        return INT64_MAX;
    return sim::nowMicros() + tv.tv_sec * 1000000ll + tv.tv_usec;
}

void DtlsPeer::onTime()
{
    DTLSv1_handle_timeout(mSsl);
    flush();
}

void DtlsPeer::sendRtp(const Bytes& plain, uint32_t roc)
{
    if (tx)
        sendRaw(tx->media(plain, roc));
}

void DtlsPeer::sendRtcp(const Bytes& plain)
{
    if (tx)
        sendRaw(tx->control(plain, rtcpIndex++));
}

void DtlsPeer::onDatagram(const anyaddr& from, const anyaddr&, const Bytes& data)
{
    remote = from;
    hasRemote = true;
    if (data.empty())
        return;
    if (data[0] < 4) {
        const auto m = readStun(data);
        if (!m.ok) {
            problems.push_back("bad STUN message " + pbt::hex(data));
            return;
        }
        if (m.type == 1) {
            stunRequests.emplace_back(sim::nowMicros(), m);
            const auto user = m.find(6);
            const auto expected = ufrag + ":" + remoteUfrag;
            if (!user || std::string(user->begin(), user->end()) != expected)
                problems.push_back("user name");
            if (!m.integrityOk(pwd))
                problems.push_back("integrity of a request");
            if (!m.fingerprintOk())
                problems.push_back("fingerprint of a request");
            if (answerStun)
                sendRaw(writeStun(0x101, m.tid, { { 0x20, xorAddress(from, m.tid) } }, &pwd));
        } else if (m.type == 0x101) {
            stunResponses.emplace_back(sim::nowMicros(), m);
        }
        if (doDtls && client && answerStun && m.type == 1 && !mSsl && m.find(0x25))
            startDtls();
    } else if (data[0] >= 20 && data[0] < 64) {
        if (!doDtls)
            return;
        if (!mSsl)
            startDtls();
        BIO_write(mIn, data.data(), static_cast<int>(data.size()));
        pump();
    } else if (data[0] >= 128 && data[0] < 192 && data.size() >= 12) {
        if (!rx) {
            early += 1; // may overtake the end of the handshake
            return;
        }
        const auto pt = data[1] & 0x7f;
        if (pt >= 64 && pt <= 95) {
            uint32_t index = 0;
            if (const auto plain = rx->openControl(data, index)) {
                const auto ssrc = be32(&(*plain)[4]);
                if (!mSeenControl.emplace(ssrc, index).second)
                    problems.push_back("control index " + std::to_string(index) + " was used twice for source " + std::to_string(ssrc));
                rtcp.push_back({ sim::nowMicros(), *plain, index, ssrc });
                if (onRtcp)
                    onRtcp(rtcp.back());
            } else
                problems.push_back("control packet does not decrypt");
        } else {
            const auto ssrc = be32(&data[8]);
            const auto seq = be16(&data[2]);
            const auto it = mHighest.find(ssrc);
            uint64_t index = seq;
            if (it != mHighest.end())
                index = it->second + static_cast<uint64_t>(static_cast<int64_t>(static_cast<int16_t>(seq - static_cast<uint16_t>(it->second))));
            auto plain = rx->openMedia(data, static_cast<uint32_t>(index >> 16));
            if (!plain) {
                problems.push_back("media packet does not decrypt, source " + std::to_string(ssrc) + " number " + std::to_string(seq));
                return;
            }
            if (it == mHighest.end() || index > it->second)
                mHighest[ssrc] = index;
            if (!mSeen.emplace(ssrc, index).second) {
                // The same number may come again with the same contents only
                for (const auto& r : rtp)
                    if (r.ssrc == ssrc && r.index == index && r.data != *plain)
                        problems.push_back("the index of a media packet was used twice");
            }
            rtp.push_back({ sim::nowMicros(), *plain, ssrc, be32(&data[4]), seq, static_cast<uint8_t>(pt), (data[1] & 0x80) != 0, index, data.size() });
            if (onRtp)
                onRtp(rtp.back());
        }
    }
}

std::vector<RtcpItem> splitRtcp(const Bytes& b, std::string& error)
{
    std::vector<RtcpItem> list;
    size_t p = 0;
    while (p < b.size()) {
        if (p + 8 > b.size() || b[p] >> 6 != 2) {
            error = "header";
            return list;
        }
        const auto size = 4u * (be16(&b[p + 2]) + 1u);
        if (size < 8 || p + size > b.size()) {
            error = "size";
            return list;
        }
        list.push_back({ b[p] & 31u, b[p + 1], be32(&b[p + 4]), Bytes(b.begin() + static_cast<long>(p) + 8, b.begin() + static_cast<long>(p + size)) });
        p += size;
    }
    return list;
}

RtpParts readRtp(const Bytes& b)
{
    RtpParts r;
    if (b.size() < 12 || b[0] >> 6 != 2)
        return r;
    r.marker = b[1] & 0x80;
    r.pt = b[1] & 0x7f;
    r.seq = be16(&b[2]);
    r.ts = be32(&b[4]);
    r.ssrc = be32(&b[8]);
    size_t p = 12 + 4 * (b[0] & 15);
    if (b[0] & 0x10) {
        if (p + 4 > b.size())
            return r;
        r.profile = be16(&b[p]);
        const auto size = 4u * be16(&b[p + 2]);
        p += 4;
        if (p + size > b.size())
            return r;
        size_t q = p;
        const auto end = p + size;
        while (q < end) {
            if (b[q] == 0) {
                q += 1;
                continue;
            }
            unsigned id, n;
            if (r.profile == 0xbede) {
                id = b[q] >> 4;
                n = (b[q] & 15u) + 1;
                q += 1;
            } else {
                if (q + 2 > end)
                    return r;
                id = b[q];
                n = b[q + 1];
                q += 2;
            }
            if (q + n > end)
                return r;
            r.ext[id] = Bytes(b.begin() + static_cast<long>(q), b.begin() + static_cast<long>(q + n));
            q += n;
        }
        p = end;
    }
    if (p > b.size())
        return r;
    r.payload.assign(b.begin() + static_cast<long>(p), b.end());
    if (b[0] & 0x20) {
        if (r.payload.empty() || r.payload.back() > r.payload.size() || r.payload.back() == 0)
            return r;
        r.padding = r.payload.back();
        r.payload.resize(r.payload.size() - r.padding);
    }
    r.ok = true;
    return r;
}

} // namespace rig
