// Whole connections in virtual time: PeerConnection objects whose network threads run in lock step, a virtual network
// in place of UDP, and an independent peer (STUN, DTLS by OpenSSL, SRTP by srtp_ref.h) to talk to.
#pragma once

#include "srtp_ref.h"

#include "srtc/event_loop.h"
#include "srtc/peer_connection.h"
#include "srtc/publish_config.h"
#include "srtc/sdp_answer.h"
#include "srtc/sdp_offer.h"
#include "srtc/socket.h"
#include "srtc/subscribe_config.h"
#include "srtc/track_selector.h"
#include "srtc/x509_certificate.h"

#include <condition_variable>
#include <deque>
#include <functional>
#include <mutex>

struct ssl_st;
struct bio_st;

namespace rig
{

using gen::Bytes;
using srtc::anyaddr;

anyaddr address(unsigned host, unsigned port); // 10.0.0.host
std::string hostName(unsigned host);

// ----- What an offer says

struct Payload {
    int pt = 0;
    std::string codec; // as in rtpmap, before the slash
    std::string map;   // the whole rtpmap value
    std::string fmtp;
    int rtx = 0;       // payload id of retransmissions
    std::vector<std::string> feedback;
};

struct MediaInfo {
    std::string type, mid, protocol, direction;
    std::vector<int> list; // payload ids of the m= line
    std::vector<Payload> payloads;
    std::vector<uint32_t> ssrcs;                       // in order of appearance
    std::vector<std::pair<uint32_t, uint32_t>> groups; // FID
    std::vector<std::string> rids;
    std::vector<std::string> ridProps;
    std::string simulcast;
    std::map<int, std::string> extensions;
    std::map<std::string, std::string> attributes; // the rest, by name
};

struct OfferInfo {
    std::string error; // of syntax
    std::string ufrag, pwd, fingerprint, bundle;
    std::vector<MediaInfo> media;
    std::map<std::string, std::string> session;
};

OfferInfo readOffer(const std::string& sdp);

// ----- Answers

struct Ident {
    std::string ufrag, pwd, fingerprint; // of who answers
    bool active = false;                 // who answers is the DTLS client
    std::vector<std::pair<unsigned, unsigned>> hosts;
};

struct AnswerOptions {
    bool nack = true, pli = true, rtx = true;
    std::vector<std::string> rids; // of the simulcast layers accepted
    bool noExtensions = false;
    uint32_t maxMessageSize = 262144;
    unsigned sctpPort = 5000;
    const OfferInfo* sender = nullptr; // whose sources are received, for a subscriber
    std::vector<std::string> order;    // preferred codecs
};

std::string writeAnswer(const OfferInfo& offer, const Ident& ident, const AnswerOptions& options);

// ----- STUN, written and read here

struct StunMsg {
    bool ok = false;
    unsigned type = 0;
    Bytes tid;
    std::vector<std::pair<unsigned, Bytes>> attrs;
    bool integrityOk(const std::string& pwd) const;
    bool fingerprintOk() const;
    const Bytes* find(unsigned type) const;
    Bytes raw;
    size_t integrityAt = 0, fingerprintAt = 0; // offsets of the attributes, 0 when absent
};
StunMsg readStun(const Bytes& b);
Bytes writeStun(unsigned type, const Bytes& tid, const std::vector<std::pair<unsigned, Bytes>>& attrs, const std::string* pwd, bool fingerprint = true);
Bytes xorAddress(const anyaddr& a, const Bytes& tid);

// ----- The world

class World;

// Gives its network thread a turn at a time
class Loop : public srtc::EventLoop
{
public:
    explicit Loop(World* world)
        : mWorld(world)
    {
    }

    void registerSocket(const std::shared_ptr<srtc::Socket>& socket, void* udata) override;
    void unregisterSocket(const std::shared_ptr<srtc::Socket>& socket) override;
    void wait(std::vector<void*>& udataList, int timeoutMillis) override;
    void interrupt() override;

    // From the thread of the test
    bool awaitThread(); // false when the thread has ended
    void turn();
    void release(); // let the thread run freely from now on
    int64_t deadline() const; // in microseconds of virtual time, <= now when there is something to do

    struct Inbox {
        void* udata;
        bool hasRemote = false;
        anyaddr remote;
        std::deque<Bytes> queue;
    };
    std::map<int, Inbox> mSockets;
    std::set<int> mGone; // not registered any more
    std::function<void()> mOnTurn; // called in the thread at the start of each turn
    int64_t mTurns = 0;

private:
    friend class World;
    friend struct ThreadEnd;

    World* const mWorld;
    mutable std::mutex mMutex;
    std::condition_variable mCond;
    bool mWaiting = false, mTurn = false, mFree = false, mEnded = false, mStarted = false, mInterrupted = false, mFreeOnInterrupt = false;
    int64_t mDeadline = 0;
};

// Someone on the network who isn't srtc
class Peer
{
public:
    virtual ~Peer() = default;
    virtual void onDatagram(const anyaddr& from, const anyaddr& to, const Bytes& data) = 0;
    virtual int64_t deadline()
    {
        return INT64_MAX;
    }
    virtual void onTime()
    {
    }
};

struct Node {
    std::shared_ptr<srtc::PeerConnection> pc;
    std::shared_ptr<Loop> loop;
    std::vector<anyaddr> addrs; // where others reach it
    std::vector<srtc::PeerConnection::ConnectionState> states;
    std::vector<int64_t> stateTimes;
    srtc::PeerConnection::ConnectionState state() const
    {
        return states.empty() ? srtc::PeerConnection::ConnectionState::Inactive : states.back();
    }
};

class World
{
public:
    World();
    ~World();

    static World* current;

    Node& add(srtc::Direction direction, std::vector<anyaddr> addrs);
    void add(Peer* peer, std::vector<anyaddr> addrs);

    // The delays in microseconds with which a datagram arrives; none when it is lost
    std::function<std::vector<int64_t>(const anyaddr& from, const anyaddr& to, const Bytes& data)> link;

    // Runs until the time is reached, or until the condition holds
    bool run(int64_t untilMicros, const std::function<bool()>& until = {});
    bool runFor(int64_t micros, const std::function<bool()>& until = {})
    {
        return run(sim::nowMicros() + micros, until);
    }
    // The threads of all nodes get their turns, in order, without time passing
    void settle();
    void close(Node& node); // pc->close() while its thread can run
    void shutdown();

    void send(const anyaddr& from, const anyaddr& to, const Bytes& data);

    std::deque<Node> nodes;
    std::shared_ptr<Loop> lastLoop;
    std::function<void(const anyaddr& to, const Bytes& data)> onStray; // sent by sockets which aren't of a node
    uint64_t datagrams = 0;
    int64_t minStep = 50; // A turn and the next one of a thread are at least this far apart, in microseconds
    bool spinning = false; // A thread asked for turns without end

private:
    friend class Loop;
    struct Delivery {
        anyaddr from, to;
        Bytes data;
    };
    bool mShut = false;
    std::multimap<int64_t, Delivery> mDeliveries;
    std::vector<std::pair<anyaddr, Peer*>> mPeers;
    void deliver(const Delivery& d);

public:
    bool sendFrom(int fd, const anyaddr& to, const Bytes& data);
    ssize_t receive(int fd, uint8_t* out, size_t size, anyaddr& from);
};

bool same(const anyaddr& a, const anyaddr& b);

// ----- A peer made of STUN, OpenSSL and srtp_ref.h

class DtlsPeer : public Peer
{
public:
    DtlsPeer(World& world, unsigned host, unsigned port, bool dtlsClient);
    ~DtlsPeer() override;

    World& world;
    const anyaddr addr;
    const unsigned host, port;
    const bool client;
    std::string ufrag = "peer", pwd = "peerpasswordpeerpassword";
    std::string remoteUfrag, remotePwd, remoteFingerprint; // of the offer
    std::string fingerprint;
    size_t profileIndex = 3; // which SRTP profile it supports, see sref::profile; 4 for all of them, 5 for none
    enum class Certificate { Named, Other, None };
    Certificate certificate = Certificate::Named; // the one whose fingerprint ident() gives, or another

    anyaddr remote = {}; // learnt from what is received
    bool hasRemote = false;

    // ICE
    bool answerStun = true;
    std::vector<std::pair<int64_t, StunMsg>> stunRequests, stunResponses;
    std::vector<std::string> problems; // with what was received

    // DTLS
    bool doDtls = true;
    bool handshaken = false;
    std::vector<Bytes> app; // application data (SCTP)
    std::function<void(const Bytes&)> onApp;
    std::function<void()> onHandshaken;
    void sendApp(const Bytes& data);
    void startDtls();
    bool closed = false; // got close_notify

    // SRTP
    struct Rtp {
        int64_t time;
        Bytes data; // plain
        uint32_t ssrc, ts;
        uint16_t seq;
        uint8_t pt;
        bool marker;
        uint64_t index;
        size_t wireSize;
    };
    struct Rtcp {
        int64_t time;
        Bytes data;
        uint32_t index;
        uint32_t ssrc; // of the first packet
    };
    std::deque<Rtp> rtp;
    std::deque<Rtcp> rtcp;
    std::function<void(const Rtp&)> onRtp;
    std::function<void(const Rtcp&)> onRtcp;
    std::optional<sref::Session> tx, rx;
    void sendRtp(const Bytes& plain, uint32_t roc);
    void sendRtcp(const Bytes& plain);
    uint32_t rtcpIndex = 1;
    size_t early = 0; // media received before the handshake is done

    void sendRaw(const Bytes& data);
    void onDatagram(const anyaddr& from, const anyaddr& to, const Bytes& data) override;
    int64_t deadline() override;
    void onTime() override;
    Ident ident() const;

private:
    ssl_st* mSsl = nullptr;
    bio_st* mIn = nullptr;
    bio_st* mOut = nullptr;
    std::map<uint32_t, uint64_t> mHighest; // RTP index by source
    std::set<std::pair<uint32_t, uint64_t>> mSeen, mSeenControl;
    void pump();
    void flush();
};

// RTP packet fields, and RTCP packets of a compound one
struct RtcpItem {
    unsigned count, type;
    uint32_t ssrc;
    Bytes body; // after the SSRC
};
std::vector<RtcpItem> splitRtcp(const Bytes& b, std::string& error);
struct RtpParts {
    bool ok = false;
    bool marker;
    unsigned pt;
    uint16_t seq;
    uint32_t ts, ssrc;
    unsigned profile = 0; // of the extension
    std::map<unsigned, Bytes> ext;
    Bytes payload;
    size_t padding = 0;
};
RtpParts readRtp(const Bytes& b);

inline uint32_t be32(const uint8_t* p)
{
    return static_cast<uint32_t>(p[0]) << 24 | p[1] << 16 | p[2] << 8 | p[3];
}
inline uint16_t be16(const uint8_t* p)
{
    return static_cast<uint16_t>(p[0] << 8 | p[1]);
}

} // namespace rig
