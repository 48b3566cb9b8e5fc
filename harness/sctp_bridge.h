// An independent SCTP session in the DTLS connection of a peer
#pragma once

#include "rig_setup.h"
#include "sctp_scenarios.h"

namespace ss
{

// Carries the packets of the independent session in the peer's DTLS connection
struct Bridge : End, rig::Peer {
    rig::DtlsPeer& peer;
    World& w;

    Bridge(rig::World& world, rig::DtlsPeer& peer, World& w)
        : peer(peer)
        , w(w)
    {
        world.add(this, { rig::address(77, 7700) });
        w.ends[0] = this;
        peer.onApp = [&w](const Bytes& b) { w.post(0, b); };
    }
    ~Bridge() override
    {
        w.ends[0] = nullptr;
    }
    void receive(const Bytes& packet) override
    {
        peer.sendApp(packet);
    }
    void onDatagram(const rig::anyaddr&, const rig::anyaddr&, const Bytes&) override
    {
    }
    int64_t deadline() override
    {
        auto t = w.ends[1] ? w.ends[1]->due() : INT64_MAX;
        if (!w.queue.empty())
            t = std::min(t, w.queue.begin()->first);
        return t > INT64_MAX / 1000 ? INT64_MAX : t * 1000;
    }
    void onTime() override
    {
        w.runTo(w.now());
    }
};

} // namespace ss
