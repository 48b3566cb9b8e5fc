// A connection of srtc and a DtlsPeer which talk to each other
#pragma once

#include "rig.h"

namespace rig
{

using State = srtc::PeerConnection::ConnectionState;

struct Spec {
    srtc::Direction direction = srtc::Direction::Publish;
    std::vector<std::string> layers; // simulcast, of the video
    bool audio = true;
    bool video = true;
    std::vector<srtc::Codec> videoCodecs = { srtc::Codec::VP8 };
    bool rtx = true, bwe = false, absCapture = false;
    std::vector<std::string> channels;
    uint16_t pliMillis = 2000;
    uint16_t jitterMillis = 0, nackDelayMillis = 0;
    bool highest = false; // use the track selector
    unsigned nodeHost = 1;
};

inline srtc::SimulcastLayer layer(const std::string& name, unsigned i)
{
    return { name, static_cast<uint16_t>(320 << i), static_cast<uint16_t>(180 << i), 30, 300u << i };
}

struct Made {
    std::shared_ptr<srtc::SdpOffer> offer;
    std::string sdp;
    OfferInfo info;
};

inline Made makeOffer(srtc::PeerConnection& pc, const Spec& s)
{
    Made m;
    if (s.direction == srtc::Direction::Publish) {
        srtc::PubOfferConfig c;
        c.cname = "cname";
        c.enable_rtx = s.rtx;
        c.enable_bwe = s.bwe;
        c.enable_abs_capture_time = s.absCapture;
        c.data_channel_config.data_channels = s.channels;
        srtc::PubMediaConfig mc;
        if (s.video) {
            srtc::PubMediaItem item;
            item.media_id = "video";
            item.media_type = srtc::MediaType::Video;
            for (const auto v : s.videoCodecs)
                item.codec_list.push_back({ v, v == srtc::Codec::H264 ? 0x42e01fu : 0u });
            for (size_t i = 0; i < s.layers.size(); i += 1)
                item.layer_list.push_back(layer(s.layers[i], static_cast<unsigned>(i)));
            mc.media_list.push_back(item);
        }
        if (s.audio) {
            srtc::PubMediaItem item;
            item.media_id = "audio";
            item.media_type = srtc::MediaType::Audio;
            item.codec_list.push_back({ srtc::Codec::Opus });
            mc.media_list.push_back(item);
        }
        auto r = pc.createPublishOffer(c, mc);
        m.offer = r.first;
    } else {
        srtc::SubOfferConfig c;
        c.cname = "cname";
        c.enable_abs_capture_time = s.absCapture;
        c.pli_interval_millis = s.pliMillis;
        c.jitter_buffer_length_millis = s.jitterMillis;
        c.jitter_buffer_nack_delay_millis = s.nackDelayMillis;
        c.data_channel_config.data_channels = s.channels;
        srtc::SubMediaConfig mc;
        if (s.video) {
            srtc::SubMediaItem item;
            item.media_id = "video";
            item.media_type = srtc::MediaType::Video;
            for (const auto v : s.videoCodecs)
                item.codec_list.push_back({ v, v == srtc::Codec::H264 ? 0x42e01fu : 0u });
            mc.media_list.push_back(item);
        }
        if (s.audio) {
            srtc::SubMediaItem item;
            item.media_id = "audio";
            item.media_type = srtc::MediaType::Audio;
            item.codec_list.push_back({ srtc::Codec::Opus });
            mc.media_list.push_back(item);
        }
        auto r = pc.createSubscribeOffer(c, mc);
        m.offer = r.first;
    }
    if (m.offer) {
        m.sdp = m.offer->generate().first;
        m.info = readOffer(m.sdp);
    }
    return m;
}

inline srtc::Error applyAnswer(Node& n, const Made& m, const std::string& answer, bool highest = false)
{
    if (const auto e = n.pc->setOffer(m.offer); e.isError())
        return e;
    const auto sel = highest ? std::make_shared<srtc::HighestTrackSelector>() : nullptr;
    const auto r = m.offer->getDirection() == srtc::Direction::Publish ? n.pc->parsePublishAnswer(m.offer, answer, sel) : n.pc->parseSubscribeAnswer(m.offer, answer, sel);
    if (r.second.isError())
        return r.second;
    const auto e = n.pc->setAnswer(r.first);
    if (!e.isError())
        n.loop->awaitThread();
    return e;
}

// One srtc node and one peer
struct Duo {
    World world;
    Node* node = nullptr;
    DtlsPeer peer;
    Made made;
    std::string answer;
    OfferInfo sender; // sources which the peer says it sends, for a subscriber
    std::shared_ptr<srtc::Track> video, audio;
    std::vector<std::shared_ptr<srtc::Track>> tracks;

    // The peer is the DTLS client or not
    explicit Duo(bool peerActive)
        : peer(world, 2, 5000, peerActive)
    {
    }

    srtc::Error start(const Spec& spec, const AnswerOptions& given = {})
    {
        node = &world.add(spec.direction, { address(spec.nodeHost, 4000) });
        made = makeOffer(*node->pc, spec);
        if (!made.offer)
            return { srtc::Error::Code::InvalidData, "no offer" };
        peer.remoteUfrag = made.info.ufrag;
        peer.remotePwd = made.info.pwd;
        peer.remoteFingerprint = made.info.fingerprint;
        auto options = given;
        if (spec.direction == srtc::Direction::Subscribe && !options.sender) {
            sender = made.info;
            uint32_t v = 7000;
            for (auto& m : sender.media) {
                m.ssrcs = { v, v + 1 };
                m.groups = { { v, v + 1 } };
                v += 10;
            }
            options.sender = &sender;
        }
        answer = writeAnswer(made.info, peer.ident(), options);
        const auto e = applyAnswer(*node, made, answer, spec.highest);
        tracks = node->pc->getTrackList();
        for (const auto& t : tracks)
            (t->getMediaType() == srtc::MediaType::Audio ? audio : video) = t;
        return e;
    }

    bool connect(int64_t micros = 5000000)
    {
        return world.runFor(micros, [&] { return node->state() == State::Connected && peer.handshaken; });
    }

    // The end of a case, in order: threads, then the objects which they use
    ~Duo()
    {
        world.shutdown();
    }
};

} // namespace rig
