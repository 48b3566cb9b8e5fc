#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that a statement is edited in one place)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state, observe, hook=False):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": observe,
            "hook_needed": hook,
        },
    })


prop("P01", "A published frame arrives at the subscriber byte for byte",
     "For every supported codec, a sequence of well-formed encoded frames that is packetized, serialized, parsed back and reassembled "
     "over a link which loses nothing comes out as the same sequence of frames, byte for byte, up to the documented re-framing (four byte start codes; "
     "H.264 / H.265 parameter sets placed right before the first slice of each key frame and not sent with delta frames; AV1 temporal delimiters dropped and OBU size fields "
     "always present). Frames packetized by other conforming senders are reassembled to the same bytes too. Presentation of frames starts with the first key frame. This holds for every frame size, unit layout, header-extension load, padding "
     "and starting sequence number or timestamp, including ones that wrap.",
     ["inputs", "histories"], "all frame sequences of all codecs, all sizes and unit layouts, all extension loads, all starting points of counters",
     "The unit tests packetize a handful of H.264 frames; splitting depends on frame size, extension size, padding and position of units in ways no sample covers.",
     ["src/packetizer_*.cpp", "src/depacketizer_*.cpp", "src/codec_*.cpp", "src/rtp_packet.cpp", "src/jitter_buffer.cpp"],
     [("Packetizer::generate", "src/packetizer_*.cpp"), ("Depacketizer::extract", "src/depacketizer_*.cpp")],
     [("sequence and rollover", "numbering of packets of a track", "src/rtp_packet_source.cpp")],
     ["Packetizer::generate", "RtpPacket::generate", "RtpPacket::fromUdpPacket", "JitterBuffer::processDeque"])

prop("P02", "Packets of a frame fit the datagram budget and are numbered and marked",
     "Every video packet produced for a frame, together with its header, extension, padding and the encryption overhead, fits the 1200 byte budget. "
     "All packets of a frame carry the same timestamp, which follows the presentation time without drift (within two ticks), sequence numbers are consecutive across frames (with a matching rollover count), "
     "and exactly the last packet of each video frame carries the marker.",
     ["inputs", "histories"], "all frames, extension loads, padding requests and encryption overheads",
     "Sizes at the boundary of the budget depend on several terms (headers of the codec, extension, padding, overhead); tests use one combination.",
     ["src/packetizer*.cpp", "src/rtp_packet.cpp", "src/rtp_packet_source.cpp", "src/rtp_time_source.cpp"],
     [("adjustPacketSize", "src/packetizer_video.cpp"), ("getNextSequence", "src/rtp_packet_source.cpp")],
     [("mNextSequence / mRollover", "next RTP sequence of a track", "src/rtp_packet_source.cpp")],
     ["Packetizer::generate", "RtpPacket::generate"])

prop("P03", "Loss, reordering and duplication never corrupt, reorder or repeat frames",
     "Whatever packets are lost, delayed, reordered or duplicated on the way, every frame the subscriber delivers is byte for byte one of the frames sent, "
     "frames are delivered in the order sent, and each at most once. A frame with a packet missing is never delivered in part or mixed with another (but leading units before the first slice, "
     "whose absence the H.264, H.265 and AV1 payload formats do not reveal, may be missing when their packets are). The first video frame delivered is a key frame.",
     ["schedules", "histories", "fault_sequences"], "all arrival schedules (loss, delay, reordering, duplication) and all polling times",
     "There are no tests of the jitter buffer at all; the outcome depends on arrival order and on time.",
     ["src/jitter_buffer.cpp", "src/depacketizer_*.cpp", "src/extended_value.cpp"],
     [("JitterBuffer::consume / processDeque", "src/jitter_buffer.cpp")],
     [("mItemList", "ring of packets by extended sequence", "src/jitter_buffer.cpp")],
     ["JitterBuffer::consume", "JitterBuffer::processDeque"])

prop("P04", "The receive buffer delivers what arrived in time and never stalls",
     "A frame all of whose packets arrive before it is due (the arrival of the first packet, plus the difference of timestamps, plus the length of the buffer) "
     "is delivered then, not before, and not later than a polling step after, or after the moment a missing earlier packet is given up, which is when the packet that revealed it is due. "
     "Frames with lost packets are given up so that later frames keep flowing. After any outage, however long and however far the numbering jumped forward (up to a quarter of its range), complete frames "
     "from the first key frame sent two seconds after packets started coming again are delivered again in time, and the buffer's own wait hint never sleeps past the moment there is something to do.",
     ["schedules", "histories", "fault_sequences"], "all arrival schedules, outages, jumps of the sequence and of the timestamp",
     "Liveness after loss depends on the whole history and on time, no test drives either.",
     ["src/jitter_buffer.cpp", "src/extended_value.cpp"],
     [("JitterBuffer::processDeque", "src/jitter_buffer.cpp"), ("JitterBuffer::getTimeoutMillis", "src/jitter_buffer.cpp")],
     [("mMinSeq / mMaxSeq", "window of the ring", "src/jitter_buffer.cpp")],
     ["JitterBuffer::processDeque", "JitterBuffer::getTimeoutMillis"])

prop("P05", "Missing packets, and only missing packets, are requested again",
     "For a stream with retransmission enabled, every packet that is missing while later ones have arrived is requested again, once, "
     "when the grace delay has passed (unless it is too late for it to be of use); a packet that was received, or that is not yet known to exist, is never requested, and nothing is requested when retransmission wasn't negotiated. The request sent on the wire names exactly the requested "
     "numbers, for any set of numbers, including sets that wrap around.",
     ["schedules", "histories", "inputs"], "all arrival schedules and all sets of sequence numbers",
     "Requests depend on the arrival history and time; the encoding on the spacing and order of numbers.",
     ["src/jitter_buffer.cpp", "src/util.cpp"],
     [("JitterBuffer::processNack", "src/jitter_buffer.cpp"), ("compressNackList", "src/util.cpp")],
     [("nack_needed", "item waits for a retransmission", "include/srtc/jitter_buffer_item.h")],
     ["JitterBuffer::processNack", "compressNackList"])

prop("P06", "Arbitrary media payloads from the network cannot crash the subscriber",
     "For any sequence of packets with any payload bytes, markers, sequence numbers and timestamps, for any codec, the receive path neither crashes, aborts, "
     "reads or writes out of bounds, nor hangs, and uses memory in proportion to what it received. The same holds for arbitrary bytes given by an application as a frame to publish.",
     ["inputs", "histories"], "all payload bytes and all packet sequences; all frame bytes",
     "Only a search over hostile inputs with memory checking says anything about all of them.",
     ["src/depacketizer_*.cpp", "src/codec_*.cpp", "src/bit_reader.cpp", "src/jitter_buffer.cpp", "src/packetizer_*.cpp"],
     [("Depacketizer::getPacketKind / extract", "src/depacketizer_*.cpp"), ("NaluParser / ObuParser", "src/codec_*.cpp")],
     [("fu_buf", "fragment being reassembled", "src/depacketizer_h264.cpp")],
     ["JitterBuffer::consume", "JitterBuffer::processDeque", "Packetizer::generate"])

prop("P07", "RTP packets keep their content through serialization and parsing",
     "Any RTP packet serialized by the library is read by an independent RFC 3550/8285/4588 reader with the same header fields, header extensions, padding and payload, "
     "also in its retransmission form, and parses back to an equal packet. Bytes which are not a valid RTP packet are refused without reading out of bounds, "
     "and bytes which are valid are parsed to what the independent reader sees, contributing sources included (a padding count of zero, which no RFC defines, may be read either way, and packets with neither payload nor padding may be refused). RTCP compounds likewise.",
     ["inputs"], "all header fields, extension sets, paddings and payloads; all byte strings",
     "Tests build a few packets; extension layout (one and two byte form, alignment), padding and hostile lengths interact.",
     ["src/rtp_packet.cpp", "src/rtp_extension.cpp", "src/rtp_extension_builder.cpp", "src/rtcp_packet.cpp"],
     [("RtpPacket::generate / fromUdpPacket", "src/rtp_packet.cpp"), ("RtpExtensionBuilder::build", "src/rtp_extension_builder.cpp")],
     [], ["RtpPacket::generate", "RtpPacket::generateRtx", "RtpPacket::fromUdpPacket", "RtpExtension::findU16", "RtcpPacket::fromUdpPacket"])

prop("P08", "Media encryption follows RFC 3711 and RFC 7714 exactly",
     "For every negotiated profile, every key and salt, every packet with a payload or padding and every rollover count, protected RTP and RTCP is bit for bit what an independent implementation of the "
     "RFCs produces, and what that implementation protects is unprotected to the original. Contributing sources, header extensions and padding included. No key, source and packet index is used for two different packets. The keys agreed on by DTLS are used in the directions RFC 5764 states.",
     ["inputs", "histories"], "all keys, packets, rollover counts and control packet indexes, four profiles",
     "Tests fix a few vectors; key derivation, IV and tag depend on all fields.",
     ["src/srtp_crypto.cpp", "src/srtp_connection.cpp", "src/srtp_util.cpp", "src/srtp_hmac_sha1.cpp"],
     [("SrtpCrypto::protect* / unprotect*", "src/srtp_crypto.cpp"), ("KeyDerivation", "src/srtp_util.cpp")],
     [("rollover count", "upper bits of the packet index", "src/srtp_connection.cpp")],
     ["SrtpCrypto", "SrtpConnection::protectSendMedia", "SrtpConnection::unprotectReceiveMedia"])

prop("P09", "Forged or altered packets are rejected and leave no trace",
     "A protected media or control packet with any bit altered, truncated, or made without the key is rejected. A rejected packet changes nothing: every genuine packet that "
     "would have been accepted without it is still accepted and decrypted to the same content.",
     ["inputs", "histories", "fault_sequences"], "all histories of genuine packets with forged ones in between",
     "The harm of a forged packet shows only in what happens later, across rollover.",
     ["src/srtp_crypto.cpp", "src/srtp_connection.cpp"],
     [("SrtpConnection::unprotectReceiveMedia", "src/srtp_connection.cpp")],
     [("ChannelValue", "last sequence and rollover per source", "include/srtc/srtp_connection.h")],
     ["SrtpConnection::unprotectReceiveMedia", "SrtpConnection::unprotectReceiveControl"])

prop("P10", "Each protected packet is accepted at most once, and late ones in the window once",
     "For any order of arrival, a protected media or control packet is accepted at most once. A genuine packet which is new and not older than the replay window (2048 packets) is accepted, "
     "also across sequence wrap-around, after losses of up to 30000 packets, and after the connection was re-established. The same guarantees hold for the window of 16 and 32 bit values and any power of two as its size.",
     ["histories", "schedules"], "all arrival orders, jumps and duplicates",
     "The window's state depends on the whole history; tests walk a few.",
     ["src/replay_protection.cpp", "src/srtp_connection.cpp"],
     [("ReplayProtection::canProceed / set", "src/replay_protection.cpp")],
     [("mHistory", "bit per recent value", "src/replay_protection.cpp")],
     ["ReplayProtection", "SrtpConnection::unprotectReceiveMedia", "SrtpConnection::unprotectReceiveControl"])

prop("P11", "Sequence and timestamp extension follows any stream across wraps",
     "For any stream of 16 or 32 bit values whose steps are smaller than a quarter of the range forward or back, the extended values have the right low bits and move by exactly the step, "
     "never negative, across any number of wraps. A value from before a wrap is recognized as such if it comes within a second after the wrap.",
     ["histories"], "all step histories within the limits",
     "Errors show only in particular wrap and reorder histories.",
     ["src/extended_value.cpp"],
     [("ExtendedValue::extend", "src/extended_value.cpp")],
     [("mRollover", "upper bits", "src/extended_value.cpp")],
     ["ExtendedValue::extend"])

prop("P12", "Congestion feedback reports exactly what was received and when",
     "For any pattern of arrivals and losses, the transport-wide feedback a subscriber sends, read by an independent reader of the format, reports every packet received since the previous report "
     "as received, no other packet as received, and arrival times within the precision of the format (250 us), without accumulating error. Feedback packets fit the size limit and are numbered consecutively. "
     "(Packets more than 500 numbers away from those of the current report interval, or after a silence of two seconds and a jump, may go unreported.)",
     ["histories", "schedules"], "all arrival patterns, gaps, delays, orders and wraps",
     "Run lengths, status vectors and delta sizes interact; the tests have one fixed header.",
     ["src/twcc_subscribe.cpp", "src/rtp_responder_twcc.cpp"],
     [("twcc::SubscribePacket / generate", "src/twcc_subscribe.cpp")],
     [("packet history", "arrivals not yet reported", "src/twcc_subscribe.cpp")],
     ["RtpResponderTWCC::onMediaPacket", "RtpResponderTWCC::run"])

prop("P13", "Congestion feedback is understood, and hostile feedback is harmless",
     "For any history of sent packets and any valid feedback about it, whatever encoding the other side chose, the publisher's loss and bandwidth figures follow from the packets reported: they don't depend on the encoding, packets reported late aren't lost, and for a steady stream they come to its rate, its share of lost packets, and, when padding was added to probe, the rate that got through. They "
     "are finite and in range. Any other bytes given as feedback neither crash, hang nor corrupt, and later valid feedback is still processed.",
     ["inputs", "histories"], "all send histories, encodings of feedback and byte strings",
     "The encoding has four chunk forms and wraps of three counters.",
     ["src/rtp_extension_source_twcc.cpp", "src/twcc_publish.cpp"],
     [("RtpExtensionSourceTWCC::onReceivedRtcpPacket", "src/rtp_extension_source_twcc.cpp")],
     [("PublishPacketHistory", "sent packets awaiting feedback", "src/twcc_publish.cpp")],
     ["RtpExtensionSourceTWCC", "twcc::PublishPacketHistory"])

prop("P14", "A retransmission request is answered with exactly the packet sent",
     "A packet requested again is found if it is among the 512 most recent packets of its stream, and its retransmission carries the original number and payload; "
     "a packet never sent, or of another stream, is never produced. The history stays bounded. A publishing connection answers a request with exactly the packets named which it still has, "
     "in the retransmission format when that was negotiated and unchanged otherwise.",
     ["histories"], "all interleavings of sends and requests over several streams",
     "Lookup and eviction depend on history and wrap-around.",
     ["src/send_rtp_history.cpp", "src/rtp_packet.cpp"],
     [("SendRtpHistory::save / find", "src/send_rtp_history.cpp")],
     [("history list", "recent packets by source", "src/send_rtp_history.cpp")],
     ["SendRtpHistory", "RtpPacket::generateRtx"])

prop("P15", "The pacer sends every packet once, in order, and within its spread",
     "Every packet handed to the pacer is sent exactly once unless the pacer is destroyed, packets of a stream which is flushed before its next frame leave in the order given, each leaves at its share of the requested spread (within a millisecond "
     "when the pacer is run on its own wait hint) and none later than the spread, and flushing a stream sends what is pending of that stream at once without touching others. Transport-wide numbers are consecutive in the order of sending.",
     ["histories", "schedules"], "all interleavings of paced sends, flushes and runs, all spreads and clocks",
     "Depends on time and on interleaving; there are no tests.",
     ["src/send_pacer.cpp"],
     [("SendPacer::sendPaced / flush / run", "src/send_pacer.cpp")],
     [("item queue", "packets with their send time", "src/send_pacer.cpp")],
     ["SendPacer"])

prop("P16", "Round-trip time derives from reports, whatever order they come in",
     "The round trip computed from a receiver report equals the time since the matching sender report less the delay the receiver declared, for any interleaving of streams, reports and losses; "
     "a report matching nothing sent gives no value, and memory for past reports stays bounded (the last 16 reports can be matched). Reports sent state the last sender report received and the delay since, and reference time reports are answered likewise.",
     ["histories"], "all interleavings of reports of several sources",
     "Depends on time and on interleaving; there are no tests.",
     ["src/sender_reports_history.cpp", "src/receiver_reference_time_reports_history.cpp"],
     [("calculateRtt", "src/sender_reports_history.cpp")],
     [("report list", "reports sent, by source", "src/sender_reports_history.cpp")],
     ["SenderReportsHistory", "ReceiverReferenceTimeReportsHistory"])

prop("P17", "Data channel messages arrive complete, once, and in order on a bad network",
     "Over a network which loses, delays, reorders and duplicates datagrams but delivers eventually, every message sent on an open channel is delivered to the other side exactly once, with the same bytes, kind (text or binary) "
     "and channel, and for an ordered channel in the order sent; only a message the sender gave up on (a channel with limited retransmissions, opened by the peer) may be missing, and holds up none after it. This holds for any mix of channels, sizes (none up to the maximum) and directions, and for channels opened by either side.",
     ["schedules", "histories", "fault_sequences"], "all network schedules, message mixes, channel configurations and starting sequence numbers",
     "Retransmission, gaps, fragmentation and flow control interact over time; the tests only cover a receive buffer in isolation.",
     ["src/sctp/sctp_session.cpp", "src/sctp/data_channel_receive_buffer.cpp", "src/sctp/sctp_packet*.cpp"],
     [("SctpSession::sendData / onReceivedData / onReceivedSack", "src/sctp/sctp_session.cpp")],
     [("pending / outstanding chunks", "data not acknowledged", "src/sctp/sctp_session.h")],
     ["SctpSession", "SctpSessionListener"])

prop("P18", "Arbitrary data channel packets cannot crash or corrupt a session",
     "No bytes delivered to a data channel session crash it, make it read out of bounds, abort or hang. A packet with a wrong checksum or verification tag is ignored entirely: "
     "it causes no reply and no event, and messages exchanged before and after are unaffected. So is a packet with the right tag which makes no sense where things stand (handshake packets which are late, altered, out of date or of another association, acknowledgments of what wasn't sent, chunks cut short, openings of a channel on a stream in use): messages on the open channels still arrive.",
     ["inputs", "histories"], "all byte strings and mutated genuine packets at every stage of a session",
     "Only a search over hostile inputs with memory checking says anything about all of them.",
     ["src/sctp/sctp_session.cpp", "src/sctp/sctp_packet.cpp", "src/sctp/sctp_crc32.cpp"],
     [("SctpPacket::parse", "src/sctp/sctp_packet.cpp"), ("SctpSession::receive", "src/sctp/sctp_session.cpp")],
     [], ["SctpSession", "SctpPacket"])

prop("P19", "Data channel packets on the wire follow the protocol",
     "Every packet a session emits is well formed to an independent RFC 9260 reader: right checksum and verification tag, chunk lengths and padding, size within the datagram limit, "
     "each data chunk a new consecutive number or an unchanged retransmission, fragments of a message contiguous with begin and end flags, and acknowledgments naming only what was received. Unacknowledged data never exceeds the window the peer advertised, beyond one packet.",
     ["schedules", "histories"], "all network schedules and message mixes",
     "It is a statement about every emitted packet of every history.",
     ["src/sctp/sctp_session.cpp", "src/sctp/sctp_packet_builder.cpp", "src/sctp/sctp_crc32.cpp"],
     [("SctpPacketBuilder", "src/sctp/sctp_packet_builder.cpp")],
     [("next TSN", "numbering of data chunks", "src/sctp/sctp_session.h")],
     ["SctpSessionListener::onSctpSendPacket", "crc32c"])

prop("P20", "Channels open on both sides, with the same settings, despite loss",
     "With both sides started, an association is established over a lossy, reordering and duplicating network, once on each side; a channel opened by one side appears at the other exactly once with the same label and ordering, "
     "both sides see it open before any of its messages, and identifiers used by the two sides do not collide. A channel the peer closes is reported closed once, after its messages.",
     ["schedules", "histories", "fault_sequences"], "all network schedules during setup, all labels and settings",
     "Handshake retransmission and crossing handshakes are schedules, there are no tests.",
     ["src/sctp/sctp_session.cpp"],
     [("INIT / COOKIE handling", "src/sctp/sctp_session.cpp"), ("DCEP open / ack", "src/sctp/sctp_session.cpp")],
     [("state", "association state", "src/sctp/sctp_session.h")],
     ["SctpSession", "SctpSessionListener"])

prop("P21", "Connectivity checks are only honoured when authentic, and any bytes are safe",
     "Binding requests and responses the library makes verify under an independent implementation of RFC 5389 (integrity, fingerprint, attributes), and it accepts exactly those well-formed incoming messages whose integrity and fingerprint verify under the right password, and, for responses, whose transaction it started and has not been answered yet. "
     "No bytes that look like such a message crash it or make it read out of bounds.",
     ["inputs", "histories"], "all credentials, all messages, all byte strings and mutations of genuine messages",
     "Integrity over all fields and hostile length fields need a search; there are no tests.",
     ["src/ice_agent.cpp", "src/stun/*.cpp", "src/peer_candidate.cpp"],
     [("IceAgent", "src/ice_agent.cpp"), ("stun_message_validate_buffer_length", "src/stun/stunmessage.cpp")],
     [("transaction list", "requests awaiting a response", "src/ice_agent.cpp")],
     ["IceAgent", "PeerCandidate::receiveFromNetwork"])

prop("P22", "The SDP offer states exactly the requested configuration",
     "For any publish or subscribe configuration, the generated offer is accepted by an independent SDP reader and states exactly the media, codecs with parameters, retransmission and feedback options, header extensions, simulcast layers, "
     "credentials, fingerprint and direction that were requested, with no payload number, extension number, media id or source id used twice; generated again it is the same. Configurations with no media, with empty, repeated or reserved media ids, without codecs or with codecs of the other type, with repeated layer names, or with more payloads than there are numbers are refused with an error.",
     ["configurations"], "all publish and subscribe configurations",
     "The space of configurations is combinatorial, tests have none of it.",
     ["src/sdp_offer.cpp", "src/simulcast_layer.cpp"],
     [("SdpOffer::generate", "src/sdp_offer.cpp")],
     [], ["SdpOffer::generate"])

prop("P23", "The SDP answer is understood, and no answer can crash the application",
     "For any offer and any valid answer to it, the negotiated tracks, payload numbers, codec options, extension map, feedback options, simulcast layers, candidates, credentials and fingerprint are the ones the answer states (host candidates over UDP; a maximum message size which is absent or zero is as RFC 8841 states; rejected media give no tracks). "
     "Answers without multiplexed control packets, candidates or media ids give an error. Any other text gives an error or a usable result, never a crash or an abort.",
     ["inputs", "configurations"], "all offers, all valid answers in any order of lines, all texts",
     "Answers come from other vendors' servers in any shape, and tests have none.",
     ["src/sdp_answer.cpp", "src/track.cpp", "src/track_selector.cpp", "src/extension_map.cpp"],
     [("SdpAnswer::parse", "src/sdp_answer.cpp")],
     [], ["SdpAnswer::parse"])

prop("P24", "Scheduled tasks run once, in order, on time, and never after cancellation",
     "Every scheduled task runs exactly once, not before its delay, in order of due time and then of submission, unless it is cancelled; a cancelled or superseded task never runs, cancelling, and the end of a scoped scheduler, wait for a running task of another thread, "
     "and no sequence of submit, update, cancel and destruction, from any thread or from inside a task, deadlocks or touches freed memory.",
     ["histories", "schedules"], "all sequences of operations including ones made from tasks, all clocks",
     "It is a statement about interleavings and time, there are no tests.",
     ["src/scheduler.cpp"],
     [("LoopScheduler / ThreadScheduler / ScopedScheduler", "src/scheduler.cpp")],
     [("mTaskQueue", "pending tasks by due time", "src/scheduler.cpp")],
     ["LoopScheduler", "ThreadScheduler", "ScopedScheduler"])

prop("P25", "A publisher and a subscriber connected end to end exchange media and data",
     "A publishing and a subscribing connection joined over a datagram network that delays, reorders and duplicates datagrams and loses some connect, and media frames, with the times of capture given with them when that's negotiated, and data channel messages arrive as sent. "
     "A STUN request and a DTLS datagram lost during the setup are made up for; an idle connection stays connected; an interruption of a few seconds is recovered from and a lasting one is reported as failed. "
     "Closing from either side at any moment is clean and is told to the other side. "
     "No packet either side puts on the network repeats the key stream position of a different packet, and no arbitrary, replayed or altered datagram from the peer's address disturbs the session. "
     "The states reported to the application follow one another legally.",
     ["schedules", "configurations", "fault_sequences"], "all network schedules, configurations and times of closing",
     "Only the whole system, driven over time, shows it; no test makes a connection.",
     ["src/peer_connection.cpp", "src/peer_candidate.cpp", "src/socket.cpp", "src/event_loop_linux.cpp"],
     [("PeerConnection::networkThreadWorkerFunc", "src/peer_connection.cpp"), ("PeerCandidate::process", "src/peer_candidate.cpp")],
     [("connection state", "state reported to the application", "src/peer_connection.cpp")],
     ["PeerConnection", "datagrams on the loopback network"])

prop("P26", "Recorded media files read back as the media written",
     "Every frame given to a file writer before it ends is in the file, in order, and nothing else, whatever the threads' schedule, and the file is valid for its format: WebM with the frames' times, key flags, codec and picture size; "
     "Annex B; Ogg Opus with both headers and positions counted in samples. Read back by the file readers, video frames come out as the same frames in order with their times and, for key frames, their parameters. "
     "No input file, however damaged, makes a reader read outside of it or crash: it is read or refused.",
     ["inputs", "histories", "schedules"], "all frame sequences, file contents and schedules of the writer's threads",
     "There are no tests of the tools.",
     ["tools/media_reader*.cpp", "tools/media_writer*.cpp"],
     [("MediaReader* / MediaWriter*", "tools/")],
     [], ["MediaReader::loadMedia", "MediaWriter::write"])

prop("P27", "Header-extension bookkeeping states the layers and times it was given",
     "For any simulcast layout the layer-allocation extension, read by an independent reader of its format, states the stream index, sizes, frame rates and bit rates configured, and packets of key frames and the first hundred ones state the media, layer and allocation they belong to. The extension map, builder and reader answer name and number look-ups "
     "consistently with its contents for any history of look-ups.",
     ["configurations", "histories"], "all layer layouts and look-up histories",
     "Layouts are combinatorial; the tests decode two, and a cached look-up depends on history.",
     ["src/rtp_extension_source_simulcast.cpp", "src/extension_map.cpp", "src/rtp_extension_source_abs_capture_time.cpp"],
     [("buildGoogleVLA", "src/rtp_extension_source_simulcast.cpp"), ("ExtensionMap::findByName", "src/extension_map.cpp")],
     [("mLastName / mLastId", "cached look-up", "include/srtc/extension_map.h")],
     ["buildGoogleVLA", "ExtensionMap"])

prop("P28", "The item pool never hands out live memory and never grows without need",
     "For any sequence of allocations and releases, items handed out are distinct from all live ones, released ones are reused, and everything is released when the pool goes away. "
     "Byte buffers, readers and writers agree with a plain array model for any sequence of operations.",
     ["histories"], "all sequences of operations",
     "Aliasing shows only in particular histories.",
     ["src/pool_allocator.cpp", "include/srtc/pool_allocator.h", "src/byte_buffer.cpp", "src/bit_reader.cpp"],
     [("PoolAllocator::create / destroy", "include/srtc/pool_allocator.h"), ("ByteBuffer", "src/byte_buffer.cpp")],
     [("pool blocks", "storage of items", "src/pool_allocator.cpp")],
     ["PoolAllocator", "ByteBuffer", "ByteReader", "ByteWriter", "BitReader"])

prop("P29", "Only the peer the answer names is connected to",
     "A connection is reported as established, media or data is sent, and anything received is given to the application, only with a peer which knows the ICE password, "
     "whose DTLS certificate has exactly the SHA-256 fingerprint of the answer, and which agreed on an SRTP profile. Anybody else gets neither media nor data and is not listened to; when nobody else "
     "answers, the connection is reported as failed; the genuine peer is connected to whoever else is at other addresses the answer gives, and however fast they are. The library shows the peer the certificate its offer names.",
     ["inputs", "schedules", "configurations"], "all peers which differ from the one named in one thing or another, alone or besides it",
     "Tests only connect to peers which are who they claim to be, if at all.",
     ["src/peer_candidate.cpp", "src/peer_connection.cpp", "src/srtp_connection.cpp", "src/x509_certificate.cpp"],
     [("PeerCandidate::onReceivedDtlsMessage", "src/peer_candidate.cpp"), ("PeerConnection::onCandidateConnected", "src/peer_connection.cpp")],
     [("mSelectedCandidate", "who media goes to", "src/peer_connection.cpp")],
     ["PeerCandidate::updateDtlsState", "SrtpConnection::create"])

prop("P30", "What is told about media agrees with what happened",
     "The statistics given to the application every five seconds count exactly the frames, packets and bytes which were sent or received until then, name losses in proportion (none when nothing is lost) and the bandwidth in use. "
     "Sender reports count what was sent, and relate the stream's timestamps to the time as the frames themselves do, also before the first frame; they are passed on to a subscribing application as they are. Receiver reports give the "
     "highest number received, whatever is reordered or sent again. Each request of a key frame from the peer is passed on, nothing else is; requests by the application, and those at the configured interval, are sent for the video tracks they are for. Frames received are those sent, in the formats agreed on and no other, with the time of capture their packets state.",
     ["histories", "schedules", "configurations"], "all histories of media, losses, retransmissions and reports",
     "Tests call the classes alone; what is told comes from the interplay of packets, timers and configuration.",
     ["src/peer_connection.cpp", "src/peer_candidate.cpp", "src/track_stats.cpp", "src/rtp_time_source.cpp", "src/send_pacer.cpp"],
     [("PeerConnection::sendConnectionStats / sendReports", "src/peer_connection.cpp"), ("PeerCandidate::sendPublishReports / sendSubscribeReports", "src/peer_candidate.cpp"), ("RtpTimeSource::getCurrentTimestamp", "src/rtp_time_source.cpp")],
     [("TrackStats", "counts of a track", "src/track_stats.cpp")],
     ["PeerCandidate::sendPublishReports", "PeerConnection::sendConnectionStats", "PeerCandidate::sendPictureLossIndicator"])

prop("P31", "The event loop misses no datagram and no wake-up",
     "A socket delivers each datagram of the address it is for once, whole and in order, and none of anybody else's; what it sends arrives as it is. A wait on the event loop reports exactly those registered sockets which have something to read, "
     "starves none of many, ends on an interrupt by any thread, also one from before the wait, and otherwise lasts its timeout (of at most 100 ms).",
     ["histories", "schedules"], "all histories of sends, receptions, registrations, waits and interrupts",
     "No test calls them; a lost wake-up only shows as latency.",
     ["src/event_loop_linux.cpp", "src/socket.cpp"],
     [("EventLoop_Linux::wait / interrupt", "src/event_loop_linux.cpp"), ("Socket::receive / send", "src/socket.cpp")],
     [("mEventHandle / mEpollHandle", "what is waited for", "src/event_loop_linux.cpp")],
     ["EventLoop_Linux::wait", "Socket::receive"])

prop("P32", "The interface can be used by any threads at any time",
     "Threads which publish, send messages, ask for key frames, read lists and descriptions, replace listeners and close connections at the same time cause no data race, deadlock or crash. A listener is not called any more once it was replaced or close() has returned. "
     "The connection states are reported in order, the final one once and last. Messages each thread sends on a channel arrive in its order, once and whole; frames arrive as they were published. Lists are complete or, after the end, empty. Lines of the log are written whole, each to the logger of its connection.",
     ["schedules", "histories"], "all schedules of threads and network, all sequences of calls",
     "The tests use one thread; races show in few schedules.",
     ["src/peer_connection.cpp", "src/event_loop_linux.cpp", "src/logging.cpp"],
     [("PeerConnection::close / networkThreadWorkerFunc", "src/peer_connection.cpp"), ("PeerConnection::setConnectionState", "src/peer_connection.cpp"), ("log_v", "src/logging.cpp")],
     [("mMutex / mListenerMutex", "guard what is shared with the network thread", "include/srtc/peer_connection.h")],
     ["PeerConnection::getTrackList", "PeerConnection::close", "PeerConnection::setConnectionState"])

prop("P33", "The programs carry a file to a file, and end as they should",
     "What srtc_publish sends from a file (H.264, H.265, WebM with VP8, VP9 or AV1) and srtc_subscribe receives over a network without loss is recorded frame by frame, byte for byte, with the times of the file, through whatever WHIP / WHEP server stands between: redirects (307, 308) are followed with offer and token, answers are read however they are sent. Frames of which packets were lost may be missing; what is recorded is never altered or out of order. "
     "A looped file goes on in time. The offer posted (application/sdp, with the bearer token) is for the file and the options. Both end with 0 when the file or the connection ends or they are told to end (SIGINT, SIGTERM), and with 1 when the server replies with another status, cuts its reply short or can't be reached, when the media or the options aren't right; nothing a server says crashes them.",
     ["inputs", "histories"], "all media files, options, replies of servers, losses and times of ending",
     "No test runs the programs.",
     ["tools/srtc_publish.cpp", "tools/srtc_subscribe.cpp", "tools/http_whip_whep_curl.cpp"],
     [("playVideoFile", "tools/srtc_publish.cpp"), ("perform_whip_whep", "tools/http_whip_whep_curl.cpp"), ("main", "tools/srtc_subscribe.cpp")],
     [("gIsConnectionClosed", "ends the programs", "tools/srtc_publish.cpp")],
     ["perform_whip_whep", "playVideoFile", "main"])

prop("P34", "Data channels work with any peer which follows the protocols",
     "A whole connection and an independent peer, active or passive, on whatever SCTP ports offer and answer name, set up an association over DTLS once connected. Each channel of the offer is opened once, on a stream for the library's role, and reported open to the application before its first message; those which the peer opens are reported too. "
     "Messages of either side, also those given before the connection or before the channel was open and those in the largest datagrams, arrive once, whole, of their kind and in the order of their channel, despite lost and repeated datagrams and brief outages, beside media and without any; a message larger than the peer accepts (or, without a limit, than the library) is refused when it is given, others never. "
     "A channel which the peer closes is reported closed once, after its messages; closing the connection is told to the peer.",
     ["histories", "schedules", "configurations"], "all histories of messages and channels, roles, ports, limits and network schedules",
     "Two ends of the same library agree on their mistakes; no test makes a connection.",
     ["src/peer_connection.cpp", "src/peer_candidate.cpp", "src/sctp/sctp_session.cpp", "src/sdp_answer.cpp"],
     [("PeerCandidate::readDtlsData / sendDataChannelMessage", "src/peer_candidate.cpp"), ("PeerConnection::sendDataChannelText", "src/peer_connection.cpp"), ("SctpSession::send", "src/sctp/sctp_session.cpp")],
     [("mDataSendQueue", "messages which wait for their channel", "include/srtc/peer_candidate.h")],
     ["PeerCandidate::onSctpDataChannelOpen", "PeerConnection::sendDataChannelBinary"])

prop("P35", "Nothing is left behind",
     "Whatever the objects of the library were used for - connections which came up, failed, were attacked, interrupted or closed in the middle, sessions, jitter buffers, packetizers, parsers given anything - once the application has let go of them, their memory, descriptors (sockets, epoll, events) and threads are released: doing the same again and again doesn't hold more each time. "
     "A connection which goes on with steady traffic, losses, retransmissions, reports, feedback, datagrams of strangers and brief interruptions doesn't hold more and more either: what it remembers is bounded.",
     ["histories", "inputs"], "all histories of use, to their end or for any length of time",
     "Tests end with their process, and run for a moment.",
     ["src/peer_candidate.cpp", "src/peer_connection.cpp", "src/jitter_buffer.cpp", "src/pool_allocator.cpp", "src/srtp_crypto.cpp", "src/x509_certificate.cpp", "src/event_loop_linux.cpp", "src/socket.cpp", "src/sctp/sctp_session.cpp", "src/send_rtp_history.cpp"],
     [("PeerCandidate::freeDTLS", "src/peer_candidate.cpp"), ("JitterBuffer::freeEverything", "src/jitter_buffer.cpp"), ("SendRtpHistory::save", "src/send_rtp_history.cpp"), ("IceAgent::forgetExpiredTransactions", "src/ice_agent.cpp")],
     [("destructors", "each releases what its object holds", "src")],
     ["PeerCandidate::freeDTLS", "PoolAllocator::destroy", "SctpSession"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
