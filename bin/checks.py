"""The checks: sources of the harness, how it is built, and how long it searches."""
COMMON = ["pbt.cpp", "sim.cpp"]


def c(sources, technique, note, **kw):
    d = {"sources": COMMON + sources, "technique": technique, "note": note}
    d.update(kw)
    return d


NOT_APPLICABLE = {}

CHECKS = {
    "P01": c(["p01_frames.cpp"],
             "coverage-guided property-based testing: round trip through wire bytes, differential with an independent packetizer and depacketizer",
             "Generated frame sequences of six codecs, up to about 40 packets per frame; in-order lossless link in virtual time; ASan/UBSan build of the library."),
    "P02": c(["p02_packets.cpp"],
             "coverage-guided property-based testing: invariants of the produced packets, strict RFC depacketizer as oracle",
             "Generated frames, extension loads, paddings and counters; sizes clustered at the packet budget."),
    "P03": c(["p03_loss.cpp"],
             "stateful property-based testing: generated loss, delay, reordering and duplication schedules, history invariant against the frames sent",
             "Up to 14 frames per case and generated arrival schedules in virtual time, single threaded as in the event loop."),
    "P11": c(["p11_extended_value.cpp"],
             "model-based property-based testing: generated step histories against an unbounded integer model",
             "Histories of up to a few hundred steps, 16 and 32 bit values."),
}
CHECKS["P04"] = c(["p04_liveness.cpp"],
    "stateful property-based testing: generated arrival schedules and outages in virtual time, timing oracle computed from the arrivals",
    "Up to 19 frames (timely) or about 100 (outages) per case; single threaded as in the event loop.")
CHECKS["P05"] = c(["p05_nack.cpp"],
    "stateful property-based testing: generated loss and retransmission schedules, requests judged against the arrival log; encode / decode round trip",
    "Up to 19 frames per case in virtual time; single threaded as in the event loop.")
CHECKS["P06"] = c(["p06_hostile_media.cpp"],
    "coverage-guided structured fuzzing of packets and frames under AddressSanitizer / UBSan, with output bounds as oracle",
    "Up to 40 packets or 6 frames per case; memory errors are those the sanitizers detect.")
CHECKS["P07"] = c(["p07_rtp.cpp"],
    "coverage-guided property-based testing: serialize / parse round trip, and differential with an independent RFC 3550 / RFC 8285 reader on generated and damaged packets",
    "Packets up to 1200 bytes of payload, up to 6 extension elements, up to 15 contributing sources; RTCP compounds of up to 5 packets.")
CHECKS["P09"] = c(["p09_forged.cpp"],
    "stateful property-based testing: genuine packet histories with generated forgeries, differential with a receiver which saw no forgeries",
    "Up to 40 packets per history across rollover, four profiles, nine kinds of forgery; memory compared before and after floods of up to 200 sources.")
CHECKS["P10"] = c(["p10_replay.cpp"],
    "model-based property-based testing: generated arrival orders with replays, late packets, jumps and wraps against a set of accepted indexes",
    "Up to 60 packets per history on three streams; the window class directly with up to 120 values.")
RIG = {"override": True}
CHECKS["P12"] = c(["p12_twcc_subscribe.cpp", "rig.cpp", "rig_sdp.cpp"],
    "stateful property-based testing: generated arrival histories in virtual time, reports read by an independent reader and compared with the arrivals; whole subscribing connections whose peer sends media and reads the reports",
    "Up to 8 reports and about 1600 numbers per report; jumps of numbers up to the whole range (received ones only are judged then); connections in virtual time with up to 60 bursts of packets.", build=RIG)
CHECKS["P13"] = c(["p13_twcc_publish.cpp", "rig.cpp", "rig_sdp.cpp"],
    "stateful property-based testing: metamorphic relation between encodings of the same feedback, reference figures for steady streams; structured fuzzing of feedback under sanitizers; whole publishing connections whose peer loses packets and says so",
    "Up to about 750 packets per case, steady streams up to 9 seconds of virtual time (4000 packets); hostile feedback up to 20 packets, then 11000 packets of valid feedback; connections of up to 27 s of virtual time.", build=RIG)
CHECKS["P08"] = c(["p08_srtp.cpp", "rig.cpp", "rig_sdp.cpp"],
    "property-based testing: bit for bit differential with an independent implementation of RFC 3711 / RFC 7714 / RFC 5764 on generated keys, packets and indexes; whole connections in virtual time whose packets are read by an independent peer that records every index used",
    "All four profiles, packets up to about 1800 bytes, any rollover count and control index; AES block cipher and SHA-1 are shared with the library. Connections of up to 24 steps and about half a minute of virtual time.", build=RIG)
CHECKS["P14"] = c(["p14_history.cpp", "rig.cpp", "rig_sdp.cpp"],
    "model-based and stateful property-based testing: history against a list of what was saved, retransmission format against an independent reader, whole publishing connections asked for packets by an independent peer",
    "Histories of a few thousand packets of up to 4 streams; connections in virtual time with up to 25 publish or request steps and about 700 packets.", build=RIG)
CHECKS["P15"] = c(["p15_pacer.cpp", "rig.cpp", "rig_sdp.cpp"],
    "stateful property-based testing: generated histories of frames, flushes and waits in virtual time against a model of what is due; whole publishing connections read by an independent peer",
    "Up to 40 steps and 1600 packets on up to 3 streams; connections with up to 20 frames.", build=RIG)
CHECKS["P16"] = c(["p16_rtt.cpp", "rig.cpp", "rig_sdp.cpp"],
    "stateful property-based testing: generated histories of reports in virtual time against a list of what was sent; whole connections whose peer answers reports rightly and wrongly, and reads theirs",
    "Up to 60 steps and 4 sources in the histories; connections of 10 to 30 s of virtual time.", build=RIG)
CHECKS["P27"] = c(["p27_extensions.cpp", "rig.cpp", "rig_sdp.cpp"],
    "model-based property-based testing: generated layer layouts read back by an independent reader of the format, look-up histories against a list, extension builder against a map; publishing simulcast connections read by an independent peer",
    "Up to 4 layers of any size and rate; histories of 40 look-ups; connections with up to 25 frames.", build=RIG)
CHECKS["P28"] = c(["p28_pool.cpp"],
    "model-based property-based testing: generated histories of allocations and of buffer operations against plain containers, under AddressSanitizer and UndefinedBehaviorSanitizer",
    "Up to 14 rounds of 300 items of four sizes; up to 40 buffer operations; up to 30 values read.")
CHECKS["P22"] = c(["p22_offer.cpp", "rig.cpp", "rig_sdp.cpp"],
    "property-based testing: generated configurations, valid and not, whose offers are read back by an independent SDP reader and compared with the configuration",
    "Up to 4 media, 20 codecs per media and 4 layers; identifiers are SDP tokens.", build=RIG)
CHECKS["P23"] = c(["p23_answer.cpp", "rig.cpp", "rig_sdp.cpp"],
    "model-based property-based testing: generated answers in any order of lines compared with what they state; structured fuzzing of answers under sanitizers, with whole connections made by them",
    "Up to 3 media of 5 codecs and 4 layers, 5 candidates; damaged answers with up to 7 edits.", build=RIG)
CHECKS["P24"] = c(["p24_scheduler.cpp", "conc.cpp"],
    "model-based property-based testing of histories on a loop; generated thread schedules (controlled interleaving of every lock and wait, virtual time) with invariants over the history",
    "Up to 120 operations on a loop; up to 3 threads and 30 tasks on a scheduler's thread, switches at operations on locks, condition variables and threads; 2 to 4 free threads under ThreadSanitizer.",
    also={"name": "ThreadSanitizer", "sources": ["p24_races.cpp"], "build": {"mode": "tsan"}, "share": 0.4, "facets": ["races"]})
CHECKS["P21"] = c(["p21_stun.cpp", "rig.cpp", "rig_sdp.cpp"],
    "model-based property-based testing: differential with an independent implementation of RFC 5389 on generated, signed and damaged messages; transaction histories against a list; connections attacked with forged messages; fuzzing under sanitizers",
    "Messages of up to 2000 bytes; histories of 40 steps; connections with up to 14 forged or genuine messages.", build=RIG)
SCTP_NOTE = "Up to 22 messages (two sessions) or 30 steps (session and peer) per case, in virtual time; messages up to 250000 bytes; up to 4 channels a side."
CHECKS["P17"] = c(["p17_messages.cpp"],
    "stateful property-based testing: generated histories of messages over a generated bad network, between two sessions and between a session and an independent SCTP peer, deliveries against what was sent",
    SCTP_NOTE)
CHECKS["P19"] = c(["p19_wire.cpp"],
    "stateful property-based testing: every packet of generated histories is judged by an independent reader which follows both directions",
    SCTP_NOTE)
CHECKS["P20"] = c(["p20_opening.cpp"],
    "stateful property-based testing: generated establishment histories over a generated bad network, between two sessions and between a session and an independent SCTP peer, events against what was opened",
    SCTP_NOTE)
CHECKS["P18"] = c(["p18_hostile_sctp.cpp"],
    "coverage-guided structured fuzzing of packets with right checksum and tag under AddressSanitizer / UBSan; stateful property-based testing with packets in between which are to be ignored, whose effects and whose influence on what is delivered are judged",
    "Up to 40 hostile packets of up to 4000 bytes per case, at any stage of an association.")
CHECKS["P26"] = c(["p26_tools.cpp", "conc.cpp"],
    "property-based testing: round trips through files, differential with independent parsers and writers of Matroska, Annex B and Ogg Opus; structured fuzzing of damaged files under sanitizers; generated thread schedules of the writers' ends",
    "Up to 8 video frames or 300 audio packets per file; files of up to about 2 MB; scratch files only.",
    build={"tools": ["media_*.cpp", "libogg/src/*.c"]})
CHECKS["P25"] = c(["p25_endtoend.cpp", "rig.cpp", "rig_sdp.cpp"],
    "stateful property-based testing: generated connections of a publisher and a subscriber over a generated virtual network, with loss, interruptions, closing and forged datagrams at generated times, against what was sent",
    "Up to 40 steps of media, data or attack; up to three idle periods of 40 s or interruptions of 20 s.", build=RIG)
CHECKS["P29"] = c(["p29_identity.cpp", "rig.cpp", "rig_sdp.cpp"],
    "stateful property-based testing: generated outsiders (other certificates, fingerprints altered in the answer, no certificate, no SRTP profile, wrong password) run real ICE, DTLS and SRTP against a whole connection, alone or beside the genuine peer, with an oracle over what each of them is sent and what the application is told",
    "One outsider for up to 7 s, or 2 to 4 addresses; fingerprints of SHA-256.", build=RIG)

CHECKS["P30"] = c(["p30_told.cpp", "rig.cpp", "rig_sdp.cpp"],
    "stateful property-based testing: generated histories of media, losses, retransmissions, reports and key frame requests over whole connections in virtual time; counts and times in statistics, sender and receiver reports, key frame requests and what is passed on are compared with an independent peer's record of what was on the wire",
    "Connections of up to 22 s over a network with a constant delay; fraction lost and jitter in receiver reports, which the library does not compute, are not judged.", build=RIG)

CHECKS["P34"] = c(["p34_interop.cpp", "rig.cpp", "rig_sdp.cpp"],
    "stateful property-based testing: generated histories of a whole connection's data channels with an independent SCTP and DTLS peer over a generated virtual network, against a model of the channels and what was said on them",
    "Up to 30 steps, 3 channels of the connection and 4 of the peer; messages up to 250000 bytes.", build=RIG)

CHECKS["P31"] = c(["p31_network.cpp"],
    "model-based property-based testing: generated histories of sends, receptions, registrations, waits and interrupts (also by another thread) on the system's event loop and sockets over the loopback network, against a list of what is pending",
    "Up to 24 sockets and 40 steps, datagrams of up to 9000 bytes, real time; Linux.")

CHECKS["P32"] = c(["p32_threads.cpp", "rig_sdp.cpp"],
    "stateful property-based testing under ThreadSanitizer: generated scripts of calls by several threads on two connections over the loopback network in real time, with the ends of listeners and connections at generated points; what is called, delivered and returned is judged, as is each line of the log",
    "Up to 4 threads of 30 calls each; real schedules of the system, which replays repeat only in part.",
    build={"mode": "tsan"})

CHECKS["P33"] = c(["p33_programs.cpp", "rig_sdp.cpp"],
    "stateful property-based testing of the programs as processes: generated media files are published by one and recorded by the other through a generated server of WHIP and WHEP and a relay which loses packets, and the recording is compared with the file; generated replies of the server, and options, with an oracle over exit codes and requests, under AddressSanitizer / UBSan",
    "Files of up to 14 frames; up to 2 redirects; real time over the loopback network.",
    programs=["srtc_publish.cpp", "srtc_subscribe.cpp"], jobs=16, case_timeout=70)
REPEATED = ["p%02d_%s.cpp" % (n, t) for n, t in (
    (2, "packets"), (3, "loss"), (6, "hostile_media"), (8, "srtp"), (9, "forged"), (12, "twcc_subscribe"), (13, "twcc_publish"), (14, "history"), (15, "pacer"), (16, "rtt"),
    (17, "messages"), (18, "hostile_sctp"), (21, "stun"), (22, "offer"), (23, "answer"), (25, "endtoend"), (27, "extensions"), (28, "pool"), (29, "identity"), (30, "told"), (34, "interop"))]
CHECKS["P35"] = c(["p35_leaks.cpp", "rig.cpp", "rig_sdp.cpp"] + REPEATED,
    "property-based testing: generated cases of 22 other harnesses are repeated in one process (metamorphic: the same history must not hold more memory, descriptors or threads each time); long connections with generated steady traffic, an invariant over what is allocated",
    "Each case up to 8 times; connections of 65 s to 6 minutes of virtual time.", build={"override": True, "renamed": REPEATED}, case_timeout=60,
    also={"name": "sockets", "sources": ["p35_system.cpp", "p31_network.cpp"], "build": {"renamed": ["p31_network.cpp"]}, "share": 0.3, "facets": ["p31:network"]})
