// P26: files which the tools write and read
#include "conc.h"
#include "media_gen.h"
#include "pbt.h"
#include "sim.h"
#include "tool_files.h"

#include "media_reader.h"
#include "media_writer.h"
#include "media_writer_av1.h"
#include "media_writer_h26x.h"
#include "media_writer_ogg.h"
#include "media_writer_vp8.h"
#include "media_writer_vp9.h"
#include "tool_exit.h"
#undef exit

#include "srtc/encoded_frame.h"
#include "srtc/media.h"
#include "srtc/track.h"

#include <algorithm>
#include <memory>
#include <optional>
#include <thread>
#include <unistd.h>

using namespace pbt;
using namespace gen;

[[noreturn]] void toolExit(int code)
{
    throw ToolExit{ code };
}

namespace
{

// A file in the working directory, which is a scratch one
struct Scratch {
    std::string path;
    explicit Scratch(const std::string& ending)
        : path("./p26-" + std::to_string(getpid()) + ending)
    {
        unlink(path.c_str());
    }
    ~Scratch()
    {
        unlink(path.c_str());
    }
    bool exists() const
    {
        return access(path.c_str(), F_OK) == 0;
    }
    Bytes read() const
    {
        Bytes r;
        if (const auto f = fopen(path.c_str(), "rb")) {
            uint8_t buf[65536];
            size_t n;
            while ((n = fread(buf, 1, sizeof(buf), f)) > 0)
                r.insert(r.end(), buf, buf + n);
            fclose(f);
        }
        return r;
    }
    void write(const Bytes& b) const
    {
        const auto f = fopen(path.c_str(), "wb");
        if (!f)
            abort();
        if (!b.empty())
            fwrite(b.data(), 1, b.size(), f);
        fclose(f);
    }
};

struct Sent {
    Bytes data;
    bool key = false;
    uint64_t timestamp = 0;
    std::vector<Bytes> params, slices;
};

std::shared_ptr<srtc::EncodedFrame> encoded(const std::shared_ptr<srtc::Track>& track, const Bytes& data, uint64_t timestamp, uint64_t seq)
{
    auto f = std::make_shared<srtc::EncodedFrame>();
    f->track = track;
    f->seq_ext = seq;
    f->rtp_timestamp_ext = timestamp;
    f->abs_capture_time_ntp = 0;
    f->abs_capture_time_offset = 0;
    f->marker = true;
    f->first_to_last_packet_millis = 0;
    f->wait_time_millis = 0;
    f->data = toBuffer(data);
    return f;
}

std::shared_ptr<srtc::Track> opusTrack(Src& src, unsigned& channels, uint32_t& minptime)
{
    const auto media = std::make_shared<srtc::Media>("audio", srtc::MediaType::Audio, srtc::ExtensionMap());
    srtc::TrackBuilder b(media, srtc::Direction::Subscribe, 1, 99, 48000);
    channels = 0;
    minptime = src.oneOf<uint32_t>({ 10, 20, 0, 40, 60, 3 });
    std::shared_ptr<srtc::Track::CodecOptions> options;
    if (!src.chance(1, 5)) {
        channels = src.chance(1, 2) ? 2 : 1;
        options = std::make_shared<srtc::Track::CodecOptions>(0, static_cast<int>(minptime), channels == 2);
    }
    b.codec(Codec::Opus, options);
    return b.build();
}

size_t frameSize(Src& src)
{
    switch (src.pick({ 6, 3, 3, 1 })) {
    case 0:
        return src.size(1, 200);
    case 1: // Where sizes of the block and of what is around it take one more byte
        return static_cast<size_t>(127 - 16 + src.range(0, 20));
    case 2:
        return static_cast<size_t>(16383 - 20 + src.range(0, 24));
    default:
        return src.chance(1, 20) ? static_cast<size_t>(2097151 - 20 + src.range(0, 24)) : src.size(1, 60000);
    }
}

struct Recording {
    Codec codec;
    unsigned width = 1920, height = 1080;
    std::vector<Sent> frames;
    std::shared_ptr<srtc::Track> track;
};

Recording recording(Src& src, size_t most)
{
    Recording r;
    r.codec = src.oneOf({ Codec::VP8, Codec::VP9, Codec::AV1 });
    TrackParams tp;
    tp.codec = r.codec;
    tp.direction = srtc::Direction::Subscribe;
    r.track = makeTrack(tp);
    auto stated = false;
    auto timestamp = src.oneOf<uint64_t>({ 0, 90000, (1ull << 32) - 3000, 1ull << 33 }) + src.draw(100000);
    const auto w = static_cast<unsigned>(src.size(1, r.codec == Codec::VP8 ? 16383 : 65535)), h = static_cast<unsigned>(src.size(1, r.codec == Codec::VP8 ? 16383 : 65535));
    for (size_t i = 0, n = src.size(1, most); i < n; i += 1) {
        Sent s;
        s.key = i == 0 ? !src.chance(1, 6) : src.chance(1, 4);
        const auto body = src.blob(frameSize(src));
        if (s.key) {
            // All key frames state the same
            stated = true;
            if (r.codec == Codec::VP8) {
                s.data = vp8Key(src, body, w, h);
            } else if (r.codec == Codec::VP9) {
                s.data = vp9Key(src, body, w, h);
            } else {
                const auto seq = av1Sequence(src, w, h);
                s.data = { (1 << 3) | 2, static_cast<uint8_t>(seq.size()) };
                s.data.insert(s.data.end(), seq.begin(), seq.end());
                s.data.push_back(6 << 3);
                s.data.push_back(0x10); // show_frame, key
                s.data.insert(s.data.end(), body.begin(), body.end());
            }
        } else if (r.codec == Codec::VP8) {
            s.data = { 0x31, 0x02, 0x00 };
            s.data.insert(s.data.end(), body.begin(), body.end());
        } else if (r.codec == Codec::VP9) {
            s.data = { 0x86 };
            s.data.insert(s.data.end(), body.begin(), body.end());
        } else {
            s.data = { 6 << 3, 0x30 };
            s.data.insert(s.data.end(), body.begin(), body.end());
        }
        s.timestamp = timestamp;
        timestamp += src.pick({ 8, 1 }) ? src.oneOf<uint64_t>({ 0, 1, 90, 89, 90 * 127, 90 * 16384, 90 * 2097152ull, 90 * 268435456ull, 90 * 4294967296ull }) : src.oneOf<uint64_t>({ 3000, 3003, 1500, 3600 });
        r.frames.push_back(std::move(s));
    }
    if (stated) {
        r.width = w;
        r.height = h;
    }
    return r;
}

const char* tail(Codec c)
{
    return c == Codec::VP8 ? "-vp8.webm" : c == Codec::VP9 ? "-vp9.webm" : "-av1.webm";
}

std::shared_ptr<MediaWriter> makeWriter(const std::string& path, const std::shared_ptr<srtc::Track>& track)
{
    switch (track->getCodec()) {
    case Codec::VP8:
        return std::make_shared<MediaWriterVP8>(path, track);
    case Codec::VP9:
        return std::make_shared<MediaWriterVP9>(path, track);
    case Codec::AV1:
        return std::make_shared<MediaWriterAV1>(path, track);
    case Codec::Opus:
        return std::make_shared<MediaWriterOgg>(path, track);
    default:
        return std::make_shared<MediaWriterH26x>(path, track);
    }
}

void record(const std::string& path, const std::shared_ptr<srtc::Track>& track, const std::vector<Sent>& frames)
{
    auto w = makeWriter(path, track);
    w->start();
    uint64_t seq = 1000;
    for (const auto& f : frames)
        w->send(encoded(track, f.data, f.timestamp, seq++));
}

void checkWebm(Ctx& ctx, const Bytes& file, const Recording& r)
{
    const auto top = elements(ctx, "file", file.data(), file.size());
    PBT_CHECK(ctx, top.size() == 2 && top[0].id == 0x1A45DFA3 && top[1].id == 0x18538067, "a file which is not Matroska", "%zu elements", top.size());
    const auto head = elements(ctx, "header", top[0].data, top[0].size);
    const auto& type = need(ctx, head, 0x4282, "DocType");
    PBT_CHECK(ctx, std::string(type.data, type.data + type.size) == "webm", "the type of the document is wrong", "%s", "");
    const auto segment = elements(ctx, "segment", top[1].data, top[1].size);
    const auto info = elements(ctx, "info", need(ctx, segment, 0x1549A966, "Info").data, need(ctx, segment, 0x1549A966, "Info").size);
    const auto& scaleElement = need(ctx, info, 0x2AD7B1, "TimestampScale");
    const auto scale = number(scaleElement.data, scaleElement.size);
    PBT_CHECK(ctx, scale > 0, "the scale of time is zero", "%s", "");
    auto micros = [&](size_t i) { return static_cast<int64_t>(r.frames[i].timestamp - r.frames[0].timestamp) * 1000 / 90; };
    if (const auto d = find(info, 0x4489)) {
        PBT_CHECK(ctx, d->size == 8, "the duration is not a number", "%llu", static_cast<unsigned long long>(d->size));
        const auto v = number(d->data, 8);
        double f;
        memcpy(&f, &v, 8);
        const auto stated = f * static_cast<double>(scale) / 1000.0;
        const auto actual = static_cast<double>(micros(r.frames.size() - 1));
        PBT_CHECK(ctx, stated > actual - 1001 && stated < actual + 1001, "the duration is wrong", "%f, %f", stated, actual);
    }
    const auto tracks = elements(ctx, "tracks", need(ctx, segment, 0x1654AE6B, "Tracks").data, need(ctx, segment, 0x1654AE6B, "Tracks").size);
    PBT_CHECK(ctx, tracks.size() == 1 && tracks[0].id == 0xAE, "not one track", "%zu", tracks.size());
    const auto entry = elements(ctx, "track", tracks[0].data, tracks[0].size);
    const auto& codec = need(ctx, entry, 0x86, "CodecID");
    const auto name = std::string(codec.data, codec.data + codec.size);
    PBT_CHECK(ctx, name == (r.codec == Codec::VP8 ? "V_VP8" : r.codec == Codec::VP9 ? "V_VP9" : "V_AV1"), "the codec is wrong", "%s", name.c_str());
    const auto& kind = need(ctx, entry, 0x83, "TrackType");
    PBT_CHECK(ctx, number(kind.data, kind.size) == 1, "the type of the track is wrong", "%s", "");
    const auto& numberElement = need(ctx, entry, 0xD7, "TrackNumber");
    const auto trackNumber = number(numberElement.data, numberElement.size);
    const auto video = elements(ctx, "video", need(ctx, entry, 0xE0, "Video").data, need(ctx, entry, 0xE0, "Video").size);
    const auto& w = need(ctx, video, 0xB0, "PixelWidth");
    const auto& h = need(ctx, video, 0xBA, "PixelHeight");
    PBT_CHECK(ctx, number(w.data, w.size) == r.width && number(h.data, h.size) == r.height, "the size of the picture is wrong", "%llux%llu, in the frames %ux%u",
              static_cast<unsigned long long>(number(w.data, w.size)), static_cast<unsigned long long>(number(h.data, h.size)), r.width, r.height);

    size_t count = 0;
    for (const auto& c : segment) {
        if (c.id != 0x1F43B675)
            continue;
        const auto list = elements(ctx, "cluster", c.data, c.size);
        const auto& tc = need(ctx, list, 0xE7, "Timestamp");
        PBT_CHECK(ctx, tc.size >= 1 && tc.size <= 8, "the timestamp of a cluster is not a number", "%llu", static_cast<unsigned long long>(tc.size));
        const auto base = number(tc.data, tc.size);
        for (const auto& b : list) {
            if (b.id != 0xA3)
                continue;
            PBT_CHECK(ctx, b.size >= 4 && b.data[0] == (0x80 | trackNumber), "a block is wrong", "%zu", count);
            PBT_CHECK(ctx, count < r.frames.size(), "more frames in the file than were sent", "%zu", count);
            const auto& f = r.frames[count];
            PBT_CHECK(ctx, Bytes(b.data + 4, b.data + b.size) == f.data, "a frame in the file is not as sent", "%zu: %llu bytes, sent %zu", count, static_cast<unsigned long long>(b.size - 4), f.data.size());
            PBT_CHECK(ctx, (b.data[3] & 0x80) == (f.key || count == 0 ? 0x80 : 0), "a key frame is not marked, or another is", "%zu", count);
            PBT_CHECK(ctx, (b.data[3] & 0x06) == 0, "a block claims lacing", "%zu", count);
            const auto t = (static_cast<int64_t>(base) + static_cast<int16_t>(number(b.data + 1, 2))) * static_cast<int64_t>(scale) / 1000;
            PBT_CHECK(ctx, t <= micros(count) && t > micros(count) - 1000, "the time of a frame is wrong", "%zu: %lld, %lld", count, static_cast<long long>(t), static_cast<long long>(micros(count)));
            count += 1;
        }
    }
    PBT_CHECK(ctx, count == r.frames.size(), "frames are missing from the file", "%zu of %zu", count, r.frames.size());
}

LoadedMedia load(Ctx& ctx, const Scratch& file, bool print)
{
    try {
        return MediaReader::create(file.path)->loadMedia(print);
    } catch (const ToolExit&) {
        ctx.fail("a reader refused a valid file", "%s", file.path.c_str());
    }
}

void noteRecording(Ctx& ctx, const Recording& r)
{
    ctx.note("%s %ux%u", name(r.codec), r.width, r.height);
    for (const auto& f : r.frames)
        ctx.note("  %s %zu bytes at %llu", f.key ? "key" : "delta", f.data.size(), static_cast<unsigned long long>(f.timestamp));
}

void webm(Src& src, Ctx& ctx)
{
    const auto r = recording(src, 8);
    noteRecording(ctx, r);
    Scratch file(tail(r.codec));
    record(file.path, r.track, r.frames);
    const auto bytes = file.read();
    checkWebm(ctx, bytes, r);

    const auto m = load(ctx, file, src.chance(1, 4));
    PBT_CHECK(ctx, m.codec == r.codec, "the codec read is another", "%s", "");
    PBT_CHECK(ctx, m.frame_list.size() == r.frames.size(), "not as many frames read as were written", "%zu, %zu", m.frame_list.size(), r.frames.size());
    for (size_t i = 0; i < r.frames.size(); i += 1) {
        PBT_CHECK(ctx, toBytes(m.frame_list[i].frame) == r.frames[i].data, "a frame is not read as written", "%zu", i);
        const auto t = static_cast<int64_t>(r.frames[i].timestamp - r.frames[0].timestamp) * 1000 / 90;
        PBT_CHECK(ctx, m.frame_list[i].pts_usec <= t && m.frame_list[i].pts_usec > t - 1000, "the time of a frame is not read as written", "%zu: %lld, %lld", i, static_cast<long long>(m.frame_list[i].pts_usec), static_cast<long long>(t));
    }
    if (r.frames.size() > 2)
        ctx.nontrivial();
    ctx.tag("webm");
}

//----- Files of other writers

void filler(Src& src, Bytes& out)
{
    while (src.chance(1, 4))
        ebml(src, out, src.oneOf<uint32_t>({ 0xEC, 0x114D9B74, 0x1254C367, 0xBF, 0x4D80 }), src.blob(src.size(0, 140)));
}

struct Foreign {
    Codec codec;
    Bytes bytes;
    std::vector<std::pair<int64_t, Bytes>> frames;
};

Foreign foreignFile(Src& src)
{
    Foreign f;
    f.codec = src.oneOf({ Codec::VP8, Codec::VP9, Codec::AV1 });
    const std::string id = f.codec == Codec::VP8 ? "V_VP8" : f.codec == Codec::VP9 ? "V_VP9" : "V_AV1";

    Bytes head;
    filler(src, head);
    ebml(src, head, 0x4286, { 1 });
    filler(src, head);
    ebml(src, head, 0x4282, { 'w', 'e', 'b', 'm' });
    filler(src, head);
    ebml(src, f.bytes, 0x1A45DFA3, head);
    if (src.chance(1, 6))
        ebml(src, f.bytes, 0xEC, src.blob(src.size(0, 200)));

    Bytes segment;
    filler(src, segment);
    const auto scale = src.pick({ 3, 1 }) ? src.oneOf<uint32_t>({ 1000, 100000, 500000, 1, 20833, 100000000 }) : 1000000;
    Bytes info;
    filler(src, info);
    if (scale != 1000000 || src.chance(1, 2))
        ebml(src, info, 0x2AD7B1, uintBytes(src, scale));
    filler(src, info);
    ebml(src, segment, 0x1549A966, info);
    filler(src, segment);

    const auto video = static_cast<uint32_t>(src.pick({ 4, 1 }) ? src.size(1, 16382) : src.size(1, 126));
    auto audio = static_cast<uint32_t>(src.size(1, 126));
    const auto hasAudio = src.chance(1, 2);
    if (audio == video)
        audio = video == 1 ? 2 : 1;
    Bytes tracks;
    auto entry = [&](uint32_t number, uint8_t type, const std::string& codec) {
        std::vector<std::pair<uint32_t, Bytes>> items = { { 0xD7, uintBytes(src, number) }, { 0x83, { type } }, { 0x86, Bytes(codec.begin(), codec.end()) }, { 0x73C5, src.blob(src.size(1, 8)) } };
        for (size_t i = items.size() - 1; i > 0; i -= 1)
            std::swap(items[i], items[src.draw(i)]);
        Bytes e;
        for (const auto& item : items) {
            filler(src, e);
            ebml(src, e, item.first, item.second);
        }
        ebml(src, tracks, 0xAE, e);
    };
    const auto audioFirst = src.chance(1, 2);
    if (hasAudio && audioFirst)
        entry(audio, 2, "A_OPUS");
    entry(video, 1, id);
    if (hasAudio && !audioFirst)
        entry(audio, 2, "A_OPUS");
    ebml(src, segment, 0x1654AE6B, tracks);

    uint64_t time = src.oneOf<uint64_t>({ 0, 0, 126, 40000, 0x7fffffffu, 0xffffff00u });
    for (size_t c = src.size(0, 4); c > 0; c -= 1) {
        Bytes cluster;
        filler(src, cluster);
        ebml(src, cluster, 0xE7, uintBytes(src, time, 8));
        for (size_t b = src.size(0, 4); b > 0; b -= 1) {
            filler(src, cluster);
            const auto offset = static_cast<int16_t>(src.chance(1, 3) ? src.range(-std::min<int64_t>(32768, static_cast<int64_t>(time)), 32767) : src.range(0, 2000));
            const auto ours = !hasAudio || !src.chance(1, 3);
            Bytes block;
            ebmlSize(src, block, ours ? video : audio, false);
            block.push_back(static_cast<uint8_t>(static_cast<uint16_t>(offset) >> 8));
            block.push_back(static_cast<uint8_t>(offset));
            block.push_back(static_cast<uint8_t>(src.oneOf({ 0x80, 0x00, 0x01, 0x08 })));
            const auto data = src.blob(src.chance(1, 8) ? 0 : frameSize(src));
            block.insert(block.end(), data.begin(), data.end());
            ebml(src, cluster, 0xA3, block);
            if (ours) {
                // In microseconds, rounded down
                const auto ticks = static_cast<int64_t>(time) + offset;
                f.frames.emplace_back(ticks / 1000 * scale + ticks % 1000 * scale / 1000, data);
            }
        }
        ebml(src, segment, 0x1F43B675, cluster);
        filler(src, segment);
        time += src.oneOf<uint64_t>({ 0, 33, 1000, 5000, 70000 });
    }
    ebml(src, f.bytes, 0x18538067, segment);
    return f;
}

void foreign(Src& src, Ctx& ctx)
{
    const auto f = foreignFile(src);
    ctx.note("%s, %zu bytes, %zu frames", name(f.codec), f.bytes.size(), f.frames.size());
    Scratch file(tail(f.codec));
    file.write(f.bytes);
    const auto m = load(ctx, file, src.chance(1, 4));
    PBT_CHECK(ctx, m.codec == f.codec, "the codec read is another", "%s", "");
    PBT_CHECK(ctx, m.frame_list.size() == f.frames.size(), "not as many frames read as are in the file", "%zu, %zu", m.frame_list.size(), f.frames.size());
    for (size_t i = 0; i < f.frames.size(); i += 1) {
        PBT_CHECK(ctx, toBytes(m.frame_list[i].frame) == f.frames[i].second, "a frame is not read as it is in the file", "%zu", i);
        const auto d = m.frame_list[i].pts_usec - f.frames[i].first;
        PBT_CHECK(ctx, d >= -1 && d <= 1, "the time of a frame is not read as it is in the file", "%zu: %lld, %lld", i, static_cast<long long>(m.frame_list[i].pts_usec), static_cast<long long>(f.frames[i].first));
    }
    if (f.frames.size() > 1)
        ctx.nontrivial();
    ctx.tag("foreign");
}

//----- H.264 and H.265

std::vector<Sent> h26xFrames(Src& src, Codec codec, size_t most, Ctx* ctx)
{
    FrameGen g(src, codec, 3, 400);
    std::vector<Sent> out;
    const auto n = src.size(1, most);
    uint64_t timestamp = 5000;
    for (size_t i = 0; i < n; i += 1) {
        Sent s;
        s.key = i == 0 || src.chance(1, 3);
        const auto f = g.next(s.key);
        // What a receiver makes of it: parameters with each key frame
        s.data = f.expected;
        s.timestamp = timestamp;
        timestamp += 3600;
        for (const auto& u : f.units) {
            if (isParams(codec, u))
                s.params.push_back(u);
            else if (isSlice(codec, u))
                s.slices.push_back(u);
        }
        if (ctx)
            ctx->note("%s", f.describe.c_str());
        out.push_back(std::move(s));
    }
    return out;
}

void h26x(Src& src, Ctx& ctx)
{
    const auto codec = src.oneOf({ Codec::H264, Codec::H265 });
    TrackParams tp;
    tp.codec = codec;
    tp.direction = srtc::Direction::Subscribe;
    const auto frames = h26xFrames(src, codec, 8, &ctx);
    Scratch file(codec == Codec::H264 ? ".h264" : ".h265");
    record(file.path, makeTrack(tp), frames);
    Bytes all;
    for (const auto& f : frames)
        all.insert(all.end(), f.data.begin(), f.data.end());
    PBT_CHECK(ctx, file.read() == all, "the file is not the frames sent", "%zu bytes, %zu sent", file.read().size(), all.size());

    const auto m = load(ctx, file, src.chance(1, 4));
    PBT_CHECK(ctx, m.codec == codec, "the codec read is another", "%s", "");
    PBT_CHECK(ctx, m.frame_list.size() == frames.size(), "not as many frames read as were written", "%zu, %zu", m.frame_list.size(), frames.size());
    auto changed = false;
    for (size_t i = 0; i < frames.size(); i += 1) {
        const auto& got = m.frame_list[i];
        std::vector<Bytes> slices;
        for (const auto& u : nalus(toBytes(got.frame)))
            if (!u.empty() && isSlice(codec, u))
                slices.push_back(u);
        PBT_CHECK(ctx, slices == frames[i].slices, "a frame is not read as written", "%zu: %zu slices, %zu", i, slices.size(), frames[i].slices.size());
        if (frames[i].key) {
            std::vector<Bytes> params;
            for (const auto& c : got.csd)
                for (const auto& u : nalus(toBytes(c)))
                    params.push_back(u);
            PBT_CHECK(ctx, params == frames[i].params, "a key frame is not read with its parameters", "%zu: %zu, %zu", i, params.size(), frames[i].params.size());
            changed = changed || frames[i].params != frames[0].params;
        }
        PBT_CHECK(ctx, got.pts_usec == static_cast<int64_t>(i) * 40000, "the time of a frame is wrong", "%zu: %lld", i, static_cast<long long>(got.pts_usec));
    }
    if (changed)
        ctx.tag("parameters changed");
    if (frames.size() > 2)
        ctx.nontrivial();
    ctx.tag(codec == Codec::H264 ? "h264" : "h265");
}

//----- Ogg, after RFC 3533 and RFC 7845

uint32_t oggCrc(const Bytes& page)
{
    uint32_t c = 0;
    for (size_t i = 0; i < page.size(); i += 1) {
        c ^= static_cast<uint32_t>(i >= 22 && i < 26 ? 0 : page[i]) << 24;
        for (int k = 0; k < 8; k += 1)
            c = c & 0x80000000u ? (c << 1) ^ 0x04c11db7u : c << 1;
    }
    return c;
}

uint64_t little(const uint8_t* p, size_t n)
{
    uint64_t v = 0;
    for (size_t i = n; i > 0; i -= 1)
        v = (v << 8) | p[i - 1];
    return v;
}

// In samples at 48 kHz, from the first byte (and the second one)
uint64_t opusSamples(const Bytes& b)
{
    const auto config = b[0] >> 3;
    uint64_t frame;
    if (config < 12)
        frame = std::initializer_list<uint64_t>{ 480, 960, 1920, 2880 }.begin()[config & 3];
    else if (config < 16)
        frame = config & 1 ? 960 : 480;
    else
        frame = 120u << (config & 3);
    switch (b[0] & 3) {
    case 0:
        return frame;
    case 1:
    case 2:
        return 2 * frame;
    default:
        return b.size() > 1 ? (b[1] & 0x3f) * frame : 0;
    }
}

std::vector<Sent> opusFrames(Src& src, size_t most)
{
    std::vector<Sent> out;
    const auto toc = static_cast<uint8_t>(src.draw(31) << 3);
    uint64_t timestamp = src.draw(100000);
    for (size_t i = 0, n = src.size(1, most); i < n; i += 1) {
        Sent s;
        size_t size;
        switch (src.pick({ 5, 2, 1 })) {
        case 0:
            size = src.size(2, 200);
            break;
        case 1:
            size = src.size(1, 4) * 255 + static_cast<size_t>(src.range(-1, 1));
            break;
        default:
            size = src.size(2, 1275);
            break;
        }
        s.data = src.blob(size);
        s.data[0] = static_cast<uint8_t>(toc | (src.chance(1, 6) ? 1 : 0));
        if (src.chance(1, 12)) {
            s.data[0] = static_cast<uint8_t>((16 << 3) | 3); // 2.5 ms frames
            s.data[1] = static_cast<uint8_t>(src.size(1, 48));
        }
        s.timestamp = timestamp;
        timestamp += opusSamples(s.data);
        out.push_back(std::move(s));
    }
    return out;
}

void checkOgg(Ctx& ctx, const Bytes& file, const std::vector<Sent>& frames, unsigned channels)
{
    std::vector<Bytes> packets;
    std::vector<size_t> pageOf; // Where a packet begins
    Bytes open;
    auto isOpen = false;
    size_t pos = 0, page = 0, openPage = 0;
    uint32_t serial = 0;
    uint64_t total = 0, last = 0;
    while (pos < file.size()) {
        PBT_CHECK(ctx, file.size() - pos >= 27 && memcmp(&file[pos], "OggS", 4) == 0 && file[pos + 4] == 0, "a page does not begin where it should", "%zu", pos);
        const auto segments = file[pos + 26];
        PBT_CHECK(ctx, file.size() - pos >= 27u + segments, "a page is cut", "%zu", pos);
        size_t body = 0;
        for (size_t i = 0; i < segments; i += 1)
            body += file[pos + 27 + i];
        const auto size = 27u + segments + body;
        PBT_CHECK(ctx, file.size() - pos >= size, "a page is cut", "%zu", pos);
        const Bytes p(file.begin() + static_cast<long>(pos), file.begin() + static_cast<long>(pos + size));
        PBT_CHECK(ctx, little(&p[22], 4) == oggCrc(p), "the checksum of a page is wrong", "%zu", page);
        PBT_CHECK(ctx, little(&p[18], 4) == page, "the number of a page is wrong", "%zu: %llu", page, static_cast<unsigned long long>(little(&p[18], 4)));
        if (page == 0)
            serial = static_cast<uint32_t>(little(&p[14], 4));
        PBT_CHECK(ctx, little(&p[14], 4) == serial, "the number of the stream changes", "%zu", page);
        PBT_CHECK(ctx, ((p[5] & 2) != 0) == (page == 0), "a page says that it is the first, or the first does not", "%zu", page);
        PBT_CHECK(ctx, ((p[5] & 1) != 0) == isOpen, "a page says that it continues a packet, or does not", "%zu", page);
        size_t at = 27u + segments;
        auto completed = false;
        for (size_t i = 0; i < segments; i += 1) {
            if (!isOpen) {
                isOpen = true;
                openPage = page;
                open.clear();
            }
            open.insert(open.end(), p.begin() + static_cast<long>(at), p.begin() + static_cast<long>(at + p[27 + i]));
            at += p[27 + i];
            if (p[27 + i] < 255) {
                packets.push_back(open);
                pageOf.push_back(openPage);
                isOpen = false;
                completed = true;
                if (packets.size() > 2)
                    total += opusSamples(open);
            }
        }
        const auto granule = little(&p[6], 8);
        if (completed) {
            PBT_CHECK(ctx, granule == total, "the position of a page is not the samples up to its end", "page %zu: %llu, %llu", page, static_cast<unsigned long long>(granule), static_cast<unsigned long long>(total));
            last = granule;
        } else {
            PBT_CHECK(ctx, granule == ~0ull, "a page which ends no packet has a position", "%zu", page);
        }
        pos += size;
        page += 1;
    }
    (void)last;
    PBT_CHECK(ctx, !isOpen, "the last packet is cut", "%s", "");
    PBT_CHECK(ctx, packets.size() >= 2, "the headers are missing", "%zu", packets.size());
    const auto& head = packets[0];
    PBT_CHECK(ctx, head.size() == 19 && memcmp(head.data(), "OpusHead", 8) == 0 && head[8] == 1, "the first header is wrong", "%zu bytes", head.size());
    PBT_CHECK(ctx, channels ? head[9] == channels : head[9] == 1 || head[9] == 2, "the number of channels is wrong", "%u, %u", head[9], channels);
    PBT_CHECK(ctx, little(&head[12], 4) == 48000 && head[18] == 0, "the first header is wrong", "%s", "rate or mapping");
    const auto& tags = packets[1];
    auto fine = tags.size() >= 16 && memcmp(tags.data(), "OpusTags", 8) == 0;
    if (fine) {
        size_t at = 8;
        const auto vendor = little(&tags[at], 4);
        fine = vendor <= tags.size() - 16;
        if (fine) {
            at += 4 + vendor;
            auto n = little(&tags[at], 4);
            at += 4;
            for (; fine && n > 0; n -= 1) {
                fine = tags.size() - at >= 4 && little(&tags[at], 4) <= tags.size() - at - 4;
                if (fine)
                    at += 4 + little(&tags[at], 4);
            }
        }
    }
    PBT_CHECK(ctx, fine, "the second header is not there", "%zu bytes", tags.size());
    PBT_CHECK(ctx, pageOf[1] == 1, "the second header does not begin on the second page", "%zu", pageOf[1]);
    PBT_CHECK(ctx, packets.size() < 3 || pageOf[2] > pageOf[1], "audio begins on the page of a header", "%s", "");
    PBT_CHECK(ctx, packets.size() == frames.size() + 2, "not as many packets in the file as were sent", "%zu, %zu", packets.size() - 2, frames.size());
    for (size_t i = 0; i < frames.size(); i += 1)
        PBT_CHECK(ctx, packets[i + 2] == frames[i].data, "a packet in the file is not as sent", "%zu", i);
}

void ogg(Src& src, Ctx& ctx)
{
    unsigned channels;
    uint32_t minptime;
    const auto track = opusTrack(src, channels, minptime);
    const auto frames = opusFrames(src, src.chance(1, 4) ? 300 : 20);
    ctx.note("channels %u, minptime %u, %zu packets", channels, minptime, frames.size());
    Scratch file(".ogg");
    record(file.path, track, frames);
    checkOgg(ctx, file.read(), frames, channels);
    if (frames.size() > 2)
        ctx.nontrivial();
    ctx.tag("ogg");
}

//----- Damaged files

void damaged(Src& src, Ctx& ctx)
{
    Bytes b;
    std::string ending;
    switch (src.pick({ 4, 1, 2, 1 })) {
    case 0: {
        const auto f = foreignFile(src);
        b = f.bytes;
        ending = tail(f.codec);
        break;
    }
    case 1: {
        const auto r = recording(src, 3);
        Scratch file(tail(r.codec));
        record(file.path, r.track, r.frames);
        b = file.read();
        ending = tail(r.codec);
        break;
    }
    case 2: {
        const auto codec = src.oneOf({ Codec::H264, Codec::H265 });
        for (const auto& f : h26xFrames(src, codec, 3, nullptr))
            b.insert(b.end(), f.data.begin(), f.data.end());
        ending = codec == Codec::H264 ? ".h264" : ".h265";
        break;
    }
    default:
        b = src.chance(1, 2) ? src.bytes(src.size(0, 40)) : src.blob(src.size(0, 300));
        ending = src.oneOf<const char*>({ "-vp8.webm", "-vp9.webm", "-av1.webm", ".h264", ".h265" });
        break;
    }
    for (size_t n = src.size(0, 5); n > 0 && !b.empty(); n -= 1) {
        // The structure is mostly at the beginning
        const auto at = src.draw(src.chance(1, 2) ? std::min<size_t>(b.size() - 1, 150) : b.size() - 1);
        switch (src.pick({ 3, 2, 2, 2, 1, 1, 1 })) {
        case 0:
            b[at] = src.u8();
            break;
        case 1:
            b[at] = src.oneOf<uint8_t>({ 0xff, 0x01, 0x00, 0x80, 0x81, 0x08, 0x40, 0x7f });
            break;
        case 2:
            b[at] ^= static_cast<uint8_t>(1u << src.draw(7));
            break;
        case 3:
            b.resize(at);
            break;
        case 4:
            b.erase(b.begin() + static_cast<long>(at), b.begin() + static_cast<long>(std::min(b.size(), at + src.size(1, 8))));
            break;
        case 5: {
            const auto x = src.chance(1, 2) ? Bytes{ 0x01, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff } : src.blob(src.size(1, 9));
            b.insert(b.begin() + static_cast<long>(at), x.begin(), x.end());
            break;
        }
        default: { // Numbers become large
            for (size_t i = at; i < std::min(b.size(), at + 4); i += 1)
                b[i] = 0xff;
            break;
        }
        }
    }
    Scratch file(ending);
    file.write(b);
    ctx.note("%s, %zu bytes", ending.c_str(), b.size());
    ctx.tag("damaged");
    try {
        const auto m = MediaReader::create(file.path)->loadMedia(src.chance(1, 2));
        ctx.tag(m.frame_list.empty() ? "nothing read" : "read");
        size_t total = 0;
        for (const auto& f : m.frame_list) {
            total += f.frame.size();
            for (const auto& c : f.csd)
                total += c.size();
        }
        if (!m.frame_list.empty())
            ctx.nontrivial();
    } catch (const ToolExit& e) {
        PBT_CHECK(ctx, e.code != 0, "a damaged file is refused with success", "%s", "");
        ctx.tag("refused");
        ctx.nontrivial();
    }
}

//----- The end of a recording

void ending(Src& src, Ctx& ctx)
{
    std::shared_ptr<srtc::Track> track;
    Recording r;
    std::vector<Sent> frames;
    std::string file;
    unsigned channels = 0;
    uint32_t minptime;
    switch (src.pick({ 2, 2, 2 })) {
    case 0:
        r = recording(src, 5);
        track = r.track;
        frames = r.frames;
        file = tail(r.codec);
        noteRecording(ctx, r);
        break;
    case 1: {
        TrackParams tp;
        tp.codec = src.oneOf({ Codec::H264, Codec::H265 });
        tp.direction = srtc::Direction::Subscribe;
        track = makeTrack(tp);
        frames = h26xFrames(src, tp.codec, 5, &ctx);
        file = tp.codec == Codec::H264 ? ".h264" : ".h265";
        break;
    }
    default:
        track = opusTrack(src, channels, minptime);
        frames = opusFrames(src, 8);
        file = ".ogg";
        break;
    }
    const auto none = src.chance(1, 10); // Nothing arrived
    Scratch out(file);
    const auto plan = conc::plan(src);
    const auto another = src.chance(1, 2);
    conc::begin(plan);
    {
        auto w = makeWriter(out.path, track);
        w->start();
        if (!none) {
            auto sendAll = [&] {
                uint64_t seq = 1;
                for (const auto& f : frames)
                    w->send(encoded(track, f.data, f.timestamp, seq++));
            };
            if (another) {
                std::thread t(sendAll);
                t.join();
            } else {
                sendAll();
            }
        }
        w.reset();
    }
    conc::end();
    ctx.note("%zu frames, %llu switches", none ? 0 : frames.size(), static_cast<unsigned long long>(conc::switches()));
    if (none) {
        ctx.tag("nothing recorded");
        PBT_CHECK(ctx, out.read().empty(), "a file of nothing", "%zu bytes", out.read().size());
        return;
    }
    if (track->getCodec() == Codec::Opus) {
        checkOgg(ctx, out.read(), frames, channels);
    } else if (!r.frames.empty()) {
        checkWebm(ctx, out.read(), r);
    } else {
        Bytes all;
        for (const auto& f : frames)
            all.insert(all.end(), f.data.begin(), f.data.end());
        PBT_CHECK(ctx, out.read() == all, "the file is not the frames sent", "%zu bytes, %zu sent", out.read().size(), all.size());
    }
    if (conc::switches() > 2)
        ctx.nontrivial();
    ctx.tag("ending");
}

} // namespace

int main(int argc, char** argv)
{
    return run(argc, argv,
               { "P26",
                 "webm, h26x, ogg: three frames or more; foreign: two or more; damaged: refused, or frames read; ending: threads switched more than twice",
                 { "frames are as a receiver gives them, their times do not go back", "one set of parameters at a time (H.264, H.265)", "simple blocks without lacing (files of other writers)" },
                 { { "webm", 4, webm }, { "foreign", 3, foreign }, { "h26x", 3, h26x }, { "ogg", 3, ogg }, { "damaged", 6, damaged }, { "ending", 4, ending } } });
}
