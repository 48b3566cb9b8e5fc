// P27: header-extension bookkeeping states the layers and times it was given
#include "rig_setup.h"

#include "srtc/extension_map.h"
#include "srtc/rtp_extension_builder.h"
#include "srtc/simulcast_layer.h"

using namespace pbt;
using namespace gen;
using sref::cat;
using sref::num;

namespace
{

// An independent reader of
// https://webrtc.googlesource.com/src/+/refs/heads/main/docs/native-code/rtp-hdrext/video-layers-allocation00
struct Allocation {
    bool ok = false;
    unsigned stream = 0, streams = 0;
    struct Spatial {
        unsigned stream, spatial;
        std::vector<uint64_t> rates; // by temporal layer
        unsigned width = 0, height = 0, fps = 0;
    };
    std::vector<Spatial> spatial;
    bool sizes = false;
};

Allocation readAllocation(const Bytes& b)
{
    Allocation a;
    size_t at = 0;
    const auto left = [&] { return b.size() - at; };
    if (b.empty())
        return a;
    a.stream = b[0] >> 6;
    a.streams = (b[0] >> 4 & 3) + 1;
    unsigned masks[4] = { b[0] & 15u, b[0] & 15u, b[0] & 15u, b[0] & 15u };
    at = 1;
    if ((b[0] & 15) == 0) {
        for (unsigned i = 0; i < a.streams; i += 2) {
            if (!left())
                return a;
            masks[i] = b[at] >> 4;
            if (i + 1 < 4)
                masks[i + 1] = b[at] & 15;
            at += 1;
        }
    }
    for (unsigned i = 0; i < a.streams; i += 1)
        for (unsigned s = 0; s < 4; s += 1)
            if (masks[i] >> s & 1)
                a.spatial.push_back({ i, s, {} });
    for (size_t i = 0; i < a.spatial.size(); i += 1) {
        const auto byte = at + i / 4;
        if (byte >= b.size())
            return a;
        a.spatial[i].rates.resize((b[byte] >> (6 - 2 * (i % 4)) & 3) + 1);
    }
    at += (a.spatial.size() + 3) / 4;
    for (auto& s : a.spatial)
        for (auto& r : s.rates) {
            r = 0;
            for (unsigned shift = 0;; shift += 7) {
                if (!left() || shift > 56)
                    return a;
                const auto v = b[at++];
                r |= static_cast<uint64_t>(v & 0x7f) << shift;
                if (!(v & 0x80))
                    break;
            }
        }
    if (left()) {
        a.sizes = true;
        for (auto& s : a.spatial) {
            if (left() < 5)
                return a;
            s.width = rig::be16(&b[at]) + 1u;
            s.height = rig::be16(&b[at + 2]) + 1u;
            s.fps = b[at + 4];
            at += 5;
        }
    }
    a.ok = !left();
    return a;
}

void judge(Ctx& ctx, const Bytes& b, unsigned stream, const std::vector<srtc::SimulcastLayer>& layers)
{
    const auto a = readAllocation(b);
    PBT_CHECK(ctx, a.ok, "layer allocation can't be read", "%s", hex(b).c_str());
    PBT_CHECK(ctx, a.streams == layers.size() && a.spatial.size() == layers.size(), "number of streams", "%u with %zu layers, for %zu", a.streams, a.spatial.size(), layers.size());
    PBT_CHECK(ctx, a.stream == stream, "index of the stream", "%u, expected %u", a.stream, stream);
    PBT_CHECK(ctx, a.sizes, "no sizes", "%s", hex(b).c_str());
    for (size_t i = 0; i < layers.size(); i += 1) {
        const auto& s = a.spatial[i];
        const auto& l = layers[i];
        PBT_CHECK(ctx, s.stream == i && s.spatial == 0 && s.rates.size() == 1, "layers of a stream", "%u %u %zu", s.stream, s.spatial, s.rates.size());
        PBT_CHECK(ctx, s.rates[0] == l.kilobits_per_second, "bit rate", "%llu, configured %u", static_cast<unsigned long long>(s.rates[0]), l.kilobits_per_second);
        PBT_CHECK(ctx, s.width == l.width && s.height == l.height, "size", "%ux%u, configured %ux%u", s.width, s.height, l.width, l.height);
        PBT_CHECK(ctx, s.fps == std::min<unsigned>(l.frames_per_second, 255), "frame rate", "%u, configured %u", s.fps, l.frames_per_second);
    }
}

srtc::SimulcastLayer genLayer(Src& src, const std::string& name)
{
    srtc::SimulcastLayer l;
    l.name = name;
    l.width = static_cast<uint16_t>(src.oneOf<int64_t>({ 320, 1920, 256, 65535, src.range(1, 65535) }));
    l.height = static_cast<uint16_t>(src.oneOf<int64_t>({ 180, 1080, 256, 65535, src.range(1, 65535) }));
    l.frames_per_second = static_cast<uint16_t>(src.oneOf<int64_t>({ 30, 60, 255, 256, src.range(0, 65535) }));
    l.kilobits_per_second = static_cast<uint32_t>(src.oneOf<int64_t>({ 500, 127, 128, 16383, 16384, 2097151, 2097152, 268435455, 268435456, 0xffffffffll, src.range(0, 0xffffffffll), src.range(0, 5000) }));
    return l;
}

void allocation(Src& src, Ctx& ctx)
{
    srtc::ByteBuffer buf;
    for (size_t n = src.size(1, 3); n > 0; n -= 1) { // the buffer is used again
        std::vector<srtc::SimulcastLayer> layers;
        for (size_t i = src.size(0, 5); i > 0; i -= 1)
            layers.push_back(genLayer(src, "n"));
        const auto stream = src.size(0, 4);
        srtc::buildGoogleVLA(buf, static_cast<uint8_t>(stream), layers);
        if (layers.empty() || layers.size() > 4 || stream > 3)
            PBT_CHECK(ctx, buf.empty(), "allocation which can't be stated", "%zu layers, stream %zu: %s", layers.size(), stream, hex(toBytes(buf)).c_str());
        else {
            judge(ctx, toBytes(buf), static_cast<unsigned>(stream), layers);
            ctx.nontrivial();
        }
        ctx.note("%zu layers, stream %zu: %s", layers.size(), stream, hex(toBytes(buf)).c_str());
    }
}

void map(Src& src, Ctx& ctx)
{
    auto held = std::make_unique<srtc::ExtensionMap>();
    std::vector<std::pair<uint8_t, std::string>> model;
    const std::vector<std::string> names = { "urn:a", "urn:b", "urn:c", "urn:ab", "URN:a", "" };
    size_t found = 0, again = 0;
    std::optional<size_t> last;
    for (size_t n = src.size(1, 40); n > 0; n -= 1) {
        switch (src.pick({ 4, 5, 5, 1 })) {
        case 0: {
            const auto id = static_cast<uint8_t>(src.chance(9, 10) ? src.range(1, 6) : src.range(1, 255));
            const auto& name = names[src.size(0, names.size() - (src.chance(1, 10) ? 1 : 2))];
            held->add(id, name);
            model.emplace_back(id, name);
            break;
        }
        case 1: {
            const auto& name = src.elem(names);
            unsigned expected = 0;
            for (const auto& e : model)
                if (e.second == name) {
                    expected = e.first;
                    break;
                }
            const auto id = held->findByName(name);
            PBT_CHECK(ctx, id == expected, "number of a name", "%s: %u, expected %u of %zu", name.c_str(), id, expected, model.size());
            found += id ? 1 : 0;
            again += last && *last == id ? 1 : 0;
            last = id;
            break;
        }
        case 2: {
            const auto id = static_cast<uint8_t>(src.range(0, 7));
            std::string expected;
            for (const auto& e : model)
                if (e.first == id) {
                    expected = e.second;
                    break;
                }
            const auto name = held->findById(id);
            PBT_CHECK(ctx, name == expected, "name of a number", "%u: %s, expected %s of %zu", id, name.c_str(), expected.c_str(), model.size());
            found += name.empty() ? 0 : 1;
            last = id;
            break;
        }
        default:
            if (src.chance(1, 2)) {
                held->clear();
                model.clear();
            } else {
                held = std::make_unique<srtc::ExtensionMap>(*held); // media hold copies
            }
        }
    }
    if (found >= 2)
        ctx.nontrivial();
    ctx.tagN("found", found);
    ctx.note("%zu entries at the end, %zu look-ups found something, %zu the same as before", model.size(), found, again);
}

void builder(Src& src, Ctx& ctx)
{
    std::vector<std::pair<uint8_t, Bytes>> model;
    auto b = std::make_unique<srtc::RtpExtensionBuilder>();
    const auto find = [&](uint8_t id) {
        return std::find_if(model.begin(), model.end(), [&](const auto& e) { return e.first == id; });
    };
    const auto inspect = [&](const srtc::RtpExtension& e) {
        PBT_CHECK(ctx, e.empty() == model.empty(), "empty", "%zu elements", model.size());
        for (unsigned id = 1; id < 256; id += 1) {
            const auto it = find(static_cast<uint8_t>(id));
            const auto v = e.findAny(static_cast<uint8_t>(id));
            PBT_CHECK(ctx, v.has_value() == (it != model.end()), "element", "%u is %s", id, v ? "there" : "missing");
            if (v)
                PBT_CHECK(ctx, Bytes(v->ptr, v->ptr + v->size) == it->second, "value", "%u: %zu bytes, expected %s", id, v->size, hex(it->second).c_str());
            const auto as = [&](size_t size) -> std::optional<uint64_t> {
                if (it == model.end() || it->second.size() < size)
                    return {};
                uint64_t value = 0;
                for (size_t i = 0; i < size; i += 1)
                    value = value << 8 | it->second[i];
                return value;
            };
            const auto u16 = e.findU16(static_cast<uint8_t>(id));
            const auto u32 = e.findU32(static_cast<uint8_t>(id));
            const auto u64 = e.findU64(static_cast<uint8_t>(id));
            PBT_CHECK(ctx, u16.has_value() == as(2).has_value() && u16.value_or(0) == as(2).value_or(0), "16 bits", "%u", id);
            PBT_CHECK(ctx, u32.has_value() == as(4).has_value() && u32.value_or(0) == as(4).value_or(0), "32 bits", "%u", id);
            PBT_CHECK(ctx, u64.has_value() == as(8).has_value() && u64.value_or(0) == as(8).value_or(0), "64 bits", "%u", id);
        }
    };
    size_t replaced = 0, rebuilt = 0;
    for (size_t n = src.size(1, 16); n > 0; n -= 1) {
        const auto id = static_cast<uint8_t>(src.chance(2, 3) ? src.range(1, 8) : src.range(1, 255));
        const auto has = find(id) != model.end();
        PBT_CHECK(ctx, b->contains(id) == has, "contains", "%u: %d", id, has);
        switch (src.pick({ 3, 3, 1, 1, 1, 3, 2 })) {
        case 0:
        case 1: {
            if (has)
                break;
            const auto v = src.blob(src.oneOf<size_t>({ 0, 2, src.size(1, 20), 255, src.size(250, 300) }));
            if (src.chance(1, 2))
                b->addBinaryValue(id, toBuffer(v));
            else
                b->addStringValue(id, std::string(v.begin(), v.end()));
            model.emplace_back(id, Bytes(v.begin(), v.begin() + static_cast<long>(std::min<size_t>(v.size(), 255))));
            break;
        }
        case 2: {
            const auto v = src.u16();
            if (!has) {
                b->addU16Value(id, v);
                model.emplace_back(id, num(v, 2));
            }
            break;
        }
        case 3: {
            const auto v = src.u32();
            if (!has) {
                b->addU32Value(id, v);
                model.emplace_back(id, num(v, 4));
            }
            break;
        }
        case 4: {
            const auto v = src.u64();
            if (!has) {
                b->addU64Value(id, v);
                model.emplace_back(id, num(v, 8));
            }
            break;
        }
        case 5: {
            const auto v = src.u16();
            if (has && find(id)->second.size() != 2)
                break; // not meant for it
            b->addOrReplaceU16Value(id, v);
            if (has)
                find(id)->second = num(v, 2);
            else
                model.emplace_back(id, num(v, 2));
            replaced += has ? 1 : 0;
            break;
        }
        default: {
            const auto e = b->build();
            inspect(e);
            const auto copy = e.copy();
            inspect(copy);
            b.reset(new srtc::RtpExtensionBuilder(srtc::RtpExtensionBuilder::from(e)));
            rebuilt += 1;
        }
        }
    }
    inspect(b->build());
    if (model.size() > 2 && (replaced || rebuilt))
        ctx.nontrivial();
    ctx.note("%zu elements, %zu replaced, %zu times from an extension", model.size(), replaced, rebuilt);
}

// Publishing connections: what their packets say
void connection(Src& src, Ctx& ctx)
{
    rig::Duo d(src.chance(1, 2));
    rig::Spec s;
    s.bwe = src.chance(1, 3);
    s.absCapture = src.chance(2, 3);
    s.rtx = src.chance(1, 2);
    const std::vector<std::string> all = { "lo", "mid", "hi", "max" };
    s.layers.assign(all.begin(), all.begin() + static_cast<long>(src.size(1, 4)));
    rig::AnswerOptions o;
    // Some of them, in some order
    auto left = s.layers;
    for (size_t n = src.size(1, s.layers.size()); n > 0; n -= 1) {
        const auto i = src.size(0, left.size() - 1);
        o.rids.push_back(left[i]);
        left.erase(left.begin() + static_cast<long>(i));
    }
    const auto e = d.start(s, o);
    PBT_CHECK(ctx, !e.isError(), "set up", "%s\n%s\n%s", e.message.c_str(), d.made.sdp.c_str(), d.answer.c_str());
    d.world.link = [&](const auto&, const auto&, const auto&) { return std::vector<int64_t>{ 1000 }; };
    PBT_CHECK(ctx, d.connect(), "connect", "not connected");

    std::map<std::string, std::map<std::string, unsigned>> ids; // by media, then name
    for (const auto& m : d.made.info.media)
        for (const auto& x : m.extensions)
            ids[m.type][x.second] = static_cast<unsigned>(x.first);
    std::map<uint32_t, std::shared_ptr<srtc::Track>> trackOf;
    std::vector<srtc::SimulcastLayer> layers;
    std::map<uint32_t, unsigned> indexOf;
    for (const auto& t : d.tracks) {
        trackOf[t->getSSRC()] = t;
        if (t->isSimulcast()) {
            indexOf[t->getSSRC()] = static_cast<unsigned>(layers.size());
            layers.push_back(*t->getSimulcastLayer());
        }
    }
    PBT_CHECK(ctx, layers.size() == o.rids.size(), "layers", "%zu, %zu were accepted", layers.size(), o.rids.size());

    struct Frame {
        uint64_t ntp;
        bool key;
        size_t before; // packets of the stream sent before
        std::vector<srtc::SimulcastLayer> layers;
    };
    std::map<std::pair<uint32_t, uint32_t>, std::vector<Bytes>> packets; // by source and timestamp
    std::map<uint32_t, size_t> count;
    std::map<uint32_t, std::vector<std::pair<uint32_t, Frame>>> frames; // by source, in order
    d.peer.onRtp = [&](const rig::DtlsPeer::Rtp& p) {
        packets[{ p.ssrc, p.ts }].push_back(p.data);
        count[p.ssrc] += 1;
    };
    int64_t pts = 0;
    const auto publishes = src.size(2, 25);
    std::map<uint32_t, std::vector<Frame>> sent;
    size_t updates = 0;
    for (size_t i = 0; i < publishes; i += 1) {
        const auto& t = src.elem(d.tracks);
        const auto ntp = src.pick({ 1, 2 }) ? src.oneOf<uint64_t>({ src.u64(), 1, ~0ull }) : 0;
        pts += 20000;
        auto frame = src.blob(src.oneOf<size_t>({ src.size(10, 100), src.size(1000, 1300), src.size(10, 6000), 50000 }));
        const auto key = src.chance(1, 3);
        frame[0] = static_cast<uint8_t>((frame[0] & 0xfe) | (key ? 0 : 1));
        bool failed = false;
        if (t->getMediaType() == srtc::MediaType::Audio) {
            frame.resize(std::min<size_t>(frame.size(), 1000));
            failed = d.node->pc->publishAudioFrame(t, pts, toBuffer(frame), ntp).isError();
        } else {
            if (t->isSimulcast() && src.chance(1, 5)) {
                // The encoder was set differently
                auto l = genLayer(src, t->getSimulcastLayer()->name);
                auto& mine = layers[indexOf[t->getSSRC()]];
                mine = l;
                const auto u = d.node->pc->updateVideoSimulcastLayer(t, l);
                PBT_CHECK(ctx, !u.isError(), "update of a layer", "%s", u.message.c_str());
                updates += 1;
            }
            failed = d.node->pc->publishVideoFrame(t, pts, toBuffer(frame), ntp).isError();
        }
        PBT_CHECK(ctx, !failed, "publish", "refused");
        sent[t->getSSRC()].push_back({ ntp, key, count[t->getSSRC()], layers });
        d.world.runFor(100000); // the whole frame is out
    }
    size_t stated = 0, times = 0;
    for (const auto& [key, list] : packets)
        frames[key.first].emplace_back(key.second, Frame());
    for (auto& [ssrc, list] : frames) {
        const auto t = trackOf[ssrc];
        PBT_CHECK(ctx, t != nullptr, "unknown source", "%u", ssrc);
        // In the order of their timestamps, which start anywhere
        PBT_CHECK(ctx, list.size() == sent[ssrc].size(), "frames", "%zu of %zu", list.size(), sent[ssrc].size());
        uint32_t base = 0;
        for (const auto& f : list) {
            bool first = true;
            for (const auto& g : list)
                first = first && (g.first - f.first) < 0x80000000u;
            if (first)
                base = f.first;
        }
        std::sort(list.begin(), list.end(), [&](const auto& a, const auto& b) { return a.first - base < b.first - base; });
        for (size_t i = 0; i < list.size(); i += 1) {
            const auto& f = sent[ssrc][i];
            const auto& names = ids[t->getMediaType() == srtc::MediaType::Audio ? "audio" : "video"];
            size_t k = 0;
            for (const auto& b : packets[{ ssrc, list[i].first }]) {
                const auto r = rig::readRtp(b);
                PBT_CHECK(ctx, r.ok, "packet", "%s", hex(b).c_str());
                const auto value = [&](const std::string& name) -> const Bytes* {
                    const auto n = names.find(name);
                    if (n == names.end())
                        return nullptr;
                    const auto x = r.ext.find(n->second);
                    return x == r.ext.end() ? nullptr : &x->second;
                };
                const auto time = value("http://www.webrtc.org/experiments/rtp-hdrext/abs-capture-time");
                const auto expectTime = s.absCapture && f.ntp != 0 && k == 0;
                PBT_CHECK(ctx, (time != nullptr) == expectTime, "capture time", "packet %zu of a frame %s", k, time ? "has one" : "has none");
                if (time) {
                    PBT_CHECK(ctx, time->size() >= 8 && Bytes(time->begin(), time->begin() + 8) == num(f.ntp, 8), "capture time", "%s, given %016llx", hex(*time).c_str(), static_cast<unsigned long long>(f.ntp));
                    times += 1;
                }
                const auto mid = value("urn:ietf:params:rtp-hdrext:sdes:mid");
                const auto rid = value("urn:ietf:params:rtp-hdrext:sdes:rtp-stream-id");
                const auto vla = value("http://www.webrtc.org/experiments/rtp-hdrext/video-layers-allocation00");
                const auto expect = t->isSimulcast() && (f.key || f.before < 100);
                PBT_CHECK(ctx, !expect || (mid && rid && vla), "layer of a packet", "packet %zu of frame %zu doesn't state it, key frame %d, %zu packets before", k, i, f.key, f.before);
                PBT_CHECK(ctx, t->isSimulcast() || (!rid && !vla), "layer of a packet", "stated without layers");
                if (mid)
                    PBT_CHECK(ctx, std::string(mid->begin(), mid->end()) == t->getMedia()->getId(), "media id", "%s", hex(*mid).c_str());
                if (rid) {
                    const auto& name = t->getSimulcastLayer()->name;
                    PBT_CHECK(ctx, std::string(rid->begin(), rid->end()) == name, "layer name", "%s, of a packet of %s", hex(*rid).c_str(), name.c_str());
                }
                if (vla) {
                    judge(ctx, *vla, indexOf[ssrc], f.layers);
                    stated += 1;
                }
                k += 1;
            }
        }
    }
    for (const auto& p : d.peer.problems)
        ctx.fail("what the peer saw", "%s", p.c_str());
    if (stated && (times || updates))
        ctx.nontrivial();
    if (o.rids.size() < s.layers.size())
        ctx.tag("some layers accepted");
    ctx.tagN("allocations stated", stated);
    ctx.tagN("capture times", times);
    ctx.note("%zu layers of %zu: %zu frames, %zu allocations, %zu capture times, %zu updates", o.rids.size(), s.layers.size(), publishes, stated, times, updates);
}

} // namespace

int main(int argc, char** argv)
{
    return run(argc, argv,
        { "P27",
            "allocation: one was stated; map: at least two look-ups found something; builder: more than two elements, some replaced or built again; connection: allocations were stated, with capture times or updates",
            { "widths and heights are at least 1", "an element is added once to an extension", "the independent readers of RTP and of the allocation format are right" },
            { { "allocation", 2, allocation }, { "map", 2, map }, { "builder", 2, builder }, { "connection", 5, connection } } });
}
