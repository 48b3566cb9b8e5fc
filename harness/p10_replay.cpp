// P10: at most once, and genuine packets within the window once
#include "srtp_ref.h"

#include "srtc/replay_protection.h"

#include <set>

using namespace pbt;
using namespace gen;
using namespace sref;

namespace
{

constexpr uint64_t kWindow = 2048;

int64_t genStep(Src& src, int64_t window, int64_t jump)
{
    switch (src.pick({ 6, 5, 3, 3, 3, 2 })) {
    case 0:
        return 1;
    case 1:
        return src.range(-8, 8);
    case 2:
        return src.range(-window, window);
    case 3:
        return -window + src.range(0, 20) - 2;
    case 4:
        return src.range(0, jump);
    default:
        return window / 4 + src.range(-3, 3);
    }
}

void connection(Src& src, Ctx& ctx)
{
    const auto& p = profile(src.size(0, 3));
    const auto a = genKeys(src, p), b = genKeys(src, p);
    const auto [crypto, error] = srtc::SrtpCrypto::create(p.id, sref::crypto(a.key), sref::crypto(a.salt), sref::crypto(b.key), sref::crypto(b.salt));
    const auto conn = std::make_shared<srtc::SrtpConnection>(crypto, p.id);
    const Session session(p, b.key, b.salt);

    struct Stream {
        bool media;
        uint32_t ssrc;
        unsigned types; // of payload, which take turns
        int64_t high = -1;
        std::set<int64_t> accepted;
    };
    std::vector<Stream> streams(src.size(1, 3));
    for (size_t i = 0; i < streams.size(); i += 1) {
        streams[i].media = src.chance(2, 3);
        streams[i].ssrc = static_cast<uint32_t>(src.chance(1, 2) ? 77 + i : 77 + i / 2 * 9 + (streams[i].media ? 0 : 1000));
        streams[i].types = src.chance(1, 3) ? static_cast<unsigned>(src.size(2, 3)) : 1;
        for (size_t k = 0; k < i; k += 1) {
            if (streams[k].media == streams[i].media && streams[k].ssrc == streams[i].ssrc)
                streams[i].ssrc = static_cast<uint32_t>(5000 + i);
        }
    }

    const auto steps = src.size(2, 60);
    unsigned late = 0, replays = 0, wraps = 0;
    for (size_t i = 0; i < steps; i += 1) {
        if (src.chance(1, 25)) {
            ctx.note("connected again");
            conn->onPeerConnected();
            continue;
        }
        auto& s = streams[src.size(0, streams.size() - 1)];
        int64_t index;
        const auto jump = s.media ? 30000 : 1 << 29;
        if (s.high < 0)
            index = s.media ? src.oneOf<int64_t>({ src.u16(), src.range(64000, 65535), 0, 1 }) : src.oneOf<int64_t>({ 0, 1, src.range(0, 100000), 1 << 30 });
        else if (!s.accepted.empty() && src.chance(1, 5))
            index = *std::next(s.accepted.begin(), static_cast<long>(src.size(0, s.accepted.size() - 1)));
        else if (src.chance(1, 6))
            index = (s.high / 65536 + 1) * 65536 + src.range(-4, 4);
        else
            index = s.high + genStep(src, kWindow, jump);
        if (index < 0 || index > 0x7fffffff)
            continue;
        if (s.media && s.high >= 0 && index - s.high > 30000)
            index = s.high + 30000;
        if (s.media && s.high >= 0 && index < 0x10000 && s.high - index > 60000)
            continue;

        Bytes plain, wire;
        if (s.media) {
            plain = cat({ Bytes{ 0x80, static_cast<uint8_t>(96 + index / 2 % s.types) }, num(index & 0xffff, 2), num(static_cast<uint64_t>(index) * 90, 4), num(s.ssrc, 4), num(static_cast<uint64_t>(index), 8) });
            wire = session.media(plain, static_cast<uint32_t>(index >> 16));
        } else {
            plain = cat({ Bytes{ 0x80, 201, 0, 3 }, num(s.ssrc, 4), num(static_cast<uint64_t>(index), 8) });
            wire = session.control(plain, static_cast<uint32_t>(index));
        }
        srtc::ByteBuffer out;
        const auto ok = s.media ? conn->unprotectReceiveMedia(toBuffer(wire), out) : conn->unprotectReceiveControl(toBuffer(wire), out);
        const auto seen = s.accepted.count(index) > 0;
        ctx.note("%s ssrc=%u index=%lld (highest %lld)%s -> %s", s.media ? "media" : "control", s.ssrc, static_cast<long long>(index), static_cast<long long>(s.high),
                 seen ? " again" : "", ok ? "accepted" : "rejected");
        replays += seen ? 1 : 0;
        PBT_CHECK(ctx, !(ok && seen), "accepted twice", "%s index %lld, highest %lld", s.media ? "media" : "control", static_cast<long long>(index),
                  static_cast<long long>(s.high));
        const auto isLate = s.high >= 0 && index < s.high;
        late += isLate && !seen ? 1 : 0;
        if (!seen && (s.high < 0 || index > s.high || s.high - index < static_cast<int64_t>(kWindow)))
            PBT_CHECK(ctx, ok, "new packet rejected", "%s index %lld, highest %lld", s.media ? "media" : "control", static_cast<long long>(index), static_cast<long long>(s.high));
        if (ok) {
            PBT_CHECK(ctx, toBytes(out) == plain, "content", "index %lld", static_cast<long long>(index));
            s.accepted.insert(index);
            if (s.high >= 0 && index >> 16 != s.high >> 16)
                wraps += 1;
            s.high = std::max(s.high, index);
        }
    }
    if (late)
        ctx.tag("late packets");
    if (replays)
        ctx.tag("replays");
    if (wraps)
        ctx.tag("wraps");
    if (replays || late)
        ctx.nontrivial();
}

template <class T>
void window(Src& src, Ctx& ctx)
{
    constexpr int64_t range = static_cast<int64_t>(std::numeric_limits<T>::max()) + 1;
    const auto size = static_cast<int64_t>(8u << src.size(0, 9));
    srtc::ReplayProtection rp(std::numeric_limits<T>::max(), static_cast<uint32_t>(size));
    int64_t high = -1;
    std::set<int64_t> accepted;
    const auto steps = src.size(2, 120);
    unsigned late = 0, replays = 0, wraps = 0;
    ctx.note("%zu bit values, window %lld", sizeof(T) * 8, static_cast<long long>(size));
    for (size_t i = 0; i < steps; i += 1) {
        int64_t v;
        if (high < 0)
            v = range + src.oneOf<int64_t>({ src.range(0, range - 1), -src.range(1, 20), src.range(0, 20) });
        else if (!accepted.empty() && src.chance(1, 5))
            v = *std::next(accepted.begin(), static_cast<long>(src.size(0, accepted.size() - 1)));
        else if (src.chance(1, 8)) {
            v = (high / range + 1) * range + src.range(-4, 4);
        } else
            v = high + genStep(src, size, range / 2 - 2);
        if (high >= 0 && (v - high > range / 2 - 1 || high - v > range / 2 - size))
            continue;
        const auto value = static_cast<uint32_t>(v & (range - 1));
        const auto seen = accepted.count(v) > 0;
        // The way callers use it
        const auto can = rp.canProceed(value);
        const auto jump = rp.canJump(value);
        ctx.note("%lld (highest %lld)%s: proceed %d jump %d", static_cast<long long>(v), static_cast<long long>(high), seen ? " again" : "", can, jump);
        replays += seen ? 1 : 0;
        PBT_CHECK(ctx, !(seen && (can || jump)), "accepted twice", "%lld, highest %lld, window %lld", static_cast<long long>(v), static_cast<long long>(high),
                  static_cast<long long>(size));
        PBT_CHECK(ctx, !(can && jump), "both", "%lld, highest %lld", static_cast<long long>(v), static_cast<long long>(high));
        const auto ahead = high < 0 || v > high;
        if (high >= 0) {
            PBT_CHECK(ctx, jump == (v - high > size / 4), "jump", "%lld, highest %lld, window %lld", static_cast<long long>(v), static_cast<long long>(high),
                      static_cast<long long>(size));
        }
        const auto want = !seen && (high < 0 || (ahead ? v - high <= size / 4 : high - v < size));
        PBT_CHECK(ctx, can == want, "window", "%lld, highest %lld, window %lld: %s", static_cast<long long>(v), static_cast<long long>(high), static_cast<long long>(size),
                  can ? "accepted" : "rejected");
        if (can || jump) {
            if (can)
                PBT_CHECK(ctx, rp.set(value), "set", "%lld", static_cast<long long>(v));
            else
                rp.jump(value);
            PBT_CHECK(ctx, !rp.canProceed(value) && !rp.canJump(value), "accepted twice", "%lld right after it was set", static_cast<long long>(v));
            accepted.insert(v);
            late += ahead ? 0 : 1;
            wraps += high >= 0 && v / range != high / range ? 1 : 0;
            high = std::max(high, v);
        }
    }
    if (wraps)
        ctx.tag("wraps");
    if (replays || late)
        ctx.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
    Property prop;
    prop.id = "P10";
    prop.rule = "the history has a replayed packet or a late one";
    prop.assumptions = { "window sizes are powers of two of at least eight", "media packets move forward by less than half of the sequence number range at a time" };
    prop.facets = { { "connection", 6, connection }, { "window16", 2, window<uint16_t> }, { "window32", 1, window<uint32_t> } };
    return run(argc, argv, prop);
}
