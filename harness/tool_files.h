// What files of media are made of: Matroska, Annex B
#pragma once

#include "media_gen.h"
#include "pbt.h"

namespace
{

using namespace pbt;
using namespace gen;

uint64_t number(const uint8_t* p, size_t n)
{
    uint64_t v = 0;
    for (size_t i = 0; i < n; i += 1)
        v = (v << 8) | p[i];
    return v;
}

//----- Matroska, after RFC 8794 and RFC 9559

struct Element {
    uint32_t id = 0;
    const uint8_t* data = nullptr;
    uint64_t size = 0;
};

// A list of elements which fills the data exactly, sizes all known
std::vector<Element> elements(Ctx& ctx, const char* where, const uint8_t* p, size_t n)
{
    std::vector<Element> out;
    size_t pos = 0;
    while (pos < n) {
        size_t w = 1;
        while (w <= 4 && !(p[pos] & (0x80 >> (w - 1))))
            w += 1;
        PBT_CHECK(ctx, w <= 4 && pos + w <= n, "a file which is not EBML: id", "%s at %zu of %zu", where, pos, n);
        Element e;
        e.id = static_cast<uint32_t>(number(p + pos, w));
        pos += w;
        PBT_CHECK(ctx, pos < n && p[pos], "a file which is not EBML: size", "%s at %zu of %zu", where, pos, n);
        w = 1;
        while (!(p[pos] & (0x80 >> (w - 1))))
            w += 1;
        PBT_CHECK(ctx, pos + w <= n, "a file which is not EBML: size", "%s at %zu of %zu", where, pos, n);
        const auto mask = (1ull << (7 * w)) - 1;
        e.size = number(p + pos, w) & mask;
        PBT_CHECK(ctx, e.size != mask, "a size which means unknown", "%s at %zu: id %x, the size has all bits set, in %zu bytes", where, pos, e.id, w);
        pos += w;
        PBT_CHECK(ctx, e.size <= n - pos, "an element goes beyond its parent", "%s at %zu: id %x, size %llu of %zu", where, pos, e.id, static_cast<unsigned long long>(e.size), n - pos);
        e.data = p + pos;
        pos += e.size;
        out.push_back(e);
    }
    return out;
}

const Element* find(const std::vector<Element>& list, uint32_t id)
{
    for (const auto& e : list)
        if (e.id == id)
            return &e;
    return nullptr;
}

const Element& need(Ctx& ctx, const std::vector<Element>& list, uint32_t id, const char* what)
{
    const auto e = find(list, id);
    if (!e)
        ctx.fail("an element is missing from the file", "%s", what);
    return *e;
}

void bits(Bytes& out, size_t& used, uint64_t v, size_t n)
{
    for (size_t i = n; i > 0; i -= 1) {
        if (used % 8 == 0)
            out.push_back(0);
        if ((v >> (i - 1)) & 1)
            out.back() |= 0x80 >> (used % 8);
        used += 1;
    }
}

// A key frame which states its width and height
Bytes vp8Key(Src& src, const Bytes& body, unsigned w, unsigned h)
{
    Bytes r = { static_cast<uint8_t>(src.u8() & ~1u), src.u8(), src.u8(), 0x9d, 0x01, 0x2a };
    w |= static_cast<unsigned>(src.draw(3)) << 14;
    h |= static_cast<unsigned>(src.draw(3)) << 14;
    for (const auto v : { w & 0xff, w >> 8, h & 0xff, h >> 8 })
        r.push_back(static_cast<uint8_t>(v));
    r.push_back(src.u8());
    r.insert(r.end(), body.begin(), body.end());
    return r;
}

Bytes vp9Key(Src& src, const Bytes& body, unsigned w, unsigned h)
{
    Bytes r;
    size_t n = 0;
    const auto profile = src.draw(3);
    bits(r, n, 2, 2);
    bits(r, n, profile & 1, 1);
    bits(r, n, profile >> 1, 1);
    if (profile == 3)
        bits(r, n, 0, 1);
    bits(r, n, 0, 1); // show_existing_frame
    bits(r, n, 0, 1); // KEY_FRAME
    bits(r, n, 1, 1);
    bits(r, n, src.draw(1), 1);
    bits(r, n, 0x498342, 24);
    if (profile >= 2)
        bits(r, n, src.draw(1), 1);
    const auto space = profile & 1 ? src.draw(7) : src.draw(6);
    bits(r, n, space, 3);
    if (space != 7) {
        bits(r, n, src.draw(1), 1);
        if (profile & 1)
            bits(r, n, src.draw(2) << 1, 3);
    } else {
        bits(r, n, 0, 1);
    }
    bits(r, n, w - 1, 16);
    bits(r, n, h - 1, 16);
    r.insert(r.end(), body.begin(), body.end());
    return r;
}

Bytes av1Sequence(Src& src, unsigned w, unsigned h)
{
    Bytes r;
    size_t n = 0;
    bits(r, n, src.draw(2), 3);
    bits(r, n, 0, 1);
    bits(r, n, 0, 1); // reduced_still_picture_header
    bits(r, n, 0, 1); // timing_info_present_flag
    const auto delay = src.draw(1);
    bits(r, n, delay, 1);
    const auto points = src.pick({ 4, 1 }) ? src.size(2, 32) : 1;
    bits(r, n, points - 1, 5);
    for (size_t i = 0; i < points; i += 1) {
        bits(r, n, src.draw(0xfff), 12);
        const auto level = src.draw(31);
        bits(r, n, level, 5);
        if (level > 7)
            bits(r, n, src.draw(1), 1);
        if (delay) {
            const auto present = src.draw(1);
            bits(r, n, present, 1);
            if (present)
                bits(r, n, src.draw(15), 4);
        }
    }
    auto width = [](unsigned v) {
        unsigned k = 1;
        while ((v - 1) >> k)
            k += 1;
        return k;
    };
    const auto bw = std::min<unsigned>(16, width(w) + static_cast<unsigned>(src.draw(3)));
    const auto bh = std::min<unsigned>(16, width(h) + static_cast<unsigned>(src.draw(3)));
    bits(r, n, bw - 1, 4);
    bits(r, n, bh - 1, 4);
    bits(r, n, w - 1, bw);
    bits(r, n, h - 1, bh);
    bits(r, n, src.u32(), 32);
    bits(r, n, src.u32(), 32);
    return r;
}

void ebmlId(Bytes& out, uint32_t id)
{
    for (int s = 24; s >= 0; s -= 8)
        if (id >> s)
            out.push_back(static_cast<uint8_t>(id >> s));
}

void ebmlSize(Src& src, Bytes& out, uint64_t v, bool may)
{
    unsigned w = 1;
    while (w < 8 && v >= (1ull << (7 * w)) - 1)
        w += 1;
    if (may && src.chance(1, 3))
        w = std::max<unsigned>(w, static_cast<unsigned>(src.size(1, 8)));
    for (unsigned i = 0; i < w; i += 1) {
        auto b = static_cast<uint8_t>(v >> (8 * (w - 1 - i)));
        if (i == 0)
            b |= static_cast<uint8_t>(0x80 >> (w - 1));
        out.push_back(b);
    }
}

void ebml(Src& src, Bytes& out, uint32_t id, const Bytes& data, bool may = true)
{
    ebmlId(out, id);
    ebmlSize(src, out, data.size(), may);
    out.insert(out.end(), data.begin(), data.end());
}

Bytes uintBytes(Src& src, uint64_t v, size_t most = 4)
{
    size_t n = 1;
    while (n < 8 && (v >> (8 * n)))
        n += 1;
    if (n < most && src.chance(1, 3))
        n = src.size(n, most);
    Bytes r;
    for (size_t i = n; i > 0; i -= 1)
        r.push_back(static_cast<uint8_t>(v >> (8 * (i - 1))));
    return r;
}

std::vector<Bytes> nalus(const Bytes& b)
{
    std::vector<Bytes> out;
    size_t i = 0, start = 0;
    auto open = false;
    while (i + 2 < b.size()) {
        if (b[i] == 0 && b[i + 1] == 0 && b[i + 2] == 1) {
            if (open)
                out.emplace_back(b.begin() + static_cast<long>(start), b.begin() + static_cast<long>(i > start && b[i - 1] == 0 ? i - 1 : i));
            i += 3;
            start = i;
            open = true;
        } else {
            i += 1;
        }
    }
    if (open)
        out.emplace_back(b.begin() + static_cast<long>(start), b.end());
    return out;
}

unsigned type(Codec c, const Bytes& n)
{
    return c == Codec::H264 ? n[0] & 0x1f : (n[0] >> 1) & 0x3f;
}
bool isParams(Codec c, const Bytes& n)
{
    const auto t = type(c, n);
    return c == Codec::H264 ? t == 7 || t == 8 : t >= 32 && t <= 34;
}
bool isSlice(Codec c, const Bytes& n)
{
    const auto t = type(c, n);
    return c == Codec::H264 ? t == 1 || t == 5 : t <= 21;
}

} // namespace
