// An independent reader and writer of transport-wide congestion control feedback
// (draft-holmer-rmcat-transport-wide-cc-extensions-01)
#pragma once

#include "media_gen.h"

#include <optional>

namespace twccref
{

using gen::Bytes;

struct Report {
    bool ok = false;
    std::string error;
    uint32_t mediaSsrc = 0;
    uint16_t base = 0;
    uint32_t refTime = 0; // 24 bits
    uint8_t fbCount = 0;
    struct Status {
        uint8_t symbol = 0;
        int64_t time = 0; // In units of 250 us, from the reference time
    };
    std::vector<Status> list;
    unsigned runs = 0, vectors1 = 0, vectors2 = 0;
};

inline Report read(const uint8_t* data, size_t size)
{
    Report r;
    const auto u16 = [data](size_t p) { return static_cast<uint16_t>((data[p] << 8) | data[p + 1]); };
    if (size < 12) {
        r.error = "short header";
        return r;
    }
    r.mediaSsrc = (static_cast<uint32_t>(u16(0)) << 16) | u16(2);
    r.base = u16(4);
    const auto count = u16(6);
    r.refTime = (static_cast<uint32_t>(u16(8)) << 8) | data[10];
    r.fbCount = data[11];
    size_t p = 12;
    while (r.list.size() < count) {
        if (p + 2 > size) {
            r.error = "chunks end early";
            return r;
        }
        const auto c = u16(p);
        p += 2;
        std::vector<uint8_t> symbols;
        if (!(c & 0x8000)) {
            symbols.assign(c & 0x1fff, static_cast<uint8_t>((c >> 13) & 3));
            r.runs += 1;
            if (symbols.empty() || r.list.size() + symbols.size() > count) {
                r.error = "run length";
                return r;
            }
        } else if (!(c & 0x4000)) {
            for (int i = 13; i >= 0; i -= 1)
                symbols.push_back((c >> i) & 1);
            r.vectors1 += 1;
        } else {
            for (int i = 12; i >= 0; i -= 2)
                symbols.push_back((c >> i) & 3);
            r.vectors2 += 1;
        }
        for (const auto s : symbols) {
            if (r.list.size() == count) {
                if (s != 0) {
                    r.error = "symbols past the end";
                    return r;
                }
                continue;
            }
            r.list.push_back({ s, 0 });
        }
    }
    int64_t t = 0;
    for (auto& s : r.list) {
        if (s.symbol == 1) {
            if (p + 1 > size) {
                r.error = "deltas end early";
                return r;
            }
            t += data[p];
            p += 1;
        } else if (s.symbol == 2) {
            if (p + 2 > size) {
                r.error = "deltas end early";
                return r;
            }
            t += static_cast<int16_t>(u16(p));
            p += 2;
        }
        s.time = t;
    }
    if (size - p > 3) {
        r.error = "bytes left";
        return r;
    }
    r.ok = true;
    return r;
}

} // namespace twccref

namespace twccref
{

// Arrival times by position in units of 250 us, negative: not received.  "freedom" is 0 for a plain encoding, more for odd ones.
inline Bytes write(pbt::Src& src, uint16_t base, const std::vector<int64_t>& times, uint8_t fbCount, unsigned freedom, std::string* how = nullptr)
{
    Bytes r;
    const auto u16 = [&r](unsigned v) {
        r.push_back(static_cast<uint8_t>(v >> 8));
        r.push_back(static_cast<uint8_t>(v));
    };
    int64_t first = 0;
    for (const auto t : times) {
        if (t >= 0) {
            first = t;
            break;
        }
    }
    auto ref = first / 256;
    if (freedom)
        ref -= std::min<int64_t>(ref, src.range(0, 4));
    u16(base);
    u16(static_cast<unsigned>(times.size()));
    u16(static_cast<unsigned>((ref >> 8) & 0xffff));
    r.push_back(static_cast<uint8_t>(ref & 0xff));
    r.push_back(fbCount);

    std::vector<uint8_t> symbols;
    Bytes deltas;
    auto cur = ref * 256;
    for (const auto t : times) {
        if (t < 0) {
            symbols.push_back(0);
            continue;
        }
        const auto d = t - cur;
        if (d < -32768 || d > 32767)
            throw pbt::Discard();
        cur = t;
        if (d >= 0 && d <= 255 && !(freedom >= 2 && src.chance(1, 4))) {
            symbols.push_back(1);
            deltas.push_back(static_cast<uint8_t>(d));
        } else {
            symbols.push_back(2);
            deltas.push_back(static_cast<uint8_t>((d >> 8) & 0xff));
            deltas.push_back(static_cast<uint8_t>(d & 0xff));
        }
    }
    for (size_t i = 0; i < symbols.size();) {
        size_t run = 1;
        while (i + run < symbols.size() && symbols[i + run] == symbols[i] && run < 8191)
            run += 1;
        auto small = true;
        for (size_t k = i; k < std::min(i + 14, symbols.size()); k += 1)
            small = small && symbols[k] <= 1;
        size_t kind; // run, one bit, two bits
        if (freedom == 0)
            kind = run >= 14 || i + run == symbols.size() ? 0 : small ? 1 : 2;
        else {
            kind = src.draw(2);
            if (kind == 1 && !small)
                kind = 2;
        }
        if (kind == 0) {
            const auto n = freedom ? src.size(1, run) : run;
            u16(static_cast<unsigned>((symbols[i] << 13) | n));
            i += n;
        } else if (kind == 1) {
            unsigned v = 0x8000;
            for (size_t k = 0; k < 14 && i + k < symbols.size(); k += 1)
                v |= static_cast<unsigned>(symbols[i + k]) << (13 - k);
            u16(v);
            i += 14;
        } else {
            unsigned v = 0xc000;
            for (size_t k = 0; k < 7 && i + k < symbols.size(); k += 1)
                v |= static_cast<unsigned>(symbols[i + k]) << (12 - 2 * k);
            u16(v);
            i += 7;
        }
        if (how)
            *how += "rvw"[kind];
    }
    r.insert(r.end(), deltas.begin(), deltas.end());
    while ((r.size() + 12) % 4)
        r.push_back(0);
    return r;
}

} // namespace twccref
