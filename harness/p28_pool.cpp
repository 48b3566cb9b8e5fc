// P28: the item pool never hands out live memory and never grows without need; byte buffers agree with plain arrays
#include "media_gen.h"
#include "srtp_ref.h"

#include "srtc/bit_reader.h"
#include "srtc/pool_allocator.h"
#include "srtc/temp_buffer.h"

using namespace pbt;
using namespace gen;

namespace
{

// ----- Pool

size_t gAlive;

template <size_t N>
struct Item {
    uint64_t first; // of a type which must be aligned
    uint8_t rest[N];
    Item()
        : first(1)
    {
        gAlive += 1;
        std::memset(rest, 0x5a, N);
    }
    ~Item()
    {
        gAlive -= 1;
    }
    void fill(uint32_t v)
    {
        first = v;
        for (size_t i = 0; i < N; i += 1)
            rest[i] = static_cast<uint8_t>(v * 7 + i);
    }
    bool is(uint32_t v) const
    {
        if (first != v)
            return false;
        for (size_t i = 0; i < N; i += 1)
            if (rest[i] != static_cast<uint8_t>(v * 7 + i))
                return false;
        return true;
    }
};

template <size_t N>
void poolOf(Src& src, Ctx& ctx)
{
    using T = Item<N>;
    gAlive = 0;
    auto pool = std::make_unique<srtc::PoolAllocator<T>>();
    std::vector<std::pair<T*, uint32_t>> live;
    std::set<T*> places; // all which were ever handed out
    std::map<uintptr_t, T*> byAddress;
    uint32_t next = 1;
    size_t most = 0, reused = 0, maxPlaces = 0;
    const auto rounds = src.size(1, 14);
    for (size_t r = 0; r < rounds; r += 1) {
        if (src.chance(1, 2)) {
            for (size_t n = src.oneOf<size_t>({ 1, src.size(1, 10), 64, 65, src.size(1, 300) }); n > 0; n -= 1) {
                T* const p = pool->create();
                PBT_CHECK(ctx, p != nullptr && reinterpret_cast<uintptr_t>(p) % alignof(T) == 0, "place", "%p", static_cast<void*>(p));
                PBT_CHECK(ctx, p->first == 1 && p->rest[0] == 0x5a, "construction", "not constructed");
                const auto at = reinterpret_cast<uintptr_t>(p);
                auto after = byAddress.lower_bound(at);
                PBT_CHECK(ctx, after == byAddress.end() || after->first >= at + sizeof(T), "live memory is handed out", "number %u", next);
                PBT_CHECK(ctx, after == byAddress.begin() || std::prev(after)->first + sizeof(T) <= at, "live memory is handed out", "number %u", next);
                byAddress[at] = p;
                reused += places.insert(p).second ? 0 : 1;
                p->fill(next);
                live.emplace_back(p, next);
                next += 1;
            }
            most = std::max(most, live.size());
            // Released places are used before there are new ones; pages are of some items
            PBT_CHECK(ctx, places.size() <= most + 64, "released items aren't used again", "%zu places for at most %zu items", places.size(), most);
            maxPlaces = std::max(maxPlaces, places.size());
        } else {
            for (size_t n = src.oneOf<size_t>({ 1, src.size(1, 10), 64, live.size(), src.size(0, 300) }); n > 0 && !live.empty(); n -= 1) {
                const auto i = src.oneOf<size_t>({ 0, live.size() - 1, src.size(0, live.size() - 1) });
                PBT_CHECK(ctx, live[i].first->is(live[i].second), "contents of an item", "number %u was written to by something else", live[i].second);
                byAddress.erase(reinterpret_cast<uintptr_t>(live[i].first));
                pool->destroy(live[i].first);
                live[i] = live.back();
                live.pop_back();
            }
            if (src.chance(1, 8))
                pool->destroy(nullptr);
        }
        PBT_CHECK(ctx, gAlive == live.size(), "number of items", "%zu are constructed, %zu are in use", gAlive, live.size());
        for (const auto& l : live)
            PBT_CHECK(ctx, l.first->is(l.second), "contents of an item", "number %u was written to by something else", l.second);
    }
    for (const auto& l : live)
        pool->destroy(l.first);
    PBT_CHECK(ctx, gAlive == 0, "number of items", "%zu are left", gAlive);
    pool.reset(); // what it kept is released, see LeakSanitizer
    if (reused)
        ctx.nontrivial();
    ctx.tagN("items reused", reused);
    ctx.note("%zu bytes each: %u items in %zu rounds, at most %zu at a time, %zu reused", sizeof(T), next - 1, rounds, most, reused);
}

void pool(Src& src, Ctx& ctx)
{
    switch (src.size(0, 3)) {
    case 0:
        return poolOf<1>(src, ctx);
    case 1:
        return poolOf<8>(src, ctx);
    case 2:
        return poolOf<13>(src, ctx);
    default:
        return poolOf<100>(src, ctx);
    }
}

// ----- Buffers

void leb(Bytes& b, uint32_t v)
{
    do {
        b.push_back(static_cast<uint8_t>((v & 0x7f) | (v > 0x7f ? 0x80 : 0)));
        v >>= 7;
    } while (v);
}

void buffers(Src& src, Ctx& ctx)
{
    std::vector<std::pair<srtc::ByteBuffer, Bytes>> list;
    list.reserve(8);
    list.emplace_back();
    size_t grown = 0, ops = 0, moves = 0;
    const auto check = [&](size_t i) {
        const auto& [b, m] = list[i];
        PBT_CHECK(ctx, b.size() == m.size() && b.empty() == m.empty(), "size", "%zu, expected %zu", b.size(), m.size());
        PBT_CHECK(ctx, b.capacity() >= b.size(), "capacity", "%zu for %zu", b.capacity(), b.size());
        PBT_CHECK(ctx, m.empty() || (b.data() && std::memcmp(b.data(), m.data(), m.size()) == 0 && b.front() == m.front()), "contents", "%s, expected %s", hex(toBytes(b)).c_str(), hex(m).c_str());
    };
    const auto add = [](Bytes& m, uint64_t v, int n) {
        for (int i = n - 1; i >= 0; i -= 1)
            m.push_back(static_cast<uint8_t>(v >> (8 * i)));
    };
    for (size_t n = src.size(1, 40); n > 0; n -= 1) {
        const auto i = src.size(0, list.size() - 1);
        auto& [b, m] = list[i];
        const auto before = b.capacity();
        srtc::ByteWriter w(b);
        const auto v = src.chance(1, 2) ? src.u64() : src.u64() >> src.size(0, 63);
        ops += 1;
        switch (src.size(0, 19)) {
        case 0: {
            const auto d = src.blob(src.oneOf<size_t>({ 0, 1, src.size(0, 300), 128 }));
            b.append(d.data(), d.size());
            m.insert(m.end(), d.begin(), d.end());
            break;
        }
        case 1: {
            const auto j = src.size(0, list.size() - 1);
            if (m.size() > 5000)
                break;
            const auto d = list[j].second;
            if (src.chance(1, 2) || i == j)
                b.append(list[j].first); // its own contents, too
            else
                w.write(list[j].first);
            m.insert(m.end(), d.begin(), d.end());
            break;
        }
        case 2: {
            const auto size = src.oneOf<size_t>({ 1, 4, src.size(1, 200) });
            const auto c = src.u8();
            if (src.chance(1, 2))
                b.padding(c, size);
            else
                w.padding(c, size);
            m.insert(m.end(), size, c);
            break;
        }
        case 3:
            b.clear();
            m.clear();
            break;
        case 4:
            b.free();
            m.clear();
            PBT_CHECK(ctx, b.capacity() == 0, "capacity", "%zu after it was freed", b.capacity());
            break;
        case 5: {
            const auto d = src.blob(src.size(0, 300));
            b.assign(d.data(), d.size());
            m = d;
            break;
        }
        case 6: {
            const auto size = src.size(0, m.size());
            b.resize(size);
            m.resize(size);
            break;
        }
        case 7: {
            const auto size = src.size(0, 600);
            b.reserve(size);
            PBT_CHECK(ctx, b.capacity() >= size, "capacity", "%zu, %zu were reserved", b.capacity(), size);
            break;
        }
        case 8: {
            auto c = b.copy();
            PBT_CHECK(ctx, (m.empty() || c == b) && c.size() == b.size(), "copy", "differs");
            if (!m.empty()) {
                c.data()[src.size(0, m.size() - 1)] ^= static_cast<uint8_t>(1u << src.size(0, 7));
                PBT_CHECK(ctx, !(c == b), "comparison", "a changed copy is the same");
                c = b.copy();
                c.resize(c.size() - 1);
                PBT_CHECK(ctx, !(c == b) && !(b == c), "comparison", "a shorter copy is the same");
            }
            if (list.size() < 5)
                list.emplace_back(b.copy(), m);
            break;
        }
        case 9: {
            const auto j = src.size(0, list.size() - 1);
            b = std::move(list[j].first); // itself, too
            m = Bytes(list[j].second);
            if (i != j)
                list[j].second.clear();
            moves += 1;
            break;
        }
        case 10: {
            srtc::ByteBuffer c(std::move(b));
            PBT_CHECK(ctx, b.empty() && b.size() == 0 && b.capacity() == 0, "moved from", "%zu bytes are left", b.size());
            b.append(reinterpret_cast<const uint8_t*>("x"), 1);
            b = std::move(c);
            moves += 1;
            break;
        }
        case 11:
            w.writeU8(static_cast<uint8_t>(v));
            add(m, v, 1);
            break;
        case 12:
            w.writeU16(static_cast<uint16_t>(v));
            add(m, v, 2);
            break;
        case 13:
            w.writeU24(static_cast<uint32_t>(v & 0xffffff));
            add(m, v, 3);
            break;
        case 14:
            w.writeU32(static_cast<uint32_t>(v));
            add(m, v, 4);
            break;
        case 15:
            w.writeU48(v & 0xffffffffffffull);
            add(m, v, 6);
            break;
        case 16:
            w.writeU64(v);
            add(m, v, 8);
            break;
        case 17:
            w.writeLEB128(static_cast<uint32_t>(v));
            leb(m, static_cast<uint32_t>(v));
            break;
        case 18: {
            const auto d = src.blob(src.size(1, 100));
            w.write(d.data(), d.size());
            m.insert(m.end(), d.begin(), d.end());
            break;
        }
        default: {
            const auto d = src.blob(src.size(0, 100));
            srtc::ByteBuffer c(d.data(), d.size());
            PBT_CHECK(ctx, c.size() == d.size() && toBytes(c) == d, "made of an array", "differs");
            srtc::ByteBuffer e(src.size(0, 100));
            PBT_CHECK(ctx, e.empty(), "made with a capacity", "isn't empty");
        }
        }
        grown += b.capacity() > before && before > 0 ? 1 : 0;
        for (size_t k = 0; k < list.size(); k += 1)
            check(k);
    }
    if (grown && ops > 5)
        ctx.nontrivial();
    ctx.note("%zu operations on up to %zu buffers, grown %zu times, moved %zu times", ops, list.size(), grown, moves);
}

// ----- Readers

void reader(Src& src, Ctx& ctx)
{
    // Values of known kinds one after the other
    struct Value {
        size_t kind;
        uint64_t v;
        Bytes d;
    };
    std::vector<Value> values;
    Bytes all;
    for (size_t n = src.size(1, 24); n > 0; n -= 1) {
        Value x{ src.size(0, 8), src.chance(1, 2) ? src.u64() : src.u64() >> src.size(0, 63), {} };
        const int size = x.kind == 0 ? 1 : x.kind == 1 ? 2 : x.kind == 2 ? 4 : x.kind == 3 ? 8 : 0;
        if (size) {
            if (size < 8)
                x.v &= (1ull << (8 * size)) - 1;
            for (int i = size - 1; i >= 0; i -= 1)
                all.push_back(static_cast<uint8_t>(x.v >> (8 * i)));
        } else if (x.kind == 4) {
            x.v &= 0xffffffffu;
            if (src.chance(1, 3))
                x.v = src.oneOf<uint64_t>({ 0, 0x7f, 0x80, 0x3fff, 0x4000, 0x1fffff, 0x200000, 0xfffffff, 0x10000000, 0xffffffff });
            leb(all, static_cast<uint32_t>(x.v));
        } else {
            x.d = src.blob(src.size(1, 40));
            all.insert(all.end(), x.d.begin(), x.d.end());
        }
        values.push_back(x);
    }
    const auto holder = toBuffer(all);
    // An exact copy on the heap, so that reading beyond its end is noticed
    const std::unique_ptr<uint8_t[]> exact(new uint8_t[all.size()]);
    std::copy(all.begin(), all.end(), exact.get());
    const auto cut = src.chance(1, 3) ? src.size(0, all.size()) : all.size();
    auto r = src.chance(1, 2) ? srtc::ByteReader(exact.get(), cut) : cut == all.size() && src.chance(1, 2) ? srtc::ByteReader(holder) : srtc::ByteReader(holder, cut);
    size_t pos = 0;
    for (const auto& x : values) {
        PBT_CHECK(ctx, r.position() == pos && r.remaining() == cut - pos && r.size() == cut, "position", "%zu of %zu, expected %zu of %zu", r.position(), r.size(), pos, cut);
        const auto need = x.kind == 0 ? 1 : x.kind == 1 ? 2 : x.kind == 2 ? 4 : x.kind == 3 ? 8 : x.d.size();
        if (x.kind == 4) {
            Bytes b;
            leb(b, static_cast<uint32_t>(x.v));
            const auto v = r.readLEB128(); // stops at the end
            if (pos + b.size() <= cut)
                PBT_CHECK(ctx, v == x.v, "LEB128", "%u, expected %llu", v, static_cast<unsigned long long>(x.v));
            pos = std::min(cut, pos + b.size());
            if (pos == cut)
                break;
            continue;
        }
        if (pos + need > cut)
            break; // Callers must not
        PBT_CHECK(ctx, std::memcmp(r.current(), all.data() + pos, need) == 0, "current", "differs");
        bool same = true;
        switch (x.kind) {
        case 0:
            same = r.readU8() == x.v;
            break;
        case 1:
            same = r.readU16() == x.v;
            break;
        case 2:
            same = r.readU32() == x.v;
            break;
        case 3:
            same = r.readU64() == x.v;
            break;
        case 5:
            same = toBytes(r.readByteBuffer(need)) == x.d;
            break;
        case 6: {
            const auto s = r.readString(need);
            same = Bytes(s.begin(), s.end()) == x.d;
            break;
        }
        case 7: {
            Bytes d(need);
            r.read(d.data(), need);
            same = d == x.d;
            break;
        }
        default:
            r.skip(need);
        }
        PBT_CHECK(ctx, same, "value", "kind %zu at %zu", x.kind, pos);
        pos += need;
    }
    if (values.size() > 3)
        ctx.nontrivial();
    ctx.note("%zu values in %zu bytes, of which %zu are seen", values.size(), all.size(), cut);
}

void bits(Src& src, Ctx& ctx)
{
    std::vector<bool> all;
    struct Value {
        size_t kind; // 0 bit, 1 bits, 2 Exp-Golomb
        unsigned n;
        uint32_t v;
    };
    std::vector<Value> values;
    for (size_t n = src.size(1, 30); n > 0; n -= 1) {
        Value x{ src.size(0, 2), 0, 0 };
        if (x.kind == 0) {
            x.v = src.chance(1, 2);
            x.n = 1;
        } else if (x.kind == 1) {
            x.n = static_cast<unsigned>(src.size(0, 32));
            x.v = x.n == 32 ? src.u32() : src.u32() & ((1u << x.n) - 1);
        } else
            x.v = src.oneOf<uint32_t>({ 0, 1, 2, 0xfffffffe, src.u32(), src.u32() >> src.size(0, 31) });
        if (x.kind == 2) {
            const uint64_t code = static_cast<uint64_t>(x.v) + 1;
            unsigned len = 0;
            while (code >> len)
                len += 1;
            for (unsigned i = 1; i < len; i += 1)
                all.push_back(false);
            for (unsigned i = len; i-- > 0;)
                all.push_back(code >> i & 1);
        } else
            for (unsigned i = x.n; i-- > 0;)
                all.push_back(x.v >> i & 1);
        values.push_back(x);
    }
    const auto size = (all.size() + 7) / 8;
    const std::unique_ptr<uint8_t[]> exact(new uint8_t[size]());
    for (size_t i = 0; i < all.size(); i += 1)
        exact[i / 8] = static_cast<uint8_t>(exact[i / 8] | (all[i] ? 0x80 >> (i % 8) : 0));
    srtc::BitReader r(exact.get(), size);
    for (size_t i = 0; i < values.size(); i += 1) {
        const auto& x = values[i];
        const auto v = x.kind == 0 ? r.readBit() : x.kind == 1 ? r.readBits(x.n) : r.readUnsignedExpGolomb();
        PBT_CHECK(ctx, v == x.v, "value", "number %zu of kind %zu: %u, expected %u", i, x.kind, v, x.v);
    }
    // Nothing but zeros beyond the end, and no end of waiting
    for (size_t i = 0; i < 8; i += 1)
        (void)r.readBit();
    PBT_CHECK(ctx, r.readBit() == 0 && r.readBits(32) == 0, "beyond the end", "not zero");
    (void)r.readUnsignedExpGolomb();
    if (values.size() > 3)
        ctx.nontrivial();
    ctx.note("%zu values in %zu bits", values.size(), all.size());
}

void temporary(Src& src, Ctx& ctx)
{
    srtc::FixedTempBuffer<uint32_t> fixed;
    srtc::DynamicTempBuffer<uint64_t> dynamic;
    std::vector<uint64_t> model;
    size_t most = 0, grown = 0;
    for (size_t n = src.size(1, 20); n > 0; n -= 1) {
        const auto count = src.size(1, 300);
        auto* p = fixed.ensure(count);
        for (size_t i = 0; i < count; i += 1)
            p[i] = static_cast<uint32_t>(i);
        const auto* q = fixed.ensure(src.size(1, count));
        PBT_CHECK(ctx, q == p && q[count - 1] == count - 1, "temporary buffer", "moved or changed without need");
        if (src.chance(1, 4)) {
            dynamic.clear();
            model.clear();
        }
        for (size_t i = src.size(0, 60); i > 0; i -= 1) {
            const auto v = src.u64();
            *dynamic.append() = v;
            model.push_back(v);
        }
        PBT_CHECK(ctx, dynamic.size() == model.size() && std::equal(model.begin(), model.end(), dynamic.data()), "appended elements", "%zu, expected %zu, or others", dynamic.size(), model.size());
        grown += model.size() > most ? 1 : 0;
        most = std::max(most, model.size());
    }
    if (grown > 1)
        ctx.nontrivial();
    ctx.note("at most %zu elements", most);
}

} // namespace

int main(int argc, char** argv)
{
    return run(argc, argv,
        { "P28",
            "pool: an item was used again; buffers: one has grown in more than 5 operations; reader and bits: more than 3 values; temporary: grown more than once",
            { "readers are not asked for more than what remains, which aborts the process by design, except bits and LEB128", "items of a pool need an alignment of 8 at most" },
            { { "pool", 3, pool }, { "buffers", 3, buffers }, { "reader", 2, reader }, { "bits", 1, bits }, { "temporary", 1, temporary } } });
}
