// P21: connectivity checks are only honoured when authentic, and any bytes are safe
#include "pbt.h"
#include "rig_setup.h"
#include "sim.h"

#include "srtc/ice_agent.h"
#include "stun5389.h"
#include "stunmessage.h"

#include <cmath>
#include <memory>

using namespace pbt;
using gen::Bytes;
using srtc::IceAgent;


namespace
{

// Memory of exactly this size, with what the library wants to know about it
struct Message {
    std::unique_ptr<uint8_t[]> mem;
    stun::StunMessage msg = {};

    explicit Message(const Bytes& b)
        : mem(new uint8_t[b.size()])
    {
        std::copy(b.begin(), b.end(), mem.get());
        msg.buffer = mem.get();
        msg.buffer_len = b.size();
    }
};

Bytes asBytes(const std::string& s)
{
    return { s.begin(), s.end() };
}

std::string text(Src& src, size_t lo, size_t hi)
{
    static const char chars[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    const auto n = src.size(lo, hi);
    std::string s;
    for (const auto b : src.blob(n))
        s += chars[b & 63];
    return s;
}

std::string credential(Src& src, size_t shortest)
{
    switch (src.pick({ 6, 2, 1 })) {
    case 0:
        return text(src, shortest, 32);
    case 1:
        return text(src, shortest, 256);
    default:
        return text(src, shortest, shortest + 3);
    }
}

srtc::anyaddr anyAddress(Src& src)
{
    srtc::anyaddr a = {};
    const auto port = htons(src.u16());
    if (src.chance(1, 2)) {
        a.ss.ss_family = AF_INET6;
        a.sin_ipv6.sin6_port = port;
        const auto b = src.blob(16);
        memcpy(&a.sin_ipv6.sin6_addr, b.data(), 16);
    } else {
        a.ss.ss_family = AF_INET;
        a.sin_ipv4.sin_port = port;
        a.sin_ipv4.sin_addr.s_addr = src.u32();
    }
    return a;
}

// ----- What a message is, read strictly

enum class Verdict {
    Yes,
    No,
    Either
};

uint32_t crcOf(const Bytes& b)
{
    uint32_t c = 0xffffffffu;
    for (const auto x : b) {
        c ^= x;
        for (int k = 0; k < 8; k += 1)
            c = c & 1 ? c >> 1 ^ 0xedb88320u : c >> 1;
    }
    return ~c;
}

// RFC 5389: the first of several attributes counts, what follows MESSAGE-INTEGRITY is ignored except for FINGERPRINT,
// which is the last one
Verdict authentic(const Bytes& b, const std::string* user, const std::string& pwd, std::string& why)
{
    const auto no = [&](const char* s) {
        why = s;
        return Verdict::No;
    };
    if (b.size() < 20)
        return no("header");
    const auto length = rig::be16(&b[2]);
    if (length + 20u > b.size())
        return no("longer than the datagram");
    if (length % 4)
        return no("length not of whole words");
    const Bytes* unused = nullptr;
    (void)unused;
    std::optional<Bytes> userName, integrity, fingerprint;
    size_t integrityAt = 0, fingerprintAt = 0;
    bool odd = length + 20u < b.size() || b[0] >= 64 || rig::be32(&b[4]) != 0x2112A442;
    size_t p = 20;
    while (p < length + 20u) {
        if (p + 4 > length + 20u)
            return no("attribute header");
        const unsigned t = rig::be16(&b[p]), n = rig::be16(&b[p + 2]);
        if (p + 4 + (n + 3) / 4 * 4 > length + 20u)
            return no("attribute longer than the message");
        const Bytes value(b.begin() + static_cast<long>(p) + 4, b.begin() + static_cast<long>(p + 4 + n));
        if (fingerprint)
            odd = true; // Something after the fingerprint
        else if (t == 0x8028) {
            fingerprint = value;
            fingerprintAt = p;
        } else if (integrity)
            odd = true; // Is ignored
        else if (t == 8) {
            integrity = value;
            integrityAt = p;
        } else if (t == 6) {
            if (userName)
                odd = true;
            else
                userName = value;
        }
        p += 4 + (n + 3) / 4 * 4;
    }
    if (!integrity || integrity->size() != 20)
        return no("no integrity");
    if (user && (!userName || *userName != asBytes(*user)))
        return no("user name");
    Bytes part(b.begin(), b.begin() + static_cast<long>(integrityAt));
    part[2] = static_cast<uint8_t>((integrityAt + 4) >> 8);
    part[3] = static_cast<uint8_t>(integrityAt + 4);
    if (sref::hmacSha1(asBytes(pwd), part) != *integrity)
        return no("integrity");
    if (!fingerprint || fingerprint->size() != 4)
        return no("no fingerprint");
    if (fingerprintAt + 8 == length + 20u) {
        Bytes all(b.begin(), b.begin() + static_cast<long>(fingerprintAt));
        if ((crcOf(all) ^ 0x5354554eu) != rig::be32(fingerprint->data()))
            return no("fingerprint");
    }
    return odd ? Verdict::Either : Verdict::Yes;
}

// ----- What the library writes

void messages(Src& src, Ctx& ctx)
{
    sim::seedRandom(src.u64());
    IceAgent agent;
    const auto room = src.pick({ 5, 1 }) == 0 ? size_t(2048) : src.size(20, 200);
    std::unique_ptr<uint8_t[]> mem(new uint8_t[room]);
    memset(mem.get(), 0xa5, room);
    const auto request = src.chance(1, 2);
    stun::StunMessage msg = {};
    std::vector<std::pair<unsigned, Bytes>> expected;
    Bytes requestId;
    bool ok;
    if (request) {
        ok = agent.initRequest(&msg, mem.get(), room, stun::STUN_BINDING);
    } else {
        requestId = src.blob(12);
        Message m(rig::writeStun(1, requestId, {}, nullptr, false));
        ok = agent.initResponse(&msg, mem.get(), room, &m.msg);
    }
    PBT_CHECK(ctx, ok, "not begun", "room for %zu bytes", room);
    const auto begun = stun::stun_message_length(&msg);
    PBT_CHECK(ctx, begun <= room && begun >= 20, "length", "%zu bytes of %zu", size_t(begun), room);
    {
        const auto m = rig::readStun(Bytes(mem.get(), mem.get() + begun));
        PBT_CHECK(ctx, m.ok, "begun message is not valid", "%s", hex(m.raw).c_str());
        PBT_CHECK(ctx, m.type == (request ? 1u : 0x101u), "type", "%04x", m.type);
        if (!request)
            PBT_CHECK(ctx, m.tid == requestId, "transaction id", "%s for %s", hex(m.tid).c_str(), hex(requestId).c_str());
        if (room >= 40) {
            PBT_CHECK(ctx, m.find(0x8022), "software", "not there");
            PBT_CHECK(ctx, !request || (m.find(0x802A) && m.find(0x802A)->size() == 8), "role", "not there");
        }
        expected = m.attrs;
    }
    const Bytes tid(mem.get() + 8, mem.get() + 20);

    struct Kept {
        size_t kind;
        unsigned type;
        Bytes value;
        std::optional<srtc::anyaddr> address;
        uint64_t number = 0;
    };
    std::vector<Kept> kept;
    static const unsigned types[] = { 0x0020, 0x0024, 0x0025, 0x0001, 0x0009, 0x8029, 0x0014, 0x0015 };
    bool refused = false;
    for (size_t n = src.size(0, 5); n > 0; n -= 1) {
        const auto type = types[src.size(0, 7)];
        const auto t = static_cast<stun::StunAttribute>(type);
        const auto used = stun::stun_message_length(&msg);
        Kept k = { src.pick({ 2, 2, 2, 2, 2, 2, 1, 1 }), type, {}, {} };
        stun::StunMessageReturn r = {};
        switch (k.kind) {
        case 0:
            k.value = src.blob(src.size(0, 40));
            r = stun::stun_message_append_bytes(&msg, t, k.value.data(), k.value.size());
            break;
        case 1:
            k.number = src.u32();
            k.value = sref::num(k.number, 4);
            r = stun::stun_message_append32(&msg, t, static_cast<uint32_t>(k.number));
            break;
        case 2:
            k.number = src.u64();
            k.value = sref::num(k.number, 8);
            r = stun::stun_message_append64(&msg, t, k.number);
            break;
        case 3: {
            const auto s = text(src, 0, 40);
            k.value = asBytes(s);
            r = stun::stun_message_append_string(&msg, t, s.c_str());
            break;
        }
        case 4:
            k.address = anyAddress(src);
            k.value = rig::xorAddress(*k.address, tid);
            r = stun::stun_message_append_xor_addr(&msg, t, &k.address->ss, k.address->ss.ss_family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6));
            break;
        case 5:
            r = stun::stun_message_append_flag(&msg, t);
            break;
        case 6: {
            const auto a = k.address = anyAddress(src);
            const auto v4 = a->ss.ss_family == AF_INET;
            const auto ip = v4 ? reinterpret_cast<const uint8_t*>(&a->sin_ipv4.sin_addr) : reinterpret_cast<const uint8_t*>(&a->sin_ipv6.sin6_addr);
            k.value = sref::cat({ { 0, static_cast<uint8_t>(v4 ? 1 : 2) }, sref::num(ntohs(v4 ? a->sin_ipv4.sin_port : a->sin_ipv6.sin6_port), 2), Bytes(ip, ip + (v4 ? 4 : 16)) });
            r = stun::stun_message_append_addr(&msg, t, reinterpret_cast<const sockaddr*>(&k.address->ss), v4 ? sizeof(sockaddr_in) : sizeof(sockaddr_in6));
            break;
        }
        default: {
            static const stun::StunError codes[] = { stun::STUN_ERROR_BAD_REQUEST, stun::STUN_ERROR_UNAUTHORIZED, stun::STUN_ERROR_ROLE_CONFLICT, stun::STUN_ERROR_SERVER_ERROR };
            const auto c = codes[src.size(0, 3)];
            k.number = c;
            k.type = 9;
            const auto phrase = stun::stun_strerror(c);
            k.value = sref::cat({ { 0, 0, static_cast<uint8_t>(c / 100), static_cast<uint8_t>(c % 100) }, asBytes(phrase) });
            r = stun::stun_message_append_error(&msg, c);
        }
        }
        const auto fits = used + 4 + (k.value.size() + 3) / 4 * 4 <= room;
        PBT_CHECK(ctx, (r == stun::STUN_MESSAGE_RETURN_SUCCESS) == fits, "room for an attribute", "%d with %zu of %zu bytes used and %zu to add", int(r), size_t(used), room, k.value.size());
        if (fits) {
            expected.emplace_back(k.type, k.value);
            kept.push_back(k);
        } else
            refused = true;
    }
    const auto user = credential(src, 4) + ":" + credential(src, 4);
    const auto pwd = credential(src, 22);
    const auto before = stun::stun_message_length(&msg);
    ok = agent.finishMessage(&msg, request ? std::optional<std::string>(user) : std::nullopt, pwd);
    const auto needed = before + (request ? 4 + (user.size() + 3) / 4 * 4 : 0) + 24 + 8;
    PBT_CHECK(ctx, ok == (needed <= room), "finished", "%d with %zu bytes needed of %zu", ok, needed, room);
    if (!ok) {
        ctx.tag("no room");
        return;
    }
    const auto length = stun::stun_message_length(&msg);
    PBT_CHECK(ctx, length == needed, "length", "%zu, expected %zu", size_t(length), needed);
    const Bytes wire(mem.get(), mem.get() + length);
    const auto m = rig::readStun(wire);
    PBT_CHECK(ctx, m.ok, "not valid", "%s", hex(wire).c_str());
    ctx.note("%s", hex(wire).c_str());
    PBT_CHECK(ctx, m.type == (request ? 1u : 0x101u), "type", "%04x", m.type);
    PBT_CHECK(ctx, m.tid == tid, "transaction id", "changed");
    PBT_CHECK(ctx, m.integrityOk(pwd), "integrity", "%s does not verify with %s", hex(wire).c_str(), pwd.c_str());
    PBT_CHECK(ctx, m.fingerprintOk(), "fingerprint", "%s does not verify", hex(wire).c_str());
    if (request)
        expected.emplace_back(6u, asBytes(user));
    PBT_CHECK(ctx, m.attrs.size() == expected.size() + 2, "attributes", "%zu, expected %zu", m.attrs.size(), expected.size() + 2);
    for (size_t i = 0; i < expected.size(); i += 1)
        PBT_CHECK(ctx, m.attrs[i] == expected[i], "attribute", "number %zu is %04x %s, expected %04x %s", i, m.attrs[i].first, hex(m.attrs[i].second).c_str(), expected[i].first,
            hex(expected[i].second).c_str());

    // And what the library reads in it: the first of a kind
    Message back(wire);
    std::set<unsigned> seen;
    for (const auto& e : expected) {
        if (!seen.insert(e.first).second)
            continue;
        uint16_t n = 0;
        const auto p = static_cast<const uint8_t*>(stun::stun_message_find(&back.msg, static_cast<stun::StunAttribute>(e.first), &n));
        PBT_CHECK(ctx, p && Bytes(p, p + n) == e.second, "attribute not found", "%04x", e.first);
    }
    std::set<unsigned> first;
    for (const auto& k : kept) {
        if (!first.insert(k.type).second)
            continue;
        const auto t = static_cast<stun::StunAttribute>(k.type);
        if (k.kind == 1) {
            uint32_t v = 0;
            PBT_CHECK(ctx, stun::stun_message_find32(&back.msg, t, &v) == stun::STUN_MESSAGE_RETURN_SUCCESS && v == k.number, "number", "%u", v);
        } else if (k.kind == 2) {
            uint64_t v = 0;
            PBT_CHECK(ctx, stun::stun_message_find64(&back.msg, t, &v) == stun::STUN_MESSAGE_RETURN_SUCCESS && v == k.number, "number", "%llx", static_cast<unsigned long long>(v));
        } else if (k.kind == 3) {
            const auto len = src.size(0, 41);
            std::unique_ptr<char[]> s(new char[len ? len : 1]);
            const auto r = stun::stun_message_find_string(&back.msg, t, s.get(), len);
            PBT_CHECK(ctx, (r == stun::STUN_MESSAGE_RETURN_SUCCESS) == (k.value.size() < len), "string", "%d", int(r));
            if (r == stun::STUN_MESSAGE_RETURN_SUCCESS)
                PBT_CHECK(ctx, asBytes(s.get()) == k.value, "string", "%s", s.get());
        } else if (k.kind == 4 || k.kind == 6) {
            srtc::anyaddr a = {};
            socklen_t n = sizeof(a);
            const auto r = k.kind == 4 ? stun::stun_message_find_xor_addr(&back.msg, t, &a.ss, &n) : stun::stun_message_find_addr(&back.msg, t, &a.ss, &n);
            PBT_CHECK(ctx, r == stun::STUN_MESSAGE_RETURN_SUCCESS && rig::same(a, *k.address), "address", "%d", int(r));
        } else if (k.kind == 5)
            PBT_CHECK(ctx, stun::stun_message_find_flag(&back.msg, t) == stun::STUN_MESSAGE_RETURN_SUCCESS, "flag", "not found");
        else if (k.kind == 7) {
            int code = 0;
            PBT_CHECK(ctx, stun::stun_message_find_error(&back.msg, &code) == stun::STUN_MESSAGE_RETURN_SUCCESS && code == static_cast<int>(k.number), "error code", "%d", code);
        }
    }
    // Its own reader agrees
    const auto accepted = request ? agent.verifyRequestMessage(&back.msg, user, pwd) : agent.verifyResponseMessage(&back.msg, pwd);
    PBT_CHECK(ctx, accepted, "own message refused", "%s", hex(wire).c_str());
    ctx.tag(request ? "request" : "response");
    if (refused)
        ctx.tag("an attribute without room");
    if (!kept.empty())
        ctx.nontrivial();
}

// ----- Messages of others, damaged

Bytes attribute(unsigned t, const Bytes& v)
{
    auto b = sref::cat({ sref::num(t, 2), sref::num(v.size(), 2), v });
    b.resize((b.size() + 3) / 4 * 4);
    return b;
}

void setLength(Bytes& b, size_t n)
{
    b[2] = static_cast<uint8_t>(n >> 8);
    b[3] = static_cast<uint8_t>(n);
}

void verify(Src& src, Ctx& ctx)
{
    const auto request = src.chance(1, 2);
    const auto user = credential(src, 4) + ":" + credential(src, 4);
    const auto pwd = credential(src, 22);
    auto signUser = user, signPwd = pwd;
    bool withUser = request, withIntegrity = true, withFingerprint = true;
    switch (src.pick({ 6, 1, 1, 1, 1, 1, 1, 1 })) {
    case 0:
        break;
    case 1:
        signPwd = credential(src, 22);
        break;
    case 2:
        signPwd = pwd.substr(0, pwd.size() - 1);
        break;
    case 3:
        signUser = src.chance(1, 2) ? user + "x" : user.substr(0, src.size(0, user.size() - 1));
        break;
    case 4: { // The other way around
        const auto colon = user.find(':');
        signUser = user.substr(colon + 1) + ":" + user.substr(0, colon);
        break;
    }
    case 5:
        withIntegrity = false;
        break;
    case 6:
        withFingerprint = false;
        break;
    default:
        withUser = !withUser;
    }
    const auto id = src.blob(12);
    std::vector<std::pair<unsigned, Bytes>> attrs;
    static const unsigned extra[] = { 0x0024, 0x0025, 0x8029, 0x8022, 0x0020, 0x7777, 0xC057, 0xC001, 9 };
    for (size_t n = src.size(0, 4); n > 0; n -= 1)
        attrs.emplace_back(extra[src.size(0, 8)], src.blob(src.size(0, 24)));
    if (withUser)
        attrs.insert(attrs.begin() + static_cast<long>(src.size(0, attrs.size())), { 6u, asBytes(signUser) });
    auto b = rig::writeStun(request ? 1 : 0x101, id, attrs, withIntegrity ? &signPwd : nullptr, withFingerprint);

    const auto damages = src.pick({ 2, 4, 2 });
    std::string done;
    for (size_t n = 0; n < damages; n += 1) {
        const auto kind = src.pick({ 5, 2, 2, 2, 2, 2, 1, 2, 2 });
        switch (kind) {
        case 0: { // A bit
            const auto at = src.size(0, b.size() * 8 - 1);
            b[at / 8] = static_cast<uint8_t>(b[at / 8] ^ 1 << at % 8);
            done += " bit";
            break;
        }
        case 1: // Cut short
            b.resize(src.size(20, b.size()));
            if (src.chance(1, 2))
                setLength(b, b.size() - 20);
            done += " cut";
            break;
        case 2: { // Something at the end
            const auto more = src.chance(1, 2) ? attribute(extra[src.size(0, 8)], src.blob(src.size(0, 12))) : src.blob(src.size(1, 8));
            b.insert(b.end(), more.begin(), more.end());
            if (src.chance(1, 2))
                setLength(b, b.size() - 20);
            done += " longer";
            break;
        }
        case 3: // The length
            setLength(b, src.chance(1, 2) ? src.size(0, b.size()) : src.u16());
            done += " length";
            break;
        case 4:
        case 5:
        case 6: { // An attribute: removed, repeated, moved, inserted, or its header changed
            std::vector<std::pair<size_t, size_t>> list; // offset and size
            for (size_t p = 20; p + 4 <= b.size();) {
                const size_t m = 4 + (rig::be16(&b[p + 2]) + 3u) / 4 * 4;
                if (p + m > b.size())
                    break;
                list.emplace_back(p, m);
                p += m;
            }
            if (list.empty())
                break;
            const auto a = list[src.size(0, list.size() - 1)];
            const Bytes piece(b.begin() + static_cast<long>(a.first), b.begin() + static_cast<long>(a.first + a.second));
            const auto to = list[src.size(0, list.size() - 1)].first;
            switch (src.pick({ 2, 2, 2, 2, 2 })) {
            case 0:
                b.erase(b.begin() + static_cast<long>(a.first), b.begin() + static_cast<long>(a.first + a.second));
                done += " removed";
                break;
            case 1:
                b.insert(b.begin() + static_cast<long>(to), piece.begin(), piece.end());
                done += " repeated";
                break;
            case 2:
                b.erase(b.begin() + static_cast<long>(a.first), b.begin() + static_cast<long>(a.first + a.second));
                b.insert(b.begin() + static_cast<long>(std::min(to, b.size())), piece.begin(), piece.end());
                done += " moved";
                break;
            case 3: {
                const auto more = attribute(src.chance(1, 3) ? 6u : extra[src.size(0, 8)], src.chance(1, 2) ? asBytes(user) : src.blob(src.size(0, 12)));
                b.insert(b.begin() + static_cast<long>(to), more.begin(), more.end());
                done += " inserted";
                break;
            }
            default:
                if (src.chance(1, 2)) {
                    const auto v = src.chance(1, 2) ? src.u16() : static_cast<uint16_t>(rig::be16(&b[a.first + 2]) + src.range(-4, 4));
                    b[a.first + 2] = static_cast<uint8_t>(v >> 8);
                    b[a.first + 3] = static_cast<uint8_t>(v);
                } else
                    b[a.first + 1] = src.u8();
                done += " attribute";
            }
            if (src.chance(3, 4))
                setLength(b, b.size() - 20);
            break;
        }
        default: // The fingerprint, which everybody can compute, is right again
            if (b.size() >= 28 && b.size() % 4 == 0) {
                Bytes part(b.begin(), b.end() - 8);
                setLength(part, b.size() - 20);
                b = sref::cat({ part, sref::num(0x8028, 2), sref::num(4, 2), sref::num(crcOf(part) ^ 0x5354554eu, 4) });
                done += " fingerprint";
            }
        }
    }
    std::string why;
    const auto verdict = authentic(b, request ? &user : nullptr, pwd, why);
    IceAgent agent;
    Message m(b);
    const auto accepted = request ? agent.verifyRequestMessage(&m.msg, user, pwd) : agent.verifyResponseMessage(&m.msg, pwd);
    ctx.note("%s:%s: %s, user %s password %s", request ? "request" : "response", done.c_str(), hex(b).c_str(), user.c_str(), pwd.c_str());
    if (verdict == Verdict::Yes)
        PBT_CHECK(ctx, accepted, "authentic message refused", "%s", hex(b).c_str());
    else if (verdict == Verdict::No)
        PBT_CHECK(ctx, !accepted, "message accepted which is not authentic", "%s: %s", why.c_str(), hex(b).c_str());
    PBT_CHECK(ctx, std::equal(b.begin(), b.end(), m.mem.get()), "message changed", "by verifying it");
    ctx.tag(verdict == Verdict::Yes ? "authentic" : verdict == Verdict::No ? "not authentic" : "either");
    ctx.tag(accepted ? "accepted" : "refused");
    if (verdict == Verdict::No)
        ctx.tag(why.c_str());
    if (verdict == Verdict::No && !done.empty())
        ctx.nontrivial();
}

// ----- Transactions

void transactions(Src& src, Ctx& ctx)
{
    sim::resetClock();
    sim::seedRandom(src.u64());
    sim::advanceMillis(src.range(10000, 20000));
    IceAgent agent;
    struct Started {
        Bytes id;
        int64_t when;
        bool open;
    };
    std::vector<Started> all;
    size_t answered = 0, expired = 0, unknown = 0;
    for (size_t n = src.size(1, 40); n > 0; n -= 1) {
        uint8_t mem[512];
        stun::StunMessage msg = {};
        switch (src.pick({ 5, 4, 4, 2, 2 })) {
        case 0: {
            PBT_CHECK(ctx, agent.initRequest(&msg, mem, sizeof(mem), stun::STUN_BINDING), "not begun", "a request");
            const auto finish = src.chance(9, 10);
            const Bytes id(mem + 8, mem + 20);
            for (const auto& s : all)
                PBT_CHECK(ctx, s.id != id, "transaction id used twice", "%s", hex(id).c_str());
            if (finish)
                PBT_CHECK(ctx, agent.finishMessage(&msg, "a:b", "password"), "not finished", "a request");
            ctx.note("%lld us: started %s%s", static_cast<long long>(sim::nowMicros()), hex(id).c_str(), finish ? "" : ", but not finished");
            all.push_back({ id, sim::nowMicros(), finish });
            break;
        }
        case 1:
            sim::advanceMicros(src.pick({ 3, 2, 1 }) == 0 ? src.range(0, 200000) : src.range(0, 6000000));
            break;
        case 2: {
            stun::StunTransactionId id;
            float rtt = -1;
            if (all.empty() || src.chance(1, 5)) {
                auto other = all.empty() || src.chance(1, 2) ? src.blob(16) : sref::cat({ sref::num(0x2112A442, 4), all[src.size(0, all.size() - 1)].id });
                if (!all.empty())
                    other[src.size(4, 15)] ^= static_cast<uint8_t>(1 << src.size(0, 7));
                bool known = false;
                for (const auto& s : all)
                    known = known || (s.open && std::equal(s.id.begin(), s.id.end(), other.begin() + 4));
                if (known)
                    break;
                memcpy(id, other.data(), 16);
                PBT_CHECK(ctx, !agent.forgetTransaction(id, rtt), "unknown transaction", "%s", hex(other).c_str());
                unknown += 1;
                break;
            }
            auto& s = all[src.size(0, all.size() - 1)];
            const auto full = sref::cat({ sref::num(0x2112A442, 4), s.id });
            memcpy(id, full.data(), 16);
            const auto r = agent.forgetTransaction(id, rtt);
            PBT_CHECK(ctx, r == s.open, "transaction", "%s is %s", hex(s.id).c_str(), s.open ? "waiting and wasn't found" : "over and was found");
            if (r) {
                const auto ms = static_cast<double>(sim::nowMicros() - s.when) / 1000.0;
                PBT_CHECK(ctx, std::abs(rtt - ms) <= 0.01 + ms / 1000, "round trip time", "%f, it is %f", rtt, ms);
                answered += 1;
            }
            s.open = false;
            break;
        }
        case 3: {
            const auto age = src.chance(1, 2) ? 5000 : src.range(0, 8000);
            agent.forgetExpiredTransactions(std::chrono::milliseconds(age));
            for (auto& s : all)
                if (s.open && s.when < sim::nowMicros() - age * 1000) {
                    s.open = false;
                    expired += 1;
                }
            break;
        }
        default: { // A response isn't a transaction
            const auto id = src.blob(12);
            Message q(rig::writeStun(src.chance(1, 2) ? 1 : src.oneOf({ 0x101, 0x11, 0x111, 0x115 }), id, {}, nullptr, false));
            const auto is = rig::be16(q.mem.get()) == 1;
            PBT_CHECK(ctx, agent.initResponse(&msg, mem, sizeof(mem), &q.msg) == is, "response", "to a message of type %04x", rig::be16(q.mem.get()));
            if (is) {
                PBT_CHECK(ctx, agent.finishMessage(&msg, std::nullopt, "password"), "not finished", "a response");
                stun::StunTransactionId full;
                memcpy(full, q.mem.get() + 4, 16);
                float rtt = 0;
                PBT_CHECK(ctx, !agent.forgetTransaction(full, rtt), "transaction", "of somebody else");
            }
        }
        }
    }
    ctx.tagN("answered", answered);
    ctx.tagN("expired", expired);
    if (answered >= 2 && (expired || unknown))
        ctx.nontrivial();
}

// ----- Any bytes

void hostile(Src& src, Ctx& ctx)
{
    Bytes b;
    if (src.chance(1, 3)) {
        b = src.bytes(src.size(20, 120));
    } else {
        std::vector<std::pair<unsigned, Bytes>> attrs;
        static const unsigned types[] = { 6, 0x20, 0x24, 0x25, 9, 1, 8, 0x8028 };
        for (size_t n = src.size(0, 6); n > 0; n -= 1)
            attrs.emplace_back(types[src.size(0, 7)], src.blob(src.size(0, 24)));
        const std::string pwd = "password";
        b = rig::writeStun(src.chance(1, 2) ? 1 : 0x101, src.blob(12), attrs, src.chance(1, 2) ? &pwd : nullptr, src.chance(1, 2));
        for (size_t n = src.size(0, 4); n > 0; n -= 1) {
            const auto at = src.size(0, b.size() - 1);
            b[at] = src.u8();
        }
        if (src.chance(1, 2))
            b.resize(src.size(20, b.size()));
        if (src.chance(1, 2))
            setLength(b, b.size() - 20);
    }
    if (src.chance(3, 4)) {
        const auto cookie = sref::num(0x2112A442, 4);
        std::copy(cookie.begin(), cookie.end(), b.begin() + 4);
    }
    ctx.note("%s", hex(b).c_str());
    IceAgent agent;
    {
        Message m(b);
        const auto r1 = agent.verifyRequestMessage(&m.msg, "user", "password");
        const auto r2 = agent.verifyResponseMessage(&m.msg, "password");
        std::string why;
        const std::string user = "user";
        PBT_CHECK(ctx, !r1 || authentic(b, &user, "password", why) != Verdict::No, "request accepted", "%s: %s", why.c_str(), hex(b).c_str());
        PBT_CHECK(ctx, !r2 || authentic(b, nullptr, "password", why) != Verdict::No, "response accepted", "%s: %s", why.c_str(), hex(b).c_str());
    }
    // The validity of lengths
    bool wellFormed = b[0] < 64 && rig::be16(&b[2]) % 4 == 0 && rig::be16(&b[2]) + 20u <= b.size();
    const auto end = rig::be16(&b[2]) + 20u;
    for (size_t p = 20; wellFormed && p < end;) {
        if (p + 4 > end)
            wellFormed = false;
        else {
            p += 4 + (rig::be16(&b[p + 2]) + 3u) / 4 * 4;
            wellFormed = p <= end;
        }
    }
    Message m(b);
    const auto v = stun::stun_message_validate_buffer_length(m.mem.get(), b.size(), true);
    PBT_CHECK(ctx, (v > 0) == wellFormed, "lengths", "%d for %s", v, hex(b).c_str());
    if (wellFormed) {
        PBT_CHECK(ctx, static_cast<size_t>(v) == end, "length", "%d for %s", v, hex(b).c_str());
        for (const auto t : { 6u, 8u, 9u, 0x20u, 0x8028u, 0x24u }) {
            const auto a = static_cast<stun::StunAttribute>(t);
            uint16_t n = 0;
            const auto p = static_cast<const uint8_t*>(stun::stun_message_find(&m.msg, a, &n));
            PBT_CHECK(ctx, !p || (p >= m.mem.get() + 24 && p + n <= m.mem.get() + end), "attribute outside", "%04x of %u bytes", t, n);
            uint32_t v32;
            uint64_t v64;
            char s[16];
            srtc::anyaddr addr = {};
            socklen_t len = sizeof(addr);
            stun::stun_message_find32(&m.msg, a, &v32);
            stun::stun_message_find64(&m.msg, a, &v64);
            stun::stun_message_find_string(&m.msg, a, s, sizeof(s));
            stun::stun_message_find_xor_addr(&m.msg, a, &addr.ss, &len);
            int code;
            stun::stun_message_find_error(&m.msg, &code);
        }
        ctx.nontrivial();
    }
    ctx.tag(wellFormed ? "well formed" : "not well formed");
}

// ----- A whole connection

void connection(Src& src, Ctx& ctx)
{
    sim::resetClock();
    sim::seedRandom(src.u64());
    rig::Duo d(src.chance(1, 2));
    auto& peer = d.peer;
    peer.ufrag = credential(src, 4);
    peer.pwd = credential(src, 22);
    peer.answerStun = false;
    const auto delay = src.range(1, 40) * 1000;
    size_t toNode = 0, clientHello = 0;
    d.world.link = [&](const srtc::anyaddr&, const srtc::anyaddr& to, const Bytes& data) -> std::vector<int64_t> {
        if (rig::same(to, peer.addr) && !data.empty() && data[0] == 22)
            clientHello += 1;
        toNode += rig::same(to, peer.addr) ? 0 : 1;
        return { delay };
    };
    rig::Spec spec;
    spec.direction = src.chance(1, 2) ? srtc::Direction::Publish : srtc::Direction::Subscribe;
    if (d.start(spec).isError())
        ctx.fail("no connection", "cannot be started");

    const auto incoming = peer.remoteUfrag + ":" + peer.ufrag; // requests which the node receives
    const auto nodeAddress = rig::address(1, 4000);
    size_t forged = 0, requestsAnswered = 0;
    bool honoured = false; // A genuine response was sent
    const auto mutate = [&](Bytes b) {
        switch (src.pick({ 3, 1, 1 })) {
        case 0: { // Everything before the value of the fingerprint is signed, the fingerprint is checked
            const auto at = src.size(0, b.size() * 8 - 1);
            b[at / 8] = static_cast<uint8_t>(b[at / 8] ^ 1 << at % 8);
            break;
        }
        case 1:
            b.resize(src.size(1, b.size() - 1));
            break;
        default: {
            const auto at = src.size(0, b.size() - 1);
            b[at] = static_cast<uint8_t>(b[at] + 1 + src.size(0, 253));
        }
        }
        return b;
    };
    const auto steps = src.size(1, 14);
    for (size_t step = 0; step < steps; step += 1) {
        d.world.runFor(src.range(0, 300) * 1000);
        const auto responses = peer.stunResponses.size();
        const auto wasHonoured = honoured;
        const rig::StunMsg* q = peer.stunRequests.empty() ? nullptr : &peer.stunRequests[src.size(0, peer.stunRequests.size() - 1)].second;
        switch (src.pick({ 3, 3, 3, 3, 1 })) {
        case 0: { // A forged response to a request it sent
            if (!q)
                break;
            const auto wrong = src.chance(1, 2) ? peer.remotePwd : credential(src, 22);
            Bytes b;
            if (src.chance(1, 2))
                b = rig::writeStun(0x101, q->tid, { { 0x20, rig::xorAddress(nodeAddress, q->tid) } }, src.chance(1, 5) ? nullptr : &wrong);
            else
                b = mutate(rig::writeStun(0x101, q->tid, { { 0x20, rig::xorAddress(nodeAddress, q->tid) } }, &peer.pwd));
            std::string why;
            if (authentic(b, nullptr, peer.pwd, why) != Verdict::No)
                break;
            forged += 1;
            ctx.note("forged response: %s", why.c_str());
            peer.sendRaw(b);
            break;
        }
        case 1: { // A response to nothing
            const auto id = src.blob(12);
            ctx.note("response to nothing");
            forged += 1;
            peer.sendRaw(rig::writeStun(0x101, id, { { 0x20, rig::xorAddress(nodeAddress, id) } }, &peer.pwd));
            break;
        }
        case 2: { // A request
            const auto id = src.blob(12);
            std::vector<std::pair<unsigned, Bytes>> attrs = { { 6, asBytes(incoming) }, { 0x24, sref::num(src.u32(), 4) }, { 0x8029, sref::num(src.u64(), 8) } };
            if (src.chance(1, 2))
                attrs.insert(attrs.begin(), { 0xC057u, { 0, 1, 0, 10 } });
            const auto b = rig::writeStun(1, id, attrs, &peer.remotePwd);
            if (peer.hasRemote) {
                ctx.note("request");
                peer.sendRaw(b);
                d.world.runFor(delay * 2 + 100000);
                if (d.node->state() == rig::State::Failed)
                    break; // It was given 5 seconds to connect
                PBT_CHECK(ctx, peer.stunResponses.size() == responses + 1, "request not answered", "%zu responses", peer.stunResponses.size() - responses);
                const auto& r = peer.stunResponses.back().second;
                PBT_CHECK(ctx, r.tid == id, "response", "to another request");
                PBT_CHECK(ctx, r.integrityOk(peer.remotePwd) && r.fingerprintOk(), "response", "does not verify: %s", hex(r.raw).c_str());
                const auto a = r.find(0x20);
                PBT_CHECK(ctx, a && *a == rig::xorAddress(peer.addr, id), "mapped address", "%s, expected %s", a ? hex(*a).c_str() : "none", hex(rig::xorAddress(peer.addr, id)).c_str());
                requestsAnswered += 1;
            }
            break;
        }
        case 3: { // A forged request
            if (!peer.hasRemote)
                break;
            const auto id = src.blob(12);
            std::vector<std::pair<unsigned, Bytes>> attrs = { { 6, asBytes(incoming) }, { 0x24, sref::num(src.u32(), 4) }, { 0x8029, sref::num(src.u64(), 8) } };
            const auto wrong = src.chance(1, 2) ? peer.pwd : credential(src, 22);
            auto b = src.chance(1, 2) ? rig::writeStun(1, id, attrs, src.chance(1, 5) ? nullptr : &wrong) : mutate(rig::writeStun(1, id, attrs, &peer.remotePwd));
            std::string why;
            if (authentic(b, &incoming, peer.remotePwd, why) != Verdict::No)
                break;
            ctx.note("forged request: %s", why.c_str());
            forged += 1;
            peer.sendRaw(b);
            d.world.runFor(delay * 2 + 50000);
            PBT_CHECK(ctx, peer.stunResponses.size() == responses, "forged request answered", "%s: %s", why.c_str(), hex(b).c_str());
            break;
        }
        default: // A genuine response to a request which is waiting
            if (q && !honoured) {
                for (const auto& r : peer.stunRequests)
                    if (r.first > sim::nowMicros() - 4000000) {
                        ctx.note("genuine response");
                        peer.sendRaw(rig::writeStun(0x101, r.second.tid, { { 0x20, rig::xorAddress(nodeAddress, r.second.tid) } }, &peer.pwd));
                        honoured = true;
                        break;
                    }
            }
        }
        d.world.runFor(delay * 2 + 5000);
        if (!wasHonoured && !honoured) {
            PBT_CHECK(ctx, clientHello == 0, "DTLS was started", "without a genuine response");
            for (const auto& r : peer.stunRequests)
                PBT_CHECK(ctx, !r.second.find(0x25), "candidate chosen", "without a genuine response");
        }
        if (d.node->state() == rig::State::Failed)
            break;
    }
    // What the node sent is right, and it still connects
    d.world.runFor(delay * 2);
    PBT_CHECK(ctx, peer.problems.empty(), "what was sent", "%s", peer.problems.empty() ? "" : peer.problems[0].c_str());
    for (const auto& r : peer.stunRequests) {
        const auto p = r.second.find(0x24);
        PBT_CHECK(ctx, p && p->size() == 4 && rig::be32(p->data()) > 0 && (*p)[0] <= 126, "priority", "of a request: %s", hex(r.second.raw).c_str());
        PBT_CHECK(ctx, r.second.find(0x802A) && r.second.find(0x802A)->size() == 8, "role", "not stated: %s", hex(r.second.raw).c_str());
        PBT_CHECK(ctx, *r.second.find(0x802A) == *peer.stunRequests[0].second.find(0x802A), "tie breaker", "changed");
    }
    for (size_t i = 0; i < peer.stunRequests.size(); i += 1)
        for (size_t k = 0; k < i; k += 1)
            PBT_CHECK(ctx, peer.stunRequests[i].second.tid != peer.stunRequests[k].second.tid, "transaction id", "used twice");
    if (sim::nowMicros() < 3000000 && d.node->state() != rig::State::Failed) {
        // Now the genuine responses come, also those to requests which were answered wrongly before
        peer.answerStun = true;
        for (const auto& r : peer.stunRequests)
            if (r.first > sim::nowMicros() - 4000000) {
                peer.sendRaw(rig::writeStun(0x101, r.second.tid, { { 0x20, rig::xorAddress(nodeAddress, r.second.tid) } }, &peer.pwd));
                if (src.chance(1, 2))
                    break;
            }
        const auto chosen = [&] {
            for (const auto& r : peer.stunRequests)
                if (r.second.find(0x25))
                    return true;
            return false;
        };
        if (!peer.stunRequests.empty()) {
            d.world.runFor(delay * 2 + 20000);
            PBT_CHECK(ctx, chosen(), "genuine response not honoured", "after %zu forged messages", forged);
            PBT_CHECK(ctx, d.connect(4000000), "not connected", "after %zu forged messages", forged);
            ctx.tag("connected");
        }
    }
    ctx.tagN("forged messages", forged);
    ctx.tagN("requests answered", requestsAnswered);
    if (forged && (requestsAnswered || honoured))
        ctx.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
    return run(argc, argv,
        { "P21",
            "messages: with attributes added; verify: a damaged message which is not authentic; transactions: two were answered, and one expired or was unknown; hostile: bytes which are well formed; connection: "
            "forged messages, and genuine ones",
            { "a message with anything after its fingerprint, anything but that after its integrity, repeated user names, or bytes after its end may be accepted or not when it is authentic otherwise",
                "a response is only asked for while its request is younger than 4 s" },
            { { "messages", 3, messages }, { "verify", 4, verify }, { "transactions", 2, transactions }, { "hostile", 3, hostile }, { "connection", 4, connection } } });
}
