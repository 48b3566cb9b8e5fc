// An independent implementation of RFC 3711 and RFC 7714, from the AES block cipher and SHA-1 up
#pragma once

#include "media_gen.h"

#include "srtc/srtp_connection.h"
#include "srtc/srtp_crypto.h"

#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/srtp.h>

#include <map>
#include <optional>
#include <set>

namespace sref
{

using gen::Bytes;

struct Aes {
    EVP_CIPHER_CTX* ctx;
    explicit Aes(const Bytes& key)
    {
        ctx = EVP_CIPHER_CTX_new();
        EVP_EncryptInit_ex(ctx, key.size() == 16 ? EVP_aes_128_ecb() : EVP_aes_256_ecb(), nullptr, key.data(), nullptr);
        EVP_CIPHER_CTX_set_padding(ctx, 0);
    }
    Aes(const Aes&) = delete;
    ~Aes()
    {
        EVP_CIPHER_CTX_free(ctx);
    }
    void block(const uint8_t* in, uint8_t* out) const
    {
        int n = 0;
        EVP_EncryptUpdate(ctx, out, &n, in, 16);
    }
};

// Key stream of AES in counter mode, the counter being the last `counterBytes` bytes
inline void counterMode(const Aes& aes, Bytes iv, size_t counterBytes, uint8_t* data, size_t size)
{
    uint8_t ks[16];
    for (size_t i = 0; i < size; i += 1) {
        if (i % 16 == 0) {
            aes.block(iv.data(), ks);
            for (size_t k = 0; k < counterBytes; k += 1) {
                if (++iv[15 - k] != 0)
                    break;
            }
        }
        data[i] ^= ks[i % 16];
    }
}

// NIST SP 800-38D, multiplication bit by bit
struct Ghash {
    uint64_t hh, hl, yh = 0, yl = 0;
    static uint64_t load(const uint8_t* p)
    {
        uint64_t v = 0;
        for (int i = 0; i < 8; i += 1)
            v = v << 8 | p[i];
        return v;
    }
    explicit Ghash(const uint8_t h[16])
        : hh(load(h))
        , hl(load(h + 8))
    {
    }
    void block(const uint8_t* p)
    {
        yh ^= load(p);
        yl ^= load(p + 8);
        uint64_t zh = 0, zl = 0, vh = hh, vl = hl;
        for (int i = 0; i < 128; i += 1) {
            const auto bit = i < 64 ? yh >> (63 - i) & 1 : yl >> (127 - i) & 1;
            zh ^= bit ? vh : 0;
            zl ^= bit ? vl : 0;
            const auto lsb = vl & 1;
            vl = vl >> 1 | vh << 63;
            vh = vh >> 1 ^ (lsb ? 0xe100000000000000ull : 0);
        }
        yh = zh;
        yl = zl;
    }
    void padded(const uint8_t* p, size_t n)
    {
        for (size_t i = 0; i < n; i += 16) {
            uint8_t b[16] = {};
            std::memcpy(b, p + i, std::min<size_t>(16, n - i));
            block(b);
        }
    }
    void lengths(uint64_t a, uint64_t c)
    {
        uint8_t b[16];
        for (int i = 0; i < 8; i += 1) {
            b[i] = static_cast<uint8_t>(a * 8 >> (56 - 8 * i));
            b[8 + i] = static_cast<uint8_t>(c * 8 >> (56 - 8 * i));
        }
        block(b);
    }
};

inline Bytes gcmSeal(const Bytes& key, const Bytes& iv12, const Bytes& aad, const Bytes& plain)
{
    const Aes aes(key);
    uint8_t h[16] = {};
    aes.block(h, h);
    Bytes j0 = iv12;
    j0.insert(j0.end(), { 0, 0, 0, 1 });
    Bytes ctr = j0;
    ctr[15] = 2;
    Bytes out = plain;
    counterMode(aes, ctr, 4, out.data(), out.size());
    Ghash g(h);
    g.padded(aad.data(), aad.size());
    g.padded(out.data(), out.size());
    g.lengths(aad.size(), out.size());
    uint8_t tag[16], ek[16];
    for (int i = 0; i < 8; i += 1) {
        tag[i] = static_cast<uint8_t>(g.yh >> (56 - 8 * i));
        tag[8 + i] = static_cast<uint8_t>(g.yl >> (56 - 8 * i));
    }
    aes.block(j0.data(), ek);
    for (int i = 0; i < 16; i += 1)
        out.push_back(tag[i] ^ ek[i]);
    return out;
}

inline Bytes sha1(const Bytes& b)
{
    Bytes out(20);
    unsigned n = 20;
    EVP_Digest(b.data(), b.size(), out.data(), &n, EVP_sha1(), nullptr);
    return out;
}

// RFC 2104
inline Bytes hmacSha1(const Bytes& key, const Bytes& data)
{
    if (key.size() > 64)
        return hmacSha1(sha1(key), data);
    Bytes i(64, 0x36), o(64, 0x5c);
    for (size_t k = 0; k < key.size(); k += 1) {
        i[k] ^= key[k];
        o[k] ^= key[k];
    }
    i.insert(i.end(), data.begin(), data.end());
    const auto inner = sha1(i);
    o.insert(o.end(), inner.begin(), inner.end());
    return sha1(o);
}

struct Profile {
    uint64_t id;
    const char* name;
    size_t keySize, saltSize;
    bool gcm;
    size_t tag, tagControl;
};

inline const Profile& profile(size_t i)
{
    static const Profile list[] = { { SRTP_AEAD_AES_128_GCM, "AEAD_AES_128_GCM", 16, 12, true, 16, 16 },
                                    { SRTP_AEAD_AES_256_GCM, "AEAD_AES_256_GCM", 32, 12, true, 16, 16 },
                                    { SRTP_AES128_CM_SHA1_80, "AES128_CM_SHA1_80", 16, 14, false, 10, 10 },
                                    { SRTP_AES128_CM_SHA1_32, "AES128_CM_SHA1_32", 16, 14, false, 4, 10 } };
    return list[i];
}

inline Bytes cat(std::initializer_list<Bytes> list)
{
    Bytes b;
    for (const auto& x : list)
        b.insert(b.end(), x.begin(), x.end());
    return b;
}

inline Bytes num(uint64_t v, size_t n)
{
    Bytes b;
    while (n-- > 0)
        b.push_back(static_cast<uint8_t>(v >> (8 * n)));
    return b;
}

inline size_t rtpHeaderSize(const Bytes& p)
{
    size_t n = 12 + 4 * (p[0] & 15);
    if (p[0] & 0x10)
        n += 4 + 4 * (p[n + 2] << 8 | p[n + 3]);
    return n;
}

// One direction
class Session
{
public:
    const Profile* mProfile;
    Bytes mKey[2], mAuth[2], mSalt[2]; // media, control

    Session(const Profile& p, const Bytes& masterKey, const Bytes& masterSalt)
        : mProfile(&p)
    {
        for (uint8_t k = 0; k < 2; k += 1) {
            mKey[k] = derive(masterKey, masterSalt, static_cast<uint8_t>(3 * k), p.keySize);
            mAuth[k] = derive(masterKey, masterSalt, static_cast<uint8_t>(3 * k + 1), 20);
            mSalt[k] = derive(masterKey, masterSalt, static_cast<uint8_t>(3 * k + 2), p.saltSize);
        }
    }

    // RFC 3711 section 4.3
    static Bytes derive(const Bytes& key, const Bytes& salt, uint8_t label, size_t size)
    {
        Bytes x = salt;
        x.resize(16, 0);
        x[7] ^= label;
        Bytes out(size, 0);
        counterMode(Aes(key), x, 2, out.data(), out.size());
        return out;
    }

    Bytes cmIv(int k, uint32_t ssrc, uint64_t index48) const
    {
        auto iv = cat({ num(0, 4), num(ssrc, 4), num(index48, 6), num(0, 2) });
        for (size_t i = 0; i < 14; i += 1)
            iv[i] ^= mSalt[k][i];
        return iv;
    }

    Bytes gcmIv(int k, uint32_t ssrc, uint64_t index48) const
    {
        auto iv = cat({ num(0, 2), num(ssrc, 4), num(index48, 6) });
        for (size_t i = 0; i < 12; i += 1)
            iv[i] ^= mSalt[k][i];
        return iv;
    }

    Bytes media(const Bytes& p, uint32_t roc) const
    {
        const auto h = rtpHeaderSize(p);
        const Bytes head(p.begin(), p.begin() + h);
        Bytes body(p.begin() + h, p.end());
        const uint32_t ssrc = static_cast<uint32_t>(p[8]) << 24 | p[9] << 16 | p[10] << 8 | p[11];
        const uint64_t index = static_cast<uint64_t>(roc) << 16 | p[2] << 8 | p[3];
        if (mProfile->gcm)
            return cat({ head, gcmSeal(mKey[0], gcmIv(0, ssrc, index), head, body) });
        counterMode(Aes(mKey[0]), cmIv(0, ssrc, index), 2, body.data(), body.size());
        auto tag = hmacSha1(mAuth[0], cat({ head, body, num(roc, 4) }));
        tag.resize(mProfile->tag);
        return cat({ head, body, tag });
    }

    Bytes control(const Bytes& p, uint32_t index, bool encrypt = true) const
    {
        const Bytes head(p.begin(), p.begin() + 8);
        Bytes body(p.begin() + 8, p.end());
        const uint32_t ssrc = static_cast<uint32_t>(p[4]) << 24 | p[5] << 16 | p[6] << 8 | p[7];
        const auto word = num(index | (encrypt ? 0x80000000u : 0), 4);
        if (mProfile->gcm) {
            const auto iv = gcmIv(1, ssrc, index);
            if (encrypt)
                return cat({ head, gcmSeal(mKey[1], iv, cat({ head, word }), body), word });
            return cat({ p, gcmSeal(mKey[1], iv, cat({ p, word }), {}), word });
        }
        if (encrypt)
            counterMode(Aes(mKey[1]), cmIv(1, ssrc, index), 2, body.data(), body.size());
        auto tag = hmacSha1(mAuth[1], cat({ head, body, word }));
        tag.resize(mProfile->tagControl);
        return cat({ head, body, word, tag });
    }

    // The inverses, nothing when the tag does not match
    std::optional<Bytes> openMedia(const Bytes& wire, uint32_t roc) const
    {
        if (wire.size() < 12 + mProfile->tag || wire.size() < rtpHeaderSize(wire) + mProfile->tag)
            return {};
        auto p = media(Bytes(wire.begin(), wire.end() - static_cast<long>(mProfile->tag)), roc);
        p.resize(wire.size() - mProfile->tag);
        if (media(p, roc) != wire)
            return {};
        return p;
    }

    std::optional<Bytes> openControl(const Bytes& wire, uint32_t& index) const
    {
        const auto trailer = 4 + mProfile->tagControl;
        if (wire.size() < 8 + trailer)
            return {};
        const auto at = mProfile->gcm ? wire.size() - 4 : wire.size() - trailer;
        const auto word = static_cast<uint32_t>(wire[at]) << 24 | wire[at + 1] << 16 | wire[at + 2] << 8 | wire[at + 3];
        index = word & 0x7fffffff;
        auto p = control(Bytes(wire.begin(), wire.end() - static_cast<long>(trailer)), index);
        p.resize(wire.size() - trailer);
        if (!(word >> 31) || control(p, index) != wire)
            return {};
        return p;
    }
};

inline srtc::CryptoBytes crypto(const Bytes& b)
{
    srtc::CryptoBytes c;
    c.assign(b.data(), b.size());
    return c;
}

struct Keys {
    Bytes key, salt;
};

inline Keys genKeys(pbt::Src& src, const Profile& p)
{
    return { src.blob(p.keySize), src.blob(p.saltSize) };
}

// A plain RTP packet
inline Bytes genRtp(pbt::Src& src, uint32_t ssrc, uint8_t pt, uint16_t seq, size_t maxPayload)
{
    const auto x = src.chance(1, 2), pad = src.chance(1, 4);
    const auto cc = src.chance(1, 4) ? src.size(1, 15) : 0;
    Bytes b = { static_cast<uint8_t>(0x80 | (pad ? 0x20 : 0) | (x ? 0x10 : 0) | cc), static_cast<uint8_t>((src.chance(1, 2) ? 0x80 : 0) | pt) };
    b = cat({ b, num(seq, 2), num(src.u32(), 4), num(ssrc, 4), src.blob(4 * cc) });
    if (x) {
        const auto words = src.oneOf<size_t>({ 0, 1, 2, src.size(0, 20), src.size(0, 100) });
        b = cat({ b, num(src.chance(1, 2) ? 0xbede : 0x1000, 2), num(words, 2), src.blob(4 * words) });
    }
    b = cat({ b, src.blob(src.oneOf<size_t>({ 1, 15, 16, 17, 32, src.size(1, 64), src.size(1, maxPayload) })) });
    if (pad) {
        const auto n = src.size(1, 255);
        b.insert(b.end(), n - 1, 0);
        b.push_back(static_cast<uint8_t>(n));
    }
    return b;
}

inline Bytes genRtcp(pbt::Src& src, uint32_t ssrc, size_t maxWords)
{
    const auto words = src.oneOf<size_t>({ 0, 1, 2, 4, 6, src.size(0, maxWords) });
    return cat({ Bytes{ static_cast<uint8_t>(0x80 | src.size(0, 31)), static_cast<uint8_t>(src.range(200, 207)) }, num(words + 1, 2), num(ssrc, 4), src.blob(4 * words) });
}

} // namespace sref
