// Mode objects of the library behind one interface, over the shipped ciphers
// and over toy ciphers of other block sizes and batch widths.
#pragma once
#include "pbt.h"
#include "ref/ref_sym.h"

#include <gmlib/aes/aes_mode.h>
#include <gmlib/sm4/sm4_mode.h>

#include <memory>

namespace modes {
using pbt::Bytes;
using pbt::u8;

// keyed byte permutation, deliberately direction-sensitive: using it in the
// direction it was not keyed for gives a different function
inline void toy_enc(const u8* k, std::size_t bs, u8* x)
{
    for (int r = 0; r < 3; r++)
        for (std::size_t i = 0; i < bs; i++)
            x[i] = (u8)((x[i] ^ (u8)(x[(i + 1) % bs] * 29 + k[(i + r) % 16] + (bs == 1 ? -x[0] * 29 : 0))) + k[(3 * i + r + 7) % 16] + i);
}
inline void toy_dec(const u8* k, std::size_t bs, u8* x)
{
    for (int r = 2; r >= 0; r--)
        for (std::size_t i = bs; i-- > 0;)
            x[i] = (u8)((u8)(x[i] - k[(3 * i + r + 7) % 16] - i) ^ (u8)(x[(i + 1) % bs] * 29 + k[(i + r) % 16]));
}
template <std::size_t BS, std::size_t PAR>
class Toy
{
public:
    static constexpr int         ENCRYPTION   = 1;
    static constexpr int         DECRYPTION   = 0;
    static constexpr std::size_t BLOCK_SIZE   = BS;
    static constexpr std::size_t USER_KEY_LEN = 16;
    static constexpr std::size_t PARALLEL_NUM = PAR;
    u8                           k_[16];
    int                          dir_ = -1;
    void                         set_key(const u8* k, int enc)
    {
        std::memcpy(k_, k, 16);
        dir_ = enc;
    }
    void encrypt_block(u8* o, const u8* i) const
    {
        u8 t[BS];
        std::memcpy(t, i, BS);
        toy_enc(k_, BS, t);
        if (dir_ != 1)
            t[0] ^= 0x5a;
        std::memcpy(o, t, BS);
    }
    void decrypt_block(u8* o, const u8* i) const
    {
        u8 t[BS];
        std::memcpy(t, i, BS);
        toy_dec(k_, BS, t);
        if (dir_ != 0)
            t[0] ^= 0x5a;
        std::memcpy(o, t, BS);
    }
    void encrypt_blocks(u8* o, const u8* i, std::size_t n) const
    {
        for (; n; n--, o += BS, i += BS)
            encrypt_block(o, i);
    }
    void decrypt_blocks(u8* o, const u8* i, std::size_t n) const
    {
        for (; n; n--, o += BS, i += BS)
            decrypt_block(o, i);
    }
};
template <std::size_t BS>
ref::Cipher toy_cipher(const Bytes& key)
{
    return {BS, [key](u8* o, const u8* i) { Bytes t(i, i + BS); toy_enc(key.data(), BS, t.data()); std::memcpy(o, t.data(), BS); },
            [key](u8* o, const u8* i) { Bytes t(i, i + BS); toy_dec(key.data(), BS, t.data()); std::memcpy(o, t.data(), BS); }};
}

struct Obj
{
    virtual ~Obj()                                                                      = default;
    virtual void init(const u8* key, const u8* iv)                                      = 0;
    virtual void reset(const u8* iv)                                                    = 0;
    virtual void update(u8* out, std::size_t* outl, const u8* in, std::size_t inl)      = 0;
    virtual void do_final(u8* out, std::size_t* outl, const u8* in, std::size_t inl)    = 0;
    virtual void do_final0(u8* out, std::size_t* outl)                                  = 0;
};
template <class M, bool HasIv>
struct ObjT : Obj
{
    M m;
    ObjT() = default;
    ObjT(const u8* key, [[maybe_unused]] const u8* iv) : m(mk(key, iv)) {}
    static M mk(const u8* key, [[maybe_unused]] const u8* iv)
    {
        if constexpr (HasIv)
            return M(key, iv);
        else
            return M(key);
    }
    void init(const u8* key, [[maybe_unused]] const u8* iv) override
    {
        if constexpr (HasIv)
            m.init(key, iv);
        else
            m.init(key);
    }
    void reset([[maybe_unused]] const u8* iv) override
    {
        if constexpr (HasIv)
            m.reset(iv);
        else
            m.reset();
    }
    void update(u8* o, std::size_t* ol, const u8* i, std::size_t n) override { m.update(o, ol, i, n); }
    void do_final(u8* o, std::size_t* ol, const u8* i, std::size_t n) override { m.do_final(o, ol, i, n); }
    void do_final0(u8* o, std::size_t* ol) override { m.do_final(o, ol); }
};
struct GcmObj
{
    virtual ~GcmObj()                                                                                    = default;
    virtual void init(const u8* key, const u8* iv, std::size_t ivl, const u8* aad, std::size_t al)       = 0;
    virtual void update(u8* out, std::size_t* outl, const u8* in, std::size_t inl)                       = 0;
    virtual void do_final(u8* out, std::size_t* outl, const u8* in, std::size_t inl)                     = 0;
    virtual void get_tag(u8*) {}
    virtual void set_tag(const u8*) {}
};
template <class M, bool Enc>
struct GcmObjT : GcmObj
{
    M m;
    GcmObjT() = default;
    GcmObjT(const u8* key, const u8* iv, std::size_t ivl, const u8* aad, std::size_t al) : m(key, iv, ivl, aad, al) {}
    void init(const u8* key, const u8* iv, std::size_t ivl, const u8* aad, std::size_t al) override { m.init(key, iv, ivl, aad, al); }
    void update(u8* o, std::size_t* ol, const u8* i, std::size_t n) override { m.update(o, ol, i, n); }
    void do_final(u8* o, std::size_t* ol, const u8* i, std::size_t n) override { m.do_final(o, ol, i, n); }
    void get_tag(u8* t) override
    {
        if constexpr (Enc)
            m.get_tag(t);
    }
    void set_tag(const u8* t) override
    {
        if constexpr (!Enc)
            m.set_tag(t);
    }
};

struct Suite
{
    const char* name;
    std::size_t key_len, bs;
    ref::Cipher (*refc)(const Bytes&);
    std::unique_ptr<Obj> (*make)(ref::Mode, bool enc, const u8* key, const u8* iv); // key==nullptr: default-constructed
    bool (*sizes)(std::size_t, std::size_t);
};
struct GcmSuite
{
    const char* name;
    std::size_t key_len;
    ref::Cipher (*refc)(const Bytes&);
    std::unique_ptr<GcmObj> (*make)(bool enc);
    std::unique_ptr<GcmObj> (*make_init)(bool enc, const u8*, const u8*, std::size_t, const u8*, std::size_t);
};

// the mode types of a cipher: the templates for the toy ciphers, the names the
// library declares for the shipped ones
template <class C>
struct Names
{
    using EcbEncryptor = block_cipher_mode::EcbEncryptor<C>;
    using EcbDecryptor = block_cipher_mode::EcbDecryptor<C>;
    using CbcEncryptor = block_cipher_mode::CbcEncryptor<C>;
    using CbcDecryptor = block_cipher_mode::CbcDecryptor<C>;
    using CfbEncryptor = block_cipher_mode::CfbEncryptor<C>;
    using CfbDecryptor = block_cipher_mode::CfbDecryptor<C>;
    using OfbEncryptor = block_cipher_mode::OfbEncryptor<C>;
    using OfbDecryptor = block_cipher_mode::OfbDecryptor<C>;
    using CtrEncryptor = block_cipher_mode::CtrEncryptor<C>;
    using CtrDecryptor = block_cipher_mode::CtrDecryptor<C>;
    using GcmEncryptor = block_cipher_mode::GcmEncryptor<C>;
    using GcmDecryptor = block_cipher_mode::GcmDecryptor<C>;
};
#define NAMES(C, PREFIX) \
    template <> \
    struct Names<C> \
    { \
        using EcbEncryptor = PREFIX##EcbEncryptor; \
        using EcbDecryptor = PREFIX##EcbDecryptor; \
        using CbcEncryptor = PREFIX##CbcEncryptor; \
        using CbcDecryptor = PREFIX##CbcDecryptor; \
        using CfbEncryptor = PREFIX##CfbEncryptor; \
        using CfbDecryptor = PREFIX##CfbDecryptor; \
        using OfbEncryptor = PREFIX##OfbEncryptor; \
        using OfbDecryptor = PREFIX##OfbDecryptor; \
        using CtrEncryptor = PREFIX##CtrEncryptor; \
        using CtrDecryptor = PREFIX##CtrDecryptor; \
        using GcmEncryptor = PREFIX##GcmEncryptor; \
        using GcmDecryptor = PREFIX##GcmDecryptor; \
    };
NAMES(sm4::SM4, sm4::SM4)
NAMES(aes::AES128, aes::AES128)
NAMES(aes::AES192, aes::AES192)
NAMES(aes::AES256, aes::AES256)
template <class M, bool IV>
std::unique_ptr<Obj> mk1(const u8* key, const u8* iv)
{
    return key ? std::make_unique<ObjT<M, IV>>(key, iv) : std::make_unique<ObjT<M, IV>>();
}
template <class C>
std::unique_ptr<Obj> make_mode(ref::Mode m, bool enc, const u8* key, const u8* iv)
{
    using N = Names<C>;
    switch (m)
    {
    case ref::ECB: return enc ? mk1<typename N::EcbEncryptor, false>(key, iv) : mk1<typename N::EcbDecryptor, false>(key, iv);
    case ref::CBC: return enc ? mk1<typename N::CbcEncryptor, true>(key, iv) : mk1<typename N::CbcDecryptor, true>(key, iv);
    case ref::CFB: return enc ? mk1<typename N::CfbEncryptor, true>(key, iv) : mk1<typename N::CfbDecryptor, true>(key, iv);
    case ref::OFB: return enc ? mk1<typename N::OfbEncryptor, true>(key, iv) : mk1<typename N::OfbDecryptor, true>(key, iv);
    default: return enc ? mk1<typename N::CtrEncryptor, true>(key, iv) : mk1<typename N::CtrDecryptor, true>(key, iv);
    }
}
// the sizes each mode type declares are those of its cipher
template <class C>
bool sizes_ok(std::size_t bs, std::size_t kl)
{
    using N = Names<C>;
    auto ok = [&](std::size_t b, std::size_t k) { return b == bs && k == kl; };
#define OK(M) ok(N::M##Encryptor::BLOCK_SIZE, N::M##Encryptor::USER_KEY_LEN) && ok(N::M##Decryptor::BLOCK_SIZE, N::M##Decryptor::USER_KEY_LEN)
    bool r = OK(Ecb) && OK(Cbc) && OK(Cfb) && OK(Ofb) && OK(Ctr);
    if constexpr (C::BLOCK_SIZE == 16)
        r = r && OK(Gcm);
#undef OK
    return r;
}
template <class C>
std::unique_ptr<GcmObj> make_gcm(bool enc)
{
    using N = Names<C>;
    if (enc)
        return std::make_unique<GcmObjT<typename N::GcmEncryptor, true>>();
    return std::make_unique<GcmObjT<typename N::GcmDecryptor, false>>();
}
template <class C>
std::unique_ptr<GcmObj> make_gcm_init(bool enc, const u8* k, const u8* iv, std::size_t ivl, const u8* aad, std::size_t al)
{
    using N = Names<C>;
    if (enc)
        return std::make_unique<GcmObjT<typename N::GcmEncryptor, true>>(k, iv, ivl, aad, al);
    return std::make_unique<GcmObjT<typename N::GcmDecryptor, false>>(k, iv, ivl, aad, al);
}
#define SUITE(NAME, KL, C, R) {NAME, KL, C::BLOCK_SIZE, R, make_mode<C>, sizes_ok<C>}
using T1_1 = Toy<1, 1>;
using T3_4 = Toy<3, 4>;
using T8_1 = Toy<8, 1>;
using T8_3 = Toy<8, 3>;
using T16_1 = Toy<16, 1>;
using T16_2 = Toy<16, 2>;
using T16_5 = Toy<16, 5>;
using T16_16 = Toy<16, 16>;
using T24_2 = Toy<24, 2>;
using T32_3 = Toy<32, 3>;
using T64_2 = Toy<64, 2>;
inline const std::vector<Suite>& suites()
{
    static const std::vector<Suite> v = {
        SUITE("SM4", 16, sm4::SM4, ref::sm4_cipher),       SUITE("AES128", 16, aes::AES128, ref::aes_cipher),
        SUITE("AES192", 24, aes::AES192, ref::aes_cipher), SUITE("AES256", 32, aes::AES256, ref::aes_cipher),
        SUITE("toy16/1", 16, T16_1, toy_cipher<16>),       SUITE("toy16/2", 16, T16_2, toy_cipher<16>),
        SUITE("toy16/5", 16, T16_5, toy_cipher<16>),       SUITE("toy16/16", 16, T16_16, toy_cipher<16>),
        SUITE("toy8/1", 16, T8_1, toy_cipher<8>),          SUITE("toy8/3", 16, T8_3, toy_cipher<8>),
        SUITE("toy3/4", 16, T3_4, toy_cipher<3>),          SUITE("toy24/2", 16, T24_2, toy_cipher<24>),
        SUITE("toy32/3", 16, T32_3, toy_cipher<32>),       SUITE("toy64/2", 16, T64_2, toy_cipher<64>),
    };
    return v;
}
#define GSUITE(NAME, KL, C, R) {NAME, KL, R, make_gcm<C>, make_gcm_init<C>}
inline const std::vector<GcmSuite>& gcm_suites()
{
    static const std::vector<GcmSuite> v = {
        GSUITE("SM4", 16, sm4::SM4, ref::sm4_cipher),       GSUITE("AES128", 16, aes::AES128, ref::aes_cipher),
        GSUITE("AES192", 24, aes::AES192, ref::aes_cipher), GSUITE("AES256", 32, aes::AES256, ref::aes_cipher),
        GSUITE("toy16/1", 16, T16_1, toy_cipher<16>),       GSUITE("toy16/5", 16, T16_5, toy_cipher<16>),
        GSUITE("toy16/16", 16, T16_16, toy_cipher<16>),
    };
    return v;
}
inline const char* mode_name(ref::Mode m)
{
    static const char* n[] = {"ECB", "CBC", "CFB", "OFB", "CTR"};
    return n[m];
}
// which suite: the shipped ciphers half of the time
inline const Suite& pick(pbt::Source& s)
{
    return s.coin() ? suites()[s.below(4)] : suites()[4 + s.below(suites().size() - 4)];
}
inline const GcmSuite& pick_gcm(pbt::Source& s)
{
    return s.coin(3, 4) ? gcm_suites()[s.below(4)] : gcm_suites()[4 + s.below(gcm_suites().size() - 4)];
}
// an IV whose value as a counter is often about to wrap at some byte or word
inline Bytes counter_iv(pbt::Source& s, std::size_t bs)
{
    Bytes iv = s.bytes(bs);
    if (s.coin())
    {
        std::size_t k = s.below(bs) + 1;
        for (std::size_t i = bs - k; i < bs; i++)
            iv[i] = 0xff;
        iv[bs - 1] = (u8)(0xff - s.below(40));
    }
    return iv;
}
// the inverse in GF(2^128) (SP 800-38D convention), for building IVs that hit
// chosen counter blocks
inline Bytes gf_inv(const Bytes& h)
{
    Bytes r(16, 0), t = h;
    r[0] = 0x80;
    for (int i = 0; i < 127; i++)
    {
        u8 x[16];
        ref::gf128_mul(x, t.data(), t.data());
        t.assign(x, x + 16);
        ref::gf128_mul(x, r.data(), t.data());
        r.assign(x, x + 16);
    }
    return r;
}
// an IV of any length; sometimes a 16-byte one whose initial counter block ends
// in a 32-bit word about to wrap
inline Bytes gcm_iv(pbt::Source& s, const ref::Cipher& ci, bool* wraps = nullptr)
{
    switch (s.below(8))
    {
    case 0:
    case 1:
    case 2: return s.bytes(12);
    case 3:
    case 4:
    {
        u8 z[16] = {0}, hb[16];
        ci.enc(hb, z);
        Bytes h(hb, hb + 16), hi = gf_inv(h);
        Bytes j = s.rnd(16);
        for (std::size_t i = 12; i < 16; i++)
            j[i] = 0xff;
        j[15] = (u8)(0xff - s.below(20));
        u8 a[16], b[16];
        ref::gf128_mul(a, j.data(), hi.data());
        a[15] ^= 128;
        ref::gf128_mul(b, a, hi.data());
        if (wraps)
            *wraps = true;
        return Bytes(b, b + 16);
    }
    default:
    {
        std::size_t n = s.len(100, 16);
        return s.bytes(n ? n : 1);
    }
    }
}
// cut n bytes into pieces, zero-length ones included
inline std::vector<std::size_t> cut(pbt::Source& s, std::size_t n, std::size_t unit, std::size_t max_pieces = 12)
{
    std::vector<std::size_t> v;
    std::size_t              left = n, k = s.below(max_pieces);
    for (std::size_t i = 0; i < k; i++)
    {
        std::size_t t;
        switch (s.below(6))
        {
        case 0: t = 0; break;
        case 1: t = 1; break;
        case 2: t = s.below(unit + 2); break;
        case 3: t = unit * s.below(4); break;
        case 4: t = s.len(left, unit); break;
        default: t = s.below(left + 1);
        }
        if (t > left)
            t = left;
        v.push_back(t);
        left -= t;
    }
    v.push_back(left);
    return v;
}
} // namespace modes
