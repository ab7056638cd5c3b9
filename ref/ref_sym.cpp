#include "ref_sym.h"
#include <cstring>
#include <stdexcept>
namespace ref {

// ---- helpers -----------------------------------------------------------
static u32 be32(const u8* p) { return (u32)p[0] << 24 | (u32)p[1] << 16 | (u32)p[2] << 8 | p[3]; }
static void put32(u8* p, u32 v) { p[0] = v >> 24, p[1] = v >> 16, p[2] = v >> 8, p[3] = v; }
static void put64(u8* p, u64 v) { put32(p, v >> 32), put32(p + 4, (u32)v); }
static u32 rol(u32 x, unsigned n) { n &= 31; return n ? (x << n) | (x >> (32 - n)) : x; }
static u8 rol8(u8 x, unsigned n) { n &= 7; return n ? (u8)((x << n) | (x >> (8 - n))) : x; }

static u8 gmul(u8 a, u8 b, unsigned poly)
{
    unsigned r = 0, x = a;
    for (int i = 0; i < 8; i++)
    {
        if (b >> i & 1)
            r ^= x;
        x <<= 1;
        if (x & 0x100)
            x ^= poly;
    }
    return (u8)r;
}
static u8 ginv(u8 a, unsigned poly)
{
    // a^254
    u8 r = 1;
    for (int i = 0; i < 254; i++)
        r = gmul(r, a, poly);
    return r;
}
static u8 parity(u8 x)
{
    x ^= x >> 4, x ^= x >> 2, x ^= x >> 1;
    return x & 1;
}

// ---- SM4 ---------------------------------------------------------------
struct Sm4Tab
{
    u8 S[256];
    Sm4Tab()
    {
        auto aff = [](u8 x) {
            u8 r = 0;
            for (int i = 0; i < 8; i++)
                r |= parity(rol8(0xa7, i) & x) << i;
            return (u8)(r);
        };
        for (int x = 0; x < 256; x++)
        {
            u8 t = aff((u8)x) ^ 0xd3;
            S[x] = aff(ginv(t, 0x1f5)) ^ 0xd3;
        }
    }
};
static const Sm4Tab& sm4tab()
{
    static const Sm4Tab t;
    return t;
}
static u32 sm4_tau(u32 x)
{
    u8 b[4];
    put32(b, x);
    for (auto& v : b)
        v = sm4tab().S[v];
    return be32(b);
}
static void sm4_rk(const u8 key[16], u32 rk[32])
{
    static const u32 FK[4] = {0xa3b1bac6, 0x56aa3350, 0x677d9197, 0xb27022dc};
    u32              K[36];
    for (int i = 0; i < 4; i++)
        K[i] = be32(key + 4 * i) ^ FK[i];
    for (int i = 0; i < 32; i++)
    {
        u8 ck[4];
        for (int j = 0; j < 4; j++)
            ck[j] = (u8)((4 * i + j) * 7);
        u32 t    = sm4_tau(K[i + 1] ^ K[i + 2] ^ K[i + 3] ^ be32(ck));
        K[i + 4] = K[i] ^ t ^ rol(t, 13) ^ rol(t, 23);
        rk[i]    = K[i + 4];
    }
}
static void sm4_core(const u32 rk[32], bool enc, u8 out[16], const u8 in[16])
{
    u32 X[36];
    for (int i = 0; i < 4; i++)
        X[i] = be32(in + 4 * i);
    for (int i = 0; i < 32; i++)
    {
        u32 t    = sm4_tau(X[i + 1] ^ X[i + 2] ^ X[i + 3] ^ rk[enc ? i : 31 - i]);
        X[i + 4] = X[i] ^ t ^ rol(t, 2) ^ rol(t, 10) ^ rol(t, 18) ^ rol(t, 24);
    }
    for (int i = 0; i < 4; i++)
        put32(out + 4 * i, X[35 - i]);
}
void sm4_block(const u8 key[16], bool enc, u8 out[16], const u8 in[16])
{
    u32 rk[32];
    sm4_rk(key, rk);
    sm4_core(rk, enc, out, in);
}

// ---- AES ---------------------------------------------------------------
struct AesTab
{
    u8 S[256], I[256];
    AesTab()
    {
        for (int x = 0; x < 256; x++)
        {
            u8 t = x ? ginv((u8)x, 0x11b) : 0;
            u8 s = t ^ rol8(t, 1) ^ rol8(t, 2) ^ rol8(t, 3) ^ rol8(t, 4) ^ 0x63;
            S[x] = s;
            I[s] = (u8)x;
        }
    }
};
static const AesTab& aestab()
{
    static const AesTab t;
    return t;
}
struct AesKey
{
    int nr;
    u8  w[60][4];
};
static AesKey aes_expand(const u8* key, std::size_t kl)
{
    AesKey         k;
    const AesTab&  T  = aestab();
    int            nk = (int)kl / 4;
    k.nr              = nk + 6;
    u8 rc             = 1;
    for (int i = 0; i < 4 * (k.nr + 1); i++)
    {
        if (i < nk)
        {
            std::memcpy(k.w[i], key + 4 * i, 4);
            continue;
        }
        u8 t[4];
        std::memcpy(t, k.w[i - 1], 4);
        if (i % nk == 0)
        {
            u8 a = t[0];
            t[0] = T.S[t[1]] ^ rc, t[1] = T.S[t[2]], t[2] = T.S[t[3]], t[3] = T.S[a];
            rc   = gmul(rc, 2, 0x11b);
        }
        else if (nk > 6 && i % nk == 4)
            for (auto& v : t)
                v = T.S[v];
        for (int j = 0; j < 4; j++)
            k.w[i][j] = k.w[i - nk][j] ^ t[j];
    }
    return k;
}
static u8 xt[256][16];
static bool xt_init = [] {
    for (int a = 0; a < 256; a++)
        for (int b = 0; b < 16; b++)
            xt[a][b] = gmul((u8)a, (u8)b, 0x11b);
    return true;
}();
static void aes_core(const AesKey& k, bool enc, u8 out[16], const u8 in[16])
{
    const AesTab& T = aestab();
    u8            s[16], t[16];
    auto          ark = [&](int r) {
        for (int i = 0; i < 16; i++)
            s[i] ^= k.w[4 * r + i / 4][i % 4];
    };
    std::memcpy(s, in, 16);
    auto mix = [&](u8 a, u8 b, u8 c, u8 d) {
        for (int col = 0; col < 4; col++)
            for (int i = 0; i < 4; i++)
            {
                const u8* p      = s + 4 * col;
                t[4 * col + i] = xt[p[i]][a] ^ xt[p[(i + 1) % 4]][b] ^ xt[p[(i + 2) % 4]][c] ^ xt[p[(i + 3) % 4]][d];
            }
        std::memcpy(s, t, 16);
    };
    if (enc)
    {
        ark(0);
        for (int r = 1; r <= k.nr; r++)
        {
            for (int c = 0; c < 4; c++)
                for (int i = 0; i < 4; i++)
                    t[4 * c + i] = T.S[s[4 * ((c + i) % 4) + i]];
            std::memcpy(s, t, 16);
            if (r != k.nr)
                mix(2, 3, 1, 1);
            ark(r);
        }
    }
    else
    {
        ark(k.nr);
        for (int r = k.nr - 1; r >= 0; r--)
        {
            for (int c = 0; c < 4; c++)
                for (int i = 0; i < 4; i++)
                    t[4 * ((c + i) % 4) + i] = T.I[s[4 * c + i]];
            std::memcpy(s, t, 16);
            ark(r);
            if (r)
                mix(14, 11, 13, 9);
        }
    }
    std::memcpy(out, s, 16);
}
void aes_block(const u8* key, std::size_t key_len, bool enc, u8 out[16], const u8 in[16])
{
    AesKey k = aes_expand(key, key_len);
    aes_core(k, enc, out, in);
}

Cipher sm4_cipher(const Bytes& key)
{
    std::vector<u32> rk(32);
    sm4_rk(key.data(), rk.data());
    return {16, [rk](u8* o, const u8* i) { sm4_core(rk.data(), true, o, i); },
            [rk](u8* o, const u8* i) { sm4_core(rk.data(), false, o, i); }};
}
Cipher aes_cipher(const Bytes& key)
{
    AesKey k = aes_expand(key.data(), key.size());
    return {16, [k](u8* o, const u8* i) { aes_core(k, true, o, i); },
            [k](u8* o, const u8* i) { aes_core(k, false, o, i); }};
}

// ---- SM3 ---------------------------------------------------------------
const u32 SM3_IV[8] = {0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e};
void sm3_compress(u32 V[8], const u8 B[64])
{
    u32 W[68], W1[64];
    for (int i = 0; i < 16; i++)
        W[i] = be32(B + 4 * i);
    auto P1 = [](u32 x) { return x ^ rol(x, 15) ^ rol(x, 23); };
    auto P0 = [](u32 x) { return x ^ rol(x, 9) ^ rol(x, 17); };
    for (int j = 16; j < 68; j++)
        W[j] = P1(W[j - 16] ^ W[j - 9] ^ rol(W[j - 3], 15)) ^ rol(W[j - 13], 7) ^ W[j - 6];
    for (int j = 0; j < 64; j++)
        W1[j] = W[j] ^ W[j + 4];
    u32 A = V[0], Bq = V[1], C = V[2], D = V[3], E = V[4], F = V[5], G = V[6], H = V[7];
    for (int j = 0; j < 64; j++)
    {
        u32 T   = j < 16 ? 0x79cc4519 : 0x7a879d8a;
        u32 SS1 = rol(rol(A, 12) + E + rol(T, j % 32), 7);
        u32 SS2 = SS1 ^ rol(A, 12);
        u32 FF  = j < 16 ? A ^ Bq ^ C : (A & Bq) | (A & C) | (Bq & C);
        u32 GG  = j < 16 ? E ^ F ^ G : (E & F) | (~E & G);
        u32 TT1 = FF + D + SS2 + W1[j];
        u32 TT2 = GG + H + SS1 + W[j];
        D = C, C = rol(Bq, 9), Bq = A, A = TT1;
        H = G, G = rol(F, 19), F = E, E = P0(TT2);
    }
    V[0] ^= A, V[1] ^= Bq, V[2] ^= C, V[3] ^= D, V[4] ^= E, V[5] ^= F, V[6] ^= G, V[7] ^= H;
}
Bytes sm3_from(const u32 iv[8], u64 before, const Bytes& tail)
{
    u32 V[8];
    std::memcpy(V, iv, 32);
    Bytes m = tail;
    u64   bits = (before * 64 + tail.size()) * 8;
    m.push_back(0x80);
    while (m.size() % 64 != 56)
        m.push_back(0);
    u8 l[8];
    put64(l, bits);
    m.insert(m.end(), l, l + 8);
    for (std::size_t i = 0; i < m.size(); i += 64)
        sm3_compress(V, &m[i]);
    Bytes d(32);
    for (int i = 0; i < 8; i++)
        put32(&d[4 * i], V[i]);
    return d;
}
Bytes sm3(const Bytes& m) { return sm3_from(SM3_IV, 0, m); }

// ---- GHASH -------------------------------------------------------------
void gf128_mul(u8 r[16], const u8 x[16], const u8 y[16])
{
    u8 z[16] = {0}, v[16];
    std::memcpy(v, y, 16);
    for (int i = 0; i < 128; i++)
    {
        if (x[i / 8] >> (7 - i % 8) & 1)
            for (int j = 0; j < 16; j++)
                z[j] ^= v[j];
        int lsb = v[15] & 1;
        for (int j = 15; j > 0; j--)
            v[j] = (u8)(v[j] >> 1 | v[j - 1] << 7);
        v[0] >>= 1;
        if (lsb)
            v[0] ^= 0xe1;
    }
    std::memcpy(r, z, 16);
}
Bytes ghash(const u8 H[16], const Bytes& m)
{
    Bytes y(16, 0);
    for (std::size_t i = 0; i + 16 <= m.size(); i += 16)
    {
        for (int j = 0; j < 16; j++)
            y[j] ^= m[i + j];
        gf128_mul(y.data(), y.data(), H);
    }
    return y;
}

// ---- modes -------------------------------------------------------------
Bytes mode_run(Mode m, const Cipher& ci, bool enc, const Bytes& iv, const Bytes& in)
{
    std::size_t bs = ci.bs;
    Bytes       out(in.size()), ch = iv, t(bs), full(bs);
    if ((m == ECB || m == CBC) && in.size() % bs)
        throw std::runtime_error("partial block");
    for (std::size_t i = 0; i < in.size(); i += bs)
    {
        std::size_t n = in.size() - i < bs ? in.size() - i : bs;
        switch (m)
        {
        case ECB: (enc ? ci.enc : ci.dec)(&out[i], &in[i]); break;
        case CBC:
            if (enc)
            {
                for (std::size_t j = 0; j < bs; j++)
                    t[j] = in[i + j] ^ ch[j];
                ci.enc(&out[i], t.data());
                ch.assign(out.begin() + i, out.begin() + i + bs);
            }
            else
            {
                ci.dec(t.data(), &in[i]);
                for (std::size_t j = 0; j < bs; j++)
                    out[i + j] = t[j] ^ ch[j];
                ch.assign(in.begin() + i, in.begin() + i + bs);
            }
            break;
        case CFB:
            ci.enc(t.data(), ch.data());
            for (std::size_t j = 0; j < n; j++)
            {
                out[i + j] = in[i + j] ^ t[j];
                ch[j]      = enc ? out[i + j] : in[i + j];
            }
            break;
        case OFB:
            ci.enc(t.data(), ch.data());
            ch = t;
            for (std::size_t j = 0; j < n; j++)
                out[i + j] = in[i + j] ^ t[j];
            break;
        case CTR:
            ci.enc(t.data(), ch.data());
            for (std::size_t j = 0; j < n; j++)
                out[i + j] = in[i + j] ^ t[j];
            for (std::size_t j = bs; j-- > 0;)
                if (++ch[j])
                    break;
            break;
        }
    }
    return out;
}
static Bytes gcm_j0(const Cipher& ci, const Bytes& iv, Bytes& H)
{
    H.assign(16, 0);
    Bytes z(16, 0), J(16, 0);
    ci.enc(H.data(), z.data());
    if (iv.size() == 12)
    {
        std::memcpy(J.data(), iv.data(), 12);
        J[15] = 1;
        return J;
    }
    Bytes m = iv;
    while (m.size() % 16)
        m.push_back(0);
    u8 l[16] = {0};
    put64(l + 8, (u64)iv.size() * 8);
    m.insert(m.end(), l, l + 16);
    return ghash(H.data(), m);
}
static void inc32(Bytes& c)
{
    u32 v = be32(&c[12]) + 1;
    put32(&c[12], v);
}
Bytes gcm_ctr(const Cipher& ci, const Bytes& iv, const Bytes& in)
{
    Bytes H, J = gcm_j0(ci, iv, H), out(in.size()), t(16);
    for (std::size_t i = 0; i < in.size(); i += 16)
    {
        inc32(J);
        ci.enc(t.data(), J.data());
        for (std::size_t j = 0; j < 16 && i + j < in.size(); j++)
            out[i + j] = in[i + j] ^ t[j];
    }
    return out;
}
Bytes gcm_tag(const Cipher& ci, const Bytes& iv, const Bytes& aad, const Bytes& ct)
{
    Bytes H, J = gcm_j0(ci, iv, H), m = aad;
    while (m.size() % 16)
        m.push_back(0);
    m.insert(m.end(), ct.begin(), ct.end());
    while (m.size() % 16)
        m.push_back(0);
    u8 l[16];
    put64(l, (u64)aad.size() * 8), put64(l + 8, (u64)ct.size() * 8);
    m.insert(m.end(), l, l + 16);
    Bytes s = ghash(H.data(), m), t(16);
    ci.enc(t.data(), J.data());
    for (int i = 0; i < 16; i++)
        s[i] ^= t[i];
    return s;
}
GcmOut gcm_encrypt(const Cipher& ci, const Bytes& iv, const Bytes& aad, const Bytes& pt)
{
    GcmOut o;
    o.ct  = gcm_ctr(ci, iv, pt);
    o.tag = gcm_tag(ci, iv, aad, o.ct);
    return o;
}
Bytes hmac(std::function<Bytes(const Bytes&)> h, std::size_t block, const Bytes& key, const Bytes& msg)
{
    Bytes k = key.size() > block ? h(key) : key;
    k.resize(block, 0); // a digest longer than the block is truncated to it
    Bytes a(block), b(block);
    for (std::size_t i = 0; i < block; i++)
        a[i] = k[i] ^ 0x36, b[i] = k[i] ^ 0x5c;
    a.insert(a.end(), msg.begin(), msg.end());
    Bytes d = h(a);
    b.insert(b.end(), d.begin(), d.end());
    return h(b);
}
} // namespace ref
