// GCM over inputs of half a gigabyte and more.  The inputs are zero except for
// a few blocks, and so is the key stream (a made-up cipher), so the definition
// can be evaluated without going through every block.
#pragma once
#include "modes.h"
#include <gmlib/block_cipher_mode/gcm_mode.h>
#include <map>
#include <sys/mman.h>

namespace gcmhuge {
using pbt::Bytes;
using pbt::u64;
using pbt::u8;
constexpr std::size_t PERIOD = 1 << 20;
// key: 3 bytes of counter offset, then the key of the permutation.  The key
// stream is zero except for two counters out of 2^20.
inline bool lively(const u8* k, const u8* x)
{
    std::uint32_t c = (std::uint32_t)x[12] << 24 | (std::uint32_t)x[13] << 16 | (std::uint32_t)x[14] << 8 | x[15];
    std::uint32_t o = (std::uint32_t)k[0] << 16 | (std::uint32_t)k[1] << 8 | k[2];
    return ((c - o) & (PERIOD - 1)) < 2;
}
inline void enc(const u8* k, const u8* x, u8* out)
{
    static const u8 Z[16] = {0};
    u8              t[16], kk[16];
    if (std::memcmp(x, Z, 16) != 0 && !lively(k, x))
    {
        std::memset(out, 0, 16);
        return;
    }
    std::memcpy(t, x, 16), std::memcpy(kk, k, 16);
    kk[0] = kk[1] = kk[2] = 0;
    modes::toy_enc(kk, 16, t);
    std::memcpy(out, t, 16);
}
struct Quiet
{
    static constexpr int         ENCRYPTION = 1, DECRYPTION = 0;
    static constexpr std::size_t BLOCK_SIZE = 16, USER_KEY_LEN = 16, PARALLEL_NUM = 64;
    u8                           k_[16];
    void                         set_key(const u8* k, int) { std::memcpy(k_, k, 16); }
    void                         encrypt_block(u8* o, const u8* i) const { enc(k_, i, o); }
    void                         encrypt_blocks(u8* o, const u8* i, std::size_t n) const
    {
        for (; n; n--, o += 16, i += 16)
            enc(k_, i, o);
    }
};
// a zero range with a few bytes set
struct Sparse
{
    u8*                                    p = nullptr;
    u64                                    n = 0;
    std::map<u64, std::array<u8, 16>>      b; // block number -> block (the last one zero padded)
    Sparse()                               = default;
    Sparse(const Sparse&)                  = delete;
    Sparse& operator=(const Sparse&)       = delete;
    ~Sparse()
    {
        if (p)
            munmap(p, n);
    }
    bool map(u64 len)
    {
        n       = len;
        void* q = mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (q == MAP_FAILED)
            return false;
        p = (u8*)q;
        return true;
    }
    void set(u64 i, u8 v) { p[i] = v, b[i / 16][i % 16] = v; }
    u64  blocks() const { return (n + 15) / 16; }
};
inline void mul(const u8* H, u8* y) // y := y H
{
    Bytes r = ref::ghash(H, Bytes(y, y + 16));
    std::memcpy(y, r.data(), 16);
}
struct Poly // Y = sum of blocks, zero blocks skipped
{
    u8 H[16], y[16] = {0};
    void skip(u64 n)
    {
        u8 e[16];
        std::memcpy(e, H, 16);
        for (; n; n >>= 1)
        {
            if (n & 1)
                mul(e, y);
            u8 t[16];
            std::memcpy(t, e, 16);
            mul(t, e);
        }
    }
    void block(const u8* x)
    {
        for (int i = 0; i < 16; i++)
            y[i] ^= x[i];
        mul(H, y);
    }
    void add(const std::map<u64, std::array<u8, 16>>& b, u64 blocks)
    {
        u64 at = 0;
        for (auto& [i, x] : b)
            skip(i - at), block(x.data()), at = i + 1;
        skip(blocks - at);
    }
    void lens(u64 a, u64 b)
    {
        u8 t[16];
        for (int i = 0; i < 8; i++)
            t[i] = (u8)(a >> (56 - 8 * i)), t[8 + i] = (u8)(b >> (56 - 8 * i));
        block(t);
    }
};
struct Case
{
    u8          key[16];
    Sparse      iv, aad, in;
    u8          J0[16], H[16];
    Bytes       tag;
    const char* what = "";
};
inline void fill(pbt::Source& s, Sparse& x)
{
    std::size_t k = s.below(4);
    for (std::size_t i = 0; i < k && x.n; i++)
    {
        u64 at = s.coin() ? s.draw(x.n - 1) : std::min<u64>(x.n - 1, (1ull << (8 + s.below(25))) - s.below(2));
        x.set(at, (u8)(1 + s.below(255)));
    }
    for (std::size_t i = 0, t = s.below(40); i < t && i < x.n; i++)
        x.set(x.n - 1 - i, s.byte());
}
// dim: 0 huge associated data, 1 huge text, 2 huge vector
inline bool gen(pbt::Source& s, Case& c, int dim)
{
    pbt::slow_case();
    const char* names[] = {"associated data", "text", "vector"};
    c.what = names[dim];
    for (auto& v : c.key)
        v = s.byte();
    u64 huge  = (s.coin(1, dim == 1 ? 8 : 5) ? 1ull << 32 : 1ull << 29) + s.below(100);
    u64 lens[3] = {s.below(50), s.below(100), s.coin() ? 12 : 1 + s.below(60)};
    lens[dim]   = huge;
    if (!c.aad.map(lens[0] ? lens[0] : 1) || !c.in.map(lens[1] ? lens[1] : 1) || !c.iv.map(lens[2]))
        return false;
    fill(s, c.iv);
    c.aad.n = lens[0], c.in.n = lens[1];
    fill(s, c.aad), fill(s, c.in);
    static const u8 Z[16] = {0};
    enc(c.key, Z, c.H);
    Poly p;
    std::memcpy(p.H, c.H, 16);
    if (c.iv.n == 12)
    {
        std::memcpy(c.J0, c.iv.p, 12), std::memset(c.J0 + 12, 0, 3), c.J0[15] = 1;
    }
    else
    {
        p.add(c.iv.b, c.iv.blocks());
        p.lens(0, c.iv.n * 8);
        std::memcpy(c.J0, p.y, 16);
    }
    // the counter of the tag and the first one of the text are lively
    c.key[0] = (u8)(c.J0[13] & 0xf), c.key[1] = c.J0[14], c.key[2] = c.J0[15];
    return true;
}
// the other text: input xor key stream, non-zero blocks only
inline std::map<u64, std::array<u8, 16>> crypt(const Case& c)
{
    auto r = c.in.b;
    u64  n = c.in.blocks();
    for (u64 q = 0; q <= n / PERIOD + 1; q++)
        for (u64 d = 0; d < 2; d++)
        {
            // counter of block i: J0 + 1 + i
            u64 ctr = q * PERIOD + d;
            if (ctr == 0 || ctr - 1 >= n)
                continue;
            u8            x[16], e[16];
            std::uint32_t j = (std::uint32_t)c.J0[12] << 24 | (std::uint32_t)c.J0[13] << 16 | (std::uint32_t)c.J0[14] << 8 | c.J0[15];
            j += (std::uint32_t)ctr;
            std::memcpy(x, c.J0, 12);
            x[12] = (u8)(j >> 24), x[13] = (u8)(j >> 16), x[14] = (u8)(j >> 8), x[15] = (u8)j;
            enc(c.key, x, e);
            auto& o = r[ctr - 1];
            for (std::size_t i = 0; i < 16 && (ctr - 1) * 16 + i < c.in.n; i++)
                o[i] ^= e[i];
        }
    return r;
}
inline Bytes tag(const Case& c, const std::map<u64, std::array<u8, 16>>& ct)
{
    Poly p;
    std::memcpy(p.H, c.H, 16);
    p.add(c.aad.b, c.aad.blocks());
    p.add(ct, c.in.blocks());
    p.lens(c.aad.n * 8, c.in.n * 8);
    u8 e[16];
    enc(c.key, c.J0, e);
    Bytes t(16);
    for (int i = 0; i < 16; i++)
        t[i] = p.y[i] ^ e[i];
    return t;
}
// feeds the text in pieces; false when a byte that comes out is wrong
template <class M>
bool run(pbt::Source& s, M& m, const Case& c, const std::map<u64, std::array<u8, 16>>& want, std::string& e)
{
    std::size_t chunk = (std::size_t)1 << (20 + s.below(6));
    if (s.coin())
        chunk += s.below(40);
    Bytes out(chunk + 64), ref;
    u64   ip = 0, op = 0;
    auto  it = want.begin();
    for (bool last = false; !last;)
    {
        std::size_t n = (std::size_t)std::min<u64>(chunk, c.in.n - ip), l = 0;
        last          = ip + n == c.in.n && (n < chunk || s.coin());
        if (last)
            m.do_final(out.data(), &l, c.in.p + ip, n);
        else
            m.update(out.data(), &l, c.in.p + ip, n);
        ip += n;
        if (l > out.size() || op + l > ip)
        {
            e = "more output than input";
            return false;
        }
        ref.assign(l, 0);
        while (it != want.end() && it->first * 16 < op + l)
        {
            for (u64 i = 0; i < 16; i++)
            {
                u64 at = it->first * 16 + i;
                if (at >= op && at < op + l)
                    ref[at - op] = it->second[i];
            }
            if (it->first * 16 + 16 > op + l)
                break;
            ++it;
        }
        if (l && std::memcmp(ref.data(), out.data(), l) != 0)
        {
            e = pbt::strf("wrong output in the %zu bytes at offset %llu", l, (unsigned long long)op);
            return false;
        }
        op += l;
    }
    if (op != c.in.n)
        e = "output length";
    return op == c.in.n;
}
} // namespace gcmhuge
