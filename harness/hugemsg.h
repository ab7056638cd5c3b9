// Messages of several gigabytes at no cost: a hash that looks at the number of
// bytes and at the first and (unless Head) last 32 of them.
#pragma once
#include "bigmap.h"
#include <algorithm>
namespace hugemsg {
using pbt::Bytes;
using pbt::u64;
using pbt::u8;
template <std::size_t DS, bool Tail = true>
struct LenHash
{
    static constexpr std::size_t BLOCK_SIZE = 64, DIGEST_SIZE = DS;
    u64                          n = 0;
    u8                           head[32], last[32];
    void                         reset() { n = 0; }
    void                         update(const u8* p, std::size_t l)
    {
        for (std::size_t i = 0; i < l && n + i < 32; i++)
            head[n + i] = p[i];
        if (Tail)
            for (std::size_t i = l > 32 ? l - 32 : 0; i < l; i++)
                last[(n + i) % 32] = p[i];
        n += l;
    }
    void do_final(u8* d)
    {
        u64 h = n;
        for (std::size_t i = 0; i < 32 && i < n; i++)
            h = (h ^ head[i]) * 0x100000001b3;
        if (Tail)
            for (std::size_t i = 0; i < 32 && i < n; i++)
                h = (h ^ last[(n - 1 - i) % 32]) * 0x100000001b3;
        for (std::size_t i = 0; i < DS; i += 8)
        {
            u64 v = pbt::splitmix(h);
            std::memcpy(d + i, &v, std::min<std::size_t>(8, DS - i));
        }
        n = 0;
    }
    void do_final(u8* d, const u8* p, std::size_t l)
    {
        update(p, l);
        do_final(d);
    }
    static Bytes ref(const Bytes& m)
    {
        LenHash h;
        Bytes   d(DS);
        h.do_final(d.data(), m.data(), m.size());
        return d;
    }
};
// lengths that lose bits as 32-bit counts of bytes or of bits
inline u64 gen_len(pbt::Source& s)
{
    static const u64 B[] = {1ull << 29, 1ull << 31, 1ull << 32};
    return B[s.below(3)] * (1 + s.below(2)) + (s.coin() ? s.below(100) : s.below(1u << 20));
}
// other lengths a wrong count may come to
inline std::vector<u64> wrong_lens(u64 n)
{
    std::vector<u64> v, o{n & 0xffffffff, n & 0x7fffffff, n & 0x1fffffff, n & 0xffff, n & 0x1fff, n & 0xff, 0, n - 1};
    for (u64 x : o)
        if (x != n && std::find(v.begin(), v.end(), x) == v.end())
            v.push_back(x);
    return v;
}
} // namespace hugemsg
