// Reference DER encoder and BER parser for the ASN.1 checks.
#pragma once
#include "pbt.h"
#include <gmlib/asn1/asn1.h>
#include <gmlib/asn1/asn1_dump.h>
namespace asn1h {
using namespace pbt;
inline Bytes operator+(Bytes a, const Bytes& b)
{
    a.insert(a.end(), b.begin(), b.end());
    return a;
}
inline Bytes der_len(u64 n)
{
    if (n < 128)
        return Bytes{(u8)n};
    Bytes r;
    for (; n; n >>= 8)
        r.insert(r.begin(), (u8)n);
    r.insert(r.begin(), (u8)(0x80 + r.size()));
    return r;
}
inline Bytes der(u8 tag, const Bytes& v) { return Bytes{tag} + der_len(v.size()) + v; }
inline Bytes der_uint(Bytes v) // big-endian unsigned
{
    while (v.size() > 1 && v[0] == 0)
        v.erase(v.begin());
    if (!v.empty() && v[0] >= 0x80)
        v.insert(v.begin(), 0);
    return der(2, v);
}
struct Tlv
{
    u8          id = 0;
    std::size_t off = 0, len = 0, total = 0; // value at [off, off+len)
    bool        minimal = false;             // shortest form of the length
    bool        wide = false;                // long form with more than 8 octets, perhaps still representable
};
// one definite-length, low-tag-number TLV at the start of b?
inline bool parse(const u8* b, std::size_t n, Tlv* t)
{
    if (n < 2 || (b[0] & 31) == 31 || b[1] == 0x80)
        return false;
    t->id = b[0];
    if (b[1] < 0x80)
    {
        t->off = 2, t->len = b[1], t->minimal = true;
        t->total = t->off + t->len;
        return t->len <= n - 2;
    }
    std::size_t k = b[1] & 127;
    if (n < 2 + k)
        return false;
    u64 v = 0;
    for (std::size_t i = 0; i < k; i++)
    {
        if (v >> 56)
            return false;
        v = v << 8 | b[2 + i];
    }
    t->wide    = k > 8;
    t->minimal = v >= 128 && b[2] != 0;
    t->off = 2 + k, t->len = (std::size_t)v;
    if (v > n - 2 - k)
        return false;
    t->total = t->off + t->len;
    return true;
}
// arbitrary, mostly well-formed nested encoding
inline Bytes gen_ber(Source& s, unsigned depth)
{
    static const u8 prim[] = {0, 1, 2, 3, 4, 5, 6, 10, 12, 19, 22, 23};
    Bytes           r;
    std::size_t     items = s.below(4);
    for (std::size_t i = 0; i < items; i++)
    {
        bool  cons = depth && s.coin(1, 3);
        u8    id   = cons ? (u8)(0x20 | (s.coin(3, 4) ? (s.coin() ? 16 : 17) : s.below(31))) : s.coin(3, 4) ? prim[s.below(sizeof prim)] : (u8)(s.byte() & 0xdf);
        if (s.coin(1, 10))
            id |= (u8)(s.below(4) << 6);
        if ((id & 31) == 31)
            id = (u8)(id ^ 1);
        Bytes v = cons ? gen_ber(s, depth - 1) : s.coin(1, 12) ? s.rnd(s.oneof(std::vector<std::size_t>{127, 128, 129, 255, 256, 257})) : s.bytes(s.below(12));
        if ((id & 63) == 1 && s.coin(3, 4))
            v = Bytes{s.byte()};
        if (s.coin(1, 8))
        {
            // longer form of the length than needed
            Bytes l = der_len(v.size());
            Bytes body(l.begin() + (l[0] >= 0x80), l.end());
            while (body.size() < 1 + s.below(8))
                body.insert(body.begin(), 0);
            r = r + Bytes{id, (u8)(0x80 + body.size())} + body + v;
        }
        else
            r = r + der(id, v);
    }
    return r;
}
inline Bytes damage(Source& s, Bytes b)
{
    std::size_t k = 1 + s.below(3);
    for (std::size_t i = 0; i < k; i++)
    {
        std::size_t at = b.empty() ? 0 : s.below(b.size());
        switch (s.below(7))
        {
        case 0: b.resize(at); break;
        case 1:
            if (!b.empty())
                b[at] ^= (u8)(1u << s.below(8));
            break;
        case 2:
            if (!b.empty())
                b[at] = s.byte();
            break;
        case 3: b.insert(b.begin() + (long)at, s.byte()); break;
        case 4:
            if (!b.empty())
                b.erase(b.begin() + (long)at);
            break;
        case 5: // an inflated length field
            if (b.size() > 1)
                b[1] = (u8)(s.coin() ? b[1] + 1 + s.below(4) : 0x80 + s.below(10));
            break;
        case 6:
        {
            static const u8 hd[][10] = {{0x30, 0x88, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x04, 0x84, 0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0}, {0x03, 0x88, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x02, 0x84, 0x7f, 0xff, 0xff, 0xff, 0, 0, 0, 0}, {0x30, 0x88, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xf6}};
            const u8*       h = hd[s.below(5)];
            b                 = Bytes(h, h + 10) + b;
            break;
        }
        }
    }
    return b;
}
} // namespace asn1h
