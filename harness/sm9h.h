// Shared pieces of the SM9 checks.
#pragma once
#include "sm2h.h"
#include "ref/ref_sm9.h"
#include <gmlib/sm9/sm9.h>
namespace sm9h {
using namespace pbt;
using ref::Pt;
using ref::Z;
using ref::sm9::E12;
using ref::sm9::E2;
using ref::sm9::Pt2;
using sm2h::operator+;
using sm2h::ref_sm3;
using sm2h::ScriptRng;
namespace R = ref::sm9;
namespace I = ::sm9::internal;

// digest = DS bytes of the message from its second byte on (after the domain
// tag): the message, or the identity, chooses the hashed number
template <std::size_t DS>
struct HeadHash
{
    static constexpr std::size_t BLOCK_SIZE = 64, DIGEST_SIZE = DS;
    Bytes                        m;
    void                         reset() { m.clear(); }
    void update(const u8* p, std::size_t n) { m.insert(m.end(), p, p + n); }
    void do_final(u8* d)
    {
        Bytes r = ref(m);
        std::memcpy(d, r.data(), DS);
        m.clear();
    }
    void do_final(u8* d, const u8* p, std::size_t n)
    {
        update(p, n);
        do_final(d);
    }
    static Bytes ref(const Bytes& m)
    {
        Bytes r(DS);
        for (std::size_t i = 0; i < DS && i + 1 < m.size(); i++)
            r[i] = m[i + 1];
        return r;
    }
};
inline Z gen_scalar(Source& s) // any 256-bit value
{
    const Z& n = R::n();
    switch (s.below(12))
    {
    case 0: return Z((std::int64_t)s.below(20));
    case 1: return n - 3 + Z((std::int64_t)s.below(8));
    case 2: return n / 2 - 2 + Z((std::int64_t)s.below(6));
    case 3: return Z::pow2(256) - 1 - Z((std::int64_t)s.below(4));
    case 4: return Z::pow2((unsigned)s.below(256));
    case 5: return Z::pow2((unsigned)(1 + s.below(255))) - 1;
    case 6: return n / 3 - 2 + Z((std::int64_t)s.below(6));
    case 7: return n * 2 / 3 - 2 + Z((std::int64_t)s.below(6));
    default: return num::gen(s, 32);
    }
}
inline Z gen_nz(Source& s) // [1, n-1]
{
    Z k = gen_scalar(s) % R::n();
    return k == Z(0) ? (s.coin() ? R::n() - 1 : Z(1)) : k;
}
// a point of the first group with a rare x coordinate (tiny, next to n or p,
// few bits); its discrete logarithm is not known
inline Pt gen_rare(Source& s)
{
    const Z& p = R::p();
    Z        x;
    switch (s.below(5))
    {
    case 0: x = Z((std::int64_t)s.below(300)); break;
    case 1: x = p - 1 - Z((std::int64_t)s.below(300)); break;
    case 2: x = (R::n() - 5 + Z((std::int64_t)s.below(10))) % p; break;
    case 3: x = Z::pow2((unsigned)s.below(256)) % p; break;
    default: x = Z::u(s.word());
    }
    Pt  P;
    int par = (int)s.below(2);
    while (!R::lift1(x, par, &P))
        x = (x + 1) % p;
    return P;
}
inline void load(I::sm9_fp_t r, const Z& v) { I::sm9_fp_from_bytes(r, v.bytes(32).data()); }
inline Z    get(const I::sm9_fp_t a)
{
    Bytes b(32);
    I::sm9_fp_to_bytes(b.data(), a);
    return Z::be(b);
}
inline void load(I::sm9_fp2_t r, const E2& v)
{
    load(r[0], v.c0);
    load(r[1], v.c1);
}
inline E2 get2(const I::sm9_fp2_t a) { return {get(a[0]), get(a[1])}; }
inline void load12(I::sm9_fp12_t r, const E12& v)
{
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 2; j++)
            for (int l = 0; l < 2; l++)
                load(r[i][j][l], v.c[(std::size_t)(i + 3 * j + 6 * l)]);
}
inline E12 get12(const I::sm9_fp12_t a)
{
    E12 v;
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 2; j++)
            for (int l = 0; l < 2; l++)
                v.c[(std::size_t)(i + 3 * j + 6 * l)] = get(a[i][j][l]);
    return v;
}
inline void load_a(I::sm9_ec_a r, const Pt& p)
{
    load(r[0], p.x);
    load(r[1], p.y);
}
inline void load_a2(I::sm9_ec2_a r, const Pt2& p)
{
    load(r[0], p.x);
    load(r[1], p.y);
}
inline std::string str(const E12& e) { return hex(e.bytes(), 400); }
inline std::vector<Z> nonce_candidates(const Bytes& block)
{
    Z        b = Z::be(block);
    const Z& n = R::n();
    return {b % (n - 1) + 1, b % n, b % (n - 2) + 1, b % (n - 1), (b + 1) % n};
}
inline Bytes gen_stream(Source& s)
{
    Bytes       r;
    std::size_t k = s.below(3);
    for (std::size_t i = 0; i < k; i++)
        switch (s.below(6))
        {
        case 0: r = r + Bytes(32, 0); break;
        case 1: r = r + Bytes(32, 0xff); break;
        case 2: r = r + (R::n() - 4 + Z((std::int64_t)s.below(8))).bytes(32); break;
        default: r = r + gen_scalar(s).bytes(32);
        }
    return r;
}
inline Bytes gen_id(Source& s)
{
    switch (s.below(5))
    {
    case 0: return Bytes{'A', 'l', 'i', 'c', 'e'};
    case 1: return Bytes();
    case 2: return s.rnd(s.below(300));
    default: return s.bytes(s.below(40));
    }
}
// --- scheme level
using Hash3 = sm3::SM3;
using HashFn = Bytes (*)(const Bytes&);
inline Z H1(HashFn h, const Bytes& id, u8 hid) { return R::Hn(h, 1, id + Bytes{hid}); }
inline Z H2(HashFn h, const Bytes& msg, const E12& w) { return R::Hn(h, 2, msg + w.bytes()); }
inline Z inv_n(const Z& a) { return a.powm(R::n() - 2, R::n()); }
inline Bytes enc1(const Pt& p, int form) // 0 uncompressed, 1 compressed, 2 hybrid
{
    u8 odd = (u8)(p.y.bytes(32)[31] & 1);
    if (form == 1)
        return Bytes{(u8)(2 + odd)} + p.x.bytes(32);
    return Bytes{form == 0 ? (u8)4 : (u8)(6 + odd)} + p.x.bytes(32) + p.y.bytes(32);
}
// 1: a point; 0: not an encoding; -1: left open (hybrid form with wrong parity)
inline int dec1(const Bytes& b, Pt* q)
{
    if (b.empty())
        return 0;
    q->inf = false;
    if (b[0] == 2 || b[0] == 3)
        return b.size() == 33 && Z::be(&b[1], 32) < R::p() && R::lift1(Z::be(&b[1], 32), b[0] & 1, q);
    if (b[0] != 4 && b[0] != 6 && b[0] != 7)
        return 0;
    if (b.size() != 65)
        return 0;
    q->x = Z::be(&b[1], 32), q->y = Z::be(&b[33], 32);
    if (!R::on1(q->x, q->y))
        return 0;
    return b[0] == 4 || (b[0] & 1) == (b[64] & 1) ? 1 : -1;
}
inline Z sqrt_p(const Z& a, bool* ok) // p = 5 mod 8: by brute formula over candidates
{
    const Z& p = R::p();
    static const Z two14 = Z(2).powm((p - 1) / 4, p); // a square root of -1
    Z r = a.powm((p + 3) / 8, p);
    if (r * r % p != a % p)
        r = r * two14 % p;
    *ok = r * r % p == a % p;
    return r;
}
// a point that satisfies part of the curve equation, or that of another curve
inline Pt2 almost2(Source& s)
{
    const Z& p = R::p();
    Pt2      q;
    q.inf = false;
    for (int tries = 0; tries < 60; tries++)
    {
        E2 x{num::gen_mod(s, p), s.coin(1, 5) ? Z(0) : num::gen_mod(s, p)}, x3 = R::mul2(R::mul2(x, x), x), rhs{x3.c0, (x3.c1 + 5) % p};
        q.x = x;
        bool ok = false;
        switch (s.below(3))
        {
        case 0: // the part without u
            q.y.c1 = num::gen_mod(s, p);
            q.y.c0 = sqrt_p((rhs.c0 + q.y.c1 * q.y.c1 * 2) % p, &ok);
            break;
        case 1: // the part with u
            q.y.c1 = num::gen_mod(s, p);
            if (q.y.c1 == Z(0))
                q.y.c1 = Z(1);
            q.y.c0 = rhs.c1 * (q.y.c1 * 2 % p).powm(p - 2, p) % p;
            ok     = true;
            break;
        case 2: // other constants
        {
            static const std::vector<E2> bs{{Z(5), Z(0)}, {Z(0), p - 5}, {Z(0), Z(10)}, {Z(0), Z(0)}, {Z(1), Z(5)}, {Z(0), Z(1)}, {p - 5, Z(0)}};
            E2 b = s.oneof(bs), r{(x3.c0 + b.c0) % p, (x3.c1 + b.c1) % p};
            ok   = R::sqrt2(r, &q.y);
            break;
        }
        }
        if (ok && !R::on2(q.x, q.y))
            return q;
    }
    q.x = q.y = E2{Z(1), Z(1)};
    return q;
}
inline u8 gen_hid(Source& s) { return s.coin(2, 3) ? 1 : s.byte(); }
inline Bytes last_block9(const ScriptRng& r) { return r.given.size() < 32 ? Bytes(32) : Bytes(r.given.end() - 32, r.given.end()); }
} // namespace sm9h
