// Shared pieces of the SM2 checks: key/scalar/point generators, scripted
// random sources, and hash functions other than SM3 (to reach the degenerate
// branches of the schemes, which SM3 reaches with probability 2^-256).
#pragma once
#include <utility>
#include "num.h"
#include "ref/ref_sm2.h"
#include "ref/ref_sym.h"
#include <gmlib/rng/rng.h>
#include <gmlib/sm2/sm2.h>
#include <gmlib/sm3/sm3.h>
#include <stdexcept>
namespace sm2h {
using namespace pbt;
using ref::Pt;
using ref::Z;
namespace R = ref::sm2;
namespace I = ::sm2::internal;

inline Bytes operator+(Bytes a, const Bytes& b)
{
    a.insert(a.end(), b.begin(), b.end());
    return a;
}
// delivers a fixed list of bytes, then pseudo-random ones; records what it gave
class ScriptRng : public ::rng::Rng
{
public:
    Bytes script, given;
    u64   st, calls = 0, limit;
    ScriptRng(const Bytes& s, u64 seed, u64 lim = 4096) : script(s), st(seed), limit(lim) {}
    const char* name() const override { return "script"; }
    void        gen(void* out, std::size_t n) override
    {
        calls++;
        if (given.size() + n > limit)
            throw std::length_error("random source drained: no termination");
        u8* p = (u8*)out;
        for (std::size_t i = 0; i < n; i++)
        {
            u8 b = given.size() < script.size() ? script[given.size()] : (u8)splitmix(st);
            given.push_back(b);
            p[i] = b;
        }
    }
};
// digest = the last DS bytes of the message (zero-extended on the left): lets
// a test choose the digest of a message
template <std::size_t DS>
struct TailHash
{
    static constexpr std::size_t BLOCK_SIZE = 64, DIGEST_SIZE = DS;
    Bytes                        m;
    void                         reset() { m.clear(); }
    void update(const u8* p, std::size_t n) { m.insert(m.end(), p, p + n); }
    void do_final(u8* d) { tail(d); }
    void do_final(u8* d, const u8* p, std::size_t n)
    {
        update(p, n);
        tail(d);
    }
    void tail(u8* d)
    {
        Bytes r = ref(m);
        std::memcpy(d, r.data(), DS);
        m.clear();
    }
    static Bytes ref(const Bytes& m)
    {
        Bytes r(DS);
        for (std::size_t i = 0; i < DS && i < m.size(); i++)
            r[DS - 1 - i] = m[m.size() - 1 - i];
        return r;
    }
};
// SM3 truncated or extended to DS bytes, so that a short derived key is zero often
template <std::size_t DS>
struct CutHash
{
    static constexpr std::size_t BLOCK_SIZE = 64, DIGEST_SIZE = DS;
    Bytes                        m;
    void                         reset() { m.clear(); }
    void update(const u8* p, std::size_t n) { m.insert(m.end(), p, p + n); }
    void do_final(u8* d)
    {
        Bytes r = ref(m);
        std::memcpy(d, r.data(), DS);
        m.clear();
    }
    void do_final(u8* d, const u8* p, std::size_t n)
    {
        update(p, n);
        do_final(d);
    }
    static Bytes ref(const Bytes& m)
    {
        Bytes r, t = m;
        t.push_back(0);
        while (r.size() < DS)
        {
            Bytes h = ::ref::sm3(t);
            r       = r + h;
            t.back()++;
        }
        r.resize(DS);
        return r;
    }
};
using HashFn = Bytes (*)(const Bytes&);
// f(hash type tag, reference) for a hash with a digest of a drawn size
template <std::size_t... DS, class F>
void with_digest(Source& s, F f, std::index_sequence<DS...>)
{
    std::size_t i = s.below(sizeof...(DS)), k = 0;
    (void)((k++ == i ? (f(CutHash<DS>(), &CutHash<DS>::ref, DS), true) : false) || ...);
}
template <class F>
void with_digest(Source& s, F f)
{
    with_digest(s, f, std::index_sequence<20, 48, 33, 4, 10, 16, 19, 24, 28, 39, 41, 64, 80, 128>());
}
inline Bytes ref_sm3(const Bytes& m) { return ::ref::sm3(m); }

inline Z gen_scalar(Source& s) // any 256-bit value
{
    const Z& n = R::n();
    switch (s.below(12))
    {
    case 0: return Z((std::int64_t)s.below(20));
    case 1: return (n - 3 + Z((std::int64_t)s.below(8))) % Z::pow2(256);
    case 2: return (n / 2 - 2 + Z((std::int64_t)s.below(6)));
    case 3: return Z::pow2(256) - 1 - Z((std::int64_t)s.below(4));
    case 4: return Z::pow2((unsigned)s.below(256));
    case 5: return (Z::pow2((unsigned)(1 + s.below(255))) - 1);
    case 6: return (n / 3 - 2 + Z((std::int64_t)s.below(6)));
    case 7: return (n * 2 / 3 - 2 + Z((std::int64_t)s.below(6)));
    default: return num::gen(s, 32);
    }
}
inline Z gen_priv(Source& s) // [1, n-2]
{
    Z d = gen_scalar(s) % R::n();
    if (d == Z(0) || d > R::n() - 2)
        d = s.coin() ? R::n() - 2 : Z(1);
    return d;
}
struct Mult
{
    Z  k; // discrete logarithm to G
    Pt p;
};
inline Mult gen_point(Source& s, bool inf_ok)
{
    Mult m;
    m.k = gen_scalar(s) % R::n();
    if (inf_ok && s.coin(1, 10))
        m.k = Z(0);
    if (!inf_ok && m.k == Z(0))
        m.k = Z(1);
    m.p = R::mulg(m.k);
    return m;
}
// a point with a rare x coordinate (0, tiny, next to n or p, few bits); its
// discrete logarithm is not known
inline Pt gen_rare(Source& s)
{
    const Z& p = R::p();
    Z        x;
    switch (s.below(6))
    {
    case 0: x = Z(0); break;
    case 1: x = Z((std::int64_t)s.below(300)); break;
    case 2: x = p - 1 - Z((std::int64_t)s.below(300)); break;
    case 3: x = (R::n() - 5 + Z((std::int64_t)s.below(10))) % p; break;
    case 4: x = Z::pow2((unsigned)s.below(256)) % p; break;
    default: x = Z::u(s.word());
    }
    Pt  P;
    int par = (int)s.below(2);
    while (!R::lift(x, par, &P))
        x = (x + 1) % p;
    return P;
}
inline void load_fp(I::sm2_fp_t r, const Z& v) { I::sm2_fp_from_bytes(r, v.bytes(32).data()); }
inline Z    get_fp(const I::sm2_fp_t a)
{
    Bytes b(32);
    I::sm2_fp_to_bytes(b.data(), a);
    return Z::be(b);
}
inline void load_a(I::sm2_ec_a r, const Pt& p)
{
    load_fp(r[0], p.x);
    load_fp(r[1], p.y);
}
inline Pt get_a(const I::sm2_ec_a a)
{
    Pt p;
    p.inf = false;
    p.x   = get_fp(a[0]);
    p.y   = get_fp(a[1]);
    return p;
}
// Jacobian representation (x t^2, y t^3, t); infinity is (t^2, t^3, 0)
inline void load_j(I::sm2_ec_j r, const Pt& p, const Z& t)
{
    const Z& q  = R::p();
    Z        t2 = t * t % q, t3 = t2 * t % q;
    if (p.inf)
    {
        load_fp(r[0], t2);
        load_fp(r[1], t3);
        load_fp(r[2], Z(0));
        return;
    }
    load_fp(r[0], p.x * t2 % q);
    load_fp(r[1], p.y * t3 % q);
    load_fp(r[2], t);
}
inline Pt get_j(const I::sm2_ec_j a)
{
    Pt       p;
    const Z& q = R::p();
    Z        x = get_fp(a[0]), y = get_fp(a[1]), z = get_fp(a[2]);
    if (z == Z(0))
        return p;
    Z zi  = z.powm(q - 2, q), z2 = zi * zi % q;
    p.inf = false;
    p.x   = x * z2 % q;
    p.y   = y * (z2 * zi % q) % q;
    return p;
}
inline Z gen_scale(Source& s)
{
    if (s.coin(1, 4))
        return Z(1);
    if (s.coin(1, 6))
        return R::p() - 1;
    Z t = num::gen_mod(s, R::p());
    return t == Z(0) ? Z(2) : t;
}

inline Bytes ref_z(HashFn h, const Bytes& id, const Pt& P)
{
    Bytes m{(u8)(id.size() * 8 >> 8), (u8)(id.size() * 8)};
    m = m + id + R::a().bytes(32) + R::b().bytes(32) + R::G().x.bytes(32) + R::G().y.bytes(32) + P.x.bytes(32) + P.y.bytes(32);
    return h(m);
}
inline Z ref_e(HashFn h, const Bytes& id, const Pt& P, const Bytes& msg) { return Z::be(h(ref_z(h, id, P) + msg)); }
inline Bytes ref_kdf(HashFn h, const Bytes& z, std::size_t n)
{
    Bytes r;
    for (std::uint32_t ct = 1; r.size() < n; ct++)
    {
        Bytes t = h(z + Bytes{(u8)(ct >> 24), (u8)(ct >> 16), (u8)(ct >> 8), (u8)ct});
        r.insert(r.end(), t.begin(), t.end());
    }
    r.resize(n);
    return r;
}
} // namespace sm2h
namespace sm2h {
// the customary ways to turn a 32-byte random block into a number in [1,n-1]
inline std::vector<Z> nonce_candidates(const Bytes& block)
{
    Z        b = Z::be(block);
    const Z& n = R::n();
    return {b % (n - 1) + 1, b % n, b % (n - 2) + 1, b % (n - 1), (b + 1) % n};
}
inline Bytes last_block(const ScriptRng& r)
{
    Bytes b(32);
    if (r.given.size() >= 32)
        std::copy(r.given.end() - 32, r.given.end(), b.begin());
    return b;
}
// blocks a random source might deliver, including the extreme ones
inline Bytes gen_stream(Source& s)
{
    Bytes       r;
    std::size_t n = s.below(3);
    for (std::size_t i = 0; i < n; i++)
    {
        switch (s.below(6))
        {
        case 0: r = r + Bytes(32, 0); break;
        case 1: r = r + Bytes(32, 0xff); break;
        case 2: r = r + ((R::n() - 4 + Z((std::int64_t)s.below(8))) % Z::pow2(256)).bytes(32); break;
        default: r = r + gen_scalar(s).bytes(32);
        }
    }
    return r;
}
inline Bytes gen_id(Source& s)
{
    switch (s.below(8))
    {
    case 0: return Bytes();
    case 1: return Bytes{'1', '2', '3', '4', '5', '6', '7', '8', '1', '2', '3', '4', '5', '6', '7', '8'};
    case 2: return s.rnd(8191 - s.below(3));
    case 3: return s.rnd(31 + s.below(3)); // bit length around a byte boundary of the prefix
    case 4: return s.rnd(s.below(1200));
    default: return s.bytes(s.below(80));
    }
}
} // namespace sm2h
