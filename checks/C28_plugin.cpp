// One build configuration of the library behind a plain C entry point: takes a
// list of byte strings, appends everything an operation delivers (values,
// lengths, verdicts, the kind of exception) to a transcript.
#include "modes.h"
#include <gmlib/asn1/asn1.h>
#include <gmlib/asn1/asn1_dump.h>
#include <gmlib/ghash/ghash.h>
#include <gmlib/hash_lib/hmac.h>
#include <gmlib/memory_utils/endian.h>
#include <gmlib/memory_utils/memdump.h>
#include <gmlib/memory_utils/memxor.h>
#include <gmlib/number/mont256.h>
#include <gmlib/number/mpz.h>
#include <gmlib/number/uint256.h>
#include <gmlib/rng/rng.h>
#include <gmlib/sm2/internal/sm2_asn1.h>
#include <gmlib/sm2/sm2.h>
#include <gmlib/sm3/sm3.h>
#include <gmlib/sm9/sm9.h>
#include <stdexcept>
#include <sys/mman.h>
#include <typeinfo>
#include <unistd.h>
using pbt::Bytes;
using pbt::u64;
using pbt::u8;
namespace {
struct In
{
    const u8*   p;
    std::size_t n;
    std::size_t len()
    {
        std::size_t l = 0;
        for (int i = 0; i < 4; i++)
            l = l << 8 | *p++, n--;
        return l;
    }
    Bytes get()
    {
        std::size_t l = len();
        Bytes       b(p, p + l);
        p += l, n -= l;
        return b;
    }
    u64 num()
    {
        u64 v = 0;
        for (auto x : get())
            v = v << 8 | x;
        return v;
    }
    bool more() const { return n != 0; }
};
struct Out
{
    Bytes b;
    void  num(u64 v)
    {
        for (int i = 7; i >= 0; i--)
            b.push_back((u8)(v >> (8 * i)));
    }
    void raw(const u8* p, std::size_t n) { b.insert(b.end(), p, p + n); }
    void put(const Bytes& x)
    {
        num(x.size());
        raw(x.data(), x.size());
    }
};
struct Rng : rng::Rng
{
    Bytes       script;
    u64         st, at = 0;
    Rng(const Bytes& s, u64 seed) : script(s), st(seed) {}
    const char* name() const override { return "script"; }
    void        gen(void* o, std::size_t n) override
    {
        if (at + n > 1 << 16)
            throw std::length_error("random source drained");
        for (std::size_t i = 0; i < n; i++, at++)
            ((u8*)o)[i] = at < script.size() ? script[at] : (u8)pbt::splitmix(st);
    }
};
// runs f; what it throws becomes part of the transcript
template <class F>
bool attempt(Out& o, F f)
{
    try
    {
        f();
        o.num(0);
        return true;
    }
    catch (const std::exception& e)
    {
        o.num(1);
        const char* n = typeid(e).name();
        o.put(Bytes(n, n + std::strlen(n)));
        return false;
    }
}
// a history of keyings and batches on one object, at any alignment, in place or not
template <class C>
void cipher(In& in, Out& o)
{
    C    c;
    bool enc = true;
    while (in.more())
    {
        Bytes key = in.get(), data = in.get();
        if (key.size())
            c.set_key(key.data(), (enc = in.num()) ? C::ENCRYPTION : C::DECRYPTION);
        std::size_t ai = in.num(), ao = in.num(), n = data.size() / 16;
        bool        inplace = in.num(), single = in.num();
        Bytes       bi(data.size() + ai), bo(data.size() + ao, 0xA5);
        std::copy(data.begin(), data.end(), bi.begin() + (long)ai);
        u8 *pi = bi.data() + ai, *po = inplace ? pi : bo.data() + ao;
        if (!single)
            enc ? c.encrypt_blocks(po, pi, n) : c.decrypt_blocks(po, pi, n);
        else
            for (std::size_t i = 0; i < n; i++)
                enc ? c.encrypt_block(po + 16 * i, pi + 16 * i) : c.decrypt_block(po + 16 * i, pi + 16 * i);
        o.put(inplace ? bi : bo);
    }
}
// feeds the pieces; in place: one buffer is both the input and the output
template <class U, class F>
void stream(In& in, Out& o, bool inplace, std::size_t off, U upd, F fin)
{
    std::size_t        k = in.num(), ip = off, op = off;
    std::vector<Bytes> ps;
    Bytes              all(off);
    for (std::size_t i = 0; i < k; i++)
    {
        ps.push_back(in.get());
        all.insert(all.end(), ps[i].begin(), ps[i].end());
    }
    all.resize(all.size() + 64);
    Bytes res;
    for (std::size_t i = 0; i < k; i++)
    {
        Bytes       out(inplace ? 0 : ps[i].size() + 4096 + off);
        u8 *        po = inplace ? all.data() + op : out.data() + off, *pi = all.data() + ip;
        std::size_t l = 0;
        if (i + 1 < k)
            upd(po, &l, pi, ps[i].size());
        else if (!attempt(o, [&] { fin(po, &l, pi, ps[i].size()); }))
            break;
        res.insert(res.end(), po, po + l);
        ip += ps[i].size(), op += l;
    }
    o.put(res);
}
// messages (iv, pieces...) through one object, re-keyed now and then
template <class C>
void mode(In& in, Out& o)
{
    auto  m   = (ref::Mode)in.num();
    bool  enc = in.num();
    Bytes key = in.get();
    std::unique_ptr<modes::Obj> x;
    while (in.more())
    {
        Bytes iv = in.get(), nk = in.get();
        bool  inplace = in.num();
        u64   off = in.num();
        if (!x)
            x = modes::make_mode<C>(m, enc, key.data(), iv.data());
        else if (nk.size())
            x->init(nk.data(), iv.data());
        else
            x->reset(iv.data());
        stream(in, o, inplace, off, [&](u8* d, std::size_t* l, const u8* s, std::size_t n) { x->update(d, l, s, n); },
               [&](u8* d, std::size_t* l, const u8* s, std::size_t n) { x->do_final(d, l, s, n); });
    }
}
template <class C>
void gcm(In& in, Out& o)
{
    bool enc = in.num();
    auto x   = modes::make_gcm<C>(enc);
    while (in.more())
    {
        Bytes key = in.get(), iv = in.get(), aad = in.get(), tag = in.get();
        bool  inplace = in.num();
        u64   off = in.num();
        Bytes a2(off);
        a2.insert(a2.end(), aad.begin(), aad.end());
        x->init(key.data(), iv.data(), iv.size(), a2.data() + off, aad.size());
        x->set_tag(tag.data());
        stream(in, o, inplace, off, [&](u8* d, std::size_t* l, const u8* s, std::size_t n) { x->update(d, l, s, n); },
               [&](u8* d, std::size_t* l, const u8* s, std::size_t n) { x->do_final(d, l, s, n); });
        Bytes t(16, 0);
        if (enc)
            x->get_tag(t.data());
        o.put(t);
    }
}
// a history of messages over one hash or MAC; a message may be continued by a copy, or begun afresh
template <class T, class R, class K>
void digests(In& in, Out& o, T h, std::size_t dl, R reset, K rekey)
{
    while (in.more())
    {
        u64 how = in.num();
        if (how == 1)
            reset(h);
        else if (how == 2)
            rekey(h, in.get());
        std::size_t k = in.num(), off = in.num(), copy_at = in.num();
        T           snap = h;
        for (std::size_t i = 0; i < k; i++)
        {
            Bytes p(off), q = in.get();
            p.insert(p.end(), q.begin(), q.end());
            if (i == copy_at)
                snap = h;
            if (i + 1 == k)
            {
                Bytes d(dl), e(dl);
                h.do_final(d.data(), p.data() + off, q.size());
                o.put(d);
                snap.do_final(e.data(), nullptr, 0);
                o.put(e);
            }
            else
                h.update(p.data() + off, q.size());
        }
        reset(h);
    }
}
void hash(In& in, Out& o)
{
    switch (in.num())
    {
    case 0: digests(in, o, sm3::SM3(), 32, [](sm3::SM3& h) { h.reset(); }, [](sm3::SM3& h, const Bytes&) { h = sm3::SM3(); }); break;
    case 1:
    {
        using M   = hash_lib::HMac<sm3::SM3>;
        Bytes key = in.get();
        digests(in, o, M(key.data(), key.size()), 32, [&](M& h) { h.set_key(key.data(), key.size()); }, [&](M& h, const Bytes& k) { h.set_key((key = k).data(), k.size()); });
        break;
    }
    default:
    {
        using G   = ghash::GHash;
        Bytes key = in.get();
        digests(in, o, G(key.data()), 16, [](G& h) { h.reset(); }, [](G& h, Bytes k) {
            k.resize(16);
            h.set_key(k.data());
        });
    }
    }
}
void numbers(In& in, Out& o)
{
    using namespace number;
    Bytes     x = in.get(), y = in.get();
    u64       small = in.num();
    uint256_t a, b, r;
    u8        t[64];
    uint256_from_bytes(a, x.data());
    uint256_from_bytes(b, y.data());
    auto out = [&] {
        uint256_to_bytes(t, r);
        o.raw(t, 32);
    };
    {
        // results over either operand
        uint256_t u;
#define ALIAS(f, ...)                                                                                                                                                \
    uint256_cpy(u, a), f(u, u, ##__VA_ARGS__), uint256_cpy(r, u), out();
#define ALIAS2(f)                                                                                                                                                    \
    uint256_cpy(u, a), f(u, u, b), uint256_cpy(r, u), out();                                                                                                          \
    uint256_cpy(u, b), f(u, a, u), uint256_cpy(r, u), out();                                                                                                          \
    uint256_cpy(u, a), f(u, u, u), uint256_cpy(r, u), out();
        ALIAS2(uint256_add_carry)
        ALIAS2(uint256_sub_borrow)
        ALIAS(uint256_dbl_carry)
        ALIAS(uint256_tpl_carry)
        ALIAS(uint256_add_carry_uint32, (std::uint32_t)small)
        ALIAS(uint256_sub_borrow_uint32, (std::uint32_t)small)
        ALIAS(uint256_mul_carry_uint32, (std::uint32_t)small)
    }
    o.num((u64)(uint256_add_carry(r, a, b) != 0)), out();
    o.num((u64)(uint256_sub_borrow(r, a, b) != 0)), out();
    o.num((u64)uint256_dbl_carry(r, a)), out();
    o.num((u64)uint256_tpl_carry(r, a)), out();
    o.num((u64)(uint256_add_carry_uint32(r, a, (std::uint32_t)small) != 0)), out();
    o.num((u64)(uint256_sub_borrow_uint32(r, a, (std::uint32_t)small) != 0)), out();
    uint256_mul_carry_uint32(r, a, (std::uint32_t)small), out();
    int v = uint256_cmp(a, b);
    o.num((u64)((v > 0) - (v < 0)));
    v = uint256_cmp_uint32(a, (std::uint32_t)small);
    o.num((u64)((v > 0) - (v < 0)));
    o.num(uint256_equal(a, b)), o.num(uint256_equal_zero(a)), o.num(uint256_equal_one(a));
    for (unsigned i = 0; i < 256; i++)
        o.b.push_back((u8)(uint256_bittest(a, i) != 0));
    // wide product, through the multi-limb routines as well
    constexpr std::size_t L = sizeof(uint256_t) / sizeof(a[0]);
    std::remove_reference_t<decltype(a[0])> w[2 * L], q[2 * L];
    uint256_mul(w, a, b);
    mpz_to_bytes(t, w, 2 * L), o.raw(t, 64);
    mpz_mul(q, a, b, L);
    mpz_to_bytes(t, q, 2 * L), o.raw(t, 64);
    uint256_sqr(w, a);
    mpz_to_bytes(t, w, 2 * L), o.raw(t, 64);
    v = mpz_cmp(w, q, 2 * L);
    o.num((u64)((v > 0) - (v < 0)));
    int ca = mpz_add_carry(w, w, q, (int)(small & 1), 2 * L);
    o.num((u64)(ca != 0));
    mpz_to_bytes(t, w, 2 * L), o.raw(t, 64);
    ca = mpz_sub_borrow(w, q, w, ca ? -1 : 0, 2 * L);
    o.num((u64)(ca != 0));
    mpz_to_bytes(t, w, 2 * L), o.raw(t, 64);
    // Montgomery arithmetic modulo a given odd number m (m, m-2, 2^256 mod m, 2^512 mod m); residues given
    Bytes      m[4], ra = in.get(), rb = in.get();
    for (auto& q : m)
        q = in.get();
    uint256_t  mm[4];
    mont256_t  ma, mb, mr;
    for (int i = 0; i < 4; i++)
        uint256_from_bytes(mm[i], m[i].data());
    Mont256CTX ctx{mm[0], mm[1], mm[2], mm[3], mont_compute_N_(mm[0][0])};
    uint256_from_bytes(a, ra.data()), uint256_from_bytes(b, rb.data());
    uint256_mod_add(r, a, b, mm[0]), out();
    uint256_mod_sub(r, a, b, mm[0]), out();
    mont256_from_bytes(&ctx, ma, ra.data()), mont256_from_bytes(&ctx, mb, rb.data());
    if (m[0][0])
    {
        Bytes s = in.get();
        uint256_mod(r, s.data(), s.size(), mm[0]), out();
    }
    auto mout = [&] {
        uint256_to_bytes(t, mr), o.raw(t, 32);
        mont256_to_bytes(&ctx, t, mr), o.raw(t, 32);
    };
    mont256_add(&ctx, mr, ma, mb), mout();
    mont256_sub(&ctx, mr, ma, mb), mout();
    mont256_dbl(&ctx, mr, ma), mout();
    mont256_tpl(&ctx, mr, ma), mout();
    mont256_neg(&ctx, mr, ma), mout();
    mont256_mul(&ctx, mr, ma, mb), mout();
    mont256_sqr(&ctx, mr, ma), mout();
    mont256_div2(&ctx, mr, ma), mout();
    mont256_set_uint32(&ctx, mr, (std::uint32_t)small), mout();
    if (!uint256_equal_zero(b))
        mont256_pow(&ctx, mr, ma, b), mout();
    o.num(mont256_equal(&ctx, ma, mb)), o.num(mont256_equal_zero(&ctx, ma)), o.num(mont256_equal_one(&ctx, ma));
#define MALIAS(f)                                                                                                                                                    \
    mont256_cpy(&ctx, mr, ma), f(&ctx, mr, mr), mout();
#define MALIAS2(f)                                                                                                                                                   \
    mont256_cpy(&ctx, mr, ma), f(&ctx, mr, mr, mb), mout();                                                                                                           \
    mont256_cpy(&ctx, mr, mb), f(&ctx, mr, ma, mr), mout();                                                                                                           \
    mont256_cpy(&ctx, mr, ma), f(&ctx, mr, mr, mr), mout();
    MALIAS2(mont256_add)
    MALIAS2(mont256_sub)
    MALIAS2(mont256_mul)
    MALIAS(mont256_dbl)
    MALIAS(mont256_tpl)
    MALIAS(mont256_neg)
    MALIAS(mont256_sqr)
    MALIAS(mont256_div2)
    uint256_to_bytes(t, mr);
    if (in.num() && !mont256_equal_zero(&ctx, ma)) // the modulus is prime
    {
        mont256_inv(&ctx, mr, ma), mout();
        MALIAS(mont256_inv)
    }
}
// numbers of any length (a multiple of 8 bytes)
void long_numbers(In& in, Out& o)
{
    using namespace number;
    using T       = std::remove_reference_t<decltype(std::declval<uint256_t&>()[0])>;
    Bytes x = in.get(), y = in.get();
    u64   alias = in.num(), carry = in.num();
    std::size_t    nb = x.size(), n = nb / sizeof(T);
    std::vector<T> a(n), b(n), r(2 * n);
    Bytes          e(2 * nb);
    auto           put = [&](const T* p, std::size_t k) {
        Bytes q(k * sizeof(T));
        mpz_to_bytes(q.data(), p, k);
        o.put(q);
    };
    auto load = [&] {
        mpz_from_bytes(a.data(), x.data(), n), mpz_from_bytes(b.data(), y.data(), n);
        return alias == 1 ? a.data() : alias == 2 ? b.data() : r.data();
    };
    T* d = load();
    o.num((u64)(mpz_add_carry(d, a.data(), b.data(), (int)carry, n) != 0)), put(d, n);
    d = load();
    o.num((u64)(mpz_sub_borrow(d, a.data(), b.data(), -(int)carry, n) != 0)), put(d, n);
    load();
    mpz_mul(r.data(), a.data(), b.data(), n), put(r.data(), 2 * n);
    mpz_mul(r.data(), a.data(), a.data(), n), put(r.data(), 2 * n);
    int v = mpz_cmp(a.data(), b.data(), n);
    o.num((u64)((v > 0) - (v < 0)));
    v = mpz_cmp(a.data(), a.data(), n);
    o.num((u64)((v > 0) - (v < 0)));
    mpz_cpy(r.data(), b.data(), n), put(r.data(), n);
}
template <std::size_t N>
void xorn(Out& o, const Bytes& a, const Bytes& b)
{
    Bytes r(N + 1, 7);
    memory_utils::memxor<N>(r.data(), a.data(), b.data());
    o.put(r);
    memory_utils::memxor<N>(r.data(), r.data(), a.data());
    o.put(r);
    memory_utils::memxor<N>(r.data(), b.data(), r.data());
    o.put(r);
}
void memory(In& in, Out& o)
{
    Bytes       a = in.get(), b = in.get();
    std::size_t off = in.num(), n = a.size();
    Bytes       r(n + 64, 9);
    memory_utils::memxor_n(r.data() + off, a.data(), b.data(), n);
    o.put(r);
    r = a, memory_utils::memxor_n(r.data(), r.data(), b.data(), n), o.put(r);
    r = b, memory_utils::memxor_n(r.data(), a.data(), r.data(), n), o.put(r);
    if (n >= 700)
        xorn<1>(o, a, b), xorn<15>(o, a, b), xorn<31>(o, a, b), xorn<63>(o, a, b), xorn<100>(o, a, b), xorn<255>(o, a, b), xorn<256>(o, a, b), xorn<511>(o, a, b), xorn<700>(o, a, b);
    using namespace memory_utils;
    const u8* p = a.data() + off;
    if (off + 8 <= n)
    {
        o.num(load16_le(p)), o.num(load32_le(p)), o.num(load64_le(p)), o.num(load16_be(p)), o.num(load32_be(p)), o.num(load64_be(p));
        u64 v = load64_le(p);
        u8  t[16] = {0};
        store16_le(t + off % 8, (std::uint16_t)v), o.raw(t, 16);
        store32_le(t + off % 8, (std::uint32_t)v), o.raw(t, 16);
        store64_le(t + off % 8, v), o.raw(t, 16);
        store16_be(t + off % 8, (std::uint16_t)v), o.raw(t, 16);
        store32_be(t + off % 8, (std::uint32_t)v), o.raw(t, 16);
        store64_be(t + off % 8, v), o.raw(t, 16);
    }
}
using H = sm3::SM3;
void sm2_ops(In& in, Out& o)
{
    u64                   op = in.num();
    sm2::SM2PrivateKey<H> k;
    sm2::SM2PublicKey<H>  pub;
    if (op == 0) // key generation and use, from a random stream
    {
        Bytes sc = in.get();
        u64   seed = in.num();
        Bytes id = in.get(), msg = in.get();
        auto  pc = (sm2::SM2EcPC)in.num();
        Rng   r(sc, seed);
        Bytes d(32), x(32), y(32), sig(64);
        k.gen_priv(r);
        k.get_priv(d.data());
        pub = k.fetch_pub();
        pub.get_pub(x.data(), y.data());
        o.put(d), o.put(x), o.put(y);
        k.sign(sig.data(), msg.data(), msg.size(), r, id.data(), id.size());
        o.put(sig);
        o.num(pub.verify(sig.data(), msg.data(), msg.size(), id.data(), id.size()));
        Bytes       ct(200 + msg.size());
        std::size_t l = 0;
        if (msg.size())
        {
            pub.encrypt(ct.data(), &l, msg.data(), msg.size(), r, pc);
            ct.resize(l);
            o.put(ct);
        }
        o.num(r.at);
    }
    else if (op == 1) // verify anything
    {
        Bytes x = in.get(), y = in.get(), sig = in.get(), id = in.get(), msg = in.get();
        if (attempt(o, [&] { pub.set_pub(x.data(), y.data()); }))
            o.num(pub.verify(sig.data(), msg.data(), msg.size(), id.data(), id.size()));
    }
    else if (op == 3) // arithmetic on curve points and field elements
    {
        using namespace sm2::internal;
        Bytes    p = in.get(), q = in.get(), k = in.get(), e = in.get();
        sm2_ec_a a, b, r;
        sm2_ec_j ja, jb, jr;
        u8       t[65];
        auto     out = [&] {
            bool inf = sm2_ec_j_is_inf(jr);
            o.num(inf);
            if (!inf)
                sm2_ec_j_to_a(r, jr), sm2_ec_a_to_bytes04(t, r), o.raw(t, 64), o.num(sm2_ec_a_check(r));
        };
        sm2_ec_a_from_bytes04(a, p.data()), sm2_ec_a_from_bytes04(b, q.data());
        sm2_ec_j_from_a(ja, a), sm2_ec_j_from_a(jb, b);
        sm2_ec_j_dbl(ja, ja), sm2_ec_j_cpy(jr, ja), out();
        sm2_ec_j_add(jr, ja, jb), out();
        sm2_ec_j_add_a(jr, ja, b), out();
        sm2_ec_j_add(jr, jr, ja), out();
        sm2_ec_j_add_a(jr, jr, a), out();
        sm2_ec_j_neg(jr, jr), out();
        sm2_ec_j_mul_a(jr, k.data(), a), out();
        o.num(sm2_ec_j_equal(jr, ja));
        sm2_ec_j_mul_g(jr, k.data()), out();
        sm2_ec_a_to_bytes_uncompressed(t, a), o.raw(t, 65);
        sm2_ec_a_to_bytes_compressed(t, a), o.raw(t, 33);
        sm2_ec_a_to_bytes_mix(t, a), o.raw(t, 65);
        std::size_t rd = 0;
        int         rc = sm2_ec_a_from_bytes(r, &rd, e.data(), e.size());
        o.num((u64)rc);
        if (rc == 0)
            o.num(rd), sm2_ec_a_to_bytes04(t, r), o.raw(t, 64);
        sm2_fp_t f, g;
        sm2_fn_t m, n;
        sm2_fp_from_bytes(f, p.data()), sm2_fp_from_bytes(g, q.data());
        auto fo = [&] { sm2_fp_to_bytes(t, g), o.raw(t, 32); };
        auto no = [&] { sm2_fn_to_bytes(t, n), o.raw(t, 32); };
        o.num((u64)sm2_fp_sqrt(g, f)), fo();
        sm2_fp_inv(g, f), fo();
        sm2_fp_sub(g, g, f), fo(), sm2_fp_tpl(g, g), fo(), sm2_fp_neg(g, g), fo(), sm2_fp_sqr(g, g), fo();
        sm2_fn_from_bytes_ex(m, e.data(), e.size()), sm2_fn_cpy(n, m), no();
        sm2_fn_from_fp(m, f), sm2_fn_sqr(n, m), no(), sm2_fn_inv(n, n), no(), sm2_fn_add(n, n, m), no(), sm2_fn_sub(n, m, n), no(), sm2_fn_mul(n, n, m), no();
        sm2_fn_to_fp(g, n), fo();
    }
    else if (op == 4) // key derivation and the identity digest
    {
        Bytes z = in.get(), x = in.get(), id = in.get();
        Bytes r(x.size());
        o.num((u64)sm2::internal::sm2_kdf_xor<H>(r.data(), x.data(), x.size(), z.data(), z.size())), o.put(r);
        o.num((u64)sm2::internal::sm2_kdf_xor<H>(x.data(), x.data(), x.size(), z.data(), z.size())), o.put(x);
    }
    else if (op == 5) // imports, good and bad, then a use of what is there
    {
        bool  have = false, havep = false;
        Bytes t(64);
        while (in.more())
        {
            Bytes d = in.get();
            if (d.size() == 32)
                have = attempt(o, [&] { k.set_priv(d.data()); }) || have;
            else
                havep = attempt(o, [&] { pub.set_pub(d.data(), d.data() + 32); }) || havep;
            if (have)
                k.get_priv(t.data()), o.raw(t.data(), 32), k.fetch_pub().get_pub(t.data(), t.data() + 32), o.put(t);
            if (havep)
                pub.get_pub(t.data(), t.data() + 32), o.put(t);
        }
    }
    else // decrypt anything
    {
        Bytes d = in.get(), ct = in.get();
        if (!attempt(o, [&] { k.set_priv(d.data()); }))
            return;
        Bytes       pt(ct.size() + 64);
        std::size_t l = 0;
        if (attempt(o, [&] { k.decrypt(pt.data(), &l, ct.data(), ct.size()); }))
            o.put(Bytes(pt.begin(), pt.begin() + (long)l));
    }
}
struct Z1
{
    sm9::internal::sm9_ec_a a;
    sm9::internal::sm9_ec_j j;
};
struct Z2
{
    sm9::internal::sm9_ec2_a a;
    sm9::internal::sm9_ec2_j j;
};
void sm9_ops(In& in, Out& o)
{
    u64                             op = in.num();
    sm9::SM9SignMasterPrivateKey<H> mk;
    sm9::SM9SignMasterPublicKey<H>  mp;
    sm9::SM9SignPrivateKey<H>       k;
    if (op == 0)
    {
        Bytes sc = in.get();
        u64   seed = in.num();
        Bytes id = in.get(), msg = in.get();
        auto  pc = (sm9::SM9EcPC)in.num();
        auto  hid = (u8)in.num();
        Rng   r(sc, seed);
        Bytes d(32), x(64), y(64), px(32), py(32);
        mk.gen_priv(r);
        mk.get_priv(d.data());
        mp = mk.fetch_SignPublicKey();
        mp.get_pub(x.data(), y.data());
        o.put(d), o.put(x), o.put(y);
        if (!attempt(o, [&] { k = mk.gen_SignPrivateKey(id.data(), id.size(), r, hid); }))
            return;
        k.get_priv(px.data(), py.data(), x.data(), y.data());
        o.put(px), o.put(py), o.put(x), o.put(y);
        Bytes       sig(97);
        std::size_t l = 0;
        k.sign(sig.data(), &l, msg.data(), msg.size(), r, pc);
        sig.resize(l);
        o.put(sig);
        o.num(mp.verify(sig.data(), l, msg.data(), msg.size(), id.data(), id.size(), hid));
        o.num(r.at);
    }
    else if (op == 1)
    {
        Bytes x = in.get(), y = in.get(), sig = in.get(), msg = in.get(), id = in.get();
        auto  hid = (u8)in.num();
        if (attempt(o, [&] { mp.set_pub(x.data(), y.data()); }))
            o.num(mp.verify(sig.data(), sig.size(), msg.data(), msg.size(), id.data(), id.size(), hid));
    }
    else if (op == 3) // arithmetic in both groups, decoding
    {
        using namespace sm9::internal;
        Bytes k = in.get(), e = in.get(), e2 = in.get();
        Z1 a, b, r;
        Z2 a2, b2, r2;
        u8        t[129];
        sm9_ec_j_mul_g(a.j, k.data()), sm9_ec2_j_mul_g(a2.j, k.data());
        bool inf = sm9_ec_j_is_inf(a.j);
        o.num(inf), o.num(sm9_ec2_j_is_inf(a2.j));
        if (!inf)
        {
            sm9_ec_j_to_a(a.a, a.j), sm9_ec2_j_to_a(a2.a, a2.j);
            sm9_ec_j_dbl(b.j, a.j), sm9_ec2_j_dbl(b2.j, a2.j);
            sm9_ec_j_add_a(b.j, b.j, a.a), sm9_ec2_j_add_a(b2.j, b2.j, a2.a);
            sm9_ec_j_add(b.j, b.j, a.j), sm9_ec2_j_add(b2.j, b2.j, a2.j);
            auto out = [&] {
                o.num(sm9_ec_j_is_inf(b.j)), o.num(sm9_ec2_j_is_inf(b2.j));
                if (!sm9_ec_j_is_inf(b.j))
                    sm9_ec_j_to_a(r.a, b.j), sm9_ec_a_to_bytes04(t, r.a), o.raw(t, 64), o.num(sm9_ec_a_check(r.a));
                if (!sm9_ec2_j_is_inf(b2.j))
                    sm9_ec2_j_to_a(r2.a, b2.j), sm9_ec2_a_to_bytes04(t, r2.a), o.raw(t, 128), o.num(sm9_ec2_a_check(r2.a));
            };
            out();
            sm9_ec_j_neg(b.j, b.j), sm9_ec2_j_neg(b2.j, b2.j), out();
            Bytes m = in.get();
            sm9_ec_j_mul_a(b.j, m.data(), a.a), sm9_ec2_j_mul_a(b2.j, m.data(), a2.a), out();
            o.num(sm9_ec_j_equal(b.j, a.j)), o.num(sm9_ec2_j_equal(b2.j, a2.j));
            sm9_ec_a_to_bytes_uncompressed(t, a.a), o.raw(t, 65);
            sm9_ec_a_to_bytes_compressed(t, a.a), o.raw(t, 33);
            sm9_ec_a_to_bytes_mix(t, a.a), o.raw(t, 65);
            sm9_ec2_a_to_bytes_uncompressed(t, a2.a), o.raw(t, 129);
            sm9_ec2_a_to_bytes_compressed(t, a2.a), o.raw(t, 65);
            sm9_ec2_a_to_bytes_mix(t, a2.a), o.raw(t, 129);
        }
        else
            in.get();
        std::size_t rd = 0;
        int         rc = sm9_ec_a_from_bytes(r.a, &rd, e.data(), e.size());
        o.num((u64)rc);
        if (rc == 0)
            o.num(rd), sm9_ec_a_to_bytes04(t, r.a), o.raw(t, 64);
        rc = sm9_ec2_a_from_bytes(r2.a, &rd, e2.data(), e2.size());
        o.num((u64)rc);
        if (rc == 0)
            o.num(rd), sm9_ec2_a_to_bytes04(t, r2.a), o.raw(t, 128);
        sm9_Hn<H>(t, e.data(), e.size(), k.data(), 32, 1), o.raw(t, 32);
        sm9_Hn<H>(t, e2.data(), e2.size(), k.data(), 32, 2), o.raw(t, 32);
    }
    else if (op == 4) // the tower of extension fields
    {
        using namespace sm9::internal;
        Bytes      x = in.get(), y = in.get(), k = in.get();
        sm9_fp12_t a, b, r;
        u8         t[384];
        auto       out = [&] { sm9_fp12_to_bytes(t, r), o.raw(t, 384); };
        sm9_fp12_from_bytes(a, x.data()), sm9_fp12_from_bytes(b, y.data());
        sm9_fp12_add(r, a, b), out(), sm9_fp12_sub(r, a, b), out(), sm9_fp12_mul(r, a, b), out(), sm9_fp12_sqr(r, a), out(), sm9_fp12_neg(r, a), out();
        if (!sm9_fp12_equal_zero(a))
            sm9_fp12_inv(r, a), out();
        sm9_fp12_pow(r, a, k.data()), out();
        sm9_fp12_mul_fp4(r, a, b[1]), out();
        sm9_fp12_cpy(r, a), sm9_fp12_mul(r, r, b), out(), sm9_fp12_mul(r, b, r), out(), sm9_fp12_mul(r, r, r), out(), sm9_fp12_sqr(r, r), out();
        o.num(sm9_fp12_equal(a, b)), o.num(sm9_fp12_equal_one(a));
        sm9_fp4_mul_v(r[0], a[0]), sm9_fp4_mul_fp2(r[1], a[1], b[0][1]), sm9_fp4_mul_fp(r[2], a[2], b[0][1][0]), out();
        sm9_fp4_sqr(r[0], a[0]), sm9_fp4_mul(r[1], a[1], b[1]), sm9_fp4_sub(r[2], a[2], b[2]), out();
        sm9_fp2_mul_u(r[0][0], a[0][0]), sm9_fp2_mul_fp(r[0][1], a[0][1], b[0][0][0]), sm9_fp2_sqr(r[1][0], a[1][0]), sm9_fp2_tpl(r[1][1], a[1][1]);
        sm9_fp2_mul(r[2][0], a[2][0], b[2][0]);
        if (!sm9_fp2_equal_zero(a[2][1]))
            sm9_fp2_inv(r[2][1], a[2][1]);
        out();
        sm9_fp_t s;
        int      rc = sm9_fp_sqrt(s, a[0][0][0]);
        o.num((u64)rc);
        if (rc == 0)
            sm9_fp_to_bytes(t, s), o.raw(t, 32);
        sm9_fn_t m, n;
        auto     no = [&] { sm9_fn_to_bytes(t, n), o.raw(t, 32); };
        sm9_fn_from_bytes_ex(m, x.data(), 40), sm9_fn_cpy(n, m), no();
        sm9_fn_sqr(n, m), no(), sm9_fn_add(n, n, m), no(), sm9_fn_sub(n, m, n), no(), sm9_fn_mul(n, n, m), no();
        if (!sm9_fn_equal_zero(n))
            sm9_fn_inv(n, n), no();
    }
    else if (op == 5) // imports, good and bad
    {
        Bytes t(192);
        bool  hm = false, hp = false, hk = false;
        while (in.more())
        {
            Bytes d = in.get();
            if (d.size() == 32)
                hm = attempt(o, [&] { mk.set_priv(d.data()); }) || hm;
            else if (d.size() == 128)
                hp = attempt(o, [&] { mp.set_pub(d.data(), d.data() + 64); }) || hp;
            else
                hk = attempt(o, [&] { k.set_priv(d.data(), d.data() + 32, d.data() + 64, d.data() + 128); });
            if (hm)
                mk.get_priv(t.data()), o.raw(t.data(), 32);
            if (hp)
                mp.get_pub(t.data(), t.data() + 64), o.put(t);
            if (hk)
                k.get_priv(t.data(), t.data() + 32, t.data() + 64, t.data() + 128), o.put(t);
        }
    }
    else
    {
        // scalar multiples of the generators and their pairing
        using namespace sm9::internal;
        Bytes       a = in.get(), b = in.get();
        sm9_ec_j    p;
        sm9_ec_a    pa;
        sm9_ec2_j   q;
        sm9_ec2_a   qa;
        sm9_fp12_t  g;
        u8          t[384];
        sm9_ec_j_mul_g(p, a.data());
        sm9_ec_j_to_a(pa, p);
        sm9_ec2_j_mul_g(q, b.data());
        sm9_ec2_j_to_a(qa, q);
        sm9_pairing(g, pa, qa);
        sm9_fp12_to_bytes(t, g);
        o.raw(t, 384);
        sm9_fp12_inv(g, g);
        sm9_fp12_pow(g, g, a.data());
        sm9_fp12_to_bytes(t, g);
        o.raw(t, 384);
    }
}
void asn1_ops(In& in, Out& o)
{
    Bytes       d = in.get();
    const u8*   p = d.data();
    std::size_t n = d.size();
    auto        rel = [&](const u8* q) { return (u64)(q - p); };
    asn1::Asn1TLV tlv;
    std::size_t   rt = 0;
    int           rc = asn1::asn1_decode_tlv(&tlv, &rt, p, n);
    o.num((u64)rc);
    if (rc == 0)
        o.num(rt), o.num((u64)tlv.tag_class), o.num((u64)tlv.tag_number), o.num((u64)tlv.tag_pc), o.num(tlv.length), o.num(rel(tlv.value));
    const u8*   v = nullptr;
    std::size_t l = 0, rd = 0, bits = 0;
    bool        bo = false;
    rc = asn1::asn1_decode_boolean_value(&bo, &rd, p, n);
    o.num((u64)rc), rc == 0 ? o.num(rd), o.num(bo) : (void)0;
    rc = asn1::asn1_decode_integer_value(&v, &l, &rd, p, n);
    o.num((u64)rc), rc == 0 ? o.num(rd), o.num(l), o.num(rel(v)) : (void)0;
    rc = asn1::asn1_decode_bit_string_value(&v, &l, &bits, &rd, p, n);
    o.num((u64)rc), rc == 0 ? o.num(rd), o.num(l), o.num(bits), o.num(rel(v)) : (void)0;
    rc = asn1::asn1_decode_octet_string_value(&v, &l, &rd, p, n);
    o.num((u64)rc), rc == 0 ? o.num(rd), o.num(l) : (void)0;
    rc = asn1::asn1_decode_sequence_value(&v, &l, &rd, p, n);
    o.num((u64)rc), rc == 0 ? o.num(rd), o.num(l) : (void)0;
    using namespace sm2::internal;
    ASN1_SM2Signature sg;
    rc = sm2_signature_asn1_decode(&sg, &rd, p, n);
    o.num((u64)rc);
    if (rc == 0)
    {
        Bytes       e(200);
        std::size_t el = 0;
        o.num(rd), o.raw(sg.R, 32), o.raw(sg.S, 32);
        sm2_signature_asn1_encode(e.data(), &el, &sg);
        o.raw(e.data(), el);
    }
    ASN1_SM2Cipher ci;
    rc = sm2_cipher_asn1_decode(&ci, &rd, p, n);
    o.num((u64)rc);
    if (rc == 0)
        o.num(rd), o.raw(ci.XCoordinate, 32), o.raw(ci.YCoordinate, 32), o.num(ci.HASH.length), o.num(ci.CipherText.length);
}
void asn1_enc(In& in, Out& o)
{
    Bytes       v = in.get();
    u64         bits = in.num(), len = in.num();
    Bytes       b(v.size() + 64);
    std::size_t l = 0;
    auto        out = [&] { o.put(Bytes(b.begin(), b.begin() + (long)l)); };
    using namespace asn1;
    o.num(asn1_encode_integer_outl(v.data(), v.size())), o.num(asn1_encode_bit_string_outl(bits)), o.num(asn1_encode_octet_string_outl(v.size()));
    o.num(asn1_encode_sequence_outl(len)), o.num(asn1_encode_set_outl(len)), o.num(asn1_encode_tlv_outl(len)), o.num(asn1_encode_boolean_outl());
    if (v.size())
        asn1_encode_integer_tlv(b.data(), &l, v.data(), v.size()), out();
    asn1_encode_bit_string_tlv(b.data(), &l, v.data(), v.size(), bits), out();
    asn1_encode_octet_string_tlv(b.data(), &l, v.data(), v.size()), out();
    asn1_encode_boolean_tlv(b.data(), &l, bits & 1), out();
    asn1_encode_octet_string_tl(b.data(), &l, len), out();
    asn1_encode_bit_string_tl(b.data(), &l, len), out();
    asn1_encode_sequence_tl(b.data(), &l, len), out();
    asn1_encode_set_tl(b.data(), &l, len), out();
    if (v.size() < 65)
        return;
    using namespace sm2::internal;
    ASN1_SM2PrivateKey k;
    k.value = v.data();
    o.num(sm2_private_key_asn1_encode_outl(&k)), sm2_private_key_asn1_encode_outl(b.data(), &l, &k), out();
    ASN1_SM2PublicKey p;
    p.value = v.data();
    b.resize(v.size() + 300);
    o.num(sm2_public_key_asn1_encode_outl(&p)), sm2_public_key_asn1_encode(b.data(), &l, &p), out();
    ASN1_SM2Signature s;
    s.R = v.data(), s.S = v.data() + 32;
    o.num(sm2_signature_asn1_encode_outl(&s)), sm2_signature_asn1_encode(b.data(), &l, &s), out();
    ASN1_SM2Cipher c;
    c.XCoordinate = v.data(), c.YCoordinate = v.data() + 32, c.HASH = {v.data(), 32}, c.CipherText = {v.data(), v.size()};
    o.num(sm2_cipher_asn1_encode_outl(&c)), sm2_cipher_asn1_encode(b.data(), &l, &c), out();
}
// what is printed on standard output
template <class F>
void printed(Out& o, F f)
{
    fflush(stdout);
    int saved = dup(1), fd = memfd_create("dump", 0);
    dup2(fd, 1);
    f();
    fflush(stdout);
    dup2(saved, 1);
    close(saved);
    Bytes   r((std::size_t)lseek(fd, 0, SEEK_END));
    ssize_t k = pread(fd, r.data(), r.size(), 0);
    close(fd);
    o.num((u64)k);
    o.put(r);
}
void dumps(In& in, Out& o)
{
    Bytes d = in.get();
    u64   line = in.num(), ascii = in.num();
    printed(o, [&] { memory_utils::memdump(d.data(), d.size(), line, ascii & 2 ? "%u" : "%02x", ascii & 1); });
    printed(o, [&] { o.num((u64)asn1::asn1_dump(d.data(), d.size())); });
}
template <class F>
void by_cipher(u64 id, F f)
{
    switch (id)
    {
    case 0: f((sm4::SM4*)nullptr); break;
    case 1: f((aes::AES128*)nullptr); break;
    case 2: f((aes::AES192*)nullptr); break;
    default: f((aes::AES256*)nullptr);
    }
}
Bytes last;
} // namespace
extern "C" __attribute__((visibility("default"))) void gmlib_run(unsigned op, const u8* p, std::size_t n, const u8** out, std::size_t* outl)
{
    In  in{p, n};
    Out o;
    attempt(o, [&] {
        switch (op)
        {
        case 0: by_cipher(in.num(), [&](auto* t) { cipher<std::remove_pointer_t<decltype(t)>>(in, o); }); break;
        case 1: by_cipher(in.num(), [&](auto* t) { mode<std::remove_pointer_t<decltype(t)>>(in, o); }); break;
        case 2: by_cipher(in.num(), [&](auto* t) { gcm<std::remove_pointer_t<decltype(t)>>(in, o); }); break;
        case 3: hash(in, o); break;
        case 4: numbers(in, o); break;
        case 5: memory(in, o); break;
        case 6: sm2_ops(in, o); break;
        case 7: sm9_ops(in, o); break;
        case 8: asn1_ops(in, o); break;
        case 9: long_numbers(in, o); break;
        case 10: asn1_enc(in, o); break;
        case 11: dumps(in, o); break;
        }
    });
    last  = std::move(o.b);
    *out  = last.data();
    *outl = last.size();
}
