#include "num.h"
using namespace pbt;
using num::gen;
using num::gen_rel;
using num::gen_mod;
using num::Limbs;
using ref::Z;
namespace nc = number::internal::common;
#if HAVE_X64
namespace nx = number::internal::x64;
#endif
#define EXPECT_Z(got, want, sig, what)                                                           \
    do                                                                                           \
    {                                                                                            \
        Z g_ = (got), w_ = (want);                                                               \
        if (g_ != w_)                                                                            \
            c.fail(sig, strf("%s (%s): got %s want %s", what, W::name, g_.str().c_str(), w_.str().c_str())); \
    } while (0)

// both widths under one set of names
struct F32 : num::W32
{
#define FN(n) template <class... A> static auto n(A... a) { return nc::uint256_##n(a...); }
    FN(add_carry) FN(sub_borrow) FN(dbl_carry) FN(tpl_carry) FN(mul) FN(sqr) FN(mod_add) FN(mod_sub) FN(mod) FN(cmp)
    FN(equal) FN(equal_zero) FN(equal_one) FN(cpy) FN(set_zero) FN(set_one) FN(from_bytes) FN(to_bytes) FN(bittest)
#undef FN
    static int add_s(T* r, const T* a, T b) { return nc::uint256_add_carry_uint32(r, a, b); }
    static int sub_s(T* r, const T* a, T b) { return nc::uint256_sub_borrow_uint32(r, a, b); }
    static T   mul_s(T* r, const T* a, T b) { return nc::uint256_mul_carry_uint32(r, a, b); }
    static T   div_s(T* r, const T* a, T b) { return nc::uint256_div_uint32(r, a, b); }
    static int cmp_s(const T* a, T b) { return nc::uint256_cmp_uint32(a, b); }
    static void set_s(T* a, T b) { nc::uint256_set_uint32(a, b); }
};
#if HAVE_X64
struct F64 : num::W64
{
#define FN(n) template <class... A> static auto n(A... a) { return nx::uint256_##n(a...); }
    FN(add_carry) FN(sub_borrow) FN(dbl_carry) FN(tpl_carry) FN(mul) FN(sqr) FN(mod_add) FN(mod_sub) FN(mod) FN(cmp)
    FN(equal) FN(equal_zero) FN(equal_one) FN(cpy) FN(set_zero) FN(set_one) FN(from_bytes) FN(to_bytes) FN(bittest)
#undef FN
    static int add_s(T* r, const T* a, T b) { return nx::uint256_add_carry_uint64(r, a, b); }
    static int sub_s(T* r, const T* a, T b) { return nx::uint256_sub_borrow_uint64(r, a, b); }
    static T   mul_s(T* r, const T* a, T b) { return nx::uint256_mul_carry_uint64(r, a, b); }
    static T   div_s(T* r, const T* a, T b) { return nx::uint256_div_uint64(r, a, b); }
    static int cmp_s(const T* a, T b) { return nx::uint256_cmp_uint64(a, b); }
    static void set_s(T* a, T b) { nx::uint256_set_uint64(a, b); }
};
#endif

template <class W>
static void arith(Source& s, Ctx& c)
{
    using T      = typename W::T;
    const Z M    = Z::pow2(256);
    Z       x    = gen(s, 32), y = gen_rel(s, x, 32);
    // small operand, often related to the low limb of x
    T xs = W::limb(x, 0);
    T k  = (T)s.limb();
    switch (s.below(5))
    {
    case 0: k = xs; break;
    case 1: k = (T)(xs + 1); break;
    case 2: k = (T)(xs - 1); break;
    case 3: k = (T)(0 - xs); break;
    default: break;
    }
    int      alias = (int)s.below(4); // 0 none, 1 out=a, 2 out=b, 3 a=b=out
    unsigned op    = (unsigned)s.below(13);
    if (alias == 3)
        y = x;
    Limbs<W> a(W::L, x), b(W::L, y), r(W::L, gen(s, 32));
    T *      pa = a.p(), *pb = alias == 3 ? a.p() : b.p(), *pr = alias == 0 ? r.p() : alias == 2 ? b.p() : a.p();
    T*       pru = alias == 0 || alias == 2 ? r.p() : a.p(); // unary/small forms
    static const char* names[] = {"add", "sub", "dbl", "tpl", "mul", "sqr", "add_small", "sub_small", "mul_small", "div_small", "cmp", "bittest", "bytes"};
    NOTE("%s %s: a=%s b=%s small=%llx alias=%d", names[op], W::name, x.str().c_str(), y.str().c_str(), (unsigned long long)k, alias);
    c.label(names[op]);
    auto out  = [&](T* p) { return W::val(p, W::L); };
    bool edge = false;
    switch (op)
    {
    case 0:
    {
        int cr = W::add_carry(pr, pa, pb);
        EXPECT_Z(out(pr), (x + y) % M, "add", "sum");
        EXPECT_Z(Z(cr), (x + y) / M, "add-carry", "carry");
        edge = cr;
        break;
    }
    case 1:
    {
        int bo = W::sub_borrow(pr, pa, pb);
        EXPECT_Z(out(pr), (x - y) % M, "sub", "difference");
        CHECK((bo != 0) == (x < y), "sub-borrow", "borrow %d for %s - %s", bo, x.str().c_str(), y.str().c_str());
        edge = bo;
        break;
    }
    case 2:
    {
        int cr = W::dbl_carry(pru, pa);
        EXPECT_Z(out(pru), (x * 2) % M, "dbl", "2a");
        EXPECT_Z(Z(cr), x * 2 / M, "dbl-carry", "carry");
        edge = cr;
        break;
    }
    case 3:
    {
        int cr = W::tpl_carry(pru, pa);
        EXPECT_Z(out(pru), (x * 3) % M, "tpl", "3a");
        EXPECT_Z(Z(cr), x * 3 / M, "tpl-carry", "carry");
        edge = cr;
        break;
    }
    case 4:
    {
        Limbs<W> p(2 * W::L, gen(s, 64));
        W::mul(p.p(), pa, pb);
        EXPECT_Z(p.val(), x * y, "mul", "product");
        CHECK(p.g.intact(), "out-of-bounds", "mul wrote outside the product");
        edge = x != Z(0) && y != Z(0);
        break;
    }
    case 5:
    {
        Limbs<W> p(2 * W::L, gen(s, 64));
        W::sqr(p.p(), pa);
        EXPECT_Z(p.val(), x * x, "sqr", "square");
        CHECK(p.g.intact(), "out-of-bounds", "sqr wrote outside the product");
        edge = x != Z(0);
        break;
    }
    case 6:
    {
        int cr = W::add_s(pru, pa, k);
        EXPECT_Z(out(pru), (x + Z::u(k)) % M, "add-small", "sum");
        EXPECT_Z(Z(cr), (x + Z::u(k)) / M, "add-small-carry", "carry");
        edge = cr;
        break;
    }
    case 7:
    {
        int bo = W::sub_s(pru, pa, k);
        EXPECT_Z(out(pru), (x - Z::u(k)) % M, "sub-small", "difference");
        CHECK((bo != 0) == (x < Z::u(k)), "sub-small-borrow", "borrow %d", bo);
        edge = bo;
        break;
    }
    case 8:
    {
        T cr = W::mul_s(pru, pa, k);
        EXPECT_Z(out(pru), (x * Z::u(k)) % M, "mul-small", "product");
        EXPECT_Z(Z::u(cr), x * Z::u(k) / M, "mul-small-carry", "carry");
        edge = cr != 0;
        break;
    }
    case 9:
    {
        if (k == 0)
            k = 1;
        T rm = W::div_s(pru, pa, k);
        EXPECT_Z(out(pru), x / Z::u(k), "div-small", "quotient");
        EXPECT_Z(Z::u(rm), x % Z::u(k), "div-small-rem", "remainder");
        edge = k > 1;
        break;
    }
    case 10:
    {
        int v = W::cmp(pa, pb);
        CHECK((v > 0) - (v < 0) == x.cmp(y), "cmp", "cmp gives %d for %s, %s (%s)", v, x.str().c_str(), y.str().c_str(), W::name);
        CHECK(W::equal(pa, pb) == (x == y), "equal", "equal wrong for %s, %s", x.str().c_str(), y.str().c_str());
        CHECK(W::equal_zero(pa) == (x == Z(0)), "equal-zero", "equal_zero wrong for %s", x.str().c_str());
        CHECK(W::equal_one(pa) == (x == Z(1)), "equal-one", "equal_one wrong for %s", x.str().c_str());
        int v3 = W::cmp_s(pa, k);
        CHECK((v3 > 0) - (v3 < 0) == x.cmp(Z::u(k)), "cmp-small", "cmp with small operand gives %d for %s, %llx", v3, x.str().c_str(), (unsigned long long)k);
        // near-small values
        Limbs<W> n1(W::L, s.coin() ? Z::u(k) : Z::u(k) + Z::pow2((unsigned)(W::BITS * (1 + s.below(W::L - 1)))));
        int      v4 = W::cmp_s(n1.p(), k);
        CHECK((v4 > 0) - (v4 < 0) == n1.val().cmp(Z::u(k)), "cmp-small", "cmp with small operand gives %d for %s, %llx", v4, n1.val().str().c_str(), (unsigned long long)k);
        CHECK(W::equal_one(n1.p()) == (n1.val() == Z(1)) && W::equal_zero(n1.p()) == (n1.val() == Z(0)), "equal-one", "equal_one/zero wrong for %s", n1.val().str().c_str());
        edge = true;
        break;
    }
    case 11:
    {
        for (int i = 0; i < 256; i++)
            CHECK(W::bittest(pa, i) == x.bit((unsigned)i), "bittest", "bit %d of %s (%s)", i, x.str().c_str(), W::name);
        W::cpy(pr, pa);
        EXPECT_Z(out(pr), x, "cpy", "copy");
        W::set_s(pr, k);
        EXPECT_Z(out(pr), Z::u(k), "set-small", "set to a small value");
        W::set_zero(pr);
        EXPECT_Z(out(pr), Z(0), "set-zero", "set_zero");
        W::set_one(pr);
        EXPECT_Z(out(pr), Z(1), "set-one", "set_one");
        edge = true;
        break;
    }
    case 12:
    {
        Guarded gb(32, s.below(33));
        W::to_bytes((u8*)gb.data(), (const T*)pa);
        CHECK(gb.intact(), "out-of-bounds", "to_bytes wrote outside 32 bytes");
        CHECK_EQ_BYTES(gb.bytes(), x.bytes(32), "to-bytes", "big-endian encoding");
        Guarded gi(y.bytes(32), s.below(33));
        Exact   ex(y.bytes(32));
        W::from_bytes(r.p(), (const u8*)(s.coin() ? gi.data() : ex.data()));
        EXPECT_Z(r.val(), y, "from-bytes", "decoded value");
        // in place
        Limbs<W> z(W::L, x);
        W::to_bytes((u8*)z.p(), (const T*)z.p());
        edge = true;
        break;
    }
    }
    c.nontrivial(edge);
    if (alias == 0)
        CHECK(op == 12 || (a.val() == x && b.val() == y), "operand-changed", "an input operand was modified by %s", names[op]);
    CHECK(a.g.intact() && b.g.intact() && r.g.intact(), "out-of-bounds", "%s wrote outside 256 bits", names[op]);
}
template <class W>
static void modular(Source& s, Ctx& c)
{
    using T   = typename W::T;
    Z m;
    switch (s.below(5))
    {
    case 0: m = Z::pow2(256) - 1 - Z((std::int64_t)s.below(1000)); break;
    case 1: m = gen(s, 32); break;
    case 2: m = Z::pow2(255) + gen(s, 32) % Z::pow2(255); break;
    case 3: m = Z::hex("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123") - Z((std::int64_t)s.below(3)); break;
    default: m = Z::pow2((unsigned)(1 + s.below(255))) + Z((std::int64_t)s.below(3)) - 1; break;
    }
    if (m < Z(2))
        m = Z(2);
    if (s.coin())
    {
        Z        x = gen_mod(s, m), y = s.coin(1, 4) ? (m - x + Z((std::int64_t)s.below(3)) - 1) % m : gen_mod(s, m);
        int      alias = (int)s.below(4);
        if (alias == 3)
            y = x;
        bool     add   = s.coin();
        Limbs<W> a(W::L, x), b(W::L, y), r(W::L, gen(s, 32)), d(W::L, m);
        T *      pa = a.p(), *pb = alias == 3 ? a.p() : b.p(), *pr = alias == 0 ? r.p() : alias == 2 ? b.p() : a.p();
        NOTE("%s %s: a=%s b=%s m=%s alias=%d", add ? "mod_add" : "mod_sub", W::name, x.str().c_str(), y.str().c_str(), m.str().c_str(), alias);
        if (add)
            W::mod_add(pr, (const T*)pa, (const T*)pb, (const T*)d.p());
        else
            W::mod_sub(pr, (const T*)pa, (const T*)pb, (const T*)d.p());
        EXPECT_Z(W::val(pr, W::L), add ? (x + y) % m : (x - y) % m, add ? "mod-add" : "mod-sub", add ? "modular sum" : "modular difference");
        CHECK(d.val() == m && a.g.intact() && b.g.intact() && r.g.intact(), "operand-changed", "divisor or guard changed");
        c.nontrivial(add ? x + y >= m : x < y);
        c.label(add ? "mod_add" : "mod_sub");
    }
    else
    {
        // the reduction subtracts repeatedly: moduli of full size, or any modulus and
        // blocks that hold a bounded multiple of it
        bool small = s.coin(1, 3);
        if (!small && m < Z::pow2(248))
            m = m + Z::pow2(255);
        std::size_t n = s.coin(1, 3) ? s.len(200, 32) : s.below(100);
        Bytes       v = num::gen_bytes(s, n);
        for (std::size_t o = 0; small && o < n; o += 32)
        {
            std::size_t l = std::min<std::size_t>(32, n - o);
            Z           x = (m * Z((std::int64_t)(s.coin() ? s.below(4) : s.below(800))) + gen_mod(s, m)) % Z::pow2((unsigned)(8 * l));
            Bytes       b = x.bytes(l);
            std::copy(b.begin(), b.end(), v.begin() + (long)o);
        }
        if (small)
            c.label(m < Z::pow2(128) ? "mod small modulus" : "mod few subtractions");
        if (!small && n >= 32 && s.coin(1, 3))
        {
            // a block equal or next to a multiple of the modulus
            Bytes       t = ((m + Z((std::int64_t)s.below(3)) - 1) % Z::pow2(256)).bytes(32);
            std::size_t o = s.coin() ? 0 : s.below(n - 31);
            std::copy(t.begin(), t.end(), v.begin() + (long)o);
        }
        NOTE("mod %s: %zu bytes %s m=%s", W::name, n, hex(v, 200).c_str(), m.str().c_str());
        Exact    e(v);
        Limbs<W> r(W::L, gen(s, 32)), d(W::L, m);
        W::mod(r.p(), (const u8*)e.data(), n, (const T*)d.p());
        EXPECT_Z(r.val(), Z::be(v) % m, "mod", "remainder of a byte string");
        CHECK(d.val() == m && e.unchanged() && r.g.intact(), "operand-changed", "divisor, data or guard changed");
        c.nontrivial(Z::be(v) >= m);
        c.label(n > 32 ? "mod >32 bytes" : "mod <=32 bytes");
    }
}
PROP(arith32, 200000, 8000000) { arith<F32>(s, c); }
PROP(modular32, 60000, 2000000) { modular<F32>(s, c); }
#if HAVE_X64
PROP(arith64, 200000, 8000000) { arith<F64>(s, c); }
PROP(modular64, 60000, 2000000) { modular<F64>(s, c); }
#endif
// the public entry points (whichever width the configuration selects)
PROP(public_names, 20000, 400000)
{
#if HAVE_X64
    using W = num::W64;
#else
    using W = num::W32;
#endif
    using namespace number;
    Z           x = gen(s, 32);
    std::uint32_t k = (std::uint32_t)(s.coin(1, 4) ? x.limb32(0) + (std::uint32_t)s.below(3) - 1 : s.limb());
    const Z     M = Z::pow2(256), K = Z::u(k);
    Limbs<W>    a(W::L, x), r(W::L);
    NOTE("public small-operand forms: a=%s k=%x", x.str().c_str(), k);
    int cr = uint256_add_carry_uint32(r.p(), a.p(), k);
    EXPECT_Z(r.val(), (x + K) % M, "pub-add", "sum");
    EXPECT_Z(Z(cr), (x + K) / M, "pub-add", "carry");
    int bo = uint256_sub_borrow_uint32(r.p(), a.p(), k);
    EXPECT_Z(r.val(), (x - K) % M, "pub-sub", "difference");
    CHECK((bo != 0) == (x < K), "pub-sub", "borrow");
    std::uint32_t m = uint256_mul_carry_uint32(r.p(), a.p(), k);
    EXPECT_Z(r.val(), x * K % M, "pub-mul", "product");
    EXPECT_Z(Z::u(m), x * K / M, "pub-mul", "carry");
    int v = uint256_cmp_uint32(a.p(), k);
    CHECK((v > 0) - (v < 0) == x.cmp(K), "pub-cmp", "cmp %d", v);
    uint256_set_uint32(r.p(), k);
    EXPECT_Z(r.val(), K, "pub-set", "set");
    c.nontrivial(cr || bo || m);
}
