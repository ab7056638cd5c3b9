#include "num.h"
using namespace pbt;
using num::gen;
using num::gen_mod;
using num::Limbs;
using ref::Z;
namespace nc = number::internal::common;
#if HAVE_X64
namespace nx = number::internal::x64;
#endif
#define FNS FN(add) FN(sub) FN(dbl) FN(tpl) FN(neg) FN(mul) FN(sqr) FN(pow) FN(div2) FN(inv) FN(equal) FN(equal_zero) FN(equal_one) FN(cpy) FN(set_zero) FN(set_one) FN(from_bytes) FN(to_bytes) FN(from_bytes_ex)
struct F32 : num::W32
{
    using CTX = nc::Mont256CTX;
#define FN(n) template <class... A> static auto n(A... a) { return nc::mont256_##n(a...); }
    FNS
#undef FN
    static T    N_(T p) { return nc::mont_compute_N_(p); }
    static void set_s(const CTX* x, T* a, T b) { nc::mont256_set_uint32(x, a, b); }
};
#if HAVE_X64
struct F64 : num::W64
{
    using CTX = nx::Mont256CTX;
#define FN(n) template <class... A> static auto n(A... a) { return nx::mont256_##n(a...); }
    FNS
#undef FN
    static T    N_(T p) { return nx::mont_compute_N_(p); }
    static void set_s(const CTX* x, T* a, T b) { nx::mont256_set_uint64(x, a, b); }
};
#endif
static const std::vector<const char*> PRIMES = {
    "FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF", // SM2 p
    "FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123", // SM2 n
    "B640000002A3A6F1D603AB4FF58EC74521F2934B1A7AEEDBE56F9B27E351457D", // SM9 p
    "B640000002A3A6F1D603AB4FF58EC74449F2934B18EA8BEEE56EE19CD69ECF25", // SM9 N
    "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF43", // 2^256-189
    "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", // secp256k1
    "FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF", // P-256
    "800000000000000000000000000000000000000000000000000000000000005F", // 2^255+95
    "7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFED", // 2^255-19
    "1000000000000000000000000000000014DEF9DEA2F79CD65812631A5CF5D3ED", // ed25519 order
    "7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF",                                 // 2^127-1
    "1FFFFFFFFFFFFFFF", "10001", "5", "3"};
template <class W>
struct Mod
{
    Z        m, R, Rinv;
    Limbs<W> P, P2, RR, R2;
    typename W::CTX ctx;
    explicit Mod(const Z& m_)
        : m(m_), R(Z::pow2(256) % m_), P(W::L, m_), P2(W::L, (m_ - 2) % m_), RR(W::L, Z::pow2(256) % m_),
          R2(W::L, Z::pow2(512) % m_), ctx{P.p(), P2.p(), RR.p(), R2.p(), W::N_((typename W::T)W::limb(m_, 0))}
    {
    }
    Z    to(const Z& x) const { return x * R % m; }
    bool ok() { return P.val() == m && P.g.intact() && P2.g.intact() && RR.g.intact() && R2.g.intact() && RR.val() == R; }
};
#define EXPECT_Z(got, want, sig, what)                                                                        \
    do                                                                                                        \
    {                                                                                                         \
        Z g_ = (got), w_ = (want);                                                                            \
        if (g_ != w_)                                                                                         \
            c.fail(sig, strf("%s (%s): got %s want %s", what, W::name, g_.str().c_str(), w_.str().c_str()));  \
    } while (0)
template <class W>
static void run(Source& s, Ctx& c)
{
    using T = typename W::T;
    Z    m;
    bool prime = s.coin(2, 3);
    if (prime)
    {
        m = Z::hex(PRIMES[s.below(PRIMES.size())]);
        if (s.coin())
            m = Z::hex(PRIMES[s.below(4)]);
    }
    else
    {
        m = gen(s, 32);
        if (s.coin(2, 3) && m < Z::pow2(255))
            m = m + Z::pow2(255);
        if (!m.bit(0))
            m = m + 1;
        if (m < Z(3))
            m = Z(3);
    }
    Mod<W> M(m);
    Z      chk = (Z::u(M.ctx.N_) * m + 1) % Z::pow2(W::BITS);
    CHECK(chk == Z(0), "N-prime", "N' * P != -1 modulo the limb base for P=%s", m.str().c_str());
    // an operation sequence over two residues, each result checked in place
    Z        x = gen_mod(s, m), y = s.coin(1, 5) ? (m - x + Z((std::int64_t)s.below(3)) - 1) % m : gen_mod(s, m);
    // representations near the ends are as interesting as values near the ends
    if (s.coin(1, 3))
        x = x * Z::pow2(256).powm(m - 2, m) % m;
    Limbs<W> a(W::L, M.to(x)), b(W::L, M.to(y)), r(W::L, gen(s, 32));
    unsigned op    = (unsigned)s.weighted({6, 6, 4, 6, 4, 8, 6, 4, 3, 2, 3, 4, 4, 3});
    int      alias = (int)s.below(4);
    if (alias == 3)
        y = x;
    T *pa = a.p(), *pb = alias == 3 ? a.p() : b.p(), *pr = alias == 0 ? r.p() : alias == 2 ? b.p() : a.p();
    T* pru = alias == 0 || alias == 2 ? r.p() : a.p();
    auto out = [&](T* p) { return W::val(p, W::L); };
    static const char* names[] = {"add", "sub", "dbl", "tpl", "neg", "mul", "sqr", "div2", "pow", "inv", "compare", "from/to_bytes", "from_bytes_ex", "set"};
    NOTE("%s %s: m=%s a=%s b=%s alias=%d", names[op], W::name, m.str().c_str(), x.str().c_str(), y.str().c_str(), alias);
    c.label(names[op]);
    if (m < Z::pow2(255))
        c.label("modulus below 2^255");
    Z    rx = M.to(x), ry = M.to(y); // representations
    bool edge = false;
    switch (op)
    {
    case 0:
        W::add(&M.ctx, pr, pa, pb);
        EXPECT_Z(out(pr), M.to(x + y), "add", "a+b (representation)");
        edge = rx + ry >= m;
        break;
    case 1:
        W::sub(&M.ctx, pr, pa, pb);
        EXPECT_Z(out(pr), M.to(x - y + m), "sub", "a-b (representation)");
        edge = rx < ry;
        break;
    case 2:
        W::dbl(&M.ctx, pru, pa);
        EXPECT_Z(out(pru), M.to(x * 2), "dbl", "2a (representation)");
        edge = rx * 2 >= m;
        break;
    case 3:
        W::tpl(&M.ctx, pru, pa);
        EXPECT_Z(out(pru), M.to(x * 3), "tpl", "3a (representation)");
        edge = rx * 3 >= m;
        break;
    case 4:
        W::neg(&M.ctx, pru, pa);
        EXPECT_Z(out(pru), M.to((m - x) % m), "neg", "-a (representation)");
        edge = true;
        break;
    case 5:
        W::mul(&M.ctx, pr, pa, pb);
        EXPECT_Z(out(pr), M.to(x * y % m), "mul", "ab (representation)");
        edge = x > Z(1) && y > Z(1);
        break;
    case 6:
        W::sqr(&M.ctx, pru, pa);
        EXPECT_Z(out(pru), M.to(x * x % m), "sqr", "a^2 (representation)");
        edge = x > Z(1);
        break;
    case 7:
    {
        Z half = x.bit(0) ? (x + m) / 2 : x / 2;
        W::div2(&M.ctx, pru, pa);
        EXPECT_Z(out(pru), M.to(half), "div2", "a/2 (representation)");
        edge = rx.bit(0);
        break;
    }
    case 8:
    {
        Z e;
        switch (s.below(5))
        {
        case 0: e = Z((std::int64_t)s.below(20)); break;
        case 1: e = Z::u(s.limb()); break;
        case 2: e = (m - 1 - Z((std::int64_t)s.below(3))) % Z::pow2(256); break;
        case 3: e = Z::pow2((unsigned)s.below(256)) + Z((std::int64_t)s.below(2)); break;
        default: e = gen(s, 32);
        }
        if (x == Z(0) && e == Z(0))
            e = Z(1); // 0^0 is left open
        Limbs<W> ex(W::L, e);
        NOTE("exponent %s", e.str().c_str());
        W::pow(&M.ctx, pru, pa, (const T*)ex.p());
        EXPECT_Z(out(pru), M.to(x.powm(e, m)), "pow", "a^e (representation)");
        CHECK(ex.val() == e, "operand-changed", "exponent modified");
        edge = e > Z(1);
        break;
    }
    case 9:
    {
        if (!prime || x == Z(0))
            c.discard();
        W::inv(&M.ctx, pru, pa);
        Z v = x.powm(m - 2, m);
        EXPECT_Z(out(pru), M.to(v), "inv", "1/a (representation)");
        EXPECT_Z(v * x % m, Z(1) % m, "oracle", "oracle inverse");
        edge = true;
        break;
    }
    case 10:
        CHECK(W::equal(&M.ctx, pa, pb) == (x == y), "equal", "equal wrong for %s, %s", x.str().c_str(), y.str().c_str());
        CHECK(W::equal_zero(&M.ctx, pa) == (x == Z(0)), "equal-zero", "equal_zero wrong for %s", x.str().c_str());
        CHECK(W::equal_one(&M.ctx, pa) == (x == Z(1)), "equal-one", "equal_one wrong for %s", x.str().c_str());
        {
            Limbs<W> o(W::L, M.to(Z(1)));
            CHECK(W::equal_one(&M.ctx, o.p()), "equal-one", "one not recognised");
        }
        W::cpy(&M.ctx, pru, pa);
        EXPECT_Z(out(pru), rx, "cpy", "copy");
        edge = true;
        break;
    case 11:
    {
        // any 256-bit string denotes its residue; canonical back
        Z     v = s.coin() ? x : s.coin() ? Z::pow2(256) - 1 - Z((std::int64_t)s.below(3)) : gen(s, 32);
        Exact e(v.bytes(32));
        W::from_bytes(&M.ctx, r.p(), (const u8*)e.data());
        EXPECT_Z(r.val(), M.to(v % m), "from-bytes", "decoded (representation)");
        Guarded o(32, s.below(9));
        W::to_bytes(&M.ctx, (u8*)o.data(), (const T*)r.p());
        CHECK_EQ_BYTES(o.bytes(), (v % m).bytes(32), "to-bytes", "canonical encoding");
        CHECK(o.intact() && e.unchanged(), "out-of-bounds", "to_bytes wrote outside 32 bytes");
        W::to_bytes(&M.ctx, (u8*)o.data(), (const T*)pa);
        CHECK_EQ_BYTES(o.bytes(), x.bytes(32), "to-bytes", "canonical encoding of a");
        edge = v >= m || x != Z(0);
        break;
    }
    case 12:
    {
        if (m < Z::pow2(248))
            c.discard();
        std::size_t n = s.coin(1, 3) ? s.len(130, 32) : s.below(66);
        Bytes       v = num::gen_bytes(s, n);
        Exact       e(v);
        NOTE("%zu bytes %s", n, hex(v, 140).c_str());
        W::from_bytes_ex(&M.ctx, r.p(), (const u8*)e.data(), n);
        EXPECT_Z(r.val(), M.to(Z::be(v) % m), "from-bytes-ex", "reduced string (representation)");
        edge = n > 32;
        break;
    }
    case 13:
    {
        T k = (T)s.limb();
        W::set_s(&M.ctx, r.p(), k);
        EXPECT_Z(r.val(), M.to(Z::u(k) % m), "set-small", "small value (representation)");
        W::set_one(&M.ctx, r.p());
        EXPECT_Z(r.val(), M.to(Z(1)), "set-one", "one");
        W::set_zero(&M.ctx, r.p());
        EXPECT_Z(r.val(), Z(0), "set-zero", "zero");
        edge = k > 1;
        break;
    }
    }
    c.nontrivial(edge);
    if (alias == 0)
        CHECK(a.val() == rx && b.val() == ry, "operand-changed", "an input of %s was modified", names[op]);
    CHECK(M.ok() && a.g.intact() && b.g.intact() && r.g.intact(), "out-of-bounds", "%s changed the context or wrote outside 256 bits", names[op]);
}
// straight-line programs over four residues in one object each: every value
// stays canonical through arbitrary chains, in both widths
template <class W>
static void program(Source& s, Ctx& c)
{
    Z      m = Z::hex(PRIMES[s.coin(3, 4) ? s.below(4) : s.below(PRIMES.size())]);
    Mod<W> M(m);
    Z      v[4];
    std::vector<std::unique_ptr<Limbs<W>>> reg;
    for (auto& t : v)
    {
        t = gen_mod(s, m);
        reg.emplace_back(new Limbs<W>(W::L, M.to(t)));
    }
    std::size_t n = 3 + s.below(30);
    for (std::size_t i = 0; i < n; i++)
    {
        std::size_t d = s.below(4), x = s.below(4), y = s.below(4);
        auto *      pd = reg[d]->p(), *px = reg[x]->p(), *py = reg[y]->p();
        switch (s.below(8))
        {
        case 0: W::add(&M.ctx, pd, px, py); v[d] = (v[x] + v[y]) % m; break;
        case 1: W::sub(&M.ctx, pd, px, py); v[d] = (v[x] - v[y]) % m; break;
        case 2: W::mul(&M.ctx, pd, px, py); v[d] = v[x] * v[y] % m; break;
        case 3: W::sqr(&M.ctx, pd, px); v[d] = v[x] * v[x] % m; break;
        case 4: W::dbl(&M.ctx, pd, px); v[d] = v[x] * 2 % m; break;
        case 5: W::tpl(&M.ctx, pd, px); v[d] = v[x] * 3 % m; break;
        case 6: W::neg(&M.ctx, pd, px); v[d] = (m - v[x]) % m; break;
        case 7: W::div2(&M.ctx, pd, px); v[d] = v[x].bit(0) ? (v[x] + m) / 2 : v[x] / 2; break;
        }
        Z g = reg[d]->val();
        CHECK(g == M.to(v[d]), "program", "step %zu: representation %s want %s (%s, m=%s)", i, g.str().c_str(), M.to(v[d]).str().c_str(), W::name, m.str().c_str());
    }
    NOTE("program of %zu steps over m=%s", n, m.str().c_str());
    for (int i = 0; i < 4; i++)
    {
        Bytes o(32);
        W::to_bytes(&M.ctx, (u8*)o.data(), (const typename W::T*)reg[(std::size_t)i]->p());
        CHECK_EQ_BYTES(o, v[i].bytes(32), "to-bytes", "encoding after a program");
    }
    c.nontrivial();
}
PROP(ops32, 60000, 3000000) { run<F32>(s, c); }
PROP(program32, 10000, 400000) { program<F32>(s, c); }
#if HAVE_X64
PROP(ops64, 60000, 3000000) { run<F64>(s, c); }
PROP(program64, 10000, 400000) { program<F64>(s, c); }
#endif
PROP(oracle_primes, 15, 15)
{
    std::size_t i = s.below(PRIMES.size());
    CHECK(Z::hex(PRIMES[i]).probably_prime(), "oracle", "%s is not prime", PRIMES[i]);
    NOTE("%s is prime", PRIMES[i]);
    c.nontrivial();
}
