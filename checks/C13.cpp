#include "num.h"
using namespace pbt;
using num::gen;
using num::gen_rel;
using num::Limbs;
using ref::Z;
namespace nc = number::internal::common;
#if HAVE_X64
namespace nx = number::internal::x64;
#endif
#define FNS FN(add_carry) FN(sub_borrow) FN(mul) FN(cmp) FN(cpy) FN(from_bytes) FN(to_bytes)
struct F32 : num::W32
{
#define FN(n) template <class... A> static auto n(A... a) { return nc::mpz_##n(a...); }
    FNS
#undef FN
    template <class... A> static constexpr auto set(A... a) { return nc::mpz_set_epi8(a...); }
};
#if HAVE_X64
struct F64 : num::W64
{
#define FN(n) template <class... A> static auto n(A... a) { return nx::mpz_##n(a...); }
    FNS
#undef FN
    template <class... A> static constexpr auto set(A... a) { return nx::mpz_set_epi8(a...); }
};
#endif
#define EXPECT_Z(got, want, sig, what)                                                                        \
    do                                                                                                        \
    {                                                                                                         \
        Z g_ = (got), w_ = (want);                                                                            \
        if (g_ != w_)                                                                                         \
            c.fail(sig, strf("%s (%s): got %s want %s", what, W::name, g_.str().c_str(), w_.str().c_str()));  \
    } while (0)
template <class W>
static void run(Source& s, Ctx& c)
{
    using T          = typename W::T;
    std::size_t n    = s.coin(1, 12) ? 1 + s.below(40) : 1 + s.below(9);
    unsigned    nb   = (unsigned)(n * sizeof(T));
    const Z     M    = Z::pow2(8 * nb);
    Z           x = gen(s, nb), y = gen_rel(s, x, nb);
    if (s.coin(1, 4))
    {
        // equal except in one limb, with a difference elsewhere in the other direction
        std::size_t i = s.below(n), j = s.below(n);
        y = x;
        Limbs<W> t(n, x);
        t.p()[i] = (T)s.limb();
        t.p()[j] = (T)s.limb();
        y        = t.val();
    }
    int alias = (int)s.below(4);
    if (alias == 3)
        y = x;
    Limbs<W>    a(n, x), b(n, y), r(n, gen(s, nb));
    T *         pa = a.p(), *pb = alias == 3 ? a.p() : b.p(), *pr = alias == 0 ? r.p() : alias == 2 ? b.p() : a.p();
    auto        out = [&](T* p) { return W::val(p, n); };
    unsigned    op  = (unsigned)s.below(6);
    static const char* names[] = {"add", "sub", "mul", "cmp", "cpy", "bytes"};
    NOTE("%s %s: %zu limbs a=%s b=%s alias=%d", names[op], W::name, n, x.str().c_str(), y.str().c_str(), alias);
    c.label(names[op]);
    bool edge = false;
    switch (op)
    {
    case 0:
    {
        int ci = (int)s.below(2), co = W::add_carry(pr, pa, pb, ci, n);
        EXPECT_Z(out(pr), (x + y + ci) % M, "add", "sum");
        EXPECT_Z(Z(co), (x + y + ci) / M, "add-carry", "carry");
        edge = co || ci;
        break;
    }
    case 1:
    {
        // a borrow is -1, so that the value is a - b + borrow in both widths
        int bi = -(int)s.below(2), bo = W::sub_borrow(pr, pa, pb, bi, n);
        EXPECT_Z(out(pr), (x - y + bi) % M, "sub", "difference");
        EXPECT_Z(Z(bo), x - y + bi < Z(0) ? Z(-1) : Z(0), "sub-borrow", "borrow");
        edge = bo || bi;
        break;
    }
    case 2:
    {
        Limbs<W> p(2 * n, gen(s, 2 * nb));
        W::mul(p.p(), pa, pb, n);
        EXPECT_Z(p.val(), x * y, "mul", "product");
        CHECK(p.g.intact(), "out-of-bounds", "mul wrote outside the product");
        edge = n > 1 && x != Z(0) && y != Z(0);
        break;
    }
    case 3:
    {
        int v = W::cmp(pa, pb, n);
        CHECK((v > 0) - (v < 0) == x.cmp(y), "cmp", "cmp gives %d for %zu limbs %s, %s (%s)", v, n, x.str().c_str(), y.str().c_str(), W::name);
        edge = n > 1;
        break;
    }
    case 4:
        W::cpy(pr, pa, n);
        EXPECT_Z(out(pr), x, "cpy", "copy");
        if (n > 1)
        {
            // overlapping move
            std::size_t d = s.below(n);
            Limbs<W>    o(2 * n, x);
            bool        up = s.coin();
            for (std::size_t i = 0; i < n; i++)
                o.p()[i + (up ? 0 : d)] = W::limb(x, i);
            W::cpy(o.p() + (up ? d : 0), o.p() + (up ? 0 : d), n);
            EXPECT_Z(W::val(o.p() + (up ? d : 0), n), x, "cpy", "overlapping copy");
        }
        edge = n > 1;
        break;
    case 5:
    {
        Guarded o(nb, s.below(17));
        W::to_bytes((u8*)o.data(), (const T*)pa, n);
        CHECK_EQ_BYTES(o.bytes(), x.bytes(nb), "to-bytes", "big-endian encoding");
        CHECK(o.intact(), "out-of-bounds", "to_bytes wrote outside its range");
        Exact e(y.bytes(nb));
        W::from_bytes(r.p(), (const u8*)e.data(), n);
        EXPECT_Z(r.val(), y, "from-bytes", "decoded value");
        edge = true;
        break;
    }
    }
    c.nontrivial(edge);
    if (alias == 0)
        CHECK(a.val() == x && b.val() == y, "operand-changed", "an input of %s was modified", names[op]);
    CHECK(a.g.intact() && b.g.intact() && r.g.intact(), "out-of-bounds", "%s wrote outside its limbs", names[op]);
}
// every operand exactly its limb count (ASan sees over-reads), including length 0
template <class W>
static void exact(Source& s, Ctx& c)
{
    using T       = typename W::T;
    std::size_t n = s.below(9);
    Bytes       va = s.bytes(n * sizeof(T)), vb = s.coin(1, 3) ? va : s.bytes(n * sizeof(T));
    Exact       a(va), b(vb), r(n * sizeof(T)), p(2 * n * sizeof(T));
    NOTE("%zu limbs, exact-size operands (%s)", n, W::name);
    const T *pa = (const T*)(n ? a.data() : nullptr), *pb = (const T*)(n ? b.data() : nullptr);
    T *      pr = (T*)(n ? r.data() : nullptr), *pp = (T*)(n ? p.data() : nullptr);
    W::add_carry(pr, pa, pb, 0, n);
    W::sub_borrow(pr, pa, pb, 0, n);
    W::mul(pp, pa, pb, n);
    CHECK(W::cmp(pa, pb, n) == 0 || va != vb, "cmp", "cmp of equal values");
    if (n)
        W::cpy(pr, pa, n);
    W::to_bytes((u8*)pr, pa, n);
    W::from_bytes(pr, (const u8*)pa, n);
    CHECK(a.unchanged() && b.unchanged(), "operand-changed", "an input was modified");
    c.nontrivial(n > 1);
}
template <class W>
static void constants(Source& s, Ctx& c)
{
    u8 v[32];
    s.fill(v, 32);
    if (s.coin(1, 3))
        for (auto& x : v)
            x = s.coin() ? 0xff : s.coin() ? 0x80 : 0;
    auto a = W::set(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]);
    EXPECT_Z(W::val(a.v, 8 / sizeof(a.v[0])), Z::be(v, 8), "set-epi8", "8-byte constant");
    CHECK(sizeof(a.v) == 8, "set-epi8", "8-byte constant has %zu bytes", sizeof(a.v));
    auto b = W::set(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23]);
    EXPECT_Z(W::val(b.v, 24 / sizeof(b.v[0])), Z::be(v, 24), "set-epi8", "24-byte constant");
    auto d = W::set((int)v[0], (int)v[1], (int)v[2], (int)v[3], (int)v[4], (int)v[5], (int)v[6], (int)v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31]);
    EXPECT_Z(W::val(d.v, 32 / sizeof(d.v[0])), Z::be(v, 32), "set-epi8", "32-byte constant");
    constexpr auto k = W::set(0x80, 0xff, 0x01, 0x00, 0x7f, 0x10, 0xfe, 0x9a);
    EXPECT_Z(W::val(k.v, 8 / sizeof(k.v[0])), Z::hex("80ff01007f10fe9a"), "set-epi8", "compile-time constant");
    NOTE("constants of 8, 24, 32 bytes %s", hex(v, 32).c_str());
    c.nontrivial();
}
PROP(ops32, 100000, 5000000) { run<F32>(s, c); }
PROP(exact32, 10000, 200000) { exact<F32>(s, c); }
PROP(constants32, 5000, 100000) { constants<F32>(s, c); }
#if HAVE_X64
PROP(ops64, 100000, 5000000) { run<F64>(s, c); }
PROP(exact64, 10000, 200000) { exact<F64>(s, c); }
PROP(constants64, 5000, 100000) { constants<F64>(s, c); }
#endif
