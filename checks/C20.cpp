#include "sm9h.h"
using namespace pbt;
using namespace sm9h;
#define EXPECT(got, want, sig, what)                                                                     \
    do                                                                                                   \
    {                                                                                                    \
        auto g_ = (got);                                                                                 \
        decltype(g_) w_ = (want);                                                                        \
        if (!(g_ == w_))                                                                                 \
            c.fail(sig, strf("%s: got %s want %s", what, show(g_).c_str(), show(w_).c_str()));           \
    } while (0)
static std::string show(const Z& z) { return z.str(); }
static std::string show(const E2& z) { return z.str(); }
static std::string show(const E12& z) { return str(z); }
static std::string show(const Pt& z) { return z.str(); }
static std::string show(const Pt2& z) { return z.str(); }
static Z           get_fn(const I::sm9_fn_t a)
{
    Bytes b(32);
    I::sm9_fn_to_bytes(b.data(), a);
    return Z::be(b);
}
static Z get_bn(const I::sm9_bn_t a)
{
    Bytes b(32);
    I::sm9_bn_to_bytes(b.data(), a);
    return Z::be(b);
}
PROP(prime_field, 20000, 900000)
{
    const Z& p = R::p();
    Z        x = num::gen_mod(s, p), y = s.coin(1, 5) ? (p - x) % p : num::gen_mod(s, p);
    I::sm9_fp_t a, b, r;
    load(a, x);
    load(b, y);
    unsigned op    = (unsigned)s.below(12);
    bool     alias = s.coin();
    auto*    o     = alias ? &a : &r;
    NOTE("fp op %u x=%s y=%s alias=%d", op, x.str().c_str(), y.str().c_str(), alias);
    switch (op)
    {
    case 0: I::sm9_fp_add(*o, a, b); EXPECT(get(*o), (x + y) % p, "fp-add", "x+y"); break;
    case 1: I::sm9_fp_sub(*o, a, b); EXPECT(get(*o), (x - y) % p, "fp-sub", "x-y"); break;
    case 2: I::sm9_fp_mul(*o, a, b); EXPECT(get(*o), x * y % p, "fp-mul", "xy"); break;
    case 3: I::sm9_fp_sqr(*o, a); EXPECT(get(*o), x * x % p, "fp-sqr", "x^2"); break;
    case 4: I::sm9_fp_dbl(*o, a); EXPECT(get(*o), x * 2 % p, "fp-dbl", "2x"); break;
    case 5: I::sm9_fp_tpl(*o, a); EXPECT(get(*o), x * 3 % p, "fp-tpl", "3x"); break;
    case 6: I::sm9_fp_neg(*o, a); EXPECT(get(*o), (p - x) % p, "fp-neg", "-x"); CHECK(I::sm9_fp_equal_zero(*o) == (x == Z(0)), "fp-neg", "-0 is not recognised as zero"); break;
    case 7:
        if (x == Z(0))
            c.discard();
        I::sm9_fp_inv(*o, a);
        EXPECT(get(*o) * x % p, Z(1), "fp-inv", "x * 1/x");
        break;
    case 8:
    {
        Z sq = s.coin() ? x * x % p : x;
        load(a, sq);
        bool is = sq == Z(0) || sq.powm((p - 1) / 2, p) == Z(1);
        int  rc = I::sm9_fp_sqrt(*o, a);
        CHECK((rc == 0) == is, "fp-sqrt", "sqrt of %s: rc=%d, is a square: %d", sq.str().c_str(), rc, is);
        if (is)
        {
            Z v = get(*o);
            EXPECT(v * v % p, sq, "fp-sqrt", "square of the root");
        }
        break;
    }
    case 9:
        CHECK(I::sm9_fp_equal(a, b) == (x == y) && I::sm9_fp_equal_zero(a) == (x == Z(0)) && I::sm9_fp_equal_one(a) == (x == Z(1)), "fp-equal", "comparison wrong for %s %s", x.str().c_str(), y.str().c_str());
        I::sm9_fp_set_one(r);
        CHECK(I::sm9_fp_equal_one(r), "fp-one", "one");
        EXPECT(get(r), Z(1), "fp-one", "one");
        I::sm9_fp_set_zero(r);
        EXPECT(get(r), Z(0), "fp-zero", "zero");
        I::sm9_fp_cpy(r, a);
        EXPECT(get(r), x, "fp-cpy", "copy");
        break;
    case 10:
    {
        I::sm9_bn_t bn;
        I::sm9_fn_t fn;
        I::sm9_fp_to_bn(bn, a);
        EXPECT(get_bn(bn), x, "fp-bn", "field element as integer");
        I::sm9_fn_from_fp(fn, a);
        EXPECT(get_fn(fn), x % R::n(), "fp-fn", "field element modulo n");
        Z any = gen_scalar(s);
        I::sm9_bn_from_bytes(bn, any.bytes(32).data());
        I::sm9_fp_from_bn(r, bn);
        EXPECT(get(r), any % p, "bn-fp", "integer modulo p");
        I::sm9_fn_from_bn(fn, bn);
        EXPECT(get_fn(fn), any % R::n(), "bn-fn", "integer modulo n");
        I::sm9_fn_to_fp(r, fn);
        EXPECT(get(r), any % R::n(), "fn-fp", "order-field element as field element");
        I::sm9_fn_to_bn(bn, fn);
        EXPECT(get_bn(bn), any % R::n(), "fn-bn", "order-field element as integer");
        break;
    }
    case 11:
    {
        Z any = gen_scalar(s);
        load(r, any);
        EXPECT(get(r), any % p, "fp-bytes", "any string modulo p");
        break;
    }
    }
    c.nontrivial(x > Z(1));
}
PROP(order_field, 20000, 900000)
{
    const Z& n = R::n();
    Z        x = num::gen_mod(s, n), y = s.coin(1, 5) ? (n - x) % n : num::gen_mod(s, n);
    I::sm9_fn_t a, b, r;
    I::sm9_fn_from_bytes(a, x.bytes(32).data());
    I::sm9_fn_from_bytes(b, y.bytes(32).data());
    unsigned op    = (unsigned)s.below(9);
    bool     alias = s.coin();
    auto*    o     = alias ? &a : &r;
    NOTE("fn op %u x=%s y=%s alias=%d", op, x.str().c_str(), y.str().c_str(), alias);
    switch (op)
    {
    case 0: I::sm9_fn_add(*o, a, b); EXPECT(get_fn(*o), (x + y) % n, "fn-add", "x+y"); break;
    case 1: I::sm9_fn_sub(*o, a, b); EXPECT(get_fn(*o), (x - y) % n, "fn-sub", "x-y"); break;
    case 2: I::sm9_fn_mul(*o, a, b); EXPECT(get_fn(*o), x * y % n, "fn-mul", "xy"); break;
    case 3: I::sm9_fn_sqr(*o, a); EXPECT(get_fn(*o), x * x % n, "fn-sqr", "x^2"); break;
    case 4:
        if (x == Z(0))
            c.discard();
        I::sm9_fn_inv(*o, a);
        EXPECT(get_fn(*o) * x % n, Z(1), "fn-inv", "x * 1/x");
        break;
    case 5:
        CHECK(I::sm9_fn_equal(a, b) == (x == y) && I::sm9_fn_equal_zero(a) == (x == Z(0)) && I::sm9_fn_equal_one(a) == (x == Z(1)), "fn-equal", "comparison wrong for %s %s", x.str().c_str(), y.str().c_str());
        I::sm9_fn_set_one(r);
        EXPECT(get_fn(r), Z(1), "fn-one", "one");
        I::sm9_fn_set_zero(r);
        EXPECT(get_fn(r), Z(0), "fn-zero", "zero");
        I::sm9_fn_cpy(r, a);
        EXPECT(get_fn(r), x, "fn-cpy", "copy");
        break;
    case 6:
    {
        Bytes v = num::gen_bytes(s, s.below(80));
        Exact e(v);
        I::sm9_fn_from_bytes_ex(r, e.data(), v.size());
        EXPECT(get_fn(r), Z::be(v) % n, "fn-bytes-ex", "string modulo n");
        break;
    }
    case 7:
    {
        // reduction of hashed strings and random blocks to [0, n-2]
        Bytes v = num::gen_bytes(s, s.below(65));
        if (s.coin(1, 3))
            v = ((n - 1) * Z::u(s.draw(1u << 31)) + Z((std::int64_t)s.below(3)) - 1).bytes(40);
        Exact       e(v);
        I::sm9_bn_t t;
        I::sm9_bn_mod_n_sub1_ex(t, e.data(), v.size());
        EXPECT(get_bn(t), Z::be(v) % (n - 1), "mod-n-1-ex", "string modulo n-1");
        Z any = gen_scalar(s);
        for (int k = 1; k <= 3; k++)
        {
            I::sm9_bn_from_bytes(t, any.bytes(32).data());
            (k == 1 ? I::sm9_bn_mod_n_sub1 : k == 2 ? I::sm9_bn_mod_n_sub2 : I::sm9_bn_mod_n_sub3)(t);
            EXPECT(get_bn(t), any % (n - k), "mod-n-k", "block modulo n-k");
        }
        break;
    }
    case 8:
    {
        Z           any = gen_scalar(s), oth = s.coin() ? any : gen_scalar(s);
        I::sm9_bn_t bn, bo;
        I::sm9_bn_from_bytes(bn, any.bytes(32).data());
        I::sm9_bn_from_bytes(bo, oth.bytes(32).data());
        int v = I::sm9_bn_cmp(bn, bo);
        CHECK((v > 0) - (v < 0) == any.cmp(oth), "bn-cmp", "cmp");
        CHECK(I::sm9_bn_equal_zero(bn) == (any == Z(0)), "bn-zero", "zero test");
        I::sm9_bn_cpy(bo, bn);
        std::uint32_t k  = (std::uint32_t)s.limb();
        int           cr = I::sm9_bn_add_uint32(bo, bo, k);
        EXPECT(get_bn(bo) + Z::pow2(256) * cr, any + Z::u(k), "bn-add", "sum with carry");
        break;
    }
    }
    c.nontrivial(x > Z(1));
}
// ---- extensions: an element is a polynomial in w; F_p2 uses w^0, w^6, F_p4
// also w^3, w^9
static Z coef(Source& s, unsigned style)
{
    switch (style)
    {
    case 0: return num::gen_mod(s, R::p());
    case 1: return s.coin() ? Z(0) : num::gen_mod(s, R::p());
    case 2: return s.coin(3, 4) ? Z(0) : s.coin() ? Z(1) : R::p() - 1;
    default: return R::p() - 1 - Z((std::int64_t)s.below(2));
    }
}
static E12 gen_el(Source& s, int level) // 2, 4 or 12
{
    E12      e;
    unsigned style = (unsigned)s.weighted({5, 3, 3, 1});
    int      step  = level == 12 ? 1 : level == 4 ? 3 : 6;
    for (int i = 0; i < 12; i += step)
        e.c[(std::size_t)i] = coef(s, style);
    return e;
}
static E12 gen_rel(Source& s, const E12& x, int level)
{
    int      step = level == 12 ? 1 : level == 4 ? 3 : 6;
    unsigned n    = (unsigned)(12 / step);
    auto     pick = [&]() { return (std::size_t)step * (std::size_t)s.below(n); };
    switch (s.below(9))
    {
    case 6: // opposite or equal changes of two coefficients
    {
        E12         r = x;
        std::size_t i = pick(), j = pick();
        Z           d = num::gen_mod(s, R::p());
        r.c[i] = (r.c[i] + d) % R::p();
        r.c[j] = s.coin() ? (r.c[j] + R::p() - d) % R::p() : (r.c[j] + d) % R::p();
        return r;
    }
    case 7: // coefficients exchanged, or some of them negated (conjugates)
    {
        E12 r = x;
        if (s.coin())
            std::swap(r.c[pick()], r.c[pick()]);
        else
            for (std::size_t i = 0; i < 12; i += (std::size_t)step)
                if (s.coin())
                    r.c[i] = (R::p() - r.c[i]) % R::p();
        return r;
    }
    case 8: // zero or one except in one coefficient
    {
        E12 r = s.coin() ? E12() : E12::one();
        r.c[pick()] = num::gen_mod(s, R::p());
        return r;
    }
    case 0: return x;
    case 1: return R::sub12(E12(), x);
    case 2:
    {
        // differs from x in one coefficient
        E12   r = x;
        auto& q = r.c[pick()];
        q = (q + 1) % R::p();
        return r;
    }
    default: return gen_el(s, level);
    }
}
static E12 emb(const Z& k)
{
    E12 e;
    e.c[0] = k;
    return e;
}
static E12 wpow(int i)
{
    E12 e;
    e.c[(std::size_t)i] = Z(1);
    return e;
}
static bool zero(const E12& e) { return e == E12(); }
#define LEVEL_COMMON(L, LOADX, GETX)                                                                          \
    case 0: I::sm9_fp##L##_add(*o, a, b); EXPECT(GETX(*o), R::add12(x, y), "add", "x+y"); break;               \
    case 1: I::sm9_fp##L##_sub(*o, a, b); EXPECT(GETX(*o), R::sub12(x, y), "sub", "x-y"); break;               \
    case 2: I::sm9_fp##L##_mul(*o, a, b); EXPECT(GETX(*o), R::mul12(x, y), "mul", "xy"); break;                \
    case 3: I::sm9_fp##L##_sqr(*oa, a); EXPECT(GETX(*oa), R::mul12(x, x), "sqr", "x^2"); break;                \
    case 4: I::sm9_fp##L##_neg(*oa, a); EXPECT(GETX(*oa), R::sub12(E12(), x), "neg", "-x");                    \
        CHECK(I::sm9_fp##L##_equal_zero(*oa) == zero(x), "neg", "zero not recognised after negation"); break;  \
    case 5:                                                                                                    \
        if (zero(x))                                                                                           \
            c.discard();                                                                                       \
        I::sm9_fp##L##_inv(*oa, a);                                                                            \
        EXPECT(R::mul12(GETX(*oa), x), E12::one(), "inv", "x * 1/x");                                          \
        break;                                                                                                 \
    case 6:                                                                                                    \
        CHECK(I::sm9_fp##L##_equal(a, b) == (x == y), "equal", "equal gives %d", I::sm9_fp##L##_equal(a, b));  \
        CHECK(I::sm9_fp##L##_equal_zero(a) == zero(x), "equal-zero", "equal_zero");                            \
        CHECK(I::sm9_fp##L##_equal_one(a) == (x == E12::one()), "equal-one", "equal_one");                     \
        CHECK(I::sm9_fp##L##_equal_zero(b) == zero(y), "equal-zero", "equal_zero");                            \
        CHECK(I::sm9_fp##L##_equal_one(b) == (y == E12::one()), "equal-one", "equal_one");                     \
        I::sm9_fp##L##_set_one(r);                                                                             \
        EXPECT(GETX(r), E12::one(), "one", "one");                                                             \
        I::sm9_fp##L##_set_zero(r);                                                                            \
        EXPECT(GETX(r), E12(), "zero", "zero");                                                                \
        I::sm9_fp##L##_cpy(r, a);                                                                              \
        EXPECT(GETX(r), x, "cpy", "copy");                                                                     \
        break;
static void lo2(I::sm9_fp2_t r, const E12& e)
{
    load(r[0], e.c[0]);
    load(r[1], e.c[6]);
}
static E12 ge2(const I::sm9_fp2_t a)
{
    E12 e;
    e.c[0] = get(a[0]), e.c[6] = get(a[1]);
    return e;
}
static void lo4(I::sm9_fp4_t r, const E12& e)
{
    for (int j = 0; j < 2; j++)
        for (int l = 0; l < 2; l++)
            load(r[j][l], e.c[(std::size_t)(3 * j + 6 * l)]);
}
static E12 ge4(const I::sm9_fp4_t a)
{
    E12 e;
    for (int j = 0; j < 2; j++)
        for (int l = 0; l < 2; l++)
            e.c[(std::size_t)(3 * j + 6 * l)] = get(a[j][l]);
    return e;
}
#define SETUP(L, N)                                                                                             \
    E12               x = gen_el(s, L), y = gen_rel(s, x, L);                                                   \
    I::sm9_fp##L##_t  a, b, r;                                                                                  \
    int               alias = (int)s.below(3);                                                                  \
    auto*             o = alias == 1 ? &a : alias == 2 ? &b : &r;                                               \
    auto*             oa = alias ? &a : &r;                                                                     \
    unsigned          op = (unsigned)s.below(N);                                                                \
    NOTE("fp%d op %u alias %d x=%s y=%s", L, op, alias, str(x).c_str(), str(y).c_str());                        \
    c.label(strf("fp%d op %u", L, op));                                                                         \
    c.nontrivial(!zero(x) && x != E12::one());
PROP(extension2, 15000, 600000)
{
    SETUP(2, 12)
    lo2(a, x);
    lo2(b, y);
    switch (op)
    {
        LEVEL_COMMON(2, lo2, ge2)
    case 7: I::sm9_fp2_dbl(*oa, a); EXPECT(ge2(*oa), R::mul12(x, emb(Z(2))), "dbl", "2x"); break;
    case 8: I::sm9_fp2_tpl(*oa, a); EXPECT(ge2(*oa), R::mul12(x, emb(Z(3))), "tpl", "3x"); break;
    case 9: I::sm9_fp2_mul_u(*oa, a); EXPECT(ge2(*oa), R::mul12(x, wpow(6)), "mul-u", "u x"); break;
    case 10:
    {
        Z           k = num::gen_mod(s, R::p());
        I::sm9_fp_t f;
        load(f, k);
        I::sm9_fp2_mul_fp(*oa, a, f);
        EXPECT(ge2(*oa), R::mul12(x, emb(k)), "mul-fp", "k x");
        break;
    }
    case 11:
    {
        Guarded g(64);
        I::sm9_fp2_to_bytes(g.data(), a);
        CHECK(g.intact(), "out-of-bounds", "wrote outside 64 bytes");
        CHECK_EQ_BYTES(g.bytes(), x.c[6].bytes(32) + x.c[0].bytes(32), "to-bytes", "encoding");
        I::sm9_fp2_from_bytes(r, g.data());
        EXPECT(ge2(r), x, "from-bytes", "decoded");
        break;
    }
    }
}
PROP(extension4, 12000, 500000)
{
    SETUP(4, 11)
    lo4(a, x);
    lo4(b, y);
    switch (op)
    {
        LEVEL_COMMON(4, lo4, ge4)
    case 7: I::sm9_fp4_mul_v(*oa, a); EXPECT(ge4(*oa), R::mul12(x, wpow(3)), "mul-v", "v x"); break;
    case 8:
    {
        Z           k = num::gen_mod(s, R::p());
        I::sm9_fp_t f;
        load(f, k);
        I::sm9_fp4_mul_fp(*oa, a, f);
        EXPECT(ge4(*oa), R::mul12(x, emb(k)), "mul-fp", "k x");
        break;
    }
    case 9:
    {
        E12          k = gen_el(s, 2);
        I::sm9_fp2_t f;
        lo2(f, k);
        I::sm9_fp4_mul_fp2(*oa, a, f);
        EXPECT(ge4(*oa), R::mul12(x, k), "mul-fp2", "k x");
        break;
    }
    case 10:
    {
        Guarded g(128);
        I::sm9_fp4_to_bytes(g.data(), a);
        CHECK(g.intact(), "out-of-bounds", "wrote outside 128 bytes");
        CHECK_EQ_BYTES(g.bytes(), x.c[9].bytes(32) + x.c[3].bytes(32) + x.c[6].bytes(32) + x.c[0].bytes(32), "to-bytes", "encoding");
        I::sm9_fp4_from_bytes(r, g.data());
        EXPECT(ge4(r), x, "from-bytes", "decoded");
        break;
    }
    }
}
PROP(extension12, 8000, 300000)
{
    SETUP(12, 9)
    load12(a, x);
    load12(b, y);
    switch (op)
    {
        LEVEL_COMMON(12, load12, get12)
    case 7:
    {
        E12          k = gen_el(s, 4);
        I::sm9_fp4_t f;
        lo4(f, k);
        I::sm9_fp12_mul_fp4(*oa, a, f);
        EXPECT(get12(*oa), R::mul12(x, k), "mul-fp4", "k x");
        break;
    }
    case 8:
    {
        Guarded g(384);
        I::sm9_fp12_to_bytes(g.data(), a);
        CHECK(g.intact(), "out-of-bounds", "wrote outside 384 bytes");
        CHECK_EQ_BYTES(g.bytes(), x.bytes(), "to-bytes", "encoding");
        I::sm9_fp12_from_bytes(r, g.data());
        EXPECT(get12(r), x, "from-bytes", "decoded");
        break;
    }
    }
}
PROP(power, 400, 15000)
{
    E12 x = gen_el(s, 12);
    Z   k = gen_scalar(s);
    if (s.coin(1, 3))
        k = Z::be(num::gen_bytes(s, 1 + s.below(31))); // leading zero bytes
    if (zero(x) && k == Z(0))
        c.discard(); // 0^0: left open
    I::sm9_fp12_t a, r;
    load12(a, x);
    Exact e(k.bytes(32));
    bool  alias = s.coin();
    NOTE("x=%s k=%s", str(x).c_str(), k.str().c_str());
    I::sm9_fp12_pow(alias ? a : r, a, e.data());
    EXPECT(get12(alias ? a : r), R::pow12(x, k), "pow", "x^k");
    c.nontrivial(k > Z(1) && x != E12::one());
}
// ---- groups
struct T1
{
    using J = I::sm9_ec_j;
    using A = I::sm9_ec_a;
    using P = Pt;
    using E = Z;
    static constexpr int  size = 32;
    static constexpr const char* name = "G1";
    static void add(J r, const J p, const J q) { I::sm9_ec_j_add(r, p, q); }
    static void add_a(J r, const J p, const A q) { I::sm9_ec_j_add_a(r, p, q); }
    static void dbl(J r, const J p) { I::sm9_ec_j_dbl(r, p); }
    static void neg(J r, const J p) { I::sm9_ec_j_neg(r, p); }
    static void nega(A r, const A p) { I::sm9_ec_a_neg(r, p); }
    static bool eq(const J p, const J q) { return I::sm9_ec_j_equal(p, q); }
    static bool is_inf(const J p) { return I::sm9_ec_j_is_inf(p); }
    static void set_inf(J p) { I::sm9_ec_j_set_inf(p); }
    static void cpy(J r, const J p) { I::sm9_ec_j_cpy(r, p); }
    static void cpya(A r, const A p) { I::sm9_ec_a_cpy(r, p); }
    static void normal(J r, const J p) { I::sm9_ec_j_normal(r, p); }
    static void toa(A r, const J p) { I::sm9_ec_j_to_a(r, p); }
    static void froma(J r, const A p) { I::sm9_ec_j_from_a(r, p); }
    static bool check(const A p) { return I::sm9_ec_a_check(p); }
    static void mula(J r, const u8* k, const A p) { I::sm9_ec_j_mul_a(r, k, p); }
    static void mulg(J r, const u8* k) { I::sm9_ec_j_mul_g(r, k); }
    static void enc(int f, u8* o, const A p)
    {
        f == 0 ? I::sm9_ec_a_to_bytes04(o, p) : f == 1 ? I::sm9_ec_a_to_bytes_uncompressed(o, p) : f == 2 ? I::sm9_ec_a_to_bytes_compressed(o, p) : I::sm9_ec_a_to_bytes_mix(o, p);
    }
    static void raw(A r, const u8* in) { I::sm9_ec_a_from_bytes04(r, in); }
    static int  dec(A r, std::size_t* n, const u8* in, std::size_t l) { return I::sm9_ec_a_from_bytes(r, n, in, l); }
    static P    radd(const P& a, const P& b) { return R::add1(a, b); }
    static P    rneg(const P& a) { return R::neg1(a); }
    static P    rmulg(const Z& k) { return R::mulg1(k); }
    static P    rmul(const Z& k, const P& a) { return R::mul1(k, a); }
    static E    mul(const E& a, const E& b) { return a * b % R::p(); }
    static void lda(A r, const P& p) { load_a(r, p); }
    static void ld(I::sm9_fp_t r, const E& v) { load(r, v); }
    static void ldj(J r, const E& x, const E& y, const E& z)
    {
        load(r[0], x);
        load(r[1], y);
        load(r[2], z);
    }
    static E    gx(const J a, int i) { return get(a[i]); }
    static E    ga(const A a, int i) { return get(a[i]); }
    static E    one() { return Z(1); }
    static E    inv(const E& a) { return a.powm(R::p() - 2, R::p()); }
    static E    scale(Source& s)
    {
        Z t = s.coin(1, 4) ? Z(1) : num::gen_mod(s, R::p());
        return t == Z(0) ? R::p() - 1 : t;
    }
    static Bytes bytes(const E& e) { return e.bytes(32); }
    static bool  on(const E& x, const E& y) { return R::on1(x, y); }
    static E     be(const u8* b) { return Z::be(b, 32); }
    static bool  rare(Source& s, P* p) { return s.coin(1, 6) && (*p = gen_rare(s), true); }
    static bool  someday(Source& s, P* p) // a point outside the multiples tables
    {
        return R::lift1(s.coin() ? Z((std::int64_t)s.below(500)) : num::gen_mod(s, R::p()), (int)s.below(2), p);
    }
};
struct T2
{
    using J = I::sm9_ec2_j;
    using A = I::sm9_ec2_a;
    using P = Pt2;
    using E = E2;
    static constexpr int  size = 64;
    static constexpr const char* name = "G2";
    static void add(J r, const J p, const J q) { I::sm9_ec2_j_add(r, p, q); }
    static void add_a(J r, const J p, const A q) { I::sm9_ec2_j_add_a(r, p, q); }
    static void dbl(J r, const J p) { I::sm9_ec2_j_dbl(r, p); }
    static void neg(J r, const J p) { I::sm9_ec2_j_neg(r, p); }
    static void nega(A r, const A p) { I::sm9_ec2_a_neg(r, p); }
    static bool eq(const J p, const J q) { return I::sm9_ec2_j_equal(p, q); }
    static bool is_inf(const J p) { return I::sm9_ec2_j_is_inf(p); }
    static void set_inf(J p) { I::sm9_ec2_j_set_inf(p); }
    static void cpy(J r, const J p) { I::sm9_ec2_j_cpy(r, p); }
    static void cpya(A r, const A p) { I::sm9_ec2_a_cpy(r, p); }
    static void normal(J r, const J p) { I::sm9_ec2_j_normal(r, p); }
    static void toa(A r, const J p) { I::sm9_ec2_j_to_a(r, p); }
    static void froma(J r, const A p) { I::sm9_ec2_j_from_a(r, p); }
    static bool check(const A p) { return I::sm9_ec2_a_check(p); }
    static void mula(J r, const u8* k, const A p) { I::sm9_ec2_j_mul_a(r, k, p); }
    static void mulg(J r, const u8* k) { I::sm9_ec2_j_mul_g(r, k); }
    static void enc(int f, u8* o, const A p)
    {
        f == 0 ? I::sm9_ec2_a_to_bytes04(o, p) : f == 1 ? I::sm9_ec2_a_to_bytes_uncompressed(o, p) : f == 2 ? I::sm9_ec2_a_to_bytes_compressed(o, p) : I::sm9_ec2_a_to_bytes_mix(o, p);
    }
    static void raw(A r, const u8* in) { I::sm9_ec2_a_from_bytes04(r, in); }
    static int  dec(A r, std::size_t* n, const u8* in, std::size_t l) { return I::sm9_ec2_a_from_bytes(r, n, in, l); }
    static P    radd(const P& a, const P& b) { return R::add2(a, b); }
    static P    rneg(const P& a) { return R::neg2(a); }
    static P    rmulg(const Z& k) { return R::mulg2(k); }
    static P    rmul(const Z& k, const P& a) { return R::smul2(k, a); }
    static E    mul(const E& a, const E& b) { return R::mul2(a, b); }
    static void lda(A r, const P& p) { load_a2(r, p); }
    static void ldj(J r, const E& x, const E& y, const E& z)
    {
        load(r[0], x);
        load(r[1], y);
        load(r[2], z);
    }
    static E gx(const J a, int i) { return get2(a[i]); }
    static E ga(const A a, int i) { return get2(a[i]); }
    static E one() { return {Z(1), Z(0)}; }
    static E inv(const E& a)
    {
        Z n = (a.c0 * a.c0 + a.c1 * a.c1 * 2) % R::p(), t = n.powm(R::p() - 2, R::p());
        return {a.c0 * t % R::p(), (R::p() - a.c1) * t % R::p()};
    }
    static E scale(Source& s)
    {
        if (s.coin(1, 4))
            return one();
        E t{s.coin(1, 4) ? Z(0) : num::gen_mod(s, R::p()), s.coin(1, 4) ? Z(0) : num::gen_mod(s, R::p())};
        return t == E{Z(0), Z(0)} ? E{Z(0), Z(1)} : t;
    }
    static Bytes bytes(const E& e) { return e.bytes(); }
    static bool  on(const E& x, const E& y) { return R::on2(x, y); }
    static E     be(const u8* b) { return E2::be(b); }
    static bool  rare(Source&, P*) { return false; } // such points lie outside the group of order n
    static bool  someday(Source& s, P* p)
    {
        E x{s.coin(1, 3) ? Z((std::int64_t)s.below(50)) : num::gen_mod(s, R::p()), s.coin(1, 3) ? Z((std::int64_t)s.below(50)) : num::gen_mod(s, R::p())};
        return R::lift2(x, p);
    }
};
template <class T>
static void ldj(typename T::J r, const typename T::P& p, const typename T::E& t)
{
    auto t2 = T::mul(t, t), t3 = T::mul(t2, t);
    if (p.inf)
        T::ldj(r, t2, t3, typename T::E());
    else
        T::ldj(r, T::mul(p.x, t2), T::mul(p.y, t3), t);
}
template <class T>
static typename T::P getj(const typename T::J a)
{
    typename T::P p;
    auto          z = T::gx(a, 2);
    if (z == typename T::E())
        return p;
    auto zi = T::inv(z), z2 = T::mul(zi, zi);
    p.inf   = false;
    p.x     = T::mul(T::gx(a, 0), z2);
    p.y     = T::mul(T::gx(a, 1), T::mul(z2, zi));
    return p;
}
template <class T>
static typename T::P geta(const typename T::A a)
{
    typename T::P p;
    p.inf = false;
    p.x   = T::ga(a, 0);
    p.y   = T::ga(a, 1);
    return p;
}
template <class T>
static typename T::P gen_pt(Source& s, bool inf_ok, bool anywhere, Z* k = nullptr)
{
    typename T::P p;
    if (anywhere && s.coin(1, 4) && T::someday(s, &p))
        return p;
    Z m = gen_scalar(s) % R::n();
    if (inf_ok && s.coin(1, 10))
        m = Z(0);
    if (!inf_ok && m == Z(0))
        m = Z(1);
    if (k)
        *k = m;
    return T::rmulg(m);
}
static Z  scale_by(const Z& x, const Z& b) { return x * b % R::p(); }
static E2 scale_by(const E2& x, const Z& b) { return {x.c0 * b % R::p(), x.c1 * b % R::p()}; }
template <class T>
static void group(Source& s, Ctx& c)
{
    using P_ = typename T::P;
    P_ P = gen_pt<T>(s, true, true), Q;
    switch (s.below(9))
    {
    case 8: // same y, another x: (b x, y) with b a cube root of one
    {
        static const Z b = [] {
            for (std::int64_t g = 2;; g++)
            {
                Z r = Z(g).powm((R::p() - 1) / 3, R::p());
                if (r != Z(1))
                    return r;
            }
        }();
        Q = P;
        if (!Q.inf)
        {
            if (s.coin())
                Q = T::rneg(Q);
            Q.x = scale_by(Q.x, b);
        }
        break;
    }
    case 0: Q = P; break;
    case 1: Q = T::rneg(P); break;
    case 2: break;
    case 3: Q = T::radd(P, P); break;
    default: Q = gen_pt<T>(s, true, true);
    }
    typename T::J p, q, r;
    typename T::A a, ra;
    auto          tp = T::scale(s), tq = s.coin(1, 4) ? tp : T::scale(s);
    ldj<T>(p, P, tp);
    ldj<T>(q, Q, tq);
    unsigned           op      = (unsigned)s.weighted({6, 4, 3, 2, 3, 2});
    int                alias   = (int)s.below(3);
    auto*              o       = alias == 1 ? &p : alias == 2 ? &q : &r;
    static const char* names[] = {"add", "add_a", "dbl", "neg", "equal", "affine"};
    NOTE("%s %s P=%s scaled by %s, Q=%s scaled by %s alias=%d", T::name, names[op], P.str().c_str(), show(tp).c_str(), Q.str().c_str(), show(tq).c_str(), alias);
    bool special = P.inf || Q.inf || P == Q || P == T::rneg(Q);
    c.label(names[op]);
    if (special)
        c.label("special pair");
    switch (op)
    {
    case 0:
        T::add(*o, p, q);
        EXPECT(getj<T>(*o), T::radd(P, Q), "add", "P+Q");
        break;
    case 1:
        if (Q.inf)
            Q = T::rmulg(Z(1));
        T::lda(a, Q);
        o = alias == 1 ? &p : &r;
        T::add_a(*o, p, a);
        EXPECT(getj<T>(*o), T::radd(P, Q), "add-affine", "P+Q (Q affine)");
        EXPECT(geta<T>(a), Q, "operand-changed", "affine operand");
        break;
    case 2:
        o = alias == 1 ? &p : &r;
        T::dbl(*o, p);
        EXPECT(getj<T>(*o), T::radd(P, P), "dbl", "2P");
        break;
    case 3:
        o = alias == 1 ? &p : &r;
        T::neg(*o, p);
        EXPECT(getj<T>(*o), T::rneg(P), "neg", "-P");
        if (!Q.inf)
        {
            T::lda(a, Q);
            T::nega(alias ? a : ra, a);
            EXPECT(geta<T>(alias ? a : ra), T::rneg(Q), "neg", "-Q (affine)");
        }
        break;
    case 4:
        CHECK(T::eq(p, q) == (P == Q), "equal", "equal gives %d for %s and %s", T::eq(p, q), P.str().c_str(), Q.str().c_str());
        CHECK(T::is_inf(p) == P.inf, "is-inf", "is_inf wrong");
        T::cpy(r, p);
        EXPECT(getj<T>(r), P, "cpy", "copy");
        T::set_inf(r);
        CHECK(T::is_inf(r), "set-inf", "set_inf");
        break;
    case 5:
        o = alias == 1 ? &p : &r;
        T::normal(*o, p);
        EXPECT(getj<T>(*o), P, "normal", "normalised P");
        CHECK(T::is_inf(*o) || T::gx(*o, 2) == T::one(), "normal", "Z is not 1");
        if (!P.inf)
        {
            ldj<T>(p, P, tp);
            union
            {
                typename T::J j;
                typename T::A a;
            } u;
            T::cpy(u.j, p);
            T::toa(u.a, u.j); // the library overlays the two forms
            EXPECT(geta<T>(u.a), P, "to-affine", "affine P");
            CHECK(T::check(u.a), "on-curve", "check rejects %s", P.str().c_str());
            T::froma(r, u.a);
            EXPECT(getj<T>(r), P, "from-affine", "P from affine");
            T::cpya(ra, u.a);
            EXPECT(geta<T>(ra), P, "cpy", "affine copy");
        }
        break;
    }
    if (alias == 0 && op == 0)
    {
        EXPECT(getj<T>(p), P, "operand-changed", "P after the operation");
        EXPECT(getj<T>(q), Q, "operand-changed", "Q after the operation");
    }
    c.nontrivial(special || (!(tp == T::one()) && op != 3));
}
PROP(group1, 8000, 400000) { group<T1>(s, c); }
PROP(group2, 8000, 400000) { group<T2>(s, c); }
template <class T>
static void smul(Source& s, Ctx& c)
{
    Z     k = gen_scalar(s), m;
    Exact e(k.bytes(32));
    union
    {
        typename T::J j;
        typename T::A a;
    } r;
    if (s.coin(1, 3))
    {
        NOTE("%s [%s]G", T::name, k.str().c_str());
        T::mulg(r.j, e.data());
        EXPECT(getj<T>(r.j), T::rmulg(k), "mul-g", "[k]G");
        c.label("base point");
    }
    else
    {
        auto P    = gen_pt<T>(s, false, false, &m);
        bool rare = T::rare(s, &P);
        NOTE("%s [%s]P, P=%s", T::name, k.str().c_str(), rare ? P.str().c_str() : ("[" + m.str() + "]G").c_str());
        typename T::A a;
        T::lda(s.coin() ? r.a : a, P);
        T::lda(a, P);
        T::lda(r.a, P);
        T::mula(r.j, e.data(), s.coin() ? r.a : a); // overlaid input and output, or separate
        if (!rare)
            EXPECT(getj<T>(r.j), T::rmulg(k * m % R::n()), "mul", "[k]P");
        if (rare || s.coin(1, 8))
            EXPECT(getj<T>(r.j), T::rmul(k, P), "mul", "[k]P (double-and-add)");
        c.label(rare ? "rare x coordinate" : "arbitrary point");
    }
    if (k % R::n() == Z(0))
        c.label("infinity");
    c.nontrivial(k > Z(2));
}
PROP(scalar_mul1, 3500, 150000) { smul<T1>(s, c); }
PROP(scalar_mul2, 2000, 80000) { smul<T2>(s, c); }
template <class T>
static void chain(Source& s, Ctx& c)
{
    std::size_t   n = 2 + s.below(12);
    typename T::J reg[3];
    Z             v[3];
    for (int i = 0; i < 3; i++)
        ldj<T>(reg[i], gen_pt<T>(s, true, false, &v[i]), T::scale(s));
    for (std::size_t i = 0; i < n; i++)
    {
        std::size_t d = s.below(3), x = s.below(3), y = s.below(3);
        switch (s.below(4))
        {
        case 0: T::add(reg[d], reg[x], reg[y]); v[d] = (v[x] + v[y]) % R::n(); break;
        case 1: T::dbl(reg[d], reg[x]); v[d] = v[x] * 2 % R::n(); break;
        case 2: T::neg(reg[d], reg[x]); v[d] = (R::n() - v[x]) % R::n(); break;
        case 3:
            if (v[y] == Z(0))
                break;
            {
                typename T::A a;
                T::toa(a, reg[y]);
                T::add_a(reg[d], reg[x], a);
                v[d] = (v[x] + v[y]) % R::n();
            }
            break;
        }
        CHECK(T::is_inf(reg[d]) == (v[d] == Z(0)), "chain-inf", "infinity not recognised after step %zu", i);
    }
    NOTE("%s chain of %zu operations", T::name, n);
    for (int i = 0; i < 3; i++)
        EXPECT(getj<T>(reg[i]), T::rmulg(v[i]), "chain", "register after a chain");
    c.nontrivial();
}
PROP(chain1, 1200, 50000) { chain<T1>(s, c); }
PROP(chain2, 1200, 50000) { chain<T2>(s, c); }
template <class T>
static void encodings(Source& s, Ctx& c)
{
    constexpr std::size_t Z_ = T::size;
    auto                  P  = gen_pt<T>(s, false, true);
    auto                  N  = T::rneg(P);
    typename T::A         a, b;
    Bytes                 xy = T::bytes(P.x) + T::bytes(P.y);
    Guarded               g[2][4] = {{Guarded(2 * Z_), Guarded(2 * Z_ + 1), Guarded(Z_ + 1), Guarded(2 * Z_ + 1)}, {Guarded(2 * Z_), Guarded(2 * Z_ + 1), Guarded(Z_ + 1), Guarded(2 * Z_ + 1)}};
    NOTE("%s P=%s", T::name, P.str().c_str());
    for (int i = 0; i < 2; i++)
    {
        T::lda(a, i ? N : P);
        for (int f = 0; f < 4; f++)
        {
            T::enc(f, g[i][f].data(), a);
            CHECK(g[i][f].intact(), "out-of-bounds", "encoder %d wrote outside its buffer", f);
        }
    }
    Bytes raw = g[0][0].bytes(), u = g[0][1].bytes(), cm = g[0][2].bytes(), mx = g[0][3].bytes();
    CHECK_EQ_BYTES(raw, xy, "enc-raw", "coordinates");
    CHECK_EQ_BYTES(u, Bytes{4} + xy, "enc-04", "uncompressed");
    CHECK_EQ_BYTES(Bytes(cm.begin() + 1, cm.end()), T::bytes(P.x), "enc-02", "compressed x");
    CHECK_EQ_BYTES(Bytes(mx.begin() + 1, mx.end()), xy, "enc-06", "hybrid coordinates");
    CHECK((cm[0] == 2 || cm[0] == 3) && mx[0] == cm[0] + 4, "enc-prefix", "prefixes %02x %02x", cm[0], mx[0]);
    if (Z_ == 32)
        CHECK(cm[0] == 2 + (P.y == typename T::E() ? 0 : raw.back() & 1), "enc-prefix", "prefix %02x", cm[0]);
    else // which coordinate's parity is used is not fixed here, but P and -P must differ
        CHECK(cm[0] != g[1][2].bytes()[0] && mx[0] != g[1][3].bytes()[0], "enc-prefix", "P and -P have the same prefix %02x", cm[0]);
    T::raw(b, raw.data());
    EXPECT(geta<T>(b), P, "dec-raw", "decoded coordinates");
    for (const Bytes& e : {u, mx, cm})
    {
        if (Z_ == 64 && (e[0] == 2 || e[0] == 3))
            continue; // compressed points of G2 are not decoded by the library
        Bytes       in = e + s.rnd(s.below(4));
        Exact       ex(in);
        std::size_t rd = 0;
        int         rc = T::dec(b, &rd, ex.data(), in.size());
        CHECK(rc == 0, "dec", "a valid encoding is rejected (prefix %02x)", e[0]);
        CHECK(rd == e.size(), "dec-len", "consumed %zu of %zu bytes", rd, e.size());
        EXPECT(geta<T>(b), P, "dec", "decoded point");
    }
    c.nontrivial();
}
PROP(encodings1, 4000, 150000) { encodings<T1>(s, c); }
PROP(encodings2, 4000, 150000) { encodings<T2>(s, c); }
template <class T>
static void decode(Source& s, Ctx& c)
{
    constexpr std::size_t Z_ = T::size;
    const Z&              p  = R::p();
    auto                  P  = gen_pt<T>(s, false, true);
    Bytes                 x = T::bytes(P.x), y = T::bytes(P.y), in;
    unsigned              kind = (unsigned)s.below(9);
    auto bump = [&](Bytes& b) { // a coordinate, plus p when that fits
        std::size_t o = 32 * s.below(b.size() / 32);
        Z           v = Z::be(&b[o], 32) + p;
        if (v >= Z::pow2(256))
            return;
        Bytes t = v.bytes(32);
        std::copy(t.begin(), t.end(), b.begin() + (long)o);
    };
    switch (kind)
    {
    case 0: in = s.bytes(2 * Z_ + 1); in[0] = (u8)s.below(9); break;
    case 1:
        in = Bytes{(u8)(2 + s.below(2))} + num::gen_bytes(s, Z_);
        if (s.coin())
            in = Bytes{(u8)(2 + s.below(2))} + x;
        break;
    case 2: bump(s.coin() ? x : y); in = Bytes{(u8)(s.coin() ? 4 : 6 + (y.back() & 1))} + x + y; break;
    case 3: in = Bytes{4} + x + y; in[s.below(in.size())] ^= (u8)(1u << s.below(8)); break;
    case 4: in = Bytes{4} + x + T::bytes(T::rneg(P).y); break;
    case 5: in = Bytes{4} + y + x; break;
    case 6: in = Bytes{4} + x + y; break;
    case 8: // satisfies half of the equation, or another curve's
        if constexpr (Z_ == 64)
        {
            Pt2 q = almost2(s);
            in    = Bytes{4} + T::bytes(q.x) + T::bytes(q.y);
        }
        else
        {
            bool ok = false;
            Z    v = num::gen_mod(s, p), w = sqrt_p((v * v % p * v + p + s.range(1, 9) - 10) % p, &ok);
            in = Bytes{4} + v.bytes(32) + w.bytes(32);
        }
        break;
    case 7: bump(x); in = Bytes{(u8)(2 + (y.back() & 1))} + x; break;
    }
    if (s.coin(1, 8))
        in.resize(s.below(in.size() + 1));
    NOTE("%s %s", T::name, hex(in, 140).c_str());
    Exact         ex(in);
    typename T::A b;
    std::size_t   rd = 0;
    int           rc = T::dec(b, &rd, ex.data(), in.size());
    bool          ok = false, open = false;
    typename T::P want;
    if (in.size() >= 2 * Z_ + 1 && (in[0] == 4 || in[0] == 6 || in[0] == 7))
    {
        want.inf = false, want.x = T::be(&in[1]), want.y = T::be(&in[1 + Z_]);
        ok   = T::on(want.x, want.y);
        open = ok && in[0] != 4 && kind != 2; // hybrid parity mismatch: left open
        if (kind == 2 && in[0] != 4 && ok && Z_ == 64)
            open = true;
    }
    if constexpr (Z_ == 32)
        if (in.size() >= 33 && (in[0] == 2 || in[0] == 3))
        {
            Z v = Z::be(&in[1], 32);
            ok  = v < p && R::lift1(v, in[0] & 1, &want);
        }
    if (!open)
        CHECK((rc == 0) == ok, "dec-accept", "decoding gives %d, encoding of a point: %d (%s)", rc, ok, hex(in, 140).c_str());
    if (rc == 0)
        EXPECT(geta<T>(b), want, "dec", "decoded point");
    c.label(ok ? "valid" : "invalid");
    c.nontrivial(!in.empty() && in[0] >= 2 && in[0] <= 7);
}
PROP(decode1, 6000, 250000) { decode<T1>(s, c); }
PROP(decode2, 6000, 250000) { decode<T2>(s, c); }
