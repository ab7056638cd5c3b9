#include "sm2h.h"
using namespace pbt;
using namespace sm2h;
#define EXPECT_PT(got, want, sig, what)                                                                  \
    do                                                                                                   \
    {                                                                                                    \
        Pt g_ = (got), w_ = (want);                                                                      \
        if (g_ != w_)                                                                                    \
            c.fail(sig, strf("%s: got %s want %s", what, g_.str().c_str(), w_.str().c_str()));           \
    } while (0)
#define EXPECT_Z(got, want, sig, what)                                                                   \
    do                                                                                                   \
    {                                                                                                    \
        Z g_ = (got), w_ = (want);                                                                       \
        if (g_ != w_)                                                                                    \
            c.fail(sig, strf("%s: got %s want %s", what, g_.str().c_str(), w_.str().c_str()));           \
    } while (0)
static Z get_fn(const I::sm2_fn_t a)
{
    Bytes b(32);
    I::sm2_fn_to_bytes(b.data(), a);
    return Z::be(b);
}
PROP(field, 30000, 1200000)
{
    const Z& p = R::p();
    Z        x = num::gen_mod(s, p), y = s.coin(1, 5) ? (p - x) % p : num::gen_mod(s, p);
    I::sm2_fp_t a, b, r;
    load_fp(a, x);
    load_fp(b, y);
    unsigned op = (unsigned)s.below(12);
    bool     alias = s.coin();
    auto*    o = alias ? &a : &r;
    NOTE("fp op %u x=%s y=%s alias=%d", op, x.str().c_str(), y.str().c_str(), alias);
    switch (op)
    {
    case 0: I::sm2_fp_add(*o, a, b); EXPECT_Z(get_fp(*o), (x + y) % p, "fp-add", "x+y"); break;
    case 1: I::sm2_fp_sub(*o, a, b); EXPECT_Z(get_fp(*o), (x - y) % p, "fp-sub", "x-y"); break;
    case 2: I::sm2_fp_mul(*o, a, b); EXPECT_Z(get_fp(*o), x * y % p, "fp-mul", "xy"); break;
    case 3: I::sm2_fp_sqr(*o, a); EXPECT_Z(get_fp(*o), x * x % p, "fp-sqr", "x^2"); break;
    case 4: I::sm2_fp_dbl(*o, a); EXPECT_Z(get_fp(*o), x * 2 % p, "fp-dbl", "2x"); break;
    case 5: I::sm2_fp_tpl(*o, a); EXPECT_Z(get_fp(*o), x * 3 % p, "fp-tpl", "3x"); break;
    case 6: I::sm2_fp_neg(*o, a); EXPECT_Z(get_fp(*o), (p - x) % p, "fp-neg", "-x"); CHECK(I::sm2_fp_equal_zero(*o) == (x == Z(0)), "fp-neg", "-0 is not recognised as zero"); break;
    case 7:
        if (x == Z(0))
            c.discard();
        I::sm2_fp_inv(*o, a);
        EXPECT_Z(get_fp(*o) * x % p, Z(1), "fp-inv", "x * 1/x");
        break;
    case 8:
    {
        Z sq = s.coin() ? x * x % p : x;
        load_fp(a, sq);
        bool is = sq == Z(0) || sq.powm((p - 1) / 2, p) == Z(1);
        int  rc = I::sm2_fp_sqrt(*o, a);
        CHECK((rc == 0) == is, "fp-sqrt", "sqrt of %s: rc=%d, is a square: %d", sq.str().c_str(), rc, is);
        if (is)
        {
            Z v = get_fp(*o);
            EXPECT_Z(v * v % p, sq, "fp-sqrt", "square of the root");
        }
        break;
    }
    case 9:
        CHECK(I::sm2_fp_equal(a, b) == (x == y) && I::sm2_fp_equal_zero(a) == (x == Z(0)) && I::sm2_fp_equal_one(a) == (x == Z(1)), "fp-equal", "comparison wrong for %s %s", x.str().c_str(), y.str().c_str());
        I::sm2_fp_set_one(r);
        CHECK(I::sm2_fp_equal_one(r), "fp-one", "one");
        EXPECT_Z(get_fp(r), Z(1), "fp-one", "one");
        I::sm2_fp_set_zero(r);
        EXPECT_Z(get_fp(r), Z(0), "fp-zero", "zero");
        I::sm2_fp_cpy(r, a);
        EXPECT_Z(get_fp(r), x, "fp-cpy", "copy");
        break;
    case 10:
    {
        // conversions between the field, the order field and plain integers
        I::sm2_bn_t bn;
        I::sm2_fn_t fn;
        Bytes       t(32);
        I::sm2_fp_to_bn(bn, a);
        I::sm2_bn_to_bytes(t.data(), bn);
        EXPECT_Z(Z::be(t), x, "fp-bn", "field element as integer");
        I::sm2_fn_from_fp(fn, a);
        EXPECT_Z(get_fn(fn), x % R::n(), "fp-fn", "field element modulo n");
        Z any = gen_scalar(s);
        I::sm2_bn_from_bytes(bn, any.bytes(32).data());
        I::sm2_fp_from_bn(r, bn);
        EXPECT_Z(get_fp(r), any % p, "bn-fp", "integer modulo p");
        I::sm2_fn_from_bn(fn, bn);
        EXPECT_Z(get_fn(fn), any % R::n(), "bn-fn", "integer modulo n");
        I::sm2_fn_to_fp(r, fn);
        EXPECT_Z(get_fp(r), any % R::n(), "fn-fp", "order-field element as field element");
        I::sm2_fn_to_bn(bn, fn);
        I::sm2_bn_to_bytes(t.data(), bn);
        EXPECT_Z(Z::be(t), any % R::n(), "fn-bn", "order-field element as integer");
        break;
    }
    case 11:
    {
        Z any = gen_scalar(s);
        load_fp(r, any);
        EXPECT_Z(get_fp(r), any % p, "fp-bytes", "any string modulo p");
        break;
    }
    }
    c.nontrivial(x > Z(1));
}
PROP(order_field, 30000, 1200000)
{
    const Z& n = R::n();
    Z        x = num::gen_mod(s, n), y = s.coin(1, 5) ? (n - x) % n : num::gen_mod(s, n);
    I::sm2_fn_t a, b, r;
    I::sm2_fn_from_bytes(a, x.bytes(32).data());
    I::sm2_fn_from_bytes(b, y.bytes(32).data());
    unsigned op = (unsigned)s.below(8);
    bool     alias = s.coin();
    auto*    o = alias ? &a : &r;
    NOTE("fn op %u x=%s y=%s alias=%d", op, x.str().c_str(), y.str().c_str(), alias);
    switch (op)
    {
    case 0: I::sm2_fn_add(*o, a, b); EXPECT_Z(get_fn(*o), (x + y) % n, "fn-add", "x+y"); break;
    case 1: I::sm2_fn_sub(*o, a, b); EXPECT_Z(get_fn(*o), (x - y) % n, "fn-sub", "x-y"); break;
    case 2: I::sm2_fn_mul(*o, a, b); EXPECT_Z(get_fn(*o), x * y % n, "fn-mul", "xy"); break;
    case 3: I::sm2_fn_sqr(*o, a); EXPECT_Z(get_fn(*o), x * x % n, "fn-sqr", "x^2"); break;
    case 4:
        if (x == Z(0))
            c.discard();
        I::sm2_fn_inv(*o, a);
        EXPECT_Z(get_fn(*o) * x % n, Z(1), "fn-inv", "x * 1/x");
        break;
    case 5:
        CHECK(I::sm2_fn_equal(a, b) == (x == y) && I::sm2_fn_equal_zero(a) == (x == Z(0)) && I::sm2_fn_equal_one(a) == (x == Z(1)), "fn-equal", "comparison wrong for %s %s", x.str().c_str(), y.str().c_str());
        I::sm2_fn_set_one(r);
        EXPECT_Z(get_fn(r), Z(1), "fn-one", "one");
        I::sm2_fn_set_zero(r);
        EXPECT_Z(get_fn(r), Z(0), "fn-zero", "zero");
        I::sm2_fn_cpy(r, a);
        EXPECT_Z(get_fn(r), x, "fn-cpy", "copy");
        break;
    case 6:
    {
        Bytes v = num::gen_bytes(s, s.below(80));
        Exact e(v);
        I::sm2_fn_from_bytes_ex(r, e.data(), v.size());
        EXPECT_Z(get_fn(r), Z::be(v) % n, "fn-bytes-ex", "string modulo n");
        break;
    }
    case 7:
    {
        Z           any = gen_scalar(s), oth = s.coin() ? any : gen_scalar(s);
        I::sm2_bn_t bn, bo;
        Bytes       t(32);
        I::sm2_bn_from_bytes(bn, any.bytes(32).data());
        I::sm2_bn_from_bytes(bo, oth.bytes(32).data());
        int v = I::sm2_bn_cmp(bn, bo);
        CHECK((v > 0) - (v < 0) == any.cmp(oth), "bn-cmp", "cmp");
        CHECK(I::sm2_bn_equal_zero(bn) == (any == Z(0)), "bn-zero", "zero test");
        I::sm2_bn_cpy(bo, bn);
        std::uint32_t k = (std::uint32_t)s.limb();
        int cr = I::sm2_bn_add_uint32(bo, bo, k);
        I::sm2_bn_to_bytes(t.data(), bo);
        EXPECT_Z(Z::be(t) + Z::pow2(256) * cr, any + Z::u(k), "bn-add", "sum with carry");
        break;
    }
    }
    c.nontrivial(x > Z(1));
}
// addition, doubling, negation, comparison for every pair of points in every
// representation, results optionally overwriting an operand
PROP(group, 12000, 500000)
{
    Mult P = gen_point(s, true), Q;
    bool rare = s.coin(1, 5);
    if (rare)
        P.p = gen_rare(s);
    switch (s.below(9))
    {
    case 8: // another point with the same y, when there is one (or its negative)
    {
        const Z& m = R::p();
        Q          = P;
        if (P.p.inf)
            break;
        // x^2 + x1 x + x1^2 + a = 0
        Z D = (Z(12) - P.p.x * P.p.x * 3) % m;
        D   = (D + m) % m;
        Z r = D.powm((m + 1) / 4, m);
        if (r * r % m == D)
            Q.p.x = (m + r - P.p.x) % m * ((m + 1) / 2) % m;
        if (s.coin())
            Q.p = R::neg(Q.p);
        break;
    }
    case 0: Q = P; break;
    case 1: Q.k = (R::n() - P.k) % R::n(); Q.p = R::neg(P.p); break;
    case 2: Q.p = Pt(); Q.k = Z(0); break;
    case 3: Q.k = P.k * 2 % R::n(); Q.p = R::add(P.p, P.p); break;
    default: Q = gen_point(s, true);
    }
    if (s.coin(1, 6))
        Q.p = gen_rare(s), rare = true;
    if (rare)
    {
        NOTE("P=%s Q=%s", P.p.str().c_str(), Q.p.str().c_str());
        c.label("rare x coordinate");
    }
    I::sm2_ec_j p, q, r;
    I::sm2_ec_a a, ra;
    Z           tp = gen_scale(s), tq = s.coin(1, 4) ? tp : gen_scale(s);
    load_j(p, P.p, tp);
    load_j(q, Q.p, tq);
    unsigned op    = (unsigned)s.weighted({6, 4, 3, 2, 3, 2});
    int      alias = (int)s.below(3);
    auto*    o     = alias == 1 ? &p : alias == 2 ? &q : &r;
    static const char* names[] = {"add", "add_a", "dbl", "neg", "equal", "affine"};
    NOTE("%s P=[%s]G scaled by %s, Q=[%s]G scaled by %s alias=%d", names[op], P.k.str().c_str(), tp.str().c_str(), Q.k.str().c_str(), tq.str().c_str(), alias);
    bool special = P.p.inf || Q.p.inf || P.p == Q.p || P.p == R::neg(Q.p) || P.p.y == Q.p.y;
    c.label(names[op]);
    if (special)
        c.label("special pair");
    switch (op)
    {
    case 0:
        I::sm2_ec_j_add(*o, p, q);
        EXPECT_PT(get_j(*o), R::add(P.p, Q.p), "add", "P+Q");
        break;
    case 1:
        if (Q.p.inf)
            Q.p = R::G();
        load_a(a, Q.p);
        o = alias == 1 ? &p : &r;
        I::sm2_ec_j_add_a(*o, p, a);
        EXPECT_PT(get_j(*o), R::add(P.p, Q.p), "add-affine", "P+Q (Q affine)");
        EXPECT_PT(get_a(a), Q.p, "operand-changed", "affine operand");
        break;
    case 2:
        o = alias == 1 ? &p : &r;
        I::sm2_ec_j_dbl(*o, p);
        EXPECT_PT(get_j(*o), R::add(P.p, P.p), "dbl", "2P");
        break;
    case 3:
        o = alias == 1 ? &p : &r;
        I::sm2_ec_j_neg(*o, p);
        EXPECT_PT(get_j(*o), R::neg(P.p), "neg", "-P");
        if (!Q.p.inf)
        {
            load_a(a, Q.p);
            I::sm2_ec_a_neg(alias ? a : ra, a);
            EXPECT_PT(get_a(alias ? a : ra), R::neg(Q.p), "neg", "-Q (affine)");
        }
        break;
    case 4:
        CHECK(I::sm2_ec_j_equal(p, q) == (P.p == Q.p), "equal", "equal gives %d for [%s]G and [%s]G", I::sm2_ec_j_equal(p, q), P.k.str().c_str(), Q.k.str().c_str());
        CHECK(I::sm2_ec_j_is_inf(p) == P.p.inf, "is-inf", "is_inf wrong");
        I::sm2_ec_j_cpy(r, p);
        EXPECT_PT(get_j(r), P.p, "cpy", "copy");
        I::sm2_ec_j_set_inf(r);
        CHECK(I::sm2_ec_j_is_inf(r), "set-inf", "set_inf");
        break;
    case 5:
        o = alias == 1 ? &p : &r;
        I::sm2_ec_j_normal(*o, p);
        EXPECT_PT(get_j(*o), P.p, "normal", "normalised P");
        CHECK(I::sm2_ec_j_is_inf(*o) || get_fp((*o)[2]) == Z(1), "normal", "Z is not 1");
        if (!P.p.inf)
        {
            load_j(p, P.p, tp);
            I::sm2_ec_t u;
            I::sm2_ec_j_cpy(u.j, p);
            I::sm2_ec_j_to_a(u.a, u.j); // the library overlays the two forms
            EXPECT_PT(get_a(u.a), P.p, "to-affine", "affine P");
            CHECK(I::sm2_ec_a_check(u.a), "on-curve", "check rejects [%s]G", P.k.str().c_str());
            I::sm2_ec_j_from_a(r, u.a);
            EXPECT_PT(get_j(r), P.p, "from-affine", "P from affine");
            I::sm2_ec_a_cpy(ra, u.a);
            EXPECT_PT(get_a(ra), P.p, "cpy", "affine copy");
        }
        break;
    }
    if (alias == 0 && op == 0)
    {
        EXPECT_PT(get_j(p), P.p, "operand-changed", "P after the operation");
        EXPECT_PT(get_j(q), Q.p, "operand-changed", "Q after the operation");
    }
    c.nontrivial(special || (tp != Z(1) && op != 3));
}
PROP(scalar_mul, 6000, 250000)
{
    Z     k = gen_scalar(s);
    Exact e(k.bytes(32));
    I::sm2_ec_t r;
    if (s.coin(1, 3))
    {
        NOTE("[%s]G", k.str().c_str());
        I::sm2_ec_j_mul_g(r.j, e.data());
        EXPECT_PT(get_j(r.j), R::mulg(k), "mul-g", "[k]G");
        c.label("base point");
    }
    else
    {
        Mult P    = gen_point(s, false);
        bool rare = s.coin(1, 6);
        if (rare)
            P.p = gen_rare(s);
        NOTE("[%s]P, P=%s", k.str().c_str(), rare ? P.p.str().c_str() : ("[" + P.k.str() + "]G").c_str());
        if (s.coin())
        {
            load_a(r.a, P.p); // overlaid input and output, as verification does
            I::sm2_ec_j_mul_a(r.j, e.data(), r.a);
        }
        else
        {
            I::sm2_ec_a a;
            load_a(a, P.p);
            I::sm2_ec_j_mul_a(r.j, e.data(), a);
        }
        if (!rare)
            EXPECT_PT(get_j(r.j), R::mulg(k * P.k % R::n()), "mul", "[k]P");
        // and against the reference's double-and-add on the point itself
        if (rare || s.coin(1, 8))
            EXPECT_PT(get_j(r.j), R::mul(k, P.p), "mul", "[k]P (double-and-add)");
        c.label(rare ? "rare x coordinate" : "arbitrary point");
    }
    if (k % R::n() == Z(0))
        c.label("infinity");
    c.nontrivial(k > Z(2));
}
// chains: sums of multiples computed through the library's own outputs
PROP(chain, 2000, 60000)
{
    std::size_t n = 2 + s.below(12);
    I::sm2_ec_j reg[3];
    Z           v[3];
    for (int i = 0; i < 3; i++)
    {
        Mult m = gen_point(s, true);
        v[i]   = m.k;
        load_j(reg[i], m.p, gen_scale(s));
    }
    std::string tr;
    for (std::size_t i = 0; i < n; i++)
    {
        std::size_t d = s.below(3), x = s.below(3), y = s.below(3);
        switch (s.below(4))
        {
        case 0: I::sm2_ec_j_add(reg[d], reg[x], reg[y]); v[d] = (v[x] + v[y]) % R::n(); break;
        case 1: I::sm2_ec_j_dbl(reg[d], reg[x]); v[d] = v[x] * 2 % R::n(); break;
        case 2: I::sm2_ec_j_neg(reg[d], reg[x]); v[d] = (R::n() - v[x]) % R::n(); break;
        case 3:
            if (v[y] == Z(0))
                break;
            {
                I::sm2_ec_a a;
                I::sm2_ec_j_to_a(a, reg[y]);
                I::sm2_ec_j_add_a(reg[d], reg[x], a);
                v[d] = (v[x] + v[y]) % R::n();
            }
            break;
        }
        CHECK(I::sm2_ec_j_is_inf(reg[d]) == (v[d] == Z(0)), "chain-inf", "infinity not recognised after step %zu", i);
    }
    NOTE("chain of %zu operations", n);
    for (int i = 0; i < 3; i++)
        EXPECT_PT(get_j(reg[i]), R::mulg(v[i]), "chain", "register after a chain");
    c.nontrivial();
}
PROP(encodings, 8000, 300000)
{
    Mult        P = gen_point(s, false);
    I::sm2_ec_a a, b;
    if (s.coin(1, 6))
        P.p = gen_rare(s), P.k = Z(0);
    load_a(a, P.p);
    Bytes   xy = P.p.x.bytes(32) + P.p.y.bytes(32);
    u8      par = (u8)P.p.y.bit(0);
    Guarded u(65), cm(33), mx(65), raw(64);
    NOTE("P=[%s]G=%s", P.k.str().c_str(), P.p.str().c_str());
    I::sm2_ec_a_to_bytes_uncompressed(u.data(), a);
    I::sm2_ec_a_to_bytes_compressed(cm.data(), a);
    I::sm2_ec_a_to_bytes_mix(mx.data(), a);
    I::sm2_ec_a_to_bytes04(raw.data(), a);
    CHECK(u.intact() && cm.intact() && mx.intact() && raw.intact(), "out-of-bounds", "an encoder wrote outside its buffer");
    CHECK_EQ_BYTES(u.bytes(), Bytes{4} + xy, "enc-04", "uncompressed");
    CHECK_EQ_BYTES(mx.bytes(), Bytes{(u8)(6 + par)} + xy, "enc-06", "hybrid");
    CHECK_EQ_BYTES(cm.bytes(), Bytes{(u8)(2 + par)} + P.p.x.bytes(32), "enc-02", "compressed");
    CHECK_EQ_BYTES(raw.bytes(), xy, "enc-raw", "coordinates");
    I::sm2_ec_a_from_bytes04(b, raw.data());
    EXPECT_PT(get_a(b), P.p, "dec-raw", "decoded coordinates");
    for (const Bytes& e : {u.bytes(), cm.bytes(), mx.bytes()})
    {
        Bytes       in = e + s.rnd(s.below(4));
        Exact       ex(in);
        std::size_t rd = 0;
        int         rc = I::sm2_ec_a_from_bytes(b, &rd, ex.data(), in.size());
        CHECK(rc == 0, "dec", "a valid encoding is rejected (prefix %02x)", e[0]);
        CHECK(rd == e.size(), "dec-len", "consumed %zu of %zu bytes", rd, e.size());
        EXPECT_PT(get_a(b), P.p, "dec", "decoded point");
    }
    c.nontrivial();
}
// decoding accepts exactly the encodings of points
PROP(decode_any, 12000, 500000)
{
    Bytes in;
    unsigned kind = (unsigned)s.below(6);
    const Z& p = R::p();
    if (kind == 0)
    {
        in = s.bytes(65);
        in[0] = (u8)s.below(9);
    }
    else if (kind == 1)
    {
        // x from a list near the ends, compressed
        Z x = s.coin() ? Z((std::int64_t)s.below(200)) : s.coin() ? (p - 100 + Z((std::int64_t)s.below(200))) % Z::pow2(256) : num::gen(s, 32);
        in = Bytes{(u8)(2 + s.below(2))} + x.bytes(32);
    }
    else if (kind == 2)
    {
        // a valid point with a small x coordinate written as x + p (or y + p)
        Pt P;
        Z  x;
        do
            x = Z::u(s.draw(0xffffffff));
        while (!R::lift(x, (int)s.below(2), &P));
        Z nx = P.x + p;
        in   = s.coin() ? Bytes{(u8)(2 + P.y.bit(0))} + nx.bytes(32) : Bytes{4} + nx.bytes(32) + P.y.bytes(32);
    }
    else
    {
        Mult P  = gen_point(s, false);
        Bytes e = Bytes{4} + P.p.x.bytes(32) + P.p.y.bytes(32);
        if (kind == 3)
            e[s.below(65)] ^= (u8)(1u << s.below(8));
        if (kind == 4)
            e = Bytes{4} + P.p.x.bytes(32) + R::neg(P.p).y.bytes(32);
        if (kind == 5)
            e = Bytes{4} + P.p.y.bytes(32) + P.p.x.bytes(32);
        in = e;
    }
    std::unique_ptr<Exact> ex_;
    std::size_t rd = 0;
    I::sm2_ec_a b;
    if (s.coin(1, 10))
        in.resize(s.below(in.size()));
    ex_.reset(new Exact(in));
    NOTE("%s", hex(in).c_str());
    int  rc = I::sm2_ec_a_from_bytes(b, &rd, ex_->data(), in.size());
    if (in.size() < 33 || (in[0] >= 4 && in.size() < 65))
    {
        CHECK(rc != 0, "dec-accept", "a truncated encoding is accepted");
        return;
    }
    Z    x = Z::be(&in[1], 32);
    Pt   want;
    bool ok = false, open = false;
    if (in[0] == 2 || in[0] == 3)
        ok = x < p && R::lift(x, in[0] & 1, &want);
    else if (in[0] == 4 || in[0] == 6 || in[0] == 7)
    {
        Z y = Z::be(&in[33], 32);
        ok  = R::on_curve(x, y);
        want.inf = false, want.x = x, want.y = y;
        open = in[0] != 4 && ok && (in[0] & 1) != y.bit(0); // hybrid parity mismatch: left open
    }
    if (!open)
        CHECK((rc == 0) == ok, "dec-accept", "decoding gives %d, encoding of a point: %d (%s)", rc, ok, hex(in).c_str());
    if (rc == 0)
        EXPECT_PT(get_a(b), want, "dec", "decoded point");
    c.label(ok ? "valid" : "invalid");
    c.nontrivial(in[0] >= 2 && in[0] <= 7);
}
