#include "sm9h.h"
using namespace pbt;
using namespace sm9h;
static void same(Ctx& c, const I::sm9_fp12_t got, const E12& want, const char* sig, const char* what)
{
    Bytes b(384);
    I::sm9_fp12_to_bytes(b.data(), got);
    CHECK_EQ_BYTES(b, want.bytes(), sig, what);
}
PROP(bilinear, 900, 40000)
{
    Z  a = gen_nz(s), b = gen_nz(s);
    Pt P = R::mulg1(a);
    Pt2 Q = R::mulg2(b);
    NOTE("e([%s]P1, [%s]P2)", a.str().c_str(), b.str().c_str());
    I::sm9_ec_a  p;
    I::sm9_ec2_a q;
    if (s.coin(1, 3))
    {
        // through the library's own scalar multiplication and any scaling
        I::sm9_ec_j  pj;
        I::sm9_ec2_j qj;
        I::sm9_ec_j_mul_g(pj, a.bytes(32).data());
        I::sm9_ec2_j_mul_g(qj, b.bytes(32).data());
        I::sm9_ec_j_to_a(p, pj);
        I::sm9_ec2_j_to_a(q, qj);
        c.label("library points");
    }
    else
    {
        load_a(p, P);
        load_a2(q, Q);
    }
    I::sm9_fp12_t r;
    if (s.coin(1, 4))
        load12(r, R::gpow(Z(5))); // whatever the result object held before
    I::sm9_pairing(r, p, q);
    E12 want = R::gpow(a * b % R::n());
    same(c, r, want, "pairing", "e([a]P1,[b]P2) against g^ab");
    CHECK(!I::sm9_fp12_equal_one(r), "degenerate", "the pairing of non-identity points is one");
    // inputs are left alone
    CHECK(get(p[0]) == P.x && get(p[1]) == P.y && get2(q[0]) == Q.x && get2(q[1]) == Q.y, "input-modified", "the pairing changed its arguments");
    c.nontrivial(a != Z(1) || b != Z(1));
}
PROP(fixed_argument, 500, 20000)
{
    Z             a = gen_nz(s);
    bool          first = s.coin();
    I::sm9_fp12_t r;
    NOTE("%s k=%s", first ? "P_P2" : "P1_Q", a.str().c_str());
    if (first)
    {
        I::sm9_ec_a p;
        load_a(p, R::mulg1(a));
        I::sm9_pairing_P_P2(r, p);
    }
    else
    {
        I::sm9_ec2_a q;
        load_a2(q, R::mulg2(a));
        I::sm9_pairing_P1_Q(r, q);
    }
    same(c, r, R::gpow(a), first ? "pairing-P-P2" : "pairing-P1-Q", "pairing with a generator against g^k");
    c.nontrivial(a != Z(1));
}
// relations that need no reference value: additivity, negation, order n
PROP(relations, 300, 12000)
{
    const Z& n = R::n();
    Z        a = gen_nz(s), b = gen_nz(s), d = s.coin(1, 4) ? a : gen_nz(s);
    I::sm9_ec_a   p, p2, p3;
    I::sm9_ec2_a  q;
    I::sm9_fp12_t x, y, z;
    unsigned      kind = (unsigned)s.below(5);
    if ((a + d) % n == Z(0))
        d = a;
    NOTE("relation %u a=%s b=%s d=%s", kind, a.str().c_str(), b.str().c_str(), d.str().c_str());
    load_a(p, R::mulg1(a));
    load_a2(q, R::mulg2(b));
    I::sm9_pairing(x, p, q);
    switch (kind)
    {
    case 0: // e(P + P', Q) = e(P, Q) e(P', Q)
        load_a(p2, R::mulg1(d));
        load_a(p3, R::mulg1((a + d) % n));
        I::sm9_pairing(y, p2, q);
        I::sm9_pairing(z, p3, q);
        I::sm9_fp12_mul(x, x, y);
        CHECK(I::sm9_fp12_equal(x, z), "additive-1", "e(P+P',Q) is not e(P,Q)e(P',Q)");
        break;
    case 1:
    {
        I::sm9_ec2_a q2, q3;
        load_a2(q2, R::mulg2(d));
        if ((b + d) % n == Z(0))
            c.discard();
        load_a2(q3, R::mulg2((b + d) % n));
        I::sm9_pairing(y, p, q2);
        I::sm9_pairing(z, p, q3);
        I::sm9_fp12_mul(x, x, y);
        CHECK(I::sm9_fp12_equal(x, z), "additive-2", "e(P,Q+Q') is not e(P,Q)e(P,Q')");
        break;
    }
    case 2:
        I::sm9_ec_a_neg(p2, p);
        I::sm9_pairing(y, p2, q);
        I::sm9_fp12_mul(x, x, y);
        CHECK(I::sm9_fp12_equal_one(x), "negation", "e(P,Q)e(-P,Q) is not one");
        break;
    case 4:
    {
        // a point with a rare x coordinate: e(X,Q) e([a]P1,Q) = e(X+[a]P1,Q), e(X,P2)^b = e(X,Q)
        Pt X = gen_rare(s);
        NOTE("relation 4: X=%s", X.str().c_str());
        load_a(p2, X);
        load_a(p3, R::add1(X, R::mulg1(a)));
        I::sm9_pairing(y, p2, q);
        CHECK(!I::sm9_fp12_equal_one(y), "degenerate", "the pairing of non-identity points is one");
        I::sm9_pairing(z, p3, q);
        I::sm9_fp12_mul(x, x, y);
        CHECK(I::sm9_fp12_equal(x, z), "additive-1", "e(X+P,Q) is not e(X,Q)e(P,Q)");
        I::sm9_pairing_P_P2(z, p2);
        I::sm9_fp12_pow(z, z, b.bytes(32).data());
        CHECK(I::sm9_fp12_equal(z, y), "bilinear-rare", "e(X,[b]P2) is not e(X,P2)^b");
        c.label("rare x coordinate");
        break;
    }
    case 3:
        I::sm9_fp12_pow(y, x, n.bytes(32).data());
        CHECK(I::sm9_fp12_equal_one(y), "order", "the pairing value does not have order n");
        I::sm9_fp12_pow(y, x, d.bytes(32).data());
        same(c, y, R::gpow(a * b % n * d % n), "power", "e(P,Q)^d");
        break;
    }
    c.nontrivial();
}
// every small pair of multiples of the generators and of their negatives
PROP(small_multiples, 2, 4)
{
    for (int i = 1; i <= 6; i++)
        for (int j = 1; j <= 6; j++)
        {
            Z            a = s.coin() ? Z(i) : R::n() - i, b = s.coin() ? Z(j) : R::n() - j;
            I::sm9_ec_a  p;
            I::sm9_ec2_a q;
            load_a(p, R::mulg1(a));
            load_a2(q, R::mulg2(b));
            I::sm9_fp12_t r;
            I::sm9_pairing(r, p, q);
            NOTE("e([%s]P1, [%s]P2)", a.str().c_str(), b.str().c_str());
            same(c, r, R::gpow(a * b % R::n()), "pairing", "small multiples");
        }
    c.nontrivial();
}
