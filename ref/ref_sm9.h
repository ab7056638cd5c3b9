// SM9 reference (GB/T 38635): affine groups G1, G2, and the target group as
// polynomials in w modulo w^12 + 2 over F_p (u = w^6, v = w^3).
#pragma once
#include "ref_sm2.h"
#include <array>
namespace ref { namespace sm9 {
const Z& p();
const Z& n();
// G1: points of ref::Pt with y^2 = x^3 + 5
Pt   add1(const Pt&, const Pt&);
Pt   neg1(const Pt&);
Pt   mul1(const Z&, const Pt&);
Pt   mulg1(const Z&);
bool on1(const Z& x, const Z& y); // also requires x, y < p
bool lift1(const Z& x, int parity, Pt*);
// F_p2: c0 + c1 u, u^2 = -2
struct E2
{
    Z    c0, c1;
    bool operator==(const E2& o) const { return c0 == o.c0 && c1 == o.c1; }
    bool operator!=(const E2& o) const { return !(*this == o); }
    bool canonical() const { return c0 < p() && c1 < p(); }
    std::vector<std::uint8_t> bytes() const; // c1, c0
    static E2                 be(const std::uint8_t*);
    std::string               str() const { return c1.str() + "u+" + c0.str(); }
};
E2   mul2(const E2&, const E2&);
bool sqrt2(const E2&, E2*);
// G2 (and the rest of its curve): y^2 = x^3 + 5u
struct Pt2
{
    bool        inf = true;
    E2          x, y;
    bool        operator==(const Pt2& o) const { return inf == o.inf && (inf || (x == o.x && y == o.y)); }
    bool        operator!=(const Pt2& o) const { return !(*this == o); }
    std::string str() const { return inf ? "infinity" : "(" + x.str() + "," + y.str() + ")"; }
};
Pt2  add2(const Pt2&, const Pt2&);
Pt2  neg2(const Pt2&);
Pt2  smul2(const Z&, const Pt2&);
Pt2  mulg2(const Z&);
bool on2(const E2& x, const E2& y);
bool lift2(const E2& x, Pt2*); // some point with that x
// F_p12: coefficients of w^0 .. w^11
struct E12
{
    std::array<Z, 12> c;
    bool              operator==(const E12& o) const { return c == o.c; }
    bool              operator!=(const E12& o) const { return !(c == o.c); }
    std::vector<std::uint8_t> bytes() const; // the library's and the standard's order
    static E12                be(const std::uint8_t*);
    static E12                one();
};
E12 mul12(const E12&, const E12&);
E12 add12(const E12&, const E12&);
E12 sub12(const E12&, const E12&);
E12 pow12(const E12&, const Z&);
E12 gpow(const Z&); // g^k, g = e(P1, P2)
// hash to [1, n-1] (H1: tag 1, H2: tag 2)
Z Hn(std::vector<std::uint8_t> (*h)(const std::vector<std::uint8_t>&), int tag, const std::vector<std::uint8_t>& z);
}} // namespace ref::sm9
