// SM2 (GB/T 32918, sm2p256v1) from its definition.
#pragma once
#include "ref_num.h"
namespace ref {
struct Pt
{
    bool inf = true;
    Z    x, y;
    bool operator==(const Pt& o) const { return inf == o.inf && (inf || (x == o.x && y == o.y)); }
    bool operator!=(const Pt& o) const { return !(*this == o); }
    std::string str() const { return inf ? "inf" : "(" + x.str() + "," + y.str() + ")"; }
};
namespace sm2 {
const Z& p();
const Z& n();
const Z& a();
const Z& b();
Pt       G();
Pt       add(const Pt&, const Pt&);
Pt       neg(const Pt&);
Pt       mul(const Z& k, const Pt&); // any k >= 0
Pt       mulg(const Z& k);           // any 0 <= k < 2^256
bool     on_curve(const Z& x, const Z& y); // also requires x, y < p
bool     lift(const Z& x, int parity, Pt* out);
} // namespace sm2
} // namespace ref
