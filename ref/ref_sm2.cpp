#include "ref_sm2.h"
#include "ref_ec.h"
namespace ref { namespace sm2 {
using F = Fp<2>;
using C = Curve<F>;
struct K
{
    Z        p = Z::hex("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF"),
      n = Z::hex("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123"),
      a = Z::hex("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFC"),
      b = Z::hex("28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93");
    C        c;
    C::A     g;
    C::Table t;
    K()
    {
        F::P = toU(p);
        c.a  = F(toU(a));
        c.b  = F(toU(b));
        g.inf = false;
        g.x   = F(toU(Z::hex("32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7")));
        g.y   = F(toU(Z::hex("BC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0")));
        t     = c.table(g, 65);
    }
};
static const K& k()
{
    static K v;
    return v;
}
const Z&    p() { return k().p; }
const Z&    n() { return k().n; }
const Z&    a() { return k().a; }
const Z&    b() { return k().b; }
static C::A in(const Pt& q)
{
    C::A r;
    k();
    r.inf = q.inf;
    if (!q.inf)
    {
        r.x = F(toU(q.x));
        r.y = F(toU(q.y));
    }
    return r;
}
static Pt out(const C::A& q)
{
    Pt r;
    r.inf = q.inf;
    if (!q.inf)
    {
        r.x = toZ(q.x.v);
        r.y = toZ(q.y.v);
    }
    return r;
}
Pt   G() { return out(k().g); }
Pt   add(const Pt& x, const Pt& y) { return out(k().c.add(in(x), in(y))); }
Pt   neg(const Pt& x) { return out(C::neg(in(x))); }
Pt   mul(const Z& s, const Pt& x) { return out(k().c.mul(toU(s), in(x))); }
Pt   mulg(const Z& s) { return out(k().c.mulT(toU(s), k().t)); }
bool on_curve(const Z& x, const Z& y)
{
    return x < k().p && y < k().p && x >= Z(0) && y >= Z(0) && k().c.on(F(toU(x)), F(toU(y)));
}
bool lift(const Z& x, int parity, Pt* o)
{
    F xx(toU(x)), r = xx * xx * xx + k().c.a * xx + k().c.b;
    F y = r.pow((F::P + 1) / 4);
    if (y * y != r)
        return false;
    if ((int)bit_test(y.v, 0) != parity)
        y = -y;
    if ((int)bit_test(y.v, 0) != parity)
        return false;
    C::A q;
    q.inf = false;
    q.x   = xx;
    q.y   = y;
    *o    = out(q);
    return true;
}
}} // namespace ref::sm2
