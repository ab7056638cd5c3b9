#include "ref_sm9.h"
#include "ref_ec.h"
namespace ref { namespace sm9 {
using F = Fp<9>;
struct F2
{
    F           a, b; // a + b u
    static F2   i(unsigned k) { return {F::i(k), F()}; }
    bool        zero() const { return a.zero() && b.zero(); }
    bool        operator==(const F2& o) const { return a == o.a && b == o.b; }
    bool        operator!=(const F2& o) const { return !(*this == o); }
    F2          operator+(const F2& o) const { return {a + o.a, b + o.b}; }
    F2          operator-(const F2& o) const { return {a - o.a, b - o.b}; }
    F2          operator-() const { return {-a, -b}; }
    F2          operator*(const F2& o) const { return {F(a.v * o.a.v + (F::P * F::P - b.v * o.b.v) * 2u), F(a.v * o.b.v + b.v * o.a.v)}; }
    F           norm() const { return a * a + (b * b + b * b); }
    F2          inv() const
    {
        F t = norm().inv();
        return {a * t, -(b * t)};
    }
};
using C1 = Curve<F>;
using C2 = Curve<F2>;
static const char* GC[12] = {"36a699de7c136f78eee2dbac4ca9727bff0cee02ee920f5822e65ea170aa9669", "6fa6b6fa6dd6b6d3b19a959a110e748154eef796dc0fc2dd766ea414de786968", "79d0c8337072c93fef482bb055f44d6247ccac8e8e12525854b3566236337ebe", "1664a1366beb3196f0443e15f5f9042a947354a5678430d45ba031cff06db927", "3fa7ed741eaed99a58f53e3df82df7ccd3407bcc7b1d44a9441920ced5fb824f", "0167b0280051495c6af1ec23ba2cd2ff1cdcdeca461a5ab0b5449e9091308310", "7f7c6d52b475e6aaa827fdc5b4175ac6929320f782d998f86b6b57cda42a0426", "7fc6eb2aa771d99c9234fddd31752edfd60723e05a4ebfdeb5c33fbd47e0cf06", "5e7addaddf7fbfe16291b4e89af50b8217ddc47ba3cba833c6e77c3fb027685e", "8ffe1c0e9de45fd0fed790ac26be91f6b3f0a49c084fe29a3fb6ed288ad7994d", "082cde173022da8cd09b28a2d80a8cee53894436a52007f978dc37f36116d39b", "256943fbdb2bf87ab91ae7fbeaff14e146cf7e2279b9d155d13461e09b22f523"};
using V12 = std::array<U, 12>;
static V12 mulv(const V12& x, const V12& y)
{
    U t[23];
    for (int i = 0; i < 12; i++)
        if (x[i] != 0)
            for (int j = 0; j < 12; j++)
                t[i + j] += x[i] * y[j];
    V12 r;
    U   big = F::P * F::P * 24u; // larger than twice a sum of 11 products
    for (int i = 0; i < 12; i++)
        r[i] = (i < 11 ? U(t[i] + big - t[i + 12] * 2u) : t[i]) % F::P;
    return r;
}
static V12 onev()
{
    V12 r;
    r[0] = 1;
    return r;
}
static V12 toV(const E12& a)
{
    V12 r;
    for (int i = 0; i < 12; i++)
        r[i] = toU(a.c[i]);
    return r;
}
static E12 toE(const V12& a)
{
    E12 r;
    for (int i = 0; i < 12; i++)
        r.c[i] = toZ(a[i]);
    return r;
}
struct K
{
    Z                p = Z::hex("B640000002A3A6F1D603AB4FF58EC74521F2934B1A7AEEDBE56F9B27E351457D"), n = Z::hex("B640000002A3A6F1D603AB4FF58EC74449F2934B18EA8BEEE56EE19CD69ECF25");
    C1               c1;
    C2               c2;
    C1::A            g1;
    C2::A            g2;
    C1::Table        t1;
    C2::Table        t2;
    std::vector<V12> tg;
    static F         f(const char* h) { return F(toU(Z::hex(h))); }
    K()
    {
        F::P   = toU(p);
        c1.a   = F();
        c1.b   = F::i(5);
        c2.a   = F2();
        c2.b   = F2{F(), F::i(5)};
        g1.inf = g2.inf = false;
        g1.x   = f("93DE051D62BF718FF5ED0704487D01D6E1E4086909DC3280E8C4E4817C66DDDD");
        g1.y   = f("21FE8DDA4F21E607631065125C395BBC1C1C00CBFA6024350C464CD70A3EA616");
        g2.x   = F2{f("3722755292130B08D2AAB97FD34EC120EE265948D19C17ABF9B7213BAF82D65B"), f("85AEF3D078640C98597B6027B441A01FF1DD2C190F5E93C454806C11D8806141")};
        g2.y   = F2{f("A7CF28D519BE3DA65F3170153D278FF247EFBA98A71A08116215BBA5C999A7C7"), f("17509B092E845C1266BA0D262CBEE6ED0736A96FA347C8BD856DC76B84EBEB96")};
        t1     = c1.table(g1, 65);
        t2     = c2.table(g2, 65);
        V12 b;
        for (int i = 0; i < 12; i++)
            b[i] = toU(Z::hex(GC[i]));
        for (int w = 0; w < 65; w++)
        {
            V12 x = b;
            for (int d = 1; d < 16; d++)
            {
                tg.push_back(x);
                x = mulv(x, b);
            }
            b = x;
        }
    }
};
static const K& k()
{
    static K v;
    return v;
}
const Z&     p() { return k().p; }
const Z&     n() { return k().n; }
static C1::A in(const Pt& q)
{
    k();
    C1::A r;
    r.inf = q.inf;
    if (!q.inf)
        r.x = F(toU(q.x)), r.y = F(toU(q.y));
    return r;
}
static Pt out(const C1::A& q)
{
    Pt r;
    r.inf = q.inf;
    if (!q.inf)
        r.x = toZ(q.x.v), r.y = toZ(q.y.v);
    return r;
}
static F2 in(const E2& e)
{
    k();
    return {F(toU(e.c0)), F(toU(e.c1))};
}
static E2    out(const F2& e) { return {toZ(e.a.v), toZ(e.b.v)}; }
static C2::A in(const Pt2& q)
{
    C2::A r;
    r.inf = q.inf;
    if (!q.inf)
        r.x = in(q.x), r.y = in(q.y);
    return r;
}
static Pt2 out(const C2::A& q)
{
    Pt2 r;
    r.inf = q.inf;
    if (!q.inf)
        r.x = out(q.x), r.y = out(q.y);
    return r;
}
Pt          add1(const Pt& a, const Pt& b) { return out(k().c1.add(in(a), in(b))); }
Pt          neg1(const Pt& a) { return out(C1::neg(in(a))); }
Pt          mul1(const Z& s, const Pt& a) { return out(k().c1.mul(toU(s), in(a))); }
Pt          mulg1(const Z& s) { return out(k().c1.mulT(toU(s), k().t1)); }
bool        on1(const Z& x, const Z& y) { return x < p() && y < p() && k().c1.on(F(toU(x)), F(toU(y))); }
static bool sqrtp(const F& a, F* r) // Cipolla-free: p = 5 mod 8 (Atkin)
{
    F two = F::i(2), t = (two * a).pow((F::P - 5) / 8), i = two * a * t * t;
    *r = a * t * (i - F::i(1));
    return *r * *r == a;
}
bool lift1(const Z& x, int parity, Pt* o)
{
    k();
    F     xx(toU(x)), y;
    if (!sqrtp(xx * xx * xx + F::i(5), &y))
        return false;
    if ((int)bit_test(y.v, 0) != parity)
        y = -y;
    if ((int)bit_test(y.v, 0) != parity)
        return false;
    C1::A q;
    q.inf = false;
    q.x   = xx;
    q.y   = y;
    *o    = out(q);
    return true;
}
std::vector<std::uint8_t> E2::bytes() const
{
    auto r = c1.bytes(32), s = c0.bytes(32);
    r.insert(r.end(), s.begin(), s.end());
    return r;
}
E2 E2::be(const std::uint8_t* b) { return {Z::be(b + 32, 32), Z::be(b, 32)}; }
E2 mul2(const E2& a, const E2& b) { return out(in(a) * in(b)); }
bool sqrt2(const E2& e, E2* o)
{
    // (x + y u)^2 = x^2 - 2 y^2 + 2 x y u
    F2 a = in(e);
    F  half = F::i(2).inv(), N;
    if (a.b.zero())
    {
        F r;
        if (sqrtp(a.a, &r))
            *o = out(F2{r, F()});
        else if (sqrtp(-(a.a * half), &r)) // (y u)^2 = -2 y^2
            *o = out(F2{F(), r});
        else
            return false;
        return true;
    }
    if (!sqrtp(a.norm(), &N))
        return false;
    for (F d : {(a.a + N) * half, (a.a - N) * half})
    {
        F x;
        if (sqrtp(d, &x) && !x.zero())
        {
            F2 r{x, a.b * half * x.inv()};
            if (r * r == a)
            {
                *o = out(r);
                return true;
            }
        }
    }
    return false;
}
Pt2  add2(const Pt2& a, const Pt2& b) { return out(k().c2.add(in(a), in(b))); }
Pt2  neg2(const Pt2& a) { return out(C2::neg(in(a))); }
Pt2  smul2(const Z& s, const Pt2& a) { return out(k().c2.mul(toU(s), in(a))); }
Pt2  mulg2(const Z& s) { return out(k().c2.mulT(toU(s), k().t2)); }
bool on2(const E2& x, const E2& y) { return x.canonical() && y.canonical() && k().c2.on(in(x), in(y)); }
bool lift2(const E2& x, Pt2* o)
{
    F2 t = in(x);
    E2 y;
    if (!sqrt2(out(t * t * t + k().c2.b), &y))
        return false;
    o->inf = false;
    o->x   = x;
    o->y   = y;
    return true;
}
static int where(int i, int j, int l) { return i + 3 * j + 6 * l; }
std::vector<std::uint8_t> E12::bytes() const
{
    std::vector<std::uint8_t> r;
    for (int i = 2; i >= 0; i--)
        for (int j = 1; j >= 0; j--)
            for (int l = 1; l >= 0; l--)
            {
                auto b = c[where(i, j, l)].bytes(32);
                r.insert(r.end(), b.begin(), b.end());
            }
    return r;
}
E12 E12::be(const std::uint8_t* b)
{
    E12 r;
    for (int i = 2; i >= 0; i--)
        for (int j = 1; j >= 0; j--)
            for (int l = 1; l >= 0; l--, b += 32)
                r.c[where(i, j, l)] = Z::be(b, 32);
    return r;
}
E12 E12::one()
{
    E12 r;
    r.c[0] = Z(1);
    return r;
}
E12 mul12(const E12& a, const E12& b)
{
    k();
    return toE(mulv(toV(a), toV(b)));
}
E12 add12(const E12& a, const E12& b)
{
    E12 r;
    for (int i = 0; i < 12; i++)
        r.c[i] = (a.c[i] + b.c[i]) % p();
    return r;
}
E12 sub12(const E12& a, const E12& b)
{
    E12 r;
    for (int i = 0; i < 12; i++)
        r.c[i] = (a.c[i] - b.c[i]) % p();
    return r;
}
E12 pow12(const E12& a, const Z& e)
{
    k();
    V12 r = onev(), b = toV(a);
    for (unsigned i = 0; i < e.bits(); i++)
    {
        if (e.bit(i))
            r = mulv(r, b);
        b = mulv(b, b);
    }
    return toE(r);
}
E12 gpow(const Z& e)
{
    V12 r = onev();
    U   x = toU(e);
    for (std::size_t w = 0; x != 0; w++, x >>= 4)
    {
        unsigned d = (unsigned)(x & 15);
        if (d)
            r = mulv(r, k().tg[w * 15 + d - 1]);
    }
    return toE(r);
}
Z Hn(std::vector<std::uint8_t> (*h)(const std::vector<std::uint8_t>&), int tag, const std::vector<std::uint8_t>& z)
{
    std::vector<std::uint8_t> ha;
    for (std::uint8_t ct = 1; ha.size() < 40; ct++)
    {
        std::vector<std::uint8_t> m{(std::uint8_t)tag};
        m.insert(m.end(), z.begin(), z.end());
        for (std::uint8_t b : {0, 0, 0, (int)ct})
            m.push_back(b);
        auto d = h(m);
        ha.insert(ha.end(), d.begin(), d.end());
    }
    ha.resize(40); // ceil(5 log2(n) / 32) bytes
    return Z::be(ha) % (n() - 1) + 1;
}
}} // namespace ref::sm9
