// Textbook prime-field and short-Weierstrass arithmetic (only included by the
// unsanitized reference translation units).
#pragma once
#include "ref_num.h"
#include <boost/multiprecision/cpp_int.hpp>
#include <vector>
namespace ref {
using U = boost::multiprecision::number<boost::multiprecision::cpp_int_backend<1024, 1024, boost::multiprecision::unsigned_magnitude, boost::multiprecision::unchecked, void>>;
inline U toU(const Z& z)
{
    auto b = z.bytes(64);
    U    r;
    import_bits(r, b.begin(), b.end());
    return r;
}
inline Z toZ(const U& u)
{
    std::vector<std::uint8_t> b;
    export_bits(u, std::back_inserter(b), 8);
    return Z::be(b);
}
template <int ID>
struct Fp
{
    static U P;
    U        v;
    Fp() : v(0) {}
    explicit Fp(const U& x) : v(x % P) {}
    static Fp raw(const U& x)
    {
        Fp r;
        r.v = x;
        return r;
    }
    static Fp i(unsigned k) { return Fp(U(k)); }
    bool      zero() const { return v == 0; }
    bool      operator==(const Fp& o) const { return v == o.v; }
    bool      operator!=(const Fp& o) const { return v != o.v; }
    Fp        operator+(const Fp& o) const
    {
        U t = v + o.v;
        if (t >= P)
            t -= P;
        return raw(t);
    }
    Fp operator-(const Fp& o) const { return raw(v >= o.v ? U(v - o.v) : U(v + P - o.v)); }
    Fp operator-() const { return raw(v == 0 ? U(0) : U(P - v)); }
    Fp operator*(const Fp& o) const { return raw(v * o.v % P); }
    Fp pow(U e) const
    {
        Fp r = i(1), b = *this;
        while (e != 0)
        {
            if (bit_test(e, 0))
                r = r * b;
            b = b * b;
            e >>= 1;
        }
        return r;
    }
    Fp inv() const { return pow(P - 2); }
};
template <int ID>
U Fp<ID>::P;

// y^2 = x^3 + a x + b over any field type with the operators above
template <class F>
struct Curve
{
    struct A
    {
        bool inf = true;
        F    x, y;
    };
    struct J
    {
        F x, y, z; // z = 0: infinity
    };
    F    a, b;
    bool on(const F& x, const F& y) const { return y * y == x * x * x + a * x + b; }
    static A neg(const A& p)
    {
        A r = p;
        r.y = -r.y;
        return r;
    }
    A add(const A& p, const A& q) const
    {
        if (p.inf)
            return q;
        if (q.inf)
            return p;
        F l;
        if (p.x == q.x)
        {
            if ((p.y + q.y).zero())
                return A();
            F x2 = p.x * p.x;
            l    = (x2 + x2 + x2 + a) * (p.y + p.y).inv();
        }
        else
            l = (q.y - p.y) * (q.x - p.x).inv();
        A r;
        r.inf = false;
        r.x   = l * l - p.x - q.x;
        r.y   = l * (p.x - r.x) - p.y;
        return r;
    }
    J dblj(const J& p) const
    {
        if (p.z.zero())
            return p;
        F yy = p.y * p.y, s = p.x * yy, zz = p.z * p.z, xx = p.x * p.x;
        s = s + s;
        s = s + s;
        F m = xx + xx + xx + a * zz * zz;
        J r;
        r.x  = m * m - s - s;
        F y4 = yy * yy;
        y4   = y4 + y4;
        y4   = y4 + y4;
        y4   = y4 + y4;
        r.y  = m * (s - r.x) - y4;
        r.z  = p.y * p.z;
        r.z  = r.z + r.z;
        return r;
    }
    J adda(const J& p, const A& q) const
    {
        if (q.inf)
            return p;
        if (p.z.zero())
            return toj(q);
        F zz = p.z * p.z, u2 = q.x * zz, s2 = q.y * zz * p.z;
        F h = u2 - p.x, r = s2 - p.y;
        if (h.zero())
        {
            if (r.zero())
                return dblj(p);
            J o;
            return o;
        }
        F hh = h * h, hhh = hh * h, v = p.x * hh;
        J o;
        o.x = r * r - hhh - v - v;
        o.y = r * (v - o.x) - p.y * hhh;
        o.z = p.z * h;
        return o;
    }
    J toj(const A& p) const
    {
        J j;
        if (p.inf)
            return j;
        j.x = p.x;
        j.y = p.y;
        j.z = one();
        return j;
    }
    static F one() { return F::i(1); }
    A        toa(const J& p) const
    {
        A r;
        if (p.z.zero())
            return r;
        F zi = p.z.inv(), z2 = zi * zi;
        r.inf = false;
        r.x   = p.x * z2;
        r.y   = p.y * z2 * zi;
        return r;
    }
    A mul(const U& k, const A& p) const
    {
        J r;
        if (k == 0)
            return A();
        for (int i = (int)msb(k); i >= 0; i--)
        {
            r = dblj(r);
            if (bit_test(k, (unsigned)i))
                r = adda(r, p);
        }
        return toa(r);
    }
    // fixed base: T[w][d-1] = d 16^w B
    struct Table
    {
        std::vector<A> t;
    };
    Table table(A base, unsigned windows) const
    {
        Table T;
        for (unsigned w = 0; w < windows; w++)
        {
            A c = base;
            for (int d = 1; d < 16; d++)
            {
                T.t.push_back(c);
                c = add(c, base);
            }
            base = c;
        }
        return T;
    }
    A mulT(U k, const Table& T) const
    {
        J r;
        for (std::size_t w = 0; k != 0; w++, k >>= 4)
        {
            unsigned d = (unsigned)(k & 15);
            if (d)
                r = adda(r, T.t[w * 15 + d - 1]);
        }
        return toa(r);
    }
};
} // namespace ref
