#include "ref_num.h"
#include <boost/multiprecision/cpp_int.hpp>
#include <boost/multiprecision/miller_rabin.hpp>
#include <random>
namespace ref {
using B = boost::multiprecision::cpp_int;
struct Z::I
{
    B v;
};
Z::Z(std::int64_t v) : i(new I{B(v)}) {}
Z::Z(const Z& o) : i(new I{o.i->v}) {}
Z& Z::operator=(const Z& o)
{
    i->v = o.i->v;
    return *this;
}
Z::~Z() = default;
Z Z::u(std::uint64_t v)
{
    Z r;
    r.i->v = v;
    return r;
}
Z Z::be(const std::uint8_t* p, std::size_t n)
{
    Z r;
    for (std::size_t k = 0; k < n; k++)
        r.i->v = (r.i->v << 8) | p[k];
    return r;
}
Z Z::le64(const std::uint64_t* p, std::size_t n)
{
    Z r;
    while (n--)
        r.i->v = (r.i->v << 64) | p[n];
    return r;
}
Z Z::le32(const std::uint32_t* p, std::size_t n)
{
    Z r;
    while (n--)
        r.i->v = (r.i->v << 32) | p[n];
    return r;
}
Z Z::hex(const char* s)
{
    Z r;
    r.i->v = B(std::string("0x") + s);
    return r;
}
Z Z::pow2(unsigned n)
{
    Z r;
    r.i->v = B(1) << n;
    return r;
}
static B low(const B& v, std::size_t n)
{
    B m = B(1) << (8 * n);
    B x = v % m;
    if (x < 0)
        x += m;
    return x;
}
std::vector<std::uint8_t> Z::bytes(std::size_t n) const
{
    std::vector<std::uint8_t> r(n);
    B                         x = low(i->v, n);
    for (std::size_t k = n; k--; x >>= 8)
        r[k] = (std::uint8_t)(x & 0xff);
    return r;
}
std::uint64_t Z::limb64(std::size_t k) const
{
    return (std::uint64_t)((low(i->v, 8 * (k + 1)) >> (64 * k)) & UINT64_MAX);
}
std::uint32_t Z::limb32(std::size_t k) const
{
    return (std::uint32_t)((low(i->v, 4 * (k + 1)) >> (32 * k)) & UINT32_MAX);
}
std::string Z::str() const
{
    if (i->v < 0)
        return "-" + B(-i->v).str(0, std::ios::hex);
    return i->v.str(0, std::ios::hex);
}
bool     Z::bit(unsigned k) const { return boost::multiprecision::bit_test(i->v, k); }
unsigned Z::bits() const { return i->v == 0 ? 0 : boost::multiprecision::msb(i->v) + 1; }
#define OP(o)                         \
    Z Z::operator o(const Z& x) const \
    {                                 \
        Z r;                          \
        r.i->v = i->v o x.i->v;       \
        return r;                     \
    }
OP(+)
OP(-)
OP(*)
OP(/)
Z Z::operator%(const Z& x) const
{
    Z r;
    r.i->v = i->v % x.i->v;
    if (r.i->v < 0)
        r.i->v += x.i->v;
    return r;
}
int Z::cmp(const Z& o) const { return i->v < o.i->v ? -1 : i->v > o.i->v ? 1 : 0; }
Z   Z::powm(const Z& e, const Z& m) const
{
    Z r;
    r.i->v = boost::multiprecision::powm(B(i->v % m.i->v), e.i->v, m.i->v);
    return r;
}
Z Z::gcd(const Z& o) const
{
    Z r;
    r.i->v = boost::multiprecision::gcd(i->v, o.i->v);
    return r;
}
bool Z::probably_prime() const
{
    std::mt19937 g(7);
    return boost::multiprecision::miller_rabin_test(i->v, 12, g);
}
} // namespace ref
