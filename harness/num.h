// Shared pieces of the integer checks: operand generators and limb-width traits.
#pragma once
#include "pbt.h"
#include "ref/ref_num.h"
#include <gmlib/number/mont256.h>
#include <gmlib/number/internal/mont256_common.h>
#include <gmlib/number/internal/uint256_common.h>
#include <gmlib/number/internal/mpz_common.h>
#include <gmlib/number/mpz.h>
#include <gmlib/number/uint256.h>
#if defined(CPU_FLAG_MOVBE) && defined(CPU_FLAG_BMI2)
#define HAVE_X64 1
#else
#define HAVE_X64 0
#endif
namespace num {
using namespace pbt;
using ref::Z;

// n bytes (big-endian) built of limbs that are often 0, ~0 or next to them
inline Bytes gen_bytes(Source& s, std::size_t n)
{
    if (s.coin(1, 4))
        return s.rnd(n);
    if (s.coin(1, 8))
    {
        // short value
        Bytes b(n);
        std::size_t k = std::min<std::size_t>(n, 1 + s.below(9));
        Bytes t = s.rnd(k);
        std::copy(t.begin(), t.end(), b.end() - k);
        return b;
    }
    Bytes       b(n);
    std::size_t unit = s.coin() ? 8 : 4;
    for (std::size_t i = 0; i < n; i += unit)
    {
        u64 w = s.limb();
        for (std::size_t j = 0; j < unit && i + j < n; j++)
            b[i + j] = (u8)(w >> (8 * (unit - 1 - j)));
    }
    return b;
}
inline Z gen(Source& s, std::size_t nbytes) { return Z::be(gen_bytes(s, nbytes)); }
// another operand of the same size, often related to x
inline Z gen_rel(Source& s, const Z& x, unsigned nbytes)
{
    Z M = Z::pow2(8 * nbytes);
    switch (s.below(13))
    {
    case 12: // differs where a weak comparison may not look
    {
        Bytes b = x.bytes(nbytes);
        cancel_alter(s, b);
        return Z::be(b);
    }
    case 0: return x;
    case 1: return (x + 1) % M;
    case 2: return (x - 1) % M;
    case 3: return (Z(0) - x) % M;           // sums to 2^n
    case 4: return (M - 1 - x) % M;          // sums to 2^n-1
    case 5: return (Z(1) - x) % M;
    case 6:                                  // differs in one bit
    {
        unsigned k = (unsigned)s.below(8 * nbytes);
        return x.bit(k) ? x - Z::pow2(k) : x + Z::pow2(k);
    }
    default: return gen(s, nbytes);
    }
}
// a residue modulo m, often near its ends or its middle
inline Z gen_mod(Source& s, const Z& m)
{
    switch (s.below(18))
    {
    case 14:
    case 15:
    case 16: // structured limbs in Montgomery representation: v * 2^-256 mod m
        if (m.bit(0) && m > Z(2))
            return gen(s, 32) % m * ((m + 1) / 2).powm(Z(256), m) % m;
        return gen(s, 32) % m;
    case 0: return Z(0);
    case 1: return Z((std::int64_t)s.below(4)) % m;
    case 2: return (m - 1 - Z((std::int64_t)s.below(3))) % m;
    case 3: return (m / 2 + Z((std::int64_t)s.below(3)) - 1) % m;
    case 4: return (m / 3 + Z((std::int64_t)s.below(3)) - 1) % m;
    case 5: return (m * 2 / 3 + Z((std::int64_t)s.below(3)) - 1) % m;
    case 6: return (Z::pow2(256) - m + Z((std::int64_t)s.below(3)) - 1) % m;
    case 7: return Z::pow2(256) % m;
    case 8:
    {
        // near 2^255, 2^256/3 and their complements: carries of 2a and 3a
        Z t = s.coin() ? Z::pow2(255) : Z::pow2(256) / 3;
        return (t + Z((std::int64_t)s.below(5)) - 2) % m;
    }
    default: return gen(s, 32) % m;
    }
}

struct W32
{
    using T = std::uint32_t;
    static constexpr std::size_t L = 8, BITS = 32;
    static constexpr const char* name = "32-bit limbs";
    static T limb(const Z& z, std::size_t i) { return z.limb32(i); }
    static Z val(const T* p, std::size_t n) { return Z::le32(p, n); }
};
struct W64
{
    using T = std::uint64_t;
    static constexpr std::size_t L = 4, BITS = 64;
    static constexpr const char* name = "64-bit limbs";
    static T limb(const Z& z, std::size_t i) { return z.limb64(i); }
    static Z val(const T* p, std::size_t n) { return Z::le64(p, n); }
};
// limbs on the heap with guard limbs; exact-size view for read-only operands
template <class W>
struct Limbs
{
    using T = typename W::T;
    Guarded g;
    explicit Limbs(std::size_t n, const Z& v = Z(0)) : g(n * sizeof(T))
    {
        set(v);
    }
    void set(const Z& v)
    {
        for (std::size_t i = 0; i < size(); i++)
            p()[i] = W::limb(v, i);
    }
    std::size_t size() const { return g.size() / sizeof(T); }
    T*          p() { return (T*)g.data(); }
    Z           val() { return W::val(p(), size()); }
};
} // namespace num
