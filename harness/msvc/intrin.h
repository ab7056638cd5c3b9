// Stand-in for MSVC's <intrin.h> on gcc, so that the library's MSVC branches
// can be run here: MSVC's operand types, its big-endian loads and stores, and
// its _udiv128, which faults when the quotient does not fit (as DIV does).
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstdio>
#if defined(__x86_64__)
#include <immintrin.h>
namespace msvc_standin {
static inline std::uint64_t mulx(std::uint64_t a, std::uint64_t b, std::uint64_t* h)
{
    unsigned __int128 p = (unsigned __int128)a * b;
    *h                  = (std::uint64_t)(p >> 64);
    return (std::uint64_t)p;
}
static inline unsigned char addc(unsigned char c, std::uint64_t a, std::uint64_t b, std::uint64_t* r)
{
    unsigned long long t;
    c  = __builtin_ia32_addcarryx_u64(c, a, b, &t);
    *r = t;
    return c;
}
static inline unsigned char subb(unsigned char c, std::uint64_t a, std::uint64_t b, std::uint64_t* r)
{
    unsigned long long t;
    c  = __builtin_ia32_sbb_u64(c, a, b, &t);
    *r = t;
    return c;
}
static inline std::uint64_t div128(std::uint64_t h, std::uint64_t l, std::uint64_t d, std::uint64_t* r)
{
    if (h >= d)
    {
        std::fprintf(stderr, "runtime error: _udiv128 quotient does not fit (#DE)\n");
        std::abort();
    }
    unsigned __int128 n = (unsigned __int128)h << 64 | l;
    *r                  = (std::uint64_t)(n % d);
    return (std::uint64_t)(n / d);
}
} // namespace msvc_standin
#define _mulx_u64 msvc_standin::mulx
#define _addcarry_u64 msvc_standin::addc
#define _subborrow_u64 msvc_standin::subb
#define _udiv128 msvc_standin::div128
#endif
#define _loadbe_i16(p) __builtin_bswap16(*(const std::uint16_t*)(p))
#define _storebe_i16(p, a) (void)(*(std::uint16_t*)(p) = __builtin_bswap16(a))
#define _loadbe_i32(p) __builtin_bswap32(*(const std::uint32_t*)(p))
#define _storebe_i32(p, a) (void)(*(std::uint32_t*)(p) = __builtin_bswap32(a))
#define _loadbe_i64(p) __builtin_bswap64(*(const std::uint64_t*)(p))
#define _storebe_i64(p, a) (void)(*(std::uint64_t*)(p) = __builtin_bswap64(a))
#if defined(__x86_64__)
#define _umul128 msvc_standin::mulx
#endif
#define _byteswap_ushort __builtin_bswap16
#define _byteswap_ulong __builtin_bswap32
#define _byteswap_uint64 __builtin_bswap64
