// Stand-in for the parts of the Windows API the Windows generators use.  The
// largest length one call takes is made small (a real one is 2^32-1, used with
// WIN_REAL_LIMITS), so that requests longer than it are cheap to explore.
#pragma once
#include <climits>
#include <cstdint>
using NTSTATUS          = std::int32_t;
using ULONG             = std::uint32_t;
using DWORD             = std::uint32_t;
using LONG              = std::int32_t;
using BOOL              = int;
using BYTE              = std::uint8_t;
using UCHAR             = std::uint8_t;
using PUCHAR            = std::uint8_t*;
using PBYTE             = std::uint8_t*;
using LPCSTR            = const char*;
using HCRYPTPROV        = std::uintptr_t;
using BCRYPT_ALG_HANDLE = void*;
#undef ULONG_MAX
#ifdef WIN_REAL_LIMITS
#define ULONG_MAX 0xffffffffu
#define MAXDWORD  0xffffffffu
#else
#define ULONG_MAX 1000u
#define MAXDWORD  1000u
#endif
#ifndef FALSE
#define FALSE 0
#define TRUE 1
#endif
#define BCRYPT_USE_SYSTEM_PREFERRED_RNG 2u
#define BCRYPT_SUCCESS(s) ((NTSTATUS)(s) >= 0)
#define NT_SUCCESS(s) ((NTSTATUS)(s) >= 0)
#define PROV_RSA_FULL 1u
#define CRYPT_VERIFYCONTEXT 0xF0000000u
#define CRYPT_SILENT 0x40u
NTSTATUS BCryptGenRandom(BCRYPT_ALG_HANDLE, PUCHAR, ULONG, ULONG);
BOOL     CryptAcquireContextA(HCRYPTPROV*, LPCSTR, LPCSTR, DWORD, DWORD);
BOOL     CryptReleaseContext(HCRYPTPROV, DWORD);
BOOL     CryptGenRandom(HCRYPTPROV, DWORD, BYTE*);
#define CryptAcquireContext CryptAcquireContextA
