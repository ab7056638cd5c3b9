// The Windows generators with the real largest length (2^32-1): requests of
// several GB are only recorded, so nothing of that size is written.
#include "pbt.h"
#if __has_include(<gmlib/rng/os_rng/bcrypt_rng.h>) && __has_include(<gmlib/rng/os_rng/wincrypt_rng.h>)
#define WIN_REAL_LIMITS
#define os_rng os_rng_real // these are not the classes of C29_win.cpp
#define BCryptGenRandom BCryptGenRandomRecord
#define CryptAcquireContextA CryptAcquireContextRecord
#define CryptReleaseContext CryptReleaseContextRecord
#define CryptGenRandom CryptGenRandomRecord
#include "win/Windows.h"
#include <gmlib/rng/os_rng/bcrypt_rng.h>
#include <gmlib/rng/os_rng/wincrypt_rng.h>
#include <algorithm>
#include <memory>
#include <sys/mman.h>
using namespace pbt;
namespace {
std::vector<std::pair<u64, u64>> asked; // (offset, length)
u64                              base, size;
std::string                      misuse;
bool                             record(u8* p, u64 n)
{
    u64 o = (u64)p - base;
    if (n > size || o > size - n)
        misuse = strf("%llu bytes are asked for at %lld of a request of %llu bytes", (unsigned long long)n, (long long)o, (unsigned long long)size);
    if (asked.size() > 100000)
        misuse = "a request does not end";
    if (!misuse.empty())
        throw std::runtime_error("misuse");
    asked.push_back({o, n});
    return true;
}
} // namespace
NTSTATUS BCryptGenRandom(BCRYPT_ALG_HANDLE, PUCHAR p, ULONG n, ULONG) { return record(p, n) ? 0 : -1; }
BOOL     CryptAcquireContextA(HCRYPTPROV* h, LPCSTR, LPCSTR, DWORD, DWORD) { return *h = 16, TRUE; }
BOOL     CryptReleaseContext(HCRYPTPROV, DWORD) { return TRUE; }
BOOL     CryptGenRandom(HCRYPTPROV, DWORD n, BYTE* p) { return record(p, n); }
PROP(windows_huge, 300, 5000)
{
    static void* area = mmap(nullptr, 5ull << 32, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (area == MAP_FAILED)
    {
        c.label("no address space");
        return;
    }
    bool bc = s.coin();
    u64  k  = s.below(4);
    u64  len = s.coin() ? k * 0xffffffffull + s.below(40) : (k << 32) + s.below(1u << s.below(30));
    if (s.coin(1, 4) && len >= 20)
        len -= s.below(20);
    NOTE("%s, %llu bytes", bc ? "BcryptRng" : "WincryptRng", (unsigned long long)len);
    base = (u64)area, size = len, asked.clear(), misuse.clear();
    bool threw = false;
    try
    {
        std::unique_ptr<rng::Rng> g;
        if (bc)
            g = std::make_unique<rng::os_rng::BcryptRng>();
        else
            g = std::make_unique<rng::os_rng::WincryptRng>();
        g->gen(area, len);
    }
    catch (const std::exception&)
    {
        threw = true;
    }
    CHECK(misuse.empty(), "windows-misuse", "%s", misuse.c_str());
    CHECK(!threw, "windows-failure", "an exception although every call succeeds");
    std::sort(asked.begin(), asked.end());
    u64 end = 0;
    for (auto& a : asked)
    {
        CHECK(a.first <= end, "windows-unfilled", "bytes %llu to %llu of %llu are not filled", (unsigned long long)end, (unsigned long long)a.first, (unsigned long long)len);
        end = std::max(end, a.first + a.second);
    }
    CHECK(end == len, "windows-unfilled", "the bytes from %llu on of %llu are not filled", (unsigned long long)end, (unsigned long long)len);
    c.label(bc ? "BcryptRng" : "WincryptRng");
    c.nontrivial(len > 0);
}
#endif
