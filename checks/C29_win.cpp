// The Windows generators over a stand-in API (harness/win) with scripted
// failures and a small largest request.
#include "pbt.h"
#if __has_include(<gmlib/rng/os_rng/bcrypt_rng.h>) && __has_include(<gmlib/rng/os_rng/wincrypt_rng.h>)
#include "win/Windows.h"
#include <gmlib/rng/os_rng/bcrypt_rng.h>
#include <gmlib/rng/os_rng/wincrypt_rng.h>
#include <memory>
#include <set>
using namespace pbt;
namespace {
std::vector<u8>      fails;   // the i-th call fails
std::size_t          calls;
bool                 failed;  // some call failed
Bytes                given;   // delivered, in order
u64                  st;
std::set<HCRYPTPROV> open_;
HCRYPTPROV           next_;
std::string          misuse;
u8*                  base;    // the buffer of the current request
std::size_t          size;
std::size_t          start;   // calls made before it
bool deliver(u8* p, std::size_t n)
{
    bool bad = calls < fails.size() && fails[calls];
    calls++;
    if (n && (p < base || p > base + size || n > (std::size_t)(base + size - p)))
        misuse = "a call asks for bytes outside the buffer";
    if (calls > start + 5000)
        misuse = "a request does not end";
    if (!misuse.empty())
        throw std::runtime_error("misuse");
    if (bad)
    {
        failed = true;
        if (n)
            p[0] ^= 0xff; // a failed call may leave anything
        return false;
    }
    for (std::size_t i = 0; i < n; i++)
    {
        p[i] = (u8)splitmix(st);
        given.push_back(p[i]);
    }
    return true;
}
} // namespace
NTSTATUS BCryptGenRandom(BCRYPT_ALG_HANDLE h, PUCHAR p, ULONG n, ULONG flags)
{
    if (h != nullptr || flags != BCRYPT_USE_SYSTEM_PREFERRED_RNG)
        misuse = "BCryptGenRandom without the system-preferred generator and without an algorithm";
    static const NTSTATUS bad[] = {(NTSTATUS)0xC0000008, (NTSTATUS)0xC000000D, (NTSTATUS)0x80000005, -1};
    static const NTSTATUS ok[]  = {0, 0, 0, 0x40000000};
    return deliver(p, n) ? ok[calls % 4] : bad[calls % 4];
}
BOOL CryptAcquireContextA(HCRYPTPROV* h, LPCSTR, LPCSTR, DWORD type, DWORD)
{
    bool bad = calls < fails.size() && fails[calls];
    calls++;
    if (bad)
    {
        failed = true;
        return FALSE;
    }
    *h = ++next_ * 16;
    open_.insert(*h);
    return TRUE;
}
BOOL CryptReleaseContext(HCRYPTPROV h, DWORD flags)
{
    if (!open_.erase(h))
        misuse = "a handle that is not open is released";
    return TRUE;
}
BOOL CryptGenRandom(HCRYPTPROV h, DWORD n, BYTE* p)
{
    if (!open_.count(h))
        misuse = "bytes asked from a handle that is not open";
    return deliver(p, n) ? (calls % 3 ? 1 : 7) : 0; // any nonzero value is TRUE
}
PROP(windows_generators, 6000, 200000)
{
    bool bc = s.coin();
    st = s.word(), calls = 0, failed = false, given.clear(), open_.clear(), misuse.clear(), fails.clear();
    if (s.coin(1, 3))
        for (std::size_t i = 0, n = s.below(7); i < n; i++)
            fails.push_back((u8)s.coin(1, 3));
    NOTE("%s, failing calls %s", bc ? "BcryptRng" : "WincryptRng", hex(fails).c_str());
    {
        std::unique_ptr<rng::Rng> g;
        bool                      threw = false;
        try
        {
            if (bc)
                g = std::make_unique<rng::os_rng::BcryptRng>();
            else
                g = std::make_unique<rng::os_rng::WincryptRng>();
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        CHECK(threw == failed, "windows-constructor", "construction %s although acquiring the context %s", threw ? "throws" : "succeeds", failed ? "failed" : "succeeded");
        for (std::size_t k = 0, n = 1 + s.below(3); g && k < n; k++)
        {
            std::size_t len = s.coin(1, 3) ? s.below(4) * 1000 + s.below(3) : s.below(3200);
            NOTE("%zu bytes", len);
            Guarded b(len, s.below(20));
            given.clear(), failed = threw = false, base = b.data(), size = len, start = calls;
            try
            {
                g->gen(b.data(), len);
            }
            catch (const std::exception&)
            {
                threw = true;
            }
            CHECK(misuse.empty(), "windows-misuse", "%s", misuse.c_str());
            CHECK(b.intact(), "out-of-bounds", "wrote outside the requested %zu bytes", len);
            CHECK(threw == failed, "windows-failure", "a failed call is %s", threw ? "reported without having happened" : "not reported");
            if (!threw)
            {
                CHECK(given.size() == len, "windows-unfilled", "%zu bytes asked for %zu", given.size(), len);
                CHECK_EQ_BYTES(b.bytes(), given, "windows-bytes", "delivered bytes");
            }
            if (len > 1000)
                c.label("several calls");
            if (threw)
                c.label("reported failure");
            c.nontrivial(len > 0);
        }
    }
    CHECK(misuse.empty() && open_.empty(), "windows-misuse", "%s", misuse.empty() ? "a handle is left open" : misuse.c_str());
    c.label(bc ? "BcryptRng" : "WincryptRng");
}
#endif
