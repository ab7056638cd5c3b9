#include "blockcheck.h"
#include <gmlib/aes/aes.h>
#define RAW3(SUF, NS)                              \
    RAW_IMPL(A128##SUF, NS, Aes128CTX, aes128)     \
    RAW_IMPL(A192##SUF, NS, Aes192CTX, aes192)     \
    RAW_IMPL(A256##SUF, NS, Aes256CTX, aes256)
RAW3(L, aes::internal::lut)
#if defined(CPU_FLAG_AES) && defined(CPU_FLAG_SSE2)
RAW3(N, aes::internal::aesni)
#endif
static void run(pbt::Source& s, pbt::Ctx& c, int kind, int size, bool huge = false)
{
    std::unique_ptr<BlockImpl> im;
    if (kind == 0)
    {
        if (size == 0) im.reset(new ClassImpl<aes::AES128>);
        if (size == 1) im.reset(new ClassImpl<aes::AES192>);
        if (size == 2) im.reset(new ClassImpl<aes::AES256>);
    }
    if (kind == 1)
    {
        if (size == 0) im.reset(new A128L);
        if (size == 1) im.reset(new A192L);
        if (size == 2) im.reset(new A256L);
    }
#if defined(CPU_FLAG_AES) && defined(CPU_FLAG_SSE2)
    if (kind == 2)
    {
        if (size == 0) im.reset(new A128N);
        if (size == 1) im.reset(new A192N);
        if (size == 2) im.reset(new A256N);
    }
#endif
    huge ? block_huge(s, c, *im, 16 + 8 * size) : block_history(s, c, *im, 16 + 8 * size, ref::aes_cipher, false);
}
PROP(class128, 4000, 200000) { run(s, c, 0, 0); }
PROP(class192, 4000, 200000) { run(s, c, 0, 1); }
PROP(class256, 4000, 200000) { run(s, c, 0, 2); }
PROP(table128, 3000, 150000) { run(s, c, 1, 0); }
PROP(table192, 3000, 150000) { run(s, c, 1, 1); }
PROP(table256, 3000, 150000) { run(s, c, 1, 2); }
#if defined(CPU_FLAG_AES) && defined(CPU_FLAG_SSE2)
PROP(hw128, 4000, 200000) { run(s, c, 2, 0); }
PROP(hw192, 4000, 200000) { run(s, c, 2, 1); }
PROP(hw256, 4000, 200000) { run(s, c, 2, 2); }
#endif
PROP(byte_lanes, 512, 4096)
{
    int                        size = (int)s.below(3);
    std::unique_ptr<BlockImpl> im;
    if (size == 0) im.reset(new ClassImpl<aes::AES128>);
    if (size == 1) im.reset(new ClassImpl<aes::AES192>);
    if (size == 2) im.reset(new ClassImpl<aes::AES256>);
    pbt::Bytes  key = s.bytes(16 + 8 * size), base = s.rnd(16);
    bool        enc = s.coin();
    std::size_t pos = s.below(16);
    NOTE("AES-%d byte lane %zu key=%s base=%s", 128 + 64 * size, pos, pbt::hex(key).c_str(), pbt::hex(base).c_str());
    CHECK(aes::AES128::BLOCK_SIZE == 16 && aes::AES192::BLOCK_SIZE == 16 && aes::AES256::BLOCK_SIZE == 16 && aes::AES128::USER_KEY_LEN == 16 && aes::AES192::USER_KEY_LEN == 24 && aes::AES256::USER_KEY_LEN == 32, "sizes", "declared sizes");
    im->set_key(key.data(), enc);
    auto       ci = ref::aes_cipher(key);
    pbt::Bytes in, out(256 * 16), want(256 * 16);
    for (int v = 0; v < 256; v++)
    {
        base[pos] = (pbt::u8)v;
        in.insert(in.end(), base.begin(), base.end());
        (enc ? ci.enc : ci.dec)(&want[16 * v], base.data());
    }
    enc ? im->ebs(out.data(), in.data(), 256) : im->dbs(out.data(), in.data(), 256);
    CHECK_EQ_BYTES(out, want, "encrypt", "byte lane sweep");
    c.nontrivial();
}
#if defined(__OPTIMIZE__) && defined(NDEBUG) && !defined(PBT_LIBFUZZER)
PROP(huge_class, 3, 12) { run(s, c, 0, (int)s.below(3), true); }
PROP(huge_table, 1, 6) { run(s, c, 1, (int)s.below(3), true); }
#if defined(CPU_FLAG_AES) && defined(CPU_FLAG_SSE2)
PROP(huge_ni128, 1, 6) { run(s, c, 2, 0, true); }
PROP(huge_ni192, 1, 6) { run(s, c, 2, 1, true); }
PROP(huge_ni256, 1, 6) { run(s, c, 2, 2, true); }
#endif
#endif
