#include "blockcheck.h"
#include <gmlib/sm4/sm4.h>
RAW_IMPL(Common, sm4::internal::common, Sm4CTX, sm4)
#if defined(SUPPORT_SM4_LANG18)
RAW_IMPL(Lang, sm4::internal::lang18, Sm4CTX, sm4)
#endif
PROP(class_history, 12000, 600000)
{
    ClassImpl<sm4::SM4> im;
    block_history(s, c, im, 16, ref::sm4_cipher, true);
}
PROP(common_history, 6000, 300000)
{
    Common im;
    block_history(s, c, im, 16, ref::sm4_cipher, true);
}
#if defined(SUPPORT_SM4_LANG18)
PROP(batch_history, 12000, 600000)
{
    Lang im;
    block_history(s, c, im, 16, ref::sm4_cipher, true);
}
#endif
// every byte position meets every value: a full sweep of one byte lane, the
// same block replicated in every batch position
PROP(byte_lanes, 512, 4096)
{
    ClassImpl<sm4::SM4> im;
    pbt::Bytes          key = s.bytes(16), base = s.rnd(16);
    bool                enc = s.coin();
    std::size_t         pos = s.below(16);
    NOTE("byte lane %zu key=%s base=%s", pos, pbt::hex(key).c_str(), pbt::hex(base).c_str());
    CHECK(sm4::SM4::BLOCK_SIZE == 16 && sm4::SM4::USER_KEY_LEN == 16 && sm4::SM4::PARALLEL_NUM >= 1, "sizes", "declared sizes");
    im.set_key(key.data(), enc);
    auto       ci = ref::sm4_cipher(key);
    pbt::Bytes in, out(256 * 16), want(256 * 16);
    for (int v = 0; v < 256; v++)
    {
        base[pos] = (pbt::u8)v;
        in.insert(in.end(), base.begin(), base.end());
        (enc ? ci.enc : ci.dec)(&want[16 * v], base.data());
    }
    enc ? im.ebs(out.data(), in.data(), 256) : im.dbs(out.data(), in.data(), 256);
    CHECK_EQ_BYTES(out, want, "encrypt", "byte lane sweep");
    c.nontrivial();
}
#if defined(__OPTIMIZE__) && defined(NDEBUG) && !defined(PBT_LIBFUZZER)
PROP(huge_class, 1, 6)
{
    ClassImpl<sm4::SM4> im;
    block_huge(s, c, im, 16);
}
PROP(huge_common, 0, 2)
{
    Common im;
    block_huge(s, c, im, 16);
}
#if defined(SUPPORT_SM4_LANG18)
PROP(huge_lang18, 1, 4)
{
    Lang im;
    block_huge(s, c, im, 16);
}
#endif
#endif
