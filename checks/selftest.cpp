// Standard vectors for the reference models (nothing of the library is used).
#include "pbt.h"
#include "ref/ref_sym.h"
using namespace pbt;
static Bytes unhex(const char* s)
{
    Bytes b;
    for (; *s && s[1]; s += 2)
    {
        auto v = [](char ch) { return ch <= '9' ? ch - '0' : (ch | 32) - 'a' + 10; };
        b.push_back((u8)(v(s[0]) * 16 + v(s[1])));
    }
    return b;
}
static Bytes str(const char* s) { return Bytes(s, s + strlen(s)); }
PROP(sm4, 1, 1)
{
    Bytes k = unhex("0123456789abcdeffedcba9876543210"), x = k, o(16);
    ref::sm4_block(k.data(), true, o.data(), x.data());
    CHECK_EQ_BYTES(o, unhex("681edf34d206965e86b3e94f536e4246"), "sm4", "vector 1");
    ref::sm4_block(k.data(), false, o.data(), o.data());
    CHECK_EQ_BYTES(o, x, "sm4", "dec");
    auto ci = ref::sm4_cipher(k);
    for (int i = 0; i < 1000000; i++)
        ci.enc(x.data(), x.data());
    CHECK_EQ_BYTES(x, unhex("595298c7c6fd271f0402f804c33d3f66"), "sm4", "vector 2 (10^6 iterations)");
}
PROP(aes, 1, 1)
{
    Bytes p = unhex("00112233445566778899aabbccddeeff"), o(16), k;
    const char* want[3] = {"69c4e0d86a7b0430d8cdb78070b4c55a", "dda97ca4864cdfe06eaf70a0ec0d7191",
                           "8ea2b7ca516745bfeafc49904b496089"};
    for (int n = 0; n < 3; n++)
    {
        k.clear();
        for (int i = 0; i < 16 + 8 * n; i++)
            k.push_back((u8)i);
        ref::aes_block(k.data(), k.size(), true, o.data(), p.data());
        CHECK_EQ_BYTES(o, unhex(want[n]), "aes", "FIPS 197");
        ref::aes_block(k.data(), k.size(), false, o.data(), o.data());
        CHECK_EQ_BYTES(o, p, "aes", "dec");
    }
}
PROP(sm3, 1, 1)
{
    CHECK_EQ_BYTES(ref::sm3(str("abc")), unhex("66c7f0f462eeedd9d1f2d46bdc10e4e24167c4875cf2f7a2297da02b8f4ba8e0"), "sm3", "abc");
    Bytes m;
    for (int i = 0; i < 16; i++)
        for (char ch : std::string("abcd"))
            m.push_back((u8)ch);
    CHECK_EQ_BYTES(ref::sm3(m), unhex("debe9ff92275b8a138604889c18e5a4d6fdb70e5387e5765293dcba39c0c5732"), "sm3", "abcd x16");
}
PROP(gcm, 1, 1)
{
    // SP 800-38D test cases 4 (12-byte IV) and 6 (60-byte IV), AES-128
    auto ci  = ref::aes_cipher(unhex("feffe9928665731c6d6a8f9467308308"));
    Bytes pt = unhex("d9313225f88406e5a55909c5aff5269a86a7a9531534f7da2e4c303d8a318a721c3c0c95956809532fcf0e2449a6b525b16aedf5aa0de657ba637b39");
    Bytes aad = unhex("feedfacedeadbeeffeedfacedeadbeefabaddad2");
    auto g = ref::gcm_encrypt(ci, unhex("cafebabefacedbaddecaf888"), aad, pt);
    CHECK_EQ_BYTES(g.ct, unhex("42831ec2217774244b7221b784d0d49ce3aa212f2c02a4e035c17e2329aca12e21d514b25466931c7d8f6a5aac84aa051ba30b396a0aac973d58e091"), "gcm", "ct4");
    CHECK_EQ_BYTES(g.tag, unhex("5bc94fbc3221a5db94fae95ae7121a47"), "gcm", "tag4");
    g = ref::gcm_encrypt(ci, unhex("9313225df88406e555909c5aff5269aa6a7a9538534f7da1e4c303d2a318a728c3c0c95156809539fcf0e2429a6b525416aedbf5a0de6a57a637b39b"), aad, pt);
    CHECK_EQ_BYTES(g.ct, unhex("8ce24998625615b603a033aca13fb894be9112a5c3a211a8ba262a3cca7e2ca701e4a9a4fba43c90ccdcb281d48c7c6fd62875d2aca417034c34aee5"), "gcm", "ct6");
    CHECK_EQ_BYTES(g.tag, unhex("619cc5aefffe0bfa462af43c1699d050"), "gcm", "tag6");
}
PROP(modes, 1, 1)
{
    // SP 800-38A, AES-128
    auto  ci = ref::aes_cipher(unhex("2b7e151628aed2a6abf7158809cf4f3c"));
    Bytes iv = unhex("000102030405060708090a0b0c0d0e0f"), ctr = unhex("f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff");
    Bytes pt = unhex("6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e51");
    auto  t  = [&](ref::Mode m, const Bytes& v, const char* want) {
        Bytes ct = ref::mode_run(m, ci, true, v, pt);
        CHECK_EQ_BYTES(ct, unhex(want), "modes", "SP 800-38A");
        CHECK_EQ_BYTES(ref::mode_run(m, ci, false, v, ct), pt, "modes", "decryption");
    };
    t(ref::ECB, iv, "3ad77bb40d7a3660a89ecaf32466ef97f5d3d58503b9699de785895a96fdbaaf");
    t(ref::CBC, iv, "7649abac8119b246cee98e9b12e9197d5086cb9b507219ee95db113a917678b2");
    t(ref::CFB, iv, "3b3fd92eb72dad20333449f8e83cfb4ac8a64537a0b3a93fcde3cdad9f1ce58b");
    t(ref::OFB, iv, "3b3fd92eb72dad20333449f8e83cfb4a7789508d16918f03f53c52dac54ed825");
    t(ref::CTR, ctr, "874d6191b620e3261bef6864990db6ce9806f66b7970fdff8617187bb9fffdff");
}
