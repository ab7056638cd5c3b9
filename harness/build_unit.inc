// One source file of the program C32 builds: the generated file includes
// headers of the library in some order, defines UNIT and includes this.  Every
// unit uses every class and writes what it computed; the reference values are
// the standards' and the output of the build without options.
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <stdexcept>
#include <gmlib/aes/aes_mode.h>
#include <gmlib/asn1/asn1.h>
#include <gmlib/asn1/asn1_dump.h>
#include <gmlib/ghash/ghash.h>
#include <gmlib/hash_lib/hmac.h>
#include <gmlib/memory_utils/endian.h>
#include <gmlib/memory_utils/memdump.h>
#include <gmlib/memory_utils/memxor.h>
#include <gmlib/rng/rng.h>
#include <gmlib/sm2/internal/sm2_asn1.h>
#include <gmlib/sm2/sm2.h>
#include <gmlib/sm3/sm3.h>
#include <gmlib/sm4/sm4_mode.h>
#include <gmlib/sm9/sm9.h>
namespace {
using B = std::vector<std::uint8_t>;
struct Count : rng::Rng
{
    std::uint32_t n;
    explicit Count(std::uint32_t s) : n(s) {}
    const char* name() const noexcept override { return "count"; }
    void        gen(void* o, std::size_t l) override
    {
        for (std::size_t i = 0; i < l; i++)
            n = n * 1664525u + 1013904223u, ((std::uint8_t*)o)[i] = (std::uint8_t)(n >> 24);
    }
};
std::string out_;
void put(const char* what, const std::uint8_t* p, std::size_t n)
{
    char t[8];
    out_ += what;
    out_ += " ";
    for (std::size_t i = 0; i < n; i++)
        std::snprintf(t, sizeof t, "%02x", p[i]), out_ += t;
    out_ += "\n";
}
void put(const char* what, const B& b) { put(what, b.data(), b.size()); }
B    seq(std::size_t n, unsigned a, unsigned d)
{
    B b(n);
    for (std::size_t i = 0; i < n; i++)
        b[i] = (std::uint8_t)(a + d * i + (i >> 3) * 7);
    return b;
}
template <class E, class D>
void mode(const char* name, E& e, D& d, std::size_t n)
{
    B           p = seq(n, 5, 3), c(n + 64), q(n + 64);
    std::size_t l = 0, m = 0;
    e.update(c.data(), &l, p.data(), n / 3);
    e.do_final(c.data() + l, &m, p.data() + n / 3, n - n / 3);
    c.resize(l + m);
    put(name, c);
    d.update(q.data(), &l, c.data(), n / 2);
    d.do_final(q.data() + l, &m, c.data() + n / 2, n - n / 2);
    q.resize(l + m);
    put(q == p ? "inverse" : "NOT THE INVERSE", q.data(), 1);
}
template <class C>
void cipher(const char* name)
{
    B    k = seq(C::USER_KEY_LEN, 1, 17), iv = seq(16, 240, 1);
    B    p = seq(16 * 37, 9, 5), c(p.size()), q(p.size());
    C    e(k.data(), C::ENCRYPTION), d(k.data(), C::DECRYPTION);
    e.encrypt_blocks(c.data(), p.data(), 37);
    d.decrypt_blocks(q.data(), c.data(), 37);
    put(name, c);
    put(q == p ? "inverse" : "NOT THE INVERSE", q.data(), 1);
    using namespace block_cipher_mode;
    { EcbEncryptor<C> a(k.data()); EcbDecryptor<C> b(k.data()); mode("ecb", a, b, 320); }
    { CbcEncryptor<C> a(k.data(), iv.data()); CbcDecryptor<C> b(k.data(), iv.data()); mode("cbc", a, b, 336); }
    { CfbEncryptor<C> a(k.data(), iv.data()); CfbDecryptor<C> b(k.data(), iv.data()); mode("cfb", a, b, 333); }
    { OfbEncryptor<C> a(k.data(), iv.data()); OfbDecryptor<C> b(k.data(), iv.data()); mode("ofb", a, b, 333); }
    { CtrEncryptor<C> a(k.data(), iv.data()); CtrDecryptor<C> b(k.data(), iv.data()); mode("ctr", a, b, 333); }
    {
        GcmEncryptor<C> a(k.data(), iv.data(), 12, p.data(), 21);
        GcmDecryptor<C> b(k.data(), iv.data(), 12, p.data(), 21);
        B               ct(333 + 32), pt(333 + 32), tag(16);
        std::size_t     l = 0, m = 0;
        a.update(ct.data(), &l, p.data(), 100);
        a.do_final(ct.data() + l, &m, p.data() + 100, 233);
        a.get_tag(tag.data());
        ct.resize(l + m);
        put("gcm", ct), put("tag", tag);
        b.set_tag(tag.data());
        b.update(pt.data(), &l, ct.data(), 50);
        b.do_final(pt.data() + l, &m, ct.data() + 50, 283);
        pt.resize(l + m);
        put(B(p.begin(), p.begin() + 333) == pt ? "inverse" : "NOT THE INVERSE", p.data(), 1);
    }
}
} // namespace
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
std::string CAT(run_unit_, UNIT)()
{
    out_.clear();
    cipher<sm4::SM4>("sm4");
    cipher<aes::AES128>("aes128");
    cipher<aes::AES192>("aes192");
    cipher<aes::AES256>("aes256");
    std::uint8_t d[64];
    B            msg = seq(300, 3, 11);
    sm3::SM3     h;
    h.update((const std::uint8_t*)"abc", 3);
    h.do_final(d);
    put("sm3", d, 32);
    h.reset();
    h.update(msg.data(), 200);
    h.do_final(d, msg.data() + 200, 100);
    put("sm3", d, 32);
    hash_lib::HMac<sm3::SM3> hm(msg.data(), 99);
    hm.update(msg.data(), 201);
    hm.do_final(d);
    put("hmac", d, 32);
    ghash::GHash g(msg.data());
    g.update(msg.data() + 16, 160);
    g.do_final(d);
    put("ghash", d, 16);
    B x(300);
    memory_utils::memxor_n(x.data(), msg.data(), msg.data() + 7, 290);
    put("xor", x);
    memory_utils::memxor<71>(x.data(), msg.data(), msg.data() + 9);
    put("xor", x);
    memory_utils::store64_be(d, memory_utils::load64_le(msg.data()));
    memory_utils::store32_le(d + 8, memory_utils::load32_be(msg.data() + 1));
    put("endian", d, 12);
    const std::uint8_t id[] = {'A', 'L', 'I', 'C', 'E'};
    {
        Count                        r(1);
        sm2::SM2PrivateKey<sm3::SM3> k;
        sm2::SM2PublicKey<sm3::SM3>  pub;
        std::uint8_t                 sig[64], px[32], py[32], der[200];
        std::size_t                  n = 0, m = 0;
        k.gen_priv(r);
        pub = k.fetch_pub();
        pub.get_pub(px, py);
        put("sm2 key", px, 32), put("sm2 key", py, 32);
        k.sign(sig, msg.data(), 100, r, id, sizeof id);
        put("sm2 signature", sig, 64);
        put(pub.verify(sig, msg.data(), 100, id, sizeof id) ? "verified" : "NOT VERIFIED", sig, 1);
        sm2::internal::ASN1_SM2Signature a{}, b{};
        a.R = sig, a.S = sig + 32;
        sm2::internal::sm2_signature_asn1_encode(der, &n, &a);
        put("sm2 signature DER", der, n);
        put(sm2::internal::sm2_signature_asn1_decode(&b, &m, der, n) == 0 && m == n && !std::memcmp(b.R, sig, 32) && !std::memcmp(b.S, sig + 32, 32) ? "inverse" : "NOT THE INVERSE", d, 1);
        sig[40] ^= 4;
        put(pub.verify(sig, msg.data(), 100, id, sizeof id) ? "ACCEPTED" : "rejected", sig, 1);
        for (int pc = 0; pc < 3; pc++)
        {
            B ct(300), pt(300);
            pub.encrypt(ct.data(), &n, msg.data(), 70, r, (sm2::SM2EcPC)pc);
            put("sm2 ciphertext", ct.data(), n);
            k.decrypt(pt.data(), &m, ct.data(), n);
            put(m == 70 && !std::memcmp(pt.data(), msg.data(), 70) ? "inverse" : "NOT THE INVERSE", d, 1);
        }
    }
    {
        Count                                  r(2);
        sm9::SM9SignMasterPrivateKey<sm3::SM3> mk;
        mk.gen_priv(r);
        mk.get_priv(d);
        put("sm9 key", d, 32);
        sm9::SM9SignPrivateKey<sm3::SM3> uk = mk.gen_SignPrivateKey(id, sizeof id, r);
        for (int pc = 0; pc < 3; pc++)
        {
            std::uint8_t sig[sm9::SM9SignPrivateKey<sm3::SM3>::MAX_SIG_SIZE];
            std::size_t  n = 0;
            uk.sign(sig, &n, msg.data(), 90, r, (sm9::SM9EcPC)pc);
            put("sm9 signature", sig, n);
            put(uk.fetch_pub().verify(sig, n, msg.data(), 90, id, sizeof id) ? "verified" : "NOT VERIFIED", d, 1);
            sig[3] ^= 1;
            put(uk.fetch_pub().verify(sig, n, msg.data(), 90, id, sizeof id) ? "ACCEPTED" : "rejected", d, 1);
        }
    }
    return out_;
}
