#include "asn1h.h"
#include "sm2h.h"
#include <gmlib/sm2/internal/sm2_asn1.h>
using namespace pbt;
using namespace sm2h;
using namespace sm2::internal;
using asn1h::der;
using asn1h::der_uint;
using asn1h::parse;
using asn1h::Tlv;
// a 256-bit value, often with leading zero bytes or a set high bit
static Bytes gen_u256(Source& s)
{
    Bytes v = s.coin(1, 4) ? gen_scalar(s).bytes(32) : s.rnd(32);
    if (s.coin(1, 3))
        for (std::size_t i = 0, k = 1 + s.below(4) * s.below(9); i < k && i < 32; i++)
            v[i] = 0;
    if (s.coin(1, 4))
        v[s.below(32)] |= 0x80;
    return v;
}
static Bytes pad32(const Bytes& v) { return Bytes(32 - v.size(), 0) + v; }
// reads one unsigned INTEGER of at most 256 bits: 1 / 0 / -1 (long length form)
static int ref_uint(const Bytes& b, std::size_t& at, Bytes* v)
{
    Tlv t;
    if (!parse(b.data() + at, b.size() - at, &t) || t.id != 2 || t.len == 0)
        return 0;
    const u8* p = b.data() + at + t.off;
    if (p[0] & 0x80 || (t.len > 1 && p[0] == 0 && p[1] < 0x80))
        return 0;
    Bytes x(p, p + t.len);
    if (x.size() > 1 && x[0] == 0)
        x.erase(x.begin());
    if (x.size() > 32)
        return 0;
    *v = pad32(x);
    at += t.total;
    return t.minimal ? 1 : -1;
}
static int ref_octets(const Bytes& b, std::size_t& at, Bytes* v)
{
    Tlv t;
    if (!parse(b.data() + at, b.size() - at, &t) || (t.id != 4 && t.id != 0x24))
        return 0;
    *v = Bytes(b.data() + at + t.off, b.data() + at + t.off + t.len);
    at += t.total;
    return t.minimal && t.id == 4 ? 1 : -1;
}
// a SEQUENCE at the start of b: its content
static int ref_seq(const Bytes& b, Bytes* content, std::size_t* total)
{
    Tlv t;
    if (!parse(b.data(), b.size(), &t) || t.id != 0x30)
        return 0;
    *content = Bytes(b.begin() + (long)t.off, b.begin() + (long)t.total);
    *total   = t.total;
    return t.minimal ? 1 : -1;
}
static int all(int a, int b) { return a == 0 || b == 0 ? 0 : a < 0 || b < 0 ? -1 : 1; }
static Bytes mangle(Source& s, const Bytes& b)
{
    switch (s.below(4))
    {
    case 0: return b;
    case 1: return b + s.bytes(1 + s.below(5));
    default: return asn1h::damage(s, b);
    }
}
#define VERDICT(want, rc, what)                                                                                                                                      \
    if (want >= 0)                                                                                                                                                   \
    CHECK((rc == 0) == (want == 1), want ? "rejects-valid" : "accepts-invalid", "%s decoding of %s gives %d, expected %s", what, hex(in.bytes(), 200).c_str(), rc, want ? "success" : "an error")
PROP(private_key, 30000, 400000)
{
    Bytes              v = gen_u256(s), want = der_uint(v);
    Exact              ev(v);
    ASN1_SM2PrivateKey k;
    k.value = ev.data();
    NOTE("private key %s", hex(v).c_str());
    std::size_t ann = sm2_private_key_asn1_encode_outl(&k), outl = 0;
    CHECK(ann == want.size() && ann <= SM2_PRIVATE_KEY_ASN1_ENCODE_MAX_OUTL(), "announced-length", "announced %zu, DER has %zu", ann, want.size());
    Guarded out(ann);
    sm2_private_key_asn1_encode_outl(out.data(), &outl, &k);
    CHECK(out.intact() && outl == ann, "length", "wrote %zu bytes, announced %zu", outl, ann);
    CHECK_EQ_BYTES(out.bytes(), want, "encoding", "private key DER");
    Bytes              b = mangle(s, want), got;
    Exact              in(b);
    ASN1_SM2PrivateKey d;
    std::size_t        n = 0, at = 0;
    int                exp = ref_uint(b, at, &got), rc = sm2_private_key_asn1_decode(&d, &n, in.data(), b.size());
    VERDICT(exp, rc, "private key");
    if (rc == 0)
    {
        CHECK(n == at, "consumed", "consumed %zu want %zu", n, at);
        CHECK_EQ_BYTES(Bytes(d.value, d.value + 32), got, "value", "decoded private key");
    }
    c.label(rc == 0 ? "decoded" : "error");
    c.label(v[0] == 0 ? "leading zero" : v[0] & 0x80 ? "high bit" : "plain");
    c.nontrivial();
}
PROP(public_key, 20000, 250000)
{
    Bytes v = s.coin() ? Bytes{4} + s.rnd(64) : s.rnd(65), want = der(3, Bytes{0} + v);
    Exact ev(v);
    ASN1_SM2PublicKey k;
    k.value = ev.data();
    NOTE("public key %s", hex(v).c_str());
    std::size_t ann = sm2_public_key_asn1_encode_outl(&k), outl = 0;
    CHECK(ann == want.size() && ann <= SM2_PUBLIC_KEY_ASN1_ENCODE_MAX_OUTL(), "announced-length", "announced %zu, DER has %zu", ann, want.size());
    Guarded out(ann);
    sm2_public_key_asn1_encode(out.data(), &outl, &k);
    CHECK(out.intact() && outl == ann, "length", "wrote %zu bytes, announced %zu", outl, ann);
    CHECK_EQ_BYTES(out.bytes(), want, "encoding", "public key DER");
    Bytes b;
    if (s.coin(1, 3))
    {
        // bit strings of other lengths and paddings
        std::size_t l = s.coin() ? 64 + s.below(4) : s.below(140);
        Bytes       x = s.rnd(l);
        u8          pad = (u8)(s.coin() ? s.below(9) : 0);
        b = der(3, Bytes{pad} + x);
    }
    else
        b = mangle(s, want);
    Exact             in(b);
    ASN1_SM2PublicKey d;
    std::size_t       n = 0;
    Tlv               t;
    int               exp = 0, rc = sm2_public_key_asn1_decode(&d, &n, in.data(), b.size());
    if (parse(b.data(), b.size(), &t) && t.id == 0x23)
        exp = -1;
    else if (parse(b.data(), b.size(), &t) && t.id == 3 && t.len == 66 && b[t.off] == 0)
        exp = t.minimal ? 1 : -1;
    if (exp == 1 && b[t.off + 1] != 4)
        exp = -1; // whether the first byte of the point is looked at is open
    VERDICT(exp, rc, "public key");
    if (rc == 0)
    {
        CHECK(n == t.total, "consumed", "consumed %zu want %zu", n, t.total);
        CHECK(d.value >= in.data() && d.value + 65 <= in.data() + b.size(), "outside", "the 65 value bytes lie outside the input");
        if (t.id == 3)
            CHECK_EQ_BYTES(Bytes(d.value, d.value + 65), Bytes(b.begin() + (long)t.off + 1, b.begin() + (long)t.off + 66), "value", "decoded public key");
    }
    c.label(rc == 0 ? "decoded" : "error");
    c.nontrivial();
}
PROP(signature, 45000, 500000)
{
    Bytes             r = gen_u256(s), sv = gen_u256(s), want = der(0x30, der_uint(r) + der_uint(sv));
    Exact             er(r), es(sv);
    ASN1_SM2Signature g;
    g.R = er.data(), g.S = es.data();
    NOTE("r=%s s=%s", hex(r).c_str(), hex(sv).c_str());
    std::size_t ann = sm2_signature_asn1_encode_outl(&g), outl = 0;
    CHECK(ann == want.size() && ann <= SM2_SIGNATURE_ASN1_ENCODE_MAX_OUTL(), "announced-length", "announced %zu, DER has %zu", ann, want.size());
    Guarded out(ann);
    sm2_signature_asn1_encode(out.data(), &outl, &g);
    CHECK(out.intact() && outl == ann, "length", "wrote %zu bytes, announced %zu", outl, ann);
    CHECK_EQ_BYTES(out.bytes(), want, "encoding", "signature DER");
    Bytes b;
    if (s.coin(1, 3))
    {
        // right shape, wrong details: extra, missing, negative or long elements
        Bytes body;
        switch (s.below(5))
        {
        case 0: body = der_uint(r) + der_uint(sv) + (s.coin() ? der_uint(sv) : s.bytes(1 + s.below(3))); break;
        case 1: body = der_uint(r); break;
        case 2: body = der(2, r) + der(2, sv); break;
        case 3: body = der_uint(Bytes{(u8)(1 + s.below(255))} + r) + der_uint(sv); break;
        case 4: body = der((u8)(s.byte() & 0xdf & ~1u), r) + der_uint(sv); break;
        }
        b = der(0x30, body);
    }
    else
        b = mangle(s, want);
    Exact             in(b);
    ASN1_SM2Signature d;
    std::size_t       n = 0, total = 0, at = 0;
    Bytes             body, gr, gs;
    int               exp = ref_seq(b, &body, &total);
    if (exp)
        exp = all(exp, ref_uint(body, at, &gr));
    if (exp)
        exp = all(exp, ref_uint(body, at, &gs));
    if (exp && at != body.size())
        exp = 0;
    int rc = sm2_signature_asn1_decode(&d, &n, in.data(), b.size());
    VERDICT(exp, rc, "signature");
    if (rc == 0)
    {
        CHECK(n == total, "consumed", "consumed %zu want %zu", n, total);
        CHECK_EQ_BYTES(Bytes(d.R, d.R + 32) + Bytes(d.S, d.S + 32), gr + gs, "value", "decoded signature");
    }
    c.label(rc == 0 ? "decoded" : "error");
    c.label(r[0] == 0 || sv[0] == 0 ? "leading zero" : "no leading zero");
    c.nontrivial();
}
PROP(ciphertext, 30000, 400000)
{
    Bytes x = gen_u256(s), y = gen_u256(s), h = s.coin(3, 4) ? s.rnd(32) : s.bytes(s.below(70)), m = s.coin(1, 6) ? s.rnd(s.below(600)) : s.bytes(s.below(40));
    if (s.coin(1, 12))
    {
        // contents, or the whole, around a length that needs another octet
        static const std::size_t edge[] = {127, 128, 255, 256, 65535, 65536};
        std::size_t              e = edge[s.below(s.coin(1, 3) ? 6 : 4)], inner = der_uint(x).size() + der_uint(y).size() + der(4, h).size();
        std::size_t              d = s.coin() ? 0 : inner + 2 + (e > 127) + (e > 255);
        e += s.below(7);
        m = s.rnd(e > d + 3 ? e - d - 3 : 0);
        if (s.coin(1, 6))
            std::swap(h, m);
        c.label("length boundary");
    }
    Bytes want = der(0x30, der_uint(x) + der_uint(y) + der(4, h) + der(4, m));
    Exact ex(x), ey(y), eh(h), em(m);
    ASN1_SM2Cipher k;
    k.XCoordinate = ex.data(), k.YCoordinate = ey.data();
    k.HASH.value = eh.data(), k.HASH.length = h.size();
    k.CipherText.value = em.data(), k.CipherText.length = m.size();
    NOTE("x=%s y=%s hash[%zu] c2[%zu]", hex(x).c_str(), hex(y).c_str(), h.size(), m.size());
    std::size_t ann = sm2_cipher_asn1_encode_outl(&k), outl = 0;
    CHECK(ann == want.size() && ann <= sm2_cipher_asn1_encode_max_outl(h.size(), m.size()), "announced-length", "announced %zu, DER has %zu", ann, want.size());
    Guarded out(ann);
    sm2_cipher_asn1_encode(out.data(), &outl, &k);
    CHECK(out.intact() && outl == ann, "length", "wrote %zu bytes, announced %zu", outl, ann);
    CHECK_EQ_BYTES(out.bytes(), want, "encoding", "ciphertext DER");
    Bytes b;
    if (s.coin(1, 4))
        b = der(0x30, der_uint(x) + der_uint(y) + der(4, h) + (s.coin() ? der(4, m) + s.bytes(1 + s.below(4)) : s.coin() ? Bytes() : der((u8)(s.byte() & 0xde), m)));
    else
        b = mangle(s, want);
    Exact          in(b);
    ASN1_SM2Cipher d;
    std::size_t    n = 0, total = 0, at = 0;
    Bytes          body, gx, gy, gh, gm;
    int            exp = ref_seq(b, &body, &total);
    if (exp)
        exp = all(exp, ref_uint(body, at, &gx));
    if (exp)
        exp = all(exp, ref_uint(body, at, &gy));
    if (exp)
        exp = all(exp, ref_octets(body, at, &gh));
    if (exp)
        exp = all(exp, ref_octets(body, at, &gm));
    if (exp && at != body.size())
        exp = 0;
    int rc = sm2_cipher_asn1_decode(&d, &n, in.data(), b.size());
    VERDICT(exp, rc, "ciphertext");
    if (rc == 0)
    {
        CHECK(n == total, "consumed", "consumed %zu want %zu", n, total);
        CHECK(d.HASH.value >= in.data() && d.HASH.value + d.HASH.length <= in.data() + total && d.CipherText.value >= in.data() && d.CipherText.value + d.CipherText.length <= in.data() + total, "outside", "values lie outside the input");
        CHECK_EQ_BYTES(Bytes(d.XCoordinate, d.XCoordinate + 32) + Bytes(d.YCoordinate, d.YCoordinate + 32), gx + gy, "value", "decoded coordinates");
        CHECK_EQ_BYTES(Bytes(d.HASH.value, d.HASH.value + d.HASH.length), gh, "value", "decoded hash");
        CHECK_EQ_BYTES(Bytes(d.CipherText.value, d.CipherText.value + d.CipherText.length), gm, "value", "decoded ciphertext");
    }
    c.label(rc == 0 ? "decoded" : "error");
    c.nontrivial();
}
// a real signature makes the trip: signed, encoded, decoded, verified
PROP(signed_trip, 250, 10000)
{
    Z                            dk = gen_priv(s);
    sm2::SM2PrivateKey<sm3::SM3> key(dk.bytes(32).data());
    Bytes                        sig(64), msg = s.bytes(s.below(30)), id(16, 'x'), back(64);
    ScriptRng                    rng(Bytes(), s.word());
    key.sign(sig.data(), msg.data(), msg.size(), rng, id.data(), id.size());
    ASN1_SM2Signature g, d;
    g.R = sig.data(), g.S = sig.data() + 32;
    Bytes       enc(SM2_SIGNATURE_ASN1_ENCODE_MAX_OUTL());
    std::size_t l = 0, n = 0;
    sm2_signature_asn1_encode(enc.data(), &l, &g);
    Exact in(Bytes(enc.begin(), enc.begin() + (long)l));
    NOTE("signature %s", hex(sig).c_str());
    CHECK(sm2_signature_asn1_decode(&d, &n, in.data(), l) == 0 && n == l, "decode", "own signature DER is rejected");
    std::memcpy(&back[0], d.R, 32), std::memcpy(&back[32], d.S, 32);
    CHECK(key.verify(back.data(), msg.data(), msg.size(), id.data(), id.size()), "verify", "signature no longer verifies after the DER trip");
    c.nontrivial();
}
