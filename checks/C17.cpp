#include "hugemsg.h"
#include "sm2h.h"
using namespace pbt;
using namespace sm2h;
using PC = sm2::SM2EcPC;
template <class H>
static void one(Source& s, Ctx& c, HashFn rh, const sm2::SM2PrivateKey<H>& key, const sm2::SM2PublicKey<H>& pub, const Z& d, const Bytes& m, PC pc, ScriptRng& rng)
{
    std::size_t DS  = H::DIGEST_SIZE, c1l = pc == PC::COMPRESSED ? 33 : 65;
    Exact       em(m);
    std::size_t ann = s.coin() ? sm2::SM2PublicKey<H>::ciphertext_len(em.data(), m.size(), pc) : sm2::SM2PrivateKey<H>::ciphertext_len(em.data(), m.size(), pc);
    CHECK(ann == c1l + DS + m.size(), "announced-length", "announced %zu for a plaintext of %zu", ann, m.size());
    Guarded     ct(ann, s.below(33));
    std::size_t cl = 12345, before = rng.given.size();
    if (s.coin())
        pub.encrypt(ct.data(), &cl, em.data(), m.size(), rng, pc);
    else
        key.encrypt(ct.data(), &cl, em.data(), m.size(), rng, pc);
    CHECK(cl == ann, "length", "wrote %zu, announced %zu", cl, ann);
    CHECK(ct.intact(), "out-of-bounds", "encrypt wrote outside the announced length");
    CHECK(em.unchanged(), "input-modified", "plaintext changed");
    CHECK(rng.given.size() > before, "no-randomness", "encrypt did not draw from the random source");
    Bytes C = ct.bytes(), C1(C.begin(), C.begin() + (long)c1l), C3(C.begin() + (long)c1l, C.begin() + (long)(c1l + DS)), C2(C.begin() + (long)(c1l + DS), C.end());
    // find the nonce among those the last block can give
    Z  k;
    Pt K;
    bool found = false;
    for (auto& cand : nonce_candidates(last_block(rng)))
    {
        if (cand == Z(0))
            continue;
        K = R::mulg(cand);
        if (K.x == Z::be(&C1[1], 32) && K.y.bit(0) == (C1[0] == 4 ? C1[64] & 1 : C1[0] & 1))
        {
            k = cand, found = true;
            break;
        }
    }
    // an earlier block was only passed over for a reason
    for (std::size_t at = before; at + 64 <= rng.given.size(); at += 32)
    {
        Z    raw    = Z::be(&rng.given[at], 32);
        bool reason = raw == Z(0) || raw >= R::n() - 1;
        for (auto& cand : nonce_candidates(Bytes(rng.given.begin() + (long)at, rng.given.begin() + (long)at + 32)))
        {
            if (cand == Z(0) || cand >= R::n())
                reason = true;
            else
            {
                Pt    S = R::mulg(cand * d % R::n());
                Bytes t = ref_kdf(rh, S.x.bytes(32) + S.y.bytes(32), m.size());
                reason  = reason || t == Bytes(m.size(), 0);
            }
        }
        CHECK(reason, "nonce-skipped", "the block %s gives a usable nonce and was passed over", hex(&rng.given[at], 32).c_str());
    }
    CHECK(found, "nonce-source", "C1 is not [k]G for a nonce from the last block delivered, %s", hex(last_block(rng)).c_str());
    u8    par  = (u8)K.y.bit(0);
    Bytes want = pc == PC::COMPRESSED ? Bytes{(u8)(2 + par)} + K.x.bytes(32) : Bytes{(u8)(pc == PC::UNCOMPRESSED ? 4 : 6 + par)} + K.x.bytes(32) + K.y.bytes(32);
    CHECK_EQ_BYTES(C1, want, "C1", "C1");
    Pt    S  = R::mulg(k * d % R::n());
    Bytes xy = S.x.bytes(32) + S.y.bytes(32), t = ref_kdf(rh, xy, m.size());
    CHECK(t != Bytes(m.size(), 0), "zero-keystream", "ciphertext with an all-zero key stream was emitted");
    Bytes x = m;
    for (std::size_t i = 0; i < x.size(); i++)
        x[i] ^= t[i];
    CHECK_EQ_BYTES(C2, x, "C2", "C2");
    CHECK_EQ_BYTES(C3, rh(S.x.bytes(32) + m + S.y.bytes(32)), "C3", "C3");
    // decryption
    Exact       ec(C);
    std::size_t pl = sm2::SM2PrivateKey<H>::plaintext_len(ec.data(), cl);
    CHECK(pl == m.size(), "plaintext-length", "plaintext_len gives %zu of %zu", pl, m.size());
    Guarded     out(pl, s.below(33));
    std::size_t ol = 999;
    try
    {
        key.decrypt(out.data(), &ol, ec.data(), cl);
    }
    catch (const std::exception& ex)
    {
        c.fail("decrypt", strf("a valid ciphertext is rejected: %s", ex.what()));
    }
    CHECK(ol == m.size() && out.intact() && ec.unchanged(), "decrypt", "decrypt wrote %zu bytes or outside the plaintext", ol);
    CHECK_EQ_BYTES(out.bytes(), m, "decrypt", "decrypted plaintext");
}
template <class H>
static void run(Source& s, Ctx& c, HashFn rh, const char* hn, std::size_t maxlen)
{
    Z                     d = gen_priv(s);
    Pt                    P = R::mulg(d);
    sm2::SM2PrivateKey<H> key(d.bytes(32).data());
    sm2::SM2PublicKey<H>  pub;
    if (s.coin())
        pub = key.fetch_pub();
    else
        pub.set_pub(P.x.bytes(32).data(), P.y.bytes(32).data());
    ScriptRng   rng(gen_stream(s), s.word());
    std::size_t msgs = 1 + s.below(3);
    for (std::size_t i = 0; i < msgs; i++)
    {
        std::size_t n = s.len(maxlen, H::DIGEST_SIZE);
        if (n == 0)
            n = 1;
        Bytes m  = s.bytes(n);
        PC    pc = (PC)s.below(3);
        if (H::DIGEST_SIZE <= 2 && s.coin())
        {
            // look for a nonce whose key stream is all zero, or zero in its
            // last or first byte only
            unsigned kind = (unsigned)s.below(3);
            n = kind == 0 ? 1 : 2 + s.below(2);
            m = s.bytes(n);
            Z b = gen_scalar(s);
            for (int j = 0; j < 100; j++, b = (b + 1) % Z::pow2(256))
            {
                Pt    S = R::mulg((b % (R::n() - 1) + 1) * d % R::n());
                Bytes t = ref_kdf(rh, S.x.bytes(32) + S.y.bytes(32), n);
                if ((kind == 1 ? t.back() : t[0]) == 0)
                    break;
            }
            rng = ScriptRng(b.bytes(32), s.word());
        }
        NOTE("%s d=%s plaintext[%zu]=%s format %d stream %s", hn, d.str().c_str(), n, hex(m, 40).c_str(), (int)pc, hex(rng.script).c_str());
        std::size_t before = rng.given.size();
        one<H>(s, c, rh, key, pub, d, m, pc, rng);
        if (rng.given.size() - before > 32)
            c.label("redrawn");
        c.label(pc == PC::UNCOMPRESSED ? "uncompressed" : pc == PC::COMPRESSED ? "compressed" : "hybrid");
        c.nontrivial(n > 1 || rng.given.size() - before > 32);
    }
}
PROP(encrypt_sm3, 3000, 180000) { run<sm3::SM3>(s, c, ref_sm3, "SM3", s.coin(1, 15) ? 5000 : 200); }
PROP(encrypt_other_hashes, 1200, 80000)
{
    with_digest(s, [&](auto h, HashFn ref, std::size_t n) { run<decltype(h)>(s, c, ref, strf("%zu-byte hash", n).c_str(), n * 4 + 20); });
}
// the public key, or the shared point [k]P, has a rare x coordinate: no private
// key is known, the nonce is
PROP(rare_points, 300, 12000)
{
    using H = sm3::SM3;
    Bytes                block = gen_scalar(s).bytes(32), m = s.bytes(1 + s.len(100, 32)), m2(1, 1);
    u64                  seed  = s.word();
    PC                   pc    = (PC)s.below(3);
    Bytes                C(97 + m.size() + 8), C0(98 + 8);
    std::size_t          cl = 0;
    Z                    k(0);
    sm2::SM2PublicKey<H> pub;
    std::size_t          drawn = 0;
    // which nonce does this stream give?
    for (int again = 0; again < 2; again++)
    {
        ScriptRng r0(block, seed);
        k         = Z(0);
        Pt        G = R::G();
        pub.set_pub(G.x.bytes(32).data(), G.y.bytes(32).data());
        pub.encrypt(C0.data(), &cl, m2.data(), 1, r0);
        for (auto& q : nonce_candidates(last_block(r0)))
            if (q > Z(0) && q < R::n() && R::mulg(q).x == Z::be(&C0[1], 32) && R::mulg(q).y == Z::be(&C0[33], 32))
                k = q;
        CHECK(k > Z(0), "nonce-source", "C1 is not [k]G for a nonce from the last block delivered, %s", hex(last_block(r0)).c_str());
        if (again == 0)
            block = last_block(r0);
        drawn = r0.given.size();
    }
    Pt X = gen_rare(s), P = s.coin() ? X : R::mul(k.powm(R::n() - 2, R::n()), X), S = R::mul(k, P), K = R::mulg(k);
    NOTE("P=%s [k]P=%s k=%s plaintext[%zu] format %d", P.str().c_str(), S.str().c_str(), k.str().c_str(), m.size(), (int)pc);
    ScriptRng rng(block, seed);
    pub.set_pub(P.x.bytes(32).data(), P.y.bytes(32).data());
    pub.encrypt(C.data(), &cl, m.data(), m.size(), rng, pc);
    u8    par  = (u8)K.y.bit(0);
    Bytes want = pc == PC::COMPRESSED ? Bytes{(u8)(2 + par)} + K.x.bytes(32) : Bytes{(u8)(pc == PC::UNCOMPRESSED ? 4 : 6 + par)} + K.x.bytes(32) + K.y.bytes(32);
    Bytes t    = ref_kdf(ref_sm3, S.x.bytes(32) + S.y.bytes(32), m.size());
    if (t == Bytes(m.size(), 0))
        c.discard(); // redrawn
    CHECK(rng.given.size() == drawn, "nonce-skipped", "the block %s gives a usable nonce and was passed over", hex(block).c_str());
    for (std::size_t i = 0; i < m.size(); i++)
        t[i] ^= m[i];
    want = want + ref_sm3(S.x.bytes(32) + m + S.y.bytes(32)) + t;
    C.resize(std::min(cl, C.size()));
    CHECK_EQ_BYTES(C, want, "rare", "ciphertext");
    c.nontrivial();
}
PROP(zero_keystream, 250, 10000)
{
    if (s.coin(3, 4))
        run<CutHash<1>>(s, c, CutHash<1>::ref, "1-byte hash", 3);
    else
        run<CutHash<2>>(s, c, CutHash<2>::ref, "2-byte hash", 5);
}
PROP(kdf_long, 6, 60)
{
    // counter beyond one byte: more than 255 digest blocks
    using H = sm3::SM3;
    Z     d = gen_priv(s);
    sm2::SM2PrivateKey<H> key(d.bytes(32).data());
    Bytes                 m = s.rnd(32 * 255 + s.below(32 * 700));
    ScriptRng rng(Bytes(), s.word());
    NOTE("plaintext of %zu bytes", m.size());
    one<H>(s, c, ref_sm3, key, key.fetch_pub(), d, m, PC::UNCOMPRESSED, rng);
    c.nontrivial();
}
#ifndef __SANITIZE_ADDRESS__
PROP(kdf_huge, 3, 40)
{
    // counter beyond two bytes
    using H = sm3::SM3;
    Z     d = gen_priv(s);
    sm2::SM2PrivateKey<H> key(d.bytes(32).data());
    Bytes                 m = s.rnd(32 * 65535 + s.below(200));
    ScriptRng             rng(Bytes(), s.word());
    NOTE("plaintext of %zu bytes", m.size());
    one<H>(s, c, ref_sm3, key, key.fetch_pub(), d, m, PC::COMPRESSED, rng);
    c.nontrivial();
}
#endif
#ifndef __SANITIZE_ADDRESS__
// a plaintext whose length 32 bits cannot hold; a key stream of period 64
PROP(huge_text, 1, 8)
{
    using H = hugemsg::LenHash<64, false>;
    u64         n = bigmap::gen_len(s);
    bigmap::Big in(n + 129), ct(n + 129), back(n + 129);
    if (!in.p || !ct.p || !back.p)
        c.discard();
    u64   sd = s.draw(~0ull);
    Z     d = gen_priv(s);
    NOTE("plaintext of %llu bytes, contents %llx, d=%s", (unsigned long long)n, (unsigned long long)sd, d.str().c_str());
    // C1 and C3 go to memory of their own
    if (mmap(ct.p, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED)
        c.discard();
    in.fill(sd), back.fill(sd + 1);
    sm2::SM2PrivateKey<H> key(d.bytes(32).data());
    ScriptRng             rng(Bytes(), s.word());
    std::size_t           ann = sm2::SM2PublicKey<H>::ciphertext_len(in.p, n, PC::UNCOMPRESSED), l = 0;
    CHECK(ann == n + 129, "announced-length", "announced %zu", ann);
    key.fetch_pub().encrypt(ct.p, &l, in.p, n, rng, PC::UNCOMPRESSED);
    CHECK(l == ann, "length", "wrote %zu, announced %zu", l, ann);
    Pt S;
    S.inf = false, S.x = Z::be(ct.p + 1, 32), S.y = Z::be(ct.p + 33, 32);
    CHECK(ct.p[0] == 4 && R::on_curve(S.x, S.y), "C1", "not a point");
    S = R::mul(d, S);
    Bytes t = H::ref(S.x.bytes(32) + S.y.bytes(32) + Bytes(4, 0)), c3(64);
    H     h;
    h.update(S.x.bytes(32).data(), 32), h.update(in.p, n), h.do_final(c3.data(), S.y.bytes(32).data(), 32);
    CHECK_EQ_BYTES(Bytes(ct.p + 65, ct.p + 129), c3, "C3", "C3");
    for (u64 o : {(u64)0, (u64)1 << 20, n / 2, n - bigmap::TAIL, n - 100000})
        for (u64 i = o; i < std::min(o + 100000, n); i++)
            CHECK(ct.p[129 + i] == (u8)(in.p[i] ^ t[i % 64]), "C2", "byte %llu of C2", (unsigned long long)i);
    std::size_t pl = sm2::SM2PrivateKey<H>::plaintext_len(ct.p, l);
    CHECK(pl == n, "plaintext-length", "plaintext_len gives %zu", pl);
    pl = 0;
    key.decrypt(back.p, &pl, ct.p, l);
    CHECK(pl == n && !std::memcmp(back.p, in.p, bigmap::WIN) && !std::memcmp(back.p + n - 100000, in.p + n - 100000, 100000), "decrypt", "decrypted plaintext of %zu bytes", pl);
    c.nontrivial();
    c.label("huge plaintext");
}
#endif
