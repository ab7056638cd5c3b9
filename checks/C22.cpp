#include "hugemsg.h"
#include "sm9h.h"
using namespace pbt;
using namespace sm9h;
template <class H>
static void pub_is(Ctx& c, const sm9::SM9SignMasterPublicKey<H>& pub, const Pt2& Q)
{
    Bytes x(64), y(64);
    pub.get_pub(x.data(), y.data());
    CHECK_EQ_BYTES(x + y, Q.x.bytes() + Q.y.bytes(), "master-public", "master public key");
}
// one signature for (ks, t2 = discrete logarithm of the user key)
template <class H>
static void one(Source& s, Ctx& c, HashFn rh, const sm9::SM9SignPrivateKey<H>& key, const sm9::SM9SignMasterPublicKey<H>& pub, const Z& ks, const Z& t2, const Bytes& id, u8 hid, const Bytes& msg, ScriptRng& rng, bool verify = true)
{
    const Z&    n = R::n();
    int         form = (int)s.below(3);
    Exact       em(msg);
    std::size_t want = form == 1 ? 65 : 97, outl = 9999, before = rng.given.size();
    Guarded     sig(want, s.below(9));
    sm9::SM9EcPC pcs[] = {sm9::SM9EcPC::UNCOMPRESSED, sm9::SM9EcPC::COMPRESSED, sm9::SM9EcPC::MIX};
    if (form == 0 && s.coin())
        key.sign(sig.data(), &outl, em.data(), msg.size(), rng);
    else
        key.sign(sig.data(), &outl, em.data(), msg.size(), rng, pcs[form]);
    CHECK(outl == want, "length", "signature length %zu want %zu", outl, want);
    CHECK(sig.intact(), "out-of-bounds", "sign wrote outside %zu bytes", want);
    CHECK(em.unchanged(), "input-modified", "sign changed the message");
    CHECK(rng.given.size() > before, "no-randomness", "sign did not draw from the random source");
    Bytes sb = sig.bytes();
    Z     h = Z::be(&sb[0], 32);
    CHECK(h >= Z(1) && h < n, "range", "h=%s outside [1,n-1]", h.str().c_str());
    CHECK(sb.size() <= sm9::SM9SignPrivateKey<sm3::SM3>::MAX_SIG_SIZE && sb.size() <= sm9::SM9SignMasterPublicKey<sm3::SM3>::MAX_SIG_SIZE, "sizes", "a signature longer than the declared maximum");
    Pt  S;
    int d = dec1(Bytes(sb.begin() + 32, sb.end()), &S);
    CHECK(d == 1 && (sb[32] == 4 ? 0 : sb[32] < 4 ? 1 : 2) == form, "point", "S is not a point encoding of the requested form: %s", hex(sb).c_str());
    bool ok = false, hash_ok = false;
    Z    r;
    auto cands = nonce_candidates(last_block9(rng));
    for (std::size_t i = 0; i < cands.size() && !ok; i++)
    {
        r = cands[i];
        if (r == Z(0))
            continue;
        // cheap part first: S = [(r - h) t2]P1
        if (R::mulg1((r - h) % n * t2 % n) != S)
            continue;
        hash_ok = H2(rh, msg, R::gpow(ks * r % n)) == h;
        ok      = hash_ok;
    }
    CHECK(ok, "sig", "(h,S)=%s is not the signature of any nonce from the last block delivered, %s", hex(sb).c_str(), hex(last_block9(rng)).c_str());
    CHECK((r - h) % n != Z(0), "degenerate", "a degenerate signature was emitted");
    if (!verify)
        return;
    Exact es(sb), eid(id);
    CHECK(pub.verify(es.data(), sb.size(), em.data(), msg.size(), eid.data(), id.size(), hid), "verify", "a valid signature is rejected by the master public key");
    CHECK(key.verify(es.data(), sb.size(), em.data(), msg.size(), eid.data(), id.size(), hid), "verify", "a valid signature is rejected by the user key");
    CHECK(es.unchanged() && eid.unchanged() && em.unchanged(), "input-modified", "verify changed its inputs");
    if (s.coin(1, 3))
    {
        sm9::SM9SignMasterPublicKey<H> p2;
        Pt2                            Q = R::mulg2(ks);
        p2.set_pub(Q.x.bytes().data(), Q.y.bytes().data());
        CHECK(p2.verify(es.data(), sb.size(), em.data(), msg.size(), eid.data(), id.size(), hid), "verify", "a valid signature is rejected by an imported master public key");
    }
}
template <class H>
static void run(Source& s, Ctx& c, HashFn rh, const char* hn)
{
    const Z& n = R::n();
    Z        ks = gen_nz(s);
    sm9::SM9SignMasterPrivateKey<H> master;
    if (s.coin(1, 8))
        master.set_priv(gen_nz(s).bytes(32).data()); // an object that held another key
    master.set_priv(ks.bytes(32).data());
    pub_is(c, master.fetch_SignPublicKey(), R::mulg2(ks));
    std::size_t users = 1 + s.below(2);
    ScriptRng   rng(gen_stream(s), s.word());
    for (std::size_t u = 0; u < users; u++)
    {
        Bytes id = gen_id(s);
        u8    hid = gen_hid(s);
        Z     h1 = H1(rh, id, hid), t1 = (h1 + ks) % n;
        if (t1 == Z(0))
            c.discard();
        Z t2 = ks * inv_n(t1) % n;
        NOTE("%s ks=%s id[%zu] %s hid=%u h1=%s", hn, ks.str().c_str(), id.size(), hex(id, 48).c_str(), hid, h1.str().c_str());
        Exact     eid(id);
        ScriptRng unused(Bytes(), s.word());
        auto      key = hid == 1 && s.coin() ? master.gen_SignPrivateKey(eid.data(), id.size(), unused) : master.gen_SignPrivateKey(eid.data(), id.size(), unused, hid);
        Bytes     px(32), py(32), qx(64), qy(64);
        key.get_priv(px.data(), py.data(), qx.data(), qy.data());
        Pt  D = R::mulg1(t2);
        Pt2 Q = R::mulg2(ks);
        CHECK_EQ_BYTES(px + py, D.x.bytes(32) + D.y.bytes(32), "user-key", "user private key of the identity");
        CHECK_EQ_BYTES(qx + qy, Q.x.bytes() + Q.y.bytes(), "user-key", "master public key inside the user key");
        if (s.coin(1, 4))
        {
            sm9::SM9SignPrivateKey<H> k2;
            k2.set_priv(px.data(), py.data(), qx.data(), qy.data());
            key = k2;
            c.label("re-imported key");
        }
        std::size_t sigs = 1 + s.below(2);
        for (std::size_t i = 0; i < sigs; i++)
        {
            Bytes msg = s.bytes(s.len(s.coin(1, 20) ? 3000 : 200, 64));
            NOTE("msg[%zu] stream %s", msg.size(), hex(rng.script).c_str());
            one<H>(s, c, rh, key, master.fetch_SignPublicKey(), ks, t2, id, hid, msg, rng);
            c.nontrivial(msg.size() > 0);
        }
    }
}
PROP(sign_sm3, 300, 25000) { run<Hash3>(s, c, ref_sm3, "SM3"); }
PROP(sign_other_hashes, 150, 12000)
{
    if (s.coin(1, 4))
        return run<HeadHash<40>>(s, c, HeadHash<40>::ref, "head hash");
    sm2h::with_digest(s, [&](auto h, HashFn ref, std::size_t n) { run<decltype(h)>(s, c, ref, strf("%zu-byte hash", n).c_str()); });
}
// the message chooses h so that the first nonce (or two) gives r = h
PROP(degenerate_nonce, 150, 12000)
{
    using H = HeadHash<40>;
    const Z& n = R::n();
    Z        ks = gen_nz(s), b = gen_scalar(s), r = b % (n - 1) + 1;
    bool     deg = s.coin(2, 3);
    std::size_t rep = 1 + s.below(2);
    Bytes    script;
    for (std::size_t i = 0; i < rep; i++)
        script = script + b.bytes(32);
    Z h = deg ? r : (r + Z((std::int64_t)s.below(5)) - 2) % n;
    if (h == Z(0))
        h = n - 1;
    // any 40-byte number congruent to h-1 modulo n-1
    Z     v = h - 1 + (n - 1) * Z::u(s.draw(0xffffffffull));
    Bytes msg = v.bytes(40) + s.bytes(s.below(30)), id = s.bytes(40 + s.below(8));
    Z     t1 = (H1(H::ref, id, 1) + ks) % n;
    if (t1 == Z(0))
        c.discard();
    NOTE("ks=%s nonce block %s x%zu h=%s", ks.str().c_str(), b.str().c_str(), rep, h.str().c_str());
    sm9::SM9SignMasterPrivateKey<H> master(ks.bytes(32).data());
    ScriptRng rng(script, s.word()), u2(Bytes(), 1);
    auto      key = master.gen_SignPrivateKey(id.data(), id.size(), u2);
    one<H>(s, c, H::ref, key, master.fetch_SignPublicKey(), ks, ks * inv_n(t1) % n, id, 1, msg, rng);
    c.label(h == r ? "r=h" : "r near h");
    c.label(rng.given.size() > 32 ? "redrawn" : "first nonce used");
    c.nontrivial();
}
// the identity chooses h1 around the special values of the key extraction
PROP(extraction_edges, 250, 16000)
{
    using H = HeadHash<40>;
    const Z& n = R::n();
    Z        ks = gen_nz(s), h1;
    switch (s.below(6))
    {
    case 0: h1 = n - ks; break;                                           // h1 + ks = 0
    case 1: h1 = ks; break;                                               // [h1]P2 = Ppub
    case 2: h1 = (n - ks + Z((std::int64_t)s.below(5)) - 2) % n; break;   // near
    case 3: h1 = (n - ks * 2 % n) % n; break;                             // t2 = -1
    case 4: h1 = s.coin() ? Z(1) : n - 1; break;
    default: h1 = gen_nz(s);
    }
    if (h1 == Z(0))
        h1 = Z(1);
    Bytes id = (h1 - 1 + (n - 1) * Z::u(s.draw(0xffffffffull))).bytes(40) + s.bytes(s.below(10));
    u8    hid = gen_hid(s);
    CHECK(H1(H::ref, id, hid) == h1, "oracle", "the identity does not hash to h1");
    Z t1 = (h1 + ks) % n;
    NOTE("ks=%s h1=%s t1=%s", ks.str().c_str(), h1.str().c_str(), t1.str().c_str());
    sm9::SM9SignMasterPrivateKey<H> master(ks.bytes(32).data());
    ScriptRng                       rng(gen_stream(s), s.word());
    bool                            threw = false;
    sm9::SM9SignPrivateKey<H>       key;
    try
    {
        key = master.gen_SignPrivateKey(id.data(), id.size(), rng, hid);
    }
    catch (const std::exception&)
    {
        threw = true;
    }
    CHECK(threw == (t1 == Z(0)), "extraction", "key extraction %s for h1+ks=%s", threw ? "refuses" : "emits a key", t1.str().c_str());
    c.label(threw ? "undefined key refused" : h1 == ks ? "h1=ks" : "defined");
    c.nontrivial();
    if (threw)
        return;
    Bytes msg = s.bytes(40 + s.below(50));
    one<H>(s, c, H::ref, key, master.fetch_SignPublicKey(), ks, ks * inv_n(t1) % n, id, hid, msg, rng);
}
PROP(randomness, 100, 3000)
{
    Z                                   ks = gen_nz(s);
    sm9::SM9SignMasterPrivateKey<Hash3> master(ks.bytes(32).data());
    Bytes                               msg = s.bytes(s.below(60)), id = gen_id(s);
    u64                                 s1 = s.word(), s2 = s1 ^ (1 + s.draw(1000));
    ScriptRng                           r0(Bytes(), 1), r1(Bytes(), s1), r2(Bytes(), s1), r3(Bytes(), s2);
    auto                                key = master.gen_SignPrivateKey(id.data(), id.size(), r0);
    Bytes                               a(97), b(97), e(97);
    std::size_t                         l;
    key.sign(a.data(), &l, msg.data(), msg.size(), r1);
    key.sign(b.data(), &l, msg.data(), msg.size(), r2);
    key.sign(e.data(), &l, msg.data(), msg.size(), r3);
    NOTE("seeds %llx %llx", (unsigned long long)s1, (unsigned long long)s2);
    CHECK_EQ_BYTES(a, b, "determinism", "two signatures from the same random bytes");
    CHECK(a != e, "nonce-reuse", "different random bytes gave the same signature");
    c.nontrivial();
}
#if !defined(__SANITIZE_ADDRESS__) && !defined(PBT_LIBFUZZER)
// messages and identities whose length 32 bits cannot hold
namespace {
using LH = hugemsg::LenHash<32>;
Z hn(u8 tag, const u8* p, u64 l, const Bytes& rest)
{
    Bytes ha;
    for (u8 ct = 1; ct < 3; ct++)
    {
        Bytes d(32), end = rest + Bytes{0, 0, 0, ct};
        LH    h;
        h.update(&tag, 1), h.update(p, l), h.do_final(d.data(), end.data(), end.size());
        ha = ha + d;
    }
    ha.resize(40);
    return Z::be(ha) % (R::n() - 1) + 1;
}
} // namespace
PROP(huge_message, 16, 200)
{
    const Z&    n = R::n();
    Z           ks = gen_nz(s);
    u64         l = hugemsg::gen_len(s);
    bigmap::Big big(l);
    if (!big.p)
        c.discard();
    big.fill(l);
    u8 hid = gen_hid(s);
    Z  h1 = hn(1, big.p, l, Bytes{hid}), t1 = (h1 + ks) % n;
    if (t1 == Z(0))
        c.discard();
    NOTE("ks=%s hid=%u, identity and message of %llu bytes", ks.str().c_str(), hid, (unsigned long long)l);
    sm9::SM9SignMasterPrivateKey<LH> master(ks.bytes(32).data());
    ScriptRng                        rng(Bytes(), s.word());
    auto                             key = master.gen_SignPrivateKey(big.p, l, rng, hid);
    Z                                t2 = ks * inv_n(t1) % n;
    Pt                               D = R::mulg1(t2), S;
    Bytes                            px(32), py(32), qx(64), qy(64), sig(97);
    key.get_priv(px.data(), py.data(), qx.data(), qy.data());
    CHECK_EQ_BYTES(px + py, D.x.bytes(32) + D.y.bytes(32), "user-key", "user private key of the identity");
    std::size_t sl = 0;
    key.sign(sig.data(), &sl, big.p, l, rng);
    Z h = Z::be(&sig[0], 32);
    CHECK(sl == 97 && h >= Z(1) && h < n && dec1(Bytes(sig.begin() + 32, sig.end()), &S) == 1, "sig", "not a signature: %s", hex(sig).c_str());
    bool ok = false;
    for (auto& r : nonce_candidates(last_block9(rng)))
        ok = ok || (r != Z(0) && R::mulg1((r - h) % n * t2 % n) == S && hn(2, big.p, l, R::gpow(ks * r % n).bytes()) == h);
    CHECK(ok, "sig", "%s is not a signature of the whole message", hex(sig).c_str());
    CHECK(key.verify(sig.data(), sl, big.p, l, big.p, l, hid), "verify", "a valid signature is rejected");
    c.nontrivial();
    c.label("huge message");
}
#endif
