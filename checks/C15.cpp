#include "hugemsg.h"
#include "sm2h.h"
using namespace pbt;
using namespace sm2h;
// one signature, judged by recovering the nonce from it: k = s(1+d) + r d
template <class H>
static void one(Source& s, Ctx& c, HashFn rh, const sm2::SM2PrivateKey<H>& key, const Z& d, const Pt& P, const Bytes& id, bool default_id, const Bytes& msg, ScriptRng& rng)
{
    const Z& n = R::n();
    Exact    eid(id), em(msg);
    Guarded  sig(64, s.below(9));
    std::size_t before = rng.given.size();
    if (default_id)
        key.sign(sig.data(), em.data(), msg.size(), rng);
    else
        key.sign(sig.data(), em.data(), msg.size(), rng, eid.data(), id.size());
    CHECK(sig.intact(), "out-of-bounds", "sign wrote outside 64 bytes");
    CHECK(eid.unchanged() && em.unchanged(), "input-modified", "sign changed the message or identity");
    CHECK(rng.given.size() > before, "no-randomness", "sign did not draw from the random source");
    Z r = Z::be(sig.data(), 32), sv = Z::be(sig.data() + 32, 32), e = ref_e(rh, id, P, msg);
    CHECK(r >= Z(1) && r < n && sv >= Z(1) && sv < n, "range", "r=%s s=%s out of [1,n-1]", r.str().c_str(), sv.str().c_str());
    Z k = (sv * (d + 1) + r * d) % n;
    CHECK(k != Z(0), "nonce", "signature of nonce zero");
    Pt kG = R::mulg(k);
    CHECK((e + kG.x) % n == r, "sig", "r=%s is not e + x(kG) for the nonce k=%s that s implies (e=%s)", r.str().c_str(), k.str().c_str(), e.str().c_str());
    CHECK((r + k) % n != Z(0), "degenerate", "r+k=n was emitted");
    bool from = false;
    for (auto& cand : nonce_candidates(last_block(rng)))
        from = from || cand == k;
    CHECK(from, "nonce-source", "nonce %s does not come from the last block delivered, %s", k.str().c_str(), hex(last_block(rng)).c_str());
    sm2::SM2PublicKey<H> pub(P.x.bytes(32).data(), P.y.bytes(32).data());
    Bytes                sb = sig.bytes();
    bool                 v1, v2, v3;
    if (default_id)
    {
        v1 = key.verify(sb.data(), em.data(), msg.size());
        v2 = pub.verify(sb.data(), em.data(), msg.size());
        v3 = key.fetch_pub().verify(sb.data(), em.data(), msg.size(), id.data(), id.size());
    }
    else
    {
        v1 = key.verify(sb.data(), em.data(), msg.size(), eid.data(), id.size());
        v2 = pub.verify(sb.data(), em.data(), msg.size(), eid.data(), id.size());
        v3 = key.fetch_pub().verify(sb.data(), em.data(), msg.size(), eid.data(), id.size());
    }
    CHECK(v1 && v2 && v3, "verify", "a valid signature is rejected (%d %d %d)", v1, v2, v3);
}
template <class H>
static void run(Source& s, Ctx& c, HashFn rh, const char* hn)
{
    Z                    d = gen_priv(s);
    Pt                   P = R::mulg(d);
    sm2::SM2PrivateKey<H> key;
    if (s.coin(1, 4))
    {
        sm2::SM2PrivateKey<H> other(gen_priv(s).bytes(32).data());
        key = other; // re-set an object that held another key
    }
    key.set_priv(d.bytes(32).data());
    ScriptRng   rng(gen_stream(s), s.word());
    std::size_t sigs = 1 + s.below(3);
    for (std::size_t i = 0; i < sigs; i++)
    {
        bool  def = s.coin(1, 4);
        Bytes id = def ? Bytes{'1', '2', '3', '4', '5', '6', '7', '8', '1', '2', '3', '4', '5', '6', '7', '8'} : gen_id(s);
        Bytes msg = s.bytes(s.len(s.coin(1, 20) ? 3000 : 200, 64));
        NOTE("%s d=%s id[%zu]%s msg[%zu] stream %s", hn, d.str().c_str(), id.size(), def ? " (default)" : "", msg.size(), hex(rng.script).c_str());
        one<H>(s, c, rh, key, d, P, id, def, msg, rng);
        c.nontrivial(msg.size() > 0);
        c.label(id.size() > 255 ? "id longer than 255 bytes" : "short id");
    }
}
PROP(sign_sm3, 2600, 200000) { run<sm3::SM3>(s, c, ref_sm3, "SM3"); }
PROP(sign_other_hashes, 1000, 80000)
{
    if (s.coin(1, 3))
        return run<TailHash<32>>(s, c, TailHash<32>::ref, "tail hash");
    with_digest(s, [&](auto h, HashFn ref, std::size_t n) { run<decltype(h)>(s, c, ref, strf("%zu-byte hash", n).c_str()); });
}
// the message digest is chosen so that the first nonce is degenerate
PROP(degenerate_nonce, 1800, 120000)
{
    using H        = TailHash<32>;
    const Z&    n  = R::n();
    Z           d  = gen_priv(s);
    Pt          P  = R::mulg(d);
    std::size_t kinds = 1 + s.below(2);
    Bytes       script;
    // only the first drawn block can be targeted by one message; a second
    // block may produce the same nonce again
    Z     b = gen_scalar(s);
    Z     k = b % (n - 1) + 1;
    for (std::size_t i = 0; i < kinds; i++)
        script = script + b.bytes(32);
    Z        x    = R::mulg(k).x, e;
    unsigned kind = (unsigned)s.below(4);
    switch (kind)
    {
    case 0: e = (n * 2 - x % n) % n; break;                              // r = 0
    case 1: e = (n * 2 - x % n + (n - k)) % n; break;                    // r + k = n
    case 2: e = ((k * d.powm(n - 2, n)) % n + n * 2 - x % n) % n; break; // s = 0
    case 3: e = (n * 2 - x % n + Z((std::int64_t)s.below(3)) + 1) % n; break; // r small, not degenerate
    }
    if (s.coin() && e + n < Z::pow2(256))
        e = e + n; // digest not reduced modulo n
    Bytes     msg = s.bytes(s.below(40)) + e.bytes(32), id = gen_id(s);
    ScriptRng rng(script, s.word());
    NOTE("kind %u d=%s nonce block %s x%zu e=%s", kind, d.str().c_str(), b.str().c_str(), kinds, e.str().c_str());
    sm2::SM2PrivateKey<H> key(d.bytes(32).data());
    one<H>(s, c, H::ref, key, d, P, id, false, msg, rng);
    if (kind < 3)
    {
        c.label(kind == 0 ? "r=0" : kind == 1 ? "r+k=n" : "s=0");
        c.nontrivial(rng.given.size() > 32);
        if (rng.given.size() > 32)
            c.label("redrawn");
    }
    else
        c.nontrivial();
}
// identities longer than the standard allows are refused, not truncated
PROP(long_identity, 200, 2000)
{
    Z                             d = gen_priv(s);
    sm2::SM2PrivateKey<sm3::SM3>  key(d.bytes(32).data());
    CHECK(sm2::SM2PrivateKey<sm3::SM3>::SIG_SIZE == 64 && sm2::SM2PublicKey<sm3::SM3>::SIG_SIZE == 64, "sizes", "declared signature size");
    Bytes                         id(8192 + (s.coin() ? 0 : s.below(60000))), msg = s.bytes(10), sig(64);
    ScriptRng                     rng(Bytes(), s.word());
    bool                          thrown = false;
    NOTE("id length %zu", id.size());
    try
    {
        key.sign(sig.data(), msg.data(), msg.size(), rng, id.data(), id.size());
    }
    catch (const std::exception&)
    {
        thrown = true;
    }
    CHECK(thrown, "long-id", "an identity of %zu bytes was accepted for signing", id.size());
    // the key still works
    one<sm3::SM3>(s, c, ref_sm3, key, d, R::mulg(d), Bytes(3, 'a'), false, msg, rng);
    c.nontrivial();
}
// same stream, same signature; other stream, other nonce
PROP(randomness, 600, 20000)
{
    Z                            d = gen_priv(s);
    sm2::SM2PrivateKey<sm3::SM3> key(d.bytes(32).data());
    Bytes                        msg = s.bytes(s.below(60)), id = gen_id(s);
    u64                          s1 = s.word(), s2 = s1 ^ (1 + s.draw(1000));
    Bytes                        a(64), b(64), e(64);
    ScriptRng                    r1(Bytes(), s1), r2(Bytes(), s1), r3(Bytes(), s2);
    key.sign(a.data(), msg.data(), msg.size(), r1, id.data(), id.size());
    key.sign(b.data(), msg.data(), msg.size(), r2, id.data(), id.size());
    key.sign(e.data(), msg.data(), msg.size(), r3, id.data(), id.size());
    NOTE("seeds %llx %llx", (unsigned long long)s1, (unsigned long long)s2);
    CHECK_EQ_BYTES(a, b, "determinism", "two signatures from the same random bytes");
    CHECK(a != e, "nonce-reuse", "different random bytes gave the same signature");
    c.nontrivial();
}
#if !defined(__SANITIZE_ADDRESS__) && !defined(PBT_LIBFUZZER)
// messages and identities whose length 32 bits cannot hold
PROP(huge_message, 40, 400)
{
    using H      = hugemsg::LenHash<32>;
    const Z&    n = R::n();
    Z           d = gen_priv(s);
    Pt          P = R::mulg(d);
    u64         l = hugemsg::gen_len(s);
    bigmap::Big big(l);
    if (!big.p)
        c.discard();
    big.fill(l);
    Bytes     id = gen_id(s), sig(64);
    ScriptRng rng(Bytes(), s.word());
    NOTE("d=%s id[%zu], message of %llu bytes", d.str().c_str(), id.size(), (unsigned long long)l);
    sm2::SM2PrivateKey<H> key(d.bytes(32).data());
    key.sign(sig.data(), big.p, l, rng, id.data(), id.size());
    Bytes z = ref_z(H::ref, id, P), e(32);
    H     h;
    h.update(z.data(), 32), h.do_final(e.data(), big.p, l);
    Z r = Z::be(sig.data(), 32), sv = Z::be(sig.data() + 32, 32), k = (sv * (d + 1) + r * d) % n;
    CHECK(k != Z(0) && (Z::be(e) + R::mulg(k).x) % n == r, "sig", "the signature %s is not one of the whole message", hex(sig).c_str());
    CHECK(key.verify(sig.data(), big.p, l, id.data(), id.size()), "verify", "a valid signature is rejected");
    bool thrown = false;
    try
    {
        key.sign(sig.data(), sig.data(), 10, rng, big.p, l);
    }
    catch (const std::exception&)
    {
        thrown = true;
    }
    CHECK(thrown, "long-id", "an identity of %llu bytes was accepted for signing", (unsigned long long)l);
    c.nontrivial();
    c.label("huge message");
}
#endif
