#include "hugemsg.h"
#include "sm2h.h"
using namespace pbt;
using namespace sm2h;
struct V
{
    Z    r, s, e, d;
    bool want() const
    {
        const Z& n = R::n();
        if (r < Z(1) || r >= n || s < Z(1) || s >= n)
            return false;
        Z t = (r + s) % n;
        if (t == Z(0))
            return false;
        Pt X = R::mulg((s + t * d) % n); // [s]G + [t]P with P = [d]G
        return !X.inf && (e + X.x) % n == r;
    }
};
static Bytes enc(const Z& r, const Z& sv) { return r.bytes(32) + sv.bytes(32); }
template <class H>
static void run(Source& s, Ctx& c, HashFn rh, bool chosen)
{
    const Z& n = R::n();
    Z        d = gen_priv(s);
    Pt       P = R::mulg(d);
    sm2::SM2PublicKey<H> pub(P.x.bytes(32).data(), P.y.bytes(32).data());
    Bytes    id = gen_id(s), msg = s.bytes(s.len(150, 64));
    Z        k = gen_scalar(s) % n;
    if (k == Z(0))
        k = Z(1);
    Pt kG = R::mulg(k);
    Z  dinv = (d + 1).powm(n - 2, n);
    if (chosen)
    {
        // pick r (small, so that r + n still fits 256 bits, or near n) and the digest that yields it
        Z r0 = s.coin(1, 4) ? Z(0) : s.coin() ? Z((std::int64_t)(1 + s.below(1000))) : s.coin() ? n - 1 - Z((std::int64_t)s.below(5)) : gen_scalar(s) % n;
        Z e0 = (r0 + n * 2 - kG.x % n) % n;
        // or pick s small by solving for the digest: s = (k - r d)/(1+d)
        if (s.coin(1, 3))
        {
            // zero now and then: then s = n, and s = 0, satisfy the equation
            Z s0 = s.coin(1, 3) ? Z(0) : Z((std::int64_t)(1 + s.below(1000)));
            Z rr = ((k - s0 * (d + 1)) % n) * d.powm(n - 2, n) % n;
            e0   = (rr + n * 2 - kG.x % n) % n;
        }
        if (s.coin(1, 3) && e0 + n < Z::pow2(256))
            e0 = e0 + n;
        msg = msg + e0.bytes(32);
    }
    V v;
    v.d = d;
    v.e = ref_e(rh, id, P, msg);
    v.r = (v.e + kG.x) % n;
    v.s = dinv * ((k - v.r * d) % n) % n;
    Bytes    vid = id, vmsg = msg;
    unsigned kind = (unsigned)s.weighted({4, 6, 4, 2, 2, 2, 2, 2, 3, 3, 3, 2, 2, 2, 2, 6});
    static const char* names[] = {"valid", "bit flip", "range", "n-s", "swapped", "t=0", "infinity", "unreduced", "altered message", "altered id", "other key", "random", "r or s +-1", "negated key", "constants", "cancelling change"};
    Pt       Q = P;
    switch (kind)
    {
    case 0: break;
    case 1:
    {
        Bytes b = enc(v.r, v.s);
        b[s.below(64)] ^= (u8)(1u << s.below(8));
        v.r = Z::be(&b[0], 32), v.s = Z::be(&b[32], 32);
        break;
    }
    case 2:
    {
        Z  t   = s.coin() ? Z(0) : s.coin() ? n + Z((std::int64_t)s.below(3)) : Z::pow2(256) - 1 - Z((std::int64_t)s.below(3));
        (s.coin() ? v.r : v.s) = t;
        break;
    }
    case 3: v.s = (n - v.s) % n; break;
    case 4: std::swap(v.r, v.s); break;
    case 5: v.s = (n - v.r) % n; break;
    case 6: // nonce zero: [s]G + [t]P is the point at infinity
        v.r = v.e % n;
        v.s = (n - v.r * d % n) % n * dinv % n;
        break;
    case 7: // same residues, not reduced
        if (s.coin())
            v.r = v.r + n;
        else
            v.s = v.s + n;
        if (v.r >= Z::pow2(256) || v.s >= Z::pow2(256))
            c.discard();
        break;
    case 8:
        if (vmsg.empty() || s.coin(1, 4))
            vmsg.push_back(0);
        else if (s.coin(1, 4))
            vmsg.pop_back();
        else
            vmsg[s.below(vmsg.size())] ^= (u8)(1u << s.below(8));
        v.e = ref_e(rh, vid, P, vmsg);
        break;
    case 9:
        if (vid.empty() || s.coin(1, 4))
            vid.push_back('x');
        else
            vid[s.below(vid.size())] ^= (u8)(1u << s.below(8));
        if (vid.size() > 8191)
            vid.resize(100);
        if (!vid.empty() && s.coin(1, 4) && !vmsg.empty())
        {
            // move a byte between identity and message
            vid = id;
            if (!vid.empty())
                vmsg.insert(vmsg.begin(), vid.back()), vid.pop_back();
        }
        v.e = ref_e(rh, vid, P, vmsg);
        break;
    case 10:
    {
        v.d = s.coin() ? (d + 1) % n : gen_priv(s);
        if (v.d == Z(0) || v.d == n - 1)
            v.d = Z(7);
        Q   = R::mulg(v.d);
        v.e = ref_e(rh, vid, Q, vmsg);
        break;
    }
    case 11: v.r = gen_scalar(s), v.s = gen_scalar(s); break;
    case 12:
    {
        Z& t = s.coin() ? v.r : v.s;
        t    = s.coin() ? t + 1 : t - 1;
        break;
    }
    case 13: Q = R::neg(P); v.d = n - d; v.e = ref_e(rh, vid, Q, vmsg); break;
    case 15:
    {
        Bytes b = enc(v.r, v.s);
        switch (s.below(3))
        {
        case 0: cancel_alter(s, b); break;
        case 1: cancel_alter(s, &b[0], 32); break;
        case 2: cancel_alter(s, &b[32], 32); break;
        }
        v.r = Z::be(&b[0], 32), v.s = Z::be(&b[32], 32);
        break;
    }
    case 14:
    {
        std::vector<Z> w{Z(0), Z(1), n - 1, n, n + 1, n / 2, Z::pow2(255), Z::pow2(256) - 1};
        v.r = s.oneof(w), v.s = s.oneof(w);
        break;
    }
    }
    if (Q != P)
        pub.set_pub(Q.x.bytes(32).data(), Q.y.bytes(32).data());
    Exact sig(enc(v.r, v.s)), eid(vid), em(vmsg);
    bool  want = v.want();
    NOTE("%s: d=%s r=%s s=%s e=%s id[%zu] msg[%zu] expected %d", names[kind], v.d.str().c_str(), v.r.str().c_str(), v.s.str().c_str(), v.e.str().c_str(), vid.size(), vmsg.size(), want);
    bool got = pub.verify(sig.data(), em.data(), vmsg.size(), eid.data(), vid.size());
    CHECK(got == want, got ? "accepts-invalid" : "rejects-valid", "%s: verify gives %d, the equation %d (r=%s s=%s)", names[kind], got, want, v.r.str().c_str(), v.s.str().c_str());
    CHECK(sig.unchanged() && eid.unchanged() && em.unchanged(), "input-modified", "verify changed its inputs");
    if (kind == 0 && v.r != Z(0) && v.s != Z(0) && (v.r + v.s) % n != Z(0))
        CHECK(want, "oracle", "oracle rejects its own signature");
    // verification keeps no state: the original signature still verifies
    if (s.coin(1, 4) && kind != 10 && kind != 13)
    {
        V  o;
        Z  r0 = (ref_e(rh, id, P, msg) + kG.x) % n;
        o.r = r0, o.s = dinv * ((k - r0 * d) % n) % n, o.d = d, o.e = ref_e(rh, id, P, msg);
        Bytes ob = enc(o.r, o.s);
        CHECK(pub.verify(ob.data(), msg.data(), msg.size(), id.data(), id.size()) == o.want(), "stateful", "verdict on a valid signature after another verification");
    }
    c.label(names[kind]);
    c.label(want ? "accepted" : "rejected");
    c.nontrivial(kind != 11);
}
PROP(verify_sm3, 6000, 250000) { run<sm3::SM3>(s, c, ref_sm3, false); }
PROP(verify_chosen_digest, 6000, 250000) { run<TailHash<32>>(s, c, TailHash<32>::ref, true); }
PROP(verify_other_hash, 1500, 60000)
{
    with_digest(s, [&](auto h, HashFn ref, std::size_t) { run<decltype(h)>(s, c, ref, false); });
}
// the computed point is one with a rare x coordinate (at least n, next to n, p
// or 0): the public key is solved for.  Its private key stays unknown, so the
// verdict of the other, altered, signatures is computed with the point itself.
PROP(rare_point, 400, 20000)
{
    const Z& n = R::n();
    const Z& p = R::p();
    Pt       X;
    int      where = (int)s.below(5), par = (int)s.below(2);
    bool     own   = s.coin(1, 4); // the public key is the rare point instead
    Z        off = s.coin() ? Z((std::int64_t)s.below(1000)) : gen_scalar(s) % (p - n);
    for (;; off = off + 1)
    {
        Z x = where == 0   ? (n + off) % p            // at least n
              : where == 1 ? (p - 1 - off % p) % p    // below p
              : where == 2 ? (n - 1 - off % n) % n    // below n
              : where == 3 ? off % p                  // small
                           : (n - 1 + off % Z(8)) % p;// next to n
        if (R::lift(x, par, &X))
            break;
        if (where == 4 && off % Z(8) == Z(7))
            where = 0;
    }
    const Z& x = X.x;
    Z  r, sv, t;
    do
    {
        sv = gen_scalar(s) % n, t = gen_scalar(s) % n;
        if (sv == Z(0))
            sv = Z(1);
        if (t == Z(0))
            t = Z(2);
        if (t == sv)
            t = (t + 1) % n;
        r = (t + n - sv) % n;
    } while (t == Z(0));
    Pt P = R::mul(t.powm(n - 2, n), R::add(X, R::neg(R::mulg(sv))));
    if (own)
    {
        P = s.coin() ? X : gen_rare(s);
        X = R::add(R::mulg(sv), R::mul(t, P)); // x refers to it
    }
    if (P.inf || X.inf)
        c.discard();
    Z  e = (r + n * 2 - x % n) % n;
    if (s.coin(1, 3) && e + n < Z::pow2(256))
        e = e + n;
    Bytes id = gen_id(s), msg = s.bytes(s.len(60, 16)) + e.bytes(32);
    bool  valid = true;
    const char* kind = "valid";
    switch (s.below(5))
    {
    case 0: // reduced modulo something else
        r = (r + (s.coin() ? Z(1) : n - 1)) % n, kind = "r +-1", valid = false;
        break;
    case 1: sv = (n - sv) % n, kind = "negated s", valid = false; break;
    default: break;
    }
    if (!valid)
    {
        Z  t2 = (r + sv) % n;
        Pt Y  = R::add(R::mulg(sv), R::mul(t2, P));
        valid = !(r == Z(0)) && !(t2 == Z(0)) && !Y.inf && (e + Y.x) % n == r;
    }
    NOTE("%s: x=%s P=(%s,%s) r=%s s=%s e=%s expected %d", kind, x.str().c_str(), P.x.str().c_str(), P.y.str().c_str(), r.str().c_str(), sv.str().c_str(), e.str().c_str(), valid);
    sm2::SM2PublicKey<TailHash<32>> pub(P.x.bytes(32).data(), P.y.bytes(32).data());
    Exact sig(enc(r, sv)), eid(id), em(msg);
    bool  got = pub.verify(sig.data(), em.data(), msg.size(), eid.data(), id.size());
    CHECK(got == valid, got ? "accepts-invalid" : "rejects-valid", "%s: verify gives %d, the equation %d", kind, got, valid);
    c.label(kind);
    c.label(x >= n ? "x at least n" : "x below n");
    c.nontrivial();
}
// every single-bit change of one signature is rejected
PROP(all_bit_flips, 8, 300)
{
    const Z& n = R::n();
    Z        d = gen_priv(s);
    Pt       P = R::mulg(d);
    sm2::SM2PublicKey<sm3::SM3> pub(P.x.bytes(32).data(), P.y.bytes(32).data());
    Bytes    id = s.bytes(s.below(20)), msg = s.bytes(s.below(100));
    Z        k = gen_priv(s), e = ref_e(ref_sm3, id, P, msg), r = (e + R::mulg(k).x) % n, sv = (d + 1).powm(n - 2, n) * ((k - r * d) % n) % n;
    Bytes    sig = enc(r, sv);
    NOTE("d=%s k=%s", d.str().c_str(), k.str().c_str());
    if (r == Z(0) || sv == Z(0) || (r + k) % n == Z(0))
        c.discard();
    CHECK(pub.verify(sig.data(), msg.data(), msg.size(), id.data(), id.size()), "rejects-valid", "valid signature rejected");
    for (int i = 0; i < 512; i++)
    {
        sig[(std::size_t)i / 8] ^= (u8)(1u << (i % 8));
        CHECK(!pub.verify(sig.data(), msg.data(), msg.size(), id.data(), id.size()), "accepts-invalid", "bit %d flipped and still accepted", i);
        sig[(std::size_t)i / 8] ^= (u8)(1u << (i % 8));
    }
    c.nontrivial();
}
// identities of any length: too long ones cannot have a signature
PROP(long_identity, 100, 2000)
{
    Z  d = gen_priv(s);
    Pt P = R::mulg(d);
    sm2::SM2PublicKey<sm3::SM3> pub(P.x.bytes(32).data(), P.y.bytes(32).data());
    Bytes id(8190 + s.below(5)), msg = s.bytes(20), sig = gen_scalar(s).bytes(32) + gen_scalar(s).bytes(32);
    if (s.coin())
        id.resize(s.below(70000));
    NOTE("id length %zu", id.size());
    bool got = pub.verify(sig.data(), msg.data(), msg.size(), id.data(), id.size());
    CHECK(!got, "accepts-invalid", "random signature accepted");
    // a signature made for the identity length taken modulo 2^16 bits must not verify
    if (id.size() > 8191)
    {
        Bytes  z{(u8)(id.size() * 8 >> 8), (u8)(id.size() * 8)};
        z = ref_sm3(z + id + R::a().bytes(32) + R::b().bytes(32) + R::G().x.bytes(32) + R::G().y.bytes(32) + P.x.bytes(32) + P.y.bytes(32));
        Z e = Z::be(ref_sm3(z + msg)), k = Z(12345), r = (e + R::mulg(k).x) % R::n(), sv = (d + 1).powm(R::n() - 2, R::n()) * ((k - r * d) % R::n()) % R::n();
        sig = enc(r, sv);
        CHECK(!pub.verify(sig.data(), msg.data(), msg.size(), id.data(), id.size()), "accepts-invalid", "identity length taken modulo 2^16 bits");
        c.label("too long");
    }
    c.nontrivial();
}
#if !defined(__SANITIZE_ADDRESS__) && !defined(PBT_LIBFUZZER)
// messages and identities whose length 32 bits cannot hold
PROP(huge_message, 40, 400)
{
    using H      = hugemsg::LenHash<32>;
    const Z&    n = R::n();
    Z           d = gen_priv(s), k = gen_scalar(s) % n, di = (d + 1).powm(n - 2, n);
    if (k == Z(0))
        k = Z(1);
    Pt          P = R::mulg(d), K = R::mulg(k);
    u64         l = hugemsg::gen_len(s);
    bigmap::Big big(l);
    if (!big.p)
        c.discard();
    big.fill(l);
    Bytes                id = gen_id(s);
    sm2::SM2PublicKey<H> pub(P.x.bytes(32).data(), P.y.bytes(32).data());
    NOTE("d=%s k=%s id[%zu], message or identity of %llu bytes", d.str().c_str(), k.str().c_str(), id.size(), (unsigned long long)l);
    auto sign = [&](const Bytes& z, const u8* m, u64 ml) {
        H     h;
        Bytes e(32);
        h.update(z.data(), 32), h.do_final(e.data(), m, ml);
        Z r = (Z::be(e) + K.x) % n;
        return enc(r, di * ((k - r * d) % n) % n);
    };
    Bytes z = ref_z(H::ref, id, P), good = sign(z, big.p, l);
    CHECK(pub.verify(good.data(), big.p, l, id.data(), id.size()), "rejects-valid", "valid signature rejected");
    for (u64 w : hugemsg::wrong_lens(l))
    {
        Bytes bad = sign(z, big.p, w);
        CHECK(!pub.verify(bad.data(), big.p, l, id.data(), id.size()), "accepts-invalid", "a signature of the first %llu bytes accepted", (unsigned long long)w);
        CHECK(!pub.verify(good.data(), big.p, w, id.data(), id.size()), "accepts-invalid", "accepted for the first %llu bytes", (unsigned long long)w);
    }
    // an identity of that length has no signature, whatever its length is taken for
    auto lens = hugemsg::wrong_lens(l);
    lens.push_back(l);
    for (u64 w : lens)
    {
        H     h;
        u8    entl[2] = {(u8)(w * 8 >> 8), (u8)(w * 8)};
        Bytes zz(32), rest = R::a().bytes(32) + R::b().bytes(32) + R::G().x.bytes(32) + R::G().y.bytes(32) + P.x.bytes(32) + P.y.bytes(32);
        h.update(entl, 2), h.update(big.p, w), h.do_final(zz.data(), rest.data(), rest.size());
        Bytes bad = sign(zz, id.data(), id.size());
        CHECK(!pub.verify(bad.data(), id.data(), id.size(), big.p, l), "accepts-invalid", "identity of %llu bytes taken for one of %llu", (unsigned long long)l, (unsigned long long)w);
    }
    c.nontrivial();
    c.label("huge message");
}
#endif
