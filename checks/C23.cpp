#include "hugemsg.h"
#include "sm9h.h"
using namespace pbt;
using namespace sm9h;
// a signature verified by evaluating the equation through discrete logarithms
struct V
{
    Bytes sig;
    Z     ks, h1;
    Bytes msg;
    HashFn rh;
    std::vector<std::pair<Pt, Z>> known; // points whose logarithm is known
    // 1 valid, 0 invalid, -1 left open
    int want() const
    {
        const Z& n = R::n();
        if (sig.size() < 32)
            return 0;
        Z h = Z::be(&sig[0], 32);
        if (h == Z(0) || h >= n)
            return 0;
        Pt  S;
        int d = dec1(Bytes(sig.begin() + 32, sig.end()), &S);
        if (d == 0)
            return 0;
        for (auto& k : known)
        {
            Z e;
            if (k.first == S)
                e = k.second;
            else if (R::neg1(k.first) == S)
                e = n - k.second;
            else
                continue;
            Z t = (h1 + ks) % n;
            if (H2(rh, msg, R::gpow((e * t + ks * h) % n)) != h)
                return 0;
            return t == Z(0) || d < 0 ? -1 : 1;
        }
        return 0; // unknown logarithm: the equation holds with probability 2^-256
    }
};
template <class H>
static void run(Source& s, Ctx& c, HashFn rh)
{
    const Z& n = R::n();
    const Z& p = R::p();
    Z        ks = gen_nz(s);
    Pt2      Q = R::mulg2(ks);
    Bytes    id = gen_id(s), msg = s.bytes(s.len(150, 64));
    u8       hid = gen_hid(s);
    Z        h1 = H1(rh, id, hid), t1 = (h1 + ks) % n;
    if (t1 == Z(0))
        c.discard();
    // any nonce; sometimes one that makes the point a chosen multiple
    Z  r = gen_nz(s), h = H2(rh, msg, R::gpow(ks * r % n)), t2 = ks * inv_n(t1) % n, e = (r - h) % n * t2 % n;
    if (e == Z(0))
        c.discard();
    Pt S = R::mulg1(e);
    V  v;
    v.ks = ks, v.h1 = h1, v.msg = msg, v.rh = rh;
    v.known = {{S, e}, {R::mulg1(t2), t2}};
    if (e != Z(1))
        v.known.push_back({R::mulg1(Z(1)), Z(1)});
    int form = (int)s.below(3);
    v.sig    = h.bytes(32) + enc1(S, form);
    Bytes    vid = id;
    u8       vhid = hid;
    unsigned kind = (unsigned)s.weighted({5, 6, 4, 2, 2, 3, 3, 3, 3, 3, 3, 2, 2, 2, 2, 2, 7});
    static const char* names[] = {"valid", "bit flip", "h range", "negated S", "other known S", "altered message", "altered id", "altered hid", "other master key", "length", "non-canonical", "off curve", "prefix", "random", "other format", "h changed", "cancelling change"};
    sm9::SM9SignMasterPublicKey<H> pub;
    switch (kind)
    {
    case 0: break;
    case 1: v.sig[s.below(v.sig.size())] ^= (u8)(1u << s.below(8)); break;
    case 2:
    {
        Z t = s.coin(1, 4) ? Z(0) : s.coin() ? n + Z((std::int64_t)s.below(3)) : s.coin() ? h + n : Z::pow2(256) - 1;
        if (t >= Z::pow2(256))
            t = n;
        v.sig = t.bytes(32) + enc1(S, form);
        break;
    }
    case 3: v.sig = h.bytes(32) + enc1(R::neg1(S), form); break;
    case 4: v.sig = h.bytes(32) + enc1(s.oneof(v.known).first, form); break;
    case 5:
        if (v.msg.empty() || s.coin(1, 4))
            v.msg.push_back(0);
        else if (s.coin(1, 4))
            v.msg.pop_back();
        else
            v.msg[s.below(v.msg.size())] ^= (u8)(1u << s.below(8));
        break;
    case 6:
        if (vid.empty() || s.coin(1, 4))
            vid.push_back(s.coin() ? 1 : 'x');
        else if (s.coin(1, 4))
            vid.pop_back();
        else
            vid[s.below(vid.size())] ^= (u8)(1u << s.below(8));
        break;
    case 7: vhid = (u8)(vhid ^ (1u << s.below(8))); break;
    case 8:
        v.ks = s.coin() ? (ks + 1) % n : s.coin() ? n - ks : gen_nz(s);
        if (v.ks == Z(0))
            v.ks = Z(7);
        Q = R::mulg2(v.ks);
        break;
    case 9:
    {
        std::size_t l = s.coin() ? s.below(v.sig.size()) : s.below(140);
        Bytes       t = v.sig;
        t.resize(l, s.coin() ? 0 : s.byte());
        v.sig = t;
        break;
    }
    case 10:
    {
        Z    x = S.x, y = S.y;
        bool px = s.coin();
        if ((px ? x : y) + p >= Z::pow2(256))
            px = !px;
        if ((px ? x : y) + p >= Z::pow2(256))
            c.discard();
        Bytes b = enc1(S, form);
        Bytes t = ((px ? x : y) + p).bytes(32);
        if (form == 1 && (!px || b.size() != 33))
            c.discard();
        std::copy(t.begin(), t.end(), b.begin() + (px ? 1 : 33));
        v.sig = h.bytes(32) + b;
        break;
    }
    case 11:
    {
        Pt X = S;
        switch (s.below(4))
        {
        case 0: X.y = (X.y + 1) % p; break;
        case 1: X.x = (X.x + 1) % p; break;
        case 2: std::swap(X.x, X.y); break;
        case 3: X.x = Z(0), X.y = Z(0); break;
        }
        v.sig = h.bytes(32) + enc1(X, form);
        break;
    }
    case 12: v.sig[32] = s.coin() ? (u8)s.below(10) : s.byte(); break;
    case 13: v.sig = s.rnd(s.coin() ? 97 : 65); v.sig[32] = (u8)(2 + s.below(6)); break;
    case 14: v.sig = h.bytes(32) + enc1(S, (form + 1) % 3); break;
    case 16:
        if (s.coin(1, 4))
            cancel_alter(s, &v.sig[33], v.sig.size() - 33);
        else
            cancel_alter(s, &v.sig[0], 32);
        break;
    case 15:
    {
        Z t = s.coin() ? h + 1 : s.coin() ? h - 1 : s.coin() ? n - h : gen_nz(s);
        if (t == Z(0) || t >= n)
            t = Z(1);
        v.sig = t.bytes(32) + enc1(S, form);
        break;
    }
    }
    v.h1 = H1(rh, vid, vhid);
    pub.set_pub(Q.x.bytes().data(), Q.y.bytes().data());
    Exact sig(v.sig), eid(vid), em(v.msg);
    int   want = v.want();
    NOTE("%s: ks=%s sig[%zu]=%s id[%zu] hid=%u msg[%zu] expected %d", names[kind], v.ks.str().c_str(), v.sig.size(), hex(v.sig).c_str(), vid.size(), vhid, v.msg.size(), want);
    bool got = pub.verify(sig.data(), v.sig.size(), em.data(), v.msg.size(), eid.data(), vid.size(), vhid);
    if (want >= 0)
        CHECK(got == (want == 1), got ? "accepts-invalid" : "rejects-valid", "%s: verify gives %d, the definition %d", names[kind], got, want);
    CHECK(sig.unchanged() && eid.unchanged() && em.unchanged(), "input-modified", "verify changed its inputs");
    if (kind == 0 || kind == 14)
        CHECK(want == 1, "oracle", "oracle rejects its own signature");
    if (s.coin(1, 4) && kind != 8)
    {
        Bytes ob = h.bytes(32) + enc1(S, form);
        CHECK(pub.verify(ob.data(), ob.size(), msg.data(), msg.size(), id.data(), id.size(), hid), "stateful", "verdict on a valid signature after another verification");
    }
    c.label(names[kind]);
    c.label(want == 1 ? "accepted" : want == 0 ? "rejected" : "left open");
    c.nontrivial(kind != 13);
}
PROP(verify_sm3, 1100, 50000) { run<Hash3>(s, c, ref_sm3); }
PROP(verify_other_hash, 300, 12000)
{
    sm2h::with_digest(s, [&](auto h, HashFn ref, std::size_t) { run<decltype(h)>(s, c, ref); });
}
// the message alone determines h: everything hinges on range and encoding checks
PROP(chosen_h, 900, 30000)
{
    using H = HeadHash<40>;
    const Z& n = R::n();
    Z        h = s.coin() ? Z((std::int64_t)(1 + s.below(4))) : gen_nz(s), ks = gen_nz(s), h1 = s.coin(1, 4) ? ks : gen_nz(s), e = gen_nz(s);
    bool     at_inf = s.coin(1, 8);
    if (at_inf)
        h1 = n - ks;
    Bytes msg = (h - 1 + (n - 1) * Z::u(s.draw(0xffffffffull))).bytes(40) + s.bytes(s.below(20));
    Bytes id  = (h1 - 1 + (n - 1) * Z::u(s.draw(0xffffffffull))).bytes(40) + s.bytes(s.below(20));
    at_inf    = (h1 + ks) % n == Z(0);
    Pt2   Q = R::mulg2(ks);
    Bytes sp;
    Z     hs = h;
    int   valid;
    unsigned kind = (unsigned)s.below(6);
    Pt       S = R::mulg1(e);
    int      form = (int)s.below(3);
    if (s.coin(1, 4))
        S = gen_rare(s), c.label("S with a rare x coordinate");
    sp = enc1(S, form);
    switch (kind)
    {
    case 0: break;
    case 1: hs = h + n < Z::pow2(256) ? h + n : n; break;
    case 2: hs = s.coin() ? Z(0) : n - h; break;
    case 3: hs = s.coin() ? h + 1 : h - 1; break;
    case 4: sp[1 + s.below(sp.size() - 1)] ^= (u8)(1u << s.below(8)); break;
    case 5: sp.resize(s.below(sp.size() + 3)); break;
    }
    Pt  X;
    int d = dec1(sp, &X);
    valid = hs == h ? d : 0;
    NOTE("kind %u h=%s sent %s point %s h1=%s ks=%s expected %d", kind, h.str().c_str(), hs.str().c_str(), hex(sp).c_str(), h1.str().c_str(), ks.str().c_str(), valid);
    sm9::SM9SignMasterPublicKey<H> pub;
    pub.set_pub(Q.x.bytes().data(), Q.y.bytes().data());
    Exact sig(hs.bytes(32) + sp), eid(id), em(msg);
    bool  got = pub.verify(sig.data(), sig.size(), em.data(), msg.size(), eid.data(), id.size(), 1);
    if (valid == 0 || (valid == 1 && !at_inf))
        CHECK(got == (valid == 1), got ? "accepts-invalid" : "rejects-valid", "verify gives %d, the definition %d", got, valid);
    c.label(at_inf ? "h1=-ks" : valid == 1 ? "valid" : valid == 0 ? "invalid" : "left open");
    c.nontrivial();
}
// an identity without a key: nobody can sign for it, whatever the broken
// pairing value might be taken for
PROP(keyless_identity, 200, 6000)
{
    Z     h1, ks;
    Bytes id = gen_id(s), msg = s.bytes(s.below(50));
    h1 = H1(ref_sm3, id, 1);
    ks = R::n() - h1;
    Pt2 Q = R::mulg2(ks);
    sm9::SM9SignMasterPublicKey<Hash3> pub;
    pub.set_pub(Q.x.bytes().data(), Q.y.bytes().data());
    Bytes w;
    unsigned kind = (unsigned)s.below(4);
    switch (kind)
    {
    case 0: w = Bytes(384); break;
    case 1: w = E12::one().bytes(); break;
    case 2: w = R::gpow(ks).bytes(); break;
    case 3: w = R::gpow(gen_nz(s)).bytes(); break;
    }
    Z     h = R::Hn(ref_sm3, 2, msg + w);
    Pt    S = R::mulg1(gen_nz(s));
    Exact sig(h.bytes(32) + enc1(S, (int)s.below(3)));
    NOTE("identity with ks=-h1, kind %u", kind);
    CHECK(!pub.verify(sig.data(), sig.size(), msg.data(), msg.size(), id.data(), id.size(), 1), "accepts-invalid", "forgery for an identity with h1+ks=0 (w taken as kind %u)", kind);
    c.nontrivial();
}
PROP(all_bit_flips, 2, 40)
{
    const Z& n = R::n();
    Z        ks = gen_nz(s);
    Bytes    id = s.bytes(s.below(20)), msg = s.bytes(s.below(60));
    Z        h1 = H1(ref_sm3, id, 1), r = gen_nz(s), h = H2(ref_sm3, msg, R::gpow(ks * r % n)), t1 = (h1 + ks) % n;
    if (t1 == Z(0) || r == h)
        c.discard();
    Pt    S = R::mulg1((r - h) % n * ks % n * inv_n(t1) % n);
    Pt2   Q = R::mulg2(ks);
    int   form = (int)s.below(2);
    Bytes sig = h.bytes(32) + enc1(S, form);
    sm9::SM9SignMasterPublicKey<Hash3> pub;
    pub.set_pub(Q.x.bytes().data(), Q.y.bytes().data());
    NOTE("ks=%s r=%s", ks.str().c_str(), r.str().c_str());
    CHECK(pub.verify(sig.data(), sig.size(), msg.data(), msg.size(), id.data(), id.size()), "rejects-valid", "valid signature rejected");
    for (std::size_t i = 0; i < sig.size() * 8; i++)
    {
        sig[i / 8] ^= (u8)(1u << (i % 8));
        // 04 <-> 06 by a flip is the hybrid form, open or valid
        if (!(i / 8 == 32 && (sig[32] == 6 || sig[32] == 7)))
            CHECK(!pub.verify(sig.data(), sig.size(), msg.data(), msg.size(), id.data(), id.size()), "accepts-invalid", "bit %zu flipped and still accepted", i);
        sig[i / 8] ^= (u8)(1u << (i % 8));
    }
    for (std::size_t l = 0; l < sig.size(); l++)
    {
        Exact t(Bytes(sig.begin(), sig.begin() + (long)l));
        CHECK(!pub.verify(t.data(), l, msg.data(), msg.size(), id.data(), id.size()), "accepts-invalid", "truncated to %zu bytes and still accepted", l);
    }
    c.nontrivial();
}
#if !defined(__SANITIZE_ADDRESS__) && !defined(PBT_LIBFUZZER)
// messages and identities whose length 32 bits cannot hold
namespace {
using LH = hugemsg::LenHash<32>;
Z hn(u8 tag, const u8* p, u64 l, const Bytes& rest)
{
    Bytes ha;
    for (u8 ct = 1; ct < 3; ct++)
    {
        Bytes d(32), end = rest + Bytes{0, 0, 0, ct};
        LH    h;
        h.update(&tag, 1), h.update(p, l), h.do_final(d.data(), end.data(), end.size());
        ha = ha + d;
    }
    ha.resize(40);
    return Z::be(ha) % (R::n() - 1) + 1;
}
} // namespace
PROP(huge_message, 12, 200)
{
    const Z&    n = R::n();
    Z           ks = gen_nz(s), r = gen_nz(s);
    u64         l = hugemsg::gen_len(s);
    bigmap::Big big(l);
    if (!big.p)
        c.discard();
    big.fill(l);
    u8    hid = gen_hid(s);
    Pt2   Q = R::mulg2(ks);
    Bytes w = R::gpow(ks * r % n).bytes(), id = gen_id(s), msg = s.bytes(20);
    bool  ident = s.coin(); // the identity is the long one, or the message
    NOTE("ks=%s r=%s hid=%u, %s of %llu bytes", ks.str().c_str(), r.str().c_str(), hid, ident ? "identity" : "message", (unsigned long long)l);
    sm9::SM9SignMasterPublicKey<LH> pub;
    pub.set_pub(Q.x.bytes().data(), Q.y.bytes().data());
    const u8* ip = ident ? big.p : id.data();
    const u8* mp = ident ? msg.data() : big.p;
    auto sign = [&](u64 il, u64 ml) {
        Z t1 = (hn(1, ip, il, Bytes{hid}) + ks) % n, h = hn(2, mp, ml, w), e = (r - h) % n * (ks * inv_n(t1) % n) % n;
        return h.bytes(32) + enc1(R::mulg1(e), 0);
    };
    u64   il = ident ? l : id.size(), ml = ident ? msg.size() : l;
    Bytes good = sign(il, ml);
    CHECK(pub.verify(good.data(), good.size(), mp, ml, ip, il, hid), "rejects-valid", "valid signature rejected");
    for (u64 x : hugemsg::wrong_lens(l))
        if (s.coin(1, 3))
        {
            u64   xi = ident ? x : il, xm = ident ? ml : x;
            Bytes bad = sign(xi, xm);
            CHECK(!pub.verify(bad.data(), bad.size(), mp, ml, ip, il, hid), "accepts-invalid", "a signature for the first %llu bytes accepted", (unsigned long long)x);
            CHECK(!pub.verify(good.data(), good.size(), mp, xm, ip, xi, hid), "accepts-invalid", "accepted for the first %llu bytes", (unsigned long long)x);
        }
    // lengths of signatures are not taken modulo 2^32 either
    bigmap::Big sb((1ull << 32) + good.size());
    if (sb.p && mmap(sb.p, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) != MAP_FAILED)
    {
        std::copy(good.begin(), good.end(), sb.p);
        CHECK(!pub.verify(sb.p, (1ull << 32) + good.size(), mp, ml, ip, il, hid), "accepts-invalid", "signature of %llu bytes accepted", (1ull << 32) + (unsigned long long)good.size());
    }
    c.nontrivial();
    c.label("huge message");
}
#endif
