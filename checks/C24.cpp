#include "sm9h.h"
using namespace pbt;
using namespace sm9h;
using H      = Hash3;
using Master = sm9::SM9SignMasterPrivateKey<H>;
using Pub    = sm9::SM9SignMasterPublicKey<H>;
using User   = sm9::SM9SignPrivateKey<H>;
static Bytes pub_bytes(const Pub& p)
{
    Bytes x(64), y(64);
    p.get_pub(x.data(), y.data());
    return x + y;
}
static Bytes flat(const Pt2& q) { return q.x.bytes() + q.y.bytes(); }
// the master key object really is ks
static void use(Source& s, Ctx& c, const Master& m, const Z& ks)
{
    const Z& n = R::n();
    Bytes    b(32);
    m.get_priv(b.data());
    CHECK_EQ_BYTES(b, ks.bytes(32), "get-priv", "exported master private key");
    CHECK_EQ_BYTES(pub_bytes(m.fetch_SignPublicKey()), flat(R::mulg2(ks)), "derived-public", "master public key");
    Bytes     id = gen_id(s);
    Z         t1 = (H1(ref_sm3, id, 1) + ks) % n;
    ScriptRng r(Bytes(), 1), r2(Bytes(), s.word());
    if (t1 == Z(0))
        return;
    User  u = m.gen_SignPrivateKey(id.data(), id.size(), r);
    Bytes px(32), py(32), qx(64), qy(64);
    u.get_priv(px.data(), py.data(), qx.data(), qy.data());
    Pt D = R::mulg1(ks * inv_n(t1) % n);
    CHECK_EQ_BYTES(px + py + qx + qy, D.x.bytes(32) + D.y.bytes(32) + flat(R::mulg2(ks)), "user-key", "user key of the identity");
    CHECK_EQ_BYTES(pub_bytes(u.fetch_pub()), flat(R::mulg2(ks)), "user-key", "public part of the user key");
    if (s.coin(1, 3))
    {
        Bytes       sig(97), msg = s.bytes(s.below(20));
        std::size_t l;
        u.sign(sig.data(), &l, msg.data(), msg.size(), r2);
        CHECK(m.fetch_SignPublicKey().verify(sig.data(), l, msg.data(), msg.size(), id.data(), id.size()), "verify", "signature by an extracted key is rejected");
    }
}
PROP(master_private, 700, 30000)
{
    const Z& n = R::n();
    Master   m;
    std::size_t rounds = 1 + s.below(2);
    for (std::size_t i = 0; i < rounds; i++)
    {
        Z v;
        switch (s.below(6))
        {
        case 0: v = Z((std::int64_t)s.below(4)); break;
        case 1: v = n - 3 + Z((std::int64_t)s.below(7)); break;
        case 2: v = Z::pow2(256) - 1 - Z((std::int64_t)s.below(4)); break;
        case 3: v = n + gen_scalar(s) % (Z::pow2(256) - n); break;
        default: v = gen_scalar(s);
        }
        bool  ok = v >= Z(1) && v < n, threw = false;
        Exact e(v.bytes(32));
        NOTE("set master key %s (%s)", v.str().c_str(), ok ? "valid" : "invalid");
        try
        {
            if (s.coin())
                m.set_priv(e.data());
            else
                m = Master(e.data());
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        CHECK(threw != ok, "priv-accept", "master private key %s is %s", v.str().c_str(), threw ? "rejected" : "accepted");
        CHECK(e.unchanged(), "input-modified", "key bytes changed");
        if (ok)
            use(s, c, m, v);
        c.label(ok ? "valid" : "invalid");
        c.nontrivial(v > Z(1));
    }
}
PROP(generated_master, 500, 20000)
{
    const Z&  n = R::n();
    Bytes     st = gen_stream(s);
    u64       seed = s.word();
    ScriptRng r1(st, seed), r2(st, seed);
    Master    a;
    if (s.coin(1, 3))
        a.set_priv(gen_nz(s).bytes(32).data());
    a.gen_priv(r1);
    Master b(r2);
    Bytes  x(32), y(32);
    a.get_priv(x.data());
    b.get_priv(y.data());
    Z ks = Z::be(x);
    NOTE("stream %s gives ks=%s", hex(r1.given).c_str(), ks.str().c_str());
    CHECK(ks >= Z(1) && ks < n, "gen-range", "generated master key %s is outside [1, n-1]", ks.str().c_str());
    CHECK_EQ_BYTES(x, y, "gen-determinism", "keys generated from the same bytes");
    bool from = false;
    for (auto& k : nonce_candidates(last_block9(r1)))
        from = from || k == ks;
    CHECK(from, "gen-source", "ks=%s does not come from the last block delivered, %s", ks.str().c_str(), hex(last_block9(r1)).c_str());
    use(s, c, a, ks);
    Master k2;
    k2.set_priv(x.data());
    c.label(st.empty() ? "random stream" : "scripted stream");
    c.nontrivial();
}
static Z tweak(Source& s, const Z& v) // a nearby or non-canonical coordinate
{
    const Z& p = R::p();
    switch (s.below(5))
    {
    case 0: return (v + 1) % p;
    case 1: return (p - v) % p;
    case 2: return v + p < Z::pow2(256) ? v + p : v;
    case 3: return s.coin() ? Z(0) : s.coin() ? p : Z::pow2(256) - 1;
    default: return gen_scalar(s);
    }
}
static Pt2 gen_pub(Source& s, Z* k)
{
    *k    = gen_nz(s);
    Pt2 Q = R::mulg2(*k);
    switch (s.below(9))
    {
    case 7:
    case 8: Q = almost2(s); break;
    case 0: Q.x.c0 = tweak(s, Q.x.c0); break;
    case 1: Q.x.c1 = tweak(s, Q.x.c1); break;
    case 2: Q.y.c0 = tweak(s, Q.y.c0); break;
    case 3: Q.y.c1 = tweak(s, Q.y.c1); break;
    case 4:
        switch (s.below(4))
        {
        case 0: Q = R::neg2(Q); break;
        case 1: std::swap(Q.x, Q.y); break;
        case 2: std::swap(Q.x.c0, Q.x.c1); break;
        case 3: Q.x = E2{Z(0), Z(0)}, Q.y = E2{Z(0), Z(0)}; break;
        }
        break;
    default: break;
    }
    return Q;
}
PROP(master_public, 1500, 60000)
{
    Pub         pub;
    std::size_t rounds = 1 + s.below(3);
    for (std::size_t i = 0; i < rounds; i++)
    {
        Z    k;
        Pt2  Q = gen_pub(s, &k), T = R::mulg2(k);
        bool ok = Q.x.canonical() && Q.y.canonical() && R::on2(Q.x, Q.y), threw = false;
        bool group = Q == T || Q == R::neg2(T); // otherwise perhaps outside the order-n group: may be refused
        Exact ex(Q.x.bytes()), ey(Q.y.bytes());
        NOTE("set master public key %s (%s)", Q.str().c_str(), ok ? "valid" : "invalid");
        try
        {
            pub.set_pub(ex.data(), ey.data());
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        if (!ok)
            CHECK(threw, "pub-accept", "public key %s is accepted", Q.str().c_str());
        if (ok && group)
        {
            CHECK(!threw, "pub-accept", "public key %s is rejected", Q.str().c_str());
            CHECK_EQ_BYTES(pub_bytes(pub), flat(Q), "get-pub", "exported master public key");
            if (s.coin(1, 3))
            {
                // it verifies what its discrete logarithm signs
                const Z& n = R::n();
                Z        ks = Q == T ? k : n - k, r = gen_nz(s);
                Bytes    id = gen_id(s), msg = s.bytes(s.below(30));
                Z        t1 = (H1(ref_sm3, id, 1) + ks) % n, h = H2(ref_sm3, msg, R::gpow(ks * r % n));
                if (t1 == Z(0) || r == h)
                    continue;
                Bytes sig = h.bytes(32) + enc1(R::mulg1((r - h) % n * ks % n * inv_n(t1) % n), 0);
                CHECK(pub.verify(sig.data(), sig.size(), msg.data(), msg.size(), id.data(), id.size()), "verify", "an imported public key rejects a valid signature");
                sig[0] ^= 1;
                CHECK(!pub.verify(sig.data(), sig.size(), msg.data(), msg.size(), id.data(), id.size()), "verify", "an imported public key accepts an altered signature");
            }
        }
        c.label(ok ? "valid" : "invalid");
        c.nontrivial();
    }
}
PROP(user_keys, 1200, 50000)
{
    const Z& p = R::p();
    User     u;
    std::size_t rounds = 1 + s.below(2);
    for (std::size_t i = 0; i < rounds; i++)
    {
        Z    k, e = gen_nz(s);
        Pt   D = R::mulg1(e);
        Pt2  Q = s.coin(1, 3) ? gen_pub(s, &k) : R::mulg2(k = gen_nz(s));
        switch (s.below(7))
        {
        case 0: D.x = tweak(s, D.x); break;
        case 1: D.y = tweak(s, D.y); break;
        case 3: // another curve of the same family: y^2 = x^3 + b, b != 5
        {
            bool ok = false;
            D.x     = num::gen_mod(s, p);
            D.y     = sqrt_p((D.x * D.x % p * D.x + p + s.range(1, 9) - 10) % p, &ok);
            break;
        }
        case 2:
        {
            // a point whose x is small enough for x + p to fit
            Pt q;
            Z  t;
            do
                t = Z::u(s.draw(0xffff));
            while (!R::lift1(t, (int)s.below(2), &q));
            D.x = q.x + p, D.y = q.y;
            if (s.coin())
                D = gen_rare(s);
            break;
        }
        default: break;
        }
        Pt2  T = R::mulg2(k);
        bool okD = R::on1(D.x, D.y), okQ = Q.x.canonical() && Q.y.canonical() && R::on2(Q.x, Q.y), group = Q == T || Q == R::neg2(T), threw = false;
        Exact dx(D.x.bytes(32)), dy(D.y.bytes(32)), qx(Q.x.bytes()), qy(Q.y.bytes());
        NOTE("set user key %s public %s (%d %d)", D.str().c_str(), Q.str().c_str(), okD, okQ);
        try
        {
            u.set_priv(dx.data(), dy.data(), qx.data(), qy.data());
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        if (!okD || !okQ)
            CHECK(threw, "user-accept", "user key %s with public key %s is accepted", D.str().c_str(), Q.str().c_str());
        else if (group)
        {
            CHECK(!threw, "user-accept", "user key %s with public key %s is rejected", D.str().c_str(), Q.str().c_str());
            Bytes a(32), b(32), x(64), y(64);
            u.get_priv(a.data(), b.data(), x.data(), y.data());
            CHECK_EQ_BYTES(a + b + x + y, D.x.bytes(32) + D.y.bytes(32) + flat(Q), "get-priv", "exported user key");
            CHECK_EQ_BYTES(pub_bytes(u.fetch_pub()), flat(Q), "get-pub", "public part of the user key");
        }
        c.label(okD && okQ ? "valid" : "invalid");
        c.nontrivial();
    }
}
