// Failure atomicity of the key objects: histories of imports, generations and
// uses, many of them failing, over one object and a model (the key it should
// hold).  After every step the object exports the model's key, and behaves as
// a fresh twin holding that key does.
#include "sm9h.h"
using namespace pbt;
using sm2h::ScriptRng;
namespace {
using sm2h::operator+;
struct FailingRng : rng::Rng
{
    std::size_t left;
    u64         st;
    FailingRng(std::size_t l, u64 s) : left(l), st(s) {}
    const char* name() const override { return "failing"; }
    void        gen(void* o, std::size_t n) override
    {
        for (std::size_t i = 0; i < std::min(n, left); i++)
            ((u8*)o)[i] = (u8)splitmix(st);
        if (n > left)
            throw std::runtime_error("generator failed");
        left -= n;
    }
};
// runs f; whether it threw
template <class F>
bool throws(F f)
{
    try
    {
        f();
        return false;
    }
    catch (const std::exception&)
    {
        return true;
    }
}
} // namespace
// ---------------------------------------------------------------- SM2
namespace two {
using namespace sm2h;
using H    = sm3::SM3;
using Priv = sm2::SM2PrivateKey<H>;
using Pub  = sm2::SM2PublicKey<H>;
static Z bad_priv(Source& s)
{
    const Z& n = R::n();
    switch (s.below(4))
    {
    case 0: return Z(0);
    case 1: return n - 1 + Z((std::int64_t)s.below(4));
    case 2: return Z::pow2(256) - 1 - Z((std::int64_t)s.below(4));
    default: return n + gen_scalar(s) % (Z::pow2(256) - n);
    }
}
static Bytes bad_pub(Source& s)
{
    const Z& p = R::p();
    for (;;)
    {
        Mult M = gen_point(s, false);
        Z    x = M.p.x, y = M.p.y;
        switch (s.below(6))
        {
        case 0: y = (y + 1) % p; break;
        case 1: x = (x + 1) % p; break;
        case 2: x = s.coin() ? p : Z::pow2(256) - 1; break;
        case 3: y = s.coin() ? p : Z::pow2(256) - 1; break;
        case 4: x = gen_scalar(s), y = gen_scalar(s); break;
        default: std::swap(x, y); break;
        }
        if (!R::on_curve(x, y))
            return x.bytes(32) + y.bytes(32);
    }
}
static Bytes exported(const Pub& k)
{
    Bytes x(32), y(32);
    k.get_pub(x.data(), y.data());
    return x + y;
}
static Bytes transcript_pub(const Pub& k, const Bytes& m, u64 seed, const Bytes& sig)
{
    ScriptRng   r(Bytes(), seed);
    Bytes       c(97 + m.size());
    std::size_t l = 0;
    k.encrypt(c.data(), &l, m.data(), m.size(), r);
    c.push_back(k.verify(sig.data(), m.data(), m.size()));
    return c;
}
static Bytes transcript(const Priv& k, const Bytes& m, u64 seed, const Bytes& sig)
{
    ScriptRng r(Bytes(), seed);
    Bytes     b(64);
    k.sign(b.data(), m.data(), m.size(), r);
    return b + transcript_pub(k.fetch_pub(), m, seed, sig);
}
static void priv_history(Source& s, Ctx& c)
{
    Priv k, other;
    Z    d;
    bool set = false;
    int  failures = 0;
    for (std::size_t i = 0, steps = 2 + s.below(5); i < steps; i++)
    {
        std::size_t op = set ? s.below(9) : s.below(2);
        Bytes       m  = s.bytes(s.below(40));
        u64         seed = s.word();
        switch (op)
        {
        case 0:
        {
            d = gen_priv(s);
            NOTE("import %s", d.str().c_str());
            k.set_priv(Exact(d.bytes(32)).data());
            set = true;
            break;
        }
        case 1:
        {
            ScriptRng r(gen_stream(s), seed);
            NOTE("generate");
            k.gen_priv(r);
            Bytes b(32);
            k.get_priv(b.data());
            d   = Z::be(b);
            set = true;
            break;
        }
        case 2:
        case 3:
        {
            Z v = bad_priv(s);
            NOTE("import the invalid %s", v.str().c_str());
            CHECK(throws([&] { k.set_priv(Exact(v.bytes(32)).data()); }), "accepted", "the private key %s is accepted", v.str().c_str());
            failures++;
            break;
        }
        case 4:
        {
            FailingRng r(s.below(32), seed);
            NOTE("generate from a generator that fails after %zu bytes", r.left);
            CHECK(throws([&] { k.gen_priv(r); }), "failure-ignored", "gen_priv succeeds although the generator fails");
            failures++;
            break;
        }
        case 5:
        {
            FailingRng r(s.below(32), seed);
            Bytes      sig(64);
            NOTE("sign with a failing generator");
            CHECK(throws([&] { k.sign(sig.data(), m.data(), m.size(), r); }), "failure-ignored", "sign succeeds although the generator fails");
            failures++;
            break;
        }
        case 6:
        {
            Bytes      id(8192 + s.below(3), 'x'), sig(64);
            ScriptRng  r(Bytes(), seed);
            NOTE("sign for an identity that is too long");
            CHECK(throws([&] { k.sign(sig.data(), m.data(), m.size(), r, id.data(), id.size()); }), "accepted", "an identity of %zu bytes is accepted", id.size());
            failures++;
            break;
        }
        case 7:
        {
            // a ciphertext that must be refused
            ScriptRng   r(Bytes(), seed);
            Bytes       msg = m + Bytes{1}, ct(97 + msg.size()), out(msg.size() + 1);
            std::size_t l;
            k.encrypt(ct.data(), &l, msg.data(), msg.size(), r);
            ct[1 + s.below(ct.size() - 1)] ^= (u8)(1 + s.below(255));
            NOTE("decrypt an altered ciphertext");
            CHECK(throws([&] { k.decrypt(out.data(), &l, ct.data(), ct.size()); }), "accepted", "an altered ciphertext is accepted");
            failures++;
            break;
        }
        default:
        {
            // a constructor that throws inside an assignment
            Z v = bad_priv(s);
            NOTE("assign a key constructed from the invalid %s", v.str().c_str());
            CHECK(throws([&] { k = Priv(Exact(v.bytes(32)).data()); }), "accepted", "the private key %s is accepted", v.str().c_str());
            failures++;
        }
        }
        Bytes b(32);
        k.get_priv(b.data());
        CHECK_EQ_BYTES(b, d.bytes(32), "private-changed", "private key after the step");
        Pt P = R::mulg(d);
        CHECK_EQ_BYTES(exported(k.fetch_pub()), P.x.bytes(32) + P.y.bytes(32), "public-changed", "public key after the step");
        if (s.coin(1, 3))
        {
            Priv      twin(d.bytes(32).data());
            ScriptRng r(Bytes(), seed ^ 1);
            Bytes     sig(64);
            twin.sign(sig.data(), m.data(), m.size(), r);
            if (s.coin(1, 4))
                sig[s.below(64)] ^= 1;
            CHECK_EQ_BYTES(transcript(k, m, seed, sig), transcript(twin, m, seed, sig), "use-changed", "signature, ciphertext and verdict of the object and of a twin");
        }
    }
    c.label("SM2 private");
    c.nontrivial(failures > 0);
}
static void pub_history(Source& s, Ctx& c)
{
    Pub   k;
    Mult  M = gen_point(s, false);
    Bytes held = M.p.x.bytes(32) + M.p.y.bytes(32);
    k.set_pub(&held[0], &held[32]);
    for (std::size_t i = 0, steps = 1 + s.below(5); i < steps; i++)
    {
        Bytes m = s.bytes(s.below(40));
        u64   seed = s.word();
        switch (s.below(4))
        {
        case 0:
        {
            M    = gen_point(s, false);
            held = M.p.x.bytes(32) + M.p.y.bytes(32);
            k.set_pub(&held[0], &held[32]);
            break;
        }
        case 1:
        {
            FailingRng  r(s.below(32), seed);
            Bytes       ct(97 + m.size());
            std::size_t l;
            NOTE("encrypt with a failing generator");
            CHECK(throws([&] { k.encrypt(ct.data(), &l, m.data(), m.size(), r); }), "failure-ignored", "encrypt succeeds although the generator fails");
            break;
        }
        default:
        {
            Exact b(bad_pub(s));
            NOTE("import the invalid %s", hex(b.data(), 64).c_str());
            CHECK(throws([&] { k.set_pub(b.data(), b.data() + 32); }), "accepted", "the public key %s is accepted", hex(b.data(), 64).c_str());
        }
        }
        CHECK_EQ_BYTES(exported(k), held, "public-changed", "public key after the step");
        if (s.coin(1, 3))
        {
            Pub   twin(&held[0], &held[32]);
            Bytes sig = s.rnd(64);
            sig[0] &= 0x7f, sig[32] &= 0x7f;
            CHECK_EQ_BYTES(transcript_pub(k, m, seed, sig), transcript_pub(twin, m, seed, sig), "use-changed", "ciphertext and verdict of the object and of a twin");
        }
    }
    c.label("SM2 public");
    c.nontrivial();
}
} // namespace two
// ---------------------------------------------------------------- SM9
namespace nine {
using namespace sm9h;
using H      = Hash3;
using Master = sm9::SM9SignMasterPrivateKey<H>;
using Pub    = sm9::SM9SignMasterPublicKey<H>;
using User   = sm9::SM9SignPrivateKey<H>;
static Bytes flat(const Pt2& q) { return q.x.bytes() + q.y.bytes(); }
static Bytes exported(const Pub& p)
{
    Bytes x(64), y(64);
    p.get_pub(x.data(), y.data());
    return x + y;
}
static Bytes exported(const User& u)
{
    Bytes px(32), py(32), qx(64), qy(64);
    u.get_priv(px.data(), py.data(), qx.data(), qy.data());
    return px + py + qx + qy;
}
static Bytes bad_master(Source& s)
{
    const Z& n = R::n();
    switch (s.below(4))
    {
    case 0: return Z(0).bytes(32);
    case 1: return (n + Z((std::int64_t)s.below(4))).bytes(32);
    case 2: return (Z::pow2(256) - 1 - Z((std::int64_t)s.below(4))).bytes(32);
    default: return (n + gen_scalar(s) % (Z::pow2(256) - n)).bytes(32);
    }
}
static Bytes bad_pub(Source& s)
{
    const Z& p = R::p();
    for (;;)
    {
        Pt2 Q = R::mulg2(gen_nz(s));
        Z*  f[4] = {&Q.x.c0, &Q.x.c1, &Q.y.c0, &Q.y.c1};
        Z&  v    = *f[s.below(4)];
        switch (s.below(4))
        {
        case 0: v = (v + 1) % p; break;
        case 1: v = p + Z((std::int64_t)s.below(3)); break;
        case 2: v = Z::pow2(256) - 1; break;
        default: std::swap(Q.x, Q.y); break;
        }
        if (!(Q.x.canonical() && Q.y.canonical() && R::on2(Q.x, Q.y)))
            return flat(Q);
    }
}
static Bytes bad_point(Source& s)
{
    const Z& p = R::p();
    for (;;)
    {
        Pt D = R::mulg1(gen_nz(s));
        Z& v = s.coin() ? D.x : D.y;
        switch (s.below(4))
        {
        case 0: v = (v + 1) % p; break;
        case 1: v = p + Z((std::int64_t)s.below(3)); break;
        case 2: v = Z::pow2(256) - 1; break;
        default: std::swap(D.x, D.y); break;
        }
        if (!R::on1(D.x, D.y))
            return D.x.bytes(32) + D.y.bytes(32);
    }
}
static Bytes verdicts(const Pub& p, const Bytes& sig, const Bytes& m, const Bytes& id)
{
    Bytes o, t = sig;
    o.push_back(p.verify(t.data(), t.size(), m.data(), m.size(), id.data(), id.size()));
    t[3] ^= 1;
    o.push_back(p.verify(t.data(), t.size(), m.data(), m.size(), id.data(), id.size()));
    return o;
}
static void master_history(Source& s, Ctx& c)
{
    Z      ks = gen_nz(s);
    Master k(ks.bytes(32).data());
    int    failures = 0;
    for (std::size_t i = 0, steps = 1 + s.below(3); i < steps; i++)
    {
        u64 seed = s.word();
        switch (s.below(5))
        {
        case 0:
            ks = gen_nz(s);
            k.set_priv(Exact(ks.bytes(32)).data());
            break;
        case 1:
        {
            FailingRng r(s.below(32), seed);
            NOTE("generate from a generator that fails after %zu bytes", r.left);
            CHECK(throws([&] { k.gen_priv(r); }), "failure-ignored", "gen_priv succeeds although the generator fails");
            failures++;
            break;
        }
        case 2:
        {
            Exact b(bad_master(s));
            NOTE("assign a key constructed from the invalid %s", hex(b.data(), 32).c_str());
            CHECK(throws([&] { k = Master(b.data()); }), "accepted", "the master key %s is accepted", hex(b.data(), 32).c_str());
            failures++;
            break;
        }
        default:
        {
            Exact b(bad_master(s));
            NOTE("import the invalid %s", hex(b.data(), 32).c_str());
            CHECK(throws([&] { k.set_priv(b.data()); }), "accepted", "the master key %s is accepted", hex(b.data(), 32).c_str());
            failures++;
        }
        }
        Bytes b(32);
        k.get_priv(b.data());
        CHECK_EQ_BYTES(b, ks.bytes(32), "private-changed", "master private key after the step");
        CHECK_EQ_BYTES(exported(k.fetch_SignPublicKey()), flat(R::mulg2(ks)), "public-changed", "master public key after the step");
        if (s.coin(1, 3))
        {
            Master    twin(ks.bytes(32).data());
            Bytes     id = s.bytes(s.below(20)), m = s.bytes(s.below(20)), sig(97), sig2(97);
            ScriptRng r1(Bytes(), 1), r2(Bytes(), 1);
            User      a = k.gen_SignPrivateKey(id.data(), id.size(), r1), t = twin.gen_SignPrivateKey(id.data(), id.size(), r2);
            CHECK_EQ_BYTES(exported(a), exported(t), "use-changed", "user key extracted by the object and by a twin");
            ScriptRng   q(Bytes(), seed);
            std::size_t l;
            t.sign(sig.data(), &l, m.data(), m.size(), q);
            CHECK_EQ_BYTES(verdicts(k.fetch_SignPublicKey(), sig, m, id), (Bytes{1, 0}), "use-changed", "verdicts of the master public key");
        }
    }
    c.label("SM9 master private");
    c.nontrivial(failures > 0);
}
static void pub_history(Source& s, Ctx& c)
{
    Z     ks = gen_nz(s);
    Bytes held = flat(R::mulg2(ks));
    Pub   k;
    k.set_pub(&held[0], &held[64]);
    for (std::size_t i = 0, steps = 1 + s.below(4); i < steps; i++)
    {
        if (s.coin(1, 4))
        {
            ks   = gen_nz(s);
            held = flat(R::mulg2(ks));
            k.set_pub(&held[0], &held[64]);
        }
        else
        {
            Exact b(bad_pub(s));
            NOTE("import the invalid %s", hex(b.data(), 128).c_str());
            CHECK(throws([&] { k.set_pub(b.data(), b.data() + 64); }), "accepted", "the master public key %s is accepted", hex(b.data(), 128).c_str());
        }
        CHECK_EQ_BYTES(exported(k), held, "public-changed", "master public key after the step");
        if (s.coin(1, 3))
        {
            Master      m0(ks.bytes(32).data());
            Bytes       id = s.bytes(s.below(20)), m = s.bytes(s.below(20)), sig(97);
            ScriptRng   r1(Bytes(), 1), q(Bytes(), s.word());
            std::size_t l;
            m0.gen_SignPrivateKey(id.data(), id.size(), r1).sign(sig.data(), &l, m.data(), m.size(), q);
            CHECK_EQ_BYTES(verdicts(k, sig, m, id), (Bytes{1, 0}), "use-changed", "verdicts of the master public key");
        }
    }
    c.label("SM9 master public");
    c.nontrivial();
}
static void user_history(Source& s, Ctx& c)
{
    User  k;
    Bytes held;
    Z     ks;
    Bytes id;
    int   failures = 0;
    auto  fresh = [&] {
        ks   = gen_nz(s);
        id   = s.bytes(s.below(20));
        Z t1 = (H1(ref_sm3, id, 1) + ks) % R::n();
        if (t1 == Z(0))
            ks = (ks + 1) % R::n(), t1 = Z(1);
        Pt D = R::mulg1(ks * inv_n(t1) % R::n());
        held = D.x.bytes(32) + D.y.bytes(32) + flat(R::mulg2(ks));
        k.set_priv(&held[0], &held[32], &held[64], &held[128]);
    };
    fresh();
    for (std::size_t i = 0, steps = 1 + s.below(3); i < steps; i++)
    {
        switch (s.below(6))
        {
        case 0: fresh(); break;
        case 1:
        {
            FailingRng  r(s.below(32), s.word());
            Bytes       sig(97), m = s.bytes(s.below(20));
            std::size_t l;
            NOTE("sign with a failing generator");
            CHECK(throws([&] { k.sign(sig.data(), &l, m.data(), m.size(), r); }), "failure-ignored", "sign succeeds although the generator fails");
            failures++;
            break;
        }
        default:
        {
            // the private part, the public part or both are invalid
            std::size_t which = 1 + s.below(3);
            Pt          D     = R::mulg1(gen_nz(s));
            Exact       b((which & 1 ? bad_point(s) : D.x.bytes(32) + D.y.bytes(32)) + (which & 2 ? bad_pub(s) : flat(R::mulg2(gen_nz(s)))));
            NOTE("import an invalid user key (%s)", which == 1 ? "private part" : which == 2 ? "public part" : "both parts");
            CHECK(throws([&] { k.set_priv(b.data(), b.data() + 32, b.data() + 64, b.data() + 128); }), "accepted", "the user key %s is accepted", hex(b.data(), 192).c_str());
            failures++;
        }
        }
        CHECK_EQ_BYTES(exported(k), held, "user-changed", "user key after the step");
        CHECK_EQ_BYTES(exported(k.fetch_pub()), Bytes(held.begin() + 64, held.end()), "public-changed", "public part after the step");
        if (s.coin(1, 3))
        {
            Bytes       m = s.bytes(s.below(20)), a(97), b(97);
            u64         seed = s.word();
            ScriptRng   q1(Bytes(), seed), q2(Bytes(), seed);
            std::size_t l;
            User        twin;
            twin.set_priv(&held[0], &held[32], &held[64], &held[128]);
            k.sign(a.data(), &l, m.data(), m.size(), q1);
            twin.sign(b.data(), &l, m.data(), m.size(), q2);
            CHECK_EQ_BYTES(a, b, "use-changed", "signatures by the object and by a twin");
            CHECK_EQ_BYTES(verdicts(k.fetch_pub(), b, m, id), (Bytes{1, 0}), "use-changed", "verdicts of the public part");
        }
    }
    c.label("SM9 user");
    c.nontrivial(failures > 0);
}
} // namespace nine
PROP(sm2_private, 1500, 80000) { two::priv_history(s, c); }
PROP(sm2_public, 1500, 80000) { two::pub_history(s, c); }
PROP(sm9_master_private, 300, 15000) { nine::master_history(s, c); }
PROP(sm9_master_public, 300, 15000) { nine::pub_history(s, c); }
PROP(sm9_user, 300, 15000) { nine::user_history(s, c); }
