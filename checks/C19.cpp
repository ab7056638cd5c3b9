#include "sm2h.h"
using namespace pbt;
using namespace sm2h;
using H = sm3::SM3;
static Pt pub_of(const sm2::SM2PublicKey<H>& k)
{
    Bytes x(32), y(32);
    k.get_pub(x.data(), y.data());
    Pt p;
    p.inf = false, p.x = Z::be(x), p.y = Z::be(y);
    return p;
}
// the key really is (d, P): it signs verifiably for P and decrypts for d
static void use_key(Source& s, Ctx& c, const sm2::SM2PrivateKey<H>& key, const Z& d)
{
    Pt        P = R::mulg(d);
    Bytes     b(32), sig(64), msg = s.bytes(s.below(20)), id(16, 'i');
    key.get_priv(b.data());
    CHECK_EQ_BYTES(b, d.bytes(32), "get-priv", "exported private key");
    Pt q = pub_of(key.fetch_pub());
    CHECK(q == P, "derived-public", "public key of d=%s is %s want %s", d.str().c_str(), q.str().c_str(), P.str().c_str());
    if (s.coin(1, 3))
    {
        ScriptRng rng(Bytes(), s.word());
        key.sign(sig.data(), msg.data(), msg.size(), rng, id.data(), id.size());
        Z r = Z::be(&sig[0], 32), sv = Z::be(&sig[32], 32), k = (sv * (d + 1) + r * d) % R::n();
        CHECK((ref_e(ref_sm3, id, P, msg) + R::mulg(k).x) % R::n() == r, "sign", "signature of the key is not one of d=%s", d.str().c_str());
        CHECK(key.fetch_pub().verify(sig.data(), msg.data(), msg.size(), id.data(), id.size()), "verify", "own signature rejected");
    }
}
PROP(private_keys, 5000, 200000)
{
    const Z&              n = R::n();
    sm2::SM2PrivateKey<H> key;
    std::size_t           rounds = 1 + s.below(3);
    for (std::size_t i = 0; i < rounds; i++)
    {
        Z v;
        switch (s.below(6))
        {
        case 0: v = Z((std::int64_t)s.below(4)); break;
        case 1: v = n - 4 + Z((std::int64_t)s.below(8)); break;
        case 2: v = Z::pow2(256) - 1 - Z((std::int64_t)s.below(4)); break;
        case 3: v = n + gen_scalar(s) % (Z::pow2(256) - n); break;
        default: v = gen_scalar(s);
        }
        bool  ok = v >= Z(1) && v <= n - 2, threw = false;
        Exact e(v.bytes(32));
        NOTE("set private key %s (%s)", v.str().c_str(), ok ? "valid" : "invalid");
        try
        {
            if (s.coin())
                key.set_priv(e.data());
            else
                key = sm2::SM2PrivateKey<H>(e.data());
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        CHECK(threw != ok, "priv-accept", "private key %s is %s", v.str().c_str(), threw ? "rejected" : "accepted");
        CHECK(e.unchanged(), "input-modified", "key bytes changed");
        if (ok)
            use_key(s, c, key, v);
        c.label(ok ? "valid" : "invalid");
        c.nontrivial(v > Z(1));
    }
}
PROP(generated_keys, 4000, 150000)
{
    const Z&              n = R::n();
    Bytes                 st = gen_stream(s);
    u64                   seed = s.word();
    ScriptRng             r1(st, seed), r2(st, seed);
    sm2::SM2PrivateKey<H> a, b;
    if (s.coin(1, 3))
        a.set_priv(gen_priv(s).bytes(32).data());
    a.gen_priv(r1);
    if (s.coin())
        b.gen_priv(r2);
    else
        b = sm2::SM2PrivateKey<H>(r2);
    Bytes x(32), y(32);
    a.get_priv(x.data());
    b.get_priv(y.data());
    Z d = Z::be(x);
    NOTE("stream %s gives d=%s", hex(r1.given).c_str(), d.str().c_str());
    CHECK(d >= Z(1) && d <= n - 2, "gen-range", "generated private key %s is outside [1, n-2]", d.str().c_str());
    CHECK_EQ_BYTES(x, y, "gen-determinism", "keys generated from the same bytes");
    bool from = false;
    for (auto& k : nonce_candidates(last_block(r1)))
        from = from || k == d;
    CHECK(from, "gen-source", "d=%s does not come from the last block delivered, %s", d.str().c_str(), hex(last_block(r1)).c_str());
    use_key(s, c, a, d);
    // a generated key is importable
    sm2::SM2PrivateKey<H> k2;
    k2.set_priv(x.data());
    c.label(st.empty() ? "random stream" : "scripted stream");
    c.nontrivial();
}
PROP(public_keys, 6000, 250000)
{
    const Z&             p = R::p();
    sm2::SM2PublicKey<H> pub;
    std::size_t          rounds = 1 + s.below(3);
    for (std::size_t i = 0; i < rounds; i++)
    {
        Mult M = gen_point(s, false);
        Z    x = M.p.x, y = M.p.y;
        switch (s.below(9))
        {
        case 0: y = (p - y) % p; break;
        case 1: y = (y + 1) % p; break;
        case 2: x = (x - 1) % p; break;
        case 3: std::swap(x, y); break;
        case 4:
        {
            Pt q;
            Z  t;
            do
                t = Z::u(s.draw(0xffff));
            while (!R::lift(t, (int)s.below(2), &q));
            x = q.x + p, y = q.y;
            if (s.coin())
                q = gen_rare(s), x = q.x, y = q.y;
            break;
        }
        case 5: x = gen_scalar(s), y = gen_scalar(s); break;
        case 6: x = s.coin() ? Z(0) : p, y = s.coin() ? Z(0) : p; break;
        default: break;
        }
        bool  ok = R::on_curve(x, y), threw = false;
        Exact ex(x.bytes(32)), ey(y.bytes(32));
        NOTE("set public key (%s,%s) (%s)", x.str().c_str(), y.str().c_str(), ok ? "valid" : "invalid");
        try
        {
            if (s.coin())
                pub.set_pub(ex.data(), ey.data());
            else
                pub = sm2::SM2PublicKey<H>(ex.data(), ey.data());
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        CHECK(threw != ok, "pub-accept", "public key (%s,%s) is %s", x.str().c_str(), y.str().c_str(), threw ? "rejected" : "accepted");
        if (ok)
        {
            Pt q = pub_of(pub);
            CHECK(q.x == x && q.y == y, "get-pub", "exported public key %s", q.str().c_str());
            if (q != M.p && s.coin(1, 4))
            {
                // no discrete logarithm is known: a nonce is, the first draw of the stream
                Bytes       m = s.bytes(1 + s.below(20)), ct(200);
                std::size_t cl;
                ScriptRng   rng(Bytes(), s.word());
                pub.encrypt(ct.data(), &cl, m.data(), m.size(), rng);
                Pt C1, S;
                C1.inf = false, C1.x = Z::be(&ct[1], 32), C1.y = Z::be(&ct[33], 32);
                for (auto& k : nonce_candidates(last_block(rng)))
                    if (R::mulg(k) == C1)
                        S = R::mul(k, q);
                CHECK(!S.inf, "encrypt", "C1 is not a multiple drawn from the source");
                Bytes t = ref_kdf(ref_sm3, S.x.bytes(32) + S.y.bytes(32), m.size());
                for (std::size_t j = 0; j < m.size(); j++)
                    t[j] ^= m[j];
                CHECK_EQ_BYTES(Bytes(ct.begin() + 97, ct.begin() + (long)cl), t, "encrypt", "ciphertext for the imported key");
                c.label("key of unknown discrete logarithm");
            }
            if (q == M.p && s.coin(1, 4))
            {
                // what is encrypted to it opens with its discrete logarithm
                Bytes       m = s.bytes(1 + s.below(20)), ct(200);
                std::size_t cl;
                ScriptRng   rng(Bytes(), s.word());
                pub.encrypt(ct.data(), &cl, m.data(), m.size(), rng);
                Pt C1;
                C1.inf = false, C1.x = Z::be(&ct[1], 32), C1.y = Z::be(&ct[33], 32);
                Pt    S = R::mul(M.k, C1);
                Bytes t = ref_kdf(ref_sm3, S.x.bytes(32) + S.y.bytes(32), m.size());
                for (std::size_t j = 0; j < m.size(); j++)
                    t[j] ^= m[j];
                CHECK_EQ_BYTES(Bytes(ct.begin() + 97, ct.begin() + (long)cl), t, "encrypt", "ciphertext for the imported key");
            }
        }
        c.label(ok ? "valid" : "invalid");
        c.nontrivial();
    }
}
