#include "sm2h.h"
using namespace pbt;
using namespace sm2h;
// 1 accept, 0 reject, -1 left open
template <class H>
static int ref_decrypt(HashFn rh, const Z& d, const Bytes& C, Bytes* m)
{
    std::size_t DS = H::DIGEST_SIZE;
    if (C.empty())
        return 0;
    Pt          P;
    std::size_t l;
    bool        open = false;
    if (C[0] == 2 || C[0] == 3)
    {
        l = 33;
        if (C.size() < l + DS)
            return 0;
        Z x = Z::be(&C[1], 32);
        if (x >= R::p() || !R::lift(x, C[0] & 1, &P))
            return 0;
    }
    else if (C[0] == 4 || C[0] == 6 || C[0] == 7)
    {
        l = 65;
        if (C.size() < l + DS)
            return 0;
        P.inf = false, P.x = Z::be(&C[1], 32), P.y = Z::be(&C[33], 32);
        if (!R::on_curve(P.x, P.y))
            return 0;
        open = C[0] != 4 && (C[0] & 1) != P.y.bit(0);
    }
    else
        return 0;
    Bytes C3(C.begin() + (long)l, C.begin() + (long)(l + DS)), C2(C.begin() + (long)(l + DS), C.end());
    Pt    S = R::mul(d, P);
    Bytes t = ref_kdf(rh, S.x.bytes(32) + S.y.bytes(32), C2.size());
    if (!C2.empty() && t == Bytes(C2.size(), 0))
        return 0;
    *m = C2;
    for (std::size_t i = 0; i < C2.size(); i++)
        (*m)[i] ^= t[i];
    if (rh(S.x.bytes(32) + *m + S.y.bytes(32)) != C3)
        return 0;
    if (C2.empty() || open)
        return -1;
    return 1;
}
static Bytes enc_pt(const Pt& P, int form)
{
    u8 par = (u8)P.y.bit(0);
    if (form == 1)
        return Bytes{(u8)(2 + par)} + P.x.bytes(32);
    return Bytes{(u8)(form == 0 ? 4 : 6 + par)} + P.x.bytes(32) + P.y.bytes(32);
}
template <class H>
static Bytes seal(HashFn rh, const Bytes& c1, const Pt& S, const Bytes& m, bool reject_zero = true)
{
    Bytes t = ref_kdf(rh, S.x.bytes(32) + S.y.bytes(32), m.size()), x = m;
    for (std::size_t i = 0; i < x.size(); i++)
        x[i] ^= t[i];
    return c1 + rh(S.x.bytes(32) + m + S.y.bytes(32)) + x;
}
template <class H>
static void judge(Source& s, Ctx& c, HashFn rh, const sm2::SM2PrivateKey<H>& key, const Z& d, const Bytes& C, const char* what)
{
    Bytes       m;
    int         want = ref_decrypt<H>(rh, d, C, &m);
    Exact       ec(C);
    const u8*   in = C.empty() && s.coin() ? nullptr : ec.data();
    bool        threw = false, lthrew = false;
    std::size_t pl = 0, ol = 777777;
    try
    {
        pl = sm2::SM2PrivateKey<H>::plaintext_len(in, C.size());
    }
    catch (const std::exception&)
    {
        lthrew = true;
    }
    CHECK(lthrew || pl <= C.size(), "plaintext-length", "plaintext_len gives %zu for %zu bytes", pl, C.size());
    Guarded out(lthrew ? C.size() : pl, s.below(17));
    try
    {
        key.decrypt(out.data(), &ol, in, C.size());
    }
    catch (const std::exception&)
    {
        threw = true;
    }
    CHECK(out.intact() && ec.unchanged(), "out-of-bounds", "decrypt wrote outside the plaintext buffer");
    if (want == 1)
    {
        CHECK(!threw, "rejects-valid", "%s: a valid ciphertext is rejected", what);
        CHECK(!lthrew && pl == m.size() && ol == m.size(), "length", "%s: lengths %zu %zu want %zu", what, pl, ol, m.size());
        CHECK_EQ_BYTES(out.bytes(), m, "plaintext", what);
    }
    else if (want == 0)
        CHECK(threw, "accepts-invalid", "%s: an invalid ciphertext of %zu bytes is accepted: %s", what, C.size(), hex(C, 140).c_str());
    c.label(want == 1 ? "accepted" : want == 0 ? "rejected" : "left open");
}
template <class H>
static void run(Source& s, Ctx& c, HashFn rh, std::size_t maxlen)
{
    const Z&              p = R::p();
    Z                     d = gen_priv(s), k = gen_scalar(s) % R::n();
    if (k == Z(0))
        k = Z(1);
    sm2::SM2PrivateKey<H> key(d.bytes(32).data());
    Pt                    K = R::mulg(k), S = R::mulg(k * d % R::n());
    int                   form = (int)s.below(3);
    std::size_t           n    = 1 + s.len(maxlen - 1, H::DIGEST_SIZE);
    if (H::DIGEST_SIZE == 1 && n > 1 && s.coin())
    {
        // a key stream with a zero byte at its end or start
        bool last = s.coin();
        Pt   D = R::mulg(d);
        for (int j = 0; j < 150; j++)
        {
            Bytes t = ref_kdf(rh, S.x.bytes(32) + S.y.bytes(32), n);
            if ((last ? t.back() : t[0]) == 0)
                break;
            k = k + 1, K = R::add(K, R::G()), S = R::add(S, D);
        }
        if (K.inf)
            c.discard();
    }
    Bytes                 m = s.bytes(n), C1 = enc_pt(K, form), C = seal<H>(rh, C1, S, m), good = C;
    unsigned              kind = (unsigned)s.weighted({3, 8, 4, 3, 3, 4, 4, 3, 3, 3, 2, 2, 6, 2, 3});
    static const char* names[] = {"valid", "bit flip", "truncated", "extended", "prefix", "off-curve point", "non-canonical point", "swapped parts", "negated point", "random", "splice", "empty C2", "cancelling change", "C3 half kept", "rare point"};
    switch (kind)
    {
    case 0: break;
    case 1: C[s.below(C.size())] ^= (u8)(1u << s.below(8)); break;
    case 2: C.resize(s.coin() ? s.below(C.size()) : C.size() - 1 - s.below(std::min<std::size_t>(C.size(), 3))); break;
    case 3: C = C + s.bytes(1 + s.below(40)); break;
    case 4: C[0] = s.coin() ? (u8)s.below(9) : s.byte(); break;
    case 5:
    {
        // a point of another curve of the same family (the formulas never use b),
        // with the rest of the ciphertext consistent with it
        Pt X;
        X.inf = false;
        X.x   = num::gen_mod(s, p), X.y = s.coin(1, 5) ? Z(0) : num::gen_mod(s, p);
        if (R::on_curve(X.x, X.y))
            c.discard();
        Pt T = R::mul(d, X);
        if (T.inf)
            T.x = T.y = Z(0);
        C = seal<H>(rh, enc_pt(X, form == 1 ? 0 : form), T, m);
        if (form == 1 && s.coin())
        {
            // compressed with an x that has no point
            Pt t;
            Z  x = num::gen_mod(s, p);
            while (R::lift(x, 0, &t))
                x = (x + 1) % p;
            C = Bytes{(u8)(2 + s.below(2))} + x.bytes(32) + s.bytes(H::DIGEST_SIZE + n);
        }
        break;
    }
    case 6:
    {
        // a genuine point whose x is written as x + p
        Pt X;
        Z  x;
        do
            x = s.coin() ? Z((std::int64_t)s.below(400)) : Z::u(s.word());
        while (!R::lift(x, (int)s.below(2), &X));
        Pt    T = R::mul(d, X);
        Bytes e = enc_pt(X, form), nx = (X.x + p).bytes(32);
        std::copy(nx.begin(), nx.end(), e.begin() + 1);
        C = seal<H>(rh, e, T, m);
        break;
    }
    case 7:
    {
        // old C1 C2 C3 order
        C = C1 + Bytes(good.begin() + (long)(C1.size() + H::DIGEST_SIZE), good.end()) + Bytes(good.begin() + (long)C1.size(), good.begin() + (long)(C1.size() + H::DIGEST_SIZE));
        break;
    }
    case 8:
    {
        Bytes e = enc_pt(R::neg(K), form);
        std::copy(e.begin(), e.end(), C.begin());
        break;
    }
    case 9: C = s.bytes(s.below(200)); if (!C.empty() && s.coin()) C[0] = (u8)(2 + s.below(6)); break;
    case 10:
    {
        // C1 of one message with C3, C2 of another
        Z     k2 = gen_priv(s);
        Bytes e  = enc_pt(R::mulg(k2), form);
        std::copy(e.begin(), e.end(), C.begin());
        break;
    }
    case 12:
        // mostly C3, then C2 and the coordinates of C1
        switch (s.below(5))
        {
        case 0: cancel_alter(s, &C[C1.size() + H::DIGEST_SIZE], n); break;
        case 1: cancel_alter(s, &C[1], C1.size() - 1); break;
        default: cancel_alter(s, &C[C1.size()], H::DIGEST_SIZE); break;
        }
        break;
    case 13:
    {
        std::size_t k = s.below(H::DIGEST_SIZE); // the last k or the first k bytes of C3 are wrong
        bool        head = s.coin();
        for (std::size_t i = 0; i <= k; i++)
            C[C1.size() + (head ? i : H::DIGEST_SIZE - 1 - i)] ^= 0xff;
        break;
    }
    case 11: C = seal<H>(rh, C1, S, Bytes()); break;
    case 14:
    {
        // a genuine ciphertext whose C1, or the point [d]C1, has a rare x coordinate
        Pt X = gen_rare(s);
        C    = s.coin() ? seal<H>(rh, enc_pt(X, form), R::mul(d, X), m) : seal<H>(rh, enc_pt(R::mul(d.powm(R::n() - 2, R::n()), X), form), X, m);
        break;
    }
    }
    NOTE("%s: d=%s k=%s form %d plaintext[%zu], ciphertext[%zu]=%s", names[kind], d.str().c_str(), k.str().c_str(), form, n, C.size(), hex(C, 180).c_str());
    judge<H>(s, c, rh, key, d, C, names[kind]);
    // the key is as good as before
    if (s.coin(1, 2))
    {
        Bytes       out(n);
        std::size_t ol = 0;
        Bytes       mm;
        if (ref_decrypt<H>(rh, d, good, &mm) == 1)
        {
            try
            {
                key.decrypt(out.data(), &ol, good.data(), good.size());
            }
            catch (const std::exception& ex)
            {
                c.fail("later-valid", strf("a valid ciphertext after a rejected one: %s", ex.what()));
            }
            CHECK_EQ_BYTES(out, m, "later-valid", "plaintext after a rejected ciphertext");
        }
    }
    c.label(names[kind]);
    c.nontrivial(kind != 9);
}
PROP(mutations_sm3, 3500, 140000) { run<sm3::SM3>(s, c, ref_sm3, 120); }
PROP(mutations_other_digests, 2500, 100000)
{
    // a digest of one byte reaches all-zero key streams and accepted forgeries often
    if (s.coin(2, 5))
        return run<CutHash<1>>(s, c, CutHash<1>::ref, 3);
    with_digest(s, [&](auto h, HashFn ref, std::size_t n) { run<decltype(h)>(s, c, ref, n * 3); });
}
PROP(all_bit_flips, 6, 200)
{
    using H = sm3::SM3;
    Z                     d = gen_priv(s), k = gen_priv(s);
    sm2::SM2PrivateKey<H> key(d.bytes(32).data());
    int                   form = (int)s.below(3);
    Bytes                 m = s.bytes(1 + s.below(40)), C = seal<H>(ref_sm3, enc_pt(R::mulg(k), form), R::mulg(k * d % R::n()), m);
    NOTE("form %d plaintext[%zu]", form, m.size());
    Bytes       out(m.size() + 40);
    std::size_t ol;
    for (std::size_t i = 0; i < C.size() * 8; i++)
    {
        Bytes t = C;
        t[i / 8] ^= (u8)(1u << (i % 8));
        if (t[0] != C[0] && (t[0] ^ C[0]) == 1 && form == 2)
            continue; // hybrid parity: left open
        Bytes mm;
        bool  threw = false;
        try
        {
            key.decrypt(out.data(), &ol, t.data(), t.size());
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        if (!threw)
            CHECK(ref_decrypt<H>(ref_sm3, d, t, &mm) != 0, "accepts-invalid", "bit %zu flipped and still accepted", i);
    }
    for (std::size_t l = 0; l < C.size(); l++)
    {
        bool threw = false;
        Exact e(Bytes(C.begin(), C.begin() + (long)l));
        try
        {
            key.decrypt(out.data(), &ol, e.data(), l);
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        CHECK(threw, "accepts-invalid", "truncation to %zu of %zu bytes accepted", l, C.size());
    }
    c.nontrivial();
}
