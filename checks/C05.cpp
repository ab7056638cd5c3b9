#include "gcmhuge.h"
using namespace modes;
using namespace pbt;
static void one(Source& s, Ctx& c, std::size_t maxlen, std::size_t rounds)
{
    const GcmSuite&         su = pick_gcm(s);
    std::unique_ptr<GcmObj> o;
    for (std::size_t r = 0; r < rounds; r++)
    {
        Bytes key = s.bytes(su.key_len);
        auto  ci  = su.refc(key);
        bool  wraps = false;
        Bytes iv = gcm_iv(s, ci, &wraps), aad = s.bytes(s.len(s.coin(1, 10) ? 700 : 70, 16)), pt = s.bytes(s.len(maxlen, 16));
        auto  pieces = cut(s, pt.size(), 16, 6);
        NOTE("%s-GCM key=%s iv=%s aad[%zu]=%s pt[%zu]=%s in %zu pieces%s", su.name, hex(key).c_str(), hex(iv).c_str(), aad.size(), hex(aad, 40).c_str(), pt.size(),
             hex(pt, 40).c_str(), pieces.size(), r ? " (same object again)" : "");
        ref::GcmOut want = ref::gcm_encrypt(ci, iv, aad, pt);
        Exact       kb(key), ib(iv), ab(aad);
        if (!o)
        {
            if (s.coin())
                o = su.make_init(true, kb.data(), ib.data(), iv.size(), ab.data(), aad.size());
            else
                (o = su.make(true))->init(kb.data(), ib.data(), iv.size(), aad.empty() && s.coin() ? nullptr : ab.data(), aad.size());
        }
        else
            o->init(kb.data(), ib.data(), iv.size(), ab.data(), aad.size());
        CHECK(kb.unchanged() && ib.unchanged() && ab.unchanged(), "input-modified", "init changed its arguments");
        bool        same = s.coin(1, 4); // one buffer as input and output
        Guarded     gi(pt, s.below(20)), go2(pt.size(), s.below(20));
        Guarded&    go = same ? gi : go2;
        std::size_t ip = 0, op = 0;
        for (std::size_t k = 0; k < pieces.size(); k++)
        {
            std::size_t l = 0;
            if (k + 1 == pieces.size())
                o->do_final(go.data() + op, &l, gi.data() + ip, pieces[k]);
            else
                o->update(go.data() + op, &l, gi.data() + ip, pieces[k]);
            ip += pieces[k], op += l;
            CHECK(op <= ip, "length", "more output than input");
        }
        CHECK(op == pt.size(), "length", "%zu bytes out of %zu", op, pt.size());
        CHECK(gi.intact() && (same || gi.is(pt)) && go.intact(), "out-of-bounds", "wrote outside the output");
        Guarded tb(16, s.below(20));
        o->get_tag(tb.data());
        CHECK_EQ_BYTES(go.bytes(), want.ct, wraps ? "ciphertext-wrap" : "ciphertext", "ciphertext");
        CHECK_EQ_BYTES(tb.bytes(), want.tag, "tag", "tag");
        CHECK(tb.intact(), "out-of-bounds", "get_tag wrote outside 16 bytes");
        // the tag can be read again
        Guarded tb2(16);
        o->get_tag(tb2.data());
        CHECK_EQ_BYTES(tb2.bytes(), want.tag, "tag-again", "tag read twice");
        if (pt.size() + aad.size() > 16)
            c.nontrivial();
        if (same)
            c.label("in place");
        if (wraps)
            c.label("counter about to wrap");
        if (iv.size() != 12)
            c.label("hashed IV");
        if (r)
            c.label("object reused");
        if (pt.empty())
            c.label("empty plaintext");
        if (aad.size() % 16)
            c.label("partial AAD block");
        if (pt.size() % 16)
            c.label("partial last block");
    }
}
PROP(single, 6000, 300000) { one(s, c, 150, 1); }
PROP(reuse, 4000, 200000) { one(s, c, 150, 2 + s.below(3)); }
PROP(medium, 2000, 100000) { one(s, c, 1200, 1); }
PROP(long_messages, 40, 2000) { one(s, c, 20000, 1); }
#if !defined(__SANITIZE_ADDRESS__) && !defined(PBT_LIBFUZZER)
// lengths that do not fit in 32 bits, in bits or in bytes
static void huge(Source& s, Ctx& c, int dim)
{
    gcmhuge::Case k;
    if (!gcmhuge::gen(s, k, dim))
        c.discard();
    NOTE("key=%s iv of %llu, aad of %llu, text of %llu bytes", hex(Bytes(k.key, k.key + 16)).c_str(), (unsigned long long)k.iv.n, (unsigned long long)k.aad.n, (unsigned long long)k.in.n);
    block_cipher_mode::GcmEncryptor<gcmhuge::Quiet> e;
    e.init(k.key, k.iv.p, k.iv.n, k.aad.p, k.aad.n);
    auto        ct = gcmhuge::crypt(k);
    Bytes       want = gcmhuge::tag(k, ct), got(16);
    std::string err;
    CHECK(gcmhuge::run(s, e, k, ct, err), "ciphertext", "huge %s: %s", k.what, err.c_str());
    e.get_tag(got.data());
    CHECK_EQ_BYTES(got, want, "tag", strf("tag with a huge %s", k.what));
    c.nontrivial();
    c.label(k.what);
}
PROP(huge_aad, 2, 12) { huge(s, c, 0); }
PROP(huge_text, 2, 12) { huge(s, c, 1); }
PROP(huge_iv, 2, 12) { huge(s, c, 2); }
#endif
