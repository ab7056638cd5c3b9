#include "gcmhuge.h"
using namespace modes;
using namespace pbt;
struct Msg
{
    Bytes key, iv, aad, ct, tag;
};
static const char* tamper(Source& s, Msg& m)
{
    auto flip = [&](Bytes& b) { b[s.below(b.size())] ^= (u8)(1 << s.below(8)); };
    switch (s.below(19))
    {
    case 0: flip(m.tag); return "tag bit";
    case 1: if (m.ct.size()) { flip(m.ct); return "ciphertext bit"; } break;
    case 2: if (m.aad.size()) { flip(m.aad); return "aad bit"; } break;
    case 3: flip(m.iv); return "iv bit";
    case 4: if (m.ct.size()) { m.ct.pop_back(); return "ciphertext truncated"; } break;
    case 5: m.ct.push_back(s.coin() ? 0 : s.byte()); return "ciphertext extended";
    case 6: if (m.aad.size()) { m.aad.pop_back(); return "aad truncated"; } break;
    case 7: m.aad.push_back(s.coin() ? 0 : s.byte()); return "aad extended";
    case 8: m.iv.push_back(0); return "iv extended";
    case 9: if (m.iv.size() > 1) { m.iv.pop_back(); return "iv truncated"; } break;
    case 10:
        if (m.aad.size()) { m.ct.insert(m.ct.begin(), m.aad.back()); m.aad.pop_back(); return "byte moved aad->ct"; }
        break;
    case 11:
        if (m.ct.size()) { m.aad.push_back(m.ct[0]); m.ct.erase(m.ct.begin()); return "byte moved ct->aad"; }
        break;
    case 12: { Bytes t = s.bytes(16); m.tag = t; return "random tag"; }
    case 13: { std::size_t k = s.below(16); for (std::size_t i = k; i < 16; i++) m.tag[i] ^= 0xff; return "tag suffix"; }
    case 15: case 16: cancel_alter(s, m.tag); return "tag, cancelling change";
    case 17: if (m.ct.size()) { cancel_alter(s, m.ct); return "ciphertext, cancelling change"; } break;
    case 18:
    {
        Bytes& b = m.aad.size() && s.coin() ? m.aad : m.iv;
        cancel_alter(s, b);
        return "aad or iv, cancelling change";
    }
    case 14: { m.aad.resize((m.aad.size() + 15) / 16 * 16 + (m.aad.size() % 16 ? 0 : 16), 0); return "aad zero padded"; }
    }
    m.tag[0] ^= 0x80;
    return "tag top bit";
}
// one decryption on o (initialised here); returns accepted
static bool decrypt(Source& s, Ctx& c, GcmObj& o, const Msg& m, Bytes& pt)
{
    auto  pieces = cut(s, m.ct.size(), 16, 6);
    Exact kb(m.key), ib(m.iv), ab(m.aad), tb(m.tag);
    int   when = (int)s.below(3);
    if (when == 0)
        o.set_tag(tb.data());
    o.init(kb.data(), ib.data(), m.iv.size(), ab.data(), m.aad.size());
    if (when == 1)
        o.set_tag(tb.data());
    bool        same = s.coin(1, 4); // one buffer as input and output
    Guarded     gi(m.ct, s.below(20)), go2(m.ct.size(), s.below(20));
    Guarded&    go = same ? gi : go2;
    std::size_t ip = 0, op = 0;
    bool        ok = true;
    for (std::size_t k = 0; k < pieces.size(); k++)
    {
        std::size_t l = 0;
        if (k + 1 == pieces.size())
        {
            if (when == 2)
                o.set_tag(tb.data());
            try
            {
                o.do_final(go.data() + op, &l, gi.data() + ip, pieces[k]);
            }
            catch (const std::exception&)
            {
                ok = false;
            }
        }
        else
            o.update(go.data() + op, &l, gi.data() + ip, pieces[k]);
        ip += pieces[k], op += l;
    }
    CHECK(gi.intact() && (same || gi.is(m.ct)) && go.intact() && tb.unchanged(), "out-of-bounds", "wrote outside the output");
    if (same)
        c.label("in place");
    if (ok)
    {
        CHECK(op == m.ct.size(), "length", "%zu of %zu bytes", op, m.ct.size());
        pt = go.bytes();
    }
    return ok;
}
static Msg authentic(Source& s, const GcmSuite& su, Bytes& pt)
{
    Msg m;
    m.key        = s.rnd(su.key_len);
    auto ci      = su.refc(m.key);
    m.iv         = gcm_iv(s, ci);
    m.aad        = s.bytes(s.len(70, 16));
    pt           = s.bytes(s.len(s.coin(1, 10) ? 700 : 120, 16));
    auto g       = ref::gcm_encrypt(ci, m.iv, m.aad, pt);
    m.ct         = g.ct;
    m.tag        = g.tag;
    return m;
}
static void verdict(Source& s, Ctx& c, GcmObj& o, const GcmSuite& su, const Msg& m, std::size_t step)
{
    auto  ci   = su.refc(m.key);
    bool  want = ref::gcm_tag(ci, m.iv, m.aad, m.ct) == m.tag;
    Bytes got;
    bool  ok = decrypt(s, c, o, m, got);
    if (want)
    {
        CHECK(ok, "authentic-rejected", "message %zu is authentic but was rejected (ct %zu bytes)", step, m.ct.size());
        CHECK_EQ_BYTES(got, ref::gcm_ctr(ci, m.iv, m.ct), "plaintext", "plaintext");
    }
    else
        CHECK(!ok, "forgery-accepted", "message %zu is not authentic but was accepted", step);
}
PROP(history, 8000, 400000)
{
    // several objects, several messages, authentic or altered, in any order
    const GcmSuite*         su[2] = {&pick_gcm(s), &pick_gcm(s)};
    std::unique_ptr<GcmObj> o[2]  = {su[0]->make(false), su[1]->make(false)};
    std::size_t             n     = 1 + s.below(6);
    bool                    rej   = false;
    for (std::size_t i = 0; i < n; i++)
    {
        int   w = (int)s.below(2);
        Bytes pt;
        Msg   m = authentic(s, *su[w], pt);
        const char* t = s.coin() ? tamper(s, m) : "authentic";
        NOTE("message %zu object %d %s: %s key=%s iv=%s aad[%zu] ct[%zu]=%s tag=%s", i, w, su[w]->name, t, hex(m.key).c_str(), hex(m.iv).c_str(), m.aad.size(),
             m.ct.size(), hex(m.ct, 40).c_str(), hex(m.tag).c_str());
        verdict(s, c, *o[w], *su[w], m, i);
        c.label(t);
        if (i)
            c.nontrivial();
        if (rej)
            c.label("after a rejection");
        rej = rej || t[0] != 'a' || t[1] != 'u';
    }
}
PROP(forgery, 12000, 500000)
{
    const GcmSuite& su = pick_gcm(s);
    auto            o  = su.make(false);
    Bytes           pt;
    Msg             m = authentic(s, su, pt);
    const char*     t = tamper(s, m);
    NOTE("%s %s key=%s iv=%s aad=%s ct=%s tag=%s", su.name, t, hex(m.key).c_str(), hex(m.iv).c_str(), hex(m.aad).c_str(), hex(m.ct).c_str(), hex(m.tag).c_str());
    verdict(s, c, *o, su, m, 0);
    c.label(t);
    c.nontrivial();
}
// every single-bit change of one message's tag is rejected, and every
// single-bit change of its ciphertext and AAD
PROP(all_bits, 60, 1500)
{
    const GcmSuite& su = pick_gcm(s);
    auto            o  = su.make(false);
    Bytes           pt;
    Msg             m;
    m.key = s.rnd(su.key_len);
    auto ci = su.refc(m.key);
    m.iv = s.rnd(12), m.aad = s.rnd(s.below(20)), pt = s.rnd(s.below(36));
    auto g = ref::gcm_encrypt(ci, m.iv, m.aad, pt);
    m.ct = g.ct, m.tag = g.tag;
    NOTE("%s all single-bit changes: key=%s iv=%s aad=%s ct=%s", su.name, hex(m.key).c_str(), hex(m.iv).c_str(), hex(m.aad).c_str(), hex(m.ct).c_str());
    Bytes* parts[] = {&m.tag, &m.ct, &m.aad, &m.iv};
    for (Bytes* p : parts)
        for (std::size_t i = 0; i < p->size() * 8; i++)
        {
            (*p)[i / 8] ^= (u8)(1 << (i % 8));
            Bytes       out(m.ct.size() + 16);
            std::size_t l = 0;
            bool        ok = true;
            o->init(m.key.data(), m.iv.data(), m.iv.size(), m.aad.data(), m.aad.size());
            o->set_tag(m.tag.data());
            try
            {
                o->do_final(out.data(), &l, m.ct.data(), m.ct.size());
            }
            catch (const std::exception&)
            {
                ok = false;
            }
            CHECK(!ok, "forgery-accepted", "bit %zu of %s flipped, still accepted", i, p == &m.tag ? "tag" : p == &m.ct ? "ct" : p == &m.aad ? "aad" : "iv");
            (*p)[i / 8] ^= (u8)(1 << (i % 8));
        }
    c.nontrivial();
    verdict(s, c, *o, su, m, 0);
}
// a weak tag comparison accepts some altered tag: many altered tags, and every
// equal change of two bytes, of one message
PROP(weak_compare, 400, 20000)
{
    const GcmSuite& su = pick_gcm(s);
    auto            o  = su.make(false);
    Bytes           pt;
    Msg             m = authentic(s, su, pt);
    NOTE("%s many altered tags: key=%s iv=%s aad=%s ct=%s tag=%s", su.name, hex(m.key).c_str(), hex(m.iv).c_str(), hex(m.aad).c_str(), hex(m.ct).c_str(), hex(m.tag).c_str());
    Bytes out(m.ct.size() + 16);
    auto  rejects = [&](const Bytes& tag) {
        std::size_t l = 0;
        o->init(m.key.data(), m.iv.data(), m.iv.size(), m.aad.data(), m.aad.size());
        o->set_tag(tag.data());
        try
        {
            o->do_final(out.data(), &l, m.ct.data(), m.ct.size());
        }
        catch (const std::exception&)
        {
            return true;
        }
        return false;
    };
    CHECK(!rejects(m.tag), "authentic-rejected", "authentic message rejected");
    u8 d = (u8)(s.coin() ? 1u << s.below(8) : s.range(1, 255));
    for (std::size_t i = 0; i < 16; i++)
        for (std::size_t j = i + 1; j < 16; j++)
        {
            Bytes t = m.tag;
            t[i] ^= d, t[j] ^= d;
            CHECK(rejects(t), "forgery-accepted", "bytes %zu and %zu of the tag changed by %02x, still accepted", i, j, d);
            t = m.tag;
            t[i] = (u8)(t[i] + d), t[j] = (u8)(t[j] - d);
            CHECK(rejects(t), "forgery-accepted", "bytes %zu and %zu of the tag changed by +-%02x, still accepted", i, j, d);
        }
    for (int k = 0; k < 20; k++)
    {
        Bytes       t = m.tag;
        const char* w = cancel_alter(s, t);
        CHECK(rejects(t), "forgery-accepted", "tag %s (%s) accepted", hex(t).c_str(), w);
    }
    CHECK(!rejects(m.tag), "authentic-rejected", "authentic message rejected after forgeries");
    c.nontrivial();
}
#if !defined(__SANITIZE_ADDRESS__) && !defined(PBT_LIBFUZZER)
// lengths that do not fit in 32 bits, in bits or in bytes
static void huge(Source& s, Ctx& c, int dim)
{
    gcmhuge::Case k;
    if (!gcmhuge::gen(s, k, dim))
        c.discard();
    NOTE("key=%s iv of %llu, aad of %llu, text of %llu bytes", hex(Bytes(k.key, k.key + 16)).c_str(), (unsigned long long)k.iv.n, (unsigned long long)k.aad.n, (unsigned long long)k.in.n);
    Bytes tag = gcmhuge::tag(k, k.in.b);
    bool  bad = s.coin(1, 3), ok = true;
    if (bad)
    {
        // the tag of lengths cut to 32 bits, or one bit changed
        if (s.coin())
            tag[s.below(16)] ^= (u8)(1u << s.below(8));
        else
        {
            gcmhuge::Poly p;
            std::memcpy(p.H, k.H, 16);
            p.add(k.aad.b, k.aad.blocks());
            p.add(k.in.b, k.in.blocks());
            p.lens((std::uint32_t)(k.aad.n * 8), (std::uint32_t)(k.in.n * 8));
            u8 e[16];
            gcmhuge::enc(k.key, k.J0, e);
            Bytes t(16);
            for (int i = 0; i < 16; i++)
                t[i] = p.y[i] ^ e[i];
            if (t == tag)
                tag[0] ^= 1;
            else
                tag = t;
        }
    }
    block_cipher_mode::GcmDecryptor<gcmhuge::Quiet> d;
    d.init(k.key, k.iv.p, k.iv.n, k.aad.p, k.aad.n);
    d.set_tag(tag.data());
    std::string err;
    try
    {
        CHECK(gcmhuge::run(s, d, k, gcmhuge::crypt(k), err), "plaintext", "huge %s: %s", k.what, err.c_str());
    }
    catch (const std::runtime_error&)
    {
        ok = false;
    }
    CHECK(ok == !bad, bad ? "forgery-accepted" : "authentic-rejected", "message with a huge %s", k.what);
    c.nontrivial();
    c.label(k.what);
    c.label(bad ? "rejected" : "accepted");
}
PROP(huge_aad, 2, 12) { huge(s, c, 0); }
PROP(huge_text, 2, 12) { huge(s, c, 1); }
PROP(huge_iv, 2, 12) { huge(s, c, 2); }
#endif
