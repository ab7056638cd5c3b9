#include "bigmap.h"
#include "modes.h"
using namespace modes;
using namespace pbt;
static const ref::Mode ALL[] = {ref::ECB, ref::CBC, ref::CFB, ref::OFB, ref::CTR};
static const std::size_t POISON = (std::size_t)0x5a5a5a5a5a5a5a5aull;

// Feed `in` in the given pieces through upd/fin.  Each call's reported length
// must be exactly what it wrote: those bytes equal the next expected ones and
// nothing after them is touched.  Returns false if finalisation threw.
template <class Upd, class Fin>
static bool feed(Source& s, Ctx& c, const Bytes& in, const Bytes& want, bool must_throw, bool inplace,
                 const std::vector<std::size_t>& pieces, bool stop_early, Upd upd, Fin fin)
{
    Guarded     buf(in, s.below(17)); // in-place: input and output
    std::size_t ip = 0, op = 0;
    for (std::size_t k = 0; k < pieces.size(); k++)
    {
        bool        last = k + 1 == pieces.size();
        std::size_t n    = pieces[k];
        // room for what may come out: the piece plus everything still held
        std::size_t room = ip + n - op;
        if (stop_early && last)
            return true;
        std::size_t outl = POISON;
        bool        threw = false;
        if (inplace)
        {
            Bytes before = buf.bytes();
            try
            {
                last ? fin(buf.data() + op, &outl, buf.data() + ip, n) : upd(buf.data() + op, &outl, buf.data() + ip, n);
            }
            catch (const std::exception& e)
            {
                threw = true;
            }
            CHECK(buf.intact(), "out-of-bounds", "call %zu wrote outside the buffer", k);
            if (threw)
            {
                CHECK(last && must_throw, "unexpected-throw", "call %zu (%zu bytes) threw", k, n);
                return false;
            }
            CHECK(outl <= room, "reported-length", "call %zu reported %zu bytes with only %zu available", k, outl, room);
            Bytes after = buf.bytes();
            for (std::size_t i = 0; i < after.size(); i++)
                if (i < op || i >= op + outl)
                    CHECK(after[i] == before[i], "wrote-beyond", "call %zu reported %zu bytes at %zu but changed byte %zu", k, outl, op, i);
            if (op + outl <= want.size())
                CHECK_EQ_BYTES(Bytes(after.begin() + op, after.begin() + op + outl), Bytes(want.begin() + op, want.begin() + op + outl), "in-place-output", strf("in-place output of call %zu", k));
        }
        else
        {
            Guarded gi(Bytes(in.begin() + ip, in.begin() + ip + n), s.below(17)), go(room, s.below(17), 0xA5);
            bool    nullin = n == 0 && s.coin();
            try
            {
                const u8* p = nullin ? nullptr : gi.data();
                last ? fin(go.data(), &outl, p, n) : upd(go.data(), &outl, p, n);
            }
            catch (const std::exception& e)
            {
                threw = true;
            }
            CHECK(go.intact(), "out-of-bounds", "call %zu wrote outside the output buffer", k);
            CHECK(gi.intact() && gi.bytes() == Bytes(in.begin() + ip, in.begin() + ip + n), "input-modified", "call %zu changed its input", k);
            if (threw)
            {
                CHECK(last && must_throw, "unexpected-throw", "call %zu (%zu bytes) threw", k, n);
                return false;
            }
            CHECK(outl <= room, "reported-length", "call %zu reported %zu bytes with only %zu available", k, outl, room);
            for (std::size_t i = outl; i < room; i++)
                CHECK(go.data()[i] == 0xA5, "wrote-beyond", "call %zu reported %zu bytes but wrote byte %zu", k, outl, i);
            CHECK_EQ_BYTES(Bytes(go.data(), go.data() + outl), Bytes(want.begin() + op, want.begin() + op + outl), "stream-output", strf("output of call %zu", k));
        }
        ip += n, op += outl;
    }
    CHECK(!must_throw, "partial-accepted", "finalising %zu bytes did not throw", in.size());
    CHECK(op == want.size(), "total-length", "%zu bytes came out of a %zu-byte message", op, want.size());
    return true;
}
static std::string pieces_str(const std::vector<std::size_t>& v)
{
    std::string r;
    for (auto x : v)
        r += strf("%zu,", x);
    return r;
}
static void history(Source& s, Ctx& c, int fixed_mode)
{
    const Suite& su  = pick(s);
    ref::Mode    m   = fixed_mode >= 0 ? (ref::Mode)fixed_mode : ALL[s.below(5)];
    bool         enc = s.coin(), block_mode = m == ref::ECB || m == ref::CBC;
    Bytes        key = s.rnd(su.key_len), iv = m == ref::CTR ? counter_iv(s, su.bs) : s.rnd(su.bs);
    std::unique_ptr<Obj> o;
    std::size_t          rounds = 1 + s.below(4);
    NOTE("%s-%s %s, %zu message(s) through one object", su.name, mode_name(m), enc ? "encryption" : "decryption", rounds);
    for (std::size_t r = 0; r < rounds; r++)
    {
        // a fresh object, init with a new key, or reset with a new vector
        int how = r == 0 ? (int)s.below(2) : (int)s.weighted({0, 0, 3, 3});
        if (how != 3)
            key = s.rnd(su.key_len);
        if (!s.coin(1, 4))
            iv = m == ref::CTR ? counter_iv(s, su.bs) : s.rnd(su.bs);
        if (how == 0)
            o = su.make(m, enc, key.data(), iv.data());
        if (how == 1)
            o = su.make(m, enc, nullptr, nullptr), o->init(key.data(), iv.data());
        if (how == 2)
            o->init(key.data(), iv.data());
        if (how == 3)
            o->reset(iv.data());
        std::size_t n = s.len(su.bs * (s.coin(1, 8) ? 70 : 12), su.bs);
        if (block_mode && !s.coin(1, 5))
            n -= n % su.bs;
        bool  inplace = s.coin(2, 5), stop = s.coin(1, 4);
        Bytes in      = s.rnd(n);
        auto  pieces  = cut(s, n, su.bs);
        bool  must_throw = block_mode && n % su.bs;
        NOTE(" %s key=%s iv=%s len=%zu pieces=%s%s%s", how == 3 ? "reset" : how == 2 ? "init again" : "new object", hex(key).c_str(), hex(iv).c_str(), n,
             pieces_str(pieces).c_str(), inplace ? " in-place" : "", stop ? " (abandoned before the last piece)" : "");
        Bytes pad = in;
        if (must_throw)
            pad.resize(n - n % su.bs);
        Bytes want = ref::mode_run(m, su.refc(key), enc, iv, pad);
        bool  ok   = feed(
            s, c, in, want, must_throw, inplace, pieces, stop,
            [&](u8* out, std::size_t* ol, const u8* p, std::size_t k) { o->update(out, ol, p, k); },
            [&](u8* out, std::size_t* ol, const u8* p, std::size_t k) { k || !s.coin() ? o->do_final(out, ol, p, k) : o->do_final0(out, ol); });
        if (pieces.size() > 1 || r)
            c.nontrivial();
        if (stop)
            c.label("abandoned mid-message");
        if (!ok)
            c.label("error then reuse");
        if (inplace)
            c.label("in-place");
        c.label(how == 3 ? "reset" : how == 2 ? "re-init" : "fresh");
    }
}
PROP(ecb, 3000, 200000) { history(s, c, ref::ECB); }
PROP(cbc, 4000, 250000) { history(s, c, ref::CBC); }
PROP(cfb, 4000, 250000) { history(s, c, ref::CFB); }
PROP(ofb, 3000, 200000) { history(s, c, ref::OFB); }
PROP(ctr, 4000, 250000) { history(s, c, ref::CTR); }
PROP(gcm, 5000, 250000)
{
    const GcmSuite& su  = pick_gcm(s);
    bool            enc = s.coin();
    auto            o   = su.make(enc);
    std::size_t     rounds = 1 + s.below(4);
    NOTE("%s-GCM %s, %zu message(s) through one object", su.name, enc ? "encryption" : "decryption", rounds);
    for (std::size_t r = 0; r < rounds; r++)
    {
        Bytes key = s.rnd(su.key_len);
        auto  ci  = su.refc(key);
        Bytes iv = gcm_iv(s, ci), aad = s.rnd(s.len(100, 16)), in = s.rnd(s.len(s.coin(1, 8) ? 900 : 150, 16));
        auto  pieces  = cut(s, in.size(), 16);
        bool  inplace = s.coin(2, 5), stop = s.coin(1, 4), bad = !enc && s.coin(1, 5);
        NOTE(" key=%s iv=%s aad=%zu len=%zu pieces=%s%s%s%s", hex(key).c_str(), hex(iv).c_str(), aad.size(), in.size(), pieces_str(pieces).c_str(),
             inplace ? " in-place" : "", stop ? " (abandoned)" : "", bad ? " wrong tag" : "");
        Bytes want = ref::gcm_ctr(ci, iv, in);
        Bytes tag  = ref::gcm_tag(ci, iv, aad, enc ? want : in);
        if (bad)
            tag[s.below(16)] ^= (u8)(1 << s.below(8));
        if (!enc && s.coin())
            o->set_tag(tag.data());
        o->init(key.data(), iv.data(), iv.size(), aad.data(), aad.size());
        o->set_tag(tag.data());
        bool ok = feed(
            s, c, in, want, bad, inplace, pieces, stop,
            [&](u8* out, std::size_t* ol, const u8* p, std::size_t k) { o->update(out, ol, p, k); },
            [&](u8* out, std::size_t* ol, const u8* p, std::size_t k) { o->do_final(out, ol, p, k); });
        if (enc && !stop)
        {
            Bytes t(16);
            o->get_tag(t.data());
            CHECK_EQ_BYTES(t, tag, "gcm-tag", "tag");
        }
        if (pieces.size() > 1 || r)
            c.nontrivial();
        if (stop)
            c.label("abandoned mid-message");
        if (!ok)
            c.label("error then reuse");
        if (inplace)
            c.label("in-place");
    }
}
#if !defined(__SANITIZE_ADDRESS__) && !defined(PBT_LIBFUZZER)
// one call with more bytes than 32 bits can count, against the same in pieces
namespace {
struct Fast
{
    static constexpr int         ENCRYPTION = 1, DECRYPTION = 0;
    static constexpr std::size_t BLOCK_SIZE = 16, USER_KEY_LEN = 16, PARALLEL_NUM = 8;
    u64                          k_[2], d_;
    void                         set_key(const u8* k, int enc) { std::memcpy(k_, k, 16), d_ = enc ? 1 : 0; }
    void                         encrypt_block(u8* o, const u8* i) const
    {
        u64 v[2];
        std::memcpy(v, i, 16);
        v[0] = (v[0] ^ k_[0]) * 0x100000001b3 + d_, v[1] = (v[1] + v[0]) ^ k_[1];
        std::memcpy(o, v, 16);
    }
    void decrypt_block(u8* o, const u8* i) const
    {
        u64 v[2];
        std::memcpy(v, i, 16);
        v[1] = (v[1] ^ k_[1]) - v[0], v[0] = ((v[0] - 1 + d_) * 0xce965057aff6957bull) ^ k_[0];
        std::memcpy(o, v, 16);
    }
    void encrypt_blocks(u8* o, const u8* i, std::size_t n) const
    {
        for (; n; n--, o += 16, i += 16)
            encrypt_block(o, i);
    }
    void decrypt_blocks(u8* o, const u8* i, std::size_t n) const
    {
        for (; n; n--, o += 16, i += 16)
            decrypt_block(o, i);
    }
};
template <class M, bool Iv>
void huge(Source& s, Ctx& c, const char* name)
{
    u64         n = bigmap::gen_len(s) / 16 * 16;
    bigmap::Big in(n + 64), out(n + 64);
    if (!in.p || !out.p)
        c.discard();
    u64   sd  = s.draw(~0ull);
    Bytes key = s.bytes(16), iv = s.bytes(16), pre = s.bytes(s.coin() ? 0 : s.below(16));
    NOTE("%s: %zu bytes, then %llu at once (contents %llx)", name, pre.size(), (unsigned long long)n, (unsigned long long)sd);
    in.fill(sd), out.fill(sd + 1);
    auto obj = [&] {
        if constexpr (Iv)
            return M(key.data(), iv.data());
        else
            return M(key.data());
    };
    auto x = obj(), y = obj();
    auto start = [&](M& m) {
        u8          t[64];
        std::size_t l = 0;
        if (!pre.empty())
            m.update(t, &l, pre.data(), pre.size());
        CHECK(l == 0, "length", "output for less than a block");
    };
    std::size_t l = 0;
    start(x);
    x.update(out.p, &l, in.p, n);
    CHECK(l == n, "length", "%zu bytes out of %llu in one call", l, (unsigned long long)n);
    Bytes a = out.image();
    out.fill(sd + 1);
    start(y);
    u64 op = 0;
    for (u64 o = 0; o < n; o += 1 << 20)
    {
        y.update(out.p + op, &l, in.p + o, (std::size_t)std::min<u64>(1 << 20, n - o));
        op += l;
    }
    CHECK(op == n, "length", "%llu bytes out of %llu in pieces", (unsigned long long)op, (unsigned long long)n);
    CHECK(a == out.image(), "huge-call", "%s: one huge call and the same in pieces differ", name);
    // and both go on alike
    Bytes tail(16 - pre.size(), 0x5c), ta(64), tb(64);
    std::size_t la = 0, lb = 0;
    x.do_final(ta.data(), &la, tail.data(), tail.size());
    y.do_final(tb.data(), &lb, tail.data(), tail.size());
    CHECK(la == lb && ta == tb, "huge-call", "%s: different state after a huge call", name);
    c.nontrivial();
    c.label("huge call");
}
} // namespace
PROP(huge_ecb_enc, 1, 4) { huge<block_cipher_mode::EcbEncryptor<Fast>, false>(s, c, "ECB encryption"); }
PROP(huge_ecb_dec, 1, 4) { huge<block_cipher_mode::EcbDecryptor<Fast>, false>(s, c, "ECB decryption"); }
PROP(huge_cbc_enc, 1, 4) { huge<block_cipher_mode::CbcEncryptor<Fast>, true>(s, c, "CBC encryption"); }
PROP(huge_cbc_dec, 1, 4) { huge<block_cipher_mode::CbcDecryptor<Fast>, true>(s, c, "CBC decryption"); }
PROP(huge_cfb_enc, 1, 4) { huge<block_cipher_mode::CfbEncryptor<Fast>, true>(s, c, "CFB encryption"); }
PROP(huge_cfb_dec, 1, 4) { huge<block_cipher_mode::CfbDecryptor<Fast>, true>(s, c, "CFB decryption"); }
PROP(huge_ofb_enc, 1, 4) { huge<block_cipher_mode::OfbEncryptor<Fast>, true>(s, c, "OFB encryption"); }
PROP(huge_ofb_dec, 1, 4) { huge<block_cipher_mode::OfbDecryptor<Fast>, true>(s, c, "OFB decryption"); }
PROP(huge_ctr_enc, 1, 4) { huge<block_cipher_mode::CtrEncryptor<Fast>, true>(s, c, "CTR encryption"); }
PROP(huge_ctr_dec, 1, 4) { huge<block_cipher_mode::CtrDecryptor<Fast>, true>(s, c, "CTR decryption"); }
#endif
