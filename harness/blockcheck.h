// Shared property body for block ciphers: a history of re-keyings and batch
// operations on one object, each compared with the naive reference.
#pragma once
#include "bigmap.h"
#include "pbt.h"
#include "ref/ref_sym.h"

#include <memory>

struct BlockImpl
{
    virtual ~BlockImpl()                                             = default;
    virtual void set_key(const pbt::u8* k, bool enc)                 = 0;
    virtual void eb(pbt::u8* o, const pbt::u8* i)                    = 0;
    virtual void db(pbt::u8* o, const pbt::u8* i)                    = 0;
    virtual void ebs(pbt::u8* o, const pbt::u8* i, std::size_t n)    = 0;
    virtual void dbs(pbt::u8* o, const pbt::u8* i, std::size_t n)    = 0;
};

template <class C>
struct ClassImpl : BlockImpl
{
    // via the public class, constructed or re-keyed, and via its base class
    std::unique_ptr<C> c;
    void               set_key(const pbt::u8* k, bool enc) override
    {
        if (!c)
            c.reset(new C(k, enc ? C::ENCRYPTION : C::DECRYPTION));
        else
            c->set_key(k, enc ? C::ENCRYPTION : C::DECRYPTION);
    }
    void eb(pbt::u8* o, const pbt::u8* i) override { c->encrypt_block(o, i); }
    void db(pbt::u8* o, const pbt::u8* i) override { c->decrypt_block(o, i); }
    void ebs(pbt::u8* o, const pbt::u8* i, std::size_t n) override { c->encrypt_blocks(o, i, n); }
    void dbs(pbt::u8* o, const pbt::u8* i, std::size_t n) override { c->decrypt_blocks(o, i, n); }
};

#define RAW_IMPL(NAME, NS, CTX, PFX)                                                                            \
    struct NAME : BlockImpl                                                                                     \
    {                                                                                                           \
        NS::CTX ctx;                                                                                            \
        void    set_key(const pbt::u8* k, bool enc) override                                                    \
        {                                                                                                       \
            enc ? NS::PFX##_enc_key_init(&ctx, k) : NS::PFX##_dec_key_init(&ctx, k);                            \
        }                                                                                                       \
        void eb(pbt::u8* o, const pbt::u8* i) override { NS::PFX##_enc_block(&ctx, o, i); }                     \
        void db(pbt::u8* o, const pbt::u8* i) override { NS::PFX##_dec_block(&ctx, o, i); }                     \
        void ebs(pbt::u8* o, const pbt::u8* i, std::size_t n) override { NS::PFX##_enc_blocks(&ctx, o, i, n); } \
        void dbs(pbt::u8* o, const pbt::u8* i, std::size_t n) override { NS::PFX##_dec_blocks(&ctx, o, i, n); } \
    };

inline void block_history(pbt::Source& s, pbt::Ctx& c, BlockImpl& im, std::size_t key_len,
                          ref::Cipher (*mk)(const ref::Bytes&), bool involutive)
{
    using namespace pbt;
    std::size_t rekeys = 1 + s.below(3);
    for (std::size_t r = 0; r < rekeys; r++)
    {
        Bytes key = s.bytes(key_len);
        bool  enc = s.coin();
        Exact kb(key);
        im.set_key(kb.data(), enc);
        CHECK(kb.unchanged(), "input-modified", "set_key modified the key");
        auto        ci  = mk(key);
        std::size_t ops = 1 + s.below(3);
        for (std::size_t q = 0; q < ops; q++)
        {
            std::size_t n      = s.weighted({2, 3}) == 0 ? 1 : s.below(3) ? s.below(41) : s.below(140);
            bool        inplace = s.coin(1, 3);
            bool        single  = n == 1 && s.coin();
            // an SM4 decryption object decrypts through either entry point
            bool        cross  = involutive && !enc && s.coin(1, 4);
            Bytes       in     = s.bytes(16 * n), want(16 * n);
            std::size_t ai = s.below(33), ao = s.below(33);
            NOTE("%s key=%s op=%s n=%zu %s align %zu/%zu in=%s", enc ? "enc" : "dec", hex(key).c_str(),
                 single ? "block" : cross ? "blocks(via encrypt)" : "blocks", n, inplace ? "in-place" : "", ai, ao,
                 hex(in, 64).c_str());
            for (std::size_t i = 0; i < n; i++)
                (enc ? ci.enc : ci.dec)(&want[16 * i], &in[16 * i]);
            Guarded gi(in, ai), go(16 * n, ao);
            u8*     o = inplace ? gi.data() : go.data();
            if (single)
                (enc || cross) ? im.eb(o, gi.data()) : im.db(o, gi.data());
            else
                (enc || cross) ? im.ebs(o, gi.data(), n) : im.dbs(o, gi.data(), n);
            Bytes got(o, o + 16 * n);
            CHECK_EQ_BYTES(got, want, enc ? "encrypt" : "decrypt", enc ? "encryption" : "decryption");
            CHECK(gi.intact() && go.intact(), "out-of-bounds", "bytes outside the buffers were written (n=%zu)", n);
            if (!inplace)
                CHECK(gi.is(in), "input-modified", "the input was modified");
            // the inverse direction brings the input back
            if (s.coin(1, 4))
            {
                im.set_key(kb.data(), !enc);
                Guarded back(16 * n, s.below(17));
                enc ? im.dbs(back.data(), o, n) : im.ebs(back.data(), o, n);
                CHECK_EQ_BYTES(back.bytes(), in, "round-trip", "round trip");
                CHECK(back.intact(), "out-of-bounds", "round trip wrote outside its buffer");
                im.set_key(kb.data(), enc);
            }
            if (n > 1)
                c.nontrivial(), c.label("batch");
            if (n >= 16)
                c.label("batch>=16");
            if (inplace)
                c.label("in-place");
            if (r)
                c.nontrivial(), c.label("rekeyed");
        }
    }
}
// one batch of more bytes than 32 bits can count
inline void block_huge(pbt::Source& s, pbt::Ctx& c, BlockImpl& im, std::size_t key_len)
{
    using namespace pbt;
    u64         n = bigmap::gen_len(s) / 16 * 16;
    bigmap::Big in(n), out(n);
    if (!in.p || !out.p)
        c.discard();
    u64   sd  = s.draw(~0ull);
    Bytes key = s.bytes(key_len);
    bool  enc = s.coin();
    NOTE("%s of %llu bytes at once, key %s, contents %llx", enc ? "encryption" : "decryption", (unsigned long long)n, hex(key).c_str(), (unsigned long long)sd);
    in.fill(sd), out.fill(sd + 1);
    im.set_key(key.data(), enc);
    Bytes end(out.p + n, out.p + out.n), want = in.image();
    enc ? im.ebs(out.p, in.p, n / 16) : im.dbs(out.p, in.p, n / 16);
    // the same in small batches (their results are judged by the other properties)
    std::size_t used = want.size() - end.size();
    for (std::size_t o = 0; o < used; o += 4096)
    {
        std::size_t l = std::min<std::size_t>(4096, used - o);
        enc ? im.ebs(&want[o], &want[o], l / 16) : im.dbs(&want[o], &want[o], l / 16);
    }
    std::copy(end.begin(), end.end(), want.begin() + (long)used);
    CHECK(out.image() == want, "huge-batch", "one huge batch and the same in small ones differ");
    c.nontrivial();
    c.label("huge batch");
}
