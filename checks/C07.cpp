#include "bigmap.h"
#include "modes.h"
#include <gmlib/ghash/ghash.h>
using namespace pbt;
using modes::cut;
template <class F>
static auto guarded_input(const Bytes& b, std::size_t al, F f)
{
    Guarded g(b, al);
    return f(g);
}
// the streaming class: a history of keys, resets and messages on one object
PROP(class_history, 12000, 600000)
{
    Bytes        H = s.bytes(16);
    ghash::GHash g;
    bool         ctor = s.coin();
    if (ctor)
        g = ghash::GHash(H.data());
    std::size_t rounds = 1 + s.below(4);
    for (std::size_t r = 0; r < rounds; r++)
    {
        const char* how = "constructed";
        if (r == 0 && !ctor)
            g.set_key(H.data()), how = "keyed";
        if (r)
        {
            if (s.coin())
                g.reset(), how = "reset";
            else
            {
                H = s.bytes(16);
                Exact hb(H);
                g.set_key(hb.data()), how = "re-keyed";
                CHECK(hb.unchanged(), "input-modified", "set_key changed the key");
            }
        }
        std::size_t n = s.len(s.coin(1, 10) ? 2000 : 300, 16);
        if (!s.coin(1, 5))
            n -= n % 16;
        Bytes m      = s.bytes(n);
        auto  pieces = cut(s, n, 16, 8);
        bool  stop   = s.coin(1, 4);
        NOTE("%s H=%s msg[%zu]=%s in %zu pieces%s", how, hex(H).c_str(), n, hex(m, 64).c_str(), pieces.size(), stop ? " (abandoned)" : "");
        std::size_t p = 0;
        Guarded     out(16, s.below(17));
        bool        threw = false;
        for (std::size_t k = 0; k < pieces.size(); k++)
        {
            if (k + 1 == pieces.size() && stop)
                break;
            Exact e(Bytes(m.begin() + p, m.begin() + p + pieces[k]));
            p += pieces[k];
            try
            {
                if (k + 1 == pieces.size())
                    g.do_final(out.data(), e.data(), e.size());
                else
                    g.update(e.data(), e.size());
            }
            catch (const std::exception&)
            {
                CHECK(k + 1 == pieces.size(), "unexpected-throw", "update threw");
                threw = true;
            }
            CHECK(e.unchanged(), "input-modified", "message changed");
        }
        if (r)
            c.nontrivial(), c.label(how);
        if (stop)
        {
            c.label("abandoned");
            continue;
        }
        CHECK(out.intact(), "out-of-bounds", "wrote outside the digest");
        CHECK(threw == (n % 16 != 0), "residual", "message of %zu bytes %s", n, threw ? "threw" : "was accepted");
        if (!threw)
            CHECK_EQ_BYTES(out.bytes(), ref::ghash(H.data(), m), "ghash", "GHASH");
        else
            c.label("partial rejected");
        if (n > 16)
            c.nontrivial();
        if (n >= 128)
            c.label(">=8 blocks");
    }
}
#define IMPL(NAME, NS)                                                                                                     \
    PROP(NAME, 6000, 300000)                                                                                               \
    {                                                                                                                      \
        NS::GHashCTX ctx;                                                                                                  \
        std::size_t  rounds = 1 + s.below(3);                                                                              \
        Bytes        H;                                                                                                    \
        for (std::size_t r = 0; r < rounds; r++)                                                                           \
        {                                                                                                                  \
            if (r == 0 || s.coin())                                                                                        \
            {                                                                                                              \
                H = s.bytes(16);                                                                                           \
                Exact hb(H);                                                                                               \
                NS::ghash_init(&ctx, hb.data());                                                                           \
            }                                                                                                              \
            else                                                                                                           \
                NS::ghash_reset(&ctx);                                                                                     \
            std::size_t nb  = s.below(4) ? s.below(20) : s.below(80);                                                      \
            Bytes       m   = s.bytes(16 * nb);                                                                            \
            NOTE("%s H=%s msg=%s", #NS, hex(H).c_str(), hex(m).c_str());                                                   \
            std::size_t p = 0;                                                                                             \
            while (p < nb)                                                                                                 \
            {                                                                                                              \
                std::size_t k = s.below(nb - p + 1);                                                                       \
                if (k == 0 && s.coin(3, 4))                                                                                \
                    k = nb - p;                                                                                            \
                Guarded gi(Bytes(m.begin() + 16 * p, m.begin() + 16 * (p + k)), s.below(33));                              \
                NS::ghash_update_blocks(&ctx, gi.data(), k);                                                               \
                CHECK(gi.intact() && gi.is(Bytes(m.begin() + 16 * p, m.begin() + 16 * (p + k))), "input-modified", "");    \
                p += k;                                                                                                    \
            }                                                                                                              \
            Guarded     out(16, s.below(17));                                                                              \
            Bytes       junk = s.rnd(16);                                                                                  \
            if (s.coin(1, 6))                                                                                              \
                CHECK(NS::ghash_final_block(&ctx, out.data(), junk.data(), 1 + s.below(15)) != 0, "residual", "accepted"); \
            CHECK(NS::ghash_final_block(&ctx, out.data(), junk.data(), 0) == 0, "final", "final failed");                  \
            CHECK_EQ_BYTES(out.bytes(), ref::ghash(H.data(), m), "ghash", "GHASH");                                        \
            CHECK(out.intact(), "out-of-bounds", "wrote outside the digest");                                              \
            if (nb > 1 || r)                                                                                               \
                c.nontrivial();                                                                                            \
        }                                                                                                                  \
    }
IMPL(common_impl, ghash::internal::common)
IMPL(lut256_impl, ghash::internal::lut256)
#if defined(CPU_FLAG_PCLMUL) && defined(CPU_FLAG_SSE2)
IMPL(pclmul_impl, ghash::internal::pclmul)
#endif
// every byte value in every position of H and of a block
PROP(byte_lanes, 1024, 8192)
{
    Bytes H = s.rnd(16), X = s.rnd(16);
    CHECK(ghash::GHash::BLOCK_SIZE == 16 && ghash::GHash::DIGEST_SIZE == 16, "sizes", "declared sizes");
    if (s.coin())
        X = Bytes(16, 0);
    if (s.coin(1, 4))
        H = Bytes(16, 0);
    std::size_t pos = s.below(16);
    bool        inH = s.coin();
    NOTE("sweep of byte %zu of %s, H=%s X=%s", pos, inH ? "H" : "X", hex(H).c_str(), hex(X).c_str());
    for (int v = 0; v < 256; v++)
    {
        (inH ? H : X)[pos] = (u8)v;
        ghash::GHash g(H.data());
        Bytes        out(16);
        g.do_final(out.data(), X.data(), 16);
        CHECK_EQ_BYTES(out, ref::ghash(H.data(), X), "ghash", strf("value %d", v));
    }
    c.nontrivial();
}
#if defined(__OPTIMIZE__) && defined(NDEBUG) && !defined(PBT_LIBFUZZER)
// more bytes in one call than 32 bits can count, against the same in pieces
template <class Init, class Upd, class Fin>
static void huge(Source& s, Ctx& c, Init init, Upd upd, Fin fin)
{
    u64         n = bigmap::gen_len(s) / 16 * 16;
    bigmap::Big in(n);
    if (!in.p)
        c.discard();
    u64   sd = s.draw(~0ull);
    Bytes H = s.bytes(16), a(16), b(16);
    NOTE("%llu bytes at once, H=%s, contents %llx", (unsigned long long)n, hex(H).c_str(), (unsigned long long)sd);
    in.fill(sd);
    init(H.data());
    upd(in.p, n);
    fin(a.data());
    init(H.data());
    for (u64 o = 0; o < n; o += 65536)
        upd(in.p + o, std::min<u64>(65536, n - o));
    fin(b.data());
    CHECK_EQ_BYTES(a, b, "huge-call", "one huge call and the same in pieces");
    c.nontrivial();
    c.label("huge call");
}
PROP(huge_class, 1, 4)
{
    ghash::GHash g;
    huge(s, c, [&](const u8* h) { g.set_key(h); }, [&](const u8* p, u64 n) { g.update(p, n); }, [&](u8* d) { g.do_final(d); });
}
#define HUGE_IMPL(NAME, NS, Q, T)                                                                                                                              \
    PROP(NAME, Q, T)                                                                                                                                           \
    {                                                                                                                                                          \
        NS::GHashCTX x;                                                                                                                                        \
        huge(s, c, [&](const u8* h) { NS::ghash_init(&x, h); }, [&](const u8* p, u64 n) { NS::ghash_update_blocks(&x, p, n / 16); },                           \
             [&](u8* d) { NS::ghash_final_block(&x, d, d, 0); });                                                                                              \
    }
HUGE_IMPL(huge_lut256, ghash::internal::lut256, 1, 4)
HUGE_IMPL(huge_common, ghash::internal::common, 0, 2)
#if defined(CPU_FLAG_PCLMUL) && defined(CPU_FLAG_SSE2)
HUGE_IMPL(huge_pclmul, ghash::internal::pclmul, 1, 4)
#endif
#endif
