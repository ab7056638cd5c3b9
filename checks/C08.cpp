#include "modes.h"
#include <gmlib/sm3/sm3.h>
#include <gmlib/sm3/internal/sm3_common.h>
#include <type_traits>
using namespace pbt;
using modes::cut;
// streaming history on several objects: reset, copies, abandoned messages
PROP(class_history, 15000, 700000)
{
    sm3::SM3    h;
    std::size_t rounds = 1 + s.below(4);
    for (std::size_t r = 0; r < rounds; r++)
    {
        if (r)
            h.reset();
        std::size_t n      = s.len(s.coin(1, 10) ? 3000 : 300, 64);
        Bytes       m      = s.bytes(n);
        auto        pieces = cut(s, n, 64, 8);
        bool        stop   = s.coin(1, 4);
        NOTE("%smsg[%zu]=%s in %zu pieces%s", r ? "reset, " : "", n, hex(m, 80).c_str(), pieces.size(), stop ? " (abandoned)" : "");
        std::size_t p = 0;
        Guarded     out(32, s.below(33));
        for (std::size_t k = 0; k < pieces.size(); k++)
        {
            bool last = k + 1 == pieces.size();
            if (last && stop)
                break;
            Exact e(Bytes(m.begin() + p, m.begin() + p + pieces[k]));
            p += pieces[k];
            if (s.coin(1, 12))
            {
                // a copy continues on its own without disturbing the original
                sm3::SM3 cp(h);
                Bytes    t = s.bytes(s.below(150)), d(32), all(m.begin(), m.begin() + (p - pieces[k]));
                cp.update(t.data(), t.size() / 2);
                cp.do_final(d.data(), t.data() + t.size() / 2, t.size() - t.size() / 2);
                all.insert(all.end(), t.begin(), t.end());
                CHECK_EQ_BYTES(d, ref::sm3(all), "copy", "digest of a copy");
                c.label("copied");
            }
            const u8* ip = pieces[k] == 0 && s.coin() ? nullptr : e.data();
            if (last)
                h.do_final(out.data(), ip, e.size());
            else
                h.update(ip, e.size());
            CHECK(e.unchanged(), "input-modified", "message changed");
        }
        if (r)
            c.nontrivial(), c.label("reset");
        if (stop)
        {
            c.label("abandoned");
            continue;
        }
        CHECK(out.intact(), "out-of-bounds", "wrote outside the digest");
        CHECK_EQ_BYTES(out.bytes(), ref::sm3(m), "sm3", "digest");
        if (pieces.size() > 1)
            c.nontrivial();
        c.label(n % 64 == 55 ? "len%64=55" : n % 64 == 56 ? "len%64=56" : n % 64 == 63 ? "len%64=63" : n % 64 == 0 ? "len%64=0" : "other length");
    }
}
// every length from 0 to 400 with random contents
PROP(all_lengths, 1000, 40000)
{
    std::size_t n = s.below(401);
    CHECK(sm3::SM3::BLOCK_SIZE == 64 && sm3::SM3::DIGEST_SIZE == 32, "sizes", "declared sizes");
    Bytes       m = s.rnd(n), d(32);
    Guarded     gi(m, s.below(64));
    NOTE("length %zu", n);
    sm3::SM3 h;
    h.do_final(d.data(), gi.data(), n);
    CHECK_EQ_BYTES(d, ref::sm3(m), "sm3", "digest");
    if (n >= 56)
        c.nontrivial();
}
template <class C, class = void>
struct has_fields : std::false_type
{
};
template <class C>
struct has_fields<C, std::void_t<decltype(std::declval<C>().state[0]), decltype(std::declval<C>().data_bits)>> : std::true_type
{
};
// the compression step from an arbitrary chaining state and an arbitrary
// amount of data already hashed (so lengths past 2^32 bits are reached)
template <class C, class Init, class Upd, class Fin>
static void from_state(Source& s, Ctx& c, Init init, Upd upd, Fin fin)
{
    C ctx;
    init(&ctx);
    ref::u32 iv[8];
    std::memcpy(iv, ref::SM3_IV, sizeof iv);
    u64 before = 0;
    if constexpr (has_fields<C>::value)
        if (s.coin(3, 4))
        {
            for (int i = 0; i < 8; i++)
                ctx.state[i] = iv[i] = (ref::u32)s.limb();
            before = s.limb() >> (10 + s.below(40));
            ctx.data_bits = before * 512;
            c.label("long history");
        }
    std::size_t nb = s.below(6), rest = s.below(64);
    Bytes       m = s.bytes(64 * nb + rest);
    Exact       body(Bytes(m.begin(), m.begin() + 64 * nb)), tail(Bytes(m.begin() + 64 * nb, m.end()));
    NOTE("after %llu blocks: %zu blocks + %zu bytes %s", (unsigned long long)before, nb, rest, hex(m).c_str());
    CHECK(upd(&ctx, body.data(), nb) == 0, "error", "update_blocks failed");
    Guarded out(32, s.below(17));
    CHECK(fin(&ctx, out.data(), tail.data(), rest) == 0, "error", "final_block failed");
    CHECK_EQ_BYTES(out.bytes(), ref::sm3_from(iv, before, m), "sm3-state", "digest");
    CHECK(out.intact(), "out-of-bounds", "wrote outside the digest");
    c.nontrivial();
}
#define IMPL(NAME, NS) \
    PROP(NAME, 6000, 300000) { from_state<NS::Sm3CTX>(s, c, NS::sm3_init, NS::sm3_update_blocks, NS::sm3_final_block); }
IMPL(common_impl, sm3::internal::common)
#if defined(SUPPORT_SM3_YANG15)
#include <gmlib/sm3/internal/sm3_yang15.h>
IMPL(yang15_impl, sm3::internal::yang15)
#endif
// more bytes in one call than 32 bits can count, against the same in pieces
#if defined(__OPTIMIZE__) && defined(NDEBUG) && !defined(PBT_LIBFUZZER)
#include "bigmap.h"
#include <thread>
PROP(huge_call, 1, 6)
{
    u64         n = bigmap::gen_len(s);
    bigmap::Big in(n);
    if (!in.p)
        c.discard();
    u64   sd = s.draw(~0ull);
    Bytes pre = s.bytes(s.below(70)), a(32), b(32);
    NOTE("%zu bytes, then %llu at once, contents %llx", pre.size(), (unsigned long long)n, (unsigned long long)sd);
    in.fill(sd);
    sm3::SM3 x, y;
    x.update(pre.data(), pre.size()), y.update(pre.data(), pre.size());
    bool        fin = s.coin();
    std::thread pieces([&] {
        for (u64 o = 0; o < n; o += 65536)
            y.update(in.p + o, (std::size_t)std::min<u64>(65536, n - o));
    });
    if (fin)
        x.do_final(a.data(), in.p, n);
    else
        x.update(in.p, n), x.do_final(a.data());
    pieces.join();
    y.do_final(b.data());
    CHECK_EQ_BYTES(a, b, "huge-call", "one huge call and the same in pieces");
    c.nontrivial();
    c.label("huge call");
}
#endif
// a message of more than 2^32 bits through the public class
#if defined(__OPTIMIZE__) && defined(NDEBUG)
PROP(past_4gbit, 2, 4)
{
    pbt::slow_case();
    Bytes       chunk = s.rnd((1 << 20) + 64 * s.below(3)), d(32), t = s.rnd(s.below(100));
    std::size_t reps = (1ull << 29) / chunk.size() + s.below(2);
    NOTE("%zu repetitions of %zu bytes then %zu", reps, chunk.size(), t.size());
    sm3::SM3 h;
    ref::u32 iv[8];
    std::memcpy(iv, ref::SM3_IV, sizeof iv);
    u64 blocks = 0;
    for (std::size_t i = 0; i < reps; i++)
    {
        h.update(chunk.data(), chunk.size());
        for (std::size_t j = 0; j < chunk.size(); j += 64)
            ref::sm3_compress(iv, &chunk[j]);
        blocks += chunk.size() / 64;
    }
    h.do_final(d.data(), t.data(), t.size());
    CHECK_EQ_BYTES(d, ref::sm3_from(iv, blocks, t), "sm3-long", "digest of a message near 2^32 bits");
    c.nontrivial();
}
#endif
