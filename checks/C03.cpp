#include "modes.h"
using namespace modes;
using namespace pbt;
static const ref::Mode ALL[] = {ref::ECB, ref::CBC, ref::CFB, ref::OFB, ref::CTR};

// outcome of processing the message in the fixed shape `pieces` (C04 owns arbitrary streaming)
static bool run_mode(Ctx& c, Obj& o, const Bytes& in, std::size_t piece, std::size_t ai, std::size_t ao, Bytes& got)
{
    Guarded     gi(in, ai), go(in.size(), ao);
    std::size_t l1 = 0, l2 = 0;
    bool        threw = false;
    try
    {
        if (piece)
            o.update(go.data(), &l1, gi.data(), piece);
        o.do_final(go.data() + l1, &l2, gi.data() + piece, in.size() - piece);
    }
    catch (const std::exception&)
    {
        threw = true;
    }
    CHECK(gi.is(in) && gi.intact(), "input-modified", "the input was modified");
    CHECK(go.intact(), "out-of-bounds", "bytes outside the output buffer were written");
    if (!threw)
    {
        CHECK(l1 + l2 == in.size(), "length", "reported %zu+%zu bytes for a %zu-byte message", l1, l2, in.size());
        got = go.bytes();
    }
    return !threw;
}
static void one(Source& s, Ctx& c, ref::Mode m, std::size_t maxblocks)
{
    const Suite& su  = pick(s);
    Bytes        key = s.bytes(su.key_len), iv = m == ref::CTR ? counter_iv(s, su.bs) : s.bytes(su.bs);
    std::size_t  n = s.len(su.bs * maxblocks, su.bs);
    bool         block_mode = m == ref::ECB || m == ref::CBC;
    if (block_mode && !s.coin(1, 5))
        n -= n % su.bs;
    Bytes       pt    = s.bytes(n);
    std::size_t piece = s.coin(1, 3) ? su.bs * s.below(n / su.bs + 1) : 0;
    std::size_t ai = s.below(20), ao = s.below(20);
    NOTE("%s-%s key=%s iv=%s len=%zu split=%zu pt=%s", su.name, mode_name(m), hex(key).c_str(), hex(iv).c_str(), n, piece, hex(pt, 48).c_str());
    CHECK(su.sizes(su.bs, su.key_len), "sizes", "sizes declared by the mode types of %s", su.name);
    Exact kb(key), ib(iv);
    auto  ci = su.refc(key);
    auto  e  = su.make(m, true, kb.data(), ib.data());
    Bytes ct, back;
    bool  ok = run_mode(c, *e, pt, piece, ai, ao, ct);
    CHECK(kb.unchanged() && ib.unchanged(), "key-modified", "key or IV modified");
    c.label(mode_name(m));
    if (block_mode && n % su.bs)
    {
        CHECK(!ok, "partial-accepted", "%s encryption of %zu bytes did not throw", mode_name(m), n);
        auto d = su.make(m, false, kb.data(), ib.data());
        ok     = run_mode(c, *d, pt, piece, ai, ao, back);
        CHECK(!ok, "partial-accepted", "%s decryption of %zu bytes did not throw", mode_name(m), n);
        c.label("partial-rejected");
        c.nontrivial();
        return;
    }
    CHECK(ok, "threw", "%s encryption of %zu bytes threw", mode_name(m), n);
    CHECK_EQ_BYTES(ct, ref::mode_run(m, ci, true, iv, pt), std::string(mode_name(m)) + "-enc", "ciphertext");
    // decrypt an arbitrary text (every block-aligned string is a ciphertext), and the one just made
    Bytes other = s.coin() ? s.bytes(n) : ct;
    auto  d     = su.make(m, false, kb.data(), ib.data());
    ok          = run_mode(c, *d, other, piece, ao, ai, back);
    CHECK(ok, "threw", "%s decryption of %zu bytes threw", mode_name(m), n);
    CHECK_EQ_BYTES(back, other == ct ? pt : ref::mode_run(m, ci, false, iv, other), std::string(mode_name(m)) + "-dec", "plaintext");
    if (n > su.bs)
        c.nontrivial();
    if (n / su.bs >= 16)
        c.label(">=16 blocks");
    if (n % su.bs)
        c.label("partial last block");
}
PROP(ecb, 4000, 300000) { one(s, c, ref::ECB, 40); }
PROP(cbc, 4000, 300000) { one(s, c, ref::CBC, 40); }
PROP(cfb, 4000, 300000) { one(s, c, ref::CFB, 40); }
PROP(ofb, 4000, 300000) { one(s, c, ref::OFB, 40); }
PROP(ctr, 6000, 400000) { one(s, c, ref::CTR, 40); }
PROP(long_messages, 100, 5000) { one(s, c, ALL[s.below(5)], 1200); }
// counters that wrap at every byte position, long enough to cross every batch
PROP(ctr_wrap, 1500, 60000)
{
    const Suite& su  = pick(s);
    Bytes        key = s.rnd(su.key_len), iv = s.rnd(su.bs);
    std::size_t  k = s.below(su.bs + 1);
    for (std::size_t i = su.bs - k; i < su.bs; i++)
        iv[i] = 0xff;
    iv[su.bs - 1] -= (u8)s.below(3);
    std::size_t n = su.bs * s.range(1, 40) + s.below(su.bs);
    Bytes       pt(n, 0), got(n);
    NOTE("%s-CTR key=%s iv=%s len=%zu", su.name, hex(key).c_str(), hex(iv).c_str(), n);
    auto        e = su.make(ref::CTR, true, key.data(), iv.data());
    std::size_t l = 0;
    e->do_final(got.data(), &l, pt.data(), n);
    CHECK(l == n, "length", "reported %zu of %zu", l, n);
    CHECK_EQ_BYTES(got, ref::mode_run(ref::CTR, su.refc(key), true, iv, pt), "CTR-wrap", "key stream");
    c.nontrivial();
    if (k == su.bs)
        c.label("full wrap");
}
