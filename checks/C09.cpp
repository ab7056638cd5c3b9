#include "hugemsg.h"
#include "modes.h"
#include <gmlib/hash_lib/hash.h>
#include <gmlib/hash_lib/hmac.h>
#include <gmlib/sm3/sm3.h>
using namespace pbt;
using modes::cut;
// a hash that records what its compression step is handed
template <std::size_t BS>
struct Recorder : hash_lib::Hash<BS>
{
    Bytes       seen;
    Bytes       last;
    int         finals = 0;
    bool        overlong = false;
    void        reset() { this->hash_lib::Hash<BS>::reset(), seen.clear(), last.clear(), finals = 0; }
    const char* name() const noexcept override { return "rec"; }

private:
    void update_blocks(const std::uint8_t* in, std::size_t n) override { seen.insert(seen.end(), in, in + n * BS); }
    void final_block(std::uint8_t* d, const std::uint8_t* in, std::size_t n) override
    {
        overlong = n >= BS && BS > 0;
        last.assign(in, in + n);
        finals++;
        d[0] = (u8)(seen.size() * 31 + n);
    }
};
// a small order-sensitive toy hash, plus its reference
template <std::size_t BS, std::size_t DS>
struct ToyHash : hash_lib::Hash<BS>
{
    static constexpr std::size_t BLOCK_SIZE = BS, DIGEST_SIZE = DS;
    u8  st[DS];
    u64 total = 0;
    ToyHash() { reset(); }
    void reset()
    {
        this->hash_lib::Hash<BS>::reset();
        for (std::size_t i = 0; i < DS; i++)
            st[i] = (u8)(i * 7 + 1);
        total = 0;
    }
    static void absorb(u8* st, const u8* p, std::size_t n)
    {
        for (std::size_t i = 0; i < n; i++)
        {
            u8 c      = (u8)(p[i] + st[(i + 1) % DS] * 13 + i);
            st[i % DS] = (u8)((st[i % DS] ^ c) * 5 + 3 + st[(i * 3 + 2) % DS]);
        }
    }
    static Bytes refh(const Bytes& m)
    {
        u8 st[DS];
        for (std::size_t i = 0; i < DS; i++)
            st[i] = (u8)(i * 7 + 1);
        std::size_t i = 0;
        for (; i + BS <= m.size(); i += BS)
            absorb(st, &m[i], BS);
        Bytes t(m.begin() + i, m.end());
        t.push_back((u8)m.size()), t.push_back((u8)(m.size() >> 8));
        absorb(st, t.data(), t.size());
        return Bytes(st, st + DS);
    }

private:
    void update_blocks(const std::uint8_t* in, std::size_t n) override
    {
        for (; n; n--, in += BS, total += BS)
            absorb(st, in, BS);
    }
    void final_block(std::uint8_t* d, const std::uint8_t* in, std::size_t n) override
    {
        total += n;
        Bytes t(in, in + n);
        t.push_back((u8)total), t.push_back((u8)(total >> 8));
        absorb(st, t.data(), t.size());
        std::memcpy(d, st, DS);
    }
};
template <std::size_t BS>
static void streaming(Source& s, Ctx& c)
{
    Recorder<BS> h;
    std::size_t  rounds = 1 + s.below(3);
    for (std::size_t r = 0; r < rounds; r++)
    {
        if (r)
            h.reset();
        std::size_t n = s.len(BS * (s.coin(1, 6) ? 40 : 6), BS);
        Bytes       m = s.rnd(n);
        auto        pieces = cut(s, n, BS, 8);
        bool        stop   = s.coin(1, 4);
        std::string ps;
        for (auto x : pieces)
            ps += strf("%zu,", x);
        NOTE("block size %zu: message of %zu bytes in pieces %s%s", BS, n, ps.c_str(), stop ? " abandoned, reset" : "");
        u8          d[1];
        std::size_t p = 0;
        for (std::size_t k = 0; k < pieces.size(); k++)
        {
            bool last = k + 1 == pieces.size();
            if (last && stop)
                break;
            Exact     e(Bytes(m.begin() + p, m.begin() + p + pieces[k]));
            const u8* ip = pieces[k] == 0 && s.coin() ? nullptr : e.data();
            p += pieces[k];
            last ? h.do_final(d, ip, pieces[k]) : h.update(ip, pieces[k]);
            CHECK(h.seen.size() <= p && Bytes(m.begin(), m.begin() + h.seen.size()) == h.seen, "blocks", "wrong blocks after call %zu (%zu bytes in)", k, p);
        }
        if (r || pieces.size() > 1)
            c.nontrivial();
        if (stop)
            continue;
        Bytes all = h.seen;
        all.insert(all.end(), h.last.begin(), h.last.end());
        CHECK(h.finals == 1, "final", "final step ran %d times", h.finals);
        CHECK(h.seen.size() == n - n % BS, "whole-blocks", "%zu of %zu whole-block bytes were compressed", h.seen.size(), n - n % BS);
        CHECK_EQ_BYTES(all, m, "blocks", "bytes handed over");
    }
    c.label(strf("block %zu", BS));
}
PROP(streaming_any_block_size, 15000, 700000)
{
    switch (s.below(10))
    {
    case 0: return streaming<1>(s, c);
    case 1: return streaming<3>(s, c);
    case 2: return streaming<16>(s, c);
    case 3: return streaming<24>(s, c);
    case 4: return streaming<32>(s, c);
    case 5: return streaming<64>(s, c);
    case 6: return streaming<72>(s, c);
    case 7: return streaming<128>(s, c);
    case 8: return streaming<136>(s, c);
    default: return streaming<200>(s, c);
    }
}
template <class H>
static void mac(Source& s, Ctx& c, const char* name, Bytes (*refh)(const Bytes&))
{
    std::unique_ptr<hash_lib::HMac<H>> m;
    std::size_t                        rounds = 1 + s.below(4);
    for (std::size_t r = 0; r < rounds; r++)
    {
        std::size_t kl;
        switch (s.below(6))
        {
        case 0: kl = H::BLOCK_SIZE; break;
        case 1: kl = H::BLOCK_SIZE + 1; break;
        case 2: kl = H::BLOCK_SIZE - 1; break;
        case 3: kl = s.below(H::BLOCK_SIZE); break;
        case 4: kl = H::BLOCK_SIZE + s.below(3 * H::BLOCK_SIZE); break;
        default: kl = s.below(8);
        }
        Bytes key = s.bytes(kl), msg = s.bytes(s.len(4 * H::BLOCK_SIZE, H::BLOCK_SIZE));
        auto  pieces = cut(s, msg.size(), H::BLOCK_SIZE, 6);
        bool  stop   = s.coin(1, 4);
        NOTE("HMAC-%s key[%zu]=%s msg[%zu]=%s in %zu pieces%s", name, kl, hex(key, 40).c_str(), msg.size(), hex(msg, 40).c_str(), pieces.size(), stop ? " (abandoned)" : "");
        Exact kb(key);
        if (!m)
        {
            if (s.coin())
                m.reset(new hash_lib::HMac<H>(kb.data(), kl));
            else
                m.reset(new hash_lib::HMac<H>()), m->set_key(kb.data(), kl);
        }
        else
            m->set_key(kb.data(), kl);
        CHECK(kb.unchanged(), "input-modified", "key changed");
        Guarded     out(H::DIGEST_SIZE, s.below(17));
        std::size_t p = 0;
        for (std::size_t k = 0; k < pieces.size(); k++)
        {
            bool last = k + 1 == pieces.size();
            if (last && stop)
                break;
            Exact e(Bytes(msg.begin() + p, msg.begin() + p + pieces[k]));
            p += pieces[k];
            last ? m->do_final(out.data(), e.data(), pieces[k]) : m->update(e.data(), pieces[k]);
            CHECK(e.unchanged(), "input-modified", "message changed");
        }
        c.nontrivial(r > 0 || kl > H::BLOCK_SIZE || pieces.size() > 1);
        c.label(kl < H::BLOCK_SIZE ? "short key" : kl == H::BLOCK_SIZE ? "block-sized key" : "long key");
        if (stop)
        {
            c.label("abandoned");
            continue;
        }
        CHECK_EQ_BYTES(out.bytes(), ref::hmac(refh, H::BLOCK_SIZE, key, msg), "hmac", "MAC");
        CHECK(out.intact(), "out-of-bounds", "wrote outside the MAC");
    }
}
static Bytes sm3ref(const Bytes& b) { return ref::sm3(b); }
PROP(hmac_sm3, 8000, 400000) { mac<sm3::SM3>(s, c, "SM3", sm3ref); }
PROP(hmac_toy, 8000, 400000)
{
    switch (s.below(6))
    {
    case 0: return mac<ToyHash<16, 16>>(s, c, "toy16/16", ToyHash<16, 16>::refh);
    case 1: return mac<ToyHash<64, 20>>(s, c, "toy64/20", ToyHash<64, 20>::refh);
    case 2: return mac<ToyHash<128, 64>>(s, c, "toy128/64", ToyHash<128, 64>::refh);
    case 3: return mac<ToyHash<136, 32>>(s, c, "toy136/32", ToyHash<136, 32>::refh);
    case 4: return mac<ToyHash<24, 5>>(s, c, "toy24/5", ToyHash<24, 5>::refh);
    default: return mac<ToyHash<72, 72>>(s, c, "toy72/72", ToyHash<72, 72>::refh);
    }
}
#if !defined(__SANITIZE_ADDRESS__) && !defined(PBT_LIBFUZZER)
// one call with more bytes than 32 bits can count
namespace {
template <std::size_t BS>
struct Fast : hash_lib::Hash<BS>
{
    u64         h = 1, bytes = 0;
    Bytes       last;
    const char* name() const noexcept override { return "fast"; }

private:
    void update_blocks(const std::uint8_t* in, std::size_t n) override
    {
        bytes += (u64)n * BS;
        for (std::size_t i = 0; i < n * BS; i += 8)
        {
            u64 v;
            std::memcpy(&v, in + i, 8);
            h = (h ^ v) * 0x100000001b3;
        }
    }
    void final_block(std::uint8_t*, const std::uint8_t* in, std::size_t n) override { last.assign(in, in + n); }
};
template <std::size_t BS>
void huge(Source& s, Ctx& c)
{
    u64         n = bigmap::gen_len(s);
    bigmap::Big a(n);
    if (!a.p)
        c.discard();
    u64   sd  = s.draw(~0ull);
    Bytes pre = s.bytes(s.coin() ? 0 : s.below(2 * BS)), post = s.bytes(s.coin() ? 0 : s.below(2 * BS));
    NOTE("block %zu: %zu bytes, then %llu at once (contents %llx), then %zu", BS, pre.size(), (unsigned long long)n, (unsigned long long)sd, post.size());
    a.fill(sd);
    Fast<BS> x, y;
    u8       d[1];
    x.update(pre.data(), pre.size()), y.update(pre.data(), pre.size());
    x.update(a.p, n);
    for (u64 o = 0; o < n; o += 1 << 20)
        y.update(a.p + o, (std::size_t)std::min<u64>(1 << 20, n - o));
    x.do_final(d, post.data(), post.size()), y.do_final(d, post.data(), post.size());
    u64 total = pre.size() + n + post.size();
    CHECK(y.bytes == total / BS * BS && y.last.size() == total % BS, "pieces", "compressed %llu bytes, %zu left", (unsigned long long)y.bytes, y.last.size());
    CHECK(x.bytes == y.bytes && x.h == y.h && x.last == y.last, "huge-call", "one huge call: %llu bytes compressed, %zu left; in pieces %llu and %zu", (unsigned long long)x.bytes, x.last.size(),
          (unsigned long long)y.bytes, y.last.size());
    c.nontrivial();
}
} // namespace
PROP(huge_call_64, 2, 10) { huge<64>(s, c); }
PROP(huge_call_144, 1, 10) { huge<144>(s, c); }
// keys and messages of several gigabytes under HMAC
PROP(huge_mac, 40, 400)
{
    using H       = hugemsg::LenHash<32>;
    bool        k = s.coin(1, 3), fin = s.coin();
    u64         n = hugemsg::gen_len(s);
    bigmap::Big big(n);
    if (!big.p)
        c.discard();
    Bytes pre = s.bytes(s.below(70)), key = s.bytes(s.below(130)), got(32), K(64), in(32), want(32);
    NOTE("%s of %llu bytes, key %s, first piece %s", k ? "key" : "message", (unsigned long long)n, hex(key).c_str(), hex(pre).c_str());
    big.fill(n);
    hash_lib::HMac<H> m;
    const u8*         kp = k ? big.p : key.data();
    std::size_t       kl = k ? (std::size_t)n : key.size();
    m.set_key(kp, kl);
    m.update(pre.data(), pre.size());
    if (k)
        m.do_final(got.data());
    else if (fin)
        m.do_final(got.data(), big.p, n);
    else
        m.update(big.p, n), m.do_final(got.data());
    H h;
    if (kl > 64)
        h.do_final(K.data(), kp, kl);
    else
        std::copy(kp, kp + kl, K.begin());
    for (auto& b : K)
        b ^= 0x36;
    h.update(K.data(), 64), h.update(pre.data(), pre.size());
    if (!k)
        h.update(big.p, n);
    h.do_final(in.data());
    for (auto& b : K)
        b ^= 0x36 ^ 0x5c;
    h.update(K.data(), 64), h.do_final(want.data(), in.data(), 32);
    CHECK_EQ_BYTES(got, want, "hmac", "HMAC");
    c.nontrivial();
    c.label("huge MAC");
}
#endif
