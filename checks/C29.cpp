// Stand-ins for the hardware instructions: found by unqualified lookup before
// the compiler's own, they deliver scripted values and failures.  The same
// headers are therefore exercised with injected faults here and with the real
// instructions in C29_hw.cpp.
#include "bigmap.h"
#include "sm9h.h"
#include <immintrin.h>
namespace fake {
using namespace pbt;
static std::vector<u8>    ok;     // whether the i-th read succeeds
static std::vector<Bytes> given;  // the successful values, in order
static std::size_t        at;
static bool               dead;   // everything fails from the end of `ok` on
static u64                st;
static bool               many;   // nothing is recorded and everything succeeds
template <class T>
static int step(T* p)
{
    if (many)
    {
        T v = (T)(at++ * 0x9E3779B97F4A7C15ull) & (T)0x7f7f7f7f7f7f7f7full;
        std::memcpy(p, &v, sizeof v);
        return 1;
    }
    bool good = at < ok.size() ? ok[at] : !dead;
    at++;
    T v = (T)splitmix(st);
    // good values have all top bits clear, failed reads leave bytes with them set
    const T top = (T)0x8080808080808080ull;
    v           = good ? (T)(v & ~top) : (T)(v | top);
    std::memcpy(p, &v, sizeof v);
    if (good)
        given.push_back(Bytes((u8*)p, (u8*)p + sizeof(T)));
    return good;
}
} // namespace fake
#if defined(CPU_FLAG_RDRAND) && defined(CPU_FLAG_RDSEED)
namespace rng::hardware_rng {
static inline int _rdrand32_step(unsigned int* p) { return fake::step(p); }
static inline int _rdrand64_step(unsigned long long* p) { return fake::step(p); }
static inline int _rdseed32_step(unsigned int* p) { return fake::step(p); }
static inline int _rdseed64_step(unsigned long long* p) { return fake::step(p); }
} // namespace rng::hardware_rng
#include <gmlib/rng/hardware_rng/rdrand32_rng.h>
#include <gmlib/rng/hardware_rng/rdrand64_rng.h>
#include <gmlib/rng/hardware_rng/rdseed32_rng.h>
#include <gmlib/rng/hardware_rng/rdseed64_rng.h>
#endif
#include <gmlib/rng/cstd_rng.h>
#include <gmlib/rng/std_rng.h>
#include <memory>
using namespace pbt;
using namespace sm2h;
namespace R9 = ::ref::sm9;
namespace real {
std::vector<std::pair<const char*, std::unique_ptr<rng::Rng>>> hardware(); // C29_hw.cpp
}
namespace {
using Gen = std::pair<const char*, std::unique_ptr<rng::Rng>>;
std::vector<Gen>& gens()
{
    static std::vector<Gen> v = [] {
        std::vector<Gen> r = real::hardware();
        r.emplace_back("StdRng", std::make_unique<rng::StdRng>());
        r.emplace_back("CstdRng", std::make_unique<rng::CstdRng>());
        return r;
    }();
    return v;
}
// false: the hardware had nothing to give, and said so
bool draw(Ctx& c, rng::Rng& g, const char* name, Guarded& b)
{
    try
    {
        g.gen(b.data(), b.size());
    }
    catch (const std::exception&)
    {
        CHECK(std::strncmp(name, "Rd", 2) == 0, "throws", "%s failed", name);
        CHECK(b.intact(), "out-of-bounds", "%s wrote outside the requested %zu bytes while failing", name, b.size());
        return false;
    }
    CHECK(b.intact(), "out-of-bounds", "%s wrote outside the requested %zu bytes", name, b.size());
    return true;
}
} // namespace
// every requested byte is written: over 10 calls on differently filled buffers
// no byte keeps its fill each time (chance 2^-80), and nothing else changes
PROP(fill, 4000, 150000)
{
    auto&       g = gens()[s.below(gens().size())];
    std::size_t n = s.coin(1, 4) ? s.below(1200) : s.below(70), off = s.below(33);
    NOTE("%s: %zu bytes at offset %zu", g.first, n, off);
    std::vector<u8> touched(n);
    Bytes           prev;
    for (int k = 0; k < 10; k++)
    {
        u8      fill = (u8)(17 + 53 * k);
        Guarded b(n, off, fill);
        if (!draw(c, *g.second, g.first, b))
        {
            c.label("hardware exhausted");
            return;
        }
        for (std::size_t i = 0; i < n; i++)
            touched[i] |= b.data()[i] != fill;
        Bytes now = b.bytes();
        // no repetition within a call (64-bit words) or across calls
        if (n >= 16)
        {
            CHECK(now != prev, "repeats", "%s delivered the same %zu bytes twice", g.first, n);
            std::vector<u64> w;
            for (std::size_t i = 0; i + 8 <= n; i += 8)
            {
                u64 v;
                std::memcpy(&v, &now[i], 8);
                w.push_back(v);
            }
            if (!prev.empty())
                for (std::size_t i = 0; i + 8 <= n; i += 8)
                {
                    u64 v;
                    std::memcpy(&v, &prev[i], 8);
                    w.push_back(v);
                }
            std::sort(w.begin(), w.end());
            CHECK(std::adjacent_find(w.begin(), w.end()) == w.end(), "repeats", "%s repeated a 64-bit word: %s after %s", g.first, hex(now).c_str(), hex(prev).c_str());
        }
        prev = now;
    }
    for (std::size_t i = 0; i < n; i++)
        CHECK(touched[i], "unfilled", "%s never wrote byte %zu of %zu", g.first, i, n);
    c.label(g.first);
    c.nontrivial(n > 0);
}
// bytes at every position take many values (no constant or copied position)
PROP(positions, 60, 2000)
{
    auto&       g = gens()[s.below(gens().size())];
    std::size_t n = 1 + s.below(40);
    NOTE("%s: 64 draws of %zu bytes", g.first, n);
    std::vector<Bytes> col(n);
    for (int k = 0; k < 64; k++)
    {
        Guarded b(n, 0, 0);
        if (!draw(c, *g.second, g.first, b))
            return;
        for (std::size_t i = 0; i < n; i++)
            col[i].push_back(b.data()[i]);
    }
    for (std::size_t i = 0; i < n; i++)
    {
        u8 o = 0, a = 0xff;
        for (auto x : col[i])
            o |= x, a &= x;
        CHECK(o == 0xff && a == 0, "stuck-bit", "%s: a bit of byte %zu of %zu never changed in 64 draws (or %02x and %02x)", g.first, i, n, o, a);
        for (std::size_t j = 0; j < i; j++)
            CHECK(col[i] != col[j], "repeats", "%s: bytes %zu and %zu of %zu are always equal", g.first, j, i, n);
    }
    c.nontrivial();
}
// objects made later do not repeat what earlier ones delivered
PROP(several_objects, 200, 5000)
{
    auto a = std::make_unique<rng::CstdRng>();
    std::vector<Bytes> seen;
    std::vector<std::unique_ptr<rng::Rng>> v;
    NOTE("several generator objects");
    for (int k = 0; k < 8; k++)
    {
        if (v.empty() || s.coin())
            v.push_back(s.coin() ? std::unique_ptr<rng::Rng>(std::make_unique<rng::CstdRng>()) : std::make_unique<rng::StdRng>());
        Bytes b(16);
        v[s.below(v.size())]->gen(b.data(), 16);
        for (auto& x : seen)
            CHECK(x != b, "repeats", "a generator object repeated %s", hex(b).c_str());
        seen.push_back(b);
    }
    c.nontrivial(v.size() > 1);
}
PROP(rand_pod, 200, 4000)
{
    auto& g = gens()[s.below(gens().size())];
    NOTE("%s rand<T>", g.first);
    try
    {
        struct P { u64 a; u32 b; u8 c[20]; };
        u64 o = 0, p = 0;
        u8  q = 0;
        for (int i = 0; i < 12; i++)
        {
            P x = g.second->rand<P>();
            o |= x.a, p |= x.b, q |= x.c[19];
            CHECK(g.second->rand<u64>() != x.a, "repeats", "rand repeats");
        }
        CHECK(o > 0xffffffffull && p > 0xffff && q, "unfilled", "rand<T> leaves part of T unset");
    }
    catch (const std::runtime_error&)
    {
    }
    c.nontrivial();
}
#if defined(CPU_FLAG_RDRAND) && defined(CPU_FLAG_RDSEED)
namespace {
template <class G>
void faults(Source& s, Ctx& c, unsigned retries, std::size_t word, const char* name)
{
    G           g;
    std::size_t n = s.below(120), off = s.below(17);
    fake::st = s.word(), fake::at = 0;
    fake::ok.clear(), fake::given.clear();
    // runs of failures: at most `retries` each is survivable, an endless one is not
    bool        fatal = s.coin(1, 3);
    std::size_t longest = 0, words = (n + word - 1) / word, good = 0, until = fatal && words ? s.below(words) : words;
    std::string pat;
    while (good < until)
    {
        std::size_t run = s.coin() ? 0 : s.coin(1, 3) ? retries : s.below(retries + 1);
        longest         = std::max(longest, run);
        fake::ok.insert(fake::ok.end(), run, 0);
        fake::ok.push_back(1);
        good++;
    }
    fake::dead = fatal && words;
    NOTE("%s<%u>: %zu bytes, %zu reads succeed, longest run of failures %zu%s", name, retries, n, good, longest, fake::dead ? ", then dead" : "");
    Guarded b(n, off, 0xA5);
    bool    threw = false;
    try
    {
        g.gen(b.data(), n);
    }
    catch (const std::exception&)
    {
        threw = true;
    }
    CHECK(b.intact(), "out-of-bounds", "%s wrote outside the requested %zu bytes", name, n);
    CHECK(threw == fake::dead, fake::dead ? "failure-ignored" : "gives-up", "%s %s with %s", name, threw ? "throws" : "returns", fake::dead ? "a dead source" : "survivable failures");
    c.label(threw ? "dead source reported" : longest ? "failures survived" : "no failure");
    c.nontrivial(n > 0);
    if (threw)
        return;
    // each word comes from one successful read of its own
    std::vector<u8> used(fake::given.size());
    Bytes           o = b.bytes();
    for (std::size_t i = 0; i < n; i += word)
    {
        std::size_t k = std::min(word, n - i);
        bool        found = false;
        for (std::size_t j = 0; j < used.size() && !found; j++)
        {
            if (used[j])
                continue;
            Bytes v = fake::given[j];
            std::size_t m = 0;
            for (std::size_t q = 0; q < k; q++)
                for (auto& x : v)
                    if (x == o[i + q])
                    {
                        x = 0xff, m++;
                        break;
                    }
            if (m == k)
                used[j] = 1, found = true;
        }
        CHECK(found, "failed-read-used", "%s: bytes %zu.. of %s do not come from a successful read of their own", name, i, hex(o).c_str());
    }
}
} // namespace
PROP(hardware_faults, 20000, 500000)
{
    using namespace rng::hardware_rng;
    switch (s.below(10))
    {
    case 0: return faults<RdrandRng_32<>>(s, c, 10, 4, "RdrandRng_32");
    case 1: return faults<RdrandRng_64<>>(s, c, 10, 8, "RdrandRng_64");
    case 2: return faults<RdseedRng_32<>>(s, c, 10, 4, "RdseedRng_32");
    case 3: return faults<RdseedRng_64<>>(s, c, 10, 8, "RdseedRng_64");
    case 4: return faults<RdrandRng_32<0>>(s, c, 0, 4, "RdrandRng_32");
    case 5: return faults<RdrandRng_64<3>>(s, c, 3, 8, "RdrandRng_64");
    case 6: return faults<RdseedRng_32<25>>(s, c, 25, 4, "RdseedRng_32");
    case 7: return faults<RdseedRng_64<1>>(s, c, 1, 8, "RdseedRng_64");
    case 8: return faults<RdrandRng_64<0>>(s, c, 0, 8, "RdrandRng_64");
    default: return faults<RdseedRng_64<0>>(s, c, 0, 8, "RdseedRng_64");
    }
}
#endif
namespace {
using H = sm3::SM3;
// what one operation derives from a generator: key bytes, or a signature or C1
struct Use
{
    const char* name;
    std::size_t secret; // bytes of the generator that decide the result
    Bytes (*run)(rng::Rng&, const Bytes& msg);
};
sm2::SM2PrivateKey<H>& key2()
{
    static Bytes                 d = Bytes(32, 0x3c);
    static sm2::SM2PrivateKey<H> k(d.data());
    return k;
}
sm9::SM9SignMasterPrivateKey<H>& key9()
{
    static Bytes                           d = Bytes(32, 0x3c);
    static sm9::SM9SignMasterPrivateKey<H> k(d.data());
    return k;
}
Bytes use_gen2(rng::Rng& r, const Bytes&)
{
    Bytes                 d(32), x(32), y(32);
    sm2::SM2PrivateKey<H> k;
    k.gen_priv(r);
    k.get_priv(d.data());
    k.fetch_pub().get_pub(x.data(), y.data());
    return d + x + y;
}
Bytes use_ctor2(rng::Rng& r, const Bytes&)
{
    Bytes                 d(32);
    sm2::SM2PrivateKey<H> k(r);
    k.get_priv(d.data());
    return d;
}
Bytes use_sign2(rng::Rng& r, const Bytes& m)
{
    Bytes b(64);
    key2().sign(b.data(), m.data(), m.size(), r);
    return b;
}
Bytes use_enc2(rng::Rng& r, const Bytes& m)
{
    Bytes       b(97 + m.size());
    std::size_t l = 0;
    key2().fetch_pub().encrypt(b.data(), &l, m.data(), m.size(), r);
    b.resize(l);
    return b;
}
Bytes use_gen9(rng::Rng& r, const Bytes&)
{
    Bytes                           d(32), x(64), y(64);
    sm9::SM9SignMasterPrivateKey<H> k;
    k.gen_priv(r);
    k.get_priv(d.data());
    k.fetch_SignPublicKey().get_pub(x.data(), y.data());
    return d + x + y;
}
Bytes use_ctor9(rng::Rng& r, const Bytes&)
{
    Bytes                           d(32);
    sm9::SM9SignMasterPrivateKey<H> k(r);
    k.get_priv(d.data());
    return d;
}
Bytes use_sign9(rng::Rng& r, const Bytes& m)
{
    static auto k = [] {
        ScriptRng u(Bytes(), 1);
        return key9().gen_SignPrivateKey((const u8*)"A", 1, u);
    }();
    Bytes       b(97);
    std::size_t l = 0;
    k.sign(b.data(), &l, m.data(), m.size(), r);
    b.resize(l);
    return b;
}
const Use USES[] = {{"SM2 gen_priv", 32, use_gen2}, {"SM2 key constructor", 32, use_ctor2}, {"SM2 sign", 32, use_sign2},     {"SM2 encrypt", 32, use_enc2},
                    {"SM9 gen_priv", 32, use_gen9}, {"SM9 key constructor", 32, use_ctor9}, {"SM9 sign", 32, use_sign9}};
Bytes gen_msg(Source& s) { return s.rnd(8 + s.below(60)); } // long enough that a zero key stream does not occur
} // namespace
// equal streams give equal results whatever happened before; every single bit
// of the delivered block matters
#if defined(CPU_FLAG_RDRAND) && defined(CPU_FLAG_RDSEED) && !defined(__SANITIZE_ADDRESS__) && !defined(PBT_LIBFUZZER)
// requests of several gigabytes
template <class G>
static void hardware_huge(Source& s, Ctx& c)
{
    u64         n = bigmap::gen_len(s);
    bigmap::Big b(n + 16);
    if (!b.p)
        c.discard();
    std::memset(b.p, 0xff, bigmap::WIN), std::memset(b.p + b.n - bigmap::TAIL, 0xff, bigmap::TAIL);
    G g;
    NOTE("%s, %llu bytes", g.name(), (unsigned long long)n);
    fake::many = true, fake::at = 0;
    g.gen(b.p, n);
    fake::many = false;
    auto check = [&](u64 from, u64 to) {
        u64 zero = 0;
        for (u64 i = from; i < to; i++)
        {
            CHECK(b.p[i] < 0x80, "unfilled", "byte %llu of %llu is not filled", (unsigned long long)i, (unsigned long long)n);
            zero += b.p[i] == 0;
        }
        CHECK(zero <= (to - from) / 16 + 64, "unfilled", "%llu zeros among %llu bytes", (unsigned long long)zero, (unsigned long long)(to - from));
    };
    check(0, bigmap::WIN);
    check(b.n - bigmap::TAIL, n);
    for (u64 i = n; i < b.n; i++)
        CHECK(b.p[i] == 0xff, "out-of-bounds", "byte %llu of %llu was written", (unsigned long long)i, (unsigned long long)n);
    CHECK(fake::at >= n / 8, "reads", "%zu reads for %llu bytes", fake::at, (unsigned long long)n);
    c.nontrivial();
    c.label("huge request");
}
PROP(huge_rdrand32, 1, 4) { hardware_huge<rng::hardware_rng::RdrandRng_32<>>(s, c); }
PROP(huge_rdrand64, 1, 4) { hardware_huge<rng::hardware_rng::RdrandRng_64<>>(s, c); }
PROP(huge_rdseed32, 1, 4) { hardware_huge<rng::hardware_rng::RdseedRng_32<>>(s, c); }
PROP(huge_rdseed64, 1, 4) { hardware_huge<rng::hardware_rng::RdseedRng_64<>>(s, c); }
#endif
PROP(secrets_depend_on_generator, 60, 4000)
{
    const Use& u = USES[s.below(7)];
    bool       nine = u.name[2] == '9';
    Bytes      m = gen_msg(s), blk = s.rnd(32);
    blk[0] &= 0x7f; // well below the order, so that no reduction maps two blocks to one value
    blk[0] |= 1;
    u64 seed = s.word();
    NOTE("%s block %s", u.name, hex(blk).c_str());
    ScriptRng a(blk, seed);
    Bytes     ra = u.run(a, m);
    {
        // disturb everything else a result could depend on
        std::srand((unsigned)s.word());
        std::rand();
        ScriptRng z(Bytes(), s.word());
        USES[s.below(7)].run(z, m);
    }
    ScriptRng b(blk, seed);
    CHECK_EQ_BYTES(u.run(b, m), ra, "not-determined", strf("%s from the same generator output", u.name));
    CHECK(a.given.size() >= u.secret, "too-little-randomness", "%s drew %zu bytes", u.name, a.given.size());
    std::map<Bytes, int> seen;
    seen[ra] = -1;
    for (int i = 0; i < 255; i += nine ? 1 + (int)s.below(16) : 1)
    {
        Bytes t = blk;
        t[31 - (std::size_t)(i / 8)] ^= (u8)(1 << (i % 8));
        ScriptRng r(t, seed);
        Bytes     x = u.run(r, m);
        auto      it = seen.find(x);
        CHECK(it == seen.end(), "ignored-bits", "%s: flipping bit %d of the random block gives the result of flip %d", u.name, i, it->second);
        seen[x] = i;
    }
    c.nontrivial();
}
// hostile generators: constant or periodic streams; every secret stays in range
PROP(hostile_generators, 400, 20000)
{
    const Use& u = USES[s.below(7)];
    Bytes      m = gen_msg(s), p;
    switch (s.below(4))
    {
    case 0: p = Bytes(1, s.coin() ? 0 : 0xff); break;
    case 1: p = s.bytes(1 + s.below(40)); break;
    case 2: p = ((u.name[2] == '2' ? ::ref::sm2::n() : R9::n()) - 4 + Z((std::int64_t)s.below(8))).bytes(32); break;
    default: p = gen_scalar(s).bytes(32);
    }
    NOTE("%s from the periodic stream %s", u.name, hex(p).c_str());
    struct Periodic : rng::Rng
    {
        Bytes       p;
        std::size_t at = 0;
        const char* name() const override { return "periodic"; }
        void        gen(void* o, std::size_t n) override
        {
            if (at + n > 8192)
                throw std::length_error("drained");
            for (std::size_t i = 0; i < n; i++)
                ((u8*)o)[i] = p[at++ % p.size()];
        }
    } r;
    r.p     = p;
    Bytes x = u.run(r, m);
    if (std::strstr(u.name, "gen_priv") || std::strstr(u.name, "constructor"))
    {
        bool     nine = u.name[2] == '9';
        const Z& n    = nine ? R9::n() : ::ref::sm2::n();
        Z        d    = Z::be(&x[0], 32);
        CHECK(d >= Z(1) && d <= n - (nine ? 1 : 2), "out-of-range", "%s gives the key %s", u.name, d.str().c_str());
    }
    c.label(u.name);
    c.nontrivial();
}
// a generator that fails part-way: the failure reaches the caller, the object
// keeps working, and a key object never holds half of a new key
PROP(failing_generator, 400, 15000)
{
    const Use&  u = USES[s.below(7)];
    Bytes       m = gen_msg(s);
    std::size_t lim = s.below(32);
    struct Failing : rng::Rng
    {
        std::size_t left;
        const char* name() const override { return "failing"; }
        void        gen(void* o, std::size_t n) override
        {
            std::memset(o, 0x11, std::min(n, left));
            if (n > left)
                throw std::runtime_error("generator failed");
            left -= n;
        }
    } r;
    r.left     = lim;
    NOTE("%s with a generator failing after %zu bytes", u.name, lim);
    bool threw = false;
    try
    {
        u.run(r, m);
    }
    catch (const std::runtime_error&)
    {
        threw = true;
    }
    CHECK(threw, "failure-ignored", "%s succeeds although the generator failed after %zu bytes", u.name, lim);
    // a key object that held a key
    if (u.name[2] == '2')
    {
        Z                     d0 = gen_priv(s);
        sm2::SM2PrivateKey<H> k(d0.bytes(32).data());
        r.left = lim;
        try
        {
            k.gen_priv(r);
        }
        catch (const std::runtime_error&)
        {
        }
        Bytes d(32), x(32), y(32);
        k.get_priv(d.data());
        k.fetch_pub().get_pub(x.data(), y.data());
        Pt P = ::ref::sm2::mulg(Z::be(d));
        CHECK(Z::be(d) == d0 && P.x == Z::be(x) && P.y == Z::be(y), "half-set-key", "a failed gen_priv leaves the private key %s", hex(d).c_str());
    }
    else
    {
        Z                               d0 = sm9h::gen_nz(s);
        sm9::SM9SignMasterPrivateKey<H> k(d0.bytes(32).data());
        r.left = lim;
        try
        {
            k.gen_priv(r);
        }
        catch (const std::runtime_error&)
        {
        }
        Bytes d(32);
        k.get_priv(d.data());
        CHECK(Z::be(d) == d0, "half-set-key", "a failed gen_priv leaves the master key %s", hex(d).c_str());
    }
    ScriptRng ok(Bytes(), s.word());
    u.run(ok, m);
    c.label(u.name);
    c.nontrivial();
}
