#include "bigmap.h"
#include "pbt.h"
#include <gmlib/memory_utils/endian.h>
#include <gmlib/memory_utils/memdump.h>
#include <gmlib/memory_utils/memxor.h>
#include <array>
#include <cctype>
#include <sys/mman.h>
#include <unistd.h>
#include <utility>
using namespace pbt;
namespace mu = memory_utils;
template <class T>
static T from_be(const u8* p)
{
    T v = 0;
    for (std::size_t i = 0; i < sizeof(T); i++)
        v = (T)((u64)v << 8 | p[i]);
    return v;
}
template <class T>
static T from_le(const u8* p)
{
    T v = 0;
    for (std::size_t i = sizeof(T); i-- > 0;)
        v = (T)((u64)v << 8 | p[i]);
    return v;
}
template <class T>
static void endian(Source& s, Ctx& c, const char* what, T (*lbe)(const void*), T (*lle)(const void*), void (*sbe)(void*, T), void (*sle)(void*, T))
{
    Bytes       b  = s.bytes(sizeof(T));
    std::size_t al = s.below(64);
    Guarded     g(b, al);
    Exact       e(b);
    NOTE("%s bytes=%s alignment %zu", what, hex(b).c_str(), al);
    T be = lbe(g.data()), le = lle(g.data());
    CHECK(be == from_be<T>(b.data()), "load-be", "%s load big-endian gave %llx", what, (unsigned long long)be);
    CHECK(le == from_le<T>(b.data()), "load-le", "%s load little-endian gave %llx", what, (unsigned long long)le);
    CHECK(lbe(e.data()) == be && lle(e.data()) == le, "load-align", "%s load depends on alignment", what);
    CHECK(g.intact() && g.is(b), "load-writes", "load modified memory");
    T       v = (T)s.limb();
    Guarded o(sizeof(T), s.below(64));
    Exact   x(sizeof(T));
    sbe(o.data(), v), sbe(x.data(), v);
    CHECK(from_be<T>(o.data()) == v && o.bytes() == x.bytes(), "store-be", "%s store big-endian of %llx gave %s", what, (unsigned long long)v, hex(o.bytes()).c_str());
    CHECK(lbe(o.data()) == v, "round-trip", "%s store/load big-endian of %llx", what, (unsigned long long)v);
    sle(o.data(), v), sle(x.data(), v);
    CHECK(from_le<T>(o.data()) == v && o.bytes() == x.bytes(), "store-le", "%s store little-endian of %llx gave %s", what, (unsigned long long)v, hex(o.bytes()).c_str());
    CHECK(lle(o.data()) == v, "round-trip", "%s store/load little-endian of %llx", what, (unsigned long long)v);
    CHECK(o.intact(), "store-bounds", "store wrote outside %zu bytes", sizeof(T));
    c.nontrivial(be != le);
}
PROP(endian8, 2000, 20000) { endian<std::uint8_t>(s, c, "8", mu::load8_be, mu::load8_le, mu::store8_be, mu::store8_le); }
PROP(endian16, 20000, 500000) { endian<std::uint16_t>(s, c, "16", mu::load16_be, mu::load16_le, mu::store16_be, mu::store16_le); }
PROP(endian32, 20000, 500000) { endian<std::uint32_t>(s, c, "32", mu::load32_be, mu::load32_le, mu::store32_be, mu::store32_le); }
PROP(endian64, 20000, 500000) { endian<std::uint64_t>(s, c, "64", mu::load64_be, mu::load64_le, mu::store64_be, mu::store64_le); }

template <class F>
static void xor_case(Source& s, Ctx& c, std::size_t n, const char* what, F f)
{
    Bytes       a = s.bytes(n), b = s.bytes(n), w(n);
    int         alias = (int)s.below(5); // 0,1: separate; 2: out=in1; 3: out=in2; 4: all three the same
    std::size_t oa = s.below(40), ob = s.below(40), oo = s.below(40);
    NOTE("%s n=%zu alias=%d align %zu/%zu/%zu a=%s b=%s", what, n, alias, oa, ob, oo, hex(a, 64).c_str(), hex(b, 64).c_str());
    Guarded ga(a, oa), gb(b, ob), go(n, oo);
    u8*     in1 = ga.data();
    u8*     in2 = alias == 4 ? in1 : gb.data();
    u8*     out = alias == 2 || alias == 4 ? in1 : alias == 3 ? in2 : go.data();
    for (std::size_t i = 0; i < n; i++)
        w[i] = a[i] ^ (alias == 4 ? a[i] : b[i]);
    f(out, in1, in2);
    CHECK_EQ_BYTES(Bytes(out, out + n), w, "xor", what);
    CHECK(ga.intact() && gb.intact() && go.intact(), "xor-bounds", "%s of %zu bytes wrote outside", what, n);
    if (alias < 2)
        CHECK(ga.is(a), "xor-input", "first input changed");
    if (alias != 3)
        CHECK(gb.is(b), "xor-input", "second input changed");
    // exactly-sized operands: any read past them is a sanitizer report
    Exact ea(a), eb(b), eo(n);
    f(eo.data(), ea.data(), eb.data());
    Bytes w2(n);
    for (std::size_t i = 0; i < n; i++)
        w2[i] = a[i] ^ b[i];
    CHECK_EQ_BYTES(eo.bytes(), w2, "xor", what);
    c.nontrivial(n > 0);
    if (alias >= 2)
        c.label("aliased");
}
PROP(memxor_n, 20000, 800000)
{
    std::size_t n = s.coin() ? s.below(140) : s.len(1700, 16);
    xor_case(s, c, n, "memxor_n", [&](void* o, const void* x, const void* y) { mu::memxor_n(o, x, y, n); });
}
using XF = void (*)(void*, const void*, const void*);
template <std::size_t... I>
static constexpr std::array<XF, sizeof...(I)> table(std::index_sequence<I...>)
{
    return {{&mu::memxor<I>...}};
}
static const auto        SMALL = table(std::make_index_sequence<300>());
static const std::size_t BIGN[] = {383, 384, 385, 447, 448, 496, 500, 511, 512, 513, 528, 575, 640, 767, 768, 769, 1000, 1023, 1024, 1025, 1279, 1535, 1536, 2047};
static const XF BIG[] = {&mu::memxor<383>, &mu::memxor<384>, &mu::memxor<385>, &mu::memxor<447>, &mu::memxor<448>, &mu::memxor<496>, &mu::memxor<500>, &mu::memxor<511>,
                         &mu::memxor<512>, &mu::memxor<513>, &mu::memxor<528>, &mu::memxor<575>, &mu::memxor<640>, &mu::memxor<767>, &mu::memxor<768>, &mu::memxor<769>,
                         &mu::memxor<1000>, &mu::memxor<1023>, &mu::memxor<1024>, &mu::memxor<1025>, &mu::memxor<1279>, &mu::memxor<1535>, &mu::memxor<1536>, &mu::memxor<2047>};
PROP(memxor_fixed, 20000, 800000)
{
    if (s.coin(1, 4))
    {
        std::size_t k = s.below(sizeof BIGN / sizeof *BIGN);
        xor_case(s, c, BIGN[k], "memxor<N>", BIG[k]);
    }
    else
    {
        std::size_t k = s.below(SMALL.size());
        xor_case(s, c, k, "memxor<N>", SMALL[k]);
    }
}
template <class F>
static std::string capture(F f)
{
    std::fflush(stdout);
    int fd = memfd_create("dump", 0), save = dup(1);
    dup2(fd, 1);
    f();
    std::fflush(stdout);
    dup2(save, 1);
    close(save);
    std::string r;
    char        b[4096];
    lseek(fd, 0, SEEK_SET);
    for (ssize_t k; (k = read(fd, b, sizeof b)) > 0;)
        r.append(b, (std::size_t)k);
    close(fd);
    return r;
}
PROP(memdump, 3000, 60000)
{
    static const char* FM[] = {"%02x", "%02X", "%u", "0x%02x", "%3d", "\\x%02x"};
    static const char* SEP[] = {" ", "", ",", ", ", ":"};
    static const char* PRE[] = {"", "data=", "<<\n"};
    static const char* END[] = {"\n", "", "]\n"};
    std::size_t        n = s.len(100, 16), line = s.coin(1, 3) ? 16 : 1 + s.below(40);
    int                f = (int)s.below(6), p = (int)s.below(5), pr = (int)s.below(3), e = (int)s.below(3);
    bool               ascii = s.coin(), defaults = s.coin(1, 4), nulls = !defaults && s.coin(1, 6);
    Bytes              m = s.bytes(n);
    if (s.coin())
        for (auto& x : m)
            x = (u8)(32 + x % 96);
    if (defaults)
        line = 16, f = 0, p = 0, pr = 0, e = 0, ascii = true;
    if (nulls)
        f = 0, p = 0, pr = 0, e = 1; // null: "%02x", " ", "", and no end
    NOTE("memdump n=%zu line=%zu fmt=%s sep='%s' ascii=%d data=%s", n, line, FM[f], SEP[p], ascii, hex(m).c_str());
    Exact       d(m);
    std::string got = capture([&] {
        if (defaults)
            mu::memdump(d.data(), n);
        else if (nulls)
            mu::memdump(d.data(), n, line, nullptr, ascii, nullptr, nullptr, nullptr);
        else
            mu::memdump(d.data(), n, line, FM[f], ascii, SEP[p], PRE[pr], END[e]);
    });
    CHECK(d.unchanged(), "input-modified", "memdump changed its input");
    std::string want = PRE[pr];
    std::size_t width = 0;
    for (std::size_t i = 0; i < n; i += line)
    {
        std::size_t k = std::min(line, n - i);
        std::string items, text;
        for (std::size_t j = i; j < i + k; j++)
        {
            char t[32];
            std::snprintf(t, sizeof t, FM[f], m[j]);
            items += t, items += SEP[p];
            text += m[j] >= 32 && m[j] < 127 ? (char)m[j] : '.';
        }
        // a short last line is padded to the width of the line before it
        if (k < line)
            while (items.size() < width)
                items += ' ';
        width = items.size();
        want += items;
        if (ascii)
            want += "   " + text;
        if (i + line < n)
            want += "\n";
    }
    want += END[e];
    CHECK(got == want, "memdump", "printed\n%s\nwant\n%s", got.c_str(), want.c_str());
    c.nontrivial(n > line);
}
#if !defined(__SANITIZE_ADDRESS__) && !defined(PBT_LIBFUZZER)
// more bytes than 32 bits can count
PROP(memxor_huge, 2, 12)
{
    u64         n = bigmap::gen_len(s);
    bigmap::Big a(n), b(n), o(n);
    if (!a.p || !b.p || !o.p)
        c.discard();
    u64 sd = s.draw(~0ull);
    NOTE("memxor_n of %llu bytes, contents %llx", (unsigned long long)n, (unsigned long long)sd);
    a.fill(sd), b.fill(sd + 1), o.fill(sd + 2);
    Bytes end(o.p + n, o.p + o.n);
    mu::memxor_n(o.p, a.p, b.p, n);
    // the window holds the last whole window written over what came before
    Bytes want(bigmap::WIN), wt, gt;
    for (u64 i = 0; i < bigmap::WIN; i++)
        want[i] = a.p[i] ^ b.p[i];
    CHECK(std::memcmp(want.data(), o.p, bigmap::WIN) == 0, "xor", "window of a huge XOR");
    for (u64 i = o.n - bigmap::TAIL; i < n; i++)
        wt.push_back(a.p[i] ^ b.p[i]), gt.push_back(o.p[i]);
    CHECK(wt == gt, "xor", "end of a huge XOR");
    CHECK(std::equal(end.begin(), end.end(), o.p + n), "out-of-bounds", "bytes after the range changed");
    c.nontrivial();
}
// more words than 32 bits can count: the range is combined in place, so each
// mapping of a window changes it once
PROP(memxor_words, 1, 8)
{
    u64         n = (s.coin(3, 4) ? 1ull << 34 : 1ull << 35) + (s.coin() ? s.below(100) : s.below(1u << 20));
    bigmap::Big a(n), b(n);
    if (!a.p || !b.p)
        c.discard();
    u64 sd = s.draw(~0ull);
    NOTE("memxor_n in place of %llu bytes, contents %llx", (unsigned long long)n, (unsigned long long)sd);
    a.fill(sd), b.fill(sd + 1);
    Bytes before = a.image(), want = before, key = b.image();
    bool  first = s.coin();
    if (first)
        mu::memxor_n(a.p, a.p, b.p, n);
    else
        mu::memxor_n(a.p, b.p, a.p, n);
    u64 body = a.n - bigmap::TAIL; // bytes of windows
    for (u64 i = 0; i < bigmap::WIN; i++)
        if ((body / bigmap::WIN + (i < body % bigmap::WIN)) & 1)
            want[i] ^= key[i];
    for (u64 i = 0; i < n - body; i++)
        want[bigmap::WIN + i] ^= key[bigmap::WIN + i];
    CHECK(a.image() == want, "xor", "in-place XOR of %llu bytes", (unsigned long long)n);
    c.nontrivial();
    c.label("more than 2^31 words");
}
#endif
