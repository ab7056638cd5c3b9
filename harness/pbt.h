// Small property-based-testing engine: every generated value is drawn through
// a Source, which records the sequence of choices.  A case is therefore a
// choice sequence; shrinking and replaying work on that sequence, so any
// property written against Source gets shrinking and replay for free, and the
// same property can be driven by a coverage-guided fuzzer's bytes.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace pbt {

using u8    = std::uint8_t;
using u16   = std::uint16_t;
using u32   = std::uint32_t;
using u64   = std::uint64_t;
using Bytes = std::vector<u8>;

struct PropFail
{
    std::string sig, msg;
};
struct Discard
{
};

inline u64 splitmix(u64& x)
{
    u64 z = (x += 0x9e3779b97f4a7c15ull);
    z     = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z     = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

constexpr std::size_t MAX_CHOICES = 1 << 16;

class Source
{
public:
    // random generation
    explicit Source(u64 seed, u64* log, volatile u64* log_n)
        : state_(seed), log_(log), log_n_(log_n)
    {
        *log_n_ = 0;
    }
    // replay of recorded choices
    Source(const u64* c, std::size_t n, u64* log, volatile u64* log_n)
        : replay_(c), replay_n_(n), is_replay_(true), log_(log), log_n_(log_n)
    {
        *log_n_ = 0;
    }
    // driven by fuzzer bytes
    Source(const u8* data, std::size_t n, bool, u64* log, volatile u64* log_n)
        : fz_(data), fz_n_(n), is_fuzz_(true), log_(log), log_n_(log_n)
    {
        *log_n_ = 0;
    }

    // one choice in [0, max], smaller is simpler
    u64 draw(u64 max)
    {
        u64 v;
        if (is_replay_)
        {
            v = pos_ < replay_n_ ? replay_[pos_] : 0;
            if (v > max)
                v = max;
        }
        else if (is_fuzz_)
        {
            v          = 0;
            u64 needed = max;
            while (needed)
            {
                v = (v << 8) | (fz_pos_ < fz_n_ ? fz_[fz_pos_++] : 0);
                needed >>= 8;
            }
            if (max != UINT64_MAX)
                v %= (max + 1);
        }
        else
        {
            u64 r = splitmix(state_);
            v     = max == UINT64_MAX
                        ? r
                        : (u64)(((unsigned __int128)r * ((unsigned __int128)max + 1)) >> 64);
        }
        pos_++;
        if (*log_n_ >= MAX_CHOICES)
            throw Discard();
        log_[*log_n_] = v;
        *log_n_       = *log_n_ + 1;
        return v;
    }
    u64    below(u64 n) { return draw(n - 1); }
    u64    range(u64 lo, u64 hi) { return lo + draw(hi - lo); }
    bool   coin(unsigned num = 1, unsigned den = 2) { return draw(den - 1) >= den - num; }
    u64    word() { return draw(UINT64_MAX); }
    u8     byte() { return (u8)draw(255); }
    // index by weights
    std::size_t weighted(std::initializer_list<unsigned> w)
    {
        u64 t = 0;
        for (auto x : w)
            t += x;
        u64         r = below(t);
        std::size_t i = 0;
        for (auto x : w)
        {
            if (r < x)
                return i;
            r -= x;
            i++;
        }
        return 0;
    }
    template <class T>
    const T& oneof(const std::vector<T>& v)
    {
        return v[below(v.size())];
    }
    // a limb that is often all zeros/ones or adjacent to it
    u64 limb()
    {
        switch (below(8))
        {
        case 0: return 0;
        case 1: return UINT64_MAX;
        case 2: return draw(2);
        case 3: return UINT64_MAX - draw(2);
        case 4: return 1ull << draw(63);
        case 5: return (1ull << draw(63)) - 1;
        default: return word();
        }
    }
    // n bytes: zero, ones, sparse, limb-structured or random content
    Bytes bytes(std::size_t n)
    {
        Bytes b(n);
        if (n == 0)
            return b;
        switch (below(10))
        {
        case 0: break;
        case 1: std::memset(b.data(), 0xff, n); break;
        case 2: b[below(n)] = (u8)(1u << below(8)); break;
        case 3:
        {
            std::memset(b.data(), 0xff, n);
            b[below(n)] ^= (u8)(1u << below(8));
            break;
        }
        case 4:
        {
            u64 st = word();
            for (std::size_t i = 0; i < n; i += 8)
            {
                u64 k = splitmix(st) & 3, w = splitmix(st);
                if (k == 0) w = 0;
                if (k == 1) w = ~0ull;
                for (std::size_t j = i; j < n && j < i + 8; j++, w >>= 8)
                    b[j] = (u8)w;
            }
            break;
        }
        default: fill(b.data(), n);
        }
        return b;
    }
    // uniformly random bytes
    void fill(u8* p, std::size_t n)
    {
        if (n <= 64)
        {
            for (std::size_t i = 0; i < n; i += 8)
            {
                u64 w = word();
                for (std::size_t j = i; j < n && j < i + 8; j++, w >>= 8)
                    p[j] = (u8)w;
            }
        }
        else
        {
            u64 st = word();
            for (std::size_t i = 0; i < n; i += 8)
            {
                u64 w = splitmix(st);
                for (std::size_t j = i; j < n && j < i + 8; j++, w >>= 8)
                    p[j] = (u8)w;
            }
        }
    }
    Bytes rnd(std::size_t n)
    {
        Bytes b(n);
        fill(b.data(), n);
        return b;
    }
    // a length in [0,max] concentrated around multiples of unit
    std::size_t len(std::size_t max, std::size_t unit)
    {
        std::size_t v;
        switch (below(6))
        {
        case 0: v = below(std::min<u64>(max, unit) + 1); break;
        case 1: v = unit * below(max / unit + 1); break;
        case 2:
            v = unit * below(max / unit + 1) + range(0, 2);
            v = v ? v - 1 : 0;
            break;
        case 3: v = below(std::min<u64>(max, 4 * unit) + 1); break;
        default: v = below(max + 1); break;
        }
        return v > max ? max : v;
    }

private:
    u64            state_    = 0;
    const u64*     replay_   = nullptr;
    std::size_t    replay_n_ = 0;
    bool           is_replay_ = false;
    const u8*      fz_        = nullptr;
    std::size_t    fz_n_ = 0, fz_pos_ = 0;
    bool           is_fuzz_ = false;
    std::size_t    pos_     = 0;
    u64*           log_;
    volatile u64*  log_n_;
};

struct Ctx
{
    bool                       want_desc = false;
    int                        desc_fd   = -1; // where NOTE writes
    bool                       nontriv = false;
    std::map<std::string, u64> labels;
    void nontrivial(bool b = true) { nontriv = nontriv || b; }
    void label(const char* s) { labels[s]++; }
    void label(const std::string& s) { labels[s]++; }
    [[noreturn]] void fail(const std::string& sig, const std::string& msg)
    {
        throw PropFail{sig, msg};
    }
    [[noreturn]] void discard() { throw Discard(); }
};

std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string hex(const u8* p, std::size_t n, std::size_t max = 96);
inline std::string hex(const Bytes& b, std::size_t max = 96) { return hex(b.data(), b.size(), max); }

void describe(int fd, const std::string& text);
// the running case may take long (gigabytes): it gets more time before it counts as hanging
void slow_case();

using Fn = void (*)(Source&, Ctx&);
struct Prop
{
    std::string name;
    u64         quick, thorough;
    Fn          fn;
};
std::vector<Prop>& props();
struct Reg
{
    Reg(const char* n, u64 q, u64 t, Fn f) { props().push_back({n, q, t, f}); }
};

// change p[0..n) in a way a weak comparison or a folded accumulator may not
// notice: differences that cancel under xor, addition or carry, words swapped,
// bytes permuted, one end left alone.  Always really changes the value (if it
// is not empty) and says what it did.
const char* cancel_alter(Source& s, u8* p, std::size_t n);
inline const char* cancel_alter(Source& s, Bytes& b) { return cancel_alter(s, b.data(), b.size()); }

#define PROP(NAME, QUICK, THOROUGH)                                   \
    static void          prop_##NAME(pbt::Source& s, pbt::Ctx& c);    \
    static const pbt::Reg reg_##NAME(#NAME, QUICK, THOROUGH, prop_##NAME); \
    static void          prop_##NAME([[maybe_unused]] pbt::Source& s, [[maybe_unused]] pbt::Ctx& c)

#define NOTE(...)                                   \
    do                                              \
    {                                               \
        if (c.want_desc)                            \
            pbt::describe(c.desc_fd, pbt::strf(__VA_ARGS__) + "\n"); \
    } while (0)

// heap buffer with guard bytes on both sides, arbitrary alignment, so that
// writes outside [data, data+n) are seen even without a sanitizer
class Guarded
{
public:
    static constexpr std::size_t G = 64;
    Guarded(std::size_t n, std::size_t align_off = 0, u8 fill = 0xA5)
        : n_(n), off_(G + (align_off & 63)), raw_(n + 2 * G + 64, 0xC3)
    {
        base_ = raw_.data() + ((64 - ((uintptr_t)raw_.data() & 63)) & 63) * 0 + off_;
        std::memset(base_, fill, n_);
    }
    Guarded(const Bytes& b, std::size_t align_off = 0) : Guarded(b.size(), align_off)
    {
        if (!b.empty())
            std::memcpy(base_, b.data(), b.size());
    }
    Guarded(const Guarded&)            = delete;
    Guarded& operator=(const Guarded&) = delete;
    u8*         data() { return base_; }
    const u8*   data() const { return base_; }
    std::size_t size() const { return n_; }
    bool        intact() const
    {
        for (std::size_t i = 0; i < off_; i++)
            if (raw_[i] != 0xC3)
                return false;
        for (std::size_t i = off_ + n_; i < raw_.size(); i++)
            if (raw_[i] != 0xC3)
                return false;
        return true;
    }
    Bytes bytes() const { return Bytes(base_, base_ + n_); }
    bool  is(const Bytes& b) const { return b.size() == n_ && (n_ == 0 || !std::memcmp(base_, b.data(), n_)); }

private:
    std::size_t n_, off_;
    Bytes       raw_;
    u8*         base_;
};

// exactly-sized heap copy: out-of-bounds reads of it are caught by ASan
class Exact
{
public:
    explicit Exact(const Bytes& b) : n_(b.size()), p_((u8*)std::malloc(b.size() ? b.size() : 1))
    {
        if (n_)
            std::memcpy(p_, b.data(), n_);
        orig_ = b;
    }
    explicit Exact(std::size_t n, u8 fill = 0xA5) : Exact(Bytes(n, fill)) {}
    ~Exact() { std::free(p_); }
    Exact(const Exact&)            = delete;
    Exact& operator=(const Exact&) = delete;
    // an empty range is given as one-past-the-end of a 1-byte block, so that
    // even a single-byte read of it is outside the block
    u8*         data() { return n_ ? p_ : p_ + 1; }
    std::size_t size() const { return n_; }
    bool        unchanged() const { return n_ == 0 || !std::memcmp(p_, orig_.data(), n_); }
    Bytes       bytes() const { return Bytes(p_, p_ + n_); }

private:
    std::size_t n_;
    u8*         p_;
    Bytes       orig_;
};

#define CHECK(cond, sig, ...)                        \
    do                                               \
    {                                                \
        if (!(cond))                                 \
            c.fail(sig, pbt::strf(__VA_ARGS__));     \
    } while (0)

inline std::string diff_at(const Bytes& a, const Bytes& b)
{
    if (a.size() != b.size())
        return strf("sizes %zu vs %zu", a.size(), b.size());
    for (std::size_t i = 0; i < a.size(); i++)
        if (a[i] != b[i])
            return strf("first difference at byte %zu of %zu", i, a.size());
    return "equal";
}
#define CHECK_EQ_BYTES(got, want, sig, what)                                             \
    do                                                                                   \
    {                                                                                    \
        const pbt::Bytes& g_ = (got);                                                    \
        const pbt::Bytes& w_ = (want);                                                   \
        if (g_ != w_)                                                                    \
            c.fail(sig, std::string(what) + ": got " + pbt::hex(g_) + " want " +         \
                            pbt::hex(w_) + " (" + pbt::diff_at(g_, w_) + ")");           \
    } while (0)

} // namespace pbt
