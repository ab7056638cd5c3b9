#include "pbt.h"

#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <chrono>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <poll.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define PBT_SAN 1
#endif
extern "C" const char* __asan_default_options()
{
    return "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:"
           "handle_abort=0:max_allocation_size_mb=4096";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:abort_on_error=1"; }
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:abort_on_error=1:exitcode=66"; }

namespace pbt {

std::vector<Prop>& props()
{
    static std::vector<Prop> p;
    return p;
}

std::string strf(const char* fmt, ...)
{
    va_list ap, ap2;
    va_start(ap, fmt);
    va_copy(ap2, ap);
    int n = vsnprintf(nullptr, 0, fmt, ap);
    va_end(ap);
    std::string s(n < 0 ? 0 : (size_t)n, 0);
    if (n > 0)
        vsnprintf(&s[0], (size_t)n + 1, fmt, ap2);
    va_end(ap2);
    return s;
}

const char* cancel_alter(Source& s, u8* p, std::size_t n)
{
    if (n == 0)
        return "empty";
    Bytes       orig(p, p + n);
    const char* what = "";
    // a word size and two different word positions
    std::size_t w = (std::size_t)1 << s.below(4);
    while (w > n)
        w >>= 1;
    std::size_t words = n / w, i = s.below(words), j = s.below(words);
    if (words > 1 && i == j)
        j = (j + 1) % words;
    auto get = [&](std::size_t k, bool be) {
        u64 v = 0;
        for (std::size_t b = 0; b < w; b++)
            v |= (u64)p[k * w + b] << 8 * (be ? w - 1 - b : b);
        return v;
    };
    auto put = [&](std::size_t k, bool be, u64 v) {
        for (std::size_t b = 0; b < w; b++)
            p[k * w + b] = (u8)(v >> 8 * (be ? w - 1 - b : b));
    };
    auto delta = [&]() {
        u64 d = s.coin() ? 1ull << s.below(8 * w) : s.limb();
        d &= w == 8 ? ~0ull : (1ull << 8 * w) - 1;
        return d ? d : 1;
    };
    bool be = s.coin();
    switch (s.below(11))
    {
    case 0: // cancels under xor of words
    {
        u64 d = delta();
        put(i, be, get(i, be) ^ d);
        if (i != j)
            put(j, be, get(j, be) ^ d);
        what = "same xor in two words";
        break;
    }
    case 1: // cancels under addition of words
    {
        u64 d = delta();
        put(i, be, get(i, be) + d);
        if (i != j)
            put(j, be, get(j, be) - d);
        what = "opposite differences";
        break;
    }
    case 2: // the sum of the differences is a multiple of 2^width
    {
        u64 top = 1ull << (8 * w - 1);
        put(i, be, get(i, be) ^ top);
        if (i != j)
            put(j, be, get(j, be) ^ top);
        what = "top bits";
        break;
    }
    case 3:
    {
        u64 top = s.coin() ? 1ull << (8 * w - 1) : delta();
        for (std::size_t k = 0; k < words; k++)
            put(k, be, get(k, be) ^ top);
        what = "same xor everywhere";
        break;
    }
    case 4:
    {
        u64 a = get(i, be), b = get(j, be);
        put(i, be, b), put(j, be, a);
        what = "words swapped";
        break;
    }
    case 5: std::reverse(p, p + n); what = "reversed"; break;
    case 6: std::rotate(p, p + s.below(n), p + n); what = "rotated"; break;
    case 7: p[n - 1] ^= (u8)(1u << s.below(8)); what = "last byte"; break;
    case 8: p[0] ^= (u8)(1u << s.below(8)); what = "first byte"; break;
    case 9: // only a prefix or suffix is right
    {
        std::size_t k = s.below(n);
        bool        head = s.coin();
        for (std::size_t b = head ? k : 0; b < (head ? n : k); b++)
            p[b] ^= (u8)s.range(1, 255);
        what = head ? "prefix kept" : "suffix kept";
        break;
    }
    case 10: // one whole word
        for (std::size_t b = 0; b < w; b++)
            p[i * w + b] ^= 0xff;
        what = "word complemented";
        break;
    }
    if (!std::memcmp(orig.data(), p, n))
        p[s.below(n)] ^= (u8)(1u << s.below(8)), what = "bit flip";
    return what;
}

std::string hex(const u8* p, std::size_t n, std::size_t max)
{
    static const char* d = "0123456789abcdef";
    std::string        s;
    for (std::size_t i = 0; i < n && i < max; i++)
        s += d[p[i] >> 4], s += d[p[i] & 15];
    if (n > max)
        s += strf("...(%zu bytes)", n);
    if (n == 0)
        s = "(empty)";
    return s;
}

struct Shared
{
    volatile u64 sub, idx, pos, nchoices, done_cases, failed;
    char         sig[256];
    char         msg[4096];
    u64          choices[MAX_CHOICES];
};

static u64 hash_name(const std::string& s)
{
    u64 h = 1469598103934665603ull;
    for (char ch : s)
        h = (h ^ (u8)ch) * 1099511628211ull;
    return h;
}

static u64 case_seed(u64 seed, const Prop& p, u64 i)
{
    u64 x = seed * 0x9e3779b97f4a7c15ull ^ hash_name(p.name);
    u64 a = splitmix(x);
    x     = a ^ (i * 0xd1342543de82ef95ull + 0x632be59bd9b4e019ull);
    return splitmix(x);
}

static double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static unsigned case_timeout = 60;
constexpr unsigned SLOW_TIMEOUT = 150;
static bool     shrinking = false;
void slow_case()
{
#ifndef PBT_LIBFUZZER
    if (!shrinking && case_timeout < SLOW_TIMEOUT)
        alarm(SLOW_TIMEOUT);
#endif
}
void describe(int fd, const std::string& text)
{
    for (size_t o = 0; o < text.size();)
    {
        ssize_t k = write(fd, text.data() + o, text.size() - o);
        if (k <= 0)
            return;
        o += (size_t)k;
    }
}

enum Outcome { PASS, DISCARD, FAIL };

static Outcome run_one(const Prop& p, Source& s, Ctx& c, Shared* sh)
{
    try
    {
        p.fn(s, c);
        return PASS;
    }
    catch (const Discard&)
    {
        return DISCARD;
    }
    catch (const PropFail& f)
    {
        snprintf(sh->sig, sizeof sh->sig, "%s", f.sig.c_str());
        snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str());
    }
    catch (const std::exception& e)
    {
        snprintf(sh->sig, sizeof sh->sig, "unexpected-exception");
        snprintf(sh->msg, sizeof sh->msg, "unexpected exception: %s", e.what());
    }
    catch (...)
    {
        snprintf(sh->sig, sizeof sh->sig, "unexpected-exception");
        snprintf(sh->msg, sizeof sh->msg, "unexpected non-std exception");
    }
    sh->failed = 1;
    return FAIL;
}

static Shared* new_shared()
{
    void* m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED)
    {
        perror("mmap");
        exit(2);
    }
    return (Shared*)m;
}

struct Result
{
    Outcome     o = PASS;
    std::string sig, msg, desc;
    std::vector<u64> used;
    bool        infra = false;
};

static std::string slurp(const std::string& p)
{
    std::ifstream     f(p);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}

static std::string tmpdir;

static void quiet_child(const std::string& errfile)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0)
    {
        dup2(fd, 2);
        dup2(fd, 1);
        close(fd);
    }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
}

static std::string crash_summary(int st, const std::string& errfile, std::string& sig)
{
    std::string e = slurp(errfile);
    std::string line;
    auto        grab = [&](const char* pat) {
        if (!line.empty())
            return;
        size_t q = e.find(pat);
        if (q == std::string::npos)
            return;
        size_t b = e.rfind('\n', q);
        b        = b == std::string::npos ? 0 : b + 1;
        size_t n = e.find('\n', q);
        line     = e.substr(b, (n == std::string::npos ? e.size() : n) - b);
    };
    grab("runtime error:");
    grab("SUMMARY:");
    grab("terminate called");
    grab("ERROR:");
    std::string kind = "crash";
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
        kind = "hang";
    else if (e.find("WARNING: ThreadSanitizer") != std::string::npos)
        kind = "data-race";
    else if (e.find("AddressSanitizer") != std::string::npos)
        kind = "address";
    else if (e.find("runtime error:") != std::string::npos)
        kind = "undefined";
    else if (e.find("terminate called") != std::string::npos)
        kind = "terminate";
    sig = kind;
    std::string m = strf("process ended abnormally (%s %d): %s",
                         WIFSIGNALED(st) ? "signal" : "status",
                         WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), line.c_str());
    size_t q = e.find("    #0 ");
    if (q != std::string::npos)
    {
        std::string fr = e.substr(q, 1500);
        m += "\n" + fr;
    }
    return m;
}

// run one choice sequence in a fresh child
static Result exec_case(const Prop& p, const std::vector<u64>& ch, bool want_desc)
{
    static Shared* sh = new_shared();
    sh->failed = 0, sh->nchoices = 0, sh->sig[0] = 0, sh->msg[0] = 0;
    std::string err = tmpdir + "/exec.err", df = tmpdir + "/exec.desc";
    unlink(df.c_str());
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
        quiet_child(err);
        alarm(case_timeout);
        Source s(ch.data(), ch.size(), sh->choices, &sh->nchoices);
        Ctx    c;
        // written as it comes, so that it is there even if the case kills the process
        c.want_desc = want_desc;
        if (want_desc)
            c.desc_fd = open(df.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        Outcome o = run_one(p, s, c, sh);
        _exit(o == PASS ? 0 : o == DISCARD ? 4 : 3);
    }
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
        ;
    Result r;
    r.used.assign(sh->choices, sh->choices + sh->nchoices);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        r.o = PASS;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 4)
        r.o = DISCARD;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 3)
        r.o = FAIL, r.sig = sh->sig, r.msg = sh->msg;
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
        r.o = DISCARD, r.infra = true;
    else
    {
        r.o   = FAIL;
        r.msg = crash_summary(st, err, r.sig);
    }
    if (want_desc)
        r.desc = slurp(df);
    return r;
}

// a hanging case is shrunk with less patience, unless it is one of the long ones
static std::vector<u64> shrink(const Prop& p, std::vector<u64> best, const std::string& sig, double took)
{
    if (sig == "hang" && took > case_timeout + 10)
        return best;
    struct Patience
    {
        unsigned saved = case_timeout;
        Patience() { shrinking = true; }
        ~Patience() { shrinking = false, case_timeout = saved; }
    } patience;
    if (sig == "hang")
        case_timeout = 10;
    int    budget = 600;
    double t0     = now(), limit = sig == "hang" ? 45 : 90;
    auto   ok     = [&](const std::vector<u64>& cand, std::vector<u64>& out) {
        if (budget-- <= 0 || now() - t0 > limit)
            return false;
        Result r = exec_case(p, cand, false);
        if (r.o == FAIL && r.sig == sig)
        {
            out = r.used.size() && r.used.size() <= cand.size() ? r.used : cand;
            return true;
        }
        return false;
    };
    auto simpler = [](const std::vector<u64>& a, const std::vector<u64>& b) {
        if (a.size() != b.size())
            return a.size() < b.size();
        return a < b;
    };
    bool progress = true;
    while (progress && budget > 0 && now() - t0 < limit)
    {
        progress = false;
        std::vector<u64> out;
        for (size_t k = best.size(); k >= 1; k /= 2)
        {
            for (size_t i = 0; i + k <= best.size() && budget > 0;)
            {
                auto cand = best;
                cand.erase(cand.begin() + i, cand.begin() + i + k);
                if (ok(cand, out) && simpler(out, best))
                    best = out, progress = true;
                else
                    i += k;
            }
        }
        for (size_t k = 8; k >= 1; k /= 2)
            for (size_t i = 0; i < best.size() && budget > 0; i += k)
            {
                auto cand = best;
                bool any  = false;
                for (size_t j = i; j < best.size() && j < i + k; j++)
                    any = any || cand[j], cand[j] = 0;
                if (any && ok(cand, out) && simpler(out, best))
                    best = out, progress = true;
            }
        for (size_t i = 0; i < best.size() && budget > 0; i++)
        {
            u64 lo = 0, hi = best[i];
            int it = 0;
            while (lo < hi && it++ < 12 && budget > 0)
            {
                u64  mid  = lo + (hi - lo) / 2;
                auto cand = best;
                if (i >= cand.size())
                    break;
                cand[i] = mid;
                if (ok(cand, out) && simpler(out, best))
                {
                    best = out, progress = true;
                    if (i >= best.size())
                        break;
                    hi = best[i];
                }
                else
                    lo = mid + 1;
            }
        }
    }
    return best;
}

struct Stats
{
    u64                        eval = 0, discard = 0;
    std::map<std::string, u64> labels;
    std::vector<u64>           hashes; // nontrivial
};

static std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\')
            o += '\\', o += (char)ch;
        else if (ch == '\n')
            o += "\\n";
        else if (ch < 32 || ch > 126)
            o += strf("\\u%04x", ch);
        else
            o += (char)ch;
    }
    return o;
}

static u64 count_of(const Prop& p, bool thorough, double scale)
{
    u64 base = thorough ? p.thorough : p.quick;
    u64 N    = (u64)(base * scale);
    return N == 0 && base ? 1 : N;
}

// the fixed order in which worker w visits its cases: ten rounds over all
// sub-properties, so that a time limit cuts every sub-property alike
template <class F>
static void iterate(unsigned w, unsigned W, u64 seed, bool thorough, double scale, const std::string& only, F f)
{
    (void)seed;
    u64   pos = 0;
    auto& ps  = props();
    for (u64 round = 0; round < 10; round++)
        for (u64 si = 0; si < ps.size(); si++)
        {
            if (!only.empty() && only != ps[si].name)
                continue;
            u64 N = count_of(ps[si], thorough, scale);
            u64 a = N * round / 10, b = N * (round + 1) / 10;
            for (u64 i = a; i < b; i++)
                if ((i + si) % W == w && !f(pos++, si, i))
                    return;
        }
}

static void worker(unsigned w, unsigned W, u64 seed, bool thorough, double scale, const std::string& only,
                   Shared* sh, u64 from_pos, double max_s)
{
    quiet_child(tmpdir + strf("/w%u.err", w));
    Stats st;
    auto  dump = [&] {
        FILE* f = fopen((tmpdir + strf("/w%u.stats", w)).c_str(), "ab");
        fprintf(f, "E %llu %llu\n", (unsigned long long)st.eval, (unsigned long long)st.discard);
        for (auto& l : st.labels)
            fprintf(f, "L %llu %s\n", (unsigned long long)l.second, l.first.c_str());
        for (u64 h : st.hashes)
            fprintf(f, "H %llx\n", (unsigned long long)h);
        fclose(f);
    };
    double t0 = now();
    iterate(w, W, seed, thorough, scale, only, [&](u64 pos, u64 si, u64 i) {
        if (pos < from_pos)
            return true;
        if (max_s > 0 && (pos & 15) == 0 && now() - t0 > max_s)
            return false;
        const Prop& p = props()[si];
        sh->sub = si, sh->idx = i, sh->pos = pos;
        Source s(case_seed(seed, p, i), sh->choices, &sh->nchoices);
        Ctx    c;
        alarm(case_timeout);
        Outcome o = run_one(p, s, c, sh);
        if (o == FAIL)
        {
            dump();
            _exit(3);
        }
        st.eval++;
        if (o == DISCARD)
        {
            st.discard++;
            return true;
        }
        for (auto& l : c.labels)
            st.labels[p.name + ":" + l.first] += 1;
        st.labels[p.name] += 1;
        if (c.nontriv)
        {
            u64 h = hash_name(p.name);
            for (u64 k = 0; k < sh->nchoices; k++)
                h = (h ^ sh->choices[k]) * 0x9fb21c651e98df25ull, h ^= h >> 29;
            st.hashes.push_back(h);
        }
        return true;
    });
    alarm(0);
    dump();
    _exit(0);
}

static void write_replay(const std::string& path, const std::string& variant, const Prop& p,
                         const std::string& kind, const std::vector<u64>& ch, const Result& r,
                         const std::string& extra)
{
    std::ofstream f(path);
    f << "check " << (getenv("PBT_CHECK") ? getenv("PBT_CHECK") : "?") << "\n";
    f << "variant " << variant << "\nsub " << p.name << "\nkind " << kind << "\nsig " << r.sig << "\n";
    if (const char* e = getenv("PBT_PLUGIN_NAMES"))
        f << "plugins " << e << "\n";
    f << extra;
    f << "choices " << ch.size() << "\n";
    for (size_t i = 0; i < ch.size(); i++)
        f << ch[i] << (i + 1 == ch.size() ? "\n" : " ");
    f << "--- what failed\n" << r.msg << "\n--- case\n" << r.desc << "\n";
}

// re-run a worker's cases at positions from..to in one fresh process
static bool run_range(u64 seed, unsigned w, unsigned W, bool thorough, double scale, const std::string& only,
                      u64 from, u64 to, Result& out)
{
    static Shared* sh = new_shared();
    sh->failed = 0, sh->sig[0] = 0, sh->msg[0] = 0;
    std::string err = tmpdir + "/range.err";
    pid_t       pid = fork();
    if (pid == 0)
    {
        quiet_child(err);
        iterate(w, W, seed, thorough, scale, only, [&](u64 pos, u64 si, u64 i) {
            if (pos < from)
                return true;
            if (pos > to)
                return false;
            const Prop& p = props()[si];
            Source      s(case_seed(seed, p, i), sh->choices, &sh->nchoices);
            Ctx         c;
            alarm(case_timeout);
            if (run_one(p, s, c, sh) == FAIL)
                _exit(3);
            return true;
        });
        _exit(0);
    }
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
        ;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        return false;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
        return false;
    out.o = FAIL;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3)
        out.sig = sh->sig, out.msg = sh->msg;
    else
        out.msg = crash_summary(st, err, out.sig);
    return true;
}

} // namespace pbt

using namespace pbt;

#ifndef PBT_LIBFUZZER
int main(int argc, char** argv)
{
    u64         seed = 1;
    unsigned    W    = 8;
    bool        thorough = false;
    double      scale    = 1.0, max_s = 0;
    std::string out = "result.json", variant = "?", replay, only, replay_out = "replay.txt";
    bool        list = false;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto        v = [&] { return std::string(argv[++i]); };
        if (a == "--seed") seed = strtoull(v().c_str(), 0, 10);
        else if (a == "--workers") W = atoi(v().c_str());
        else if (a == "--tier") thorough = v() == "thorough";
        else if (a == "--scale") scale = atof(v().c_str());
        else if (a == "--out") out = v();
        else if (a == "--variant") variant = v();
        else if (a == "--replay") replay = v();
        else if (a == "--replay-out") replay_out = v();
        else if (a == "--only") only = v();
        else if (a == "--timeout") case_timeout = atoi(v().c_str());
        else if (a == "--max-seconds") max_s = atof(v().c_str());
        else if (a == "--list") list = true;
    }
    if (list)
    {
        for (auto& p : props())
            printf("%s %llu %llu\n", p.name.c_str(), (unsigned long long)p.quick, (unsigned long long)p.thorough);
        return 0;
    }
    char tmpl[] = "/tmp/pbtXXXXXX";
    if (!mkdtemp(tmpl))
    {
        perror("mkdtemp");
        return 2;
    }
    tmpdir       = tmpl;
    auto cleanup = [&] {
        // only the flat files this process created in its own directory
        std::string cmd = "rm -rf -- '" + tmpdir + "'";
        if (system(cmd.c_str())) {}
    };
    auto find = [&](const std::string& n) -> const Prop* {
        for (auto& p : props())
            if (p.name == n)
                return &p;
        return nullptr;
    };
    if (!replay.empty())
    {
        std::ifstream    f(replay);
        std::string      line, sub, kind, sig;
        std::vector<u64> ch;
        u64              rs = 1, rw = 0, rW = 8, rt = 0, ra = 0, rb = 0;
        double           rscale = 1;
        std::string      ronly;
        while (std::getline(f, line))
        {
            std::stringstream ss(line);
            std::string       k;
            ss >> k;
            if (k == "sub") ss >> sub;
            else if (k == "kind") ss >> kind;
            else if (k == "sig") ss >> sig;
            else if (k == "range") ss >> rs >> rw >> rW >> rt >> rscale >> ra >> rb >> ronly;
            else if (k == "choices")
            {
                size_t n;
                ss >> n;
                for (size_t i = 0; i < n; i++)
                {
                    u64 x;
                    f >> x;
                    ch.push_back(x);
                }
                break;
            }
        }
        const Prop* p = find(sub);
        if (!p)
        {
            fprintf(stderr, "no such sub-property: %s\n", sub.c_str());
            cleanup();
            return 2;
        }
        Result r;
        if (kind == "range")
        {
            if (ronly == "-")
                ronly.clear();
            if (!run_range(rs, (unsigned)rw, (unsigned)rW, rt != 0, rscale, ronly, ra, rb, r))
                r.o = PASS;
        }
        else
            r = exec_case(*p, ch, true);
        printf("%s: %s %s\n%s\n%s\n", r.o == FAIL ? "FAIL" : r.o == PASS ? "PASS" : "DISCARD", sub.c_str(),
               r.sig.c_str(), r.msg.c_str(), r.desc.c_str());
        cleanup();
        return r.o == FAIL ? 3 : 0;
    }

    double               t0 = now();
    std::vector<Shared*> sh(W);
    std::vector<pid_t>   pid(W);
    std::vector<int>     restarts(W, 0);
    for (unsigned w = 0; w < W; w++)
    {
        sh[w]         = new_shared();
        sh[w]->failed = 0;
    }
    fflush(stdout);
    for (unsigned w = 0; w < W; w++)
    {
        pid[w] = fork();
        if (pid[w] == 0)
            worker(w, W, seed, thorough, scale, only, sh[w], 0, max_s);
    }
    int      live  = (int)W, bad = -1, bad_status = 0;
    bool     infra = false;
    std::string infra_msg;
    while (live > 0)
    {
        int   st;
        pid_t q = waitpid(-1, &st, 0);
        if (q < 0)
        {
            if (errno == EINTR)
                continue;
            break;
        }
        unsigned w = 0;
        while (w < W && pid[w] != q)
            w++;
        if (w == W)
            continue;
        pid[w] = 0;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        {
            live--;
            continue;
        }
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
        {
            // ended from outside (memory pressure): carry on after that case
            if (restarts[w]++ < 3)
            {
                u64 fp = sh[w]->pos + 1;
                pid[w] = fork();
                if (pid[w] == 0)
                    worker(w, W, seed, thorough, scale, only, sh[w], fp, max_s);
                continue;
            }
            infra = true, infra_msg = "worker killed repeatedly";
            live--;
            continue;
        }
        bad = (int)w, bad_status = st;
        live--;
        for (unsigned k = 0; k < W; k++)
            if (pid[k] > 0)
                kill(pid[k], SIGKILL);
        while (waitpid(-1, &st, 0) > 0)
            ;
        break;
    }
    Stats            tot;
    std::vector<u64> hs;
    for (unsigned w = 0; w < W; w++)
    {
        std::ifstream f(tmpdir + strf("/w%u.stats", w));
        std::string   line;
        while (std::getline(f, line))
        {
            std::stringstream ss(line);
            std::string       k;
            ss >> k;
            if (k == "E")
            {
                u64 a, b;
                ss >> a >> b;
                tot.eval += a, tot.discard += b;
            }
            else if (k == "L")
            {
                u64 n;
                ss >> n;
                std::string rest;
                std::getline(ss, rest);
                tot.labels[rest.substr(1)] += n;
            }
            else if (k == "H")
            {
                u64 h;
                ss >> std::hex >> h;
                hs.push_back(h);
            }
        }
    }
    std::sort(hs.begin(), hs.end());
    hs.erase(std::unique(hs.begin(), hs.end()), hs.end());

    bool        viol = false;
    std::string vmsg, vsub, vsig;
    bool        reproduced = false;
    if (bad >= 0)
    {
        Shared*          b = sh[bad];
        const Prop&      p = props()[b->sub];
        std::vector<u64> ch(b->choices, b->choices + b->nchoices);
        Result           r0;
        r0.o = FAIL;
        if (WIFEXITED(bad_status) && WEXITSTATUS(bad_status) == 3)
            r0.sig = b->sig, r0.msg = b->msg;
        else
            r0.msg = crash_summary(bad_status, tmpdir + strf("/w%d.err", bad), r0.sig);
        viol = true, vsub = p.name;
        Result r1;
        double t1 = 0;
        for (int k = 0; k < (r0.sig == "hang" ? 1 : 3) && !reproduced; k++)
        {
            t1         = now();
            r1         = exec_case(p, ch, true);
            reproduced = r1.o == FAIL;
        }
        if (reproduced)
        {
            auto   sm = shrink(p, ch, r1.sig, now() - t1);
            Result r2 = sm == ch ? r1 : exec_case(p, sm, true);
            if (r2.o != FAIL)
                sm = ch, r2 = r1;
            write_replay(replay_out, variant, p, "choices", sm, r2, "");
            vmsg = r2.msg, vsig = r2.sig;
        }
        else
        {
            // depends on earlier cases in the same process
            u64    to = b->pos;
            Result r2;
            for (u64 back = 1;; back *= 4)
            {
                u64 from = to >= back ? to - back : 0;
                if (run_range(seed, (unsigned)bad, W, thorough, scale, only, from, to, r2))
                {
                    reproduced = true;
                    write_replay(replay_out, variant, p, "range", {}, r2,
                                 strf("range %llu %d %u %d %.17g %llu %llu %s\n", (unsigned long long)seed, bad, W,
                                      (int)thorough, scale, (unsigned long long)from, (unsigned long long)to,
                                      only.empty() ? "-" : only.c_str()));
                    vmsg = r2.msg + " (depends on earlier cases in the process)", vsig = r2.sig;
                    break;
                }
                if (from == 0)
                    break;
            }
            if (!reproduced)
            {
                write_replay(replay_out, variant, p, "choices", ch, r0, "");
                vmsg = r0.msg, vsig = r0.sig;
            }
        }
    }

    // samples: the first cases of each sub-property, written out
    std::vector<std::string> samples;
    if (bad < 0)
        for (auto& p : props())
        {
            if (!only.empty() && only != p.name)
                continue;
            u64    N = count_of(p, thorough, scale);
            for (u64 i = N > 1 ? 1 : 0; i < std::min<u64>(N, 3); i += 7)
            {
                static Shared* tmp = new_shared();
                int            pf[2];
                if (pipe(pf)) break;
                pid_t k = fork();
                if (k == 0)
                {
                    close(pf[0]);
                    quiet_child(tmpdir + "/sample.err");
                    alarm(case_timeout);
                    Source s(case_seed(seed, p, i), tmp->choices, &tmp->nchoices);
                    Ctx    c;
                    c.want_desc = true;
                    c.desc_fd   = pf[1];
                    run_one(p, s, c, tmp);
                    _exit(0);
                }
                close(pf[1]);
                // cases describe themselves before the long part of their work
                double t1 = now();
                std::string d;
                char        buf[2048];
                ssize_t     n;
                for (;;)
                {
                    pollfd f{pf[0], POLLIN, 0};
                    int    ms = (int)(1000 * (t1 + 3 - now()));
                    if (ms <= 0 || poll(&f, 1, ms) <= 0 || (n = read(pf[0], buf, sizeof buf)) <= 0)
                        break;
                    if (d.size() < 1200)
                        d.append(buf, (size_t)n);
                }
                d.resize(std::min<size_t>(d.size(), 1200));
                close(pf[0]);
                kill(k, SIGKILL);
                int st;
                waitpid(k, &st, 0);
                samples.push_back(p.name + " #" + std::to_string(i) + ": " + d);
            }
        }

    std::ofstream o(out);
    o << "{\"variant\":\"" << jesc(variant) << "\",\"evaluations\":" << tot.eval << ",\"discarded\":" << tot.discard
      << ",\"distinct_nontrivial\":" << hs.size() << ",\"wall_s\":" << (now() - t0) << ",\"infra\":\"" << jesc(infra_msg) << "\",\"violation\":"
      << (viol ? "true" : "false") << ",\"reproduced\":" << (reproduced ? "true" : "false") << ",\"sub\":\""
      << jesc(vsub) << "\",\"sig\":\"" << jesc(vsig) << "\",\"message\":\"" << jesc(vmsg) << "\",\"labels\":{";
    bool first = true;
    for (auto& l : tot.labels)
    {
        o << (first ? "" : ",") << "\"" << jesc(l.first) << "\":" << l.second;
        first = false;
    }
    o << "},\"samples\":[";
    for (size_t i = 0; i < samples.size(); i++)
        o << (i ? "," : "") << "\"" << jesc(samples[i]) << "\"";
    o << "]}\n";
    o.close();
    cleanup();
    if (viol)
        return 3;
    return infra ? 5 : 0;
}
#else
// libFuzzer entry: the first byte selects the sub-property
extern "C" int LLVMFuzzerTestOneInput(const u8* d, size_t n)
{
    static Shared* sh = new_shared();
    static const char* only = getenv("PBT_ONLY");
    if (n < 1)
        return 0;
    auto&       ps = props();
    const Prop* p  = &ps[d[0] % ps.size()];
    if (only)
        for (auto& q : ps)
            if (q.name == only)
                p = &q;
    Source s(d + 1, n - 1, true, sh->choices, &sh->nchoices);
    Ctx    c;
    sh->failed = 0;
    if (run_one(*p, s, c, sh) == FAIL)
    {
        const char* rp = getenv("PBT_REPLAY_OUT");
        if (rp)
        {
            Result r;
            r.o = FAIL, r.sig = sh->sig, r.msg = sh->msg;
            write_replay(rp, getenv("PBT_VARIANT") ? getenv("PBT_VARIANT") : "?", *p, "choices",
                         std::vector<u64>(sh->choices, sh->choices + sh->nchoices), r, "");
        }
        fprintf(stderr, "PROPERTY FAILED %s %s: %s\n", p->name.c_str(), sh->sig, sh->msg);
        abort();
    }
    return 0;
}
#endif
