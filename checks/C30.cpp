// Tasks are step machines over one object each, determined by a seed.  Run
// alone, interleaved in one thread, or on several threads, they must write the
// same log.
#include "asn1h.h"
#include "modes.h"
#include "sm9h.h"
#include <atomic>
#include <fcntl.h>
#include <gmlib/hash_lib/hmac.h>
#include <gmlib/number/mont256.h>
#include <gmlib/rng/cstd_rng.h>
#include <gmlib/rng/std_rng.h>
#include <gmlib/sm2/internal/sm2_asn1.h>
#include <gmlib/ghash/ghash.h>
#include <memory>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using namespace pbt;
namespace {
using H = sm3::SM3;
struct R // small deterministic stream
{
    u64         st;
    u64         below(u64 n) { return splitmix(st) % n; }
    Bytes       bytes(std::size_t n)
    {
        Bytes b;
        b.reserve(n + 1); // never a null pointer
        while (b.size() < n)
            b.push_back((u8)splitmix(st));
        return b;
    }
};
struct Log
{
    Bytes b;
    void  put(const u8* p, std::size_t n) { b.insert(b.end(), p, p + n); }
    void  put(const Bytes& x) { put(x.data(), x.size()); }
    void  num(u64 v) { put((const u8*)&v, 8); }
};
struct Task
{
    R   r;
    Log log;
    explicit Task(u64 seed) : r{seed} {}
    virtual ~Task() = default;
    virtual void step() = 0;
    // replace the object by a copy of itself and disturb the original (or the other way round)
    virtual void copy(bool) {}
    virtual unsigned steps() const = 0;
};
struct SeedRng : rng::Rng
{
    u64         st;
    explicit SeedRng(u64 s) : st(s) {}
    const char* name() const override { return "seeded"; }
    void        gen(void* o, std::size_t n) override
    {
        for (std::size_t i = 0; i < n; i++)
            ((u8*)o)[i] = (u8)splitmix(st);
    }
};
template <class T, class D>
void copied(std::unique_ptr<T>& x, bool keep_original, D disturb)
{
    auto y = std::make_unique<T>(*x);
    if (!keep_original)
        std::swap(x, y);
    disturb(*y);
}
template <class M, bool Iv, std::size_t KL>
struct ModeTask : Task
{
    std::unique_ptr<M> m;
    Bytes              key, iv;
    explicit ModeTask(u64 seed) : Task(seed), m(new M()), key(r.bytes(KL)), iv(r.bytes(16)) { init(*m); }
    void init(M& x)
    {
        if constexpr (Iv)
            x.init(key.data(), iv.data());
        else
            x.init(key.data());
    }
    unsigned steps() const override { return 12; }
    static void upd(M& m, const Bytes& in, Log* log)
    {
        Bytes       out(in.size() + 2048);
        std::size_t l = 0;
        m.update(out.data(), &l, in.data(), in.size());
        if (log)
            log->num(l), log->put(out.data(), l);
    }
    void step() override
    {
        switch (r.below(5))
        {
        case 0:
        {
            Bytes       in = r.bytes(r.below(100)), out(in.size() + 2048);
            std::size_t l = 0;
            try
            {
                m->do_final(out.data(), &l, in.data(), in.size());
                log.num(l), log.put(out.data(), l);
            }
            catch (const std::exception&)
            {
                log.num(77);
            }
            if constexpr (Iv)
                iv = r.bytes(16), m->reset(iv.data());
            else
                m->reset();
            break;
        }
        case 1:
            if (r.below(3) == 0)
            {
                key = r.bytes(KL), iv = r.bytes(16);
                init(*m);
            }
            [[fallthrough]];
        default: upd(*m, r.bytes(r.below(4) ? r.below(60) : r.below(400)), &log);
        }
    }
    void copy(bool keep) override
    {
        copied(m, keep, [&](M& o) { upd(o, Bytes(75, 0x99), nullptr); });
    }
};
template <class C, bool Enc, std::size_t KL>
struct GcmTask : Task
{
    using M = std::conditional_t<Enc, block_cipher_mode::GcmEncryptor<C>, block_cipher_mode::GcmDecryptor<C>>;
    std::unique_ptr<M> m;
    explicit GcmTask(u64 seed) : Task(seed), m(new M()) { init(); }
    void init()
    {
        Bytes key = r.bytes(KL), iv = r.bytes(r.below(2) ? 12 : 1 + r.below(40)), aad = r.bytes(r.below(70));
        m->init(key.data(), iv.data(), iv.size(), aad.data(), aad.size());
    }
    unsigned steps() const override { return 10; }
    static void upd(M& m, const Bytes& in, Log* log)
    {
        Bytes       out(in.size() + 2048);
        std::size_t l = 0;
        m.update(out.data(), &l, in.data(), in.size());
        if (log)
            log->num(l), log->put(out.data(), l);
    }
    void step() override
    {
        if (r.below(4) == 0)
        {
            Bytes       in = r.bytes(r.below(100)), out(in.size() + 2048), t = r.bytes(16);
            std::size_t l = 0;
            if constexpr (!Enc)
                m->set_tag(t.data());
            try
            {
                m->do_final(out.data(), &l, in.data(), in.size());
                log.num(l), log.put(out.data(), l);
                if constexpr (Enc)
                    m->get_tag(t.data()), log.put(t);
            }
            catch (const std::exception&)
            {
                log.num(78);
            }
            init();
        }
        else
            upd(*m, r.bytes(r.below(4) ? r.below(60) : r.below(400)), &log);
    }
    void copy(bool keep) override
    {
        copied(m, keep, [&](M& o) { upd(o, Bytes(75, 0x99), nullptr); });
    }
};
template <class T, std::size_t DS, bool Keyed>
struct HashTask : Task
{
    std::unique_ptr<T> m;
    std::size_t        fed = 0;
    explicit HashTask(u64 seed) : Task(seed), m(new T()) { key(); }
    // GHASH is defined for whole blocks only: the last piece completes one
    static std::size_t last(std::size_t fed, std::size_t n) { return DS == 16 ? n + (16 - (fed + n) % 16) % 16 : n; }
    void key()
    {
        fed = 0;
        if constexpr (Keyed)
        {
            if constexpr (DS == 16)
                m->set_key(r.bytes(16).data());
            else
            {
                Bytes k = r.bytes(r.below(100));
                m->set_key(k.data(), k.size());
            }
        }
    }
    unsigned steps() const override { return 12; }
    void step() override
    {
        if (r.below(4) == 0)
        {
            Bytes d(DS), in = r.bytes(last(fed, r.below(100)));
            m->do_final(d.data(), in.data(), in.size());
            log.put(d);
            if constexpr (Keyed)
                key();
            else
                m->reset();
        }
        else
        {
            Bytes in = r.bytes(r.below(4) ? r.below(60) : r.below(600));
            fed += in.size();
            m->update(in.data(), in.size());
        }
    }
    void copy(bool keep) override
    {
        copied(m, keep, [&](T& o) {
            Bytes d(DS), in(100, 0x31);
            o.update(in.data(), in.size());
            in.resize(last(fed + 100, 0));
            o.do_final(d.data(), in.data(), in.size());
        });
    }
};
template <class C>
struct CipherTask : Task
{
    std::unique_ptr<C> m;
    bool               enc = true;
    explicit CipherTask(u64 seed) : Task(seed), m(new C()) { key(); }
    void key()
    {
        enc = r.below(2);
        m->set_key(r.bytes(C::USER_KEY_LEN).data(), enc ? C::ENCRYPTION : C::DECRYPTION);
    }
    unsigned steps() const override { return 8; }
    void     step() override
    {
        if (r.below(4) == 0)
            key();
        Bytes in = r.bytes(16 * r.below(40)), out(in.size());
        enc ? m->encrypt_blocks(out.data(), in.data(), in.size() / 16) : m->decrypt_blocks(out.data(), in.data(), in.size() / 16);
        log.put(out);
    }
    void copy(bool keep) override
    {
        copied(m, keep, [&](C& o) { o.set_key(Bytes(C::USER_KEY_LEN, 0x44).data(), enc ? C::DECRYPTION : C::ENCRYPTION); });
    }
};
void sm2_use(const sm2::SM2PrivateKey<H>& k, R& r, Log& log, u64 what, Bytes& sig, Bytes& ct, Bytes& msg)
{
    SeedRng     g(r.below(1u << 30));
    std::size_t l = 0;
    switch (what % 4)
    {
    case 0:
        msg = r.bytes(1 + r.below(80)), sig.assign(64, 0);
        k.sign(sig.data(), msg.data(), msg.size(), g);
        log.put(sig);
        break;
    case 1:
        if (sig.size() == 64)
            log.num(k.fetch_pub().verify(sig.data(), msg.data(), msg.size())), sig[r.below(64)] ^= 1;
        break;
    case 2:
    {
        Bytes m = r.bytes(1 + r.below(100));
        ct.assign(200 + m.size(), 0);
        k.fetch_pub().encrypt(ct.data(), &l, m.data(), m.size(), g, (sm2::SM2EcPC)r.below(3));
        ct.resize(l);
        log.put(ct);
        break;
    }
    default:
        if (!ct.empty())
        {
            Bytes p(ct.size());
            try
            {
                k.decrypt(p.data(), &l, ct.data(), ct.size());
                log.num(l), log.put(p.data(), l);
            }
            catch (const std::exception&)
            {
                log.num(79);
            }
            ct[r.below(ct.size())] ^= 1;
        }
    }
}
struct Sm2Task : Task
{
    std::unique_ptr<sm2::SM2PrivateKey<H>> k;
    Bytes                                  sig, ct, msg;
    explicit Sm2Task(u64 seed) : Task(seed), k(new sm2::SM2PrivateKey<H>()) { key(); }
    void key()
    {
        SeedRng g(r.below(1u << 30));
        k->gen_priv(g);
    }
    unsigned steps() const override { return 6; }
    void     step() override
    {
        if (r.below(6) == 0)
            key();
        sm2_use(*k, r, log, r.below(4), sig, ct, msg);
    }
    void copy(bool keep) override
    {
        copied(k, keep, [&](sm2::SM2PrivateKey<H>& o) { o.set_priv(Bytes(32, 0x17).data()); });
    }
};
struct Sm9Task : Task
{
    std::unique_ptr<sm9::SM9SignMasterPrivateKey<H>> k;
    sm9::SM9SignPrivateKey<H>                        u;
    Bytes                                            id, sig, msg;
    explicit Sm9Task(u64 seed) : Task(seed), k(new sm9::SM9SignMasterPrivateKey<H>())
    {
        SeedRng g(r.below(1u << 30));
        k->gen_priv(g);
        user();
    }
    void user()
    {
        SeedRng g(1);
        id = r.bytes(1 + r.below(20));
        u  = k->gen_SignPrivateKey(id.data(), id.size(), g);
    }
    unsigned steps() const override { return 2; }
    void     step() override
    {
        SeedRng     g(r.below(1u << 30));
        std::size_t l = 0;
        msg = r.bytes(r.below(80)), sig.assign(97, 0);
        u.sign(sig.data(), &l, msg.data(), msg.size(), g, (sm9::SM9EcPC)r.below(3));
        log.put(sig);
        if (r.below(3) == 0)
            sig[r.below(l)] ^= 1;
        log.num(k->fetch_SignPublicKey().verify(sig.data(), l, msg.data(), msg.size(), id.data(), id.size()));
    }
    void copy(bool keep) override
    {
        copied(k, keep, [&](sm9::SM9SignMasterPrivateKey<H>& o) { o.set_priv(Bytes(32, 0x17).data()); });
    }
};
struct MiscTask : Task
{
    using Task::Task;
    unsigned steps() const override { return 6; }
    void     step() override
    {
        switch (r.below(5))
        {
        case 0:
        {
            sm2::internal::sm2_fp_t a, b;
            Bytes                   o(32), x = r.bytes(32), y = r.bytes(32);
            x[0] = y[0] = 0;
            sm2::internal::sm2_fp_from_bytes(a, x.data());
            sm2::internal::sm2_fp_from_bytes(b, y.data());
            sm2::internal::sm2_fp_mul(a, a, b);
            sm2::internal::sm2_fp_inv(a, a);
            sm2::internal::sm2_fp_to_bytes(o.data(), a);
            log.put(o);
            break;
        }
        case 1:
        {
            sm2::internal::sm2_ec_j p;
            sm2::internal::sm2_ec_a a;
            Bytes                   o(65), k = r.bytes(32);
            std::size_t             l = 0;
            sm2::internal::sm2_ec_j_mul_g(p, k.data());
            sm2::internal::sm2_ec_j_to_a(a, p);
            sm2::internal::sm2_fp_to_bytes(o.data(), a[0]);
            sm2::internal::sm2_fp_to_bytes(o.data() + 32, a[1]);
            log.put(o);
            (void)l;
            break;
        }
        case 2:
        {
            sm9::internal::sm9_ec_j  p;
            sm9::internal::sm9_ec2_j q;
            sm9::internal::sm9_ec_a  pa;
            sm9::internal::sm9_ec2_a qa;
            Bytes                    o(32), k = r.bytes(32);
            sm9::internal::sm9_ec_j_mul_g(p, k.data());
            sm9::internal::sm9_ec_j_to_a(pa, p);
            sm9::internal::sm9_ec2_j_mul_g(q, k.data());
            sm9::internal::sm9_ec2_j_to_a(qa, q);
            sm9::internal::sm9_fp_to_bytes(o.data(), pa[0]);
            log.put(o);
            sm9::internal::sm9_fp_to_bytes(o.data(), qa[1][1]);
            log.put(o);
            break;
        }
        case 3:
        {
            sm2::internal::ASN1_SM2Signature sg;
            Bytes                            a = r.bytes(32), b = r.bytes(32), o(100);
            std::size_t                      l = 0, rd = 0;
            a[0] = (u8)r.below(3);
            sg.R = a.data(), sg.S = b.data();
            sm2::internal::sm2_signature_asn1_encode(o.data(), &l, &sg);
            log.put(o.data(), l);
            sm2::internal::ASN1_SM2Signature d;
            log.num((u64)sm2::internal::sm2_signature_asn1_decode(&d, &rd, o.data(), l));
            log.put(d.R, 32), log.put(d.S, 32);
            break;
        }
        default:
        {
            Bytes a = r.bytes(r.below(900)), b = r.bytes(a.size()), o(a.size());
            memory_utils::memxor_n(o.data(), a.data(), b.data(), a.size());
            log.put(o);
            rng::StdRng s;
            rng::CstdRng cs;
            Bytes       g(9);
            s.gen(g.data(), 9), cs.gen(g.data(), 9); // results are not logged
        }
        }
    }
};
template <class C, std::size_t KL>
std::unique_ptr<Task> mode_task(u64 sub, u64 seed)
{
    using namespace block_cipher_mode;
    switch (sub % 12)
    {
    case 0: return std::make_unique<ModeTask<EcbEncryptor<C>, false, KL>>(seed);
    case 1: return std::make_unique<ModeTask<EcbDecryptor<C>, false, KL>>(seed);
    case 2: return std::make_unique<ModeTask<CbcEncryptor<C>, true, KL>>(seed);
    case 3: return std::make_unique<ModeTask<CbcDecryptor<C>, true, KL>>(seed);
    case 4: return std::make_unique<ModeTask<CfbEncryptor<C>, true, KL>>(seed);
    case 5: return std::make_unique<ModeTask<CfbDecryptor<C>, true, KL>>(seed);
    case 6: return std::make_unique<ModeTask<OfbEncryptor<C>, true, KL>>(seed);
    case 7: return std::make_unique<ModeTask<CtrEncryptor<C>, true, KL>>(seed);
    case 8: return std::make_unique<ModeTask<CtrDecryptor<C>, true, KL>>(seed);
    case 9: return std::make_unique<GcmTask<C, true, KL>>(seed);
    case 10: return std::make_unique<GcmTask<C, false, KL>>(seed);
    default: return std::make_unique<CipherTask<C>>(seed);
    }
}
constexpr unsigned KINDS = 54;
const char*        kind_name(unsigned k)
{
    return k < 12 ? "SM4 mode" : k < 24 ? "AES-128 mode" : k < 36 ? "AES-192 mode" : k < 48 ? "AES-256 mode" : k == 48 ? "SM3" : k == 49 ? "HMAC" : k == 50 ? "GHASH" : k == 51 ? "SM2 key" : k == 52 ? "SM9 key" : "helpers";
}
std::unique_ptr<Task> make(unsigned kind, u64 seed)
{
    switch (kind)
    {
    case 48: return std::make_unique<HashTask<H, 32, false>>(seed);
    case 49: return std::make_unique<HashTask<hash_lib::HMac<H>, 32, true>>(seed);
    case 50: return std::make_unique<HashTask<ghash::GHash, 16, true>>(seed);
    case 51: return std::make_unique<Sm2Task>(seed);
    case 52: return std::make_unique<Sm9Task>(seed);
    case 53: return std::make_unique<MiscTask>(seed);
    default:
        switch (kind / 12)
        {
        case 0: return mode_task<sm4::SM4, 16>(kind, seed);
        case 1: return mode_task<aes::AES128, 16>(kind, seed);
        case 2: return mode_task<aes::AES192, 24>(kind, seed);
        default: return mode_task<aes::AES256, 32>(kind, seed);
        }
    }
}
Bytes alone(unsigned kind, u64 seed)
{
    auto t = make(kind, seed);
    for (unsigned i = 0; i < t->steps(); i++)
        t->step();
    return t->log.b;
}
struct Spec
{
    unsigned kind;
    u64      seed;
};
unsigned gen_kind(Source& s)
{
    switch (s.below(8))
    {
    case 0: return 48 + (unsigned)s.below(3);
    case 1: return 53;
    case 2: return s.coin(1, 4) ? 52 : 51;
    case 3: return 9 + 12 * (unsigned)s.below(4) + (unsigned)s.below(2);
    default: return (unsigned)s.below(48);
    }
}
// objects shared read-only by threads
struct Shared
{
    sm2::SM2PrivateKey<H>           k2;
    sm9::SM9SignMasterPrivateKey<H> k9;
    sm9::SM9SignPrivateKey<H>       u9;
    sm4::SM4                        s4;
    aes::AES128                     a1;
    aes::AES256                     a2;
    explicit Shared(u64 seed)
    {
        SeedRng g(seed);
        k2.gen_priv(g);
        k9.gen_priv(g);
        u9 = k9.gen_SignPrivateKey((const u8*)"id", 2, g);
        R r{seed};
        s4.set_key(r.bytes(16).data(), sm4::SM4::ENCRYPTION);
        a1.set_key(r.bytes(16).data(), aes::AES128::ENCRYPTION);
        a2.set_key(r.bytes(32).data(), aes::AES256::DECRYPTION);
    }
    Bytes use(unsigned kind, u64 seed) const
    {
        R     r{seed};
        Log   log;
        Bytes sig, ct, msg;
        switch (kind % 4)
        {
        case 0:
            for (u64 i = 0; i < 4; i++)
                sm2_use(k2, r, log, i, sig, ct, msg);
            break;
        case 1:
        {
            SeedRng     g(seed);
            Bytes       b(97);
            std::size_t l = 0;
            msg = r.bytes(20);
            u9.sign(b.data(), &l, msg.data(), msg.size(), g);
            log.put(b);
            log.num(k9.fetch_SignPublicKey().verify(b.data(), l, msg.data(), msg.size(), (const u8*)"id", 2));
            SeedRng g2(2);
            auto    u = k9.gen_SignPrivateKey((const u8*)"x", 1, g2);
            Bytes   px(32), py(32), qx(64), qy(64);
            u.get_priv(px.data(), py.data(), qx.data(), qy.data());
            log.put(px);
            break;
        }
        default:
            for (int i = 0; i < 6; i++)
            {
                Bytes in = r.bytes(16 * r.below(40)), out(in.size());
                switch (r.below(3))
                {
                case 0: s4.encrypt_blocks(out.data(), in.data(), in.size() / 16); break;
                case 1: a1.encrypt_blocks(out.data(), in.data(), in.size() / 16); break;
                default: a2.decrypt_blocks(out.data(), in.data(), in.size() / 16);
                }
                log.put(out);
            }
        }
        return log.b;
    }
};
// threads x tasks; returns a description of the first log that differs from
// the one the task writes alone
std::string threads(const std::vector<std::vector<Spec>>& prog, bool shared, u64 sh_seed)
{
    std::vector<std::vector<Bytes>> got(prog.size());
    std::unique_ptr<Shared>         sh;
    if (shared)
        sh = std::make_unique<Shared>(sh_seed);
    std::atomic<unsigned>    ready{0};
    std::vector<std::thread> ts;
    for (std::size_t t = 0; t < prog.size(); t++)
        ts.emplace_back([&, t] {
            got[t].resize(prog[t].size());
            ready++;
            while (ready < prog.size())
                std::this_thread::yield();
            for (std::size_t i = 0; i < prog[t].size(); i++)
                got[t][i] = shared ? sh->use(prog[t][i].kind, prog[t][i].seed) : alone(prog[t][i].kind, prog[t][i].seed);
        });
    for (auto& t : ts)
        t.join();
    std::unique_ptr<Shared> fresh;
    if (shared)
        fresh = std::make_unique<Shared>(sh_seed);
    for (std::size_t t = 0; t < prog.size(); t++)
        for (std::size_t i = 0; i < prog[t].size(); i++)
        {
            Bytes want = shared ? fresh->use(prog[t][i].kind, prog[t][i].seed) : alone(prog[t][i].kind, prog[t][i].seed);
            if (want != got[t][i])
                return strf("thread %zu, task %zu (%s, seed %llx): log differs from the one written alone (%s)", t, i, kind_name(prog[t][i].kind), (unsigned long long)prog[t][i].seed,
                            diff_at(got[t][i], want).c_str());
        }
    return "";
}
std::vector<std::vector<Spec>> gen_prog(Source& s, Ctx& c, std::size_t max_tasks)
{
    std::vector<std::vector<Spec>> p(2 + s.below(3));
    bool                           same = s.coin(1, 3); // all threads on one kind
    unsigned                       k0   = gen_kind(s);
    for (auto& t : p)
    {
        std::size_t n = 1 + s.below(max_tasks);
        for (std::size_t i = 0; i < n; i++)
        {
            t.push_back({same ? k0 : gen_kind(s), s.draw(0xffffffff)});
            NOTE("thread %d: %s (kind %u, seed %llx)", (int)(&t - &p[0]), kind_name(t.back().kind), t.back().kind, (unsigned long long)t.back().seed);
            c.label(kind_name(t.back().kind));
        }
    }
    return p;
}
} // namespace
PROP(interleavings, 1100, 80000)
{
    std::size_t                        n = 2 + s.below(4);
    std::vector<std::unique_ptr<Task>> ts;
    std::vector<Spec>                  sp;
    std::vector<Bytes>                 before;
    bool                               same = s.coin(1, 3), copies = s.coin();
    unsigned                           k0 = gen_kind(s);
    for (std::size_t i = 0; i < n; i++)
    {
        sp.push_back({same ? k0 : gen_kind(s), s.draw(0xffffffff)});
        NOTE("object %zu: %s (kind %u, seed %llx)", i, kind_name(sp[i].kind), sp[i].kind, (unsigned long long)sp[i].seed);
        c.label(kind_name(sp[i].kind));
        if (s.coin())
            before.push_back(alone(sp[i].kind, sp[i].seed));
        else
            before.push_back(Bytes());
    }
    std::vector<unsigned> left(n);
    std::size_t           total = 0;
    for (std::size_t i = 0; i < n; i++)
    {
        ts.push_back(make(sp[i].kind, sp[i].seed));
        total += left[i] = ts[i]->steps();
    }
    std::string order;
    while (total)
    {
        std::size_t i = s.below(n);
        while (!left[i])
            i = (i + 1) % n;
        if (copies && s.coin(1, 5))
        {
            ts[i]->copy(s.coin());
            order += "c";
        }
        ts[i]->step();
        order += strf("%zu ", i);
        left[i]--, total--;
    }
    NOTE("order %s", order.c_str());
    for (std::size_t i = 0; i < n; i++)
    {
        Bytes want = alone(sp[i].kind, sp[i].seed);
        CHECK_EQ_BYTES(ts[i]->log.b, want, "interference", strf("object %zu (%s)", i, kind_name(sp[i].kind)));
        if (!before[i].empty())
            CHECK_EQ_BYTES(before[i], want, "hidden-state", strf("%s run alone before and after", kind_name(sp[i].kind)));
    }
    c.nontrivial();
}
PROP(own_objects_on_threads, 160, 15000)
{
    auto        p = gen_prog(s, c, 3);
    std::string e = threads(p, false, 0);
    CHECK(e.empty(), "interference", "%s", e.c_str());
    c.nontrivial();
}
PROP(shared_read_only, 70, 6000)
{
    auto        p  = gen_prog(s, c, 3);
    u64         sd = s.draw(0xffffffff);
    std::string e  = threads(p, true, sd);
    CHECK(e.empty(), "interference", "%s", e.c_str());
    c.nontrivial();
}
// the same in a process where nothing of the library has run yet
namespace {
struct Cold
{
    Cold()
    {
        const char* e = std::getenv("C30_COLD");
        if (!e)
            return;
        std::vector<std::vector<Spec>> p(1);
        char*                          q = (char*)e;
        bool                           shared = *q++ == 's';
        while (*q)
        {
            if (*q == ';')
                p.emplace_back(), q++;
            unsigned k = (unsigned)std::strtoul(q, &q, 10);
            u64      v = std::strtoull(q + 1, &q, 10);
            p.back().push_back({k, v});
            if (*q == ',')
                q++;
        }
        std::string r = threads(p, shared, 7);
        if (!r.empty())
        {
            std::fprintf(stderr, "MISMATCH %s\n", r.c_str());
            _exit(3);
        }
        _exit(0);
    }
} const cold_;
} // namespace
namespace {
std::string spec_text(const std::vector<Spec>& t)
{
    std::string e;
    for (std::size_t i = 0; i < t.size(); i++)
        e += strf("%s%u:%llu", i ? "," : "", t[i].kind, (unsigned long long)t[i].seed);
    return e;
}
// runs this program again with one environment variable set; its output and status
int again(Ctx& c, const char* var, const std::string& e, std::string& out)
{
    int pf[2];
    if (pipe(pf))
        c.discard();
    pid_t pid = fork();
    if (pid == 0)
    {
        dup2(pf[1], 2), dup2(pf[1], 1);
        close(pf[0]), close(pf[1]);
        setenv(var, e.c_str(), 1);
        alarm(50);
        execl("/proc/self/exe", "cold", (char*)nullptr);
        _exit(99);
    }
    close(pf[1]);
    char        b[4096];
    ssize_t     n;
    while ((n = read(pf[0], b, sizeof b)) > 0)
        if (out.size() < 60000)
            out.append(b, (std::size_t)n);
    close(pf[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
        ;
    if ((WIFEXITED(st) && WEXITSTATUS(st) == 99) || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGALRM)))
        c.discard();
    return st;
}
// the machines run alone, one after another, before the library's own objects with
// static storage (if it has any that need it) are initialised
struct Early
{
    Early()
    {
        const char* e = std::getenv("C30_INIT");
        if (!e)
            return;
        char* q = (char*)e;
        while (*q)
        {
            unsigned    k = (unsigned)std::strtoul(q, &q, 10);
            u64         v = std::strtoull(q + 1, &q, 10);
            std::string r = hex(H2(alone(k, v))) + "\n";
            if (write(1, r.data(), r.size()) != (ssize_t)r.size())
                _exit(4);
            if (*q == ',')
                q++;
        }
        _exit(0);
    }
    static Bytes H2(const Bytes& x) // a digest of a log, with nothing of the library in it
    {
        u64 a = x.size(), b = 0x9e3779b97f4a7c15;
        for (u8 v : x)
            a = (a ^ v) * 0x100000001b3, b = (b + v) * 0xff51afd7ed558ccd, b ^= b >> 29;
        Bytes o(16);
        std::memcpy(o.data(), &a, 8), std::memcpy(o.data() + 8, &b, 8);
        return o;
    }
};
__attribute__((init_priority(65000))) Early early_;
} // namespace
PROP(cold_start, 80, 6000)
{
    auto        p = gen_prog(s, c, 2);
    bool        shared = s.coin(1, 5);
    std::string e = shared ? "s" : "o", out;
    for (std::size_t t = 0; t < p.size(); t++)
        e += (t ? ";" : "") + spec_text(p[t]);
    int st = again(c, "C30_COLD", e, out);
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, out.find("data race") != std::string::npos ? "data-race" : out.find("MISMATCH") != std::string::npos ? "interference" : "crash",
          "first use from several threads: status %d\n%s", st, out.substr(0, 2500).c_str());
    c.nontrivial();
}
PROP(before_main, 60, 4000)
{
    std::vector<Spec> t;
    std::size_t       n = 1 + s.below(3);
    for (std::size_t i = 0; i < n; i++)
    {
        t.push_back({gen_kind(s), s.draw(0xffffffff)});
        NOTE("%s (kind %u, seed %llx)", kind_name(t[i].kind), t[i].kind, (unsigned long long)t[i].seed);
        c.label(kind_name(t[i].kind));
    }
    std::string out, want;
    int         st = again(c, "C30_INIT", spec_text(t), out);
    for (auto& x : t)
        want += hex(Early::H2(alone(x.kind, x.seed))) + "\n";
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "crash", "used in a static initialiser: status %d\n%s", st, out.substr(0, 2500).c_str());
    CHECK(out == want, "hidden-state", "used in a static initialiser: other results than later\n%s against\n%s", out.substr(0, 1000).c_str(), want.c_str());
    c.nontrivial();
}
