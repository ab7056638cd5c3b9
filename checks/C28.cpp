// Every operation is carried out by every build configuration, loaded as
// separate shared objects, on the same inputs; the transcripts must be equal.
// What one configuration produced is then fed to all of them.
#include "asn1h.h"
#include "modes.h"
#include "sm9h.h"
#include <dlfcn.h>
using namespace pbt;
using sm2h::operator+;
namespace R2 = ref::sm2;
namespace R9 = ref::sm9;
using ref::Z;
namespace {
using RunFn = void (*)(unsigned, const u8*, std::size_t, const u8**, std::size_t*);
struct Plugin
{
    std::string name;
    RunFn       fn;
};
const std::vector<Plugin>& plugins()
{
    static std::vector<Plugin> v;
    if (v.empty())
    {
        const char* e = std::getenv("PBT_PLUGINS");
        std::string t = e ? e : "";
        while (!t.empty())
        {
            std::size_t k = t.find(';'), q = t.find('=');
            std::string path = t.substr(q + 1, (k == std::string::npos ? t.size() : k) - q - 1);
            void*       h    = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
            auto        f    = h ? (RunFn)dlsym(h, "gmlib_run") : nullptr;
            if (!f)
            {
                std::fprintf(stderr, "cannot load %s: %s\n", path.c_str(), dlerror());
                std::abort();
            }
            v.push_back({t.substr(0, q), f});
            t = k == std::string::npos ? "" : t.substr(k + 1);
        }
        if (v.size() < 2)
        {
            std::fprintf(stderr, "no configurations to compare\n");
            std::abort();
        }
    }
    return v;
}
struct Req
{
    Bytes b;
    Req&  put(const Bytes& x)
    {
        for (int i = 3; i >= 0; i--)
            b.push_back((u8)(x.size() >> (8 * i)));
        b.insert(b.end(), x.begin(), x.end());
        return *this;
    }
    Req& num(u64 v)
    {
        Bytes x(8);
        for (int i = 0; i < 8; i++)
            x[7 - i] = (u8)(v >> (8 * i));
        return put(x);
    }
};
struct Reply
{
    Bytes       b;
    std::size_t at = 0;
    u64         num()
    {
        u64 v = 0;
        for (int i = 0; i < 8; i++)
            v = v << 8 | (at < b.size() ? b[at] : 0), at++;
        return v;
    }
    Bytes get()
    {
        std::size_t n = (std::size_t)num();
        Bytes       r;
        for (std::size_t i = 0; i < n && at < b.size(); i++)
            r.push_back(b[at++]);
        return r;
    }
};
const char* OPS[] = {"block cipher", "mode", "GCM", "hash", "numbers", "memory", "SM2", "SM9", "ASN.1", "long numbers", "ASN.1 encoding", "printing"};
Reply all(Ctx& c, unsigned op, const Req& r)
{
    Exact in(r.b);
    Reply first;
    for (std::size_t i = 0; i < plugins().size(); i++)
    {
        const u8*   p = nullptr;
        std::size_t n = 0;
        plugins()[i].fn(op, in.data(), in.size(), &p, &n);
        Bytes t(p, p + n);
        if (i == 0)
            first.b = t;
        else if (t != first.b)
            c.fail("differs", strf("%s: configuration %s and %s differ: %s / %s (%s)", OPS[op], plugins()[0].name.c_str(), plugins()[i].name.c_str(), hex(first.b, 160).c_str(),
                                   hex(t, 160).c_str(), diff_at(first.b, t).c_str()));
    }
    return first;
}
std::size_t pieces(Source& s, Req& r, const Bytes& d, std::size_t unit)
{
    auto ps = modes::cut(s, d.size(), unit, 6);
    r.num(ps.size());
    std::size_t at = 0;
    for (auto k : ps)
    {
        r.put(Bytes(d.begin() + (long)at, d.begin() + (long)(at + k)));
        at += k;
    }
    return ps.size();
}
// what a stream left in the transcript; whether it was rejected
bool streamed(Reply& t, Bytes* out)
{
    bool ok = t.num() == 0;
    if (!ok)
        t.get();
    *out = t.get();
    return ok;
}
const std::size_t KL[] = {16, 16, 24, 32};
} // namespace
PROP(block_ciphers, 25000, 300000)
{
    u64         id = s.below(4);
    std::size_t k  = 1 + s.below(4);
    Req         r;
    r.num(id);
    for (std::size_t i = 0; i < k; i++)
    {
        bool  keyed = i == 0 || s.coin(1, 3);
        Bytes key = keyed ? s.bytes(KL[id]) : Bytes(), data = s.bytes(16 * (s.coin(1, 6) ? s.below(140) : s.below(20)));
        u64   enc = s.below(2), ai = s.coin() ? 0 : s.below(33), ao = s.coin() ? 0 : s.below(33), inplace = s.coin(1, 3), single = s.coin(1, 4);
        NOTE("cipher %d %s key=%s data=%s%s%s align %d/%d", (int)id, enc ? "enc" : "dec", hex(key).c_str(), hex(data).c_str(), inplace ? " in place" : "", single ? " singly" : "", (int)ai, (int)ao);
        r.put(key).put(data);
        if (keyed)
            r.num(enc);
        r.num(ai).num(ao).num(inplace).num(single);
        c.nontrivial(data.size() > 16);
    }
    all(c, 0, r);
}
PROP(modes_, 25000, 300000)
{
    u64   id = s.below(4);
    auto  m = (ref::Mode)s.below(5);
    bool  enc = s.coin();
    Bytes key = s.rnd(KL[id]);
    Req   r;
    r.num(id).num(m).num(enc).put(key);
    std::size_t n = 1 + s.below(3);
    for (std::size_t i = 0; i < n; i++)
    {
        std::size_t l = s.len(s.coin(1, 8) ? 1200 : 200, 16);
        if (m <= ref::CBC && !s.coin(1, 5))
            l -= l % 16;
        Bytes iv = m == ref::CTR ? modes::counter_iv(s, 16) : s.rnd(16), d = s.rnd(l), nk = i && s.coin(1, 4) ? s.rnd(KL[id]) : Bytes();
        u64   inplace = s.coin(1, 3), off = s.coin() ? 0 : s.below(33);
        NOTE("cipher %d %s %s key=%s%s iv=%s data=%s%s offset %d", (int)id, modes::mode_name(m), enc ? "enc" : "dec", hex(key).c_str(), hex(nk).c_str(), hex(iv).c_str(), hex(d).c_str(),
             inplace ? " in place" : "", (int)off);
        r.put(iv).put(nk).num(inplace).num(off);
        pieces(s, r, d, 16);
        c.nontrivial(l > 16);
    }
    all(c, 1, r);
}
PROP(gcm, 25000, 300000)
{
    u64 id = s.below(4);
    Req e, q;
    e.num(id).num(1), q.num(id).num(0);
    struct Msg
    {
        Bytes       key, iv, aad, d, ct, tag;
        bool        ok;
    };
    std::vector<Msg> ms(1 + (s.coin(1, 3) ? s.below(3) : 0));
    for (auto& m : ms)
    {
        m.key = s.rnd(KL[id]), m.aad = s.rnd(s.len(100, 16)), m.d = s.rnd(s.len(s.coin(1, 8) ? 1200 : 200, 16));
        m.iv = modes::gcm_iv(s, modes::gcm_suites()[id].refc(m.key));
        u64 inplace = s.coin(1, 3), off = s.coin() ? 0 : s.below(33);
        e.put(m.key).put(m.iv).put(m.aad).put(Bytes(16, 0)).num(inplace).num(off);
        pieces(s, e, m.d, 16);
        NOTE("cipher %d key=%s iv=%s aad=%s data=%s%s offset %d", (int)id, hex(m.key).c_str(), hex(m.iv).c_str(), hex(m.aad).c_str(), hex(m.d).c_str(), inplace ? " in place" : "", (int)off);
        c.nontrivial(m.d.size() > 16);
    }
    Reply t = all(c, 2, e);
    for (auto& m : ms)
    {
        CHECK(streamed(t, &m.ct) && m.ct.size() == m.d.size(), "gcm-encrypt", "GCM encryption of %zu bytes gave %zu", m.d.size(), m.ct.size());
        m.tag = t.get();
        if (!(m.ok = s.coin(3, 4)))
            m.tag[s.below(16)] ^= (u8)(1 << s.below(8));
        u64 inplace = s.coin(1, 3), off = s.coin() ? 0 : s.below(33);
        q.put(m.key).put(m.iv).put(m.aad).put(m.tag).num(inplace).num(off);
        pieces(s, q, m.ct, 16);
    }
    Reply u = all(c, 2, q);
    for (auto& m : ms)
    {
        Bytes p;
        bool  ok = streamed(u, &p);
        u.get();
        CHECK(ok == m.ok, "interoperation", "decryption %s a%s ciphertext", ok ? "accepts" : "rejects", m.ok ? " valid" : "n altered");
        if (ok)
            CHECK_EQ_BYTES(p, m.d, "interoperation", "plaintext");
    }
}
PROP(hashes, 25000, 300000)
{
    u64 kind = s.below(3);
    Req r;
    r.num(kind);
    if (kind == 1)
        r.put(s.rnd(s.len(200, 64)));
    if (kind == 2)
        r.put(s.bytes(16));
    std::size_t n = 1 + s.below(3);
    for (std::size_t i = 0; i < n; i++)
    {
        Bytes d = s.bytes(s.len(s.coin(1, 8) ? 3000 : 300, kind == 2 ? 16 : 64));
        u64   how = i ? s.below(3) : 0, off = s.coin() ? 0 : s.below(33), at = s.below(8);
        NOTE("%s (%d, offset %d, copied at %d) of %s", kind == 0 ? "SM3" : kind == 1 ? "HMAC" : "GHASH", (int)how, (int)off, (int)at, hex(d).c_str());
        r.num(how);
        if (how == 2)
            r.put(kind == 1 ? s.rnd(s.len(200, 64)) : s.bytes(16));
        auto ps = modes::cut(s, d.size(), kind == 2 ? 16 : 64, 6);
        r.num(ps.size()).num(off).num(at);
        std::size_t p = 0;
        for (auto k : ps)
            r.put(Bytes(d.begin() + (long)p, d.begin() + (long)(p + k))), p += k;
        c.nontrivial(d.size() > 16);
    }
    all(c, 3, r);
}
PROP(numbers, 40000, 400000)
{
    Z    M = Z::pow2(256), x = num::gen(s, 32), y = num::gen_rel(s, x, 32), m;
    bool big, prime = false;
    switch (s.below(6))
    {
    case 0: m = R2::p(), big = prime = true; break;
    case 1: m = R2::n(), big = prime = true; break;
    case 2: m = R9::p(), big = prime = true; break;
    case 3: m = R9::n(), big = prime = true; break;
    case 4: m = M - 1 - Z::u(s.draw(1000)) * 2, big = true; break;
    default:
    {
        Bytes b = num::gen_bytes(s, 32);
        b[31] |= 1;
        b[0] |= 1;
        m = Z::be(b), big = true;
    }
    }
    Z   a = num::gen_mod(s, m), b = num::gen_mod(s, m);
    Req r;
    r.put(x.bytes(32)).put(y.bytes(32)).num(s.limb()).put(a.bytes(32)).put(b.bytes(32));
    r.put(m.bytes(32)).put((m - 2).bytes(32)).put((M % m).bytes(32)).put((M * M % m).bytes(32));
    NOTE("x=%s y=%s m=%s a=%s b=%s", x.str().c_str(), y.str().c_str(), m.str().c_str(), a.str().c_str(), b.str().c_str());
    if (big)
        r.put(s.bytes(s.below(100)));
    r.num(prime);
    all(c, 4, r);
    c.nontrivial(x > Z(1) && a > Z(1));
}
PROP(long_numbers, 25000, 300000)
{
    unsigned n = 8 * (unsigned)(s.coin(1, 8) ? 1 + s.below(30) : 1 + s.below(9));
    Z        x = num::gen(s, n), y = num::gen_rel(s, x, n);
    u64      alias = s.below(3), carry = s.below(2);
    NOTE("%u bytes x=%s y=%s alias %d carry %d", n, x.str().c_str(), y.str().c_str(), (int)alias, (int)carry);
    all(c, 9, Req().put(x.bytes(n)).put(y.bytes(n)).num(alias).num(carry));
    c.nontrivial(n > 8);
}
PROP(memory, 25000, 300000)
{
    std::size_t n = s.coin(1, 4) ? 700 + s.below(600) : s.len(300, 16), off = s.below(33);
    Bytes       a = s.bytes(n), b = s.bytes(n);
    NOTE("xor of %zu bytes at offset %zu: %s", n, off, hex(a).c_str());
    all(c, 5, Req().put(a).put(b).num(off));
    c.nontrivial(n > 16);
}
PROP(sm2, 700, 12000)
{
    Bytes id = sm2h::gen_id(s), msg = s.bytes(s.len(200, 32)), sc = sm2h::gen_stream(s);
    if (msg.empty())
        msg = Bytes(1, s.byte());
    u64 pc = s.below(3), seed = s.word();
    NOTE("SM2 stream %s seed %llx id[%zu] msg=%s", hex(sc).c_str(), (unsigned long long)seed, id.size(), hex(msg).c_str());
    Reply t = all(c, 6, Req().num(0).put(sc).num(seed).put(id).put(msg).num(pc));
    Bytes d = t.get(), x = t.get(), y = t.get(), sig = t.get();
    u64   v  = t.num();
    Bytes ct = t.get();
    CHECK(d.size() == 32 && v == 1, "sm2-run", "a run failed in every configuration");
    // what one made, all read
    bool good = s.coin(2, 3);
    if (!good)
        switch (s.below(5))
        {
        case 0: sig = s.rnd(64); break;
        case 1: sig[s.below(64)] ^= (u8)(1 << s.below(8)); break;
        case 2: y = (R2::p() - Z::be(y)).bytes(32); break;
        case 3: x[s.below(32)] ^= 1; break;
        default: msg[0] ^= 1;
        }
    Reply u = all(c, 6, Req().num(1).put(x).put(y).put(sig).put(id).put(msg));
    u64   st = u.num();
    CHECK((st == 0 && u.num() == 1) == good, "interoperation", "verification of a%s signature: %s", good ? " valid" : "n altered", st ? "key refused" : good ? "rejected" : "accepted");
    if (good)
    {
        Reply w  = all(c, 6, Req().num(2).put(d).put(ct));
        u64   s1 = w.num(), s2 = w.num();
        CHECK(s1 == 0 && s2 == 0, "interoperation", "a valid ciphertext is rejected");
        CHECK_EQ_BYTES(w.get(), msg, "interoperation", "decrypted plaintext");
    }
    else
    {
        if (s.coin())
            ct[s.below(ct.size())] ^= (u8)(1 << s.below(8));
        else
            ct.resize(s.below(ct.size()));
        all(c, 6, Req().num(2).put(s.coin(1, 8) ? sm2h::gen_scalar(s).bytes(32) : d).put(ct));
    }
    c.nontrivial();
}
PROP(sm2_points, 2500, 40000)
{
    Z    i = sm2h::gen_scalar(s) % R2::n(), j = s.coin(1, 4) ? i : s.coin(1, 4) ? (R2::n() - i) % R2::n() : s.coin(1, 4) ? (i + i) % R2::n() : sm2h::gen_scalar(s) % R2::n(), k = sm2h::gen_scalar(s);
    i = i == Z(0) ? Z(1) : i, j = j == Z(0) ? Z(2) : j;
    auto  p = R2::mulg(i), q = R2::mulg(j);
    Bytes pb = p.x.bytes(32) + p.y.bytes(32), qb = q.x.bytes(32) + q.y.bytes(32), e;
    switch (s.below(6))
    {
    case 0: e = s.bytes(s.below(70)); break;
    case 1: e = Bytes{(u8)(2 + s.below(2))} + num::gen_mod(s, R2::p()).bytes(32); break;
    case 2: e = Bytes{(u8)(6 + s.below(2))} + pb; break;
    case 3: e = Bytes{(u8)(2 + s.below(2))} + Bytes(pb.begin(), pb.begin() + 32); break;
    default: e = Bytes{4} + pb;
    }
    if (s.coin(1, 3) && e.size())
        e[s.below(e.size())] ^= (u8)(1 << s.below(8));
    NOTE("SM2 P=[%s]G Q=[%s]G k=%s decode %s", i.str().c_str(), j.str().c_str(), k.str().c_str(), hex(e).c_str());
    all(c, 6, Req().num(3).put(pb).put(qb).put(k.bytes(32)).put(e));
    c.nontrivial();
}
PROP(sm2_kdf, 8000, 100000)
{
    Bytes z = s.bytes(s.len(130, 64)), x = s.bytes(s.len(s.coin(1, 8) ? 3000 : 200, 32));
    NOTE("kdf of %s over %s", hex(z).c_str(), hex(x).c_str());
    all(c, 6, Req().num(4).put(z).put(x).put(Bytes()));
    c.nontrivial(x.size() > 1);
}
PROP(sm2_imports, 1500, 20000)
{
    Req r;
    r.num(5);
    std::size_t n = 1 + s.below(4);
    for (std::size_t i = 0; i < n; i++)
    {
        Bytes d;
        if (s.coin())
            d = sm2h::gen_scalar(s).bytes(32);
        else
        {
            auto p = R2::mulg(sm2h::gen_priv(s));
            d = p.x.bytes(32) + p.y.bytes(32);
            if (s.coin(1, 3))
                d[s.below(64)] ^= (u8)(1 << s.below(8));
            else if (s.coin(1, 8))
                d = Bytes(64, 0);
        }
        NOTE("import %s", hex(d).c_str());
        r.put(d);
    }
    all(c, 6, r);
    c.nontrivial();
}
PROP(sm9, 250, 4000)
{
    Bytes id = sm9h::gen_id(s), msg = s.bytes(s.len(200, 32)), sc = sm9h::gen_stream(s);
    u64   pc = s.below(3), seed = s.word(), hid = sm9h::gen_hid(s);
    NOTE("SM9 stream %s seed %llx id[%zu] hid=%d msg=%s", hex(sc).c_str(), (unsigned long long)seed, id.size(), (int)hid, hex(msg).c_str());
    Reply t = all(c, 7, Req().num(0).put(sc).num(seed).put(id).put(msg).num(pc).num(hid));
    Bytes d = t.get(), x = t.get(), y = t.get();
    CHECK(t.num() == 0, "sm9-run", "key extraction failed in every configuration");
    for (int i = 0; i < 4; i++)
        t.get();
    Bytes sig = t.get();
    CHECK(d.size() == 32 && t.num() == 1, "sm9-run", "a run failed in every configuration");
    bool good = s.coin(2, 3);
    if (!good)
        switch (s.below(4))
        {
        case 0: sig[s.below(sig.size())] ^= (u8)(1 << s.below(8)); break;
        case 1: sig.resize(s.below(sig.size())); break;
        case 2: x[s.below(64)] ^= 1; break;
        default: msg.push_back(1);
        }
    Reply u  = all(c, 7, Req().num(1).put(x).put(y).put(sig).put(msg).put(id).num(hid));
    u64   st = u.num(), ok = st ? 0 : u.num();
    if (good)
        CHECK(ok == 1, "interoperation", "a valid signature is rejected");
    c.nontrivial();
}
PROP(pairing, 120, 2000)
{
    Z a = sm9h::gen_nz(s), b = sm9h::gen_nz(s);
    NOTE("pairing a=%s b=%s", a.str().c_str(), b.str().c_str());
    all(c, 7, Req().num(2).put(a.bytes(32)).put(b.bytes(32)));
    c.nontrivial();
}
PROP(sm9_points, 700, 12000)
{
    Z     k = sm9h::gen_scalar(s), m = s.coin(1, 4) ? k : s.coin(1, 4) ? R9::n() - k % R9::n() : sm9h::gen_scalar(s);
    Bytes e, e2;
    auto  p = R9::mulg1(sm9h::gen_nz(s));
    auto  q = R9::mulg2(sm9h::gen_nz(s));
    e       = sm9h::enc1(p, (int)s.below(3));
    Bytes x2 = q.x.c1.bytes(32) + q.x.c0.bytes(32), y2 = q.y.c1.bytes(32) + q.y.c0.bytes(32);
    switch (s.below(4))
    {
    case 0: e2 = Bytes{(u8)(2 + s.below(2))} + x2; break;
    case 1: e2 = Bytes{(u8)(6 + s.below(2))} + x2 + y2; break;
    case 2: e2 = Bytes{(u8)(2 + s.below(2))} + num::gen_mod(s, R9::p()).bytes(32) + num::gen_mod(s, R9::p()).bytes(32); break;
    default: e2 = Bytes{4} + x2 + y2;
    }
    if (s.coin(1, 4))
        e = Bytes{(u8)(2 + s.below(2))} + num::gen_mod(s, R9::p()).bytes(32);
    if (s.coin(1, 3))
        e[s.below(e.size())] ^= (u8)(1 << s.below(8)), e2[s.below(e2.size())] ^= (u8)(1 << s.below(8));
    if (s.coin(1, 10))
        e.resize(s.below(e.size())), e2.resize(s.below(e2.size()));
    NOTE("SM9 k=%s m=%s decode %s and %s", k.str().c_str(), m.str().c_str(), hex(e).c_str(), hex(e2, 200).c_str());
    all(c, 7, Req().num(3).put(k.bytes(32)).put(e).put(e2).put(m.bytes(32)));
    c.nontrivial();
}
PROP(sm9_tower, 700, 12000)
{
    Bytes x, y;
    for (int i = 0; i < 12; i++)
    {
        Z a = s.coin(1, 5) ? Z(0) : num::gen_mod(s, R9::p()), b = s.coin(1, 5) ? a : s.coin(1, 6) ? (R9::p() - a) % R9::p() : num::gen_mod(s, R9::p());
        x = x + a.bytes(32), y = y + b.bytes(32);
    }
    Z k = sm9h::gen_scalar(s);
    NOTE("Fp12 x=%s y=%s k=%s", hex(x, 400).c_str(), hex(y, 400).c_str(), k.str().c_str());
    all(c, 7, Req().num(4).put(x).put(y).put(k.bytes(32)));
    c.nontrivial();
}
PROP(sm9_imports, 150, 2500)
{
    Req r;
    r.num(5);
    std::size_t n = 1 + s.below(3);
    for (std::size_t i = 0; i < n; i++)
    {
        Bytes d;
        auto  q = R9::mulg2(sm9h::gen_nz(s));
        Bytes d2 = q.x.c1.bytes(32) + q.x.c0.bytes(32) + q.y.c1.bytes(32) + q.y.c0.bytes(32);
        switch (s.below(3))
        {
        case 0: d = sm9h::gen_scalar(s).bytes(32); break;
        case 1: d = d2; break;
        default:
        {
            auto p = R9::mulg1(sm9h::gen_nz(s));
            d = p.x.bytes(32) + p.y.bytes(32) + d2;
        }
        }
        if (s.coin(1, 3))
            d[s.below(d.size())] ^= (u8)(1 << s.below(8));
        NOTE("import %s", hex(d, 200).c_str());
        r.put(d);
    }
    all(c, 7, r);
    c.nontrivial();
}
PROP(asn1_encoding, 15000, 200000)
{
    Bytes v = s.bytes(s.coin() ? 65 + s.below(200) : s.len(40, 8));
    if (s.coin(1, 3))
        for (std::size_t i = 0, k = s.below(40); i < k && i < v.size(); i++)
            v[i] = 0;
    u64 bits = s.below(8 * v.size() + 1), len = s.word() >> s.below(64);
    NOTE("encode %s bits=%d length=%llx", hex(v, 200).c_str(), (int)bits, (unsigned long long)len);
    all(c, 10, Req().put(v).num(bits).num(len));
    c.nontrivial(v.size() > 1);
}
PROP(printing, 4000, 60000)
{
    Bytes d = s.coin() ? asn1h::gen_ber(s, 3) : s.bytes(s.below(70));
    if (s.coin(1, 4))
        d = asn1h::damage(s, d);
    u64 line = 1 + s.below(40), fl = s.below(4);
    NOTE("print %s", hex(d, 200).c_str());
    all(c, 11, Req().put(d).num(line).num(fl));
    c.nontrivial(d.size() > 1);
}
PROP(asn1, 20000, 300000)
{
    Bytes b;
    switch (s.below(4))
    {
    case 0: b = s.bytes(s.below(60)); break;
    case 1: b = asn1h::der(0x30, asn1h::der_uint(s.bytes(32)) + asn1h::der_uint(s.bytes(32))); break;
    case 2: b = asn1h::der(0x30, asn1h::der_uint(s.bytes(32)) + asn1h::der_uint(s.bytes(32)) + asn1h::der(4, s.rnd(32)) + asn1h::der(4, s.rnd(s.below(200)))); break;
    default: b = asn1h::der_uint(s.bytes(1 + s.below(40))); break;
    }
    if (s.coin())
        b = asn1h::damage(s, b);
    NOTE("DER %s", hex(b, 200).c_str());
    all(c, 8, Req().put(b));
    c.nontrivial(b.size() > 1);
}
