#include "asn1h.h"
#include <sys/mman.h>
#include <unistd.h>
using namespace pbt;
using namespace asn1h;
using namespace asn1;
// 1 must be accepted, 0 must be rejected, -1 may be either
static int expect(unsigned kind, const Bytes& b, Tlv* t)
{
    if (!parse(b.data(), b.size(), t))
        return 0;
    int       ok = t->minimal ? 1 : -1; // longer length forms are BER, not DER
    const u8* v  = b.data() + t->off;
    switch (kind)
    {
    case 0: // boolean
        if (t->id != 1 || t->len != 1)
            return 0;
        return v[0] == 0 || v[0] == 0xff ? ok : -1;
    case 1: // integer
        if (t->id != 2 || t->len == 0)
            return 0;
        if (t->len > 1 && ((v[0] == 0 && v[1] < 0x80) || (v[0] == 0xff && v[1] >= 0x80)))
            return 0;
        return v[0] & 0x80 ? -1 : ok;
    case 2: // bit string
        if (t->id == 0x23)
            return -1;
        if (t->id != 3 || t->len == 0 || v[0] > 7 || (t->len == 1 && v[0] != 0))
            return 0;
        return t->len > 1 && (v[t->len - 1] & ((1 << v[0]) - 1)) ? -1 : ok;
    case 3: return t->id == 0x24 ? -1 : t->id == 4 ? ok : 0;
    case 4: return t->id == 5 && t->len == 0 ? ok : 0;
    case 5: return t->id == 0x30 ? ok : 0;
    case 6: return t->id == 0x31 ? ok : 0;
    default: return ok;
    }
}
static void decode_one(Ctx& c, unsigned kind, const Bytes& b)
{
    static const char* names[] = {"boolean", "integer", "bit string", "octet string", "null", "sequence", "set", "tlv"};
    Exact       in(b);
    Tlv         t;
    int         want = expect(kind, b, &t), rc = -9;
    const u8*   p = nullptr;
    std::size_t l = 0, bits = 0, n = 0;
    bool        bv = false;
    Asn1TLV     tlv;
    switch (kind)
    {
    case 0: rc = asn1_decode_boolean_value(&bv, &n, in.data(), b.size()); break;
    case 1: rc = asn1_decode_integer_value(&p, &l, &n, in.data(), b.size()); break;
    case 2: rc = asn1_decode_bit_string_value(&p, &l, &bits, &n, in.data(), b.size()); break;
    case 3: rc = asn1_decode_octet_string_value(&p, &l, &n, in.data(), b.size()); break;
    case 4: rc = asn1_decode_null_value(&n, in.data(), b.size()); break;
    case 5: rc = asn1_decode_sequence_value(&p, &l, &n, in.data(), b.size()); break;
    case 6: rc = asn1_decode_set_value(&p, &l, &n, in.data(), b.size()); break;
    default: rc = asn1_decode_tlv(&tlv, &n, in.data(), b.size()); p = tlv.value, l = tlv.length; break;
    }
    CHECK(in.unchanged(), "input-modified", "%s decoding changed its input", names[kind]);
    if (want >= 0)
        CHECK((rc == 0) == (want == 1), want ? "rejects-valid" : "accepts-invalid", "%s decoding of %s gives %d, expected %s", names[kind], hex(b, 60).c_str(), rc, want ? "success" : "an error");
    if (rc)
    {
        CHECK(rc == -1 || rc == -2, "error-code", "%s decoding returns %d", names[kind], rc);
        c.label("error");
        return;
    }
    c.label("decoded");
    CHECK(n == t.total, "consumed", "%s decoding of %s consumed %zu of %zu", names[kind], hex(b, 60).c_str(), n, t.total);
    if (kind == 0)
        CHECK(bv == (b[t.off] != 0), "value", "boolean value");
    if (p)
    {
        CHECK(p >= in.data() && l <= b.size() && p + l <= in.data() + t.total, "outside", "%s value at %td+%zu of %zu input bytes", names[kind], p - in.data(), l, b.size());
        const u8* v = in.data() + t.off;
        if (kind == 1)
            CHECK((p == v && l == t.len) || (t.len > 1 && v[0] == 0 && p == v + 1 && l == t.len - 1), "value", "integer value at %td+%zu", p - v, l);
        else if (kind == 2)
        {
            if (t.id == 3)
                CHECK(p == v + 1 && l == t.len - 1 && bits == 8 * l - v[0], "value", "bit string value at %td+%zu, %zu bits", p - v, l, bits);
        }
        else
            CHECK(p == v && l == t.len, "value", "%s value at %td+%zu want 0+%zu", names[kind], p - v, l, t.len);
    }
    if (kind == 7)
        CHECK((u8)(tlv.tag_class | tlv.tag_pc | tlv.tag_number) == b[0], "tag", "tag of %s", hex(b, 8).c_str());
}
PROP(any_bytes, 150000, 2000000)
{
    Bytes b;
    switch (s.below(5))
    {
    case 0: b = s.bytes(s.below(16)); break;
    case 1: b = s.rnd(s.below(300)); break;
    case 2: b = gen_ber(s, 3); break;
    default: b = damage(s, gen_ber(s, 3));
    }
    NOTE("%zu bytes %s", b.size(), hex(b, 80).c_str());
    for (unsigned k = 0; k < 8; k++)
        decode_one(c, k, b);
    c.nontrivial(b.size() > 1);
}
// one valid encoding of each type, then every truncation of it
PROP(every_truncation, 12000, 150000)
{
    unsigned kind = (unsigned)s.below(8);
    Bytes    v = s.coin(1, 5) ? s.rnd(120 + s.below(300)) : s.bytes(s.below(20)), b;
    switch (kind)
    {
    case 0: b = der(1, Bytes{(u8)(s.coin() ? 255 : 0)}); break;
    case 1: v.push_back(1); b = der_uint(v); break;
    case 2:
        if (v.empty())
            v.push_back(0);
        v[0] = (u8)(v.size() > 1 ? s.below(8) : 0);
        if (v.size() > 1)
            v.back() = (u8)(v.back() & (0xff << v[0]));
        b = der(3, v);
        break;
    case 3: b = der(4, v); break;
    case 4: b = der(5, Bytes()); break;
    case 5: b = der(0x30, v); break;
    case 6: b = der(0x31, v); break;
    default: b = der((u8)(s.byte() & 0xde), v); break;
    }
    NOTE("kind %u %s", kind, hex(b, 80).c_str());
    Tlv t;
    CHECK(expect(kind, b, &t) == 1, "oracle", "the oracle rejects %s", hex(b, 80).c_str());
    decode_one(c, kind, b);
    for (std::size_t i = 0; i < b.size(); i++)
        decode_one(c, kind, Bytes(b.begin(), b.begin() + (long)i));
    c.nontrivial(b.size() > 3);
}
struct Capture
{
    int  saved, fd;
    Capture()
    {
        fflush(stdout);
        saved = dup(1);
        fd    = memfd_create("dump", 0);
        dup2(fd, 1);
    }
    std::string done()
    {
        fflush(stdout);
        dup2(saved, 1);
        close(saved);
        std::string r((std::size_t)lseek(fd, 0, SEEK_END), 0);
        lseek(fd, 0, SEEK_SET);
        std::size_t at = 0;
        while (at < r.size())
        {
            ssize_t k = read(fd, &r[at], r.size() - at);
            if (k <= 0)
                break;
            at += (std::size_t)k;
        }
        close(fd);
        return r;
    }
};
// well formed down to the leaves? 1 yes, 0 no, -1 cannot say (long length forms, deep)
static int wellformed(const u8* b, std::size_t n, unsigned depth)
{
    int r = 1;
    if (depth > 16)
        return -1;
    while (n)
    {
        Tlv t;
        if (!parse(b, n, &t))
            return 0;
        if (!t.minimal)
            r = -1;
        if (t.id & 0x20)
        {
            int k = wellformed(b + t.off, t.len, depth + 1);
            if (k == 0)
                return 0;
            if (k < 0)
                r = -1;
        }
        b += t.total, n -= t.total;
    }
    return r;
}
PROP(dump, 25000, 300000)
{
    Bytes b;
    switch (s.below(4))
    {
    case 0: b = s.bytes(s.below(20)); break;
    case 1: b = damage(s, gen_ber(s, 4)); break;
    default: b = gen_ber(s, 4);
    }
    Exact   in(b);
    int     want = wellformed(b.data(), b.size(), 0);
    NOTE("dump of %zu bytes %s", b.size(), hex(b, 80).c_str());
    Capture cap;
    int     rc = asn1_dump(in.data(), b.size());
    std::string out = cap.done();
    if (want >= 0)
        CHECK((rc == 0) == (want == 1), want ? "dump-rejects" : "dump-accepts", "dump of %s gives %d, expected %s", hex(b, 60).c_str(), rc, want ? "success" : "an error");
    CHECK(in.unchanged(), "input-modified", "the dump changed its input");
    if (rc == 0)
    {
        // every byte is shown once, in order: hex digits outside the comments
        Bytes       shown;
        std::size_t i = 0;
        while (i < out.size())
        {
            if (out[i] == ';')
                while (i < out.size() && out[i] != '\n')
                    i++;
            else if (isxdigit((u8)out[i]) && i + 1 < out.size() && isxdigit((u8)out[i + 1]))
            {
                shown.push_back((u8)std::stoi(out.substr(i, 2), nullptr, 16));
                i += 2;
            }
            else
                i++;
        }
        CHECK_EQ_BYTES(shown, b, "dump-bytes", "bytes shown by the dump");
    }
    c.label(rc == 0 ? "dumped" : "error");
    c.nontrivial(b.size() > 2);
}
// nesting of any depth terminates within bounded stack
PROP(deep_nesting, 30, 600)
{
    std::size_t depth = s.coin(1, 3) ? 1 + s.below(17) : s.coin() ? s.below(3000) : 50000 + s.below(150000);
    static const u8 ids[] = {0x30, 0x31, 0x24, 0x23, 0xa0, 0x7e};
    u8          id = ids[s.below(6)];
    Bytes       rev; // built from the inside out
    std::size_t len = 0;
    for (std::size_t i = 0; i < depth; i++)
    {
        Bytes h = Bytes{id} + der_len(len);
        rev.insert(rev.end(), h.rbegin(), h.rend());
        len += h.size();
    }
    Bytes b(rev.rbegin(), rev.rend());
    if (s.coin(1, 3) && !b.empty())
        b.pop_back();
    NOTE("%zu nested %02x, %zu bytes", depth, id, b.size());
    Exact   in(b);
    int     want = b.size() == len ? (depth <= 16 ? 1 : -1) : (b.empty() ? 1 : 0);
    Capture cap;
    int     rc = asn1_dump(in.data(), b.size());
    std::string out = cap.done();
    if (want >= 0)
        CHECK((rc == 0) == (want == 1), want ? "dump-rejects" : "dump-accepts", "dump of %zu nested values gives %d", depth, rc);
    c.label(depth > 1000 ? "deep" : "shallow");
    c.nontrivial(depth > 3);
}
