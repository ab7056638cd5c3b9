#include "asn1h.h"
#include "bigmap.h"
using namespace pbt;
using namespace asn1h;
using namespace asn1;
static std::size_t gen_len(Source& s)
{
    switch (s.below(8))
    {
    case 0: return s.below(3);
    case 1: return 126 + s.below(4);
    case 2: return 253 + s.below(6);
    case 3: return s.coin(1, 4) ? 65533 + s.below(6) : s.below(400);
    case 4: return s.below(3000);
    default: return s.below(50);
    }
}
static Bytes content(Source& s, std::size_t n) { return n > 64 ? s.rnd(n) : s.bytes(n); }
#define ENC(call_outl, max_outl, call_tlv, want)                                                                                   \
    do                                                                                                                             \
    {                                                                                                                              \
        std::size_t ann = call_outl;                                                                                               \
        CHECK(ann == (want).size(), "announced-length", "announced length %zu, the encoding has %zu", ann, (want).size());         \
        CHECK((max_outl) >= ann, "max-length", "declared maximum %zu is below the length %zu", (std::size_t)(max_outl), ann);     \
        Guarded     out(ann, s.below(9));                                                                                          \
        std::size_t outl = 99999999;                                                                                               \
        u8*         o    = out.data();                                                                                             \
        std::size_t* ol  = &outl;                                                                                                  \
        call_tlv;                                                                                                                  \
        CHECK(out.intact(), "out-of-bounds", "the encoder wrote outside the announced length %zu", ann);                           \
        CHECK(outl == ann, "length", "the encoder reports %zu bytes, announced %zu", outl, ann);                                   \
        CHECK_EQ_BYTES(out.bytes(), want, "encoding", "encoding");                                                                 \
    } while (0)
PROP(boolean, 6000, 50000)
{
    bool  v = s.coin();
    Bytes want = der(1, Bytes{(u8)(v ? 0xff : 0)}), tail = s.bytes(s.below(4));
    NOTE("boolean %d", v);
    ENC(asn1_encode_boolean_outl(), ASN1_ENCODE_BOOLEAN_MAX_OUTL(), asn1_encode_boolean_tlv(o, ol, v), want);
    Exact       in(want + tail);
    bool        got = !v;
    std::size_t n = 77;
    int         rc = asn1_decode_boolean_value(&got, &n, in.data(), in.size());
    CHECK(rc == 0 && got == v && n == want.size(), "decode", "decoding %s gives rc=%d value=%d consumed=%zu", hex(want).c_str(), rc, got, n);
    c.nontrivial(!tail.empty());
}
PROP(integer, 90000, 900000)
{
    Bytes v = content(s, s.coin(1, 3) ? 32 : s.coin(1, 10) ? 1 + gen_len(s) : 1 + s.below(40));
    if (s.coin(1, 3)) // leading zero bytes
        for (std::size_t i = 0, k = 1 + s.below(v.size()); i < k; i++)
            v[i] = 0;
    if (s.coin(1, 3))
        v[s.below(v.size())] |= 0x80;
    Bytes want = der_uint(v), tail = s.bytes(s.below(4)), min = v;
    while (min.size() > 1 && min[0] == 0)
        min.erase(min.begin());
    NOTE("integer of %zu bytes %s", v.size(), hex(v, 80).c_str());
    Exact ev(v);
    ENC(asn1_encode_integer_outl(ev.data(), v.size()), ASN1_ENCODE_INTEGER_MAX_OUTL(v.size()), asn1_encode_integer_tlv(o, ol, ev.data(), v.size()), want);
    CHECK(ev.unchanged(), "input-modified", "the encoder changed its input");
    Exact       in(want + tail);
    const u8*   p  = nullptr;
    std::size_t l = 0, n = 77;
    int         rc = asn1_decode_integer_value(&p, &l, &n, in.data(), in.size());
    CHECK(rc == 0, "decode", "a valid INTEGER is rejected (%d): %s", rc, hex(want, 80).c_str());
    CHECK(n == want.size(), "consumed", "consumed %zu of %zu bytes", n, want.size());
    CHECK(p >= in.data() && p + l <= in.data() + want.size(), "outside", "the value lies outside the input");
    CHECK_EQ_BYTES(Bytes(p, p + l), min, "value", "decoded INTEGER");
    c.label(min[0] & 0x80 ? "high bit set" : "high bit clear");
    if (min.size() != v.size())
        c.label("leading zero bytes");
    c.nontrivial(v.size() > 1);
}
PROP(bit_string, 45000, 500000)
{
    std::size_t bits = s.coin(1, 5) ? 8 * gen_len(s) + s.below(8) : s.below(200), bytes = (bits + 7) / 8;
    Bytes       v = content(s, bytes), tail = s.bytes(s.below(4));
    u8          pad = (u8)(bytes * 8 - bits);
    if (bytes)
        v.back() = (u8)(v.back() & (0xff << pad));
    Bytes want = der(3, Bytes{pad} + v);
    NOTE("bit string of %zu bits", bits);
    Exact ev(v);
    ENC(asn1_encode_bit_string_outl(bits), ASN1_ENCODE_BIT_STRING_MAX_OUTL(bits), asn1_encode_bit_string_tlv(o, ol, ev.data(), bytes, bits), want);
    CHECK(ev.unchanged(), "input-modified", "the encoder changed its input");
    Exact       in(want + tail);
    const u8*   p  = nullptr;
    std::size_t l = 0, nb = 12345, n = 77;
    int         rc = asn1_decode_bit_string_value(&p, &l, &nb, &n, in.data(), in.size());
    CHECK(rc == 0, "decode", "a valid BIT STRING is rejected (%d): %s", rc, hex(want, 80).c_str());
    CHECK(n == want.size(), "consumed", "consumed %zu of %zu bytes", n, want.size());
    CHECK(nb == bits && l == bytes, "bits", "decoded %zu bits in %zu bytes, want %zu in %zu", nb, l, bits, bytes);
    CHECK(p >= in.data() && p + l <= in.data() + want.size(), "outside", "the value lies outside the input");
    CHECK_EQ_BYTES(Bytes(p, p + l), v, "value", "decoded BIT STRING");
    c.label(bits % 8 ? "partial byte" : "whole bytes");
    c.nontrivial(bits > 0);
}
PROP(octet_string, 36000, 400000)
{
    Bytes v = content(s, gen_len(s)), want = der(4, v), tail = s.bytes(s.below(4));
    NOTE("octet string of %zu bytes", v.size());
    Exact ev(v);
    ENC(asn1_encode_octet_string_outl(v.size()), ASN1_ENCODE_OCTET_STRING_MAX_OUTL(v.size()), asn1_encode_octet_string_tlv(o, ol, ev.data(), v.size()), want);
    CHECK(ev.unchanged(), "input-modified", "the encoder changed its input");
    Exact       in(want + tail);
    const u8*   p  = nullptr;
    std::size_t l = 12345, n = 77;
    int         rc = asn1_decode_octet_string_value(&p, &l, &n, in.data(), in.size());
    CHECK(rc == 0, "decode", "a valid OCTET STRING of %zu bytes is rejected (%d)", v.size(), rc);
    CHECK(n == want.size(), "consumed", "consumed %zu of %zu bytes", n, want.size());
    CHECK(l == v.size() && p >= in.data() && p + l <= in.data() + want.size(), "outside", "the value lies outside the input");
    CHECK_EQ_BYTES(Bytes(p, p + l), v, "value", "decoded OCTET STRING");
    c.label(v.empty() ? "empty" : v.size() < 128 ? "short form" : "long form");
    c.nontrivial(v.size() > 0);
}
// a header followed by its content, as sequences and constructed strings are written
PROP(constructed, 36000, 400000)
{
    Bytes       v = s.coin() ? gen_ber(s, 2) : content(s, gen_len(s)), tail = s.bytes(s.below(4));
    unsigned    k = (unsigned)s.below(4);
    static const u8 ids[] = {0x30, 0x31, 0x23, 0x24};
    Bytes       want = der(ids[k], v), head(want.begin(), want.end() - (long)v.size());
    Guarded     out(head.size(), s.below(9));
    std::size_t outl = 99999, ann = 0, mx = 0;
    NOTE("constructed kind %u of %zu bytes", k, v.size());
    switch (k)
    {
    case 0: asn1_encode_sequence_tl(out.data(), &outl, v.size()); ann = asn1_encode_sequence_outl(v.size()); mx = ASN1_ENCODE_SEQUENCE_MAX_OUTL(v.size()); break;
    case 1: asn1_encode_set_tl(out.data(), &outl, v.size()); ann = asn1_encode_set_outl(v.size()); mx = ASN1_ENCODE_SET_MAX_OUTL(v.size()); break;
    case 2: asn1_encode_bit_string_tl(out.data(), &outl, v.size()); ann = asn1_encode_tlv_outl(v.size()); mx = ASN1_ENCODE_TLV_MAX_OUTL(v.size()); break;
    case 3: asn1_encode_octet_string_tl(out.data(), &outl, v.size()); ann = asn1_encode_tlv_outl(v.size()); mx = ASN1_ENCODE_TLV_MAX_OUTL(v.size()); break;
    }
    CHECK(out.intact(), "out-of-bounds", "the header is longer than %zu bytes", head.size());
    CHECK(outl == head.size(), "length", "header length %zu want %zu", outl, head.size());
    CHECK_EQ_BYTES(out.bytes(), head, "encoding", "header");
    CHECK(ann == want.size() && mx >= ann, "announced-length", "announced %zu (maximum %zu), the encoding has %zu", ann, mx, want.size());
    Exact in(want + tail);
    if (k < 2)
    {
        const u8*   p = nullptr;
        std::size_t l = 12345, n = 77;
        int         rc = k ? asn1_decode_set_value(&p, &l, &n, in.data(), in.size()) : asn1_decode_sequence_value(&p, &l, &n, in.data(), in.size());
        CHECK(rc == 0, "decode", "a valid %s of %zu bytes is rejected (%d)", k ? "SET" : "SEQUENCE", v.size(), rc);
        CHECK(n == want.size() && l == v.size() && p == in.data() + head.size(), "value", "decoded content at %td+%zu, consumed %zu", p - in.data(), l, n);
    }
    c.label(v.empty() ? "empty" : v.size() < 128 ? "short form" : "long form");
    c.nontrivial(v.size() > 0);
}
PROP(null_and_any_tag, 30000, 300000)
{
    // NULL, and the generic decoder on every tag
    u8 id = (u8)(s.below(8) << 5 | s.below(31));
    if (s.coin(1, 4))
        id = 5;
    Bytes       v = id == 5 ? Bytes() : content(s, gen_len(s)), want = der(id, v), tail = s.bytes(s.below(4));
    Exact       in(want + tail);
    Asn1TLV     t;
    std::size_t n = 77;
    NOTE("tag %02x of %zu bytes", id, v.size());
    int rc = asn1_decode_tlv(&t, &n, in.data(), in.size());
    CHECK(rc == 0, "decode", "tag %02x with %zu bytes is rejected (%d)", id, v.size(), rc);
    CHECK((u8)t.tag_class == (id & 0xc0) && (u8)t.tag_pc == (id & 0x20) && (u8)t.tag_number == (id & 31), "tag", "tag %02x decoded as %x %x %x", id, t.tag_class, t.tag_pc, t.tag_number);
    CHECK(n == want.size() && t.length == v.size() && t.value == in.data() + want.size() - v.size(), "value", "content at %td+%zu, consumed %zu", t.value - in.data(), t.length, n);
    CHECK(asn1_tag_class_name(t.tag_class) && asn1_tag_pc_name(t.tag_pc) && asn1_tag_number_name(t.tag_number), "name", "tag %02x has no name", id);
    if (id == 5)
    {
        n  = 77;
        rc = asn1_decode_null_value(&n, in.data(), in.size());
        CHECK(rc == 0 && n == 2, "decode", "NULL gives rc=%d consumed=%zu", rc, n);
    }
    c.nontrivial(v.size() > 0);
}
// announced length for any content length, without the content
PROP(any_length, 30000, 300000)
{
    u64 v = s.word() >> s.below(64);
    if (s.coin(1, 3))
        v = (1ull << s.below(63)) + s.below(3) - 1;
    v &= (1ull << 63) - 1;
    std::size_t want = 1 + der_len(v).size() + (std::size_t)v;
    NOTE("content length %llu", (unsigned long long)v);
    std::size_t g[] = {asn1_encode_tlv_outl(v), asn1_encode_octet_string_outl(v), asn1_encode_sequence_outl(v), asn1_encode_set_outl(v)};
    for (auto x : g)
        CHECK(x == want, "announced-length", "announced %zu for %llu content bytes, want %zu", x, (unsigned long long)v, want);
    u64 bytes = v / 8 + (v % 8 != 0) + 1;
    CHECK(asn1_encode_bit_string_outl(v) == 1 + der_len(bytes).size() + bytes, "announced-length", "announced %zu for a string of %llu bits", asn1_encode_bit_string_outl(v), (unsigned long long)v);
    using Tl = void (*)(u8*, std::size_t*, std::size_t);
    static const std::pair<u8, Tl> tl[] = {{0x30, [](u8* o, std::size_t* l, std::size_t n) { asn1_encode_sequence_tl(o, l, n); }},
                                           {0x31, [](u8* o, std::size_t* l, std::size_t n) { asn1_encode_set_tl(o, l, n); }},
                                           {0x23, [](u8* o, std::size_t* l, std::size_t n) { asn1_encode_bit_string_tl(o, l, n); }},
                                           {0x24, [](u8* o, std::size_t* l, std::size_t n) { asn1_encode_octet_string_tl(o, l, n); }}};
    for (auto& k : tl)
    {
        Bytes       head = Bytes{k.first} + der_len(v);
        Guarded     out(head.size());
        std::size_t outl = 0;
        k.second(out.data(), &outl, v);
        CHECK(out.intact() && outl == head.size(), "length", "header of %zu bytes want %zu", outl, head.size());
        CHECK_EQ_BYTES(out.bytes(), head, "encoding", "header");
    }
    c.nontrivial(v >= 128);
}
// a list of values in one sequence: written piece by piece, read back in order
PROP(sequence_of_values, 18000, 200000)
{
    struct Item
    {
        unsigned kind;
        Bytes    v;
        u8       pad;
    };
    std::vector<Item> items;
    std::size_t       k = s.below(6), total = 0;
    for (std::size_t i = 0; i < k; i++)
    {
        Item it;
        it.kind = (unsigned)s.below(4);
        it.v    = content(s, it.kind == 0 ? 1 : it.kind == 1 ? 1 + s.below(40) : s.coin(1, 8) ? gen_len(s) % 2000 : s.below(40));
        it.pad  = it.kind == 2 && !it.v.empty() ? (u8)s.below(8) : 0;
        if (it.kind == 2 && it.pad)
            it.v.back() = (u8)(it.v.back() & (0xff << it.pad));
        switch (it.kind)
        {
        case 0: total += asn1_encode_boolean_outl(); break;
        case 1: total += asn1_encode_integer_outl(it.v.data(), it.v.size()); break;
        case 2: total += asn1_encode_bit_string_outl(it.v.size() * 8 - it.pad); break;
        case 3: total += asn1_encode_octet_string_outl(it.v.size()); break;
        }
        items.push_back(it);
    }
    std::size_t size = asn1_encode_sequence_outl(total), n, at = 0;
    Guarded     out(size);
    asn1_encode_sequence_tl(out.data(), &n, total);
    at += n;
    u8 none = 0;
    for (auto& it : items)
    {
        const u8* d = it.v.empty() ? &none : it.v.data();
        switch (it.kind)
        {
        case 0: asn1_encode_boolean_tlv(out.data() + at, &n, it.v[0] & 1); break;
        case 1: asn1_encode_integer_tlv(out.data() + at, &n, d, it.v.size()); break;
        case 2: asn1_encode_bit_string_tlv(out.data() + at, &n, d, it.v.size(), it.v.size() * 8 - it.pad); break;
        case 3: asn1_encode_octet_string_tlv(out.data() + at, &n, d, it.v.size()); break;
        }
        at += n;
    }
    NOTE("%zu items, %zu bytes: %s", k, size, hex(out.bytes(), 100).c_str());
    CHECK(at == size && out.intact(), "length", "wrote %zu bytes, announced %zu", at, size);
    Exact       in(out.bytes());
    const u8*   p;
    std::size_t l;
    CHECK(asn1_decode_sequence_value(&p, &l, &n, in.data(), in.size()) == 0 && n == size && l == total, "decode", "sequence not decoded");
    for (auto& it : items)
    {
        const u8*   d = nullptr;
        std::size_t dl = 0, bits = 0;
        bool        b;
        int         rc = -9;
        switch (it.kind)
        {
        case 0: rc = asn1_decode_boolean_value(&b, &n, p, l); CHECK(rc == 0 && b == (bool)(it.v[0] & 1), "decode", "boolean in a sequence"); break;
        case 1:
        {
            Bytes min = it.v;
            while (min.size() > 1 && min[0] == 0)
                min.erase(min.begin());
            rc = asn1_decode_integer_value(&d, &dl, &n, p, l);
            CHECK(rc == 0 && Bytes(d, d + dl) == min, "decode", "integer in a sequence");
            break;
        }
        case 2: rc = asn1_decode_bit_string_value(&d, &dl, &bits, &n, p, l); CHECK(rc == 0 && Bytes(d, d + dl) == it.v && bits == it.v.size() * 8 - it.pad, "decode", "bit string in a sequence"); break;
        case 3: rc = asn1_decode_octet_string_value(&d, &dl, &n, p, l); CHECK(rc == 0 && Bytes(d, d + dl) == it.v, "decode", "octet string in a sequence"); break;
        }
        p += n, l -= n;
    }
    CHECK(l == 0, "decode", "%zu bytes left over", l);
    c.nontrivial(k > 1);
}
// contents of 16 MiB: four length octets
PROP(huge, 8, 100)
{
    std::size_t n = (1u << 24) - 3 + s.below(6);
    Bytes       v = s.rnd(n), want;
    unsigned    k = (unsigned)s.below(3);
    NOTE("kind %u of %zu bytes", k, n);
    Guarded     out(n + 8);
    std::size_t l = 0, ann = 0, used = 0, bits = 0, vl = 0;
    const u8*   p = nullptr;
    int         rc;
    v[0] |= 1;
    switch (k)
    {
    case 0: want = der(4, v); ann = asn1_encode_octet_string_outl(n); asn1_encode_octet_string_tlv(out.data(), &l, v.data(), n); break;
    case 1: want = der_uint(v); ann = asn1_encode_integer_outl(v.data(), n); asn1_encode_integer_tlv(out.data(), &l, v.data(), n); break;
    case 2: want = der(3, Bytes{0} + v); ann = asn1_encode_bit_string_outl(8 * n); asn1_encode_bit_string_tlv(out.data(), &l, v.data(), n, 8 * n); break;
    }
    CHECK(ann == want.size() && l == want.size() && out.intact(), "length", "announced %zu, wrote %zu, DER has %zu", ann, l, want.size());
    CHECK(!std::memcmp(out.data(), want.data(), l), "encoding", "differs from DER");
    Exact e(want);
    switch (k)
    {
    case 0: rc = asn1_decode_octet_string_value(&p, &vl, &used, e.data(), l); break;
    case 1: rc = asn1_decode_integer_value(&p, &vl, &used, e.data(), l); break;
    default: rc = asn1_decode_bit_string_value(&p, &vl, &bits, &used, e.data(), l); break;
    }
    CHECK(rc == 0 && used == l && vl == n && !std::memcmp(p, v.data(), n), "decode", "rc=%d consumed %zu of %zu, %zu bytes", rc, used, l, vl);
    c.nontrivial();
}
#if !defined(__SANITIZE_ADDRESS__) && !defined(PBT_LIBFUZZER)
// contents of several gigabytes
PROP(beyond_32_bits, 3, 30)
{
    u64         n = bigmap::gen_len(s);
    bigmap::Big in(n), out(n + 16);
    if (!in.p || !out.p || mmap(out.p, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED)
        c.discard();
    unsigned k = (unsigned)s.below(3);
    u64      sd = s.draw(~0ull);
    NOTE("kind %u of %llu bytes, contents %llx", k, (unsigned long long)n, (unsigned long long)sd);
    in.fill(sd);
    in.p[0] = (u8)(k == 1 ? 1 + s.below(255) : in.p[0]);
    bool  pad = k == 2 || (k == 1 && in.p[0] >= 0x80);
    Bytes head = Bytes{(u8)(k == 0 ? 4 : k == 1 ? 2 : 3)} + der_len(n + pad);
    if (pad)
        head.push_back(0);
    std::size_t l = 0, ann = 0, used = 0, bits = 0, vl = 0;
    const u8*   p = nullptr;
    int         rc;
    switch (k)
    {
    case 0: ann = asn1_encode_octet_string_outl(n); asn1_encode_octet_string_tlv(out.p, &l, in.p, n); break;
    case 1: ann = asn1_encode_integer_outl(in.p, n); asn1_encode_integer_tlv(out.p, &l, in.p, n); break;
    default: ann = asn1_encode_bit_string_outl(8 * n); asn1_encode_bit_string_tlv(out.p, &l, in.p, n, 8 * n); break;
    }
    CHECK(ann == n + head.size() && l == ann, "length", "announced %zu, wrote %zu, DER has %llu", ann, l, (unsigned long long)n + head.size());
    CHECK_EQ_BYTES(Bytes(out.p, out.p + head.size()), head, "encoding", "header");
    auto same = [&](const u8* q) { return !std::memcmp(q, in.p, 4000 - head.size()) && !std::memcmp(q + n / 2, in.p + n / 2, 100000) && !std::memcmp(q + n - 100000, in.p + n - 100000, 100000); };
    CHECK(same(out.p + head.size()), "encoding", "content differs");
    switch (k)
    {
    case 0: rc = asn1_decode_octet_string_value(&p, &vl, &used, out.p, l); break;
    case 1: rc = asn1_decode_integer_value(&p, &vl, &used, out.p, l); break;
    default: rc = asn1_decode_bit_string_value(&p, &vl, &bits, &used, out.p, l); break;
    }
    CHECK(rc == 0 && used == l && vl == n && p == out.p + head.size() && (k < 2 || bits == 8 * n), "decode", "rc=%d consumed %zu of %zu, %zu bytes at %td", rc, used, l, vl, p - out.p);
    // one byte short
    switch (k)
    {
    case 0: rc = asn1_decode_octet_string_value(&p, &vl, &used, out.p, l - 1); break;
    case 1: rc = asn1_decode_integer_value(&p, &vl, &used, out.p, l - 1); break;
    default: rc = asn1_decode_bit_string_value(&p, &vl, &bits, &used, out.p, l - 1); break;
    }
    CHECK(rc != 0, "decode", "accepted without its last byte");
    c.nontrivial();
    c.label("huge content");
}
#endif
