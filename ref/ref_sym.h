// Independent, deliberately naive reference models of the symmetric
// algorithms, written from the standards (S-boxes are computed, not copied).
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <vector>
namespace ref {
using u8    = std::uint8_t;
using u32   = std::uint32_t;
using u64   = std::uint64_t;
using Bytes = std::vector<u8>;

void  sm4_block(const u8 key[16], bool enc, u8 out[16], const u8 in[16]);
void  aes_block(const u8* key, std::size_t key_len, bool enc, u8 out[16], const u8 in[16]);
Bytes sm3(const Bytes& m);
// SM3 of a message whose first `skip_blocks` blocks took the state to iv
void  sm3_compress(u32 V[8], const u8 B[64]);
Bytes sm3_from(const u32 iv[8], u64 blocks_before, const Bytes& tail);
extern const u32 SM3_IV[8];

// GF(2^128) as in SP 800-38D, bit by bit
void  gf128_mul(u8 r[16], const u8 x[16], const u8 y[16]);
Bytes ghash(const u8 H[16], const Bytes& m); // m block aligned

// a block cipher as a function on blocks of bs bytes
struct Cipher
{
    std::size_t                                bs;
    std::function<void(u8* out, const u8* in)> enc, dec;
};
Cipher sm4_cipher(const Bytes& key);
Cipher aes_cipher(const Bytes& key);

enum Mode { ECB, CBC, CFB, OFB, CTR };
Bytes mode_run(Mode m, const Cipher& ci, bool enc, const Bytes& iv, const Bytes& in);
struct GcmOut
{
    Bytes ct, tag;
};
GcmOut gcm_encrypt(const Cipher& ci, const Bytes& iv, const Bytes& aad, const Bytes& pt);
Bytes  gcm_tag(const Cipher& ci, const Bytes& iv, const Bytes& aad, const Bytes& ct);
Bytes  gcm_ctr(const Cipher& ci, const Bytes& iv, const Bytes& in);

// HMAC (RFC 2104) over any hash given as a function
Bytes hmac(std::function<Bytes(const Bytes&)> h, std::size_t block, const Bytes& key, const Bytes& msg);
} // namespace ref
