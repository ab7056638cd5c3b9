From c7991738c8be85ddf79d6df45b9d69d48670f2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 01/42] fix: AES-192 AES-NI key expansion reads 8 bytes past
 the end of the user key

---
 src/aes/aes_aesni.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aes/aes_aesni.cpp b/src/aes/aes_aesni.cpp
index cc2cda0..764e276 100644
--- a/src/aes/aes_aesni.cpp
+++ b/src/aes/aes_aesni.cpp
@@ -110,7 +110,7 @@ static void AES_192_Key_Expansion(const unsigned char* userkey,
     __m128i  temp1, temp2, temp3;
     __m128i* Key_Schedule = (__m128i*)key;
     temp1                 = _mm_loadu_si128((__m128i*)userkey);
-    temp3                 = _mm_loadu_si128((__m128i*)(userkey + 16));
+    temp3                 = _mm_loadl_epi64((__m128i*)(userkey + 16));
     Key_Schedule[0]       = temp1;
     Key_Schedule[1]       = temp3;
     temp2                 = _mm_aeskeygenassist_si128(temp3, 0x1);
-- 
2.43.0


From a1335024c791decd841bb3fff6b1e215e456b290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 02/42] fix: BlockCipherMode::update leaves *outl unset when
 the buffered block stays incomplete

---
 include/gmlib/block_cipher_mode/block_cipher_mode.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gmlib/block_cipher_mode/block_cipher_mode.h b/include/gmlib/block_cipher_mode/block_cipher_mode.h
index 92208c0..0923095 100644
--- a/include/gmlib/block_cipher_mode/block_cipher_mode.h
+++ b/include/gmlib/block_cipher_mode/block_cipher_mode.h
@@ -74,8 +74,9 @@ public:
             out += size, in += size, inl -= size;
 
             std::memcpy(buf_, in, inl);
-            buf_size_ = inl, *outl = (std::size_t)(out - out_base);
+            buf_size_ = inl;
         }
+        *outl = (std::size_t)(out - out_base);
     }
 
     void do_final(std::uint8_t*       out,
-- 
2.43.0


From dd357bca5208711a6c8042705d63e40eb7717665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 03/42] fix: re-initialising a cipher mode object keeps the
 previous message's buffered bytes

---
 include/gmlib/block_cipher_mode/cbc_mode.h | 2 ++
 include/gmlib/block_cipher_mode/cfb_mode.h | 2 ++
 include/gmlib/block_cipher_mode/ctr_mode.h | 1 +
 include/gmlib/block_cipher_mode/ecb_mode.h | 2 ++
 include/gmlib/block_cipher_mode/gcm_mode.h | 1 +
 include/gmlib/block_cipher_mode/ofb_mode.h | 1 +
 6 files changed, 9 insertions(+)

diff --git a/include/gmlib/block_cipher_mode/cbc_mode.h b/include/gmlib/block_cipher_mode/cbc_mode.h
index cd64d4d..f2c6932 100644
--- a/include/gmlib/block_cipher_mode/cbc_mode.h
+++ b/include/gmlib/block_cipher_mode/cbc_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
@@ -98,6 +99,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::DECRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
diff --git a/include/gmlib/block_cipher_mode/cfb_mode.h b/include/gmlib/block_cipher_mode/cfb_mode.h
index a61604f..2dd5926 100644
--- a/include/gmlib/block_cipher_mode/cfb_mode.h
+++ b/include/gmlib/block_cipher_mode/cfb_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
@@ -93,6 +94,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
diff --git a/include/gmlib/block_cipher_mode/ctr_mode.h b/include/gmlib/block_cipher_mode/ctr_mode.h
index 1561526..6a8729b 100644
--- a/include/gmlib/block_cipher_mode/ctr_mode.h
+++ b/include/gmlib/block_cipher_mode/ctr_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(counter_, iv, Cipher::BLOCK_SIZE);
     }
diff --git a/include/gmlib/block_cipher_mode/ecb_mode.h b/include/gmlib/block_cipher_mode/ecb_mode.h
index 3e3514d..23e9837 100644
--- a/include/gmlib/block_cipher_mode/ecb_mode.h
+++ b/include/gmlib/block_cipher_mode/ecb_mode.h
@@ -28,6 +28,7 @@ public:
 public:
     void init(const std::uint8_t* user_key)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
     }
 
@@ -83,6 +84,7 @@ public:
 public:
     void init(const std::uint8_t* user_key)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::DECRYPTION);
     }
 
diff --git a/include/gmlib/block_cipher_mode/gcm_mode.h b/include/gmlib/block_cipher_mode/gcm_mode.h
index b69bb0b..65afe65 100644
--- a/include/gmlib/block_cipher_mode/gcm_mode.h
+++ b/include/gmlib/block_cipher_mode/gcm_mode.h
@@ -49,6 +49,7 @@ public:
         static const std::uint8_t ZERO[16] = {0};
         std::uint8_t              t[16];
 
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         cipher_.encrypt_block(t, ZERO);
         hash.set_key(t);
diff --git a/include/gmlib/block_cipher_mode/ofb_mode.h b/include/gmlib/block_cipher_mode/ofb_mode.h
index 12b3b72..c179faa 100644
--- a/include/gmlib/block_cipher_mode/ofb_mode.h
+++ b/include/gmlib/block_cipher_mode/ofb_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
-- 
2.43.0


From 2b9712380015f9bc0024218041ab1476be4cf3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:56 +0000
Subject: [PATCH 04/42] fix: CBC decryption in place overwrites ciphertext it
 still needs for chaining

---
 include/gmlib/block_cipher_mode/cbc_mode.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/gmlib/block_cipher_mode/cbc_mode.h b/include/gmlib/block_cipher_mode/cbc_mode.h
index f2c6932..8f7f9ba 100644
--- a/include/gmlib/block_cipher_mode/cbc_mode.h
+++ b/include/gmlib/block_cipher_mode/cbc_mode.h
@@ -126,9 +126,11 @@ private:
             std::memcpy(next_iv, in + REMAIN, BLOCK_SIZE);
 
             cipher_.decrypt_blocks(buffer, in, PARALLEL_NUM);
-            memory_utils::memxor<BLOCK_SIZE>(out, buffer, iv_);
-            std::uint8_t *ptr1 = out + BLOCK_SIZE, *ptr2 = buffer + BLOCK_SIZE;
-            memory_utils::memxor<REMAIN>(ptr1, ptr2, in);
+            memory_utils::memxor<BLOCK_SIZE>(buffer, buffer, iv_);
+            std::uint8_t* ptr = buffer + BLOCK_SIZE;
+            memory_utils::memxor<REMAIN>(ptr, ptr, in);
+            // in may be the same buffer as out
+            std::memcpy(out, buffer, PARALLEL_BYTES);
             in += PARALLEL_BYTES, out += PARALLEL_BYTES;
             block_num -= PARALLEL_NUM;
 
@@ -140,9 +142,11 @@ private:
             std::memcpy(next_iv, in + remain, BLOCK_SIZE);
 
             cipher_.decrypt_blocks(buffer, in, block_num);
-            memory_utils::memxor<BLOCK_SIZE>(out, buffer, iv_);
-            std::uint8_t *ptr1 = out + BLOCK_SIZE, *ptr2 = buffer + BLOCK_SIZE;
-            memory_utils::memxor_n(ptr1, ptr2, in, remain);
+            memory_utils::memxor<BLOCK_SIZE>(buffer, buffer, iv_);
+            std::uint8_t* ptr = buffer + BLOCK_SIZE;
+            memory_utils::memxor_n(ptr, ptr, in, remain);
+            // in may be the same buffer as out
+            std::memcpy(out, buffer, remain + BLOCK_SIZE);
 
             std::memcpy(iv_, next_iv, BLOCK_SIZE);
         }
-- 
2.43.0


From c2437e75c60d41659000d3a29b3198f3c900dfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:56 +0000
Subject: [PATCH 05/42] fix: GCM decryption pads the last block with a static
 buffer that earlier calls and other objects overwrite

---
 include/gmlib/block_cipher_mode/gcm_mode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gmlib/block_cipher_mode/gcm_mode.h b/include/gmlib/block_cipher_mode/gcm_mode.h
index 65afe65..3a5e53f 100644
--- a/include/gmlib/block_cipher_mode/gcm_mode.h
+++ b/include/gmlib/block_cipher_mode/gcm_mode.h
@@ -315,7 +315,7 @@ private:
                      const std::uint8_t* in,
                      std::size_t         inl) override
     {
-        static std::uint8_t t[16] = {0}, tag[16];
+        std::uint8_t t[16] = {0}, tag[16];
         if (inl != 0)
         {
             std::size_t nxt_ct_len = ct_len_ + inl;
-- 
2.43.0


From 070d1d9c0b0bbc0e3cc56da150c65c1b7cf0c6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 06/42] fix: Hash::update divides by 64 instead of the block
 size after completing a buffered block

---
 include/gmlib/hash_lib/hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gmlib/hash_lib/hash.h b/include/gmlib/hash_lib/hash.h
index 67daf11..307ec77 100644
--- a/include/gmlib/hash_lib/hash.h
+++ b/include/gmlib/hash_lib/hash.h
@@ -64,7 +64,7 @@ public:
         }
         if (inl && buf_size_ == 0)
         {
-            std::size_t block_num = inl / 64;
+            std::size_t block_num = inl / BLOCK_SIZE;
             this->update_blocks(in, block_num);
             in += block_num * BLOCK_SIZE, inl -= block_num * BLOCK_SIZE;
             if (inl)
-- 
2.43.0


From f22da023fb530bd61e20385a1fcce4aae107f64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 07/42] fix: GHash reset and set_key keep the previous
 message's buffered bytes

---
 include/gmlib/ghash/ghash.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gmlib/ghash/ghash.h b/include/gmlib/ghash/ghash.h
index f759cc8..8f45394 100644
--- a/include/gmlib/ghash/ghash.h
+++ b/include/gmlib/ghash/ghash.h
@@ -37,11 +37,13 @@ public:
 
     void reset() noexcept
     {
+        this->Hash<alg::GHASH_BLOCK_SIZE>::reset();
         alg::ghash_reset(&ctx_);
     }
 
     void set_key(const std::uint8_t H[16]) noexcept
     {
+        this->Hash<alg::GHASH_BLOCK_SIZE>::reset();
         alg::ghash_init(&ctx_, H);
     }
 
-- 
2.43.0


From a252ab33a2fccc75f3973a3e6cd9459bbfa71a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:52 +0000
Subject: [PATCH 08/42] fix: SM3 reference compression shifts a 32-bit word by
 32 when rotating by zero

---
 src/sm3/sm3_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sm3/sm3_common.cpp b/src/sm3/sm3_common.cpp
index 5e2dff2..1877d68 100644
--- a/src/sm3/sm3_common.cpp
+++ b/src/sm3/sm3_common.cpp
@@ -28,7 +28,7 @@ namespace sm3::internal::common {
 
 static inline std::uint32_t rotl(std::uint32_t x, int n) noexcept
 {
-    return (x << n) | (x >> (32 - n));
+    return (x << n) | (x >> ((32 - n) & 31));
 }
 
 static inline std::uint32_t P0(std::uint32_t x) noexcept
-- 
2.43.0


From 2446e4821ea49d91fad057ce70c717f2b8802170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 09/42] fix: mont256_neg of zero returns the unreduced modulus
 (32-bit limbs)

---
 src/number/mont256_common.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/number/mont256_common.cpp b/src/number/mont256_common.cpp
index a9ff88d..58a8e39 100644
--- a/src/number/mont256_common.cpp
+++ b/src/number/mont256_common.cpp
@@ -143,6 +143,7 @@ void mont256_neg(const Mont256CTX*   ctx,
     if (uint256_equal_zero(num))
     {
         uint256_set_zero(ret);
+        return;
     }
     uint256_sub_borrow(ret, ctx->P, num);
 }
-- 
2.43.0


From b66fef9df6be4469331dd7b1aabd2f311bf47431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 10/42] fix: mont256_pow with exponent zero returns 1 outside
 Montgomery form

---
 src/number/mont256_common.cpp | 2 +-
 src/number/mont256_x64.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/number/mont256_common.cpp b/src/number/mont256_common.cpp
index 58a8e39..e801fcc 100644
--- a/src/number/mont256_common.cpp
+++ b/src/number/mont256_common.cpp
@@ -197,7 +197,7 @@ void mont256_pow(const Mont256CTX*   ctx,
     }
     if (uint256_equal_zero(exponent))
     {
-        uint256_set_one(power);
+        mont256_set_one(ctx, power);
         return;
     }
 
diff --git a/src/number/mont256_x64.cpp b/src/number/mont256_x64.cpp
index d7a9caa..3d58aa8 100644
--- a/src/number/mont256_x64.cpp
+++ b/src/number/mont256_x64.cpp
@@ -252,7 +252,7 @@ void mont256_pow(const Mont256CTX*   ctx,
     }
     if (uint256_equal_zero(exponent))
     {
-        uint256_set_one(power);
+        mont256_set_one(ctx, power);
         return;
     }
 
-- 
2.43.0


From de726ae5488697dd6a788eb1ccb32814a3ee8556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 11/42] fix: mont256_tpl leaves results unreduced for moduli
 below 2^255 (32-bit limbs)

---
 src/number/mont256_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/number/mont256_common.cpp b/src/number/mont256_common.cpp
index e801fcc..db14f1c 100644
--- a/src/number/mont256_common.cpp
+++ b/src/number/mont256_common.cpp
@@ -130,7 +130,7 @@ void mont256_tpl(const Mont256CTX*   ctx,
     {
         carry += uint256_sub_borrow(product, product, ctx->P);
     }
-    if (uint256_cmp(product, ctx->P) >= 0)
+    while (uint256_cmp(product, ctx->P) >= 0)
     {
         uint256_sub_borrow(product, product, ctx->P);
     }
-- 
2.43.0


From 2ebc08b8833e90f34daad705c4a694b048512b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 12/42] fix: mpz_cmp compares from the least significant limb
 (64-bit limbs)

---
 src/number/mpz_x64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/number/mpz_x64.cpp b/src/number/mpz_x64.cpp
index 551a411..f02ffaf 100644
--- a/src/number/mpz_x64.cpp
+++ b/src/number/mpz_x64.cpp
@@ -94,8 +94,8 @@ int mpz_cmp(const std::uint64_t* a,
     for (std::size_t i = 0; i < limb_size; i++)
     {
         std::size_t pos = limb_size - 1 - i;
-        if (a[i] > b[i]) return 1;
-        if (a[i] < b[i]) return -1;
+        if (a[pos] > b[pos]) return 1;
+        if (a[pos] < b[pos]) return -1;
     }
     return 0;
 }
-- 
2.43.0


From 8da08383fa963584e6f0d820c35be31cc160e13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 13/42] fix: SM2 point addition is wrong for the point at
 infinity and for equal or opposite points

---
 src/sm2/sm2p256v1.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/sm2/sm2p256v1.cpp b/src/sm2/sm2p256v1.cpp
index 8046bd8..abc00e5 100644
--- a/src/sm2/sm2p256v1.cpp
+++ b/src/sm2/sm2p256v1.cpp
@@ -525,6 +525,16 @@ void sm2_ec_j_add(sm2_ec_j R, const sm2_ec_j P, const sm2_ec_j Q) noexcept
 #define Z2 Q[2]
 
     sm2_fp_t Z1Z1, Z2Z2, U1, U2, S1, S2, H, I, J, r, V;
+    if (sm2_ec_j_is_inf(P))
+    {
+        sm2_ec_j_cpy(R, Q);
+        return;
+    }
+    if (sm2_ec_j_is_inf(Q))
+    {
+        sm2_ec_j_cpy(R, P);
+        return;
+    }
     sm2_fp_sqr(Z1Z1, Z1);
     sm2_fp_sqr(Z2Z2, Z2);
     sm2_fp_mul(U1, X1, Z2Z2);
@@ -598,10 +608,27 @@ void sm2_ec_j_add_a(sm2_ec_j R, const sm2_ec_j P, const sm2_ec_a Q) noexcept
 
     sm2_fp_t Z1Z1, U2, S2, H, HH, I, J, r, V;
 
+    if (sm2_ec_j_is_inf(P))
+    {
+        sm2_ec_j_from_a(R, Q);
+        return;
+    }
     sm2_fp_sqr(Z1Z1, Z1);     // Z1Z1 = Z1^2
     sm2_fp_mul(U2, X2, Z1Z1); //  U2 = X2*Z1Z1
     sm2_fp_mul(S2, Y2, Z1);
     sm2_fp_mul(S2, S2, Z1Z1); //  S2 = Y2*Z1*Z1Z1
+    if (sm2_fp_equal(U2, X1))
+    {
+        if (sm2_fp_equal(S2, Y1))
+        {
+            sm2_ec_j_dbl(R, P);
+        }
+        else
+        {
+            sm2_ec_j_set_inf(R);
+        }
+        return;
+    }
     sm2_fp_sub(H, U2, X1);    // H = U2-X1
     sm2_fp_sqr(HH, H);        // HH = H^2
     sm2_fp_dbl(I, HH);
-- 
2.43.0


From 5606a759c4f7c8f0827e7dae84abe97ff37a3a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 14/42] fix: SM2 point decoding reads past the end of a short
 encoding

---
 src/sm2/sm2p256v1.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sm2/sm2p256v1.cpp b/src/sm2/sm2p256v1.cpp
index abc00e5..bdb3df4 100644
--- a/src/sm2/sm2p256v1.cpp
+++ b/src/sm2/sm2p256v1.cpp
@@ -463,11 +463,19 @@ int sm2_ec_a_from_bytes(sm2_ec_a            R,
     if (in[0] == 0x04 || in[0] == 0x06 || in[0] == 0x07)
     {
         *read_n = 65;
+        if (inl < 65)
+        {
+            return -1;
+        }
         sm2_ec_a_from_bytes04(R, in + 1);
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
     {
         *read_n = 33;
+        if (inl < 33)
+        {
+            return -1;
+        }
         sm2_fp_from_bytes(R[0], in + 1);
         int y_hat = in[0] == 0x02 ? 0 : 1;
         if (sm2_ec_recover_y(R[1], R[0], y_hat))
-- 
2.43.0


From 0baa6977a357c46b1dd3d047715d041611d4af06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 15/42] fix: SM2 points with coordinates outside the field are
 accepted

---
 include/gmlib/sm2/sm2.h |  7 ++++++-
 src/sm2/sm2p256v1.cpp   | 16 ++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index 12be82a..2b0d105 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -354,9 +354,14 @@ inline void SM2PublicKey<Hash>::set_pub(const std::uint8_t x[32],
                                         const std::uint8_t y[32])
 {
     internal::sm2_ec_a T;
+    internal::sm2_bn_t bx, by, p;
+    internal::sm2_bn_from_bytes(bx, x);
+    internal::sm2_bn_from_bytes(by, y);
+    internal::sm2_bn_from_bytes(p, internal::SM2_CURVE_P);
     internal::sm2_fp_from_bytes(T[0], x);
     internal::sm2_fp_from_bytes(T[1], y);
-    if (!internal::sm2_ec_a_check(T))
+    if (internal::sm2_bn_cmp(bx, p) >= 0 || internal::sm2_bn_cmp(by, p) >= 0 ||
+        !internal::sm2_ec_a_check(T))
     {
         throw std::runtime_error("invalid sm2p256v1 PublicKey");
     }
diff --git a/src/sm2/sm2p256v1.cpp b/src/sm2/sm2p256v1.cpp
index bdb3df4..aa5c4a1 100644
--- a/src/sm2/sm2p256v1.cpp
+++ b/src/sm2/sm2p256v1.cpp
@@ -451,6 +451,14 @@ static int sm2_ec_recover_y(sm2_fp_t y, const sm2_fp_t x, int y_hat) noexcept
     return 0;
 }
 
+// in < p ?
+static bool sm2_fp_is_canonical(const std::uint8_t in[32]) noexcept
+{
+    sm2_bn_t t;
+    sm2_bn_from_bytes(t, in);
+    return number::uint256_cmp(t, P.v) < 0;
+}
+
 int sm2_ec_a_from_bytes(sm2_ec_a            R,
                         std::size_t*        read_n,
                         const std::uint8_t* in,
@@ -467,6 +475,10 @@ int sm2_ec_a_from_bytes(sm2_ec_a            R,
         {
             return -1;
         }
+        if (!sm2_fp_is_canonical(in + 1) || !sm2_fp_is_canonical(in + 33))
+        {
+            return -1;
+        }
         sm2_ec_a_from_bytes04(R, in + 1);
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
@@ -476,6 +488,10 @@ int sm2_ec_a_from_bytes(sm2_ec_a            R,
         {
             return -1;
         }
+        if (!sm2_fp_is_canonical(in + 1))
+        {
+            return -1;
+        }
         sm2_fp_from_bytes(R[0], in + 1);
         int y_hat = in[0] == 0x02 ? 0 : 1;
         if (sm2_ec_recover_y(R[1], R[0], y_hat))
-- 
2.43.0


From a5a5e869925b01d3a4ecbc7e4d98f01a6fb5539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 16/42] fix: SM2 verification accepts signatures whose point is
 the point at infinity

---
 include/gmlib/sm2/sm2.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index 2b0d105..5f78a10 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -465,6 +465,10 @@ inline bool SM2PublicKey<Hash>::verify_(const std::uint8_t  sig_r[32],
     internal::sm2_ec_j_mul_g(sG.j, sig_s);
     internal::sm2_ec_j_mul_a(tP.j, t, tP.a);
     internal::sm2_ec_j_add(tP.j, sG.j, tP.j);
+    if (internal::sm2_ec_j_is_inf(tP.j))
+    {
+        return false;
+    }
     internal::sm2_ec_j_to_a(tP.a, tP.j);
     // R = e' + x1' mod n
     internal::sm2_fn_from_fp(tmp.fn, tP.a[0]);
-- 
2.43.0


From 4223b0bdaf0ac8445be26164fbcbeb8061b1d2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 17/42] fix: SM2 verification terminates the program for an
 identity of 8192 bytes or more

---
 include/gmlib/sm2/sm2.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index 5f78a10..f195f03 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -444,6 +444,11 @@ inline bool SM2PublicKey<Hash>::verify_(const std::uint8_t  sig_r[32],
     {
         return false;
     }
+    // the bit length of id does not fit 16 bits: sign cannot have produced it
+    if (id_len > UINT16_MAX / 8)
+    {
+        return false;
+    }
     // H(Z || M)
     internal::sm2_compute_z<Hash>(Z, id, id_len, x_, y_);
     Hash hash;
-- 
2.43.0


From 2e291030a3e34841cee9799ca253492c4ff5f56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 18/42] fix: SM2 key generation can produce the private key n-1

---
 include/gmlib/sm2/sm2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index f195f03..15b2c5e 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -571,7 +571,7 @@ inline void SM2PrivateKey<Hash>::gen_priv(rng::Rng& rng)
     internal::sm2_bn_t d;
     rng.gen(priv_key, 32);
     internal::sm2_bn_from_bytes(d, priv_key);
-    internal::sm2_bn_mod_n_sub1(d);
+    internal::sm2_bn_mod_n_sub2(d);
     internal::sm2_bn_add_uint32(d, d, 1);
     internal::sm2_bn_to_bytes(priv_, d);
     // set pub
-- 
2.43.0


From a3d57d5f133a2dce835abfcb6b0862f2bdeef000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 19/42] fix: SM9 square root of zero is reported as nonexistent

---
 src/sm9/sm9_field.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 9be388b..c03521c 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -346,7 +346,8 @@ int sm9_fp_sqrt(sm9_fp_t r, const sm9_fp_t a) noexcept
     // if z=-1: return 2^(2u+1) * g^(u+1)
     // other:   return false
     if (!number::mont256_equal_one(&FP_MONT_CTX, z) &&
-        !number::mont256_equal(&FP_MONT_CTX, z, neg1))
+        !number::mont256_equal(&FP_MONT_CTX, z, neg1) &&
+        !number::mont256_equal_zero(&FP_MONT_CTX, z))
     {
         return -1;
     }
-- 
2.43.0


From ae6883d28038bacc54fadf40c7e257ee8d42aec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 20/42] fix: SM9 point addition is wrong for the point at
 infinity and for equal or opposite points

---
 src/sm9/sm9_field.cpp | 54 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index c03521c..f2da30c 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1130,6 +1130,16 @@ void sm9_ec_j_add(sm9_ec_j R, const sm9_ec_j P, const sm9_ec_j Q) noexcept
 #define Y2 Q[1]
 #define Z2 Q[2]
 
+    if (sm9_ec_j_is_inf(P))
+    {
+        sm9_ec_j_cpy(R, Q);
+        return;
+    }
+    if (sm9_ec_j_is_inf(Q))
+    {
+        sm9_ec_j_cpy(R, P);
+        return;
+    }
     sm9_fp_sqr(Z1Z1, Z1);
     sm9_fp_sqr(Z2Z2, Z2);
     sm9_fp_mul(U1, X1, Z2Z2);
@@ -1203,10 +1213,27 @@ void sm9_ec_j_add_a(sm9_ec_j R, const sm9_ec_j P, const sm9_ec_a Q) noexcept
 
     sm9_fp_t Z1Z1, U2, S2, H, HH, I, J, r, V;
 
+    if (sm9_ec_j_is_inf(P))
+    {
+        sm9_ec_j_from_a(R, Q);
+        return;
+    }
     sm9_fp_sqr(Z1Z1, Z1);     // Z1Z1 = Z1^2
     sm9_fp_mul(U2, X2, Z1Z1); //  U2 = X2*Z1Z1
     sm9_fp_mul(S2, Y2, Z1);
     sm9_fp_mul(S2, S2, Z1Z1); //  S2 = Y2*Z1*Z1Z1
+    if (sm9_fp_equal(U2, X1))
+    {
+        if (sm9_fp_equal(S2, Y1))
+        {
+            sm9_ec_j_dbl(R, P);
+        }
+        else
+        {
+            sm9_ec_j_set_inf(R);
+        }
+        return;
+    }
     sm9_fp_sub(H, U2, X1);    // H = U2-X1
     sm9_fp_sqr(HH, H);        // HH = H^2
     sm9_fp_dbl(I, HH);
@@ -1537,6 +1564,16 @@ void sm9_ec2_j_add(sm9_ec2_j R, const sm9_ec2_j P, const sm9_ec2_j Q) noexcept
 #define Y2 Q[1]
 #define Z2 Q[2]
 
+    if (sm9_ec2_j_is_inf(P))
+    {
+        sm9_ec2_j_cpy(R, Q);
+        return;
+    }
+    if (sm9_ec2_j_is_inf(Q))
+    {
+        sm9_ec2_j_cpy(R, P);
+        return;
+    }
     sm9_fp2_sqr(Z1Z1, Z1);
     sm9_fp2_sqr(Z2Z2, Z2);
     sm9_fp2_mul(U1, X1, Z2Z2);
@@ -1610,10 +1647,27 @@ void sm9_ec2_j_add_a(sm9_ec2_j R, const sm9_ec2_j P, const sm9_ec2_a Q) noexcept
 
     sm9_fp2_t Z1Z1, U2, S2, H, HH, I, J, r, V;
 
+    if (sm9_ec2_j_is_inf(P))
+    {
+        sm9_ec2_j_from_a(R, Q);
+        return;
+    }
     sm9_fp2_sqr(Z1Z1, Z1);     // Z1Z1 = Z1^2
     sm9_fp2_mul(U2, X2, Z1Z1); //  U2 = X2*Z1Z1
     sm9_fp2_mul(S2, Y2, Z1);
     sm9_fp2_mul(S2, S2, Z1Z1); //  S2 = Y2*Z1*Z1Z1
+    if (sm9_fp2_equal(U2, X1))
+    {
+        if (sm9_fp2_equal(S2, Y1))
+        {
+            sm9_ec2_j_dbl(R, P);
+        }
+        else
+        {
+            sm9_ec2_j_set_inf(R);
+        }
+        return;
+    }
     sm9_fp2_sub(H, U2, X1);    // H = U2-X1
     sm9_fp2_sqr(HH, H);        // HH = H^2
     sm9_fp2_dbl(I, HH);
-- 
2.43.0


From 758e96f3f5828bad2f14e7f0430c1db135f91a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 21/42] fix: SM9 F_p^12 power with exponent zero reads past the
 exponent

---
 src/sm9/sm9_field.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index f2da30c..9af812c 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -928,7 +928,12 @@ void sm9_fp12_pow(sm9_fp12_t         r,
         sm9_fp12_mul(lut_table[j], lut_table[j - 1], a);
     }
     // compute power
-    while (e_u8[i] == 0) i++;
+    while (i < 32 && e_u8[i] == 0) i++;
+    if (i == 32) // a^0 = 1
+    {
+        sm9_fp12_set_one(r);
+        return;
+    }
     if (e_u8[i] > 0xF)
     {
         int index = (e_u8[i] >> 4) & 0xF;
-- 
2.43.0


From 6de9370e77baea5fa53a5afcf7b83b5a50eb4ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 22/42] fix: SM9 point decoding reads past the end of a short
 encoding

---
 src/sm9/sm9_field.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 9af812c..639aee5 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1074,11 +1074,19 @@ int sm9_ec_a_from_bytes(sm9_ec_a            R,
     if (in[0] == 0x04 || in[0] == 0x06 || in[0] == 0x07)
     {
         *read_n = 65;
+        if (inl < 65)
+        {
+            return -1;
+        }
         sm9_ec_a_from_bytes04(R, in + 1);
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
     {
         *read_n = 33;
+        if (inl < 33)
+        {
+            return -1;
+        }
         sm9_fp_from_bytes(R[0], in + 1);
         int y_hat = in[0] == 0x02 ? 0 : 1;
         if (sm9_ec_recover_y(R[1], R[0], y_hat))
@@ -1514,6 +1522,10 @@ int sm9_ec2_a_from_bytes(sm9_ec2_a           R,
     if (in[0] == 0x04 || in[0] == 0x06 || in[0] == 0x07)
     {
         *read_n = 129;
+        if (inl < 129)
+        {
+            return -1;
+        }
         sm9_ec2_a_from_bytes04(R, in + 1);
         return 0;
     }
-- 
2.43.0


From b7285e6cb19ab6f663282a9be5e6fd31edba361d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 23/42] fix: SM9 points with coordinates outside the field are
 accepted

---
 include/gmlib/sm9/sm9.h | 17 +++++++++++++++--
 src/sm9/sm9_field.cpp   | 21 +++++++++++++++++++++
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/include/gmlib/sm9/sm9.h b/include/gmlib/sm9/sm9.h
index ab69cbe..f0829a0 100644
--- a/include/gmlib/sm9/sm9.h
+++ b/include/gmlib/sm9/sm9.h
@@ -360,9 +360,17 @@ inline void SM9SignMasterPublicKey<Hash>::set_pub(const std::uint8_t x[64],
                                                   const std::uint8_t y[64])
 {
     internal::sm9_ec2_a T;
+    internal::sm9_bn_t  c, p;
+    bool                canonical = true;
+    internal::sm9_bn_from_bytes(p, internal::SM9_CURVE_P);
+    for (const std::uint8_t* in : {x, x + 32, y, y + 32})
+    {
+        internal::sm9_bn_from_bytes(c, in);
+        canonical = canonical && internal::sm9_bn_cmp(c, p) < 0;
+    }
     internal::sm9_fp2_from_bytes(T[0], x);
     internal::sm9_fp2_from_bytes(T[1], y);
-    if (!internal::sm9_ec2_a_check(T))
+    if (!canonical || !internal::sm9_ec2_a_check(T))
     {
         throw std::runtime_error("invalid sm9 SignPublicKey");
     }
@@ -436,9 +444,14 @@ inline void SM9SignPrivateKey<Hash>::set_priv(const std::uint8_t priv_x[32],
                                               const std::uint8_t pub_y[64])
 {
     internal::sm9_ec_a T;
+    internal::sm9_bn_t bx, by, p;
+    internal::sm9_bn_from_bytes(bx, priv_x);
+    internal::sm9_bn_from_bytes(by, priv_y);
+    internal::sm9_bn_from_bytes(p, internal::SM9_CURVE_P);
     internal::sm9_fp_from_bytes(T[0], priv_x);
     internal::sm9_fp_from_bytes(T[1], priv_y);
-    if (!internal::sm9_ec_a_check(T))
+    if (internal::sm9_bn_cmp(bx, p) >= 0 || internal::sm9_bn_cmp(by, p) >= 0 ||
+        !internal::sm9_ec_a_check(T))
     {
         throw std::runtime_error("invalid sm9 SignPrivateKey");
     }
diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 639aee5..0954e5a 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1062,6 +1062,14 @@ static int sm9_ec_recover_y(sm9_fp_t y, const sm9_fp_t x, int y_hat) noexcept
     return 0;
 }
 
+// in < p ?
+static bool sm9_fp_is_canonical(const std::uint8_t in[32]) noexcept
+{
+    sm9_bn_t t;
+    sm9_bn_from_bytes(t, in);
+    return number::uint256_cmp(t, P.v) < 0;
+}
+
 int sm9_ec_a_from_bytes(sm9_ec_a            R,
                         std::size_t*        read_n,
                         const std::uint8_t* in,
@@ -1078,6 +1086,10 @@ int sm9_ec_a_from_bytes(sm9_ec_a            R,
         {
             return -1;
         }
+        if (!sm9_fp_is_canonical(in + 1) || !sm9_fp_is_canonical(in + 33))
+        {
+            return -1;
+        }
         sm9_ec_a_from_bytes04(R, in + 1);
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
@@ -1087,6 +1099,10 @@ int sm9_ec_a_from_bytes(sm9_ec_a            R,
         {
             return -1;
         }
+        if (!sm9_fp_is_canonical(in + 1))
+        {
+            return -1;
+        }
         sm9_fp_from_bytes(R[0], in + 1);
         int y_hat = in[0] == 0x02 ? 0 : 1;
         if (sm9_ec_recover_y(R[1], R[0], y_hat))
@@ -1526,6 +1542,11 @@ int sm9_ec2_a_from_bytes(sm9_ec2_a           R,
         {
             return -1;
         }
+        if (!sm9_fp_is_canonical(in + 1) || !sm9_fp_is_canonical(in + 33) ||
+            !sm9_fp_is_canonical(in + 65) || !sm9_fp_is_canonical(in + 97))
+        {
+            return -1;
+        }
         sm9_ec2_a_from_bytes04(R, in + 1);
         return 0;
     }
-- 
2.43.0


From 625ac1d80d15c5d6ce38bc468c898525c615126f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 24/42] fix: SM9 G2 point decoding accepts points that are not
 on the curve

---
 src/sm9/sm9_field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 0954e5a..7f2ba8e 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1548,7 +1548,7 @@ int sm9_ec2_a_from_bytes(sm9_ec2_a           R,
             return -1;
         }
         sm9_ec2_a_from_bytes04(R, in + 1);
-        return 0;
+        return sm9_ec2_a_check(R) ? 0 : -1;
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
     {
-- 
2.43.0


From aad3d9ea07da581fa009b14ece17c9ad5063f1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 25/42] fix: SM9 G2 point encoding overlaps the two coordinates
 and takes the parity from the wrong byte

---
 src/sm9/sm9_field.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 7f2ba8e..48e8d0c 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1496,13 +1496,13 @@ void sm9_ec2_a_neg(sm9_ec2_a R, const sm9_ec2_a P) noexcept
 void sm9_ec2_a_to_bytes04(std::uint8_t out[128], const sm9_ec2_a P) noexcept
 {
     sm9_fp2_to_bytes(out + 0, P[0]);
-    sm9_fp2_to_bytes(out + 32, P[1]);
+    sm9_fp2_to_bytes(out + 64, P[1]);
 }
 
 void sm9_ec2_a_from_bytes04(sm9_ec2_a R, const std::uint8_t in[128]) noexcept
 {
     sm9_fp2_from_bytes(R[0], in + 0);
-    sm9_fp2_from_bytes(R[1], in + 32);
+    sm9_fp2_from_bytes(R[1], in + 64);
 }
 
 void sm9_ec2_a_to_bytes_uncompressed(std::uint8_t    out[129],
@@ -1516,14 +1516,14 @@ void sm9_ec2_a_to_bytes_compressed(std::uint8_t    out[65],
                                    const sm9_ec2_a P) noexcept
 {
     sm9_fp2_to_bytes(out + 1, P[1]);
-    out[0] = ((out[32] & 1) == 0) ? 0x02 : 0x03;
+    out[0] = ((out[64] & 1) == 0) ? 0x02 : 0x03;
     sm9_fp2_to_bytes(out + 1, P[0]);
 }
 
 void sm9_ec2_a_to_bytes_mix(std::uint8_t out[129], const sm9_ec2_a P) noexcept
 {
     sm9_ec2_a_to_bytes04(out + 1, P);
-    out[0] = ((out[64] & 1) == 0) ? 0x06 : 0x07;
+    out[0] = ((out[128] & 1) == 0) ? 0x06 : 0x07;
 }
 
 int sm9_ec2_a_from_bytes(sm9_ec2_a           R,
-- 
2.43.0


From 98fc4c1ee27f65ed76ac7c48fd317c9dfccf053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 26/42] fix: SM9 verification accepts any point when [h1]P2 +
 Ppub is the point at infinity

---
 include/gmlib/sm9/sm9.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/gmlib/sm9/sm9.h b/include/gmlib/sm9/sm9.h
index f0829a0..8aa7d83 100644
--- a/include/gmlib/sm9/sm9.h
+++ b/include/gmlib/sm9/sm9.h
@@ -411,6 +411,14 @@ inline bool SM9SignMasterPublicKey<Hash>::verify(
     {
         return false;
     }
+    // check h in [1, N-1]
+    internal::sm9_bn_t h_bn, N;
+    internal::sm9_bn_from_bytes(h_bn, h);
+    internal::sm9_bn_from_bytes(N, internal::SM9_CURVE_N);
+    if (internal::sm9_bn_equal_zero(h_bn) || internal::sm9_bn_cmp(h_bn, N) >= 0)
+    {
+        return false;
+    }
     if (internal::sm9_ec_a_from_bytes(S, &size, sig + 32, sig_len - 32))
     {
         return false;
@@ -426,6 +434,10 @@ inline bool SM9SignMasterPublicKey<Hash>::verify(
     //  P = [h1]P2 + Ppub
     internal::sm9_ec2_j_mul_g(T.j, h_);
     internal::sm9_ec2_j_add_a(T.j, T.j, P_);
+    if (internal::sm9_ec2_j_is_inf(T.j))
+    {
+        return false;
+    }
     internal::sm9_ec2_j_to_a(T.a, T.j);
     // w' = e(S', P) * t
     internal::sm9_pairing(w, S, T.a);
-- 
2.43.0


From 9a562798e572ac080a17fc166ee584f96171715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 27/42] fix: ASN.1 decoding accepts a length beyond the end of
 the input

---
 src/asn1/asn1.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 066606d..7c431e6 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -154,6 +154,10 @@ int asn1_decode_tlv(Asn1TLV*            tlv,
     }
     in += n, inl -= n, *read_num += n;
     // value
+    if (tlv->length > inl)
+    {
+        return -1;
+    }
     tlv->value = in;
     *read_num += tlv->length;
     return 0;
-- 
2.43.0


From f6f230f29c303c5d49e109424ce9029536234749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 28/42] fix: ASN.1 length computation overflows its buffer for
 lengths of 2^56 or more

---
 src/asn1/asn1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 7c431e6..e458cbb 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -231,7 +231,7 @@ const char* asn1_tag_number_name(Asn1TagNumber tag_number) noexcept
 
 std::size_t asn1_encode_tlv_outl(std::size_t value_length) noexcept
 {
-    std::uint8_t l_buf[sizeof(std::size_t)];
+    std::uint8_t l_buf[1 + sizeof(std::size_t)];
     std::size_t  l_size;
     asn1_encode_length_octets(l_buf, &l_size, value_length);
     return 1 + l_size + value_length;
-- 
2.43.0


From 0a7b425f5e291bf555780345db9b3eb8b4e0079f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 29/42] fix: ASN.1 INTEGER encoding is wrong for values with a
 set high bit or leading zero bytes

---
 src/asn1/asn1.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index e458cbb..efaf35c 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -259,6 +259,8 @@ static std::size_t asn1_encode_integer_value_length(
     }
     else
     {
+        // DER: minimal number of octets
+        while (data_len > 1 && data[0] == 0) data++, data_len--;
         value_length = (data[0] < 0x80) ? data_len : (data_len + 1);
     }
     return value_length;
@@ -354,9 +356,10 @@ void asn1_encode_integer_tlv(std::uint8_t*       out,
     out += n, *outl = n;
     if (data_len)
     {
+        while (data_len > 1 && data[0] == 0) data++, data_len--;
         if (data[0] >= 0x80)
         {
-            *out = 0, *outl += 1;
+            *out = 0, out += 1, *outl += 1;
         }
         std::memmove(out, data, data_len);
         *outl += data_len;
-- 
2.43.0


From d11dcc63044c9617c4230f2813038bffda769442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 30/42] fix: ASN.1 BIT STRING decoding computes the bit length
 from the tag byte

---
 src/asn1/asn1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index efaf35c..588cd64 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -540,7 +540,7 @@ int asn1_decode_bit_string_value(const std::uint8_t** data_ptr,
     }
     *data_ptr    = tlv.value + 1;
     *data_length = tlv.length - 1;
-    *bits_length = 8 * (tlv.length - 1) - in[0];
+    *bits_length = 8 * (tlv.length - 1) - tlv.value[0];
     return 0;
 }
 
-- 
2.43.0


From 4fb20861508ab11e8bda0e6a207503c0f64e69f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 31/42] fix: ASN.1 decoding rejects empty OCTET STRING,
 SEQUENCE and SET

---
 src/asn1/asn1.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 588cd64..ec43a70 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -556,7 +556,7 @@ int asn1_decode_octet_string_value(const std::uint8_t** data_ptr,
     {
         return err;
     }
-    if (tlv.tag_number != ASN1_TAG_OCTET_STRING || tlv.length == 0)
+    if (tlv.tag_number != ASN1_TAG_OCTET_STRING)
     {
         return -1;
     }
@@ -597,7 +597,7 @@ int asn1_decode_sequence_value(const std::uint8_t** value_ptr,
         return err;
     }
     if (tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
-        tlv.tag_number != ASN1_TAG_SEQUENCE || tlv.length == 0)
+        tlv.tag_number != ASN1_TAG_SEQUENCE)
     {
         return -1;
     }
@@ -620,7 +620,7 @@ int asn1_decode_set_value(const std::uint8_t** value_ptr,
         return err;
     }
     if (tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
-        tlv.tag_number != ASN1_TAG_SET || tlv.length == 0)
+        tlv.tag_number != ASN1_TAG_SET)
     {
         return -1;
     }
-- 
2.43.0


From dda384fa2d7b743c6136c068b1aa095c4fa8122a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 32/42] fix: ASN.1 decoding ignores the tag class

---
 src/asn1/asn1.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index ec43a70..83b4a46 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -461,7 +461,8 @@ int asn1_decode_boolean_value(bool*               ret,
     {
         return err;
     }
-    if (tlv.tag_pc != ASN1_TAG_PC_PRIMITIVE ||
+    if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
+        tlv.tag_pc != ASN1_TAG_PC_PRIMITIVE ||
         tlv.tag_number != ASN1_TAG_BOOLEAN || tlv.length != 1)
     {
         return -1;
@@ -482,7 +483,8 @@ int asn1_decode_integer_value(const std::uint8_t** data_ptr,
     {
         return err;
     }
-    if (tlv.tag_pc != ASN1_TAG_PC_PRIMITIVE ||
+    if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
+        tlv.tag_pc != ASN1_TAG_PC_PRIMITIVE ||
         tlv.tag_number != ASN1_TAG_INTEGER || tlv.length == 0)
     {
         return -1;
@@ -525,7 +527,8 @@ int asn1_decode_bit_string_value(const std::uint8_t** data_ptr,
     {
         return err;
     }
-    if (tlv.tag_number != ASN1_TAG_BIT_STRING || tlv.length == 0)
+    if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
+        tlv.tag_number != ASN1_TAG_BIT_STRING || tlv.length == 0)
     {
         return -1;
     }
@@ -556,7 +559,8 @@ int asn1_decode_octet_string_value(const std::uint8_t** data_ptr,
     {
         return err;
     }
-    if (tlv.tag_number != ASN1_TAG_OCTET_STRING)
+    if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
+        tlv.tag_number != ASN1_TAG_OCTET_STRING)
     {
         return -1;
     }
@@ -576,7 +580,8 @@ int asn1_decode_null_value(std::size_t*        read_num,
     {
         return err;
     }
-    if (tlv.tag_pc != ASN1_TAG_PC_PRIMITIVE ||
+    if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
+        tlv.tag_pc != ASN1_TAG_PC_PRIMITIVE ||
         tlv.tag_number != ASN1_TAG_NULL || tlv.length != 0)
     {
         return -1;
@@ -596,7 +601,8 @@ int asn1_decode_sequence_value(const std::uint8_t** value_ptr,
     {
         return err;
     }
-    if (tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
+    if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
+        tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
         tlv.tag_number != ASN1_TAG_SEQUENCE)
     {
         return -1;
@@ -619,7 +625,8 @@ int asn1_decode_set_value(const std::uint8_t** value_ptr,
     {
         return err;
     }
-    if (tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
+    if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
+        tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
         tlv.tag_number != ASN1_TAG_SET)
     {
         return -1;
-- 
2.43.0


From 49311e53391df59190ee96dcdc47db76a7251f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 33/42] fix: ASN.1 dump overflows the stack on deeply nested
 input

---
 src/asn1/asn1_dump.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/asn1/asn1_dump.cpp b/src/asn1/asn1_dump.cpp
index 2489002..745ed68 100644
--- a/src/asn1/asn1_dump.cpp
+++ b/src/asn1/asn1_dump.cpp
@@ -5,6 +5,9 @@
 
 namespace asn1 {
 
+/// @brief max nesting depth of the dump (bounds the recursion)
+static constexpr std::size_t ASN1_DUMP_MAX_DEPTH = 256;
+
 static int r_asn1_dump(const std::uint8_t* in,
                        std::size_t         inl,
                        std::size_t         depth) noexcept
@@ -12,6 +15,10 @@ static int r_asn1_dump(const std::uint8_t* in,
     Asn1TLV     tlv;
     std::size_t read_num;
     int         err;
+    if (depth > ASN1_DUMP_MAX_DEPTH)
+    {
+        return -2; // unsupport
+    }
     while (inl)
     {
         err = asn1_decode_tlv(&tlv, &read_num, in, inl);
-- 
2.43.0


From 57b9a5f33bb97515eea15a8978949fb55ca47728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 34/42] fix: ASN.1 dump reports success when a nested encoding
 is invalid

---
 src/asn1/asn1_dump.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/asn1/asn1_dump.cpp b/src/asn1/asn1_dump.cpp
index 745ed68..edbecc0 100644
--- a/src/asn1/asn1_dump.cpp
+++ b/src/asn1/asn1_dump.cpp
@@ -43,7 +43,11 @@ static int r_asn1_dump(const std::uint8_t* in,
         printf(",%s)\n", asn1_tag_pc_name(tlv.tag_pc));
         if (tlv.tag_pc == ASN1_TAG_PC_CONSTRUCTED)
         {
-            r_asn1_dump(tlv.value, tlv.length, depth + 1);
+            err = r_asn1_dump(tlv.value, tlv.length, depth + 1);
+            if (err)
+            {
+                return err;
+            }
         }
         else
         {
-- 
2.43.0


From 6450939d7ee50d4b4db693e597f2185cc29edb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 35/42] fix: SM2 public key DER decoding accepts bit strings of
 a wrong length

---
 src/sm2/sm2p256v1_asn1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sm2/sm2p256v1_asn1.cpp b/src/sm2/sm2p256v1_asn1.cpp
index 6c9d04e..26d50a9 100644
--- a/src/sm2/sm2p256v1_asn1.cpp
+++ b/src/sm2/sm2p256v1_asn1.cpp
@@ -67,7 +67,7 @@ int sm2_public_key_asn1_decode(ASN1_SM2PublicKey*  pub,
     {
         return -1;
     }
-    if (data_length != 65 && data_bits != 65 * 8)
+    if (data_length != 65 || data_bits != 65 * 8)
     {
         return -1;
     }
-- 
2.43.0


From 0d51523b87f297719547611288aef348a763d456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:03 +0000
Subject: [PATCH 36/42] fix: SM2 signature and ciphertext DER decoding ignores
 trailing elements of the SEQUENCE

---
 src/sm2/sm2p256v1_asn1.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sm2/sm2p256v1_asn1.cpp b/src/sm2/sm2p256v1_asn1.cpp
index 26d50a9..c7ebd1c 100644
--- a/src/sm2/sm2p256v1_asn1.cpp
+++ b/src/sm2/sm2p256v1_asn1.cpp
@@ -140,6 +140,11 @@ int sm2_signature_asn1_decode(ASN1_SM2Signature*  sig,
     {
         return -1;
     }
+    seq_value += n, seq_v_len -= n;
+    if (seq_v_len != 0)
+    {
+        return -1;
+    }
     *read_num = inl_save - inl;
     return 0;
 }
@@ -243,6 +248,10 @@ int sm2_cipher_asn1_decode(ASN1_SM2Cipher*     cipher,
         return -1;
     }
     seq_value += n, seq_v_len -= n;
+    if (seq_v_len != 0)
+    {
+        return -1;
+    }
     *read_num = inl_save - inl;
     return 0;
 }
-- 
2.43.0


From a5fc01234893e2cc914154bb3da74e01dd6d0554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:03 +0000
Subject: [PATCH 37/42] fix: SM2 DER decoding rejects integers with leading
 zero bytes and accepts negative ones

---
 include/gmlib/sm2/internal/sm2_asn1.h |  5 ++
 src/sm2/sm2p256v1_asn1.cpp            | 83 +++++++++++++++------------
 2 files changed, 51 insertions(+), 37 deletions(-)

diff --git a/include/gmlib/sm2/internal/sm2_asn1.h b/include/gmlib/sm2/internal/sm2_asn1.h
index f60fa77..18b147b 100644
--- a/include/gmlib/sm2/internal/sm2_asn1.h
+++ b/include/gmlib/sm2/internal/sm2_asn1.h
@@ -18,6 +18,7 @@ namespace sm2::internal {
 typedef struct ASN1_SM2PrivateKey
 {
     const std::uint8_t* value; // INTEGER 256-bit(32-bytes)
+    std::uint8_t value_buf[32]; // storage used by decode for a short INTEGER
 } ASN1_SM2PrivateKey;
 
 static constexpr std::size_t SM2_PRIVATE_KEY_ASN1_ENCODE_MAX_OUTL()
@@ -79,6 +80,8 @@ typedef struct ASN1_SM2Signature
 {
     const std::uint8_t* R; // INTEGER 256-bit(32-bytes)
     const std::uint8_t* S; // INTEGER 256-bit(32-bytes)
+    std::uint8_t R_buf[32]; // storage used by decode for a short INTEGER
+    std::uint8_t S_buf[32]; // storage used by decode for a short INTEGER
 } ASN1_SM2Signature;
 
 static constexpr std::size_t SM2_SIGNATURE_ASN1_ENCODE_MAX_OUTL()
@@ -125,6 +128,8 @@ typedef struct ASN1_SM2Cipher
         const std::uint8_t* value;
         std::size_t         length;
     } CipherText; // OCTET STRING
+    std::uint8_t XCoordinate_buf[32]; // storage used by decode
+    std::uint8_t YCoordinate_buf[32]; // storage used by decode
 } ASN1_SM2Cipher;
 
 std::size_t sm2_cipher_asn1_encode_max_outl(std::size_t C3_length,
diff --git a/src/sm2/sm2p256v1_asn1.cpp b/src/sm2/sm2p256v1_asn1.cpp
index c7ebd1c..dd99b1b 100644
--- a/src/sm2/sm2p256v1_asn1.cpp
+++ b/src/sm2/sm2p256v1_asn1.cpp
@@ -6,6 +6,40 @@
 
 namespace sm2::internal {
 
+/**
+ * @brief           decode a non-negative INTEGER of at most 256 bits
+ * @param value     32-byte value, inside 'in' or 'buf'
+ * @param buf       storage for values shorter than 32 bytes
+ */
+static int sm2_uint256_asn1_decode(const std::uint8_t** value,
+                                   std::uint8_t         buf[32],
+                                   std::size_t*         read_num,
+                                   const std::uint8_t*  in,
+                                   std::size_t          inl)
+{
+    asn1::Asn1TLV       tlv;
+    const std::uint8_t* data;
+    std::size_t         data_length;
+    if (asn1::asn1_decode_integer_value(&data, &data_length, read_num, in,
+                                        inl) ||
+        asn1::asn1_decode_tlv(&tlv, read_num, in, inl))
+    {
+        return -1;
+    }
+    if (tlv.value[0] >= 0x80 || data_length > 32)
+    {
+        return -1;
+    }
+    if (data_length < 32)
+    {
+        std::memset(buf, 0, 32 - data_length);
+        std::memcpy(buf + 32 - data_length, data, data_length);
+        data = buf;
+    }
+    *value = data;
+    return 0;
+}
+
 // ****************************************
 // ********** PrivateKey ******************
 // ****************************************
@@ -27,17 +61,8 @@ int sm2_private_key_asn1_decode(ASN1_SM2PrivateKey* priv,
                                 const std::uint8_t* in,
                                 std::size_t         inl)
 {
-    std::size_t data_length;
-    if (asn1::asn1_decode_integer_value(&priv->value, &data_length, read_num,
-                                        in, inl))
-    {
-        return -1;
-    }
-    if (data_length != 32)
-    {
-        return -1;
-    }
-    return 0;
+    return sm2_uint256_asn1_decode(&priv->value, priv->value_buf, read_num, in,
+                                   inl);
 }
 
 // ****************************************
@@ -111,7 +136,7 @@ int sm2_signature_asn1_decode(ASN1_SM2Signature*  sig,
     std::size_t inl_save = inl, n;
 
     const std::uint8_t* seq_value;
-    std::size_t         seq_v_len, int_1_v_len, int_2_v_len;
+    std::size_t         seq_v_len;
 
     // decode SEQUENCE
     if (asn1::asn1_decode_sequence_value(&seq_value, &seq_v_len, &n, in, inl))
@@ -120,23 +145,15 @@ int sm2_signature_asn1_decode(ASN1_SM2Signature*  sig,
     }
     in += n, inl -= n;
     // decode INTEGER
-    if (asn1::asn1_decode_integer_value(&sig->R, &int_1_v_len, &n, seq_value,
-                                        seq_v_len))
-    {
-        return -1;
-    }
-    if (int_1_v_len != 32)
+    if (sm2_uint256_asn1_decode(&sig->R, sig->R_buf, &n,
+                                seq_value, seq_v_len))
     {
         return -1;
     }
     seq_value += n, seq_v_len -= n;
     // decode INTEGER
-    if (asn1::asn1_decode_integer_value(&sig->S, &int_2_v_len, &n, seq_value,
-                                        seq_v_len))
-    {
-        return -1;
-    }
-    if (int_2_v_len != 32)
+    if (sm2_uint256_asn1_decode(&sig->S, sig->S_buf, &n,
+                                seq_value, seq_v_len))
     {
         return -1;
     }
@@ -207,29 +224,21 @@ int sm2_cipher_asn1_decode(ASN1_SM2Cipher*     cipher,
     std::size_t inl_save = inl, n;
 
     const std::uint8_t* seq_value;
-    std::size_t         seq_v_len, int_1_v_len, int_2_v_len;
+    std::size_t         seq_v_len;
 
     if (asn1::asn1_decode_sequence_value(&seq_value, &seq_v_len, &n, in, inl))
     {
         return -1;
     }
     in += n, inl -= n;
-    if (asn1::asn1_decode_integer_value(&cipher->XCoordinate, &int_1_v_len, &n,
-                                        seq_value, seq_v_len))
-    {
-        return -1;
-    }
-    if (int_1_v_len != 32)
+    if (sm2_uint256_asn1_decode(&cipher->XCoordinate, cipher->XCoordinate_buf, &n,
+                                seq_value, seq_v_len))
     {
         return -1;
     }
     seq_value += n, seq_v_len -= n;
-    if (asn1::asn1_decode_integer_value(&cipher->YCoordinate, &int_2_v_len, &n,
-                                        seq_value, seq_v_len))
-    {
-        return -1;
-    }
-    if (int_2_v_len != 32)
+    if (sm2_uint256_asn1_decode(&cipher->YCoordinate, cipher->YCoordinate_buf, &n,
+                                seq_value, seq_v_len))
     {
         return -1;
     }
-- 
2.43.0


From 0fafde2fc5024a52b0d7e14ed28b96814a9d6c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:41 +0000
Subject: [PATCH 38/42] fix: constructing a CstdRng restarts the sequence
 already delivered in the same second

---
 include/gmlib/rng/cstd_rng.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/gmlib/rng/cstd_rng.h b/include/gmlib/rng/cstd_rng.h
index 570e313..73923e8 100644
--- a/include/gmlib/rng/cstd_rng.h
+++ b/include/gmlib/rng/cstd_rng.h
@@ -13,7 +13,11 @@ class CstdRng : public Rng
 public:
     CstdRng() noexcept
     {
-        std::srand((unsigned int)std::time(nullptr));
+        // std::rand has one state per process: seeding it again within the
+        // same second would repeat the output already delivered
+        static const bool seeded =
+            (std::srand((unsigned int)std::time(nullptr)), true);
+        (void)seeded;
     }
 
 public:
-- 
2.43.0


From fecda97474850ee0c7792655fd09c629d8c952ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 39/42] fix: cpuid scripts read leaf 7 of processors that do
 not have it

---
 demo/cpuid.py  | 4 ++++
 tools/cpuid.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/demo/cpuid.py b/demo/cpuid.py
index 671dce6..8f478d3 100644
--- a/demo/cpuid.py
+++ b/demo/cpuid.py
@@ -183,6 +183,10 @@ def is_set(cpu, leaf, subleaf, reg_idx, bit):
     @param {bit} bit of reg selected by {reg_idx}, 0-based
     """
 
+    # above the highest leaf, the data of another leaf is returned
+    if leaf > cpu(leaf & 0x80000000)[0]:
+        return "--"
+
     regs = cpu(leaf, subleaf)
 
     if (1 << bit) & regs[reg_idx]:
diff --git a/tools/cpuid.py b/tools/cpuid.py
index beb80e5..1303673 100644
--- a/tools/cpuid.py
+++ b/tools/cpuid.py
@@ -183,6 +183,10 @@ def is_set(cpu, leaf, subleaf, reg_idx, bit):
     @param {bit} bit of reg selected by {reg_idx}, 0-based
     """
 
+    # above the highest leaf, the data of another leaf is returned
+    if leaf > cpu(leaf & 0x80000000)[0]:
+        return "--"
+
     regs = cpu(leaf, subleaf)
 
     if (1 << bit) & regs[reg_idx]:
-- 
2.43.0


From 71c413577b91b217a487611d41160283286e9648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:09 +0000
Subject: [PATCH 40/42] fix: sm9.h does not compile when included on its own

---
 include/gmlib/sm9/sm9.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/gmlib/sm9/sm9.h b/include/gmlib/sm9/sm9.h
index 8aa7d83..4f12fa9 100644
--- a/include/gmlib/sm9/sm9.h
+++ b/include/gmlib/sm9/sm9.h
@@ -5,6 +5,7 @@
 #include <gmlib/sm9/internal/sm9_alg.h>
 #include <gmlib/sm9/internal/sm9_field.h>
 
+#include <cstring>
 #include <stdexcept>
 
 namespace sm9 {
-- 
2.43.0


From c794d6e1c21d5458a04f529937399d0f993c6889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:09 +0000
Subject: [PATCH 41/42] fix: GHASH with PCLMUL and SSE2 but without AVX2 does
 not build

---
 src/ghash/ghash_pclmul.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/ghash/ghash_pclmul.cpp b/src/ghash/ghash_pclmul.cpp
index 0d7e2c6..0cec0fe 100644
--- a/src/ghash/ghash_pclmul.cpp
+++ b/src/ghash/ghash_pclmul.cpp
@@ -12,6 +12,7 @@ namespace ghash::internal::pclmul {
  */
 static inline __m128i reflect_xmm(__m128i X)
 {
+#if defined(__SSSE3__) || defined(_MSC_VER)
     __m128i tmp1, tmp2;
     __m128i AND_MASK =
         _mm_set_epi32(0x0f0f0f0f, 0x0f0f0f0f, 0x0f0f0f0f, 0x0f0f0f0f);
@@ -26,6 +27,19 @@ static inline __m128i reflect_xmm(__m128i X)
     tmp2 = _mm_shuffle_epi8(LOWER_MASK, tmp2);
     tmp1 = _mm_xor_si128(tmp1, tmp2);
     return tmp1;
+#else
+    // PSHUFB needs SSSE3, which "-msse2 -mpclmul" does not enable
+    __m128i MASK4 = _mm_set1_epi8(0x0f);
+    __m128i MASK2 = _mm_set1_epi8(0x33);
+    __m128i MASK1 = _mm_set1_epi8(0x55);
+    X = _mm_or_si128(_mm_and_si128(_mm_srli_epi16(X, 4), MASK4),
+                     _mm_slli_epi16(_mm_and_si128(X, MASK4), 4));
+    X = _mm_or_si128(_mm_and_si128(_mm_srli_epi16(X, 2), MASK2),
+                     _mm_slli_epi16(_mm_and_si128(X, MASK2), 2));
+    X = _mm_or_si128(_mm_and_si128(_mm_srli_epi16(X, 1), MASK1),
+                     _mm_slli_epi16(_mm_and_si128(X, MASK1), 1));
+    return X;
+#endif
 }
 
 /**
-- 
2.43.0


From 48b53e9da2f49095b2356694c7d4a0963b71bdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:12 +0000
Subject: [PATCH 42/42] fix: a refused SM9 user key leaves half of it in the
 object

---
 include/gmlib/sm9/sm9.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gmlib/sm9/sm9.h b/include/gmlib/sm9/sm9.h
index 4f12fa9..74e2dce 100644
--- a/include/gmlib/sm9/sm9.h
+++ b/include/gmlib/sm9/sm9.h
@@ -468,9 +468,9 @@ inline void SM9SignPrivateKey<Hash>::set_priv(const std::uint8_t priv_x[32],
     {
         throw std::runtime_error("invalid sm9 SignPrivateKey");
     }
-    internal::sm9_ec_a_cpy(priv_, T);
-
+    // the public key may be refused too: the private key is stored last
     pub_.set_pub(pub_x, pub_y);
+    internal::sm9_ec_a_cpy(priv_, T);
 }
 
 template <class Hash>
-- 
2.43.0

