From a1c9255bdd1711722cf43b9db7b8d95252a10399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 01/34] fix: AES-192 AES-NI key expansion reads 8 bytes past
 the 24-byte user key

---
 src/aes/aes_aesni.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aes/aes_aesni.cpp b/src/aes/aes_aesni.cpp
index cc2cda0..764e276 100644
--- a/src/aes/aes_aesni.cpp
+++ b/src/aes/aes_aesni.cpp
@@ -110,7 +110,7 @@ static void AES_192_Key_Expansion(const unsigned char* userkey,
     __m128i  temp1, temp2, temp3;
     __m128i* Key_Schedule = (__m128i*)key;
     temp1                 = _mm_loadu_si128((__m128i*)userkey);
-    temp3                 = _mm_loadu_si128((__m128i*)(userkey + 16));
+    temp3                 = _mm_loadl_epi64((__m128i*)(userkey + 16));
     Key_Schedule[0]       = temp1;
     Key_Schedule[1]       = temp3;
     temp2                 = _mm_aeskeygenassist_si128(temp3, 0x1);
-- 
2.43.0


From ede96a3942593eecc62eea31bab27720beffa609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:11 +0000
Subject: [PATCH 02/34] fix: block cipher mode update leaves *outl unset when
 the data only tops up the buffer

---
 include/gmlib/block_cipher_mode/block_cipher_mode.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/gmlib/block_cipher_mode/block_cipher_mode.h b/include/gmlib/block_cipher_mode/block_cipher_mode.h
index 92208c0..06bcdb0 100644
--- a/include/gmlib/block_cipher_mode/block_cipher_mode.h
+++ b/include/gmlib/block_cipher_mode/block_cipher_mode.h
@@ -65,6 +65,7 @@ public:
                 this->update_blocks(out, buf_, 1);
                 buf_size_ = 0, out += BLOCK_SIZE;
             }
+            *outl = (std::size_t)(out - out_base);
         }
         if (buf_size_ == 0)
         {
-- 
2.43.0


From 320e19dd1ecf819c21e2f0370911d1415cd7c240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:11 +0000
Subject: [PATCH 03/34] fix: hash update uses a block size of 64 after draining
 the buffer (overflows 16-byte-block hashes)

---
 include/gmlib/hash_lib/hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gmlib/hash_lib/hash.h b/include/gmlib/hash_lib/hash.h
index 67daf11..307ec77 100644
--- a/include/gmlib/hash_lib/hash.h
+++ b/include/gmlib/hash_lib/hash.h
@@ -64,7 +64,7 @@ public:
         }
         if (inl && buf_size_ == 0)
         {
-            std::size_t block_num = inl / 64;
+            std::size_t block_num = inl / BLOCK_SIZE;
             this->update_blocks(in, block_num);
             in += block_num * BLOCK_SIZE, inl -= block_num * BLOCK_SIZE;
             if (inl)
-- 
2.43.0


From 9df0733a73c8744726a7719158c65d6cbf5422eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:11 +0000
Subject: [PATCH 04/34] fix: GHash reset/set_key keep buffered bytes of the
 previous message

---
 include/gmlib/ghash/ghash.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gmlib/ghash/ghash.h b/include/gmlib/ghash/ghash.h
index f759cc8..5f3c41d 100644
--- a/include/gmlib/ghash/ghash.h
+++ b/include/gmlib/ghash/ghash.h
@@ -37,11 +37,13 @@ public:
 
     void reset() noexcept
     {
+        this->hash_lib::Hash<BLOCK_SIZE>::reset();
         alg::ghash_reset(&ctx_);
     }
 
     void set_key(const std::uint8_t H[16]) noexcept
     {
+        this->hash_lib::Hash<BLOCK_SIZE>::reset();
         alg::ghash_init(&ctx_, H);
     }
 
-- 
2.43.0


From 3d8f68e81ae90a060405ee7e6ebd787115b626c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:11 +0000
Subject: [PATCH 05/34] fix: GCM decryption pads with stale data from the
 previous message (shared static buffers)

---
 include/gmlib/block_cipher_mode/gcm_mode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gmlib/block_cipher_mode/gcm_mode.h b/include/gmlib/block_cipher_mode/gcm_mode.h
index b69bb0b..8991b9b 100644
--- a/include/gmlib/block_cipher_mode/gcm_mode.h
+++ b/include/gmlib/block_cipher_mode/gcm_mode.h
@@ -314,7 +314,7 @@ private:
                      const std::uint8_t* in,
                      std::size_t         inl) override
     {
-        static std::uint8_t t[16] = {0}, tag[16];
+        std::uint8_t t[16] = {0}, tag[16];
         if (inl != 0)
         {
             std::size_t nxt_ct_len = ct_len_ + inl;
-- 
2.43.0


From 2d3f880750ea673fab0a3308d6bd868f33379769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 06/34] fix: cipher mode init keeps buffered bytes of the
 previous message

---
 include/gmlib/block_cipher_mode/cbc_mode.h | 2 ++
 include/gmlib/block_cipher_mode/cfb_mode.h | 2 ++
 include/gmlib/block_cipher_mode/ctr_mode.h | 1 +
 include/gmlib/block_cipher_mode/ecb_mode.h | 2 ++
 include/gmlib/block_cipher_mode/gcm_mode.h | 1 +
 include/gmlib/block_cipher_mode/ofb_mode.h | 1 +
 6 files changed, 9 insertions(+)

diff --git a/include/gmlib/block_cipher_mode/cbc_mode.h b/include/gmlib/block_cipher_mode/cbc_mode.h
index cd64d4d..f2c6932 100644
--- a/include/gmlib/block_cipher_mode/cbc_mode.h
+++ b/include/gmlib/block_cipher_mode/cbc_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
@@ -98,6 +99,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::DECRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
diff --git a/include/gmlib/block_cipher_mode/cfb_mode.h b/include/gmlib/block_cipher_mode/cfb_mode.h
index a61604f..2dd5926 100644
--- a/include/gmlib/block_cipher_mode/cfb_mode.h
+++ b/include/gmlib/block_cipher_mode/cfb_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
@@ -93,6 +94,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
diff --git a/include/gmlib/block_cipher_mode/ctr_mode.h b/include/gmlib/block_cipher_mode/ctr_mode.h
index 1561526..6a8729b 100644
--- a/include/gmlib/block_cipher_mode/ctr_mode.h
+++ b/include/gmlib/block_cipher_mode/ctr_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(counter_, iv, Cipher::BLOCK_SIZE);
     }
diff --git a/include/gmlib/block_cipher_mode/ecb_mode.h b/include/gmlib/block_cipher_mode/ecb_mode.h
index 3e3514d..23e9837 100644
--- a/include/gmlib/block_cipher_mode/ecb_mode.h
+++ b/include/gmlib/block_cipher_mode/ecb_mode.h
@@ -28,6 +28,7 @@ public:
 public:
     void init(const std::uint8_t* user_key)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
     }
 
@@ -83,6 +84,7 @@ public:
 public:
     void init(const std::uint8_t* user_key)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::DECRYPTION);
     }
 
diff --git a/include/gmlib/block_cipher_mode/gcm_mode.h b/include/gmlib/block_cipher_mode/gcm_mode.h
index 8991b9b..3a5e53f 100644
--- a/include/gmlib/block_cipher_mode/gcm_mode.h
+++ b/include/gmlib/block_cipher_mode/gcm_mode.h
@@ -49,6 +49,7 @@ public:
         static const std::uint8_t ZERO[16] = {0};
         std::uint8_t              t[16];
 
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         cipher_.encrypt_block(t, ZERO);
         hash.set_key(t);
diff --git a/include/gmlib/block_cipher_mode/ofb_mode.h b/include/gmlib/block_cipher_mode/ofb_mode.h
index 12b3b72..c179faa 100644
--- a/include/gmlib/block_cipher_mode/ofb_mode.h
+++ b/include/gmlib/block_cipher_mode/ofb_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
-- 
2.43.0


From b87338c4fe689f7bbd4efd7c0cf152c951e82c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 07/34] fix: CBC decryption in place xors already overwritten
 ciphertext

---
 include/gmlib/block_cipher_mode/cbc_mode.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/gmlib/block_cipher_mode/cbc_mode.h b/include/gmlib/block_cipher_mode/cbc_mode.h
index f2c6932..a779eb5 100644
--- a/include/gmlib/block_cipher_mode/cbc_mode.h
+++ b/include/gmlib/block_cipher_mode/cbc_mode.h
@@ -126,9 +126,10 @@ private:
             std::memcpy(next_iv, in + REMAIN, BLOCK_SIZE);
 
             cipher_.decrypt_blocks(buffer, in, PARALLEL_NUM);
-            memory_utils::memxor<BLOCK_SIZE>(out, buffer, iv_);
-            std::uint8_t *ptr1 = out + BLOCK_SIZE, *ptr2 = buffer + BLOCK_SIZE;
-            memory_utils::memxor<REMAIN>(ptr1, ptr2, in);
+            memory_utils::memxor<BLOCK_SIZE>(buffer, buffer, iv_);
+            std::uint8_t* ptr = buffer + BLOCK_SIZE;
+            memory_utils::memxor<REMAIN>(ptr, ptr, in);
+            std::memcpy(out, buffer, PARALLEL_BYTES);
             in += PARALLEL_BYTES, out += PARALLEL_BYTES;
             block_num -= PARALLEL_NUM;
 
@@ -140,9 +141,10 @@ private:
             std::memcpy(next_iv, in + remain, BLOCK_SIZE);
 
             cipher_.decrypt_blocks(buffer, in, block_num);
-            memory_utils::memxor<BLOCK_SIZE>(out, buffer, iv_);
-            std::uint8_t *ptr1 = out + BLOCK_SIZE, *ptr2 = buffer + BLOCK_SIZE;
-            memory_utils::memxor_n(ptr1, ptr2, in, remain);
+            memory_utils::memxor<BLOCK_SIZE>(buffer, buffer, iv_);
+            std::uint8_t* ptr = buffer + BLOCK_SIZE;
+            memory_utils::memxor_n(ptr, ptr, in, remain);
+            std::memcpy(out, buffer, remain + BLOCK_SIZE);
 
             std::memcpy(iv_, next_iv, BLOCK_SIZE);
         }
-- 
2.43.0


From 1a4e6a24ac46f6932af04fe7eb8af31530d0a809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:29 +0000
Subject: [PATCH 08/34] fix: mpz_cmp (x64) compares from the least significant
 limb

---
 src/number/mpz_x64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/number/mpz_x64.cpp b/src/number/mpz_x64.cpp
index 551a411..f02ffaf 100644
--- a/src/number/mpz_x64.cpp
+++ b/src/number/mpz_x64.cpp
@@ -94,8 +94,8 @@ int mpz_cmp(const std::uint64_t* a,
     for (std::size_t i = 0; i < limb_size; i++)
     {
         std::size_t pos = limb_size - 1 - i;
-        if (a[i] > b[i]) return 1;
-        if (a[i] < b[i]) return -1;
+        if (a[pos] > b[pos]) return 1;
+        if (a[pos] < b[pos]) return -1;
     }
     return 0;
 }
-- 
2.43.0


From 78c98d570d18801fb3968f1b84304eba1bdeb9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 09/34] fix: mont256_neg (common) returns P instead of zero for
 zero

---
 src/number/mont256_common.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/number/mont256_common.cpp b/src/number/mont256_common.cpp
index a9ff88d..58a8e39 100644
--- a/src/number/mont256_common.cpp
+++ b/src/number/mont256_common.cpp
@@ -143,6 +143,7 @@ void mont256_neg(const Mont256CTX*   ctx,
     if (uint256_equal_zero(num))
     {
         uint256_set_zero(ret);
+        return;
     }
     uint256_sub_borrow(ret, ctx->P, num);
 }
-- 
2.43.0


From 3a854e934feabbd98025835f9ecad18f5bb9612c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 10/34] fix: mont256_pow returns the integer 1 instead of the
 Montgomery one for exponent zero

---
 src/number/mont256_common.cpp | 2 +-
 src/number/mont256_x64.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/number/mont256_common.cpp b/src/number/mont256_common.cpp
index 58a8e39..e801fcc 100644
--- a/src/number/mont256_common.cpp
+++ b/src/number/mont256_common.cpp
@@ -197,7 +197,7 @@ void mont256_pow(const Mont256CTX*   ctx,
     }
     if (uint256_equal_zero(exponent))
     {
-        uint256_set_one(power);
+        mont256_set_one(ctx, power);
         return;
     }
 
diff --git a/src/number/mont256_x64.cpp b/src/number/mont256_x64.cpp
index d7a9caa..3d58aa8 100644
--- a/src/number/mont256_x64.cpp
+++ b/src/number/mont256_x64.cpp
@@ -252,7 +252,7 @@ void mont256_pow(const Mont256CTX*   ctx,
     }
     if (uint256_equal_zero(exponent))
     {
-        uint256_set_one(power);
+        mont256_set_one(ctx, power);
         return;
     }
 
-- 
2.43.0


From f60c3b28642d9f15786b631f13da10f1f4b3a1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:22 +0000
Subject: [PATCH 11/34] fix: point addition mishandles infinity and (mixed
 addition) equal operands

sm2_ec/sm9_ec/sm9_ec2 j_add ignored a point at infinity, and j_add_a
returned (0,0,0) for P + P: [n-2]G computed by sm9_ec_j_mul_a was infinity.
---
 src/sm2/sm2p256v1.cpp | 31 ++++++++++++++++++++++
 src/sm9/sm9_field.cpp | 62 +++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 93 insertions(+)

diff --git a/src/sm2/sm2p256v1.cpp b/src/sm2/sm2p256v1.cpp
index 8046bd8..209e4b5 100644
--- a/src/sm2/sm2p256v1.cpp
+++ b/src/sm2/sm2p256v1.cpp
@@ -524,6 +524,18 @@ void sm2_ec_j_add(sm2_ec_j R, const sm2_ec_j P, const sm2_ec_j Q) noexcept
 #define Y2 Q[1]
 #define Z2 Q[2]
 
+    // O + Q = Q, P + O = P
+    if (sm2_ec_j_is_inf(P))
+    {
+        sm2_ec_j_cpy(R, Q);
+        return;
+    }
+    if (sm2_ec_j_is_inf(Q))
+    {
+        sm2_ec_j_cpy(R, P);
+        return;
+    }
+
     sm2_fp_t Z1Z1, Z2Z2, U1, U2, S1, S2, H, I, J, r, V;
     sm2_fp_sqr(Z1Z1, Z1);
     sm2_fp_sqr(Z2Z2, Z2);
@@ -596,6 +608,13 @@ void sm2_ec_j_add_a(sm2_ec_j R, const sm2_ec_j P, const sm2_ec_a Q) noexcept
 #define X2 Q[0]
 #define Y2 Q[1]
 
+    // O + Q = Q
+    if (sm2_ec_j_is_inf(P))
+    {
+        sm2_ec_j_from_a(R, Q);
+        return;
+    }
+
     sm2_fp_t Z1Z1, U2, S2, H, HH, I, J, r, V;
 
     sm2_fp_sqr(Z1Z1, Z1);     // Z1Z1 = Z1^2
@@ -603,6 +622,18 @@ void sm2_ec_j_add_a(sm2_ec_j R, const sm2_ec_j P, const sm2_ec_a Q) noexcept
     sm2_fp_mul(S2, Y2, Z1);
     sm2_fp_mul(S2, S2, Z1Z1); //  S2 = Y2*Z1*Z1Z1
     sm2_fp_sub(H, U2, X1);    // H = U2-X1
+    if (sm2_fp_equal_zero(H))
+    {
+        if (sm2_fp_equal(S2, Y1))
+        {
+            sm2_ec_j_dbl(R, P);
+        }
+        else
+        {
+            sm2_ec_j_set_inf(R);
+        }
+        return;
+    }
     sm2_fp_sqr(HH, H);        // HH = H^2
     sm2_fp_dbl(I, HH);
     sm2_fp_dbl(I, I);    // I = 4*HH
diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 9be388b..8635905 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1118,6 +1118,18 @@ void sm9_ec_j_add(sm9_ec_j R, const sm9_ec_j P, const sm9_ec_j Q) noexcept
 {
     // http://hyperelliptic.org/EFD/g1p/auto-shortw-jacobian-0.html#addition-add-2007-bl
     // Cost: 11M + 5S + 9add + 4*2.
+    // O + Q = Q, P + O = P
+    if (sm9_ec_j_is_inf(P))
+    {
+        sm9_ec_j_cpy(R, Q);
+        return;
+    }
+    if (sm9_ec_j_is_inf(Q))
+    {
+        sm9_ec_j_cpy(R, P);
+        return;
+    }
+
     sm9_fp_t Z1Z1, Z2Z2, U1, U2, S1, S2, H, I, J, r, V;
 #define X3 R[0]
 #define Y3 R[1]
@@ -1200,6 +1212,13 @@ void sm9_ec_j_add_a(sm9_ec_j R, const sm9_ec_j P, const sm9_ec_a Q) noexcept
 #define X2 Q[0]
 #define Y2 Q[1]
 
+    // O + Q = Q
+    if (sm9_ec_j_is_inf(P))
+    {
+        sm9_ec_j_from_a(R, Q);
+        return;
+    }
+
     sm9_fp_t Z1Z1, U2, S2, H, HH, I, J, r, V;
 
     sm9_fp_sqr(Z1Z1, Z1);     // Z1Z1 = Z1^2
@@ -1207,6 +1226,18 @@ void sm9_ec_j_add_a(sm9_ec_j R, const sm9_ec_j P, const sm9_ec_a Q) noexcept
     sm9_fp_mul(S2, Y2, Z1);
     sm9_fp_mul(S2, S2, Z1Z1); //  S2 = Y2*Z1*Z1Z1
     sm9_fp_sub(H, U2, X1);    // H = U2-X1
+    if (sm9_fp_equal_zero(H))
+    {
+        if (sm9_fp_equal(S2, Y1))
+        {
+            sm9_ec_j_dbl(R, P);
+        }
+        else
+        {
+            sm9_ec_j_set_inf(R);
+        }
+        return;
+    }
     sm9_fp_sqr(HH, H);        // HH = H^2
     sm9_fp_dbl(I, HH);
     sm9_fp_dbl(I, I);    // I = 4*HH
@@ -1525,6 +1556,18 @@ void sm9_ec2_j_add(sm9_ec2_j R, const sm9_ec2_j P, const sm9_ec2_j Q) noexcept
 {
     // http://hyperelliptic.org/EFD/g1p/auto-shortw-jacobian-0.html#addition-add-2007-bl
     // Cost: 11M + 5S + 9add + 4*2.
+    // O + Q = Q, P + O = P
+    if (sm9_ec2_j_is_inf(P))
+    {
+        sm9_ec2_j_cpy(R, Q);
+        return;
+    }
+    if (sm9_ec2_j_is_inf(Q))
+    {
+        sm9_ec2_j_cpy(R, P);
+        return;
+    }
+
     sm9_fp2_t Z1Z1, Z2Z2, U1, U2, S1, S2, H, I, J, r, V;
 #define X3 R[0]
 #define Y3 R[1]
@@ -1607,6 +1650,13 @@ void sm9_ec2_j_add_a(sm9_ec2_j R, const sm9_ec2_j P, const sm9_ec2_a Q) noexcept
 #define X2 Q[0]
 #define Y2 Q[1]
 
+    // O + Q = Q
+    if (sm9_ec2_j_is_inf(P))
+    {
+        sm9_ec2_j_from_a(R, Q);
+        return;
+    }
+
     sm9_fp2_t Z1Z1, U2, S2, H, HH, I, J, r, V;
 
     sm9_fp2_sqr(Z1Z1, Z1);     // Z1Z1 = Z1^2
@@ -1614,6 +1664,18 @@ void sm9_ec2_j_add_a(sm9_ec2_j R, const sm9_ec2_j P, const sm9_ec2_a Q) noexcept
     sm9_fp2_mul(S2, Y2, Z1);
     sm9_fp2_mul(S2, S2, Z1Z1); //  S2 = Y2*Z1*Z1Z1
     sm9_fp2_sub(H, U2, X1);    // H = U2-X1
+    if (sm9_fp2_equal_zero(H))
+    {
+        if (sm9_fp2_equal(S2, Y1))
+        {
+            sm9_ec2_j_dbl(R, P);
+        }
+        else
+        {
+            sm9_ec2_j_set_inf(R);
+        }
+        return;
+    }
     sm9_fp2_sqr(HH, H);        // HH = H^2
     sm9_fp2_dbl(I, HH);
     sm9_fp2_dbl(I, I);    // I = 4*HH
-- 
2.43.0


From be2c3d14bf78cc1dcdc7a1da0ad3a9b389a7a8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:18 +0000
Subject: [PATCH 12/34] fix: sm9_fp12_pow reads past the exponent when the
 exponent is zero

---
 src/sm9/sm9_field.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 8635905..430c7ec 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -927,7 +927,12 @@ void sm9_fp12_pow(sm9_fp12_t         r,
         sm9_fp12_mul(lut_table[j], lut_table[j - 1], a);
     }
     // compute power
-    while (e_u8[i] == 0) i++;
+    while (i < 32 && e_u8[i] == 0) i++;
+    if (i == 32) // a^0 = 1
+    {
+        sm9_fp12_set_one(r);
+        return;
+    }
     if (e_u8[i] > 0xF)
     {
         int index = (e_u8[i] >> 4) & 0xF;
-- 
2.43.0


From 15dd7f9da854edbbbb127155de90d6a4f107ac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 13/34] fix: SM2 key generation can return n-1, which set_priv
 rejects and signing cannot use

---
 include/gmlib/sm2/sm2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index 12be82a..ab1d326 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -557,7 +557,7 @@ inline void SM2PrivateKey<Hash>::gen_priv(rng::Rng& rng)
     internal::sm2_bn_t d;
     rng.gen(priv_key, 32);
     internal::sm2_bn_from_bytes(d, priv_key);
-    internal::sm2_bn_mod_n_sub1(d);
+    internal::sm2_bn_mod_n_sub2(d);
     internal::sm2_bn_add_uint32(d, d, 1);
     internal::sm2_bn_to_bytes(priv_, d);
     // set pub
-- 
2.43.0


From 83daebda8e95b1e0d1514cabc8240357fc8121a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 14/34] fix: SM2 verify accepts a signature for which [s]G +
 [t]P is the point at infinity

---
 include/gmlib/sm2/sm2.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index ab1d326..5dd81a5 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -460,6 +460,10 @@ inline bool SM2PublicKey<Hash>::verify_(const std::uint8_t  sig_r[32],
     internal::sm2_ec_j_mul_g(sG.j, sig_s);
     internal::sm2_ec_j_mul_a(tP.j, t, tP.a);
     internal::sm2_ec_j_add(tP.j, sG.j, tP.j);
+    if (internal::sm2_ec_j_is_inf(tP.j))
+    {
+        return false;
+    }
     internal::sm2_ec_j_to_a(tP.a, tP.j);
     // R = e' + x1' mod n
     internal::sm2_fn_from_fp(tmp.fn, tP.a[0]);
-- 
2.43.0


From 9979de2b5fa241dd1c0df174f7a5a30e2e3e627d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 15/34] fix: SM2 verify (noexcept) terminates the program when
 the id is longer than 8191 bytes

---
 include/gmlib/sm2/sm2.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index 5dd81a5..1a2d929 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -439,6 +439,11 @@ inline bool SM2PublicKey<Hash>::verify_(const std::uint8_t  sig_r[32],
     {
         return false;
     }
+    // the bit length of id is encoded in 2 bytes (sm2_compute_z throws)
+    if (id_len > 0xFFFF / 8)
+    {
+        return false;
+    }
     // H(Z || M)
     internal::sm2_compute_z<Hash>(Z, id, id_len, x_, y_);
     Hash hash;
-- 
2.43.0


From fe5aac9f9e84e7a3bda0aab1b62e5a9f67501566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:07 +0000
Subject: [PATCH 16/34] fix: point decoding reads past the end of a short input

---
 src/sm2/sm2p256v1.cpp |  8 ++++++++
 src/sm9/sm9_field.cpp | 12 ++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/sm2/sm2p256v1.cpp b/src/sm2/sm2p256v1.cpp
index 209e4b5..6a9dd4c 100644
--- a/src/sm2/sm2p256v1.cpp
+++ b/src/sm2/sm2p256v1.cpp
@@ -462,11 +462,19 @@ int sm2_ec_a_from_bytes(sm2_ec_a            R,
     }
     if (in[0] == 0x04 || in[0] == 0x06 || in[0] == 0x07)
     {
+        if (inl < 65)
+        {
+            return -1;
+        }
         *read_n = 65;
         sm2_ec_a_from_bytes04(R, in + 1);
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
     {
+        if (inl < 33)
+        {
+            return -1;
+        }
         *read_n = 33;
         sm2_fp_from_bytes(R[0], in + 1);
         int y_hat = in[0] == 0x02 ? 0 : 1;
diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 430c7ec..cb52fea 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1072,11 +1072,19 @@ int sm9_ec_a_from_bytes(sm9_ec_a            R,
     }
     if (in[0] == 0x04 || in[0] == 0x06 || in[0] == 0x07)
     {
+        if (inl < 65)
+        {
+            return -1;
+        }
         *read_n = 65;
         sm9_ec_a_from_bytes04(R, in + 1);
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
     {
+        if (inl < 33)
+        {
+            return -1;
+        }
         *read_n = 33;
         sm9_fp_from_bytes(R[0], in + 1);
         int y_hat = in[0] == 0x02 ? 0 : 1;
@@ -1516,6 +1524,10 @@ int sm9_ec2_a_from_bytes(sm9_ec2_a           R,
     }
     if (in[0] == 0x04 || in[0] == 0x06 || in[0] == 0x07)
     {
+        if (inl < 129)
+        {
+            return -1;
+        }
         *read_n = 129;
         sm9_ec2_a_from_bytes04(R, in + 1);
         return 0;
-- 
2.43.0


From b922574615335c34ac395384f10500e637b4619e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:07 +0000
Subject: [PATCH 17/34] fix: point decoding ignores the parity bit of the mixed
 form

---
 src/sm2/sm2p256v1.cpp | 4 ++++
 src/sm9/sm9_field.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/sm2/sm2p256v1.cpp b/src/sm2/sm2p256v1.cpp
index 6a9dd4c..ee5764d 100644
--- a/src/sm2/sm2p256v1.cpp
+++ b/src/sm2/sm2p256v1.cpp
@@ -468,6 +468,10 @@ int sm2_ec_a_from_bytes(sm2_ec_a            R,
         }
         *read_n = 65;
         sm2_ec_a_from_bytes04(R, in + 1);
+        if (in[0] != 0x04 && (in[64] & 1) != (in[0] & 1))
+        {
+            return -1;
+        }
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
     {
diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index cb52fea..9e59922 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1078,6 +1078,10 @@ int sm9_ec_a_from_bytes(sm9_ec_a            R,
         }
         *read_n = 65;
         sm9_ec_a_from_bytes04(R, in + 1);
+        if (in[0] != 0x04 && (in[64] & 1) != (in[0] & 1))
+        {
+            return -1;
+        }
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
     {
-- 
2.43.0


From bd31d803e5d8f4ee3004ef1232243c0dd28d15d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 18/34] fix: point decoding accepts coordinates that are not
 below p

---
 include/gmlib/sm2/internal/sm2p256v1.h |  1 +
 include/gmlib/sm9/internal/sm9_field.h |  1 +
 src/sm2/sm2p256v1.cpp                  | 13 ++++++++++++-
 src/sm9/sm9_field.cpp                  | 13 ++++++++++++-
 4 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/gmlib/sm2/internal/sm2p256v1.h b/include/gmlib/sm2/internal/sm2p256v1.h
index 59bc60d..3791169 100644
--- a/include/gmlib/sm2/internal/sm2p256v1.h
+++ b/include/gmlib/sm2/internal/sm2p256v1.h
@@ -57,6 +57,7 @@ void sm2_fp_cpy(sm2_fp_t r, const sm2_fp_t a) noexcept;
 void sm2_fp_set_zero(sm2_fp_t r) noexcept;
 void sm2_fp_set_one(sm2_fp_t r) noexcept;
 void sm2_fp_from_bytes(sm2_fp_t r, const std::uint8_t in[32]) noexcept;
+bool sm2_fp_check_bytes(const std::uint8_t in[32]) noexcept; // in < p
 void sm2_fp_to_bytes(std::uint8_t out[32], const sm2_fp_t a) noexcept;
 
 // =============================================================================
diff --git a/include/gmlib/sm9/internal/sm9_field.h b/include/gmlib/sm9/internal/sm9_field.h
index efd41e6..d8538b1 100644
--- a/include/gmlib/sm9/internal/sm9_field.h
+++ b/include/gmlib/sm9/internal/sm9_field.h
@@ -82,6 +82,7 @@ void sm9_fn_to_bytes(std::uint8_t out[32], const sm9_fn_t a) noexcept;
 // = 0xb640000002a3a6f1d603ab4ff58ec74521f2934b1a7aeedbe56f9b27e351457d =
 // ======================================================================
 
+bool sm9_fp_check_bytes(const std::uint8_t in[32]) noexcept; // in < p
 void sm9_fp_to_bytes(std::uint8_t dst[32], const sm9_fp_t a) noexcept;
 void sm9_fp_from_bytes(sm9_fp_t r, const std::uint8_t src[32]) noexcept;
 void sm9_fp_cpy(sm9_fp_t r, const sm9_fp_t a) noexcept;
diff --git a/src/sm2/sm2p256v1.cpp b/src/sm2/sm2p256v1.cpp
index ee5764d..649d5b8 100644
--- a/src/sm2/sm2p256v1.cpp
+++ b/src/sm2/sm2p256v1.cpp
@@ -242,6 +242,13 @@ void sm2_fp_from_bytes(sm2_fp_t r, const std::uint8_t in[32]) noexcept
     number::mont256_from_bytes(&FP_MONT_CTX, r, in);
 }
 
+bool sm2_fp_check_bytes(const std::uint8_t in[32]) noexcept
+{
+    sm2_bn_t t;
+    number::uint256_from_bytes(t, in);
+    return number::uint256_cmp(t, P.v) < 0;
+}
+
 void sm2_fp_to_bytes(std::uint8_t out[32], const sm2_fp_t a) noexcept
 {
     number::mont256_to_bytes(&FP_MONT_CTX, out, a);
@@ -466,6 +473,10 @@ int sm2_ec_a_from_bytes(sm2_ec_a            R,
         {
             return -1;
         }
+        if (!sm2_fp_check_bytes(in + 1) || !sm2_fp_check_bytes(in + 33))
+        {
+            return -1;
+        }
         *read_n = 65;
         sm2_ec_a_from_bytes04(R, in + 1);
         if (in[0] != 0x04 && (in[64] & 1) != (in[0] & 1))
@@ -475,7 +486,7 @@ int sm2_ec_a_from_bytes(sm2_ec_a            R,
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
     {
-        if (inl < 33)
+        if (inl < 33 || !sm2_fp_check_bytes(in + 1))
         {
             return -1;
         }
diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 9e59922..4ac4084 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -404,6 +404,13 @@ void sm9_fp_from_bytes(sm9_fp_t r, const std::uint8_t in[32]) noexcept
     number::mont256_from_bytes(&FP_MONT_CTX, r, in);
 }
 
+bool sm9_fp_check_bytes(const std::uint8_t in[32]) noexcept
+{
+    sm9_bn_t t;
+    number::uint256_from_bytes(t, in);
+    return number::uint256_cmp(t, P.v) < 0;
+}
+
 void sm9_fp_to_bytes(std::uint8_t out[32], const sm9_fp_t a) noexcept
 {
     number::mont256_to_bytes(&FP_MONT_CTX, out, a);
@@ -1076,6 +1083,10 @@ int sm9_ec_a_from_bytes(sm9_ec_a            R,
         {
             return -1;
         }
+        if (!sm9_fp_check_bytes(in + 1) || !sm9_fp_check_bytes(in + 33))
+        {
+            return -1;
+        }
         *read_n = 65;
         sm9_ec_a_from_bytes04(R, in + 1);
         if (in[0] != 0x04 && (in[64] & 1) != (in[0] & 1))
@@ -1085,7 +1096,7 @@ int sm9_ec_a_from_bytes(sm9_ec_a            R,
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
     {
-        if (inl < 33)
+        if (inl < 33 || !sm9_fp_check_bytes(in + 1))
         {
             return -1;
         }
-- 
2.43.0


From 7a92e2caad775a2266c4665678eb307925c17573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 19/34] fix: keys with coordinates that are not below p are
 accepted

---
 include/gmlib/sm2/sm2.h | 3 ++-
 include/gmlib/sm9/sm9.h | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index 1a2d929..15d7d1d 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -356,7 +356,8 @@ inline void SM2PublicKey<Hash>::set_pub(const std::uint8_t x[32],
     internal::sm2_ec_a T;
     internal::sm2_fp_from_bytes(T[0], x);
     internal::sm2_fp_from_bytes(T[1], y);
-    if (!internal::sm2_ec_a_check(T))
+    if (!internal::sm2_fp_check_bytes(x) || !internal::sm2_fp_check_bytes(y) ||
+        !internal::sm2_ec_a_check(T))
     {
         throw std::runtime_error("invalid sm2p256v1 PublicKey");
     }
diff --git a/include/gmlib/sm9/sm9.h b/include/gmlib/sm9/sm9.h
index ab69cbe..a32c954 100644
--- a/include/gmlib/sm9/sm9.h
+++ b/include/gmlib/sm9/sm9.h
@@ -362,7 +362,10 @@ inline void SM9SignMasterPublicKey<Hash>::set_pub(const std::uint8_t x[64],
     internal::sm9_ec2_a T;
     internal::sm9_fp2_from_bytes(T[0], x);
     internal::sm9_fp2_from_bytes(T[1], y);
-    if (!internal::sm9_ec2_a_check(T))
+    if (!internal::sm9_fp_check_bytes(x) ||
+        !internal::sm9_fp_check_bytes(x + 32) ||
+        !internal::sm9_fp_check_bytes(y) ||
+        !internal::sm9_fp_check_bytes(y + 32) || !internal::sm9_ec2_a_check(T))
     {
         throw std::runtime_error("invalid sm9 SignPublicKey");
     }
@@ -438,7 +441,8 @@ inline void SM9SignPrivateKey<Hash>::set_priv(const std::uint8_t priv_x[32],
     internal::sm9_ec_a T;
     internal::sm9_fp_from_bytes(T[0], priv_x);
     internal::sm9_fp_from_bytes(T[1], priv_y);
-    if (!internal::sm9_ec_a_check(T))
+    if (!internal::sm9_fp_check_bytes(priv_x) ||
+        !internal::sm9_fp_check_bytes(priv_y) || !internal::sm9_ec_a_check(T))
     {
         throw std::runtime_error("invalid sm9 SignPrivateKey");
     }
-- 
2.43.0


From 3550a343fc4b40b0bb07b111cffa88b994ed4411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 20/34] fix: the 128-byte encoding of a G2 point overlaps its
 coordinates

---
 src/sm9/sm9_field.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 4ac4084..2712580 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1498,13 +1498,13 @@ void sm9_ec2_a_neg(sm9_ec2_a R, const sm9_ec2_a P) noexcept
 void sm9_ec2_a_to_bytes04(std::uint8_t out[128], const sm9_ec2_a P) noexcept
 {
     sm9_fp2_to_bytes(out + 0, P[0]);
-    sm9_fp2_to_bytes(out + 32, P[1]);
+    sm9_fp2_to_bytes(out + 64, P[1]);
 }
 
 void sm9_ec2_a_from_bytes04(sm9_ec2_a R, const std::uint8_t in[128]) noexcept
 {
     sm9_fp2_from_bytes(R[0], in + 0);
-    sm9_fp2_from_bytes(R[1], in + 32);
+    sm9_fp2_from_bytes(R[1], in + 64);
 }
 
 void sm9_ec2_a_to_bytes_uncompressed(std::uint8_t    out[129],
-- 
2.43.0


From c4b369e9d913fcd7be8c9cfbe715c957bf04e8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 21/34] fix: the tag of a compressed or mixed G2 point uses the
 wrong byte of the ordinate

---
 src/sm9/sm9_field.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 2712580..c980006 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1518,14 +1518,14 @@ void sm9_ec2_a_to_bytes_compressed(std::uint8_t    out[65],
                                    const sm9_ec2_a P) noexcept
 {
     sm9_fp2_to_bytes(out + 1, P[1]);
-    out[0] = ((out[32] & 1) == 0) ? 0x02 : 0x03;
+    out[0] = ((out[64] & 1) == 0) ? 0x02 : 0x03;
     sm9_fp2_to_bytes(out + 1, P[0]);
 }
 
 void sm9_ec2_a_to_bytes_mix(std::uint8_t out[129], const sm9_ec2_a P) noexcept
 {
     sm9_ec2_a_to_bytes04(out + 1, P);
-    out[0] = ((out[64] & 1) == 0) ? 0x06 : 0x07;
+    out[0] = ((out[128] & 1) == 0) ? 0x06 : 0x07;
 }
 
 int sm9_ec2_a_from_bytes(sm9_ec2_a           R,
-- 
2.43.0


From 6295005364f694ca7aff5e01259411580b7003c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 22/34] fix: decoding of a G2 point does not check the
 coordinates, the parity bit and the curve equation

---
 src/sm9/sm9_field.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index c980006..5069878 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1543,9 +1543,20 @@ int sm9_ec2_a_from_bytes(sm9_ec2_a           R,
         {
             return -1;
         }
+        for (int i = 0; i < 4; i++)
+        {
+            if (!sm9_fp_check_bytes(in + 1 + 32 * i))
+            {
+                return -1;
+            }
+        }
         *read_n = 129;
         sm9_ec2_a_from_bytes04(R, in + 1);
-        return 0;
+        if (in[0] != 0x04 && (in[128] & 1) != (in[0] & 1))
+        {
+            return -1;
+        }
+        return sm9_ec2_a_check(R) ? 0 : -1;
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
     {
-- 
2.43.0


From 1c60bf591195cccd45796e7dbec7ae911cc6360a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:57 +0000
Subject: [PATCH 23/34] fix: asn1_decode_tlv accepts a value that is longer
 than the input

---
 src/asn1/asn1.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 066606d..7c431e6 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -154,6 +154,10 @@ int asn1_decode_tlv(Asn1TLV*            tlv,
     }
     in += n, inl -= n, *read_num += n;
     // value
+    if (tlv->length > inl)
+    {
+        return -1;
+    }
     tlv->value = in;
     *read_num += tlv->length;
     return 0;
-- 
2.43.0


From 3a410cdff75aae5f3feafcdf47c61de50e61d747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:57 +0000
Subject: [PATCH 24/34] fix: the sign octet of an ASN.1 INTEGER is overwritten
 by the value

---
 src/asn1/asn1.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 7c431e6..30c5608 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -356,7 +356,8 @@ void asn1_encode_integer_tlv(std::uint8_t*       out,
     {
         if (data[0] >= 0x80)
         {
-            *out = 0, *outl += 1;
+            *out = 0;
+            out += 1, *outl += 1;
         }
         std::memmove(out, data, data_len);
         *outl += data_len;
-- 
2.43.0


From 886012cbbc88b598ef0da41b562a8da783ebe501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:58 +0000
Subject: [PATCH 25/34] fix: the length of an ASN.1 BIT STRING is computed from
 the tag octet

---
 src/asn1/asn1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 30c5608..5a1ceaf 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -538,7 +538,7 @@ int asn1_decode_bit_string_value(const std::uint8_t** data_ptr,
     }
     *data_ptr    = tlv.value + 1;
     *data_length = tlv.length - 1;
-    *bits_length = 8 * (tlv.length - 1) - in[0];
+    *bits_length = 8 * (tlv.length - 1) - tlv.value[0];
     return 0;
 }
 
-- 
2.43.0


From 19485490d1e98102ab4e666a16a3ee089b0042c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:58 +0000
Subject: [PATCH 26/34] fix: asn1_encode_tlv_outl overflows its buffer for
 8-byte lengths

---
 src/asn1/asn1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 5a1ceaf..3418797 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -231,7 +231,7 @@ const char* asn1_tag_number_name(Asn1TagNumber tag_number) noexcept
 
 std::size_t asn1_encode_tlv_outl(std::size_t value_length) noexcept
 {
-    std::uint8_t l_buf[sizeof(std::size_t)];
+    std::uint8_t l_buf[1 + sizeof(std::size_t)];
     std::size_t  l_size;
     asn1_encode_length_octets(l_buf, &l_size, value_length);
     return 1 + l_size + value_length;
-- 
2.43.0


From ed0f9588194bdb05386fe8d938cd4ab41040c915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:58 +0000
Subject: [PATCH 27/34] fix: sm2_public_key_asn1_decode accepts bit strings of
 a wrong length

---
 src/sm2/sm2p256v1_asn1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sm2/sm2p256v1_asn1.cpp b/src/sm2/sm2p256v1_asn1.cpp
index 6c9d04e..26d50a9 100644
--- a/src/sm2/sm2p256v1_asn1.cpp
+++ b/src/sm2/sm2p256v1_asn1.cpp
@@ -67,7 +67,7 @@ int sm2_public_key_asn1_decode(ASN1_SM2PublicKey*  pub,
     {
         return -1;
     }
-    if (data_length != 65 && data_bits != 65 * 8)
+    if (data_length != 65 || data_bits != 65 * 8)
     {
         return -1;
     }
-- 
2.43.0


From f864aeaa4f5507ea90f5237bee2e1f30b7b55487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:25 +0000
Subject: [PATCH 28/34] fix: empty OCTET STRING, SEQUENCE and SET encodings are
 rejected

---
 src/asn1/asn1.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 3418797..94b82b5 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -554,7 +554,7 @@ int asn1_decode_octet_string_value(const std::uint8_t** data_ptr,
     {
         return err;
     }
-    if (tlv.tag_number != ASN1_TAG_OCTET_STRING || tlv.length == 0)
+    if (tlv.tag_number != ASN1_TAG_OCTET_STRING)
     {
         return -1;
     }
@@ -595,7 +595,7 @@ int asn1_decode_sequence_value(const std::uint8_t** value_ptr,
         return err;
     }
     if (tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
-        tlv.tag_number != ASN1_TAG_SEQUENCE || tlv.length == 0)
+        tlv.tag_number != ASN1_TAG_SEQUENCE)
     {
         return -1;
     }
@@ -618,7 +618,7 @@ int asn1_decode_set_value(const std::uint8_t** value_ptr,
         return err;
     }
     if (tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
-        tlv.tag_number != ASN1_TAG_SET || tlv.length == 0)
+        tlv.tag_number != ASN1_TAG_SET)
     {
         return -1;
     }
-- 
2.43.0


From fb6cecb524d25a347e503d9993055c8f648b6ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:25 +0000
Subject: [PATCH 29/34] fix: ASN.1 INTEGER with leading zero octets is not
 encoded minimally

---
 src/asn1/asn1.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 94b82b5..cb05b75 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -252,16 +252,12 @@ static std::size_t asn1_encode_integer_value_length(
     const std::uint8_t* data,
     std::size_t         data_len) noexcept
 {
-    std::size_t value_length;
-    if (data_len == 0)
+    // leading zero octets are not encoded
+    while (data_len && data[0] == 0)
     {
-        value_length = 0;
+        data += 1, data_len -= 1;
     }
-    else
-    {
-        value_length = (data[0] < 0x80) ? data_len : (data_len + 1);
-    }
-    return value_length;
+    return (data_len && data[0] < 0x80) ? data_len : (data_len + 1);
 }
 
 std::size_t asn1_encode_integer_outl(const std::uint8_t* data,
@@ -352,13 +348,17 @@ void asn1_encode_integer_tlv(std::uint8_t*       out,
                    ASN1_TAG_INTEGER,         //
                    asn1_encode_integer_value_length(data, data_len));
     out += n, *outl = n;
+    while (data_len && data[0] == 0)
+    {
+        data += 1, data_len -= 1;
+    }
+    if (data_len == 0 || data[0] >= 0x80)
+    {
+        *out = 0;
+        out += 1, *outl += 1;
+    }
     if (data_len)
     {
-        if (data[0] >= 0x80)
-        {
-            *out = 0;
-            out += 1, *outl += 1;
-        }
         std::memmove(out, data, data_len);
         *outl += data_len;
     }
-- 
2.43.0


From 4c46e80dd11b3f73b9e2ebd1181b9693c2ec1e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:25 +0000
Subject: [PATCH 30/34] fix: SM2 signature and ciphertext decoding ignores
 trailing elements

---
 src/sm2/sm2p256v1_asn1.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sm2/sm2p256v1_asn1.cpp b/src/sm2/sm2p256v1_asn1.cpp
index 26d50a9..c7ebd1c 100644
--- a/src/sm2/sm2p256v1_asn1.cpp
+++ b/src/sm2/sm2p256v1_asn1.cpp
@@ -140,6 +140,11 @@ int sm2_signature_asn1_decode(ASN1_SM2Signature*  sig,
     {
         return -1;
     }
+    seq_value += n, seq_v_len -= n;
+    if (seq_v_len != 0)
+    {
+        return -1;
+    }
     *read_num = inl_save - inl;
     return 0;
 }
@@ -243,6 +248,10 @@ int sm2_cipher_asn1_decode(ASN1_SM2Cipher*     cipher,
         return -1;
     }
     seq_value += n, seq_v_len -= n;
+    if (seq_v_len != 0)
+    {
+        return -1;
+    }
     *read_num = inl_save - inl;
     return 0;
 }
-- 
2.43.0


From 69c8a63f1cf209c46e276c00cc815998a7067005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:25 +0000
Subject: [PATCH 31/34] fix: asn1_dump ignores an error in a nested element

---
 src/asn1/asn1_dump.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/asn1/asn1_dump.cpp b/src/asn1/asn1_dump.cpp
index 2489002..3911682 100644
--- a/src/asn1/asn1_dump.cpp
+++ b/src/asn1/asn1_dump.cpp
@@ -36,7 +36,11 @@ static int r_asn1_dump(const std::uint8_t* in,
         printf(",%s)\n", asn1_tag_pc_name(tlv.tag_pc));
         if (tlv.tag_pc == ASN1_TAG_PC_CONSTRUCTED)
         {
-            r_asn1_dump(tlv.value, tlv.length, depth + 1);
+            err = r_asn1_dump(tlv.value, tlv.length, depth + 1);
+            if (err)
+            {
+                return err;
+            }
         }
         else
         {
-- 
2.43.0


From d2d0d1d0b4a60a82a7535c9a25c9ef932b55ec83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:25 +0000
Subject: [PATCH 32/34] fix: asn1_dump recurses without limit

---
 src/asn1/asn1_dump.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/asn1/asn1_dump.cpp b/src/asn1/asn1_dump.cpp
index 3911682..a958668 100644
--- a/src/asn1/asn1_dump.cpp
+++ b/src/asn1/asn1_dump.cpp
@@ -5,6 +5,9 @@
 
 namespace asn1 {
 
+// nesting limit, the recursion must not exhaust the stack
+static constexpr std::size_t ASN1_DUMP_MAX_DEPTH = 128;
+
 static int r_asn1_dump(const std::uint8_t* in,
                        std::size_t         inl,
                        std::size_t         depth) noexcept
@@ -12,6 +15,10 @@ static int r_asn1_dump(const std::uint8_t* in,
     Asn1TLV     tlv;
     std::size_t read_num;
     int         err;
+    if (depth > ASN1_DUMP_MAX_DEPTH)
+    {
+        return -2; // unsupport
+    }
     while (inl)
     {
         err = asn1_decode_tlv(&tlv, &read_num, in, inl);
-- 
2.43.0


From 4bb6db5aa95889d324930ca1e0dd1e0fed0f1d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:51 +0000
Subject: [PATCH 33/34] fix: StdRng constructor is not noexcept
 (std::random_device may throw)

---
 include/gmlib/rng/std_rng.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gmlib/rng/std_rng.h b/include/gmlib/rng/std_rng.h
index 41436e3..b5af4e9 100644
--- a/include/gmlib/rng/std_rng.h
+++ b/include/gmlib/rng/std_rng.h
@@ -14,7 +14,7 @@ private:
     std::random_device device_;
 
 public:
-    StdRng() noexcept = default;
+    StdRng() = default;
 
     const char* name() const noexcept override
     {
-- 
2.43.0


From 07382dcb812201d950fd485e98a9c27006a53181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:51 +0000
Subject: [PATCH 34/34] fix: memdump does not end the process on a zero line
 width

---
 src/memory_utils/memdump.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/memory_utils/memdump.cpp b/src/memory_utils/memdump.cpp
index 2006bd6..9053069 100644
--- a/src/memory_utils/memdump.cpp
+++ b/src/memory_utils/memdump.cpp
@@ -3,7 +3,6 @@
 #include <cctype>
 #include <cstdint>
 #include <cstdio>
-#include <cstdlib>
 
 namespace memory_utils {
 
@@ -24,7 +23,7 @@ void memdump(const void *mem,
     {
         std::fprintf(stderr, "err in %s, invalid maxline value: 0\n",
                      __FUNCTION__);
-        std::exit(-1);
+        return;
     }
 
     const std::uint8_t *data = (const std::uint8_t *)mem;
-- 
2.43.0

