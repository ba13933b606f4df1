From 93b1a3568e4af4ff1b03a88f899d91e3ed62844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:35 +0000
Subject: [PATCH 1/9] fix: crypto_kem_dec: do not read the secret matrix
 through a misaligned pointer

sk is a byte pointer with no alignment requirement; reading S through a
uint16_t pointer into it is undefined behaviour when sk is at an odd address.
---
 src/kem.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kem.c b/src/kem.c
index 5e5c429..80d2a91 100644
--- a/src/kem.c
+++ b/src/kem.c
@@ -165,7 +165,7 @@ int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned ch
     const uint8_t *ct_c2 = &ct[(PARAMS_LOGQ*PARAMS_N*PARAMS_NBAR)/8];
     const uint8_t *sk_s = &sk[0];
     const uint8_t *sk_pk = &sk[CRYPTO_BYTES];
-    const uint16_t *sk_S = (uint16_t *) &sk[CRYPTO_BYTES + CRYPTO_PUBLICKEYBYTES];
+    const uint8_t *sk_S = &sk[CRYPTO_BYTES + CRYPTO_PUBLICKEYBYTES];
     uint16_t S[PARAMS_N * PARAMS_NBAR];                      // contains secret data
     const uint8_t *sk_pkh = &sk[CRYPTO_BYTES + CRYPTO_PUBLICKEYBYTES + 2*PARAMS_N*PARAMS_NBAR];
     const uint8_t *pk_seedA = &sk_pk[0];
@@ -185,8 +185,9 @@ int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned ch
     VALGRIND_MAKE_MEM_UNDEFINED(sk, CRYPTO_SECRETKEYBYTES);
 #endif
 
+    memcpy(S, sk_S, 2*PARAMS_N*PARAMS_NBAR);                 // sk has no alignment guarantee
     for (size_t i = 0; i < PARAMS_N * PARAMS_NBAR; i++) {
-        S[i] = LE_TO_UINT16(sk_S[i]);
+        S[i] = LE_TO_UINT16(S[i]);
     }
 
     // Compute W = C - Bp*S (mod q), and decode the randomness mu
-- 
2.43.0


From 70ae5d4fda4d2c93f125c68c7cabd5c1d3d4d751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:52 +0000
Subject: [PATCH 2/9] fix: aes_c: keep the cipher state per call instead of in
 a global

The portable AES kept a pointer to the block being encrypted in a static
variable, so concurrent calls encrypted into each other's buffers.
---
 src/aes/aes_c.c | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/aes/aes_c.c b/src/aes/aes_c.c
index 5eea00c..6a66738 100644
--- a/src/aes/aes_c.c
+++ b/src/aes/aes_c.c
@@ -19,7 +19,6 @@
 /*****************************************************************************/
 // state - array holding the intermediate results during decryption.
 typedef uint8_t state_t[4][4];
-static state_t* state;
 
 // The lookup-tables are marked const so they can be placed in read-only storage instead of RAM
 // The numbers below can be computed dynamically trading ROM for RAM -
@@ -202,7 +201,7 @@ void aes256_load_schedule_c(const uint8_t* Key, uint8_t* RoundKey)
 
 // This function adds the round key to state.
 // The round key is added to the state by an XOR function.
-static void AddRoundKey(const uint8_t* RoundKey, uint8_t round)
+static void AddRoundKey(state_t* state, const uint8_t* RoundKey, uint8_t round)
 {
   uint8_t i,j;
   for (i=0;i<4;++i)
@@ -217,7 +216,7 @@ static void AddRoundKey(const uint8_t* RoundKey, uint8_t round)
 
 // The SubBytes Function Substitutes the values in the
 // state matrix with values in an S-box.
-static void SubBytes(void)
+static void SubBytes(state_t* state)
 {
   uint8_t i, j;
   for (i = 0; i < 4; ++i)
@@ -233,7 +232,7 @@ static void SubBytes(void)
 // The ShiftRows() function shifts the rows in the state to the left.
 // Each row is shifted with different offset.
 // Offset = Row number. So the first row is not shifted.
-static void ShiftRows(void)
+static void ShiftRows(state_t* state)
 {
   uint8_t temp;
 
@@ -269,7 +268,7 @@ static uint8_t xtime(uint8_t x)
 
 
 // MixColumns function mixes the columns of the state matrix
-static void MixColumns(void)
+static void MixColumns(state_t* state)
 {
   uint8_t i;
   uint8_t Tmp,Tm,t;
@@ -286,39 +285,38 @@ static void MixColumns(void)
 
 
 // Cipher is the main function that encrypts the PlainText.
-static void Cipher(const uint8_t* RoundKey, uint32_t Nr)
+static void Cipher(state_t* state, const uint8_t* RoundKey, uint32_t Nr)
 {
   uint8_t round = 0;
 
   // Add the First round key to the state before starting the rounds.
-  AddRoundKey(RoundKey, 0);
+  AddRoundKey(state, RoundKey, 0);
 
   // There will be Nr rounds.
   // The first Nr-1 rounds are identical.
   // These Nr-1 rounds are executed in the loop below.
   for (round = 1; round < Nr; ++round)
   {
-    SubBytes();
-    ShiftRows();
-    MixColumns();
-    AddRoundKey(RoundKey, round);
+    SubBytes(state);
+    ShiftRows(state);
+    MixColumns(state);
+    AddRoundKey(state, RoundKey, round);
   }
 
   // The last round is given below.
   // The MixColumns function is not here in the last round.
-  SubBytes();
-  ShiftRows();
-  AddRoundKey(RoundKey, Nr);
+  SubBytes(state);
+  ShiftRows(state);
+  AddRoundKey(state, RoundKey, Nr);
 }
 
 
 void aes128_enc_c(const uint8_t* input, const uint8_t* schedule, uint8_t* output)
 {
   memcpy(output, input, 16);
-  state = (state_t*)output;
 
   // The next function call encrypts the PlainText with the Key using AES algorithm.
-  Cipher(schedule, 10);
+  Cipher((state_t*)output, schedule, 10);
 }
 
 
@@ -326,8 +324,7 @@ void aes256_enc_c(const uint8_t* input, const uint8_t* schedule, uint8_t* output
 {
   // Copy input to output, and work in-memory on output
   memcpy(output, input, 16);
-  state = (state_t*)output;
 
   // The next function call encrypts the PlainText with the Key using AES algorithm.
-  Cipher(schedule, 14);
+  Cipher((state_t*)output, schedule, 14);
 }
-- 
2.43.0


From 239465335fe6f45da44ede403f4686707a4e43a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:52 +0000
Subject: [PATCH 3/9] fix: randombytes: open the random device safely from
 several threads

Concurrent first calls raced on the descriptor and leaked the losers'.
---
 src/random/random.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/random/random.c b/src/random/random.c
index 7cea45c..703fd09 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -35,19 +35,25 @@ int randombytes(unsigned char* random_array, unsigned long long nbytes)
 
 #elif defined(NIX)
     int r, n = (int)nbytes, count = 0;
+    int fd = __atomic_load_n(&lock, __ATOMIC_ACQUIRE);
     
-    if (lock == -1) {
+    if (fd == -1) {
+        int expected = -1;
         do {
-            lock = open("/dev/urandom", O_RDONLY);
-            if (lock == -1) {
+            fd = open("/dev/urandom", O_RDONLY);
+            if (fd == -1) {
                 delay(0xFFFFF);
             }
-        } while (lock == -1);
+        } while (fd == -1);
+        if (!__atomic_compare_exchange_n(&lock, &expected, fd, 0, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
+            close(fd);         // Another thread was first
+            fd = expected;
+        }
     }
 
     while (n > 0) {
         do {
-            r = read(lock, random_array+count, n);
+            r = read(fd, random_array+count, n);
             if (r == -1) {
                 delay(0xFFFF);
             }
-- 
2.43.0


From 329874dcae1e2770016b3840c74982f538db360d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:39 +0000
Subject: [PATCH 4/9] fix: randombytes: do not truncate the requested length to
 int

Requests of 2^31 bytes or more reported success with (most of) the buffer unfilled.
---
 src/random/random.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/random/random.c b/src/random/random.c
index 703fd09..d2b4000 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -34,7 +34,8 @@ int randombytes(unsigned char* random_array, unsigned long long nbytes)
     }
 
 #elif defined(NIX)
-    int r, n = (int)nbytes, count = 0;
+    ssize_t r;
+    size_t n = (size_t)nbytes, count = 0;
     int fd = __atomic_load_n(&lock, __ATOMIC_ACQUIRE);
     
     if (fd == -1) {
@@ -58,8 +59,8 @@ int randombytes(unsigned char* random_array, unsigned long long nbytes)
                 delay(0xFFFF);
             }
         } while (r == -1);
-        count += r;
-        n -= r;
+        count += (size_t)r;
+        n -= (size_t)r;
     }
 #endif
 
-- 
2.43.0


From 7f06e7268969975f3f4e000dc14dccad988433cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:05 +0000
Subject: [PATCH 5/9] fix: kem: report a failure of the random source

crypto_kem_keypair and crypto_kem_enc ignored randombytes()'s result and
went on with whatever the buffer held.
---
 src/kem.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kem.c b/src/kem.c
index 80d2a91..f4a17c0 100644
--- a/src/kem.c
+++ b/src/kem.c
@@ -32,7 +32,7 @@ int crypto_kem_keypair(unsigned char* pk, unsigned char* sk)
     uint8_t shake_input_seedSE[1 + CRYPTO_BYTES];           // contains secret data
 
     // Generate the secret value s, the seed for S and E, and the seed for the seed for A. Add seed_A to the public key
-    randombytes(randomness, CRYPTO_BYTES + CRYPTO_BYTES + BYTES_SEED_A);
+    if (randombytes(randomness, CRYPTO_BYTES + CRYPTO_BYTES + BYTES_SEED_A) != 0) return 1;
 #ifdef DO_VALGRIND_CHECK
     VALGRIND_MAKE_MEM_UNDEFINED(randomness, CRYPTO_BYTES + CRYPTO_BYTES + BYTES_SEED_A);
 #endif
@@ -101,7 +101,7 @@ int crypto_kem_enc(unsigned char *ct, unsigned char *ss, const unsigned char *pk
 
     // pkh <- G_1(pk), generate random mu, compute (seedSE || k) = G_2(pkh || mu)
     shake(pkh, BYTES_PKHASH, pk, CRYPTO_PUBLICKEYBYTES);
-    randombytes(mu, BYTES_MU);
+    if (randombytes(mu, BYTES_MU) != 0) return 1;
 #ifdef DO_VALGRIND_CHECK
     VALGRIND_MAKE_MEM_UNDEFINED(mu, BYTES_MU);
 #endif
-- 
2.43.0


From 8ec2368929f624518d8f51bba381dd4bfa357de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:35 +0000
Subject: [PATCH 6/9] fix: aes_ni: accept a key schedule of any alignment

The schedule is a byte array, but was accessed as aligned 16-byte vectors, which
faults for the AES-256 and AES-128 functions when the array is not aligned.
---
 src/aes/aes_ni.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/aes/aes_ni.c b/src/aes/aes_ni.c
index 735c7b0..0efbb18 100644
--- a/src/aes/aes_ni.c
+++ b/src/aes/aes_ni.c
@@ -6,6 +6,13 @@
 #include <wmmintrin.h>
 #include "../config.h"
 
+// The key schedule is a plain byte array of any alignment
+#if defined(__GNUC__)
+typedef __m128i schedule_t __attribute__((__aligned__(1), __may_alias__));
+#else
+typedef __m128i schedule_t;
+#endif
+
 
 static __m128i key_expand(__m128i key, __m128i keygened) {
 	key = _mm_xor_si128(key, _mm_slli_si128(key, 4));
@@ -30,7 +37,7 @@ static __m128i key_expand1(__m128i key, __m128i keygened) {
 #define key_exp256b(k, r, rcon) key_expand1(k, _mm_aeskeygenassist_si128(r, rcon))
 
 void aes128_load_schedule_ni(const uint8_t *key, uint8_t *_schedule) {
-	__m128i *schedule = (__m128i *) _schedule;
+	schedule_t *schedule = (schedule_t *) _schedule;
 	schedule[0] = _mm_loadu_si128((const __m128i *) key);
 	schedule[1] = key_exp(schedule[0], 0x01);
 	schedule[2] = key_exp(schedule[1], 0x02);
@@ -46,7 +53,7 @@ void aes128_load_schedule_ni(const uint8_t *key, uint8_t *_schedule) {
 
 
 void aes256_load_schedule_ni(const uint8_t *key, uint8_t *_schedule) {
-	__m128i *schedule = (__m128i *) _schedule;
+	schedule_t *schedule = (schedule_t *) _schedule;
 	schedule[0] = _mm_loadu_si128((const __m128i *) key);
 	schedule[1] = _mm_loadu_si128((const __m128i *) (key+16));
 	schedule[2] = key_exp256(schedule[0], schedule[1], 0x01);
@@ -66,7 +73,7 @@ void aes256_load_schedule_ni(const uint8_t *key, uint8_t *_schedule) {
 
 
 void aes128_enc_ni(const uint8_t *plaintext, const uint8_t *_schedule, uint8_t *ciphertext) {
-	__m128i *schedule = (__m128i *) _schedule;
+	schedule_t *schedule = (schedule_t *) _schedule;
 	__m128i m = _mm_loadu_si128((__m128i *) plaintext);
 
 	m = _mm_xor_si128(m, schedule[0]);
@@ -80,7 +87,7 @@ void aes128_enc_ni(const uint8_t *plaintext, const uint8_t *_schedule, uint8_t *
 
 
 void aes256_enc_ni(const uint8_t *plaintext, const uint8_t *_schedule, uint8_t *ciphertext) {
-	__m128i *schedule = (__m128i *) _schedule;
+	schedule_t *schedule = (schedule_t *) _schedule;
 	__m128i m = _mm_loadu_si128((__m128i *) plaintext);
 
 	m = _mm_xor_si128(m, schedule[0]);
-- 
2.43.0


From d7c568b34ad6bc58e6ac41b709a307969de0e814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:01 +0000
Subject: [PATCH 7/9] fix: python: decode rounds ties up as the specification
 and the C code do

round() rounds half to even, so a genuine ciphertext whose decryption error
lies exactly on the boundary of the decoding radius was rejected.
---
 python3/frodokem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python3/frodokem.py b/python3/frodokem.py
index 873e622..767c214 100644
--- a/python3/frodokem.py
+++ b/python3/frodokem.py
@@ -321,7 +321,8 @@ class FrodoKEM(object):
             # 2. for j = 0; j < nbar; j += 1
             for j in range(self.nbar):
                 # 3. tmp = dc(K[i][j]) = round(K[i][j] * 2^B / q) mod 2^B
-                tmp = round(K[i][j] * (2 ** self.B) / self.q) % (2 ** self.B)
+                # (ties are rounded up, which round() would not do)
+                tmp = ((2 * K[i][j] * (2 ** self.B) + self.q) // (2 * self.q)) % (2 ** self.B)
                 # 4. tmp' = sum_{l=0}^{B-1} tmp_l * 2^l
                 tmpbits = [0 for l in range(self.B)]
                 for l in range(self.B):
-- 
2.43.0


From 49461d1eb805834a3fa6d487be1b70dbda999ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:01 +0000
Subject: [PATCH 8/9] fix: python: refuse an unknown variant name

The assertion on a non-empty string never failed, so an object without parameters was returned.
---
 python3/frodokem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python3/frodokem.py b/python3/frodokem.py
index 767c214..bffab16 100644
--- a/python3/frodokem.py
+++ b/python3/frodokem.py
@@ -42,7 +42,7 @@ class FrodoKEM(object):
             self.setParamsFrodo1344()
             self.gen = self.genSHAKE128
         else:
-            assert "Unknown variant"
+            raise ValueError("Unknown variant")
         warnings.warn("WARNING: This Python3 implementation of FrodoKEM is not designed to be fast or secure, and may leak secret information via timing or other side channels; it should not be used in production environments.")
 
     def setParamsFrodo640(self):
-- 
2.43.0


From ee415aac9dcfe1051405af076590ef61e5f0d288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:52 +0000
Subject: [PATCH 9/9] fix: frodo_mul_add_sa_plus_e: convert the entries of A
 from little-endian

The optimised portable code converted the generated matrix in
frodo_mul_add_as_plus_e only, so encapsulation and decapsulation were
wrong on big-endian machines.
---
 src/frodo_macrify.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/frodo_macrify.c b/src/frodo_macrify.c
index 75190b3..16a1527 100755
--- a/src/frodo_macrify.c
+++ b/src/frodo_macrify.c
@@ -230,6 +230,9 @@ int frodo_mul_add_sa_plus_e(uint16_t *out, const uint16_t *s, uint16_t *e, const
 #endif
 
 #if !defined(USE_AVX2)
+        for (q = 0; q < 8 * PARAMS_N; q++) {
+            A[q] = LE_TO_UINT16(A[q]);
+        }
         for (j = 0; j < PARAMS_NBAR; j++) {
             uint16_t sum = 0;
             int16_t sp[8];
-- 
2.43.0

