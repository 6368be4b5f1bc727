From 63a009ca3c82ba5171ea25c9e4ee87cb245950e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:53 +0000
Subject: [PATCH 01/26] fix: step paired 448-bit products and reductions by
 digits, not bytes

---
 src/eltfp448_1w_fullradix.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/eltfp448_1w_fullradix.c b/src/eltfp448_1w_fullradix.c
index 2fc565e..38a751e 100644
--- a/src/eltfp448_1w_fullradix.c
+++ b/src/eltfp448_1w_fullradix.c
@@ -863,17 +863,17 @@ DECL(void, reduce)(argElement_1w c, argElement_1w a) {
 
 DECL(void, intmul2_mulxadx)(argElement_1w c, argElement_1w a, argElement_1w b)  {
   FN(intmul_mulxadx)(c,a,b);
-  FN(intmul_mulxadx)(c+2*SIZE_FP448,a+SIZE_FP448,b+SIZE_FP448);
+  FN(intmul_mulxadx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64,b+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intmul2_mulx)(argElement_1w c, argElement_1w a, argElement_1w b) {
   FN(intmul_mulx)(c,a,b);
-  FN(intmul_mulx)(c+2*SIZE_FP448,a+SIZE_FP448,b+SIZE_FP448);
+  FN(intmul_mulx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64,b+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intmul2_mulq)(argElement_1w c, argElement_1w a, argElement_1w b) {
   FN(intmul_mulq)(c,a,b);
-  FN(intmul_mulq)(c+2*SIZE_FP448,a+SIZE_FP448,b+SIZE_FP448);
+  FN(intmul_mulq)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64,b+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intmul2)(argElement_1w c, argElement_1w a, argElement_1w b) {
@@ -890,17 +890,17 @@ DECL(void, intmul2)(argElement_1w c, argElement_1w a, argElement_1w b) {
 
 DECL(void, intsqr2_mulxadx)(argElement_1w c, argElement_1w a) {
   FN(intsqr_mulxadx)(c,a);
-  FN(intsqr_mulxadx)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(intsqr_mulxadx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intsqr2_mulx)(argElement_1w c, argElement_1w a) {
   FN(intsqr_mulx)(c,a);
-  FN(intsqr_mulx)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(intsqr_mulx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intsqr2_mulq)(argElement_1w c, argElement_1w a) {
   FN(intsqr_mulq)(c,a);
-  FN(intsqr_mulq)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(intsqr_mulq)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intsqr2)(argElement_1w c, argElement_1w a) {
@@ -917,12 +917,12 @@ DECL(void, intsqr2)(argElement_1w c, argElement_1w a) {
 
 DECL(void, reduce2_adx)(argElement_1w c, argElement_1w a) {
   FN(reduce_adx)(c,a);
-  FN(reduce_adx)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(reduce_adx)(c+NUM_DIGITS_FP448_X64,a+2*NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, reduce2_leg)(argElement_1w c, argElement_1w a) {
   FN(reduce_leg)(c,a);
-  FN(reduce_leg)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(reduce_leg)(c+NUM_DIGITS_FP448_X64,a+2*NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, reduce2)(argElement_1w c, argElement_1w a) {
-- 
2.43.0


From 11d8f753dfeb3b023bde823ddf978dd4d71c3aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:13 +0000
Subject: [PATCH 02/26] fix: 4-way negation entry of the Fp25519 table points
 at the 4-way function

---
 src/fp255.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp255.c b/src/fp255.c
index 8fe2fce..7ec4d7f 100644
--- a/src/fp255.c
+++ b/src/fp255.c
@@ -138,7 +138,7 @@ const PrimeField Fp25519 = {
             .add = SUFFIX(add,4,redradix),
             .cmp = SUFFIX(cmp,4,redradix),
             .mul = SUFFIX(mul,4,redradix),
-            .neg = SUFFIX(neg,2,redradix),
+            .neg = SUFFIX(neg,4,redradix),
             .ngz = SUFFIX(ngz,4,redradix),
             .sqr = SUFFIX(sqr,4,redradix),
             .srt = SUFFIX(srt,4,redradix),
-- 
2.43.0


From b834e12860aab01bd0185096277cf71de7f20810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:13 +0000
Subject: [PATCH 03/26] fix: align local constants that are read as vectors

---
 src/edwards255.c             | 2 +-
 src/eltfp25519_4w_redradix.c | 2 +-
 src/eltfp448_4w_redradix.c   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/edwards255.c b/src/edwards255.c
index 9cc99e6..e36ad32 100644
--- a/src/edwards255.c
+++ b/src/edwards255.c
@@ -438,7 +438,7 @@ static inline void _1way_fulladd_2w_H0H5(PointXYZT_2w_H0H5 *Q, PointXYZT_2w_H0H5
 	argElement_2w XY2 = P->XY;
 	argElement_2w TZ2 = P->TZ;
 
-	const uint64_t param_curve_2d_02[20] = {
+	const ALIGN uint64_t param_curve_2d_02[20] = {
 			0x2b2f159,0x0f3d130,0x2,0x0,
 			0x1a6e509,0x3407977,0x0,0x0,
 			0x22add7a,0x19ce331,0x0,0x0,
diff --git a/src/eltfp25519_4w_redradix.c b/src/eltfp25519_4w_redradix.c
index cc68d79..c95d4ab 100644
--- a/src/eltfp25519_4w_redradix.c
+++ b/src/eltfp25519_4w_redradix.c
@@ -218,7 +218,7 @@ DECL(void, addsublar)(argElement_4w  A, argElement_4w  B) {
 }
 
 DECL(void, ngz)(argElement_4w c, argElement_4w a) {
-  const uint64_t CONST_00_00_2P_00_H0H5[4*NUM_DIGITS_FP25519] = {
+  const ALIGN uint64_t CONST_00_00_2P_00_H0H5[4*NUM_DIGITS_FP25519] = {
       0x0000000,0x0000000,0x7ffffda,0x0000000,
       0x0000000,0x0000000,0x3fffffe,0x0000000,
       0x0000000,0x0000000,0x3fffffe,0x0000000,
diff --git a/src/eltfp448_4w_redradix.c b/src/eltfp448_4w_redradix.c
index 67cf7f1..934ed86 100644
--- a/src/eltfp448_4w_redradix.c
+++ b/src/eltfp448_4w_redradix.c
@@ -257,7 +257,7 @@ DECL(void, addsublar)(argElement_4w  A, argElement_4w  B) {
 }
 
 DECL(void, ngz)(argElement_4w c, argElement_4w a) {
-  const uint64_t CONST_00_00_2P_00_H0H8[4*NUM_DIGITS_FP448] = {
+  const ALIGN uint64_t CONST_00_00_2P_00_H0H8[4*NUM_DIGITS_FP448] = {
       0x0000000,0x0000000,0x1ffffffe,0x0000000,
       0x0000000,0x0000000,0x3ffffffc,0x0000000,
       0x0000000,0x0000000,0x1ffffffe,0x0000000,
-- 
2.43.0


From 6bd2d0a5ca97dfa64ada461c9622be026331ec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:18 +0000
Subject: [PATCH 04/26] fix: encoding of reduced-radix elements propagates the
 last carry (Fp25519)

---
 src/eltfp25519_1w_redradix.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eltfp25519_1w_redradix.c b/src/eltfp25519_1w_redradix.c
index b2e733e..5d3efa8 100644
--- a/src/eltfp25519_1w_redradix.c
+++ b/src/eltfp25519_1w_redradix.c
@@ -411,6 +411,8 @@ DECL(void, ser)(uint8_t *buf, argElement_1w a) {
   "xorl  %%ecx, %%ecx ;"
   "addq  %%rax,  %%r8 ;"
   "adcq  %%rcx,  %%r9 ;"
+  "adcq  %%rcx, %%r10 ;"
+  "adcq  %%rcx, %%r11 ;"
 
   "movq  %%r8,   (%0) ;"
   "movq  %%r9,  8(%0) ;"
-- 
2.43.0


From 0a942ac20d21b013395c076f00febbaf21bd8102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:18 +0000
Subject: [PATCH 05/26] fix: reduced-radix comparison looks at every bit
 (Fp25519)

---
 src/eltfp25519_1w_redradix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eltfp25519_1w_redradix.c b/src/eltfp25519_1w_redradix.c
index 5d3efa8..dd099d8 100644
--- a/src/eltfp25519_1w_redradix.c
+++ b/src/eltfp25519_1w_redradix.c
@@ -436,7 +436,7 @@ DECL(int, cmp)(argElement_1w a, argElement_1w b) {
   ALIGN uint8_t b_bytes[SIZE_FP25519];
   FN(ser)(a_bytes, a);
   FN(ser)(b_bytes, b);
-  return cmp_bytes(a_bytes, b_bytes, SIZE_FP25519) & 0x1;
+  return cmp_bytes(a_bytes, b_bytes, SIZE_FP25519) != 0;
 }
 
 DECL(void, cmv)(int bit, argElement_1w c, argElement_1w a, argElement_1w b) {
-- 
2.43.0


From 9ea10e1559cc58443df0d879f7d7986c44ec63a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:18 +0000
Subject: [PATCH 06/26] fix: encoding of reduced-radix elements propagates the
 last carry (Fp448)

---
 src/eltfp448_1w_redradix.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/eltfp448_1w_redradix.c b/src/eltfp448_1w_redradix.c
index 26fecfa..60e3640 100644
--- a/src/eltfp448_1w_redradix.c
+++ b/src/eltfp448_1w_redradix.c
@@ -427,9 +427,17 @@ DECL(void, ser)(uint8_t *buf, argElement_1w puA) {
   c[6] = (c[5]>>64) + (a[15]<<(8+BASE_FP448))   + (a[13]<<8);
 
   tmp = (c[6]>>64);
+  for(i=0;i<NUM_DIGITS_FP448_X64;i++)
+  {
+    c[i] = (uint64_t)c[i];
+  }
   c[0] += tmp;
   c[3] += tmp<<(4+BASE_FP448);
 
+  for(i=0;i<NUM_DIGITS_FP448_X64-1;i++)
+  {
+    c[i+1] += (c[i]>>64);
+  }
   for(i=0;i<NUM_DIGITS_FP448_X64;i++)
   {
     p64C[i]=c[i];
-- 
2.43.0


From 95558f5790122ae13c849012c3c92965e34f1bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:18 +0000
Subject: [PATCH 07/26] fix: prime() of Fp448 reduced radix uses the digit
 order of the representation

---
 src/eltfp448_1w_redradix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eltfp448_1w_redradix.c b/src/eltfp448_1w_redradix.c
index 60e3640..dcc2f5d 100644
--- a/src/eltfp448_1w_redradix.c
+++ b/src/eltfp448_1w_redradix.c
@@ -764,14 +764,14 @@ DECL(argElement_1w, alloc)(void) {
 
 DECL(void, prime)(argElement_1w a) {
   a[0] = 0xfffffff;
-  a[1] = 0xfffffff;
+  a[1] = 0xffffffe;
   a[2] = 0xfffffff;
   a[3] = 0xfffffff;
   a[4] = 0xfffffff;
   a[5] = 0xfffffff;
   a[6] = 0xfffffff;
   a[7] = 0xfffffff;
-  a[8] = 0xffffffe;
+  a[8] = 0xfffffff;
   a[9] = 0xfffffff;
   a[10] = 0xfffffff;
   a[11] = 0xfffffff;
-- 
2.43.0


From 562bfbcb90484803537af3c2093bf7cba255e2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:30 +0000
Subject: [PATCH 08/26] fix: random bytes are never returned unfilled after a
 failed open or read

---
 third_party/prng.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/third_party/prng.c b/third_party/prng.c
index 17afcde..a991d9b 100644
--- a/third_party/prng.c
+++ b/third_party/prng.c
@@ -9,6 +9,7 @@
  * @param buffer
  * @param num_bytes
  */
+#include <errno.h>
 #include <fcntl.h>
 #include <unistd.h>
 void prgn_random_bytes(uint8_t *buffer, size_t num_bytes) {
@@ -17,15 +18,20 @@ void prgn_random_bytes(uint8_t *buffer, size_t num_bytes) {
 
   if (fd == -1) {
     printf("Error opening /dev/urandom\n");
+    abort();
   }
 
   l = 0;
   do {
     c = read(fd, buffer + l, num_bytes - l);
-    l += c;
     if (c == -1) {
+      if (errno == EINTR) {
+        continue;
+      }
       printf("Error reading /dev/urandom\n");
+      abort();
     }
+    l += c;
   } while (l < num_bytes);
 
   close(fd);
-- 
2.43.0


From 983ebe055b5d259376671211fdcaa29d7f34928a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:14 +0000
Subject: [PATCH 09/26] fix: SHA-3 Final writes exactly the digest length, not
 a whole rate block

---
 third_party/sha3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third_party/sha3.c b/third_party/sha3.c
index 74ce6bc..7e30ac4 100644
--- a/third_party/sha3.c
+++ b/third_party/sha3.c
@@ -431,7 +431,7 @@ HashReturn Final(hashState *state, BitSequence *hashval) {
 
 	KeccakF2((uint64_t *) state->s);
 
-	memcpy(hashval, state->s, state->r / 8);
+	memcpy(hashval, state->s, state->hashbitlen / 8);
 
 	return SUCCESS;
 }
-- 
2.43.0


From 51e490a44283fe3836a2d75a8f0c352cd4e76e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:30 +0000
Subject: [PATCH 10/26] fix: Keccak lanes may alias the byte state, SHA-3 gave
 wrong output when optimised

---
 third_party/sha3.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/third_party/sha3.c b/third_party/sha3.c
index 7e30ac4..1432b3f 100644
--- a/third_party/sha3.c
+++ b/third_party/sha3.c
@@ -37,7 +37,10 @@ static const uint64_t KeccakF21600RoundConstants[24] =
 				(uint64_t) 0x8000000080008008ULL
 		};
 
-static void KeccakF2(uint64_t *state) {
+/* The byte array inside hashState is also accessed as 64-bit lanes. */
+typedef uint64_t __attribute__ ((may_alias)) keccak_lane_t;
+
+static void KeccakF2(keccak_lane_t *state) {
 
 	uint64_t Ba, Be, Bi, Bo, Bu;
 	uint64_t Ca, Ce, Ci, Co, Cu;
@@ -399,7 +402,7 @@ HashReturn Update(hashState *state, const BitSequence *data, DataLength databitl
 			state->s[i] = state->s[i] ^ tmp[j];
 		}
 
-		KeccakF2((uint64_t *) state->s);
+		KeccakF2((keccak_lane_t *) state->s);
 
 		tmp += ((state->r - state->statebitlen) / 8);
 		lentmp -= (state->r - state->statebitlen);
@@ -429,7 +432,7 @@ HashReturn Final(hashState *state, BitSequence *hashval) {
 	state->s[sbytelen] ^= 0x06;
 	state->s[(state->r / 8) - 1] ^= 0x80;
 
-	KeccakF2((uint64_t *) state->s);
+	KeccakF2((keccak_lane_t *) state->s);
 
 	memcpy(hashval, state->s, state->hashbitlen / 8);
 
@@ -447,14 +450,14 @@ HashReturn Final2(hashState *state, BitSequence *hashval, unsigned int d_byte) {
 	state->s[sbytelen] ^= 0x1F;
 	state->s[r - 1] ^= 0x80;
 
-	KeccakF2((uint64_t *) state->s);
+	KeccakF2((keccak_lane_t *) state->s);
 
 
 	while (d_byte > r) {
 
 		memcpy((hashval + j), state->s, r);
 
-		KeccakF2((uint64_t *) state->s);
+		KeccakF2((keccak_lane_t *) state->s);
 		j += r;
 		d_byte -= r;
 	}
-- 
2.43.0


From 3885d393b1b7971b21f13ebf32778e569d3b573e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 11/26] fix: two-way SHA-512 of 256-bit messages read 96 bytes
 past each message

---
 third_party/sha512_2way.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third_party/sha512_2way.c b/third_party/sha512_2way.c
index b22d99e..3a7edba 100644
--- a/third_party/sha512_2way.c
+++ b/third_party/sha512_2way.c
@@ -241,7 +241,7 @@ void sha512_2w_avx_256b(uint8_t *message_2x[2], uint8_t *digest_2x[2])
     initialize(state);
     for (msg = 0; msg < NUM_MSG; msg++)
     {
-        for (i = 0; i < 16/(NUM_MSG); i++)
+        for (i = 0; i < 2; i++)
         {
             block[NUM_MSG*i+msg] = SHUF8(LOAD(message_2x[msg]+i),big_endian);
         }
-- 
2.43.0


From d8e1b410528b23d218ea22965549943c686cc884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 12/26] fix: multi-word multiply-accumulate dropped carries,
 scalar reductions were not canonical for every input

---
 src/bytestring.c | 23 ++++++++++++++++-------
 src/edwards448.c | 26 ++++++++++++++++++++++----
 src/sign255.c    | 16 +++++++++++++++-
 3 files changed, 53 insertions(+), 12 deletions(-)

diff --git a/src/bytestring.c b/src/bytestring.c
index 0f9f3dc..f488307 100644
--- a/src/bytestring.c
+++ b/src/bytestring.c
@@ -65,6 +65,7 @@ static void deallocate_bytes(void *a) {
 }
 
 /**
+ * Calculates C = C + A*B. The array C has numA+numB+1 words.
  *
  * @param C
  * @param A
@@ -77,19 +78,27 @@ static inline void word64_multiplier(
     const uint64_t *A, const int numA,
     const uint64_t *B, const int numB) {
   int i, j;
-#define mul64x64(Z, X, Y)    __asm__ __volatile__ (\
-            "movq 0(%3), %%rax     ;"\
-            "mulq 0(%4)            ;"\
+  uint64_t carry;
+#define mul64x64(Z, K, X, Y)    __asm__ __volatile__ (\
+            "movq 0(%2), %%rax     ;"\
+            "mulq 0(%3)            ;"\
+            "addq %1, %%rax        ;"\
+            "adcq $0x0, %%rdx      ;"\
             "addq %%rax, %0        ;"\
-            "adcq %%rdx, %1        ;"\
-            "adcq $0x0,  %2        ;"\
-    :/* out  */ "+r" ((Z)[0]),"+r" ((Z)[1]),"+r" ((Z)[2])\
+            "adcq $0x0, %%rdx      ;"\
+            "movq %%rdx, %1        ;"\
+    :/* out  */ "+r" (*(Z)),"+r" (K)\
     :/* in   */ "r" (X),"r" (Y)\
     :/* regs */ "memory","cc","%rax","%rdx");
 
   for (i = 0; i < numA; i++) {
+    carry = 0;
     for (j = 0; j < numB; j++) {
-      mul64x64(C + i + j, A + i, B + j);
+      mul64x64(C + i + j, carry, A + i, B + j);
+    }
+    for (j = i + numB; j <= numA + numB; j++) {
+      C[j] += carry;
+      carry = C[j] < carry;
     }
   }
 #undef mul64x64
diff --git a/src/edwards448.c b/src/edwards448.c
index 53c9743..0a0a724 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -40,7 +40,9 @@ static inline void modular_reduction_ed448(uint8_t *a) {
 	const uint64_t ell[4]   = {0xdc873d6d54a7bb0d,0xde933d8d723a70aa,0x3bb124b65129c96f,0x08335dc16};
 	uint64_t *pA = (uint64_t *)a;
 
+	uint64_t mask;
 	ALIGN uint64_t product[15];
+	ALIGN uint64_t reduced[9];
 	ALIGN uint64_t high[8];
 
 	high[7]=0;
@@ -52,7 +54,7 @@ static inline void modular_reduction_ed448(uint8_t *a) {
 	{
 		product[i] = pA[i];
 	}
-	for(i=7;i<13;i++)
+	for(i=7;i<15;i++)
 	{
 		product[i] = 0;
 	}
@@ -69,11 +71,27 @@ static inline void modular_reduction_ed448(uint8_t *a) {
 		((uint8_t *)high)[i] = ((uint8_t*)product)[i+56];
 		((uint8_t*)product)[i+56]=0;
 	}
-	word64_multiplier(product,ellx4,4,high,1);
+	word64_multiplier(product,ellx4,4,high,4);
 
-	high[0] = product[6]>>62;
+	high[0] = (product[7]<<2) | (product[6]>>62);
+	product[7] = 0;
 	product[6] &= (((uint64_t)1)<<62)-1;
-	word64_multiplier(product,ell,4,high,1);
+	word64_multiplier(product,ell,4,high,4);
+
+	/* subtracts the order when the number is not smaller than it */
+	for(i=0;i<7;i++)
+	{
+		reduced[i] = product[i];
+	}
+	reduced[7] = reduced[8] = 0;
+	high[0] = 1;
+	word64_multiplier(reduced,ell,4,high,4);
+	mask = -((reduced[6]>>62) & 1);
+	reduced[6] &= (((uint64_t)1)<<62)-1;
+	for(i=0;i<7;i++)
+	{
+		product[i] = (product[i] & ~mask) | (reduced[i] & mask);
+	}
 	for(i=0;i<56;i++)
 	{
 		a[i] = ((uint8_t*)product)[i];
diff --git a/src/sign255.c b/src/sign255.c
index b4618ca..d6cfd36 100644
--- a/src/sign255.c
+++ b/src/sign255.c
@@ -207,13 +207,27 @@ static inline void reduce64bits(uint64_t *a) {
   "sbbq    %%rdx,  %%r8  \n\t"
   "sbbq     $0x0,  %%r9  \n\t"
 
+  /* adds \ell back whenever the difference is negative */
+  "movq     %%r9, %%r10  \n\t"
+  "sarq      $63, %%r10  \n\t"
+  "movq    0(%1), %%rax  \n\t"
+  "andq    %%r10, %%rax  \n\t"
+  "movq    8(%1), %%rdx  \n\t"
+  "andq    %%r10, %%rdx  \n\t"
+  "shrq      $63, %%r10  \n\t"
+  "shlq      $60, %%r10  \n\t"
+  "addq    %%rax, %%rbx  \n\t"
+  "adcq    %%rdx, %%rcx  \n\t"
+  "adcq     $0x0,  %%r8  \n\t"
+  "adcq    %%r10,  %%r9  \n\t"
+
   "movq    %%rbx,  0(%0) \n\t"
   "movq    %%rcx,  8(%0) \n\t"
   "movq     %%r8, 16(%0) \n\t"
   "movq     %%r9, 24(%0) \n\t"
   :/* out  */
   :/* in   */ "r" (a), "r" (ell)
-  :/* regs */ "memory", "cc", "%rax", "%rbx", "%rcx", "%rdx", "%r8", "%r9"
+  :/* regs */ "memory", "cc", "%rax", "%rbx", "%rcx", "%rdx", "%r8", "%r9", "%r10"
   );
 }
 
-- 
2.43.0


From 9fe98c02bc58af3ea80019062e0d5b81a365010a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 13/26] fix: wipe the scalar copy that div4 keeps on the stack

---
 src/edwards448.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/edwards448.c b/src/edwards448.c
index 0a0a724..69c492d 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -127,6 +127,7 @@ static inline void div4(uint8_t * number_div_4,const uint8_t * number) {
 		((uint8_t*)a)[i] = number[i];
 	}
 	word64_multiplier(product,ifour,7,a,7);
+	spc_memset(a,0,sizeof(a));
 	modular_reduction_ed448((uint8_t*)product);
 	for(i=0;i<56;i++)
 	{
-- 
2.43.0


From 9729f2483294b9bac1d7447e347de4a6b233d6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 14/26] fix: Fp25519 srt slots compare v*x^2 against -u even
 though u is the output

---
 src/eltfp25519_1w_fullradix.c | 10 ++++++----
 src/eltfp25519_1w_redradix.c  |  9 ++++++---
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/eltfp25519_1w_fullradix.c b/src/eltfp25519_1w_fullradix.c
index de0dc1d..9cdd7be 100644
--- a/src/eltfp25519_1w_fullradix.c
+++ b/src/eltfp25519_1w_fullradix.c
@@ -1427,12 +1427,16 @@ DECL(void, invsqrt)(argElement_1w uv_p38, argElement_1w u, argElement_1w v) {
       0x2b4d00993dfbd7a7,
       0x2b8324804fc1df0b
   };
-  EltFp25519_1w_fullradix v2;
+  EltFp25519_1w_fullradix v2, minus_u;
   EltFp25519_1w_fullradix uv, uv3, uv7;
   EltFp25519_1w_fullradix x2, x9, uv7_p58;
   argElement_1w Tab[4];
   int counter;
 
+  /* -u, kept apart since u may alias the output */
+  FN(copy)(minus_u, u);
+  FN(neg)(minus_u);
+
   /*  uv = u*v     */
   FN(mul)(uv, u, v);
   FN(copy)(v2, v);
@@ -1504,10 +1508,8 @@ DECL(void, invsqrt)(argElement_1w uv_p38, argElement_1w u, argElement_1w v) {
   FN(sqr)(uv3);
   /* uv  = uv3*v     */
   FN(mul)(uv, uv3, v);
-  /*  u  = -u        */
-  FN(neg)(u);
 
-  if (FN(cmp)(uv, u) == 0) {
+  if (FN(cmp)(uv, minus_u) == 0) {
     /*  uv_p38 = uv_p38*sqrt(-1) */
     FN(mul)(uv_p38, uv_p38, sqrt_minus_one);
   }
diff --git a/src/eltfp25519_1w_redradix.c b/src/eltfp25519_1w_redradix.c
index dd099d8..2034811 100644
--- a/src/eltfp25519_1w_redradix.c
+++ b/src/eltfp25519_1w_redradix.c
@@ -726,9 +726,13 @@ DECL(void, invsqrt)(argElement_1w uv_p38, argElement_1w u, argElement_1w v) {
       0x035697f, 0x004fc1d,
       0x0bd0c60, 0x0ae0c92
   };
-  EltFp25519_1w_redradix v2, uv, uv3, uv7, x2, x9, sqrt;
+  EltFp25519_1w_redradix v2, minus_u, uv, uv3, uv7, x2, x9, sqrt;
   argElement_1w Tab[4];
 
+  /* -u, kept apart since u may alias the output */
+  FN(copy)(minus_u, u);
+  FN(neg)(minus_u);
+
   FN(mul)(uv, u, v);     /* uv */
   FN(copy)(v2, v);
   FN(sqr)(v2);           /* v^2 */
@@ -795,9 +799,8 @@ DECL(void, invsqrt)(argElement_1w uv_p38, argElement_1w u, argElement_1w v) {
   FN(copy)(uv3, uv_p38);
   FN(sqr)(uv3);        /*   B^2 */
   FN(mul)(uv, uv3, v); /* v*B^2 */
-  FN(neg)(u);
 
-  if (FN(cmp)(uv, u) == 0) {
+  if (FN(cmp)(uv, minus_u) == 0) {
     FN(mul)(uv_p38, uv_p38, (argElement_1w) sqrt_minus_one);/* (√-1)*B */
   }
 }
-- 
2.43.0


From 13e0bdd910b70668a96e26b245ce99b348a86639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 15/26] fix: 4-way Fp25519 srt multiplies by sqrt(-1) only the
 lanes that need it

---
 src/eltfp25519_4w_redradix.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/eltfp25519_4w_redradix.c b/src/eltfp25519_4w_redradix.c
index c95d4ab..4dd7aff 100644
--- a/src/eltfp25519_4w_redradix.c
+++ b/src/eltfp25519_4w_redradix.c
@@ -812,8 +812,14 @@ DECL(void, invsqrt)(argElement_4w uv_p38, argElement_4w u, argElement_4w v) {
 	SET164(0x035697f),SET164(0x004fc1d),
 	SET164(0x0bd0c60),SET164(0x0ae0c92),
   };
-  EltFp25519_4w_redradix v2, uv, uv3, uv7, x2, x9, sqrt;
+  EltFp25519_4w_redradix v2, minus_u, uv, uv3, uv7, x2, x9, sqrt;
   argElement_4w Tab[4];
+  __m256i differ;
+  int i;
+
+  /* -u, kept apart since u may alias the output */
+  FN(copy)(minus_u, u);
+  FN(neg)(minus_u);
 
   FN(mul)(uv, u, v);     /* uv */
   FN(copy)(v2, v);
@@ -881,11 +887,13 @@ DECL(void, invsqrt)(argElement_4w uv_p38, argElement_4w u, argElement_4w v) {
   FN(copy)(uv3, uv_p38);
   FN(sqr)(uv3);        /*   B^2 */
   FN(mul)(uv, uv3, v); /* v*B^2 */
-  FN(neg)(u);
 
-  // if (FN(cmp)(uv, u) == ZERO) {
-    FN(mul)(uv_p38, uv_p38, sqrt_minus_one);/* (√-1)*B */
-  // }
+  /* (√-1)*B, only in the lanes where v*B^2 == -u */
+  FN(mul)(sqrt, uv_p38, sqrt_minus_one);
+  differ = SUB(ZERO, FN(cmp)(uv, minus_u));
+  for (i = 0; i < NUM_DIGITS_FP25519; i++) {
+    uv_p38[i] = _mm256_blendv_epi8(sqrt[i], uv_p38[i], differ);
+  }
 }
 
 DECL(void, srt)(argElement_4w c, argElement_4w a) {
-- 
2.43.0


From 9267ae37d618a37feedb95b0aab7d338d3ad5613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 16/26] fix: 2-way Fp25519 naddsub adds 4P so that -A-B never
 underflows

---
 src/eltfp25519_2w_redradix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eltfp25519_2w_redradix.c b/src/eltfp25519_2w_redradix.c
index 60f8b7b..b27b7ec 100644
--- a/src/eltfp25519_2w_redradix.c
+++ b/src/eltfp25519_2w_redradix.c
@@ -711,7 +711,7 @@ DECL(void, naddsub)(argElement_2w C, argElement_2w D,argElement_2w A, argElement
   for(i=0;i<(NUM_DIGITS_FP25519/2);i++)
   {
     __m256i T = SUB(_2P[i],A[i]);
-    C[i] = SUB(T,B[i]);
+    C[i] = ADD(SUB(T,B[i]),_2P[i]);
     D[i] = ADD(T,B[i]);
   }
 }
-- 
2.43.0


From 4a979ce7cfe3257ce40178c548d8bbe80b036aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 17/26] fix: 4-way Fp448 addsublar adds 2^35*P so that the
 difference of unreduced products never underflows

---
 src/eltfp448_4w_redradix.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/eltfp448_4w_redradix.c b/src/eltfp448_4w_redradix.c
index 934ed86..8f1439f 100644
--- a/src/eltfp448_4w_redradix.c
+++ b/src/eltfp448_4w_redradix.c
@@ -236,21 +236,21 @@ DECL(void, addsub)(argElement_4w  C,argElement_4w  D, argElement_4w  A, argEleme
 }
 
 DECL(void, addsublar)(argElement_4w  A, argElement_4w  B) {
-  const __m256i _2_to_34P[NUM_DIGITS_FP448] = {
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffff800000000),
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffffc00000000)
+  const __m256i _2_to_35P[NUM_DIGITS_FP448] = {
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff000000000),
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff800000000),
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff800000000),
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff800000000),
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff800000000),
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff800000000),
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff800000000),
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff800000000)
   };
   int i=0;
   for(i=0;i<NUM_DIGITS_FP448;i++)
   {
       __m256i add = ADD(A[i],B[i]);
-      __m256i sub = ADD(A[i],SUB(_2_to_34P[i], B[i]));
+      __m256i sub = ADD(A[i],SUB(_2_to_35P[i], B[i]));
       A[i] = add;
       B[i] = sub;
   }
-- 
2.43.0


From 014622e88f41c8088a664835ae772fdbff372696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 18/26] fix: Ed25519 4-way mixed addition adds 2^35*P, not
 2^34*P, before subtracting products

---
 src/edwards255.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/edwards255.c b/src/edwards255.c
index e36ad32..91be9b3 100644
--- a/src/edwards255.c
+++ b/src/edwards255.c
@@ -1198,16 +1198,16 @@ static inline int wnaf_256bits(int8_t *K, const uint8_t *p8_r, int w) {
 }
 
 static const ALIGN uint64_t CONST_2_to_35P_4w[4*NUM_DIGITS_FP25519] = {
-		0xfffffb400000000,0xfffffb400000000,0xfffffb400000000,0xfffffb400000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000
+		0x1fffff6800000000,0x1fffff6800000000,0x1fffff6800000000,0x1fffff6800000000,
+		0xffffff800000000,0xffffff800000000,0xffffff800000000,0xffffff800000000,
+		0xffffff800000000,0xffffff800000000,0xffffff800000000,0xffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0xffffff800000000,0xffffff800000000,0xffffff800000000,0xffffff800000000,
+		0xffffff800000000,0xffffff800000000,0xffffff800000000,0xffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0xffffff800000000,0xffffff800000000,0xffffff800000000,0xffffff800000000
 };
 /**
  * Computes the doubling of ONE point
-- 
2.43.0


From ceb2a31e6ed7b12308838d94f4dc6750060fbb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 19/26] fix: Ed448 4-way mixed addition adds 2^35*P, only in
 the lanes that subtract

---
 src/edwards448.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/edwards448.c b/src/edwards448.c
index 69c492d..dd62e99 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -520,15 +520,15 @@ static inline void _1way_doubling_2w_H0H8(PointXYZT_2w_H0H8 * P) {
 static inline void _1way_mixadd_4w_H0H8(PointXYTZ_4w_H0H8 * Q, PointXYTZ_precompute_4w_H0H8 * P) {
   int i;
   EltFp448_4w_redradix ABCD, subYX_addYX_T_Z;
-  const __m256i CONST_2_to_34P[NUM_DIGITS_FP448] = {
-      SET164(0x3ffffffc00000000), SET164(0x3ffffff800000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000)
+  const __m256i CONST_2_to_35P_00_00_2_to_35P[NUM_DIGITS_FP448] = {
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000), SET64(0x7ffffff000000000, 0, 0, 0x7ffffff000000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000), SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000), SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000), SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000), SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000), SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000), SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000), SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000)
   };
 
   const __m256i CONST_2P_00_00_00[NUM_DIGITS_FP448] = {
@@ -542,7 +542,7 @@ static inline void _1way_mixadd_4w_H0H8(PointXYTZ_4w_H0H8 * Q, PointXYTZ_precomp
       SET64(0, 0, 0, 0x1ffffffe), SET64(0, 0, 0, 0x1ffffffe)
   };
 
-  argElement_4w _2_to_34P = (argElement_2w) CONST_2_to_34P;
+  argElement_4w _2_to_35P_00_00_2_to_35P = (argElement_2w) CONST_2_to_35P_00_00_2_to_35P;
   argElement_4w _2P_00_00_00 = (argElement_2w) CONST_2P_00_00_00;
   argElement_4w XYTZ = Q->XYTZ;
   argElement_4w EGHF = subYX_addYX_T_Z;
@@ -562,7 +562,7 @@ static inline void _1way_mixadd_4w_H0H8(PointXYTZ_4w_H0H8 * Q, PointXYTZ_precomp
   for (i = 0; i < NUM_DIGITS_FP448; i++) {
     __m256i BDBD = PERM64(ABCD[i], 0xDD);
     __m256i ACAC = PERM64(ABCD[i], 0x88);
-    EGHF[i] = ADD(ADD(BDBD, _2_to_34P[i]), SUB(XOR(ACAC, mask_subadd2), mask_subadd2));
+    EGHF[i] = ADD(ADD(BDBD, _2_to_35P_00_00_2_to_35P[i]), SUB(XOR(ACAC, mask_subadd2), mask_subadd2));
   }
   Fp448._4w_red.arithex.compress(EGHF);
 
-- 
2.43.0


From 5a6f71de9b8e2a79b8a48adb5f63493677423b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 20/26] fix: Ed25519 point decoding rejects y >= p, non-points
 and a negative zero

---
 src/edwards255.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/edwards255.c b/src/edwards255.c
index 91be9b3..d27bd68 100644
--- a/src/edwards255.c
+++ b/src/edwards255.c
@@ -1092,7 +1092,7 @@ static inline int point_decoding_ed25519(
       0x8cc740797779e898,
       0x52036cee2b6ffe73
   };
-  EltFp25519_1w_fullradix X, Y, T, u, v;
+  EltFp25519_1w_fullradix X, Y, T, u, v, w;
   EltFp25519_1w_fullradix one = {0};
   uint8_t bit_X;
 
@@ -1102,6 +1102,11 @@ static inline int point_decoding_ed25519(
   Fp25519._1w_full.arith.misc.copy(u, (argElement_1w) A);
   u[3] &= ((uint64_t) 1 << 63) - 1;
   Fp25519._1w_full.arith.misc.copy(Y, u);
+  /*  Checking whether y is a canonical value, i.e. y < p */
+  modp_Fp255_1w_fullradix(u);
+  if ((u[0] != Y[0]) || (u[1] != Y[1]) || (u[2] != Y[2]) || (u[3] != Y[3])) {
+    return -1;
+  }
   /*  u = y^2    */
   Fp25519._1w_full.arith.sqr(u);
   /*  v = dy^2   */
@@ -1112,10 +1117,22 @@ static inline int point_decoding_ed25519(
   Fp25519._1w_full.arith.add(v, v, one);
   /*  X = sqrt(u/v) */
   invsqrt_Fp255_1w_fullradix(X, u, v);
+  /*  Checking whether v*x^2 == u */
+  Fp25519._1w_full.arith.misc.copy(w, X);
+  Fp25519._1w_full.arith.sqr(w);
+  Fp25519._1w_full.arith.mul(w, w, v);
+  if (Fp25519._1w_full.arith.cmp(w, u) != 0) {
+    /* no square root exists */
+    return -1;
+  }
   /*  Checking whether
    *  X is positive or negative
    */
   modp_Fp255_1w_fullradix(X);
+  if (((X[0] | X[1] | X[2] | X[3]) == 0) && (bit_X == 1)) {
+    /* zero has no negative encoding */
+    return -1;
+  }
   if (bit_X == (X[0] & 0x1)) {
     Fp25519._1w_full.arith.neg(X);
   }
-- 
2.43.0


From 898d96686d1bed2c2c9ff2067deb3e4b747df6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 21/26] fix: Ed448 point decoding rejects non-canonical
 encodings and does not underflow

---
 src/edwards448.c | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/edwards448.c b/src/edwards448.c
index dd62e99..85e3d2f 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -807,23 +807,34 @@ static int point_decoding_ed448(
       0xfffffff, 0xfffffff
   };
   EltFp448_1w_redradix X, Y, Z, T;
+  EltFp448_1w_redradix one = {1};
   EltFp448_1w_redradix a, b, c, d;
   EltFp448_1w_redradix u, v, v2;
   EltFp448_1w_redradix uv, u2, u3v, u5v, u5v3, u5v3_exp;
   Ed448_PublicKey buf;
+  ALIGN uint8_t encX[SIZE_FP448], encY[SIZE_FP448];
+  int i;
+  uint8_t acc = 0;
 
   memcpy(buf, A, ED448_KEY_SIZE_BYTES_PARAM);
-  int8_t bit_X = buf[ED448_KEY_SIZE_BYTES_PARAM - 1] >> 7;
+  uint8_t bit_X = buf[ED448_KEY_SIZE_BYTES_PARAM - 1] >> 7;
 
   buf[ED448_KEY_SIZE_BYTES_PARAM - 1] &= 0x7F;
   Fp448._1w_red.arith.misc.unser(Y, buf);
-  buf[ED448_KEY_SIZE_BYTES_PARAM - 1] |= bit_X << 7;
+
+  /* Checking whether y is a canonical value, i.e. y < p */
+  Fp448._1w_red.arith.misc.ser(encY, Y);
+  if (buf[ED448_KEY_SIZE_BYTES_PARAM - 1] != 0 || memcmp(encY, buf, SIZE_FP448) != 0) {
+    return -1;
+  }
 
   Fp448._1w_red.arith.misc.copy(u, Y);
   Fp448._1w_red.arith.sqr(u);  /* y^2 */
   Fp448._1w_red.arith.mul(v, u, (argElement_1w) param_curve_d);/* dy^2 */
-  u[0] = u[0] - 1;  /* u=y^2-1 */
-  v[0] = v[0] - 1;  /* v=dy^2-1 */
+  Fp448._1w_red.arith.sub(u, u, one);  /* u=y^2-1 */
+  Fp448._1w_red.arithex.compressfast(u);
+  Fp448._1w_red.arith.sub(v, v, one);  /* v=dy^2-1 */
+  Fp448._1w_red.arithex.compressfast(v);
 
   Fp448._1w_red.arith.mul(uv, u, v);      /* uv */
   Fp448._1w_red.arith.misc.copy(u2, u);
@@ -854,7 +865,15 @@ static int point_decoding_ed448(
    * Checking whether
    *      X is positive or negative
    **/
-  if ((unsigned) bit_X != (X[0] & 0x1)) {
+  Fp448._1w_red.arith.misc.ser(encX, X);
+  for (i = 0; i < SIZE_FP448; i++) {
+    acc |= encX[i];
+  }
+  if (acc == 0 && bit_X != 0) {
+    /* zero has no negative encoding */
+    return -1;
+  }
+  if (bit_X != (encX[0] & 0x1)) {
     Fp448._1w_red.arith.neg(X);
     Fp448._1w_red.arithex.compressfast(X);
   }
@@ -872,6 +891,7 @@ static int point_decoding_ed448(
   Fp448._1w_red.arith.neg(a);
   Fp448._1w_red.arithex.compressfast(a);
   Fp448._1w_red.arith.sqr(X);
+  Fp448._1w_red.arithex.compressfast(X);
   Fp448._1w_red.arith.sqr(Y);
   Fp448._1w_red.arith.add(b, Y, X);
   new_compressfast_Fp448_1w_redradix(b);
-- 
2.43.0


From a52b63fe097934ce2bc9633bde48404a99557326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 22/26] fix: Ed25519 verification rejects S >= L

---
 src/sign255.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/sign255.c b/src/sign255.c
index d6cfd36..51badba 100644
--- a/src/sign255.c
+++ b/src/sign255.c
@@ -461,6 +461,29 @@ static int ed25519ph_signctx(
                           context, context_length, public_key, private_key, 0, 1);
 }
 
+/**
+ * Checks whether the scalar S of a signature is smaller than the
+ * order of the group, as RFC 8032 requires.
+ *
+ * @param S little-endian scalar
+ * @return 1 if S is smaller than the order, otherwise 0.
+ */
+static int is_reduced_scalar_ed25519(const uint8_t *S) {
+  static const uint8_t order[ED25519_KEY_SIZE_BYTES_PARAM] = {
+      0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58,
+      0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
+      0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
+      0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x10
+  };
+  int i;
+  for (i = ED25519_KEY_SIZE_BYTES_PARAM - 1; i >= 0; i--) {
+    if (S[i] != order[i]) {
+      return S[i] < order[i];
+    }
+  }
+  return 0;
+}
+
 /**
  *
  * @param message
@@ -523,6 +546,10 @@ static inline int ed25519_verify_all(
   sph_sha512_close(&hash_context, H_RAM);
   modular_reduction_ed25519(H_RAM);
 
+  if (!is_reduced_scalar_ed25519(signature + ED25519_KEY_SIZE_BYTES_PARAM)) {
+    return EDDSA_INVALID_SIGNATURE;
+  }
+
   double_point_mult_4w_ed25519(Q, (uint8_t *) (signature + ED25519_KEY_SIZE_BYTES_PARAM), H_RAM, &A);
   return (memcmp(signature, Q, ED25519_KEY_SIZE_BYTES_PARAM) == 0) ? EDDSA_VERIFICATION_OK : EDDSA_INVALID_SIGNATURE;
 }
-- 
2.43.0


From 2a690ac9b8e5ba8890beeab124149831457c1df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 23/26] fix: Ed448 verification rejects S >= L

---
 src/sign448.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/sign448.c b/src/sign448.c
index 997e7c8..a6039b5 100644
--- a/src/sign448.c
+++ b/src/sign448.c
@@ -241,6 +241,33 @@ static int ed448ph_signctx(
   return ed448_sign_all(signature, message, message_length, context, context_length, public_key, private_key, 1);
 }
 
+/**
+ * Checks whether the scalar S of a signature is smaller than the
+ * order of the group, as RFC 8032 requires.
+ *
+ * @param S little-endian scalar
+ * @return 1 if S is smaller than the order, otherwise 0.
+ */
+static int is_reduced_scalar_ed448(const uint8_t *S) {
+  static const uint8_t order[ED448_KEY_SIZE_BYTES_PARAM] = {
+      0xf3, 0x44, 0x58, 0xab, 0x92, 0xc2, 0x78, 0x23,
+      0x55, 0x8f, 0xc5, 0x8d, 0x72, 0xc2, 0x6c, 0x21,
+      0x90, 0x36, 0xd6, 0xae, 0x49, 0xdb, 0x4e, 0xc4,
+      0xe9, 0x23, 0xca, 0x7c, 0xff, 0xff, 0xff, 0xff,
+      0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+      0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+      0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x3f,
+      0x00
+  };
+  int i;
+  for (i = ED448_KEY_SIZE_BYTES_PARAM - 1; i >= 0; i--) {
+    if (S[i] != order[i]) {
+      return S[i] < order[i];
+    }
+  }
+  return 0;
+}
+
 /**
  *
  * @param message
@@ -297,6 +324,10 @@ static int ed448_verify_all(
     return EDDSA_ERROR_PUBLICKEY;
   }
 
+  if (!is_reduced_scalar_ed448(signature + ED448_KEY_SIZE_BYTES_PARAM)) {
+    return EDDSA_INVALID_SIGNATURE;
+  }
+
   double_point_mult_4w_ed448(Q, signature + ED448_KEY_SIZE_BYTES_PARAM, H_RAM, &A);
   return (memcmp(signature, Q, ED448_KEY_SIZE_BYTES_PARAM) == 0) ? EDDSA_VERIFICATION_OK : EDDSA_INVALID_SIGNATURE;
 }
-- 
2.43.0


From d4a0dc8301b67bbb566f2275a5451e91f75c8e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:57 +0000
Subject: [PATCH 24/26] fix: no word access through byte pointers of unknown
 alignment (serialisation, S output, digit recoding)

---
 src/edwards255.c              | 6 ++----
 src/eltfp25519_1w_fullradix.c | 8 +++++---
 src/eltfp25519_1w_redradix.c  | 2 +-
 src/eltfp448_1w_fullradix.c   | 8 +++++---
 src/eltfp448_1w_redradix.c    | 3 ++-
 src/fp255.c                   | 1 +
 src/fp448.c                   | 1 +
 src/sign255.c                 | 4 +---
 8 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/edwards255.c b/src/edwards255.c
index d27bd68..4a5034f 100644
--- a/src/edwards255.c
+++ b/src/edwards255.c
@@ -18,6 +18,7 @@
 
 #if defined(ED255)
 
+#include <string.h>
 #include "edwards255.h"
 #include "table_verf_w7_ed25519.h"
 
@@ -1187,10 +1188,7 @@ static inline int wnaf_256bits(int8_t *K, const uint8_t *p8_r, int w) {
 	int i = 0;
 	int64_t value;
 	ALIGN uint64_t r[4];
-	r[0] = ((uint64_t *)p8_r)[0];
-	r[1] = ((uint64_t *)p8_r)[1];
-	r[2] = ((uint64_t *)p8_r)[2];
-	r[3] = ((uint64_t *)p8_r)[3];
+	memcpy(r, p8_r, sizeof(r));
 
 	while(is_greater_equal_one(r))
 	{
diff --git a/src/eltfp25519_1w_fullradix.c b/src/eltfp25519_1w_fullradix.c
index 9cdd7be..7addb66 100644
--- a/src/eltfp25519_1w_fullradix.c
+++ b/src/eltfp25519_1w_fullradix.c
@@ -822,12 +822,14 @@ DECL(void, modp)(argElement_1w c) {
 }
 
 DECL(void, ser)(uint8_t *buffer, argElement_1w c) {
-  FN(copy)((argElement_1w)buffer,c);
-  FN(modp)((argElement_1w)buffer);
+  EltFp25519_1w_fullradix t;
+  FN(copy)(t,c);
+  FN(modp)(t);
+  memcpy(buffer,t,SIZE_FP25519);
 }
 
 DECL(void, unser)(argElement_1w c, uint8_t *buffer) {
-  FN(copy)(c,(argElement_1w)buffer);
+  memcpy(c,buffer,SIZE_FP25519);
   FN(modp)(c);
 }
 
diff --git a/src/eltfp25519_1w_redradix.c b/src/eltfp25519_1w_redradix.c
index 2034811..5b76c60 100644
--- a/src/eltfp25519_1w_redradix.c
+++ b/src/eltfp25519_1w_redradix.c
@@ -288,7 +288,7 @@ DECL(void, unser)(argElement_1w pC, uint8_t *p8A) {
   __m128i z0, z1, z2, z3, z4;
   __m128i xB, xC, xD, xE, xG, xH, xI, xJ;
 
-  copy_Fp255_1w_fullradix(pA,(argElement_1w)p8A);
+  memcpy(pA,p8A,SIZE_FP25519);
   modp_Fp255_1w_fullradix(pA);
 
   xA = LOAD128(pA + 0);
diff --git a/src/eltfp448_1w_fullradix.c b/src/eltfp448_1w_fullradix.c
index 38a751e..6e1c024 100644
--- a/src/eltfp448_1w_fullradix.c
+++ b/src/eltfp448_1w_fullradix.c
@@ -162,12 +162,14 @@ DECL(int, sgn)(argElement_1w c) {
 }
 
 DECL(void, ser)(uint8_t *buffer, argElement_1w c) {
-  FN(copy)((argElement_1w)buffer,c);
-  FN(modp)((argElement_1w)buffer);
+  EltFp448_1w_fullradix t;
+  FN(copy)(t,c);
+  FN(modp)(t);
+  memcpy(buffer,t,SIZE_FP448);
 }
 
 DECL(void, unser)(argElement_1w c, uint8_t *buffer) {
-  FN(copy)(c,(argElement_1w)buffer);
+  memcpy(c,buffer,SIZE_FP448);
   FN(modp)(c);
 }
 
diff --git a/src/eltfp448_1w_redradix.c b/src/eltfp448_1w_redradix.c
index dcc2f5d..6cf3f3f 100644
--- a/src/eltfp448_1w_redradix.c
+++ b/src/eltfp448_1w_redradix.c
@@ -365,7 +365,8 @@ DECL(void, sqrn)(argElement_1w A, unsigned int times) {
 DECL(void, unser)(argElement_1w C, uint8_t *p8A) {
   int i;
   const uint64_t mask = (((uint64_t)1)<<BASE_FP448)-1;
-  const argElement_1w A = (argElement_1w)p8A;
+  uint64_t A[SIZE_FP448/8];
+  memcpy(A,p8A,SIZE_FP448);
 
   C[0 ] =  A[0]>>0;
   C[2 ] = (A[0]>>BASE_FP448);
diff --git a/src/fp255.c b/src/fp255.c
index 7ec4d7f..f832a26 100644
--- a/src/fp255.c
+++ b/src/fp255.c
@@ -18,6 +18,7 @@
 
 #if defined(FP255)
 
+#include <string.h>
 #include "faz_fp_avx2.h"
 #include "simd_avx2.h"
 
diff --git a/src/fp448.c b/src/fp448.c
index 891424c..5f50965 100644
--- a/src/fp448.c
+++ b/src/fp448.c
@@ -18,6 +18,7 @@
 
 #if defined(FP448)
 
+#include <string.h>
 #include "faz_fp_avx2.h"
 #include "simd_avx2.h"
 
diff --git a/src/sign255.c b/src/sign255.c
index 51badba..de59418 100644
--- a/src/sign255.c
+++ b/src/sign255.c
@@ -267,9 +267,7 @@ static inline void calculate_s_ed25519(uint8_t *s_mod_l, uint8_t *r, uint8_t *k,
 
   word64_multiplier(product, (uint64_t *) k, 4, (uint64_t *) a, 4);
   modular_reduction_ed25519((uint8_t *) product);
-  for (i = 0; i < 4; i++) {
-    ((uint64_t *) s_mod_l)[i] = product[i];
-  }
+  memcpy(s_mod_l, product, ED25519_KEY_SIZE_BYTES_PARAM);
 }
 
 /**
-- 
2.43.0


From acc81972901c9b32ced2d876de98b33ae3d46963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:43 +0000
Subject: [PATCH 25/26] fix: decode an Ed25519 public key without assuming its
 alignment

---
 src/edwards255.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edwards255.c b/src/edwards255.c
index 4a5034f..8de6ba4 100644
--- a/src/edwards255.c
+++ b/src/edwards255.c
@@ -1100,7 +1100,7 @@ static inline int point_decoding_ed25519(
   one[0] = 1;
   bit_X = A[31] >> 7;
 
-  Fp25519._1w_full.arith.misc.copy(u, (argElement_1w) A);
+  memcpy(u, A, SIZE_FP25519);
   u[3] &= ((uint64_t) 1 << 63) - 1;
   Fp25519._1w_full.arith.misc.copy(Y, u);
   /*  Checking whether y is a canonical value, i.e. y < p */
-- 
2.43.0


From ade23c27056958c64c841ca447e00d915b9bb3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:15 +0000
Subject: [PATCH 26/26] fix: SHA-512 and SHAKE no longer access the caller's
 bytes as aligned words

---
 third_party/sha3.c   | 16 ++++++++++++----
 third_party/sha512.h |  2 +-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/third_party/sha3.c b/third_party/sha3.c
index 1432b3f..9107bcf 100644
--- a/third_party/sha3.c
+++ b/third_party/sha3.c
@@ -509,7 +509,9 @@ HashReturn SHAKE128(const BitSequence *data, DataLength databitlen, BitSequence
 
 	for ( /* empty */; inlen >= r; inlen -= r, tmp += r) {
 		for (j = 0; j < nr; j++) {
-			s[j] = s[j] ^ ((uint64_t *) tmp)[j];
+			uint64_t word;
+			memcpy(&word, tmp + 8 * j, sizeof(word));
+			s[j] = s[j] ^ word;
 		}
 		KeccakF2(s);
 	}
@@ -521,7 +523,9 @@ HashReturn SHAKE128(const BitSequence *data, DataLength databitlen, BitSequence
 	temp[r - 1] |= 0x80;
 
 	for (j = 0; j < nr; j++) {
-		s[j] = s[j] ^ ((uint64_t *) temp)[j];
+		uint64_t word;
+		memcpy(&word, temp + 8 * j, sizeof(word));
+		s[j] = s[j] ^ word;
 	}
 	KeccakF2(s);
 
@@ -558,7 +562,9 @@ HashReturn SHAKE256(const BitSequence *data, DataLength databitlen,
 
 	for ( /* empty */; inlen >= r; inlen -= r, tmp += r) {
 		for (j = 0; j < nr; j++) {
-			s[j] = s[j] ^ ((uint64_t *) tmp)[j];
+			uint64_t word;
+			memcpy(&word, tmp + 8 * j, sizeof(word));
+			s[j] = s[j] ^ word;
 		}
 		KeccakF2(s);
 	}
@@ -570,7 +576,9 @@ HashReturn SHAKE256(const BitSequence *data, DataLength databitlen,
 	temp[r - 1] |= 0x80;
 
 	for (j = 0; j < nr; j++) {
-		s[j] = s[j] ^ ((uint64_t *) temp)[j];
+		uint64_t word;
+		memcpy(&word, temp + 8 * j, sizeof(word));
+		s[j] = s[j] ^ word;
 	}
 	KeccakF2(s);
 
diff --git a/third_party/sha512.h b/third_party/sha512.h
index 8d27a1a..7ffba57 100644
--- a/third_party/sha512.h
+++ b/third_party/sha512.h
@@ -1014,7 +1014,7 @@ typedef long long sph_s64;
  */
 #elif defined __x86_64 || defined _M_X64
 
-#define SPH_DETECT_UNALIGNED         1
+#define SPH_DETECT_UNALIGNED         0
 #define SPH_DETECT_LITTLE_ENDIAN     1
 #define SPH_DETECT_UPTR              sph_u64
 #ifdef __GNUC__
-- 
2.43.0

